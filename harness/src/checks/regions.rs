//! C18 partitions, C19 classification
use super::cli::*;
use super::clus::*;
use super::io::*;
use crate::core::*;
use crate::ensure;
use crate::fmt::*;
use crate::model::*;
use cres::cluster::DefaultClustering;
use cres::distance::{Distance, DistWrapper, EuclWithScaledPt};
use cres::event::Event;
use cres::io::FileReader;
use cres::partition::{VPBisection, VPTreePartition};
use cres::traits::{Clustering, TryConvert};
use cres::vptree::VPTree;
use cres::{n64, N64};
use proptest::collection::vec;
use proptest::prelude::*;
use rayon::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::Path;

type EvPartition = VPTreePartition<Event, EuclWithScaledPt>;
type PartInfo = (DefaultClustering, EvPartition);

// ------------------------------------------------------------- validity of trees

/// the number of points needed for 2^depth regions
fn needed(depth: u32) -> usize {
    match depth {
        0 => 0,
        d => 3 * (1usize << (d - 1)) - 1,
    }
}

/// smallest and largest number of points in a region after removing the
/// vantage points and bisecting as evenly as possible
fn leaf_sizes(n: usize, depth: u32) -> (usize, usize) {
    let (mut lo, mut hi) = (n, n);
    for _ in 0..depth {
        lo = lo.saturating_sub(1) / 2;
        hi = hi.saturating_sub(1).div_ceil(2);
    }
    (lo, hi)
}

/// Region(s) of a point with the given distances to the vantage points,
/// several if it is too close to a boundary
fn possible_regions(radii: &[f64], dist: impl Fn(usize) -> f64, eps: f64) -> Vec<usize> {
    let mut todo = vec![0];
    let mut res = vec![];
    while let Some(i) = todo.pop() {
        if i >= radii.len() {
            res.push(i - radii.len());
            continue;
        }
        let (d, r) = (dist(i), radii[i]);
        let tied = d == r || (d - r).abs() <= eps * (d + r);
        if tied || d < r {
            todo.push(2 * i + 1);
        }
        if tied || d > r {
            todo.push(2 * i + 2);
        }
    }
    res.sort_unstable();
    res
}

/// Is this a valid, even bisection of `n` points?
///
/// pivot: index of the vantage points among the points
fn even_bisection(
    n: usize,
    depth: u32,
    pivot: &[usize],
    radii: &[f64],
    dist: impl Fn(usize, usize) -> f64,
    regions: &[usize],
    eps: f64,
) -> Result<bool, String> {
    ensure!(pivot.len() + 1 == 1 << depth, "{} regions instead of {}", pivot.len() + 1, 1 << depth);
    let mut sorted = pivot.to_vec();
    sorted.sort_unstable();
    sorted.dedup();
    ensure!(sorted.len() == pivot.len(), "an event is the vantage point of several bisections: {pivot:?}");
    // the vantage points further down are in the right region
    for c in 1..pivot.len() {
        let mut i = c;
        while i > 0 {
            let inside = i % 2 == 1;
            i = (i - 1) / 2;
            let (d, r) = (dist(pivot[i], pivot[c]), radii[i]);
            let tol = eps * (d + r);
            ensure!(
                d == r || if inside { d <= r + tol } else { d >= r - tol },
                "vantage point {c} is {} the region of vantage point {i}, but its distance is {d} and the radius {r}",
                if inside { "inside" } else { "outside" }
            );
        }
    }
    // an event on the boundary, and vantage points, may end up on either side
    let slack: Vec<usize> = (0..pivot.len())
        .map(|i| {
            (0..n)
                .filter(|&p| {
                    let (d, r) = (dist(pivot[i], p), radii[i]);
                    d == r || (d - r).abs() <= eps * (d + r)
                })
                .count()
        })
        .collect();
    let (lo, hi) = leaf_sizes(n, depth);
    let mut count = vec![0; 1 << depth];
    for &r in regions {
        ensure!(r < count.len(), "region {r} of {}", count.len());
        count[r] += 1;
    }
    let mut tight = true;
    for (k, &c) in count.iter().enumerate() {
        let mut i = k + pivot.len();
        let (mut less, mut more) = (0, 0);
        while i > 0 {
            i = (i - 1) / 2;
            less += slack[i];
            more += slack[i] + 1;
            tight &= slack[i] <= 1;
        }
        ensure!(
            c + less >= lo && c <= hi + more,
            "{c} of {n} events are in region {k}, but it should be {lo} to {hi}, at most {less} less or {more} more; all: {count:?}"
        );
    }
    Ok(tight)
}

// ---------------------------------------------------------------- C18: points

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Geo {
    Euclid,
    Taxicab,
    Chebyshev,
    Discrete,
    /// distances in steps
    Coarse(u8),
}

impl Geo {
    fn dist(self, a: [f64; 3], b: [f64; 3]) -> f64 {
        let d = [0, 1, 2].map(|k| (a[k] - b[k]).abs());
        match self {
            Geo::Euclid => d.iter().map(|x| x * x).sum::<f64>().sqrt(),
            Geo::Taxicab => d.iter().sum(),
            Geo::Chebyshev => d.iter().fold(0., |m: f64, x| m.max(*x)),
            Geo::Discrete => f64::from(a != b),
            Geo::Coarse(n) => (d.iter().sum::<f64>() * (n as f64 + 0.5)).ceil(),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PointCase {
    pts: Vec<[f64; 3]>,
    queries: Vec<[f64; 3]>,
    geo: Geo,
    depth: u32,
    /// threads, 0: sequential construction
    threads: usize,
}

struct GeoDist<'a>(&'a PointCase);
impl Distance<usize> for GeoDist<'_> {
    fn distance(&self, a: &usize, b: &usize) -> N64 {
        let p = |i: usize| self.0.pts.get(i).copied().unwrap_or_else(|| self.0.queries[i - self.0.pts.len()]);
        n64(self.0.geo.dist(p(*a), p(*b)))
    }
}

fn check_points(c: &PointCase) -> Outcome {
    let n = c.pts.len();
    let mut depth = c.depth;
    while needed(depth) > n {
        depth -= 1;
    }
    let d = GeoDist(c);
    let tree = if c.threads == 0 {
        VPTree::from_iter_with_dist_and_depth(0..n, d, depth as usize)
    } else {
        super::pipeline::pool(c.threads).install(|| VPTree::from_par_iter_with_dist_and_depth((0..n).into_par_iter(), d, depth as usize))
    };
    let part = VPTreePartition::from(tree);
    ensure!(part.len() == 1 << depth, "{} regions instead of {}", part.len(), 1 << depth);
    let all = n + c.queries.len();
    let regions: Vec<usize> = (0..all).map(|i| part.region(&i)).collect();
    // also when asked again, in other circumstances
    let again: Vec<usize> = (0..all).into_par_iter().map(|i| part.region(&i)).collect();
    ensure!(regions == again, "region changes from {regions:?} to {again:?}");
    let (pivot, radii): (Vec<usize>, Vec<f64>) = part.into_tree().into_iter().map(|b| (b.pt, f64::from(b.r))).unzip();
    let dist = |a: usize, b: usize| f64::from(GeoDist(c).distance(&a, &b));
    for (i, r) in regions.iter().enumerate() {
        let p = possible_regions(&radii, |k| dist(pivot[k], i), 0.);
        ensure!(p.contains(r), "point {i} is in region {r} instead of {p:?}");
    }
    ensure!(pivot.iter().all(|p| *p < n), "unknown vantage points {pivot:?}");
    let tight = even_bisection(n, depth, &pivot, &radii, dist, &regions[..n], 1e-14)?;
    Ok(Info::new(depth > 0 && n > 1)
        .label(tight && depth > 0, "no ties")
        .label(tight && depth > 1, "no ties, more than two regions")
        .label(needed(depth) + 2 > n, "few points")
        .label(n >= 1000 && c.threads > 0, "parallel construction"))
}

fn point() -> BoxedStrategy<[f64; 3]> {
    prop_oneof![
        4 => [-1.0..1.0f64, -1.0..1.0f64, -1.0..1.0f64],
        1 => [0.0..1.0f64, 0.0..1e-6f64, 0.0..1e3f64],
        1 => [-2i32..3, -2i32..3, 0i32..2].prop_map(|p| p.map(f64::from)),
    ]
    .boxed()
}

fn point_case(n: std::ops::RangeInclusive<usize>, ties: bool) -> BoxedStrategy<PointCase> {
    let geo = if ties {
        prop_oneof![
            Just(Geo::Euclid),
            Just(Geo::Taxicab),
            Just(Geo::Chebyshev),
            Just(Geo::Discrete),
            any::<u8>().prop_map(Geo::Coarse)
        ]
        .boxed()
    } else {
        prop_oneof![Just(Geo::Euclid), Just(Geo::Taxicab), Just(Geo::Chebyshev)].boxed()
    };
    let p = move || if ties { point() } else { [-1.0..1.0f64, -1.0..1.0f64, -1.0..1.0f64].boxed() };
    (vec(p(), n), vec(p(), 0..10), geo, 0u32..7, 0usize..5)
        .prop_map(|(pts, queries, geo, depth, threads)| PointCase { pts, queries, geo, depth, threads })
        .boxed()
}

// ---------------------------------------------------------------- C18: events

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EventCase {
    events: Vec<Ev>,
    queries: Vec<Ev>,
    depth: u32,
    ptweight: f64,
    rotate: usize,
}

fn ev_dist(a: &Ev, b: &Ev, tau: f64) -> f64 {
    ref_dist(&a.out, &b.out, tau)
}

fn check_events(c: &EventCase) -> Outcome {
    let n = c.events.len();
    let mut depth = c.depth;
    while needed(depth) > n {
        depth -= 1;
    }
    let dist = EuclWithScaledPt::new(n64(c.ptweight));
    let mut events: Vec<Event> = c.events.iter().enumerate().map(|(i, e)| to_event(e, i)).collect();
    let w = DistWrapper::new(&dist, &events);
    let tree = VPTree::from_iter_with_dist_and_depth(0..n, w, depth as usize);
    let tree = VPTreePartition::from(tree).into_tree();
    let pivot: Vec<usize> = tree.iter().map(|b| b.pt).collect();
    let radii: Vec<f64> = tree.iter().map(|b| f64::from(b.r)).collect();
    let tree: Vec<_> = tree.into_iter().map(|b| VPBisection { pt: std::mem::take(&mut events[b.pt]), r: b.r }).collect();
    let part: EvPartition = unsafe { VPTreePartition::from_vp(tree, dist) };
    let yaml = serde_yaml::to_string(&part).map_err(|e| format!("cannot save partition: {e}"))?;
    let loaded: EvPartition = serde_yaml::from_str(&yaml).map_err(|e| format!("cannot load partition {yaml}: {e}"))?;
    ensure!(loaded == part, "{part:?} becomes {loaded:?} after saving and loading");
    let json = serde_json::to_string(&part).map_err(|e| format!("cannot save partition: {e}"))?;
    let from_json: EvPartition = serde_json::from_str(&json).map_err(|e| format!("cannot load partition {json}: {e}"))?;
    ensure!(from_json == part, "{part:?} becomes {from_json:?} after saving and loading");

    let mut regions = vec![];
    let mut close = 0;
    for (i, e) in c.events.iter().chain(&c.queries).enumerate() {
        let ev = to_event(e, i);
        let r = part.region(&ev);
        let l = loaded.region(&ev);
        ensure!(l == r && from_json.region(&ev) == r, "event {i} in region {r} is in region {l} after saving and loading the partition");
        let ev2: Event = serde_yaml::from_str(&serde_yaml::to_string(&ev).unwrap()).map_err(|e| format!("{e}"))?;
        ensure!(part.region(&ev2) == r, "event {i} in region {r} is in region {} after saving and loading it", part.region(&ev2));
        let p = possible_regions(&radii, |k| ev_dist(&c.events[pivot[k]], e, c.ptweight), 1e-10);
        ensure!(p.contains(&r), "event {i} is in region {r} instead of {p:?}");
        if p.len() == 1 {
            // weights, ids and the order of particles are irrelevant
            let mut o = e.clone();
            let m = o.out.len().max(1);
            o.out.rotate_left(c.rotate % m);
            o.w = o.w.iter().map(|w| -2. * w).collect();
            let r2 = part.region(&to_event(&o, i + 1000));
            ensure!(r2 == r, "event {i} in region {r} is in region {r2} with other weights, id and order of particles");
        } else {
            close += 1;
        }
        if i < n {
            regions.push(r);
        }
    }
    let tight = even_bisection(n, depth, &pivot, &radii, |a, b| ev_dist(&c.events[a], &c.events[b], c.ptweight), &regions, 1e-10)?;
    Ok(Info::new(depth > 0)
        .label(tight && depth > 1, "no ties, more than two regions")
        .label(close > 0, "with events on boundaries")
        .label(!c.queries.is_empty(), "other events"))
}

fn event_case() -> BoxedStrategy<EventCase> {
    (events(1..=40, 5), events(0..=6, 5), 0u32..5, prop_oneof![Just(0.), 0.0..10.0f64], any::<usize>())
        .prop_map(|(events, queries, depth, ptweight, rotate)| EventCase { events, queries, depth, ptweight, rotate })
        .boxed()
}

// --------------------------------------------------------------- C18: program

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ProgCase {
    group: Group,
    opt: RunOpt,
    depth: u32,
    /// threads for another run
    again: Option<u8>,
    /// make most weights negative?
    flip: bool,
}

/// files of generated events with paths relative to `dir`
fn put_files(dir: &Path, g: &Group, name: impl Fn(usize) -> String) -> Vec<String> {
    std::fs::create_dir_all(dir.join("in")).unwrap();
    g.files
        .iter()
        .enumerate()
        .map(|(n, f)| {
            let name = format!("in/{}", name(n));
            write_file(&dir.join(&name), &f.render().text(), g.comps[n % g.comps.len()]);
            name
        })
        .collect()
}

fn flipped(g: &Group) -> Group {
    let mut g = g.clone();
    for r in g.files.iter_mut().flat_map(|f| &mut f.recs) {
        for w in &mut r.w {
            w.0 = -w.0;
        }
    }
    g
}

fn check_program(c: &ProgCase) -> Outcome {
    let dir = Scratch::new();
    let g = if c.flip { flipped(&c.group) } else { c.group.clone() };
    let infiles = put_files(dir.path(), &g, |n| format!("in{n}.dat"));
    let o = &c.opt;
    let clus = clustering(&o.clus_case(vec![]));
    let tau = o.ptweight.unwrap_or(0.);
    // the events to be considered
    let negative: Vec<Event> = g
        .events()
        .into_iter()
        .map(|(n, i)| g.files[n].event(i, &[]))
        .filter(|e| e.w[0] < 0.)
        .map(|e| clus.cluster(to_event(&e, 0)).unwrap())
        .collect();
    let run_it = |name: &str, threads: Option<u8>| {
        let mut st = Style(&o.style, 0);
        let mut groups = clus_args(&mut st, &o.jet, &o.lepton, &o.photon, o.neutrinos);
        groups.push(opt(&mut st, Some("o"), "outfile", name));
        groups.push(opt(&mut st, None, "regions", &(1u32 << c.depth).to_string()));
        if let Some(x) = o.ptweight {
            let x = number(&mut st, x);
            groups.push(opt(&mut st, None, "ptweight", &x));
        }
        if let Some(t) = threads {
            groups.push(opt(&mut st, Some("t"), "threads", &t.to_string()));
        }
        if let Some(n) = comp_name(&mut st, o.comp, o.level) {
            groups.push(opt(&mut st, None, "compression", &n));
        }
        let args = assemble(&mut st, groups, &infiles, dir.path());
        (run("cres-partition", &args, dir.path()), args)
    };
    let (r, args) = run_it("part.out", o.threads);
    let min = needed(c.depth).max(1);
    if negative.len() < min {
        ensure!(r.code == Some(1), "{} negative events in {} regions, {args:?}: {}", negative.len(), 1 << c.depth, r.status());
        ensure!(!r.stderr.trim().is_empty(), "failure without message");
        ensure!(!dir.join("part.out").exists(), "there is an output file in spite of an error: {}", r.stderr);
        return Ok(Info::new(true).tag("not enough events"));
    }
    ensure!(r.ok(), "{args:?}: {}", r.status());
    let yaml = read_file(&dir.join("part.out"), o.comp)?;
    let (got_clus, part): PartInfo = serde_yaml::from_str(&yaml).map_err(|e| format!("cannot load {yaml}: {e}"))?;
    let show = |c: &DefaultClustering| serde_yaml::to_string(c).unwrap();
    ensure!(
        show(&got_clus) == show(&clus),
        "clustering {:?} instead of {:?} in the output for {args:?}",
        show(&got_clus),
        show(&clus)
    );
    ensure!(part.len() == 1 << c.depth, "{} regions instead of {}", part.len(), 1 << c.depth);
    ensure!(
        serde_yaml::to_string(&(&got_clus, &part)).unwrap() == yaml,
        "the partition is different after loading and saving:\n{yaml}"
    );
    let regions: Vec<usize> = negative.iter().map(|e| part.region(e)).collect();
    let load = || serde_yaml::from_str::<PartInfo>(&yaml).unwrap().1.into_tree();
    let tree = load();
    let radii: Vec<f64> = tree.iter().map(|b| f64::from(b.r)).collect();
    let same: EvPartition = unsafe { VPTreePartition::from_vp(load(), EuclWithScaledPt::new(n64(tau))) };
    ensure!(same == part, "the output has not a weight {tau} for the transverse momentum: {yaml}");
    let kin: Vec<_> = negative.iter().map(kin_of).collect();
    let mut free = vec![true; negative.len()];
    let mut pivot = vec![];
    for (k, b) in tree.iter().enumerate() {
        let p = kin_of(&b.pt);
        let found = (0..negative.len()).find(|&i| free[i] && match_kin(&p, &kin[i], 1e-9).is_ok());
        let i = found.ok_or_else(|| format!("vantage point {k} is {p:?}, but there is no such (unused) event with negative weight"))?;
        free[i] = false;
        pivot.push(i);
    }
    let dist = |a: usize, b: usize| ref_dist(&kin[a], &kin[b], tau);
    for (i, r) in regions.iter().enumerate() {
        let p = possible_regions(&radii, |k| dist(pivot[k], i), 1e-9);
        ensure!(p.contains(r), "event {i} is in region {r} instead of {p:?}");
    }
    let tight = even_bisection(negative.len(), c.depth, &pivot, &radii, dist, &regions, 1e-9)?;
    if tight {
        if let Some(t) = c.again {
            let (r, args) = run_it("part2.out", Some(t % 4 + 1));
            ensure!(r.ok(), "{args:?}: {}", r.status());
            let yaml2 = read_file(&dir.join("part2.out"), o.comp)?;
            ensure!(yaml == yaml2, "with {} threads the result is {yaml2} instead of {yaml}", t % 4 + 1);
        }
    }
    Ok(Info::new(c.depth > 0)
        .label(tight && c.depth > 1, "no ties, more than two regions")
        .label(tight && c.again.is_some(), "repeated")
        .label(negative.len() == min, "as few events as possible")
        .label(o.comp != Comp::None, "compressed"))
}

fn threads() -> BoxedStrategy<Option<u8>> {
    prop::option::of(1u8..=4).boxed()
}

pub fn partition(ctx: &mut Ctx) -> String {
    let n = ctx.n(100_000, 3_000_000);
    ctx.part("points", n, || point_case(1..=120, true), check_points);
    let n = ctx.n(40_000, 1_000_000);
    ctx.part("no-ties", n, || point_case(2..=300, false), check_points);
    let n = ctx.n(200, 6_000);
    ctx.part("many-points", n, || point_case(1000..=3000, false), check_points);
    let n = ctx.n(16_000, 400_000);
    ctx.part("events", n, event_case, check_events);
    let n = ctx.n(7_000, 150_000);
    ctx.part(
        "program",
        n,
        || {
            (cli_case(1..=3, 0..=25, 7, threads()), 0u32..5, prop::option::of(any::<u8>()), prop::bool::weighted(0.7))
                .prop_map(|((group, opt), depth, again, flip)| ProgCase { group, opt, depth, again, flip })
                .boxed()
        },
        check_program,
    );
    "points: partitions of generated points with and without ties, up to 64 regions, sequential and parallel construction: as many regions as \
     requested, the region of each point and of other points follows from its distances to the vantage points (recomputed), vantage points are \
     distinct events on the right side of the bisections above, and the number of events per region is what repeated bisection at \
     the median gives, up to vantage points and events on the boundary. events: the same for events and the distance of the program (reference \
     implementation), also after saving and loading as YAML or JSON, and with other weights, ids and particle orders. program: cres-partition on \
     generated files: the file contains the requested clustering and distance, a partition as above of the negative-weight events, whatever the \
     number of threads; too few events are rejected without output. Non-trivial: more than one region or rejected."
        .into()
}

// ------------------------------------------------------------- C19 classification

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bisect {
    /// event which is the vantage point, or another one
    pivot: u16,
    /// quantile of the distances
    quantile: u16,
    /// a radius without relation to the events
    other: Option<f64>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ClassCase {
    group: Group,
    opt: RunOpt,
    depth: u32,
    tree: Vec<Bisect>,
    /// how the files are named
    names: Vec<u8>,
    part_comp: Comp,
    /// make the partition from the events with cres-partition
    by_program: bool,
}

fn file_name(choice: u8, n: usize) -> String {
    match choice % 9 {
        0 => format!("in{n}.hepmc"),
        1 => format!("events_{n}.lhe.gz"),
        2 => format!("{n}-a.b.c.d"),
        3 => format!("noext{n}"),
        4 => format!("end{n}."),
        5 => format!("with space{n}.x y"),
        6 => format!("ü{n}.ß"),
        7 => format!("n{n}..dat"),
        _ => format!("run{n}.0.hepmc"),
    }
}

/// possible names of the output for region `k`
fn out_names(name: &str, k: usize) -> Vec<String> {
    match name.split_once('.') {
        Some((p, s)) => vec![format!("{p}.{k}.{s}")],
        None => vec![format!("{name}.{k}."), format!("{name}.{k}")],
    }
}

fn footer(kind: Kind) -> &'static str {
    match kind {
        Kind::HepMC => "HepMC::IO_GenEvent-END_EVENT_LISTING",
        Kind::Lhef => "</LesHouchesEvents>",
        Kind::Xml => "</Eventrecord>",
    }
}

fn strip_footer(kind: Kind, s: &str) -> &str {
    let t = s.trim_end();
    t.strip_suffix(footer(kind)).unwrap_or(s)
}

/// Is the XML document complete and properly nested?
fn well_formed(s: &str) -> bool {
    let mut open: Vec<&str> = vec![];
    let mut rest = s;
    while let Some(p) = rest.find('<') {
        rest = &rest[p..];
        if rest.starts_with("<!--") {
            let Some(e) = rest.find("-->") else { return false };
            rest = &rest[e + 3..];
            continue;
        }
        let Some(e) = rest.find('>') else { return false };
        let tag = &rest[1..e];
        rest = &rest[e + 1..];
        if tag.starts_with('?') || tag.ends_with('/') {
            continue;
        }
        if let Some(name) = tag.strip_prefix('/') {
            if open.pop() != Some(name.trim()) {
                return false;
            }
        } else {
            open.push(tag.split_whitespace().next().unwrap_or(""));
        }
    }
    open.is_empty()
}

fn check_classify(c: &ClassCase) -> Outcome {
    let dir = Scratch::new();
    let g = &c.group;
    let o = &c.opt;
    let clus = clustering(&o.clus_case(vec![]));
    let tau = o.ptweight.unwrap_or(0.);
    let names: Vec<String> = (0..g.files.len()).map(|n| file_name(c.names[n % c.names.len()], n)).collect();
    let infiles = put_files(dir.path(), g, |n| names[n].clone());
    // events after clustering (which is checked elsewhere)
    let raw: Vec<Vec<Ev>> = g.files.iter().map(|f| (0..f.recs.len()).map(|i| f.event(i, &[])).collect()).collect();
    let kin: Vec<Vec<(i32, P4)>> = raw.iter().flatten().map(|e| kin_of(&clus.cluster(to_event(e, 0)).unwrap())).collect();

    let negative = raw.iter().flatten().filter(|e| e.w[0] < 0.).count();
    let by_program = c.by_program && negative >= needed(c.depth).max(1);
    let mut st = Style(&o.style, 0);
    if by_program {
        let mut groups = clus_args(&mut st, &o.jet, &o.lepton, &o.photon, o.neutrinos);
        groups.push(vec!["--outfile=part.yml".into()]);
        groups.push(vec![format!("--regions={}", 1 << c.depth)]);
        if let Some(x) = o.ptweight {
            groups.push(vec![format!("--ptweight={x}")]);
        }
        if let Some(n) = comp_name(&mut st, c.part_comp, None) {
            groups.push(vec![format!("--compression={n}")]);
        }
        let mut args = groups.concat();
        args.extend(infiles.iter().cloned());
        let r = run("cres-partition", &args, dir.path());
        ensure!(r.ok(), "cres-partition {args:?}: {}", r.status());
    } else {
        let mut tree = vec![];
        for b in &c.tree[..(1 << c.depth) - 1] {
            let pivot = if kin.is_empty() { vec![] } else { kin[b.pivot as usize % kin.len()].clone() };
            let mut d: Vec<f64> = kin.iter().map(|e| ref_dist(&pivot, e, tau)).collect();
            d.sort_by(f64::total_cmp);
            let r = match (b.other, d.len()) {
                (None, 2..) => {
                    let k = b.quantile as usize % (d.len() - 1);
                    0.5 * (d[k] + d[k + 1])
                }
                (x, _) => x.unwrap_or(10.),
            };
            let pt = to_event(&Ev { w: vec![-1.], out: pivot }, 0);
            tree.push(VPBisection { pt, r: n64(r) });
        }
        let part: EvPartition = unsafe { VPTreePartition::from_vp(tree, EuclWithScaledPt::new(n64(tau))) };
        write_file(&dir.join("part.yml"), &serde_yaml::to_string(&(&clus, part)).unwrap(), c.part_comp);
    }
    let yaml = read_file(&dir.join("part.yml"), c.part_comp)?;
    let (_, part): PartInfo = serde_yaml::from_str(&yaml).map_err(|e| format!("cannot load {yaml}: {e}"))?;
    let nreg = part.len();
    let tree: Vec<(Vec<(i32, P4)>, f64)> = part.into_tree().into_iter().map(|b| (kin_of(&b.pt), f64::from(b.r))).collect();
    let radii: Vec<f64> = tree.iter().map(|t| t.1).collect();

    let mut groups = vec![opt(&mut st, Some("p"), "partition", "part.yml"), opt(&mut st, Some("o"), "outdir", "out/dir")];
    if let Some(n) = comp_name(&mut st, o.comp, o.level) {
        groups.push(opt(&mut st, Some("c"), "compression", &n));
    }
    if st.next(3) == 0 {
        groups.push(opt(&mut st, Some("l"), "loglevel", "off"));
    }
    let args = assemble(&mut st, groups, &infiles, dir.path());
    let before: Vec<Vec<u8>> = infiles.iter().map(|f| std::fs::read(dir.join(f)).unwrap()).collect();
    let r = run("cres-classify-events", &args, dir.path());
    ensure!(r.ok(), "cres-classify-events {args:?}: {}", r.status());
    for (f, b) in infiles.iter().zip(&before) {
        ensure!(std::fs::read(dir.join(f)).unwrap() == *b, "input file {f} has changed");
    }

    let mut listed = listing(&dir.join("out/dir"));
    let mut kin = kin.iter();
    let mut used = vec![false; nreg];
    let mut ambiguous = 0;
    let mut torn = false;
    for (n, f) in g.files.iter().enumerate() {
        let r = f.render();
        let mut outs: Vec<String> = vec![];
        for k in 0..nreg {
            let cand = out_names(&names[n], k);
            let name = cand
                .iter()
                .find(|c| listed.contains(c))
                .ok_or_else(|| format!("there is no output {cand:?} for file {}, but {listed:?}", names[n]))?;
            listed.retain(|l| l != name);
            let path = dir.join("out/dir").join(name);
            let text = read_file(&path, o.comp).map_err(|e| format!("{name}: {e}"))?;
            let rest = text.strip_prefix(r.header.as_str()).ok_or_else(|| {
                let l = text.chars().take(r.header.len() + 20).collect::<String>();
                format!("{name} starts with {l:?} instead of the header {:?}", r.header)
            })?;
            let body = rest
                .trim_end()
                .strip_suffix(footer(f.kind))
                .ok_or_else(|| format!("{name} does not end with {:?} but with {:?}", footer(f.kind), tail(rest)))?;
            ensure!(rest.ends_with('\n'), "{name} does not end with a line break");
            outs.push(body.to_string());
            torn |= f.kind == Kind::Xml && !f.recs.is_empty() && !well_formed(&text);
        }
        let split: Vec<Vec<&str>> = outs
            .iter()
            .enumerate()
            .map(|(k, b)| {
                if b.trim().is_empty() {
                    return Ok(vec![]);
                }
                let (recs, rest) = split_records(f.kind, b);
                ensure!(rest.trim().is_empty(), "surplus {rest:?} in the output for region {k}");
                Ok(recs)
            })
            .collect::<Result<_, String>>()?;
        // each event is the next one in one of its possible regions
        let mut next = vec![0; nreg];
        let mut content: Vec<Vec<usize>> = vec![vec![]; nreg];
        for (i, rec) in r.recs.iter().enumerate() {
            let e = kin.next().unwrap();
            let possible = possible_regions(&radii, |t| ref_dist(&tree[t].0, e, tau), 1e-9);
            ambiguous += usize::from(possible.len() > 1);
            let expected = strip_footer(f.kind, rec);
            let is = |got: &str, last: bool| {
                if last || i + 1 == r.recs.len() {
                    got.trim_end() == expected.trim_end()
                } else {
                    got == expected
                }
            };
            let found = possible.iter().copied().find(|&k| split[k].get(next[k]).is_some_and(|got| is(got, next[k] + 1 == split[k].len())));
            let Some(k) = found else {
                let there: Vec<_> = possible.iter().map(|&k| (k, split[k].get(next[k]))).collect();
                return Err(format!(
                    "event {i} of {} belongs to region {possible:?}; instead of {expected:?} the next event there is {there:?}",
                    names[n]
                ));
            };
            next[k] += 1;
            used[k] = true;
            content[k].push(i);
        }
        for k in 0..nreg {
            ensure!(
                next[k] == split[k].len(),
                "the output of {} for region {k} has {} surplus events: {:?}",
                names[n],
                split[k].len() - next[k],
                split[k][next[k]]
            );
            // the output can be read again
            let name = out_names(&names[n], k).into_iter().find(|c| dir.join("out/dir").join(c).exists()).unwrap();
            let reader = FileReader::try_new(dir.join("out/dir").join(&name)).map_err(|e| format!("cannot read {name}: {e}"))?;
            let conv = converter(&[]);
            let mut count = 0;
            if !content[k].is_empty() || f.kind != Kind::HepMC {
                for e in reader {
                    let e = e.map_err(|e| format!("cannot read event {count} of {name}: {e}"))?;
                    let e = conv.try_convert(e).map_err(|e| format!("cannot read event {count} of {name}: {e}"))?;
                    ensure!(count < content[k].len(), "surplus event in {name}");
                    same_event(&e, &raw[n][content[k][count]], 1e-14).map_err(|e| format!("event {count} of {name}: {e}"))?;
                    count += 1;
                }
                ensure!(count == content[k].len(), "{count} events can be read from {name} instead of {}", content[k].len());
            }
        }
    }
    ensure!(listed.is_empty(), "unexpected output {listed:?}");
    if torn {
        ensure!(
            known("C19", "<e>"),
            "the elements of a STRIPPER XML file are not properly nested in the output"
        );
    }
    let nev: usize = raw.iter().map(|f| f.len()).sum();
    Ok(Info::new(used.iter().filter(|u| **u).count() > 1)
        .label(torn, "known finding: nesting of XML elements")
        .label(ambiguous > 0, "events on boundaries")
        .label(nev == 0, "no events")
        .label(by_program, "partition made by cres-partition")
        .label(used.iter().all(|u| *u) && nreg > 1, "all regions used")
        .label(g.files.iter().any(|f| f.recs.is_empty()), "empty file")
        .tag(format!("{nreg} regions")))
}

fn tail(s: &str) -> &str {
    let mut n = s.len().saturating_sub(60);
    while !s.is_char_boundary(n) {
        n += 1;
    }
    &s[n..]
}

fn class_case(files: std::ops::RangeInclusive<usize>, recs: std::ops::RangeInclusive<usize>) -> BoxedStrategy<ClassCase> {
    let bisect = (any::<u16>(), any::<u16>(), prop::option::weighted(0.1, prop_oneof![Just(0.), 0.0..500.0f64, Just(1e300)]))
        .prop_map(|(pivot, quantile, other)| Bisect { pivot, quantile, other });
    (
        (cli_case(files, recs, 7, threads()), 0u32..4),
        (vec(bisect, 7), vec(any::<u8>(), 1..4), comp(), prop::bool::weighted(0.25)),
    )
        .prop_map(|(((group, opt), depth), (tree, names, part_comp, by_program))| ClassCase { group, opt, depth, tree, names, part_comp, by_program })
        .boxed()
}

pub fn classify(ctx: &mut Ctx) -> String {
    let n = ctx.n(14_000, 400_000);
    ctx.part("files", n, || class_case(1..=3, 0..=8), check_classify);
    let n = ctx.n(1_500, 40_000);
    ctx.part("larger", n, || class_case(1..=2, 20..=80), check_classify);
    "cres-classify-events on generated files in all formats and compressions with generated partitions (vantage points among the events, radii \
     between their distances) or those made by cres-partition: for each file and region there is an output with the header and footer of the input, and \
     the events of the input are found, unchanged and in order, each exactly once in the output for its region, which is computed with a reference \
     implementation of the distance; the output can be read again and gives the same events. Non-trivial: events in at least two regions."
        .into()
}
