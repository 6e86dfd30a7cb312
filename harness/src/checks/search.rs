//! C03 nearest-neighbour search, C04 distance
use crate::core::*;
use crate::ensure;
use crate::model::*;
use cres::distance::{Distance, DistWrapper, EuclWithScaledPt};
use cres::event::{Event, EventBuilder};
use cres::neighbour_search::{NaiveNeighbourSearch, TreeSearch};
use cres::traits::{NeighbourSearch, NeighbourSearchAlgo};
use cres::vptree::VPTree;
use cres::{n64, ParticleID, N64};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;

use super::resample::pool;

/// How distances between points are defined
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Metric {
    Taxicab,
    Chebyshev,
    Discrete,
    Euclid,
    /// d(a, b) = max(x_a, x_b) if a != b: an ultrametric with many exact ties
    Ultra,
}

type Pt = (i32, i32, u8);

impl Metric {
    fn dist(&self, a: Pt, b: Pt) -> f64 {
        if a.2 != b.2 {
            return f64::INFINITY;
        }
        let (dx, dy) = ((a.0 - b.0).abs(), (a.1 - b.1).abs());
        match self {
            Metric::Taxicab => (dx + dy) as f64,
            Metric::Chebyshev => dx.max(dy) as f64,
            Metric::Discrete => f64::from(dx + dy > 0),
            Metric::Euclid => ((dx * dx + dy * dy) as f64).sqrt(),
            Metric::Ultra => {
                if dx + dy == 0 {
                    0.
                } else {
                    a.0.abs().max(b.0.abs()) as f64 + 1.
                }
            }
        }
    }
    fn eps(&self) -> f64 {
        match self {
            Metric::Euclid => 1e-9,
            _ => 0.,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SearchCase {
    pts: Vec<Pt>,
    metric: Metric,
    max: f64,
    max_infinite: bool,
    queries: Vec<Idx>,
    threads: usize,
    take: usize,
}

struct PtDist<'a>(&'a SearchCase);

impl Distance<usize> for PtDist<'_> {
    fn distance(&self, a: &usize, b: &usize) -> N64 {
        n64(self.0.metric.dist(self.0.pts[*a], self.0.pts[*b]))
    }
}

struct DirectDist<'a>(&'a Metric);
impl Distance<Pt> for DirectDist<'_> {
    fn distance(&self, a: &Pt, b: &Pt) -> N64 {
        n64(self.0.dist(*a, *b))
    }
}

/// Is `found` a correct answer for the neighbours of a point with the given distances?
fn valid_neighbours(
    what: &str,
    found: &[(usize, f64)],
    dist: &[f64],
    query: Option<usize>,
    max: f64,
    eps: f64,
) -> Result<(), String> {
    let mut seen = HashSet::new();
    let mut last = 0.;
    for (n, &(idx, d)) in found.iter().enumerate() {
        ensure!(Some(idx) != query, "{what}: a point is its own neighbour");
        ensure!(idx < dist.len(), "{what}: unknown point {idx}");
        ensure!(seen.insert(idx), "{what}: point {idx} is returned twice");
        ensure!(
            d == dist[idx] || (d - dist[idx]).abs() <= eps,
            "{what}: neighbour {idx} reported at distance {d} instead of {}",
            dist[idx]
        );
        ensure!(d >= last || last - d <= eps, "{what}: neighbour {n} at distance {d} follows one at distance {last}");
        ensure!(d <= max, "{what}: neighbour at distance {d}, the maximum is {max}");
        last = d;
    }
    for (idx, &d) in dist.iter().enumerate() {
        if Some(idx) == query || seen.contains(&idx) {
            continue;
        }
        ensure!(
            d > max || (eps > 0. && d > max - eps),
            "{what}: point {idx} at distance {d} was not found, the maximum is {max} and {} of {} points were found",
            found.len(),
            dist.len()
        );
    }
    Ok(())
}

fn collect(i: impl Iterator<Item = (usize, N64)>) -> Vec<(usize, f64)> {
    i.map(|(n, d)| (n, f64::from(d))).collect()
}

fn compare_algos<D: Distance<usize> + Send + Sync>(
    d: D,
    d2: D,
    d3: D,
    dist: impl Fn(usize, usize) -> f64,
    n: usize,
    max: f64,
    queries: &[usize],
    take: usize,
    eps: f64,
) -> Result<(usize, usize), String> {
    let tree = TreeSearch::new_with_dist(n, d, n64(max));
    let naive = NaiveNeighbourSearch::new_with_dist(n, d2, n64(max));
    let seq = VPTree::seq_new((0..n).collect(), d3).with_max_dist(n64(max));
    let mut nfound = 0;
    let mut nmissing = 0;
    for &q in queries {
        let truth: Vec<f64> = (0..n).map(|j| dist(q, j)).collect();
        let t = collect((&tree).nearest(&q));
        valid_neighbours(&format!("tree search from {q}"), &t, &truth, Some(q), max, eps)?;
        let v = collect((&naive).nearest(&q));
        valid_neighbours(&format!("naive search from {q}"), &v, &truth, Some(q), max, eps)?;
        let s = collect((&seq).nearest(&q));
        valid_neighbours(&format!("sequentially built tree, search from {q}"), &s, &truth, Some(q), max, eps)?;
        // a search which is abandoned early finds a prefix, and does not affect later ones
        let p = collect((&tree).nearest(&q).take(take));
        ensure!(p[..] == t[..p.len()] && p.len() == take.min(t.len()), "repeated search from {q} differs: {p:?} and {t:?}");
        nfound += t.len();
        nmissing += n - 1 - t.len();
    }
    Ok((nfound, nmissing))
}

fn check_search(c: &SearchCase) -> Outcome {
    let n = c.pts.len();
    let max = if c.max_infinite { f64::INFINITY } else { c.max };
    let mut queries: Vec<usize> = c.queries.iter().map(|i| i.index(n)).collect();
    queries.sort_unstable();
    queries.dedup();
    let (found, missing) = pool(c.threads).install(|| {
        compare_algos(
            PtDist(c),
            PtDist(c),
            PtDist(c),
            |i, j| c.metric.dist(c.pts[i], c.pts[j]),
            n,
            max,
            &queries,
            c.take,
            c.metric.eps(),
        )
    })?;
    // trees over the points themselves, queried from anywhere
    let distinct: Vec<Pt> = c.pts.iter().copied().collect::<HashSet<_>>().into_iter().collect();
    let mut distinct = distinct;
    distinct.sort_unstable();
    let par = pool(c.threads).install(|| VPTree::new(distinct.clone(), DirectDist(&c.metric))).with_max_dist(n64(max));
    ensure!(f64::from(par.max_dist()) == max, "maximum distance not kept");
    for q in queries.iter().map(|&q| c.pts[q]).chain([(1, 2, 0), (40, -7, 0)]) {
        let truth: Vec<f64> = distinct.iter().map(|&p| c.metric.dist(q, p)).collect();
        let found: Vec<(usize, f64)> = par
            .nearest_in(&q)
            .map(|(p, d)| (distinct.binary_search(&p).unwrap(), f64::from(d)))
            .collect();
        let own = distinct.binary_search(&q).ok();
        if own.is_none() && matches!(c.metric, Metric::Ultra) {
            continue;
        }
        valid_neighbours(&format!("tree over points, search from {q:?}"), &found, &truth, own, max, c.metric.eps())?;
    }
    let (mut nodes, _) = par.into_nodes_dist();
    nodes.sort_unstable();
    ensure!(nodes == distinct, "the tree does not contain the points it was built from");
    Ok(Info::new(found > 1)
        .label(missing > 0, "limit reached")
        .label(c.pts.iter().any(|p| p.2 > 0), "infinite distances")
        .label(distinct.len() < n, "repeated points")
        .label(n >= 1000, "parallel tree")
        .tag(format!("{:?}", c.metric)))
}

fn search_case(n: std::ops::RangeInclusive<usize>, nq: usize) -> BoxedStrategy<SearchCase> {
    (
        n,
        1i32..=30,
        prop_oneof![Just(0i32), Just(4), Just(30)],
        prop_oneof![3 => Just(1u8), 1 => Just(2u8), 1 => Just(4u8)],
        prop_oneof![
            3 => Just(Metric::Taxicab),
            2 => Just(Metric::Chebyshev),
            1 => Just(Metric::Discrete),
            3 => Just(Metric::Euclid),
            2 => Just(Metric::Ultra)
        ],
        prop_oneof![2 => Just(f64::MAX), 1 => Just(0.0), 3 => (0i32..25).prop_map(|x| x as f64), 1 => 0.0..20.0f64],
        prop::bool::weighted(0.1),
        1usize..=4,
        0usize..8,
    )
        .prop_flat_map(move |(n, rx, ry, cl, metric, max, max_infinite, threads, take)| {
            (
                vec((-rx..=rx, -ry..=ry, 0..cl), n),
                vec(any::<prop::sample::Index>().prop_map(|i| Idx(i.index(1 << 20))), 1..=nq),
            )
                .prop_map(move |(pts, queries)| SearchCase {
                    pts,
                    metric: metric.clone(),
                    max,
                    max_infinite,
                    queries,
                    threads,
                    take,
                })
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EventSearch {
    events: Vec<Ev>,
    tau: f64,
    /// limit on the distance: none, or that between two events times a factor
    limit: Option<(usize, usize, f64)>,
    queries: Vec<usize>,
}

fn check_event_search(c: &EventSearch) -> Outcome {
    let n = c.events.len();
    let events: Vec<Event> = c.events.iter().enumerate().map(|(i, e)| to_event(e, i)).collect();
    let metric = EuclWithScaledPt::new(n64(c.tau));
    let dist = |i: usize, j: usize| ref_dist(&c.events[i].out, &c.events[j].out, c.tau);
    let scale = c.events.iter().map(|e| ref_dist(&e.out, &[], c.tau)).fold(1e-6, f64::max);
    let max = match c.limit {
        None => f64::MAX,
        Some((a, b, f)) => f * dist(a % n, b % n),
    };
    let queries: Vec<usize> = c.queries.iter().map(|q| q % n).collect();
    let mk = || DistWrapper::new(&metric, &events);
    let (found, missing) = compare_algos(mk(), mk(), mk(), dist, n, max, &queries, 3, 1e-11 * scale)?;
    Ok(Info::new(found > 1).label(missing > 0, "limit reached"))
}

pub fn neighbours(ctx: &mut Ctx) -> String {
    let n = ctx.n(20_000, 400_000);
    ctx.part("points", n, || search_case(1..=40, 4), check_search);
    let n = ctx.n(2_000, 40_000);
    ctx.part("many-points", n, || search_case(50..=300, 3), check_search);
    let n = ctx.n(80, 2_000);
    ctx.part("parallel-tree", n, || search_case(990..=2500, 2), check_search);
    let n = ctx.n(3_000, 60_000);
    ctx.part(
        "events",
        n,
        || {
            (
                events(1..=40, 4),
                prop_oneof![Just(0.0), 0.0..10.0f64],
                prop::option::of((0usize..40, 0usize..40, prop_oneof![Just(1.0), 0.5..1.5f64])),
                vec(0usize..40, 1..=3),
            )
                .prop_map(|(events, tau, limit, queries)| EventSearch { events, tau, limit, queries })
                .boxed()
        },
        check_event_search,
    );
    "Random point sets (1-2500 points, repeated points, exact ties, mutually infinite classes) under five metrics, and random events under the \
     built-in metric; random query points and distance limits. Results of the tree built in parallel, the tree built sequentially and the \
     naive search are each compared to exhaustively computed distances: order, completeness up to the limit, no repetition, self excluded. \
     Non-trivial: more than one neighbour was returned in total."
        .into()
}

// ---------------------------------------------------------------- distance

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DistCase {
    a: Vec<(i32, P4)>,
    b: Vec<(i32, P4)>,
    c: Vec<(i32, P4)>,
    tau: f64,
    scale: f64,
    perm: Vec<u32>,
    angle: f64,
}

fn build(out: &[(i32, P4)], id: usize, w: f64) -> Event {
    to_event(&Ev { w: vec![w], out: out.to_vec() }, id)
}

fn check_distance(c: &DistCase) -> Outcome {
    let m = EuclWithScaledPt::new(n64(c.tau));
    let d = |x: &Event, y: &Event| f64::from(m.distance(x, y));
    let (a, b, e) = (build(&c.a, 0, 1.), build(&c.b, 0, 1.), build(&c.c, 0, 1.));
    let norm = |o: &[(i32, P4)]| ref_dist(o, &[], c.tau);
    let scale = norm(&c.a).max(norm(&c.b)).max(norm(&c.c)).max(1e-200);
    let tol = 1e-11 * scale;
    let ab = d(&a, &b);
    let expected = ref_dist(&c.a, &c.b, c.tau);
    ensure!((ab - expected).abs() <= tol, "distance {ab} instead of {expected}");
    ensure!((d(&b, &a) - ab).abs() <= tol, "not symmetric: {ab} and {}", d(&b, &a));
    ensure!(ab >= 0., "negative distance {ab}");
    ensure!(d(&a, &a) <= tol, "distance {} of an event to itself", d(&a, &a));
    let (ac, cb) = (d(&a, &e), d(&e, &b));
    ensure!(ab <= ac + cb + tol, "triangle inequality: {ab} > {ac} + {cb}");
    // neither the order of particles nor energies, weights or ids matter
    let mut p: Vec<_> = c.a.iter().zip(c.perm.iter().cycle()).collect();
    p.sort_by_key(|x| x.1);
    let p: Vec<(i32, P4)> = p.into_iter().map(|x| *x.0).collect();
    let dp = d(&build(&p, 7, -3.), &b);
    ensure!((dp - ab).abs() <= tol, "depends on particle order, id, or weight: {dp} and {ab}");
    let hot: Vec<(i32, P4)> = c.a.iter().map(|(i, p)| (*i, [p[0] * 1.5 + 1., p[1], p[2], p[3]])).collect();
    let dh = d(&build(&hot, 0, 1.), &b);
    ensure!((dh - ab).abs() <= tol, "depends on particle energies: {dh} and {ab}");
    // homogeneous in the momenta
    let scaled = |o: &[(i32, P4)]| {
        let mut bld = EventBuilder::with_capacity(o.len());
        bld.add_weight(n64(1.));
        for (i, p) in o {
            bld.add_outgoing(ParticleID::new(*i), p.map(n64).into());
        }
        bld.rescale_energies(n64(c.scale));
        bld.build()
    };
    let ds = d(&scaled(&c.a), &scaled(&c.b));
    ensure!((ds - c.scale * ab).abs() <= tol * c.scale, "distance {ds} after scaling momenta by {}, was {ab}", c.scale);
    // invariant under rotations around the beam axis
    let (s, co) = c.angle.sin_cos();
    let rot = |o: &[(i32, P4)]| -> Vec<(i32, P4)> {
        o.iter().map(|(i, p)| (*i, [p[0], co * p[1] - s * p[2], s * p[1] + co * p[2], p[3]])).collect()
    };
    let dr = d(&build(&rot(&c.a), 0, 1.), &build(&rot(&c.b), 0, 1.));
    ensure!((dr - ab).abs() <= tol, "distance {dr} after a rotation, was {ab}");
    let largest = by_type(&c.a).values().chain(by_type(&c.b).values()).map(|v| v.len()).max().unwrap_or(0);
    let types = |o: &[(i32, P4)]| by_type(o).keys().copied().collect::<Vec<_>>();
    Ok(Info::new(ab > tol && !c.a.is_empty() && !c.b.is_empty())
        .label(largest > 3, "more than 3 particles of a type")
        .label(types(&c.a) != types(&c.b), "types differ")
        .label(ab <= tol, "zero distance"))
}

fn dist_case(max: usize, few: bool) -> BoxedStrategy<DistCase> {
    let p = move || if few { few_type_particles(max) } else { particles(max) };
    (
        p(),
        p(),
        p(),
        prop_oneof![2 => Just(0.0), 1 => Just(1.0), 2 => 0.0..20.0f64],
        prop_oneof![Just(1.0), 0.01..100.0f64],
        vec(any::<u32>(), 1..16),
        -4.0..4.0f64,
        0u8..6,
    )
        .prop_map(|(a, mut b, c, tau, scale, perm, angle, mode)| {
            if mode == 0 {
                // differ in one component only
                b = a.clone();
                if let Some(x) = b.first_mut() {
                    x.1[1 + perm[0] as usize % 3] += 1.;
                }
            }
            DistCase { a, b, c, tau, scale, perm, angle }
        })
        .boxed()
}

pub fn distance(ctx: &mut Ctx) -> String {
    let n = ctx.n(60_000, 1_500_000);
    ctx.part("mixed", n, || dist_case(7, false), check_distance);
    let n = ctx.n(20_000, 600_000);
    ctx.part("same-type", n, || dist_case(6, true), check_distance);
    let n = ctx.n(1_500, 40_000);
    ctx.part("many-particles", n, || dist_case(11, true), check_distance);
    "Random triples of events with up to 11 particles of up to 9 types and random pt weight; distance compared to a subset-DP optimal \
     assignment with zero-momentum padding, plus symmetry, identity, triangle inequality, independence of order, energy, weight and id, \
     homogeneity and rotation invariance. Non-trivial: both events have particles and the distance is positive."
        .into()
}
