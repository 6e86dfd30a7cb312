//! C01 weight conservation, C02 cell construction
use crate::core::*;
use crate::ensure;
use crate::model::*;
use cres::cell::Cell;
use cres::cell_collector::CellCollector;
use cres::distance::{Distance, EuclWithScaledPt};
use cres::event::Event;
use cres::neighbour_search::{NaiveNeighbourSearch, TreeSearch};
use cres::resampler::{DefaultResamplerBuilder, ResamplerBuilder};
use cres::seeds::{StrategicSelector, Strategy as SeedStrategy};
use cres::traits::{ObserveCell, Resample};
use cres::{n64, N64};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum MaxCell {
    None,
    Finite(f64),
    Infinite,
}

impl MaxCell {
    pub fn opt(&self) -> Option<f64> {
        match self {
            MaxCell::None => None,
            MaxCell::Finite(f) => Some(*f),
            MaxCell::Infinite => Some(f64::INFINITY),
        }
    }
    /// largest allowed distance
    fn limit(&self) -> f64 {
        self.opt().unwrap_or(f64::MAX)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub events: Vec<Ev>,
    pub tau: f64,
    /// user-defined metric: taxicab distance between (x, y), infinite between classes
    pub coords: Option<Vec<(i32, i32, u8)>>,
    pub strategy: u8,
    pub max: MaxCell,
    pub naive: bool,
    pub threads: usize,
    /// event id of the event with index i is i * id_step + id_off
    pub id_step: usize,
    pub id_off: usize,
}

impl Case {
    fn id(&self, idx: usize) -> usize {
        idx * self.id_step + self.id_off
    }
    fn dist(&self, i: usize, j: usize) -> f64 {
        match &self.coords {
            Some(c) => coord_dist(c[i], c[j]),
            None => ref_dist(&self.events[i].out, &self.events[j].out, self.tau),
        }
    }
    /// rounding errors of distances
    fn eps(&self) -> f64 {
        if self.coords.is_some() {
            return 0.;
        }
        let scale = self.events.iter().map(|e| ref_dist(&e.out, &[], self.tau)).fold(1e-6, f64::max);
        1e-11 * scale
    }
    fn strategy(&self) -> SeedStrategy {
        match self.strategy {
            0 => SeedStrategy::Next,
            1 => SeedStrategy::MostNegative,
            _ => SeedStrategy::LeastNegative,
        }
    }
    fn to_events(&self) -> Vec<Event> {
        self.events.iter().enumerate().map(|(n, e)| to_event(e, self.id(n))).collect()
    }
}

fn coord_dist(a: (i32, i32, u8), b: (i32, i32, u8)) -> f64 {
    if a.2 == b.2 {
        ((a.0 - b.0).abs() + (a.1 - b.1).abs()) as f64
    } else {
        f64::INFINITY
    }
}

struct CoordDist(HashMap<usize, (i32, i32, u8)>);

impl Distance for CoordDist {
    fn distance(&self, a: &Event, b: &Event) -> N64 {
        n64(coord_dist(self.0[&a.id], self.0[&b.id]))
    }
}

#[derive(Debug, Clone)]
struct Obs {
    members: Vec<(usize, Vec<f64>)>,
    radius: f64,
    weight_sum: f64,
    nmembers: usize,
    nneg: usize,
}

#[derive(Default, Clone)]
struct Recorder {
    cells: Arc<Mutex<Vec<Obs>>>,
    finished: Arc<Mutex<Vec<usize>>>,
}

impl ObserveCell for Recorder {
    fn observe_cell(&self, cell: &Cell) {
        let o = Obs {
            members: cell.iter().map(|e| (e.id(), weights_of(e))).collect(),
            radius: cell.radius().into(),
            weight_sum: cell.weight_sum().into(),
            nmembers: cell.nmembers(),
            nneg: cell.nneg_weights(),
        };
        self.cells.lock().unwrap().push(o);
    }
    fn finish(&mut self) {
        let n = self.cells.lock().unwrap().len();
        self.finished.lock().unwrap().push(n);
    }
}

fn resample_with<D: Distance + Send + Sync>(case: &Case, d: D, obs: Recorder, events: Vec<Event>) -> Vec<Event> {
    let b = ResamplerBuilder::default()
        .seeds(StrategicSelector::new(case.strategy()))
        .distance(d)
        .max_cell_size(case.max.opt())
        .observer(obs);
    if case.naive {
        b.neighbour_search::<NaiveNeighbourSearch>().build().resample(events).unwrap()
    } else {
        b.neighbour_search::<TreeSearch>().build().resample(events).unwrap()
    }
}

pub fn pool(threads: usize) -> rayon::ThreadPool {
    rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap()
}

fn run(case: &Case, obs: Recorder) -> Vec<Event> {
    pool(case.threads).install(|| {
        let events = case.to_events();
        match &case.coords {
            Some(c) => {
                let m = c.iter().enumerate().map(|(n, c)| (case.id(n), *c)).collect();
                resample_with(case, CoordDist(m), obs, events)
            }
            None => resample_with(case, EuclWithScaledPt::new(n64(case.tau)), obs, events),
        }
    })
}

fn run_default(case: &Case, collect: bool) -> Vec<Event> {
    pool(case.threads).install(|| {
        let events = case.to_events();
        let collector = collect.then(|| std::rc::Rc::new(std::cell::RefCell::new(CellCollector::new())));
        let b = DefaultResamplerBuilder::default()
            .ptweight(case.tau)
            .strategy(case.strategy())
            .max_cell_size(case.max.opt())
            .cell_collector(collector);
        if case.naive {
            b.neighbour_search::<NaiveNeighbourSearch>().build().resample(events).unwrap()
        } else {
            b.neighbour_search::<TreeSearch>().build().resample(events).unwrap()
        }
    })
}

fn max_cell() -> BoxedStrategy<MaxCell> {
    prop_oneof![
        3 => Just(MaxCell::None),
        2 => (0i32..12).prop_map(|n| MaxCell::Finite(n as f64)),
        2 => (0.0..400.0f64).prop_map(MaxCell::Finite),
        1 => Just(MaxCell::Finite(0.)),
        1 => Just(MaxCell::Infinite),
    ]
    .boxed()
}

/// add a positive offset to some events so that the typical sample has a positive sum
fn mostly_positive(mut ev: Vec<Ev>, lift: u8) -> Vec<Ev> {
    for (n, e) in ev.iter_mut().enumerate() {
        if lift > 0 && n % (lift as usize + 1) != 0 {
            e.w[0] = e.w[0].abs();
        }
    }
    ev
}

fn case(n: std::ops::RangeInclusive<usize>, threads: std::ops::RangeInclusive<usize>, max_part: usize) -> BoxedStrategy<Case> {
    let coords = (1i32..=20, prop_oneof![Just(0i32), Just(3), Just(10)], prop_oneof![3 => Just(1u8), 1 => Just(3u8)]);
    (
        (events(n, max_part), 0u8..4).prop_map(|(e, l)| mostly_positive(e, l)),
        prop_oneof![2 => Just(0.0), 1 => Just(1.0), 1 => 0.0..5.0f64],
        prop::option::weighted(0.5, coords),
        0u8..3,
        max_cell(),
        any::<bool>(),
        threads,
        (1usize..4, 0usize..10),
    )
        .prop_flat_map(|(events, tau, coords, strategy, max, naive, threads, (id_step, id_off))| {
            let n = events.len();
            let c: BoxedStrategy<Option<Vec<(i32, i32, u8)>>> = match coords {
                None => Just(None).boxed(),
                Some((rx, ry, cl)) => vec((-rx..=rx, -ry..=ry, 0..cl), n).prop_map(Some).boxed(),
            };
            (Just(events), c).prop_map(move |(events, coords)| Case {
                events,
                tau,
                coords,
                strategy,
                max: max.clone(),
                naive,
                threads,
                id_step,
                id_off,
            })
        })
        .boxed()
}

fn check_conserved(case: &Case, after: &[Event]) -> Result<bool, String> {
    ensure!(
        after.len() == case.events.len(),
        "{} events went in, {} came out",
        case.events.len(),
        after.len()
    );
    let mut seen = HashSet::new();
    let nw = case.events.first().map(|e| e.w.len()).unwrap_or(0);
    let mut before_sum = vec![0.; nw];
    let mut before_abs = vec![0.; nw];
    let mut after_sum = vec![0.; nw];
    for e in &case.events {
        for (k, w) in e.w.iter().enumerate() {
            before_sum[k] += w;
            before_abs[k] += w.abs();
        }
    }
    let mut changed = false;
    for e in after {
        let id = e.id();
        ensure!(id >= case.id_off && (id - case.id_off) % case.id_step == 0, "unknown event id {id} in output");
        let idx = (id - case.id_off) / case.id_step;
        ensure!(idx < case.events.len() && seen.insert(idx), "event id {id} unknown or duplicated");
        ensure!(
            same_kin(&kin_of(e), &case.events[idx].out),
            "kinematics of event {id} changed: {:?} -> {:?}",
            case.events[idx].out,
            kin_of(e)
        );
        let w = weights_of(e);
        ensure!(w.len() == nw, "event {id} has {} weights instead of {nw}", w.len());
        for k in 0..nw {
            ensure!(w[k].is_finite(), "weight {k} of event {id} is {}", w[k]);
            after_sum[k] += w[k];
        }
        changed |= w != case.events[idx].w;
    }
    for k in 0..nw {
        ensure!(
            (before_sum[k] - after_sum[k]).abs() <= 1e-10 * before_abs[k] + 1e-300,
            "sum of weights {k}: {} before, {} after resampling (sum of |w| = {})",
            before_sum[k],
            after_sum[k],
            before_abs[k]
        );
    }
    Ok(changed)
}

fn labels(i: Info, c: &Case) -> Info {
    i.label(c.naive, "naive search")
        .label(!c.naive, "tree search")
        .label(c.coords.is_some(), "user metric")
        .label(matches!(c.max, MaxCell::Finite(_)), "limited cells")
        .label(c.events.first().is_some_and(|e| e.w.len() > 1), "several weights")
}

/// The generic and the default resampler have no more threads than
/// requested by the case, so concurrency comes from there only.
pub fn conservation(ctx: &mut Ctx) -> String {
    let check = |c: &Case| -> Outcome {
        let rec = Recorder::default();
        let after = run(c, rec.clone());
        let changed = check_conserved(c, &after)?;
        let cells = rec.cells.lock().unwrap();
        for o in cells.iter() {
            let distinct: HashSet<_> = o.members.iter().map(|m| m.0).collect();
            ensure!(distinct.len() == o.members.len(), "cell with repeated members {:?}", o.members);
        }
        Ok(labels(Info::new(changed && !cells.is_empty()), c).label(c.threads > 1, "parallel").label(cells.len() > 1, "several cells"))
    };
    let n = ctx.n(12_000, 150_000);
    ctx.part("sequential", n, || case(0..=20, 1..=1, 5), check);
    let n = ctx.n(4_000, 60_000);
    ctx.part("parallel", n, || case(2..=120, 2..=8, 3), check);
    let n = ctx.n(24, 1500);
    ctx.part_sharded("parallel-large", n, 2, || case(900..=1600, 1..=8, 2), check);
    let check_default = |c: &(Case, bool)| -> Outcome {
        let (c, collect) = c;
        let after = run_default(c, *collect);
        let changed = check_conserved(c, &after)?;
        Ok(labels(Info::new(changed), c).label(*collect, "with collector"))
    };
    let n = ctx.n(6_000, 60_000);
    ctx.part(
        "default-resampler",
        n,
        || {
            (case(0..=60, 1..=4, 4), any::<bool>())
                .prop_map(|(mut c, b)| {
                    c.coords = None;
                    (c, b)
                })
                .boxed()
        },
        check_default,
    );
    "Random event samples (0-1600 events, 0-5 particles each, 1-4 weights incl. zeros, ties and 24 decades of magnitude), \
     random metric (built-in with random pt weight, or user-defined taxicab/infinite), seed strategy, cell size limit, search algorithm and \
     1-8 threads; sums of every weight compared before and after. Non-trivial: at least one cell was formed and at least one weight changed."
        .into()
}

// -------------------------------------------------------------------- cells

/// Could `obs` be the cell around the seed `s`, given current weights `w`?
fn valid_cell(case: &Case, w: &[Vec<f64>], s: usize, members: &[usize], obs: &Obs) -> Result<(), String> {
    let limit = case.max.limit();
    let set: HashSet<usize> = members.iter().copied().collect();
    ensure!(set.contains(&s), "seed {s} is not a member of its cell");
    let n = case.events.len();
    let d: Vec<f64> = (0..n).map(|j| case.dist(s, j)).collect();
    // The user metric is exact. The built-in one is subject to rounding on the
    // scale of the distances compared during the search, not of `x` itself
    let eps = case.eps();
    let tol = |_x: f64| eps;
    let mut neigh: Vec<usize> = members.iter().copied().filter(|&m| m != s).collect();
    neigh.sort_by(|&a, &b| d[a].total_cmp(&d[b]));
    let radius = neigh.last().map(|&m| d[m]).unwrap_or(0.);
    ensure!(
        radius <= limit || radius - limit <= tol(radius),
        "cell radius {radius} above the maximum {limit}"
    );
    ensure!(
        obs.radius == radius || (obs.radius - radius).abs() <= tol(radius),
        "cell reports radius {} instead of {radius}",
        obs.radius
    );
    for j in 0..n {
        if !set.contains(&j) && !neigh.is_empty() {
            ensure!(
                d[j] >= radius || radius - d[j] <= tol(radius),
                "event {j} at distance {} is left out, but the cell extends to {radius}",
                d[j]
            );
        }
    }
    let scale: f64 = members.iter().map(|&m| w[m][0].abs()).sum();
    let tiny = 1e-12 * scale;
    let total: f64 = w[s][0] + neigh.iter().map(|&m| w[m][0]).sum::<f64>();
    ensure!(
        (total - obs.weight_sum).abs() <= tiny,
        "cell reports a weight sum of {} instead of {total}",
        obs.weight_sum
    );
    if total < -tiny {
        for j in 0..n {
            if !set.contains(&j) {
                ensure!(
                    d[j] > limit || (case.coords.is_none() && limit - d[j] <= tol(limit)),
                    "cell stops with negative weight {total} although event {j} at distance {} is within {limit}",
                    d[j]
                );
            }
        }
    }
    // the cell must not extend further than needed
    let mut sum = w[s][0];
    let mut i = 0;
    while i < neigh.len() {
        let mut k = i;
        while k + 1 < neigh.len() && (d[neigh[k + 1]] == d[neigh[i]] || d[neigh[k + 1]] - d[neigh[i]] <= tol(d[neigh[i]])) {
            k += 1;
        }
        let group = &neigh[i..=k];
        let gsum: f64 = group.iter().map(|&m| w[m][0]).sum();
        ensure!(sum < tiny, "weight sum {sum} was non-negative before adding events {group:?}");
        if k + 1 == neigh.len() {
            let gmax = group.iter().map(|&m| w[m][0]).fold(f64::NEG_INFINITY, f64::max);
            ensure!(
                sum + gsum - gmax < tiny,
                "the cell is larger than needed: already {} without one of {group:?}",
                sum + gsum - gmax
            );
        }
        sum += gsum;
        i = k + 1;
    }
    Ok(())
}

fn check_cells(case: &Case) -> Outcome {
    let rec = Recorder::default();
    let after = run(case, rec.clone());
    check_conserved(case, &after)?;
    let cells = rec.cells.lock().unwrap().clone();
    let fin = rec.finished.lock().unwrap().clone();
    ensure!(fin == vec![cells.len()], "observer was finished at {fin:?} cells out of {}", cells.len());

    let n = case.events.len();
    // seeds in the order of treatment; equal weights may come in any order
    let mut groups: Vec<Vec<usize>> = vec![];
    let neg: Vec<usize> = (0..n).filter(|&i| case.events[i].w[0] < 0.).collect();
    match case.strategy {
        0 => groups = neg.iter().map(|&i| vec![i]).collect(),
        s => {
            let mut sorted = neg.clone();
            let w = |i: usize| case.events[i].w[0];
            sorted.sort_by(|&a, &b| w(a).total_cmp(&w(b)));
            if s != 1 {
                sorted.reverse();
            }
            for i in sorted {
                match groups.last_mut() {
                    Some(g) if w(g[0]) == w(i) => g.push(i),
                    _ => groups.push(vec![i]),
                }
            }
        }
    }
    // weights before each cell, taken from what the observer saw
    let mut w: Vec<Vec<f64>> = case.events.iter().map(|e| e.w.clone()).collect();
    let mut history = vec![];
    let mut candidates: Vec<BTreeMap<usize, Result<(), String>>> = vec![];
    for (c, o) in cells.iter().enumerate() {
        let members: Vec<usize> = o.members.iter().map(|(id, _)| (id - case.id_off) / case.id_step).collect();
        let set: HashSet<_> = members.iter().collect();
        ensure!(set.len() == members.len() && o.nmembers == members.len(), "cell {c} has repeated members {members:?}");
        candidates.push(
            neg.iter()
                .filter(|&&s| w[s][0] < 0. && set.contains(&s))
                .map(|&s| (s, valid_cell(case, &w, s, &members, o)))
                .collect(),
        );
        history.push(w.clone());
        // everyone gets the mean
        let nw = case.events[0].w.len();
        for k in 0..nw {
            let sum: f64 = members.iter().map(|&m| w[m][k]).sum();
            let abs: f64 = members.iter().map(|&m| w[m][k].abs()).sum();
            let mean = sum / members.len() as f64;
            for (id, got) in &o.members {
                ensure!(
                    (got[k] - mean).abs() <= 1e-12 * abs,
                    "cell {c}: weight {k} of event {id} is {} instead of the mean {mean} over {members:?}",
                    got[k]
                );
                ensure!(got[k] == o.members[0].1[k], "cell {c}: weights {k} of the members differ");
            }
        }
        for (&m, (_, got)) in members.iter().zip(&o.members) {
            w[m] = got.clone();
        }
        let nneg = o.members.iter().filter(|m| m.1[0] < 0.).count();
        ensure!(o.nneg == nneg, "cell {c} reports {} negative weights instead of {nneg}", o.nneg);
    }
    history.push(w.clone());
    for e in &after {
        let idx = (e.id() - case.id_off) / case.id_step;
        ensure!(
            weights_of(e) == w[idx],
            "weights of event {idx} are {:?} in the end, but the last cell left them at {:?}",
            weights_of(e),
            w[idx]
        );
    }
    // assign cells to seeds
    struct Search<'a> {
        groups: &'a [Vec<usize>],
        cand: &'a [BTreeMap<usize, Result<(), String>>],
        history: &'a [Vec<Vec<f64>>],
        dead: HashSet<(usize, usize, Vec<usize>)>,
        deepest: (usize, String),
    }
    impl Search<'_> {
        // obs: next cell; g: current group; rest: seeds left in the group,
        // (seed, was non-negative at some time since the group became current)
        fn go(&mut self, obs: usize, g: usize, rest: Vec<(usize, bool)>) -> bool {
            let rest: Vec<(usize, bool)> =
                rest.into_iter().map(|(s, z)| (s, z || self.history[obs][s][0] >= 0.)).collect();
            let key = (obs, g, rest.iter().map(|(s, z)| 2 * s + usize::from(*z)).collect::<Vec<_>>());
            if !self.dead.insert(key) {
                return false;
            }
            if obs < self.cand.len() && g < self.groups.len() {
                for (i, (s, _)) in rest.iter().enumerate() {
                    match self.cand[obs].get(s) {
                        Some(Ok(())) => {
                            let mut r = rest.clone();
                            r.remove(i);
                            if self.go(obs + 1, g, r) {
                                return true;
                            }
                        }
                        Some(Err(e)) => self.note(obs, format!("cell {obs} (seed {s}): {e}")),
                        None => {}
                    }
                }
            }
            // done with this group?
            if let Some((s, _)) = rest.iter().find(|(_, z)| !z) {
                self.note(obs, format!("at cell {obs}: no cell for the seed {s} with weight {}", self.history[obs][*s][0]));
                return false;
            }
            if g >= self.groups.len() {
                if obs < self.cand.len() {
                    self.note(obs, format!("cell {obs} has no seed: only events with negative weight may be seeds, each at most once"));
                    return false;
                }
                return true;
            }
            let next = self.groups.get(g + 1).map(|v| v.iter().map(|&s| (s, false)).collect()).unwrap_or_default();
            self.go(obs, g + 1, next)
        }
        fn note(&mut self, obs: usize, msg: String) {
            if obs >= self.deepest.0 && (obs > self.deepest.0 || self.deepest.1.is_empty() || msg.contains("(seed")) {
                self.deepest = (obs, msg);
            }
        }
    }
    let mut search = Search {
        groups: &groups,
        cand: &candidates,
        history: &history,
        dead: HashSet::new(),
        deepest: (0, String::new()),
    };
    let first = groups.first().map(|v| v.iter().map(|&s| (s, false)).collect()).unwrap_or_default();
    if !search.go(0, 0, first) {
        return Err(format!("cells do not follow the definition: {}", search.deepest.1));
    }
    let multi = cells.iter().any(|c| c.members.len() > 1);
    let neg_after = after.iter().any(|e| weights_of(e)[0] < 0.);
    let became_zero = cells.len() < neg.len();
    Ok(labels(Info::new(multi), case)
        .label(cells.len() > 1, "several cells")
        .label(neg_after, "negative weights left")
        .label(became_zero, "seed no longer negative")
        .label(groups.iter().any(|g| g.len() > 1), "tied seeds"))
}

fn check_elimination(case: &Case) -> Outcome {
    let total: f64 = case.events.iter().map(|e| e.w[0]).sum();
    let abs: f64 = case.events.iter().map(|e| e.w[0].abs()).sum();
    let neg = case.events.iter().any(|e| e.w[0] < 0.);
    let after = run(case, Recorder::default());
    check_conserved(case, &after)?;
    if total > 1e-9 * abs {
        for e in &after {
            let w = weights_of(e)[0];
            ensure!(w >= -1e-12 * abs, "unlimited cells, total weight {total}, but event {} keeps weight {w}", e.id());
        }
    }
    Ok(Info::new(neg && total > 1e-9 * abs))
}

pub fn cells(ctx: &mut Ctx) -> String {
    let n = ctx.n(24_000, 300_000);
    ctx.part("small", n, || case(0..=14, 1..=1, 4), check_cells);
    let n = ctx.n(1_500, 20_000);
    ctx.part("medium", n, || case(20..=90, 1..=1, 3), check_cells);
    let n = ctx.n(24, 400);
    ctx.part(
        "large",
        n,
        || {
            // above the threshold for parallel tree construction
            case(1000..=1300, 1..=1, 2)
                .prop_map(|mut c| {
                    // keep the number of cells manageable for the reference
                    for (n, e) in c.events.iter_mut().enumerate() {
                        if n % 8 != 0 {
                            e.w[0] = e.w[0].abs() / 8.;
                        }
                    }
                    c
                })
                .boxed()
        },
        check_cells,
    );
    let n = ctx.n(6_000, 60_000);
    ctx.part(
        "elimination",
        n,
        || {
            case(2..=60, 1..=1, 3)
                .prop_map(|mut c| {
                    c.max = MaxCell::None;
                    if let Some(co) = &mut c.coords {
                        for x in co {
                            x.2 = 0;
                        }
                    }
                    c
                })
                .boxed()
        },
        check_elimination,
    );
    "Random samples with ties in weights and distances, one worker thread; every observed cell is compared to the definition \
     (seed order, nearest neighbours only, stop at the first non-negative sum or at the size limit, mean of every weight, radius, sum) using \
     independently computed distances, and the final weights to the observed cells. Non-trivial: some cell has at least two members \
     (elimination part: a negative weight with a positive total)."
        .into()
}
