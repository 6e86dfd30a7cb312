//! C06 seeds, C07 unweighting, C09 event model, C21 cell collector
use super::conc::Fixed;
use super::resample::pool;
use crate::core::*;
use crate::ensure;
use crate::model::*;
use cres::cell::Cell;
use cres::cell_collector::CellCollector;
use cres::event::{Event, EventBuilder, Weights};
use cres::four_vector::FourVector;
use cres::seeds::{StrategicSelector, Strategy as SeedStrategy};
use cres::traits::{SelectSeeds, Unweight};
use cres::unweight::{Unweighter, NO_UNWEIGHTING};
use cres::{n64, ParticleID};
use proptest::collection::vec;
use proptest::prelude::*;
use rand::SeedableRng;
use rand_xoshiro::Xoshiro256Plus;
use rayon::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

// -------------------------------------------------------------------- seeds

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SeedCase {
    weights: Vec<Vec<f64>>,
    strategy: u8,
    threads: usize,
}

fn check_seeds(c: &SeedCase) -> Outcome {
    let events: Vec<Event> =
        c.weights.iter().enumerate().map(|(id, w)| to_event(&Ev { w: w.clone(), out: vec![] }, id * 3)).collect();
    let s = [SeedStrategy::Next, SeedStrategy::MostNegative, SeedStrategy::LeastNegative][c.strategy as usize];
    let selector = StrategicSelector::new(s);
    let seeds: Vec<usize> = pool(c.threads).install(|| selector.select_seeds(&events).collect());
    let w = |i: usize| c.weights[i][0];
    let expected: Vec<usize> = (0..c.weights.len()).filter(|&i| w(i) < 0.).collect();
    let mut sorted = seeds.clone();
    sorted.sort_unstable();
    ensure!(
        sorted == expected,
        "selected seeds {sorted:?}, but the events with negative weight are {expected:?}"
    );
    for p in seeds.windows(2) {
        let ok = match s {
            SeedStrategy::Next => p[0] < p[1],
            SeedStrategy::MostNegative => w(p[0]) <= w(p[1]),
            SeedStrategy::LeastNegative => w(p[0]) >= w(p[1]),
        };
        ensure!(ok, "{s:?}: seed {} (weight {}) comes before seed {} (weight {})", p[0], w(p[0]), p[1], w(p[1]));
    }
    // a single worker treats them in this order
    let seen = std::sync::Mutex::new(vec![]);
    pool(1).install(|| selector.select_seeds(&events).for_each(|s| seen.lock().unwrap().push(s)));
    let seen = seen.into_inner().unwrap();
    let key = |v: &[usize]| v.iter().map(|&i| if matches!(s, SeedStrategy::Next) { i as f64 } else { w(i) }).collect::<Vec<_>>();
    ensure!(key(&seen) == key(&seeds), "a single worker treats seeds in the order {seen:?} instead of {seeds:?}");
    for (e, w) in events.iter().zip(&c.weights) {
        ensure!(weights_of(e)[..] == w[..weights_of(e).len()], "selecting seeds changed event weights");
    }
    let default = StrategicSelector::default();
    if matches!(s, SeedStrategy::MostNegative) {
        ensure!(default == selector, "the default strategy is not to start with the most negative weight");
    }
    Ok(Info::new(seeds.len() > 1).label(seeds.len() > 64, "many seeds").label(c.threads > 1, "parallel"))
}

pub fn seeds(ctx: &mut Ctx) -> String {
    let mk = |n: std::ops::RangeInclusive<usize>| {
        let w = prop_oneof![weight(), Just(-0.0), (-3i32..2).prop_map(|x| x as f64)];
        let near = prop_oneof![3 => Just(0), 1 => any::<i32>().prop_map(|x| x >> (x & 31))];
        let units = prop_oneof![3 => scale().boxed(), 1 => Just(-1.).boxed()];
        (vec(vec((w, near), 1..=3), n), 0u8..3, 1usize..=8, units)
            .prop_map(|(w, strategy, threads, scale)| {
                let value = |(w, near): (f64, i32)| match scale {
                    // close to -1
                    -1. => -1. - near as f64 * f64::EPSILON,
                    s => w * s * (1. + near as f64 * f64::EPSILON),
                };
                let weights = w.into_iter().map(|w| w.into_iter().map(value).collect()).collect();
                SeedCase { weights, strategy, threads }
            })
            .boxed()
    };
    let n = ctx.n(20_000, 300_000);
    ctx.part("few", n, || mk(0..=40), check_seeds);
    let n = ctx.n(600, 10_000);
    ctx.part("many", n, || mk(100..=3000), check_seeds);
    "Random weights (zeros of both signs, ties, 24 decades), all strategies, 1-8 threads; the selection is compared to the set of \
     negative-weight events and the documented order (ties in any order). Non-trivial: at least two seeds."
        .into()
}

// --------------------------------------------------------------- unweighting

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct UnwCase {
    events: Vec<Ev>,
    min: f64,
    seed: u64,
}

fn check_unweight(c: &UnwCase) -> Outcome {
    let mk = || -> Vec<Event> { c.events.iter().enumerate().map(|(n, e)| to_event(e, 2 * n + 1)).collect() };
    let rng = || Xoshiro256Plus::seed_from_u64(c.seed);
    // no unweighting
    for after in [
        NO_UNWEIGHTING_ref(mk()),
        Unweighter::new(0., rng()).unweight(mk()).unwrap(),
    ] {
        ensure!(after.len() == c.events.len(), "events lost without unweighting");
        for (n, (a, e)) in after.iter().zip(&c.events).enumerate() {
            ensure!(
                a.id() == 2 * n + 1 && weights_of(a)[..] == e.w[..weights_of(a).len()] && same_kin(&kin_of(a), &e.out),
                "event {n} changed without unweighting"
            );
        }
    }
    let min = c.min;
    if min == 0. {
        return Ok(Info::new(false));
    }
    let after = Unweighter::new(min, rng()).unweight(mk()).unwrap();
    let again = Unweighter::new(min, rng()).unweight(mk()).unwrap();
    ensure!(
        after.len() == again.len() && after.iter().zip(&again).all(|(a, b)| a.id() == b.id()),
        "unweighting with the same seed selects different events"
    );
    let orig_sum: f64 = c.events.iter().map(|e| e.w[0]).sum();
    let abs: f64 = c.events.iter().map(|e| e.w[0].abs()).sum();
    let mut seen = HashSet::new();
    // weights before the overall rescaling
    let mut target = vec![];
    for a in &after {
        let idx = (a.id() - 1) / 2;
        ensure!(a.id() % 2 == 1 && idx < c.events.len() && seen.insert(idx), "unknown or repeated event id {}", a.id());
        let e = &c.events[idx];
        ensure!(same_kin(&kin_of(a), &e.out), "momenta of event {idx} changed");
        let w = e.w[0];
        ensure!(w != 0., "event {idx} with zero weight is kept");
        target.push((idx, if w.abs() >= min { w } else { min.copysign(w) }));
    }
    for (idx, e) in c.events.iter().enumerate() {
        ensure!(e.w[0].abs() < min || seen.contains(&idx), "event {idx} with |weight| {} >= {min} is discarded", e.w[0]);
    }
    let small = c.events.iter().filter(|e| e.w[0].abs() < min).count();
    let discarded = c.events.len() - after.len();
    let target_sum: f64 = target.iter().map(|t| t.1).sum();
    let target_abs: f64 = target.iter().map(|t| t.1.abs()).sum();
    // rescaling is not possible or not well-conditioned if weights cancel
    if target_sum.abs() <= 1e-6 * target_abs {
        return Ok(Info::new(false).tag("sum of kept weights cancels"));
    }
    let factor = orig_sum / target_sum;
    let tol = 1e-12 * (abs / target_sum.abs() + factor.abs() * target_abs / target_sum.abs());
    let mut sum = 0.;
    let mut abs_after = 0.;
    for (a, (idx, t)) in after.iter().zip(&target) {
        let w = weights_of(a);
        let e = &c.events[*idx];
        ensure!(
            (w[0] - factor * t).abs() <= tol * t.abs(),
            "event {idx} with weight {} ends up with {} instead of {} (minimum {min}, common factor {factor})",
            e.w[0],
            w[0],
            factor * t
        );
        for k in 1..w.len() {
            let exp = e.w[k] * (factor * t / e.w[0]);
            ensure!(
                (w[k] - exp).abs() <= (tol / factor.abs().max(1e-300) + 1e-12) * exp.abs() + tol * (e.w[k] * t / e.w[0]).abs(),
                "weight {k} of event {idx} is {} instead of {exp}: not rescaled like the central weight",
                w[k]
            );
        }
        sum += w[0];
        abs_after += w[0].abs();
    }
    ensure!(
        (sum - orig_sum).abs() <= 1e-11 * (abs + abs_after),
        "sum of weights {orig_sum} became {sum}"
    );
    Ok(Info::new(small > 0 && !after.is_empty())
        .label(discarded > 0, "some discarded")
        .label(discarded < small, "some reweighted")
        .label(c.events.iter().any(|e| e.w[0] < 0.), "negative weights"))
}

#[allow(non_snake_case)]
fn NO_UNWEIGHTING_ref(e: Vec<Event>) -> Vec<Event> {
    let mut n = NO_UNWEIGHTING;
    n.unweight(e).unwrap()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StatCase {
    /// probabilities to be kept, in units of 1/64
    levels: Vec<u8>,
    /// events per level
    n: usize,
    min: f64,
    negative: Vec<bool>,
    seed: u64,
}

fn check_stat(c: &StatCase) -> Outcome {
    let l = c.levels.len();
    let mut events = vec![];
    // one large weight, so that the final rescaling is harmless
    events.push(to_event(&Ev { w: vec![1e3 * c.min * (c.n * l) as f64], out: vec![] }, 0));
    for i in 0..c.n * l {
        let lev = c.levels[i % l];
        let sign = if c.negative[i % c.negative.len()] { -1. } else { 1. };
        events.push(to_event(&Ev { w: vec![sign * c.min * lev as f64 / 64.], out: vec![] }, i + 1));
    }
    let after = Unweighter::new(c.min, Xoshiro256Plus::seed_from_u64(c.seed)).unweight(events).unwrap();
    let kept: HashSet<usize> = after.iter().map(|e| e.id()).collect();
    let mut prev = vec![false; l];
    let mut same = vec![0usize; l];
    for (pos, &lev) in c.levels.iter().enumerate() {
        let p = lev as f64 / 64.;
        let ids = (0..c.n).map(|k| k * l + pos + 1);
        let n_kept = ids.clone().filter(|i| kept.contains(i)).count() as f64;
        let mean = p * c.n as f64;
        let sigma = (c.n as f64 * p * (1. - p)).sqrt();
        ensure!(
            (n_kept - mean).abs() <= 7. * sigma + 2.,
            "{n_kept} of {} events with |weight| = {p} * minweight are kept, expected {mean} ± {sigma}",
            c.n
        );
        // decisions for different events are independent
        for (k, i) in ids.enumerate() {
            let now = kept.contains(&i);
            if k > 0 && now == prev[pos] {
                same[pos] += 1;
            }
            prev[pos] = now;
        }
        let q = p * p + (1. - p) * (1. - p);
        let sigma = (c.n as f64).sqrt() / 2.;
        ensure!(
            (same[pos] as f64 - q * (c.n - 1) as f64).abs() <= 14. * sigma + 4.,
            "decisions to keep events are correlated: {} of {} coincide with the previous one, expected {}",
            same[pos],
            c.n - 1,
            q * (c.n - 1) as f64
        );
    }
    Ok(Info::new(c.levels.iter().any(|&l| l > 0 && l < 64)))
}

pub fn unweight(ctx: &mut Ctx) -> String {
    let n = ctx.n(40_000, 600_000);
    ctx.part(
        "exact",
        n,
        || {
            (
                events(0..=40, 2),
                prop_oneof![1 => Just(0.0), 2 => (1i32..5).prop_map(|x| x as f64), 4 => 0.01..2.0f64, 1 => (-10.0..10.0f64).prop_map(|e| 10f64.powf(e))],
                any::<u64>(),
                0u8..4,
                scale(),
            )
                .prop_map(|(mut events, min, seed, lift, scale)| {
                    let min = min * scale;
                    events.iter_mut().for_each(|e| e.w[0] *= scale);
                    if lift > 0 {
                        for e in &mut events {
                            e.w[0] = e.w[0].abs();
                        }
                    }
                    UnwCase { events, min, seed }
                })
                .boxed()
        },
        check_unweight,
    );
    let n = ctx.n(400, 6_000);
    ctx.part(
        "probability",
        n,
        || {
            (
                vec(prop_oneof![4 => 1u8..64, 1 => Just(0u8), 1 => Just(64u8)], 1..=6),
                1000usize..6000,
                prop_oneof![Just(1.0), 0.001..100.0f64],
                vec(any::<bool>(), 1..5),
                any::<u64>(),
            )
                .prop_map(|(levels, n, min, negative, seed)| StatCase { levels, n, min, negative, seed })
                .boxed()
        },
        check_stat,
    );
    "exact: random samples, thresholds and seeds; kept events must be a subset with all |w| >= threshold, every weight equal to a common \
     factor times max(|w|, threshold) with its sign, secondary weights scaled alike and the total unchanged (cases where kept weights cancel \
     to 1e-6 are counted as trivial). probability: 1000-6000 events per |w|/threshold level, frequency within 7 sigma and decisions uncorrelated. \
     Non-trivial: some event is below the threshold and some event is kept."
        .into()
}

// --------------------------------------------------------------- event model

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EvCase {
    w: Vec<f64>,
    out: Vec<(i32, P4)>,
    scale: f64,
    absent: Vec<i32>,
    other: Vec<(i32, P4)>,
    p: P4,
    q: P4,
}

fn f(x: cres::N64) -> f64 {
    x.into()
}

fn check_event_model(c: &EvCase) -> Outcome {
    let mut b = EventBuilder::new();
    for w in &c.w {
        b.add_weight(n64(*w));
    }
    for (id, p) in &c.out {
        b.add_outgoing(ParticleID::new(*id), p.map(n64).into());
    }
    let scaled = {
        let mut s = b.clone();
        s.rescale_energies(n64(c.scale));
        s.build()
    };
    let mut e = b.clone().build();
    let w: Vec<f64> = if MULTI { c.w.clone() } else { vec![c.w.last().copied().unwrap_or(0.)] };
    ensure!(weights_of(&e) == w, "weights {:?} instead of {w:?}", weights_of(&e));
    ensure!(e.n_weights() == w.len(), "{} weights reported, {} added", e.n_weights(), w.len());
    if let Some(w0) = w.first() {
        ensure!(f(e.weight()) == *w0, "central weight {} instead of {w0}", e.weight());
    }
    ensure!(e.id() == 0, "new event has id {}", e.id());
    ensure!(same_kin(&kin_of(&e), &c.out), "outgoing particles {:?} instead of {:?}", kin_of(&e), c.out);
    let mut ids = HashSet::new();
    for (id, p) in e.outgoing() {
        ensure!(ids.insert(id.id()), "particle id {} occurs in several groups", id.id());
        ensure!(!p.is_empty(), "empty group for id {}", id.id());
    }
    let groups = by_type(&c.out);
    let n_part: usize = groups.values().map(|g| g.len()).sum();
    for id in groups.keys().chain(&c.absent) {
        let found: Vec<(i32, P4)> = e
            .outgoing_with_pid(ParticleID::new(*id))
            .iter()
            .map(|p| (*id, [p[0], p[1], p[2], p[3]].map(f64::from)))
            .collect();
        let exp: Vec<(i32, P4)> = groups.get(id).map(|g| g.iter().map(|p| (*id, *p)).collect()).unwrap_or_default();
        ensure!(same_kin(&found, &exp), "particles with id {id}: {found:?} instead of {exp:?}");
    }
    for (_, ps) in e.outgoing() {
        for p in ps.iter() {
            let pt = (f(p[1]).powi(2) + f(p[2]).powi(2)).sqrt();
            ensure!(close(f(p.pt()), pt, pt, 1e-14), "transverse momentum {} instead of {pt}", p.pt());
        }
    }
    let expected: Vec<(i32, P4)> = c.out.iter().map(|(i, p)| (*i, p.map(|x| x * c.scale))).collect();
    ensure!(same_kin(&kin_of(&scaled), &expected), "momenta after rescaling by {}: {:?}", c.scale, kin_of(&scaled));
    ensure!(weights_of(&scaled) == w, "rescaling momenta changes weights");
    // equality is about the kinematics and the id, not about weights
    let mut rev = EventBuilder::with_capacity(3);
    rev.add_weight(n64(42.));
    for (id, p) in c.out.iter().rev() {
        rev.add_outgoing(ParticleID::new(*id), p.map(n64).into());
    }
    let mut rev: Event = rev.into();
    ensure!(rev == e, "events with the same particles in a different order differ");
    ensure!(rev.cmp(&e) == std::cmp::Ordering::Equal, "equal events are ordered");
    rev.id = 1;
    ensure!(rev > e && rev != e, "events are not ordered by id");
    let oth = to_event(&Ev { w: vec![1.], out: c.other.clone() }, 0);
    ensure!(
        (oth == e) == same_kin(&c.other, &c.out),
        "equality of events does not match equality of their particles"
    );
    // weights
    e.rescale_weights(n64(c.scale));
    let exp: Vec<f64> = w.iter().map(|w| w * c.scale).collect();
    ensure!(weights_of(&e) == exp, "weights {:?} after rescaling by {} instead of {exp:?}", weights_of(&e), c.scale);
    ensure!(same_kin(&kin_of(&e), &c.out), "rescaling weights changes particles");
    // round trip
    e.id = 17;
    let json = serde_json::to_string(&e).map_err(|e| format!("cannot serialise event: {e}"))?;
    let back: Event = serde_json::from_str(&json).map_err(|e| format!("cannot deserialise event: {e}"))?;
    ensure!(back == e && weights_of(&back) == weights_of(&e) && back.id() == 17, "event changes when serialised and read back");
    ensure!(back.into_outgoing().iter().map(|(_, p)| p.len()).sum::<usize>() == n_part, "particles lost");
    let mut single = Weights::new_single(n64(3.5));
    ensure!(single.len() == 1 && f(single.central()) == 3.5 && !single.is_empty(), "single weight");
    if w.len() == 1 {
        single.copy_from(&e.weights.read());
        single += &e.weights.read();
        ensure!(f(single.central()) == 2. * exp[0], "copying and adding weights");
    }
    // four-vectors
    let (p, q): (FourVector, FourVector) = (c.p.map(n64).into(), c.q.map(n64).into());
    for (name, r, op) in [("sum", p + q, 1.), ("difference", p - q, -1.)] {
        for i in 0..4 {
            ensure!(f(r[i]) == c.p[i] + op * c.q[i], "component {i} of {name}");
        }
        let pt = (f(r[1]).powi(2) + f(r[2]).powi(2)).sqrt();
        ensure!(close(f(r.pt()), pt, pt, 1e-14), "transverse momentum of {name}: {} instead of {pt}", r.pt());
        let s: f64 = (1..4).map(|i| f(r[i]).powi(2)).sum();
        ensure!(close(f(r.spatial_norm()), s.sqrt(), s.sqrt(), 1e-13), "spatial norm of {name}");
        ensure!(close(f(r.spatial_norm_sq()), s, s, 1e-13), "spatial norm squared of {name}");
        let n = s + f(r[0]).powi(2);
        ensure!(close(f(r.euclid_norm()), n.sqrt(), n.sqrt(), 1e-13), "euclidean norm of {name}");
    }
    Ok(Info::new(c.out.len() > 1).label(groups.values().any(|g| g.len() > 1), "several of a type"))
}

pub fn event_model(ctx: &mut Ctx) -> String {
    let n = ctx.n(40_000, 800_000);
    ctx.part(
        "events",
        n,
        || {
            let pid = || prop_oneof![2 => prop::sample::select(&PIDS[..]), 2 => -30i32..30, 1 => any::<i32>().prop_map(|i| i.max(-i32::MAX))];
            let out = move || vec((pid(), momentum()), 0..10);
            (vec(weight(), 0..4), out(), prop_oneof![-3.0..3.0f64, Just(0.0)], vec(pid(), 0..5), out(), momentum(), momentum(), 0u8..6)
                .prop_map(|(w, mut out, scale, absent, mut other, p, q, mode)| {
                    match mode {
                        0 => other = out.clone(),
                        1 => {
                            other = out.clone();
                            if let Some(l) = other.last_mut() {
                                l.1[3] += 1.;
                            }
                        }
                        2 => {
                            // repeated particles
                            let d = out.clone();
                            out.extend(d);
                        }
                        _ => {}
                    }
                    EvCase { w, out, scale, absent, other, p, q }
                })
                .boxed()
        },
        check_event_model,
    );
    "Random particle lists (repeated ids, identical momenta, arbitrary ids) and weights built into events; grouping, lookup by id, weights, \
     rescaling, equality, ordering, serialisation and four-vector arithmetic compared to plain lists. Non-trivial: at least two particles."
        .into()
}

// ------------------------------------------------------------ cell collector

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CollCase {
    weights: Vec<f64>,
    /// per thread: the cells (members, distance steps)
    cells: Vec<Vec<(Vec<usize>, Vec<u8>)>>,
    seed: u64,
}

/// A cell that was collected
#[derive(Clone, Debug, PartialEq)]
struct Known {
    members: Vec<usize>,
    radius: f64,
    weight: f64,
}

/// Compare the saved cells to a list of all collected cells
///
/// If `numbered` the position in the list is the number of the cell,
/// otherwise the cells can have been numbered in any order.
fn verify_collector(total: &CellCollector, known: &[Known], numbered: bool) -> Result<(), String> {
    total.dump_info();
    // event id -> numbers of the saved cells it is part of
    let map: HashMap<usize, Vec<usize>> = total.event_cells();
    let mut saved: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    for (event, cells) in &map {
        for cell in cells {
            saved.entry(*cell).or_default().insert(*event);
        }
    }
    let mut found = vec![];
    let mut taken = HashSet::new();
    for (number, members) in &saved {
        ensure!(*number < known.len(), "saved cell has number {number}, but there are only {} cells", known.len());
        let members: Vec<usize> = members.iter().copied().collect();
        if numbered {
            ensure!(
                members == known[*number].members,
                "cell number {number} is saved with events {members:?}, but has events {:?}",
                known[*number].members
            );
            found.push(&known[*number]);
        } else {
            let Some((n, k)) = known.iter().enumerate().find(|(_, k)| k.members == members) else {
                return Err(format!("saved cell number {number} with events {members:?} was never made"));
            };
            ensure!(taken.insert(n), "the cell with events {members:?} is saved with several numbers");
            found.push(k);
        }
    }
    // the ten largest in each respect
    let criteria: [(&str, Box<dyn Fn(&Known) -> f64>); 3] = [
        ("radius", Box::new(|k: &Known| k.radius)),
        ("number of members", Box::new(|k: &Known| k.members.len() as f64)),
        ("weight", Box::new(|k: &Known| k.weight)),
    ];
    for (what, key) in &criteria {
        let mut all: Vec<f64> = known.iter().map(|k| key(k)).collect();
        all.sort_by(|a, b| b.total_cmp(a));
        let mut got: Vec<f64> = found.iter().map(|k| key(k)).collect();
        got.sort_by(|a, b| b.total_cmp(a));
        let n = all.len().min(10);
        ensure!(
            got.len() >= n && got[..n] == all[..n],
            "the cells with the largest {what} are not all saved: saved {got:?}, largest {:?}",
            &all[..n]
        );
    }
    let max_saved = 50;
    ensure!(saved.len() <= max_saved, "{} cells are saved", saved.len());
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RunCase {
    /// per run: the cells, with the distances of other members from the seed and a scale for the weight
    runs: Vec<Vec<(Vec<u8>, u8)>>,
    /// collectors are handed on from one run to the next in the same resampler or a new one
    same: bool,
    threads: usize,
    naive: bool,
}

const SPACING: f64 = 1000.;

fn check_resampler_collector(c: &RunCase) -> Outcome {
    use cres::neighbour_search::{NaiveNeighbourSearch, TreeSearch};
    use cres::resampler::{DefaultResampler, DefaultResamplerBuilder};
    use cres::traits::Resample;
    use std::cell::RefCell;
    use std::rc::Rc;

    let mut known = vec![];
    let mut samples = vec![];
    let mut id = 7;
    for run in &c.runs {
        let mut events = vec![];
        for (k, (others, scale)) in run.iter().enumerate() {
            let scale = f64::from(*scale) + 1.;
            let mut members = vec![];
            // no other cell is within reach
            let mut add = |dist: f64, w: f64| {
                let px = SPACING * k as f64 + dist;
                events.push(to_event(&Ev { w: vec![w], out: vec![(11, [px, px, 0., 0.])] }, id));
                members.push(id);
                id += 1;
            };
            // complete only with all of the other events
            let n = others.len() as f64;
            add(0., (0.5 - n - if n == 0. { 1. } else { 0. }) * scale);
            for d in others {
                add(f64::from(*d), scale);
            }
            let radius = others.iter().max().copied().unwrap_or(0).into();
            let weight = if n == 0. { -0.5 * scale } else { 0.5 * scale };
            known.push(Known { members, radius, weight });
        }
        samples.push(events);
    }
    fn run<N>(c: &RunCase, samples: Vec<Vec<Event>>) -> Result<CellCollector, String>
    where
        DefaultResampler<N>: Resample,
    {
        let collector = Rc::new(RefCell::new(CellCollector::new()));
        let mk = || {
            DefaultResamplerBuilder::default()
                .strategy(SeedStrategy::Next)
                .max_cell_size(Some(SPACING / 4.))
                .cell_collector(Some(collector.clone()))
                .neighbour_search::<N>()
                .build()
        };
        let mut resampler = mk();
        for s in samples {
            if !c.same {
                resampler = mk();
            }
            resampler.resample(s).map_err(|_| "resampling fails".to_owned())?;
        }
        let from_resampler = resampler.cell_collector().ok_or("the resampler lost its cell collector")?;
        ensure!(from_resampler.borrow().event_cells() == collector.borrow().event_cells(), "the resampler has another cell collector");
        let res = collector.borrow().clone();
        Ok(res)
    }
    let total = pool(c.threads).install(|| if c.naive { run::<NaiveNeighbourSearch>(c, samples) } else { run::<TreeSearch>(c, samples) })?;
    verify_collector(&total, &known, c.threads == 1)?;
    Ok(Info::new(known.len() > 10)
        .label(c.threads > 1, "several threads")
        .label(c.runs.len() > 1, "several runs")
        .label(c.runs.len() > 1 && c.threads > 1 && known.len() > 20, "several runs with several threads and many cells"))
}

fn check_collector(c: &CollCase) -> Outcome {
    let events: Vec<Event> =
        c.weights.iter().enumerate().map(|(n, w)| to_event(&Ev { w: vec![*w], out: vec![] }, 100 + n)).collect();
    let mut known: Vec<Known> = vec![];
    let mut rng = Xoshiro256Plus::seed_from_u64(c.seed);
    let mut total: Option<CellCollector> = None;
    for group in &c.cells {
        let mut coll = CellCollector::new();
        for (members, steps) in group {
            let mut d = 0.;
            let ns = Fixed(
                members[1..]
                    .iter()
                    .zip(steps)
                    .map(|(m, s)| {
                        d += *s as f64;
                        (*m, d)
                    })
                    .collect(),
            );
            let cell = Cell::new(&events, members[0], &ns);
            let mut ids: Vec<usize> = cell.iter().map(|e| e.id()).collect();
            ids.sort_unstable();
            // the cell itself, by definition
            let mut exp = vec![members[0]];
            let mut sum = c.weights[members[0]];
            let mut radius = 0.;
            for (m, d) in &ns.0 {
                sum += c.weights[*m];
                exp.push(*m);
                radius = *d;
                if sum >= 0. {
                    break;
                }
            }
            let mut exp_ids: Vec<usize> = exp.iter().map(|m| m + 100).collect();
            exp_ids.sort_unstable();
            ensure!(ids == exp_ids, "cell has members {ids:?} instead of {exp_ids:?}");
            ensure!(f(cell.radius()) == radius && f(cell.weight_sum()) == sum, "cell radius or weight wrong");
            coll.collect(&cell, &mut rng);
            known.push(Known { members: ids, radius, weight: sum });
        }
        total = Some(match total {
            None => coll,
            Some(t) => t.combine(coll, &mut rng),
        });
    }
    verify_collector(&total.unwrap(), &known, true)?;
    Ok(Info::new(known.len() > 10)
        .label(c.cells.len() > 1, "combined")
        .label(c.cells.iter().filter(|g| g.len() > 10).count() > 1, "several full collectors combined"))
}

pub fn collector(ctx: &mut Ctx) -> String {
    let n = ctx.n(6_000, 100_000);
    ctx.part(
        "collector",
        n,
        || {
            (2usize..30, 1usize..=4, 1u8..=60)
                .prop_flat_map(|(n, groups, ncells)| {
                    let cell = (Just((0..n).collect::<Vec<_>>()).prop_shuffle(), 1..=n, vec(0u8..10, n)).prop_map(|(mut m, l, s)| {
                        m.truncate(l);
                        (m, s)
                    });
                    (
                        vec((-20i32..20).prop_map(|x| x as f64), n),
                        vec(vec(cell, 0..=ncells as usize), groups),
                        any::<u64>(),
                    )
                })
                .prop_map(|(mut weights, mut cells, seed)| {
                    // seeds have negative weight
                    for g in &mut cells {
                        for (m, _) in g {
                            if weights[m[0]] >= 0. {
                                weights[m[0]] = -weights[m[0]] - 1.;
                            }
                        }
                    }
                    CollCase { weights, cells, seed }
                })
                .boxed()
        },
        check_collector,
    );
    let n = ctx.n(12_000, 200_000);
    ctx.part(
        "resampler",
        n,
        || {
            let cell = (vec(0u8..60, 0usize..6), 0u8..20);
            (vec(vec(cell, 1usize..40), 1usize..=3), any::<bool>(), 1usize..=6, any::<bool>())
                .prop_map(|(runs, same, threads, naive)| RunCase { runs, same, threads, naive })
                .boxed()
        },
        check_resampler_collector,
    );
    "Random cells (1-30 members, tied radii, sizes and weights) are fed to 1-4 collectors, which are then combined; saved cells are compared \
     to the full list: numbering, members, and presence of the ten largest by radius, size and weight. The same for collectors that accompany 1-3 runs of the resampler with 1-6 threads on \
     events forming separate cells. Non-trivial: more than ten cells."
        .into()
}
