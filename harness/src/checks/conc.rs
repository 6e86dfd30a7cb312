//! C05 concurrent resampling
use crate::core::*;
use crate::ensure;
use crate::model::*;
use cres::cell::Cell;
use cres::distance::Distance;
use cres::event::Event;
use cres::neighbour_search::TreeSearch;
use cres::resampler::ResamplerBuilder;
use cres::seeds::{StrategicSelector, Strategy as SeedStrategy};
use cres::traits::{NeighbourSearch, Resample};
use cres::{n64, N64};
use itertools::Itertools;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc::{channel, RecvTimeoutError};
use std::sync::Arc;
use std::time::{Duration, Instant};

/// A neighbour search with predetermined result
pub struct Fixed(pub Vec<(usize, f64)>);

impl NeighbourSearch for &Fixed {
    type Iter = std::vec::IntoIter<(usize, N64)>;
    fn nearest(self, _point: &usize) -> Self::Iter {
        self.0.iter().map(|(n, d)| (*n, n64(*d))).collect::<Vec<_>>().into_iter()
    }
}

fn gettid() -> usize {
    unsafe { libc::syscall(libc::SYS_gettid) as usize }
}

/// (is sleeping, used CPU time) of a thread
fn thread_state(tid: usize) -> Option<(bool, u64)> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let cpu = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    Some((f[0] == "S", cpu))
}

/// Wait until `done`. Err if none of the `blockable` threads can ever proceed.
fn wait_done(mut done: impl FnMut(Duration) -> bool, mut blockable: impl FnMut() -> Vec<usize>) -> Result<(), String> {
    let start = Instant::now();
    let mut frozen: Option<(Vec<(usize, u64)>, Instant)> = None;
    loop {
        if done(Duration::from_millis(50)) {
            return Ok(());
        }
        let tids = blockable();
        let states: Vec<_> = tids.iter().map(|t| (*t, thread_state(*t))).collect();
        if !states.is_empty() && states.iter().all(|(_, s)| matches!(s, Some((true, _)))) {
            let now: Vec<(usize, u64)> = states.into_iter().map(|(t, s)| (t, s.unwrap().1)).collect();
            match &frozen {
                Some((old, since)) if *old == now => {
                    if since.elapsed() > Duration::from_secs(4) {
                        return Err(format!(
                            "deadlock: {} threads are all blocked without any progress",
                            now.len()
                        ));
                    }
                }
                _ => frozen = Some((now, Instant::now())),
            }
        } else {
            frozen = None;
        }
        if start.elapsed() > Duration::from_secs(300) {
            eprintln!("ERROR: no conclusion after 300 s");
            std::process::exit(4);
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ConcCase {
    /// central weights are -1 - w
    weights: Vec<Vec<u16>>,
    /// members in the order in which they are found, the first one is the seed
    cells: Vec<Vec<usize>>,
    rounds: usize,
}

const AT_BARRIER: usize = 1;
const WORKING: usize = 2;
const DONE: usize = 3;

fn check_serialisable(c: &ConcCase) -> Outcome {
    let n = c.weights.len();
    let initial: Vec<Vec<f64>> = c
        .weights
        .iter()
        .map(|w| w.iter().enumerate().map(|(k, &w)| if k == 0 { -1. - w as f64 } else { w as f64 }).take(if MULTI { w.len() } else { 1 }).collect())
        .collect();
    let nw = initial[0].len();
    let k = c.cells.len();
    // all possible results
    let mut results: Vec<Vec<Vec<f64>>> = vec![];
    for order in (0..k).permutations(k) {
        let mut w = initial.clone();
        for &cell in &order {
            let m = &c.cells[cell];
            for i in 0..nw {
                let mean = m.iter().map(|&j| w[j][i]).sum::<f64>() / m.len() as f64;
                for &j in m {
                    w[j][i] = mean;
                }
            }
        }
        results.push(w);
    }
    let rounds: Arc<Vec<Vec<Event>>> = Arc::new(
        (0..c.rounds)
            .map(|_| initial.iter().enumerate().map(|(id, w)| to_event(&Ev { w: w.clone(), out: vec![] }, id)).collect())
            .collect(),
    );
    let phase: Arc<Vec<AtomicUsize>> = Arc::new((0..k).map(|_| AtomicUsize::new(0)).collect());
    let tids: Arc<Vec<AtomicUsize>> = Arc::new((0..k).map(|_| AtomicUsize::new(0)).collect());
    let arrived = Arc::new(AtomicUsize::new(0));
    let (tx, rx) = channel::<Result<(), String>>();
    for t in 0..k {
        let (rounds, phase, tids, arrived, tx) = (rounds.clone(), phase.clone(), tids.clone(), arrived.clone(), tx.clone());
        let members = c.cells[t].clone();
        std::thread::spawn(move || {
            tids[t].store(gettid(), Ordering::SeqCst);
            let r = no_panic(|| {
                let ns = Fixed(members[1..].iter().enumerate().map(|(d, m)| (*m, d as f64)).collect());
                let mut wait = 0;
                let mut barrier = || {
                    phase[t].store(AT_BARRIER, Ordering::SeqCst);
                    wait += k;
                    arrived.fetch_add(1, Ordering::SeqCst);
                    let mut spins = 0u32;
                    while arrived.load(Ordering::SeqCst) < wait {
                        spins += 1;
                        if spins > 20_000 {
                            std::thread::yield_now();
                        } else {
                            std::hint::spin_loop();
                        }
                    }
                    phase[t].store(WORKING, Ordering::SeqCst);
                };
                for events in rounds.iter() {
                    let mut cell = Cell::new(events, members[0], &ns);
                    barrier();
                    cell.resample();
                    barrier();
                }
            });
            phase[t].store(DONE, Ordering::SeqCst);
            let _ = tx.send(r);
        });
    }
    drop(tx);
    let mut finished = 0;
    let mut panicked = None;
    wait_done(
        |timeout| {
            match rx.recv_timeout(timeout) {
                Ok(Ok(())) => finished += 1,
                Ok(Err(e)) => panicked = Some(e),
                Err(RecvTimeoutError::Timeout) => {}
                Err(RecvTimeoutError::Disconnected) => return true,
            }
            finished == k || panicked.is_some()
        },
        || {
            (0..k)
                .filter(|&t| phase[t].load(Ordering::SeqCst) == WORKING)
                .map(|t| tids[t].load(Ordering::SeqCst))
                .collect()
        },
    )
    .map_err(|e| format!("{e} (concurrently resampling cells {:?})", c.cells))?;
    if let Some(p) = panicked {
        // release the others
        arrived.fetch_add(1 << 40, Ordering::SeqCst);
        return Err(format!("panic while resampling concurrently: {p}"));
    }
    let mut orders = std::collections::HashSet::new();
    for (round, events) in rounds.iter().enumerate() {
        let w: Vec<Vec<f64>> = events.iter().map(weights_of).collect();
        let pos = results.iter().position(|r| {
            (0..n).all(|j| w[j].len() == nw && (0..nw).all(|i| (r[j][i] - w[j][i]).abs() <= 1e-9))
        });
        match pos {
            Some(p) => {
                orders.insert(p);
            }
            None => {
                return Err(format!(
                    "round {round}: concurrently resampling the cells {:?} gives weights {w:?}, which is not the result of any sequential order",
                    c.cells
                ))
            }
        }
    }
    let distinct = results.iter().any(|r| r != &results[0]);
    Ok(Info::new(distinct).label(orders.len() > 1, "several orders observed"))
}

fn conc_case() -> BoxedStrategy<ConcCase> {
    (2usize..=12, 1usize..=if MULTI { 24 } else { 1 }, 2usize..=4, 0u8..8)
        .prop_flat_map(|(n, nw, k, mode)| {
            let cells = vec((Just((0..n).collect::<Vec<_>>()).prop_shuffle(), 1..=n), k);
            (vec(vec(any::<u16>(), nw), n), cells, Just(mode))
        })
        .prop_map(|(weights, cells, mode)| {
            let mut seeds = std::collections::HashSet::new();
            let cells = cells
                .into_iter()
                .map(|(mut c, len)| {
                    // no event is the seed of two cells
                    while seeds.contains(&c[0]) && seeds.len() < c.len() {
                        c.rotate_left(1);
                    }
                    seeds.insert(c[0]);
                    // mode 0: all cells contain all events, in different order
                    c.truncate(if mode == 0 { c.len() } else { len.max(2) });
                    c
                })
                .collect();
            ConcCase { weights, cells, rounds: 60 }
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PoolCase {
    /// (class, position, weights)
    events: Vec<(u8, i32, Vec<i16>)>,
    threads: usize,
    max: Option<f64>,
    strategy: u8,
}

struct LineDist(Vec<(u8, i32)>);
impl Distance for LineDist {
    fn distance(&self, a: &Event, b: &Event) -> N64 {
        let (a, b) = (self.0[a.id], self.0[b.id]);
        if a.0 != b.0 {
            n64(f64::INFINITY)
        } else {
            n64((a.1 - b.1).abs() as f64)
        }
    }
}

fn run_pool(c: &PoolCase, threads: usize) -> Result<Vec<Event>, String> {
    let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
    let tids = pool.broadcast(|_| gettid());
    let (tx, rx) = channel();
    let c2 = c.clone();
    pool.spawn(move || {
        let r = no_panic(|| {
            let events: Vec<Event> = c2
                .events
                .iter()
                .enumerate()
                .map(|(id, (_, _, w))| to_event(&Ev { w: w.iter().map(|&w| w as f64).collect(), out: vec![] }, id))
                .collect();
            let d = LineDist(c2.events.iter().map(|e| (e.0, e.1)).collect());
            let s = [SeedStrategy::Next, SeedStrategy::MostNegative, SeedStrategy::LeastNegative][c2.strategy as usize % 3];
            ResamplerBuilder::default()
                .seeds(StrategicSelector::new(s))
                .distance(d)
                .max_cell_size(c2.max)
                .neighbour_search::<TreeSearch>()
                .build()
                .resample(events)
                .unwrap()
        });
        let _ = tx.send(r);
    });
    let mut res = None;
    wait_done(
        |t| match rx.recv_timeout(t) {
            Ok(r) => {
                res = Some(r);
                true
            }
            Err(RecvTimeoutError::Timeout) => false,
            Err(RecvTimeoutError::Disconnected) => {
                res = Some(Err("worker vanished".into()));
                true
            }
        },
        || tids.clone(),
    )
    .map_err(|e| {
        format!("{e} (resampling {} events on {threads} threads)", c.events.len())
    })?;
    res.unwrap().map_err(|e| format!("panic while resampling on {threads} threads: {e}"))
}

fn check_pool(c: &PoolCase) -> Outcome {
    let after = run_pool(c, c.threads)?;
    ensure!(after.len() == c.events.len(), "{} events out of {}", after.len(), c.events.len());
    let nw = c.events[0].2.len();
    let mut sum = vec![0.; nw];
    let mut abs = vec![0.; nw];
    for (_, _, w) in &c.events {
        for k in 0..nw {
            sum[k] += w[k] as f64;
            abs[k] += (w[k] as f64).abs();
        }
    }
    let mut got = vec![0.; nw];
    for e in &after {
        for (g, w) in got.iter_mut().zip(weights_of(e)) {
            *g += w;
        }
    }
    for k in 0..if MULTI { nw } else { 1 } {
        ensure!(
            (sum[k] - got[k]).abs() <= 1e-11 * abs[k],
            "sum of weights {k} is {} after resampling on {} threads, was {}",
            got[k],
            c.threads,
            sum[k]
        );
    }
    let classes: std::collections::HashSet<u8> = c.events.iter().map(|e| e.0).collect();
    let neg = c.events.iter().filter(|e| e.2[0] < 0).count();
    Ok(Info::new(neg > 1 && c.threads > 1).label(classes.len() == 1, "all cells may overlap"))
}

fn check_disjoint(c: &PoolCase) -> Outcome {
    // one seed per class: the cells are disjoint and the order is irrelevant
    let mut c = c.clone();
    let mut seen = std::collections::HashSet::new();
    for e in &mut c.events {
        e.2[0] = if seen.insert(e.0) { -e.2[0].saturating_abs() } else { e.2[0].saturating_abs() };
    }
    let one = run_pool(&c, 1)?;
    let many = run_pool(&c, c.threads.max(2))?;
    for (a, b) in one.iter().zip(&many) {
        ensure!(a.id() == b.id(), "order of events depends on the number of threads");
        ensure!(
            weights_of(a) == weights_of(b),
            "non-overlapping cells, but event {} has weights {:?} with one thread and {:?} with {}",
            a.id(),
            weights_of(a),
            weights_of(b),
            c.threads
        );
    }
    Ok(Info::new(seen.len() > 1).label(one.iter().zip(&c.events).any(|(a, b)| weights_of(a)[0] != b.2[0] as f64), "weights changed"))
}

fn pool_case(n: std::ops::RangeInclusive<usize>, classes: BoxedStrategy<u8>) -> BoxedStrategy<PoolCase> {
    (n, classes, 1i32..200, 1usize..=if MULTI { 8 } else { 1 }, 0u8..4)
        .prop_flat_map(|(n, cl, r, nw, bias)| {
            let w = vec(-50i16..=50, nw);
            (
                vec((0..cl, -r..=r, w), n).prop_map(move |mut v| {
                    for (i, e) in v.iter_mut().enumerate() {
                        if bias > 0 && i % (bias as usize + 1) != 0 {
                            e.2[0] = e.2[0].abs();
                        }
                    }
                    v
                }),
                2usize..=8,
                prop::option::of((0i32..100).prop_map(|x| x as f64)),
                0u8..3,
            )
        })
        .prop_map(|(events, threads, max, strategy)| PoolCase { events, threads, max, strategy })
        .boxed()
}

pub fn concurrency(ctx: &mut Ctx) -> String {
    let n = ctx.n(10_000, 200_000);
    ctx.part_sharded("serialisable", n, 2, conc_case, check_serialisable);
    let n = ctx.n(1_200, 20_000);
    ctx.part_sharded("resampler", n, 2, || pool_case(2..=400, prop_oneof![3 => Just(1u8), 1 => 2..5u8].boxed()), check_pool);
    let n = ctx.n(1_500, 30_000);
    ctx.part_sharded("disjoint", n, 2, || pool_case(2..=300, (2..40u8).boxed()), check_disjoint);
    "serialisable: 2-4 overlapping cells over 2-12 events with up to 24 weights each are resampled simultaneously from as many threads, \
     started by a spin barrier, 60 rounds per case; final weights must equal the result of one of the k! sequential orders. resampler: whole \
     runs on 2-8 threads must finish with the weight sums unchanged; disjoint: runs with non-overlapping cells must give bitwise the same weights as one thread. \
     Deadlock means every worker sleeping with no CPU time used for 4 s. Non-trivial: different orders give different results (serialisable), several cells (others)."
        .into()
}
