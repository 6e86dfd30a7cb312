//! C15: the main loop with arbitrary components
use super::io::*;
use crate::core::*;
use crate::ensure;
use crate::fmt::*;
use crate::model::*;
use cres::cres::{CresBuilder, CresError};
use cres::event::{Event, Weights};
use cres::io::EventRecord;
use cres::traits::{Clustering, Resample, TryConvert, Unweight, UpdateWeights};
use parking_lot::Mutex;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::Arc;

thread_local! {
    static POOLS: RefCell<BTreeMap<usize, Arc<rayon::ThreadPool>>> = const { RefCell::new(BTreeMap::new()) };
}

/// A pool that is not shared with other cases that run at the same time
pub fn pool(n: usize) -> Arc<rayon::ThreadPool> {
    POOLS.with(|p| {
        p.borrow_mut()
            .entry(n)
            .or_insert_with(|| Arc::new(rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()))
            .clone()
    })
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Stage {
    Read,
    Convert,
    Cluster,
    Id,
    Resample,
    Unweight,
    Write,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Fault(Stage, usize);

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PEv {
    ev: Ev,
    /// which particles are kept in clustering
    keep: u16,
    /// work done by converter and clustering
    work: (u8, u8),
    kind: u8,
    /// new weights after resampling and unweighting, None: not returned
    resampled: Option<Vec<f64>>,
    unweighted: Option<Vec<f64>>,
}

impl PEv {
    fn clustered(&self) -> Vec<(i32, P4)> {
        self.ev.out.iter().enumerate().filter(|(n, _)| self.keep >> (n % 16) & 1 == 1).map(|(_, p)| *p).collect()
    }
    fn weights(&self, new: &[f64]) -> Vec<f64> {
        let nw = if MULTI { self.ev.w.len() } else { 1 };
        (0..nw).map(|k| new[k % new.len()] + (k / new.len()) as f64).collect()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PipeCase {
    evs: Vec<PEv>,
    threads: u8,
    hint: u8,
    order: (u32, u32),
    faults: Vec<(Stage, u8)>,
    /// the number of the run with faults, and the total number
    runs: (u8, u8),
}

/// What the components have seen
#[derive(Default)]
struct Log {
    pos: usize,
    faults: Vec<Fault>,
    calls: Vec<&'static str>,
    problems: Vec<String>,
    returned: Vec<(usize, Vec<f64>)>,
    written: Vec<Vec<f64>>,
    finished: bool,
    converted: Vec<usize>,
}

impl Log {
    fn fault(&self, s: Stage, n: usize) -> Result<(), Fault> {
        let f = Fault(s, n);
        if self.faults.contains(&f) {
            Err(f)
        } else {
            Ok(())
        }
    }
    fn reset(&mut self, faults: Vec<Fault>) {
        *self = Log { faults, ..Log::default() };
    }
}

#[derive(Clone)]
struct Shared {
    case: Arc<PipeCase>,
    log: Arc<Mutex<Log>>,
}

struct MockIO(Shared);

impl Iterator for MockIO {
    type Item = Result<EventRecord, Fault>;
    fn next(&mut self) -> Option<Self::Item> {
        let mut log = self.0.log.lock();
        let pos = log.pos;
        if let Err(f) = log.fault(Stage::Read, pos) {
            log.pos += 1;
            return Some(Err(f));
        }
        let e = self.0.case.evs.get(pos)?;
        log.pos += 1;
        let text = pos.to_string();
        Some(Ok(match e.kind % 3 {
            0 => EventRecord::HepMC(text),
            1 => EventRecord::LHEF(text),
            _ => EventRecord::StripperXml(text),
        }))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.0.case.evs.len().saturating_sub(self.0.log.lock().pos);
        match self.0.case.hint % 4 {
            0 => (0, None),
            1 => (n, Some(n)),
            2 => (n / 2, Some(2 * n)),
            _ => (0, Some(n)),
        }
    }
}

fn plain(w: &Weights) -> Vec<f64> {
    w.iter().map(|w| f64::from(*w)).collect()
}

impl UpdateWeights for MockIO {
    type Error = Fault;
    fn update_all_weights(&mut self, weights: &[Weights]) -> Result<usize, Fault> {
        let mut log = self.0.log.lock();
        log.calls.push("write");
        log.fault(Stage::Write, 0)?;
        log.written.extend(weights.iter().map(plain));
        log.finished = true;
        Ok(weights.len().min(self.0.case.evs.len()))
    }
    fn update_next_weights(&mut self, weights: &Weights) -> Result<bool, Fault> {
        let mut log = self.0.log.lock();
        if log.written.is_empty() {
            log.calls.push("write");
        }
        log.fault(Stage::Write, 0)?;
        if log.written.len() >= self.0.case.evs.len() {
            return Ok(false);
        }
        log.written.push(plain(weights));
        Ok(true)
    }
    fn finish_weight_update(&mut self) -> Result<(), Fault> {
        self.0.log.lock().finished = true;
        Ok(())
    }
}

const TAG: i32 = 9_900_001;

fn work(n: u8) {
    match n % 8 {
        0..=3 => {}
        4 | 5 => std::thread::yield_now(),
        6 => {
            let mut x = n as u64;
            for _ in 0..(n as usize * 40) {
                x = std::hint::black_box(x.wrapping_mul(6364136223846793005).wrapping_add(1));
            }
        }
        _ => std::thread::sleep(std::time::Duration::from_micros(n as u64)),
    }
}

impl TryConvert<EventRecord, Event> for Shared {
    type Error = Fault;
    fn try_convert(&self, r: EventRecord) -> Result<Event, Fault> {
        let text = match &r {
            EventRecord::HepMC(s) | EventRecord::LHEF(s) | EventRecord::StripperXml(s) => s,
            #[allow(unreachable_patterns)]
            _ => unreachable!(),
        };
        let n: usize = text.parse().unwrap();
        let pe = &self.case.evs[n];
        work(pe.work.0);
        {
            let mut log = self.log.lock();
            log.converted.push(n);
            log.fault(Stage::Convert, n)?;
        }
        let mut ev = pe.ev.clone();
        ev.out.push((TAG, [n as f64, 0., 0., 0.]));
        Ok(to_event(&ev, 0))
    }
}

impl Clustering for Shared {
    type Error = Fault;
    fn cluster(&self, ev: Event) -> Result<Event, Fault> {
        let kin = kin_of(&ev);
        let n = kin.iter().find(|p| p.0 == TAG).expect("a converted event").1[0] as usize;
        let pe = &self.case.evs[n];
        work(pe.work.1);
        self.log.lock().fault(Stage::Cluster, n)?;
        let id = match self.log.lock().fault(Stage::Id, n) {
            Ok(()) => 0,
            Err(_) => n + 1,
        };
        Ok(to_event(&Ev { w: weights_of(&ev), out: pe.clustered() }, id))
    }
}

fn permute<T>(v: &mut [T], mut s: u32) {
    for i in (1..v.len()).rev() {
        s = s.wrapping_mul(1664525).wrapping_add(1013904223);
        v.swap(i, s as usize % (i + 1));
    }
}

struct MockResampler(Shared);

impl Resample for MockResampler {
    type Error = Fault;
    fn resample(&mut self, evs: Vec<Event>) -> Result<Vec<Event>, Fault> {
        let mut log = self.0.log.lock();
        log.calls.push("resample");
        let case = &self.0.case;
        let mut got: Vec<usize> = evs.iter().map(|e| e.id()).collect();
        got.sort_unstable();
        let exp: Vec<usize> = (0..case.evs.len()).filter(|n| !case.evs[*n].clustered().is_empty()).collect();
        if got != exp {
            log.problems.push(format!("the resampler gets the events {got:?} instead of {exp:?}"));
        }
        for e in &evs {
            let Some(pe) = case.evs.get(e.id()) else { continue };
            let w = pe.ev.w[..if MULTI { pe.ev.w.len() } else { 1 }].to_vec();
            if weights_of(e) != w || !same_kin(&kin_of(e), &pe.clustered()) {
                log.problems.push(format!(
                    "the resampler gets event {} with weights {:?}, particles {:?} instead of {w:?}, {:?}",
                    e.id(),
                    weights_of(e),
                    kin_of(e),
                    pe.clustered()
                ));
            }
        }
        log.fault(Stage::Resample, 0)?;
        let mut res = vec![];
        for e in &evs {
            let Some(pe) = case.evs.get(e.id()) else { continue };
            if let Some(new) = &pe.resampled {
                let w = pe.weights(new);
                log.returned.push((e.id(), w.clone()));
                res.push(to_event(&Ev { w, out: kin_of(e) }, e.id()));
            }
        }
        permute(&mut res, case.order.0);
        Ok(res)
    }
}

struct MockUnweighter(Shared);

impl Unweight for MockUnweighter {
    type Error = Fault;
    fn unweight(&mut self, evs: Vec<Event>) -> Result<Vec<Event>, Fault> {
        let mut log = self.0.log.lock();
        log.calls.push("unweight");
        let case = &self.0.case;
        let mut got: Vec<(usize, Vec<f64>)> = evs.iter().map(|e| (e.id(), weights_of(e))).collect();
        got.sort_by_key(|a| a.0);
        log.returned.sort_by_key(|a| a.0);
        if got != log.returned {
            let exp = log.returned.clone();
            log.problems.push(format!("unweighting gets (id, weights) {got:?} instead of {exp:?}"));
        }
        log.fault(Stage::Unweight, 0)?;
        let mut res = vec![];
        for e in &evs {
            let Some(pe) = case.evs.get(e.id()) else { continue };
            if let Some(new) = &pe.unweighted {
                res.push(to_event(&Ev { w: pe.weights(new), out: kin_of(e) }, e.id()));
            }
        }
        permute(&mut res, case.order.1);
        Ok(res)
    }
}

fn check_pipe(c: &PipeCase) -> Outcome {
    let shared = Shared { case: Arc::new(c.clone()), log: Default::default() };
    let n = c.evs.len();
    let builder = CresBuilder {
        event_io: MockIO(shared.clone()),
        converter: shared.clone(),
        clustering: shared.clone(),
        resampler: MockResampler(shared.clone()),
        unweighter: MockUnweighter(shared.clone()),
    };
    let mut cres = builder.build();
    let pool = pool([1, 2, 4][c.threads as usize % 3]);
    let mut failed = false;
    for run in 0..c.runs.1.max(1) {
        let faults: Vec<Fault> = if run == c.runs.0 {
            c.faults
                .iter()
                .filter_map(|(s, p)| match s {
                    Stage::Read => Some(Fault(*s, *p as usize % (n + 1))),
                    Stage::Convert | Stage::Cluster | Stage::Id if n == 0 => None,
                    Stage::Convert | Stage::Cluster | Stage::Id => Some(Fault(*s, *p as usize % n)),
                    _ => Some(Fault(*s, 0)),
                })
                .collect()
        } else {
            vec![]
        };
        shared.log.lock().reset(faults.clone());
        let res = pool.install(|| no_panic(|| cres.run())).map_err(|p| format!("run {run} panics: {p}"))?;
        let log = shared.log.lock();
        if let Some(p) = log.problems.first() {
            return Err(format!("run {run}: {p}"));
        }
        let position = |s: Stage| faults.iter().filter(move |f| f.0 == s).map(|f| f.1);
        let read = position(Stage::Read).min();
        let limit = read.unwrap_or(n);
        // faults in reading or in the treatment of single events
        let event_fault = |s: Stage, p: usize| {
            p < limit
                && match s {
                    Stage::Convert => true,
                    Stage::Cluster => !faults.contains(&Fault(Stage::Convert, p)),
                    _ => !faults.contains(&Fault(Stage::Convert, p)) && !faults.contains(&Fault(Stage::Cluster, p)),
                }
        };
        let mut possible: Vec<Fault> = faults
            .iter()
            .filter(|f| match f.0 {
                Stage::Read => Some(f.1) == read,
                Stage::Convert | Stage::Cluster | Stage::Id => event_fault(f.0, f.1),
                _ => false,
            })
            .cloned()
            .collect();
        let early = !possible.is_empty();
        if possible.is_empty() {
            possible.extend(
                [Stage::Resample, Stage::Unweight, Stage::Write].into_iter().map(|s| Fault(s, 0)).find(|f| faults.contains(f)),
            );
        }
        let found = match &res {
            Ok(()) => None,
            Err(CresError::IOErr(f)) if matches!(f.0, Stage::Read | Stage::Write) => Some(f.clone()),
            Err(CresError::ConversionErr(f)) if f.0 == Stage::Convert => Some(f.clone()),
            Err(CresError::ClusterErr(f)) if f.0 == Stage::Cluster => Some(f.clone()),
            Err(CresError::ResamplingErr(f)) if f.0 == Stage::Resample => Some(f.clone()),
            Err(CresError::UnweightErr(f)) if f.0 == Stage::Unweight => Some(f.clone()),
            Err(CresError::IdErr(id)) if *id > 0 => Some(Fault(Stage::Id, *id - 1)),
            Err(e) => return Err(format!("run {run} ends with {e:?}")),
        };
        match &found {
            None => ensure!(possible.is_empty(), "run {run} succeeds in spite of {possible:?}"),
            Some(f) => ensure!(possible.contains(f), "run {run} ends with {f:?} instead of {possible:?}"),
        }
        failed |= found.is_some();
        let last = found.as_ref().map(|f| f.0);
        let calls: &[&str] = match last {
            _ if early => &[],
            Some(Stage::Resample) => &["resample"],
            Some(Stage::Unweight) => &["resample", "unweight"],
            _ => &["resample", "unweight", "write"],
        };
        ensure!(log.calls == calls, "run {run}: the stages {:?} are reached instead of {calls:?}", log.calls);
        let mut conv = log.converted.clone();
        conv.sort_unstable();
        let mut once = conv.clone();
        once.dedup();
        ensure!(once == conv, "run {run}: events are converted repeatedly: {conv:?}");
        if found.is_none() {
            ensure!(conv.len() == n, "run {run}: only the events {conv:?} are converted");
            ensure!(log.finished, "run {run}: output is not finished");
            ensure!(log.written.len() == n, "run {run}: {} sets of weights are written for {n} events", log.written.len());
            for (i, (pe, w)) in c.evs.iter().zip(&log.written).enumerate() {
                let orig = pe.ev.w[..if MULTI { pe.ev.w.len() } else { 1 }].to_vec();
                if pe.clustered().is_empty() {
                    ensure!(
                        w == &orig || MULTI && w.is_empty(),
                        "run {run}: event {i} without identified particles gets the weights {w:?} instead of {orig:?}"
                    );
                    continue;
                }
                let exp = match (&pe.resampled, &pe.unweighted) {
                    (Some(_), Some(u)) => pe.weights(u),
                    _ => vec![0.; orig.len()],
                };
                ensure!(*w == exp, "run {run}: the weights {w:?} are written for event {i} instead of {exp:?}");
            }
        }
    }
    let dropped = c.evs.iter().any(|e| e.resampled.is_none() || e.unweighted.is_none());
    Ok(Info::new(n > 1)
        .label(failed, "failure")
        .label(dropped, "discarded events")
        .label(c.runs.1 > 1, "several runs")
        .label(c.evs.iter().any(|e| e.clustered().is_empty()), "events without identified particles")
        .label(c.threads % 3 > 0, "several threads"))
}

fn pev() -> BoxedStrategy<PEv> {
    let new = || prop::option::weighted(0.8, vec(weight(), 1..=3));
    (
        (vec(weight(), 1..=3), particles(3)).prop_map(|(w, out)| Ev { w, out }),
        any::<u16>(),
        any::<(u8, u8)>(),
        any::<u8>(),
        new(),
        new(),
    )
        .prop_map(|(ev, keep, work, kind, resampled, unweighted)| PEv { ev, keep, work, kind, resampled, unweighted })
        .boxed()
}

fn stage() -> BoxedStrategy<Stage> {
    prop::sample::select(vec![Stage::Read, Stage::Convert, Stage::Cluster, Stage::Id, Stage::Resample, Stage::Unweight, Stage::Write]).boxed()
}

// ------------------------------------------------------- with real files

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RealCase {
    group: Group,
    threads: u8,
    keep: u8,
    order: u32,
    /// new weights, None: discarded
    new: Vec<Option<Vec<f64>>>,
    comp: Comp,
}

struct Select(u8);

impl Select {
    fn keeps(&self, id: i32) -> bool {
        self.0 >> (id.rem_euclid(5)) & 1 == 1
    }
}

impl Clustering for Select {
    type Error = std::convert::Infallible;
    fn cluster(&self, ev: Event) -> Result<Event, Self::Error> {
        let out = kin_of(&ev).into_iter().filter(|p| self.keeps(p.0)).collect();
        Ok(to_event(&Ev { w: weights_of(&ev), out }, ev.id()))
    }
}

struct Assign<'a> {
    expect: &'a [Ev],
    new: &'a [Option<Vec<f64>>],
    order: u32,
    problem: Arc<Mutex<Option<String>>>,
}

impl Resample for Assign<'_> {
    type Error = std::convert::Infallible;
    fn resample(&mut self, evs: Vec<Event>) -> Result<Vec<Event>, Self::Error> {
        let mut res = vec![];
        let mut n = 0;
        for e in evs {
            n += 1;
            let id = e.id();
            let ok = match self.expect.get(id) {
                None => Err("there is no such event".to_string()),
                Some(exp) => same_event(&e, exp, 1e-14),
            };
            if let Err(m) = ok {
                *self.problem.lock() = Some(format!("the resampler gets event {id}: {m}"));
                continue;
            }
            if let Some(w) = &self.new[id] {
                res.push(to_event(&Ev { w: w.clone(), out: kin_of(&e) }, id));
            }
        }
        let exp = self.expect.iter().filter(|e| !e.out.is_empty()).count();
        if n != exp {
            *self.problem.lock() = Some(format!("the resampler gets {n} events instead of {exp}"));
        }
        permute(&mut res, self.order);
        Ok(res)
    }
}

fn check_real(c: &RealCase) -> Outcome {
    // not all components can be sent to another thread
    pool([1, 2, 4][c.threads as usize % 3]).install(|| real_run(c))
}

fn real_run(c: &RealCase) -> Outcome {
    let g = &c.group;
    let dir = Scratch::new();
    let (io, stored) = open(g, dir.path(), to_cres(c.comp, 3))?;
    let sel = Select(c.keep);
    let nw = 1 + g.wanted.len();
    let mut expect = vec![];
    let mut new = vec![];
    let mut out = vec![];
    for (k, (n, i)) in g.events().into_iter().enumerate() {
        let f = &g.files[n];
        let mut e = f.event(i, &g.wanted);
        e.w[0] *= stored.scale[n];
        e.out.retain(|p| sel.keeps(p.0));
        let w = c.new.get(k % c.new.len().max(1)).cloned().flatten().map(|mut w| {
            while w.len() < nw {
                w.push(w[w.len() - 1] * 0.5 + 1.);
            }
            w.truncate(nw);
            for (k, name) in g.wanted.iter().enumerate() {
                if f.weight_pos(i, name) == 0 {
                    w[k + 1] = w[0];
                }
            }
            w
        });
        out.push(Some(match &w {
            _ if e.out.is_empty() => e.w.clone(),
            Some(w) => w.clone(),
            None => vec![0.; nw],
        }));
        new.push(w);
        expect.push(e);
    }
    let problem: Arc<Mutex<Option<String>>> = Default::default();
    let mut cres = CresBuilder {
        event_io: io,
        converter: converter(&g.wanted),
        clustering: sel,
        resampler: Assign { expect: &expect, new: &new, order: c.order, problem: problem.clone() },
        unweighter: cres::unweight::NO_UNWEIGHTING,
    }
    .build();
    let res = cres.run().map_err(|e| format!("{e:?}"));
    if let Some(p) = problem.lock().take() {
        return Err(p);
    }
    res.map_err(|e| format!("the run fails: {e}"))?;
    check_outputs(g, &stored, &out, c.comp)?;
    Ok(Info::new(out.len() > 1)
        .label(new.iter().any(|w| w.is_none()), "discarded events")
        .label(expect.iter().any(|e| e.out.is_empty()), "events without identified particles")
        .label(g.files.len() > 1, "several files")
        .label(!g.wanted.is_empty(), "named weights")
        .label(c.threads % 3 > 0, "several threads"))
}

pub fn pipeline(ctx: &mut Ctx) -> String {
    let mk = |n: std::ops::RangeInclusive<usize>| {
        (
            vec(pev(), n),
            any::<u8>(),
            any::<u8>(),
            any::<(u32, u32)>(),
            prop_oneof![2 => Just(vec![]), 3 => vec((stage(), any::<u8>()), 1..=3)],
            (0u8..2, 1u8..=2),
        )
            .prop_map(|(evs, threads, hint, order, faults, runs)| PipeCase { evs, threads, hint, order, faults, runs })
            .boxed()
    };
    let n = ctx.n(12_000, 400_000);
    ctx.part("components", n, || mk(0..=12), check_pipe);
    let n = ctx.n(800, 20_000);
    ctx.part("many-events", n, || mk(40..=200), check_pipe);
    let n = ctx.n(5_000, 120_000);
    ctx.part(
        "files",
        n,
        || {
            let new = vec(prop::option::weighted(0.8, vec(weight(), 1..=3)), 1..10);
            (group(0..=3, 0..=5, 5), any::<u8>(), any::<u8>(), any::<u32>(), new, comp())
                .prop_map(|(group, threads, keep, order, new, comp)| RealCase { group, threads, keep, order, new, comp })
                .boxed()
        },
        check_real,
    );
    "Cres::run with generated components that check what they are given: records in any format with any valid size hint, converters and \
     clusterings that take different times on 1 to 4 threads, resampling and unweighting that return events in any order with any weights and \
     drop some, and up to three faults at any stage and position, in up to two consecutive runs. The weights handed to the writer, the stages \
     reached and the returned error are compared to the specification. files: the same with real event files, where the output files are compared \
     entry by entry. Non-trivial: at least two events."
        .into()
}
