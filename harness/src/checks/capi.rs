//! C20: the C interface
use super::cli::*;
use super::clus::*;
use super::io::*;
use crate::core::*;
use crate::ensure;
use crate::fmt::*;
use crate::model::*;
use cres::c_api::distance::DistanceFn;
use cres::c_api::event::EventView;
use cres::cres::CresBuilder;
use cres::distance::{Distance, EuclWithScaledPt};
use cres::event::Event;
use cres::io::{Converter, IOBuilder};
use cres::neighbour_search::{NaiveNeighbourSearch, TreeSearch};
use cres::n64;
use cres::prelude::NO_UNWEIGHTING;
use cres::resampler::ResamplerBuilder;
use cres::traits::Resample;
use cres::N64;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::os::raw::c_void;
use std::path::{Path, PathBuf};

/// How the C program is asked to run
#[derive(Clone, Debug, Serialize, Deserialize)]
struct COpt {
    custom: bool,
    threads: u8,
    run: RunOpt,
    cwd: bool,
}

impl COpt {
    fn call(&self, outdir: &Path, infiles: &[PathBuf], change: &BTreeMap<&str, f64>) -> String {
        let o = &self.run;
        let num = |name: &str, x: f64| format!("{:?}", change.get(name).copied().unwrap_or(x));
        let mut s = format!(
            "run {} {} {} {} {} {} {} {}\n{}\n",
            u8::from(self.custom),
            num("ptweight", o.ptweight.unwrap_or(0.)),
            o.jet.algo % 3,
            num("radius", o.jet.r),
            num("pt", o.jet.pt),
            u8::from(o.naive == Some(true)),
            num("max", o.maxcell.unwrap_or(f64::INFINITY)),
            infiles.len(),
            outdir.display()
        );
        for f in infiles {
            s += &format!("{}\n", f.display());
        }
        s
    }
}

/// the distance function of the driver
struct Dist;

fn position(e: &Event) -> f64 {
    let mut x = 0.;
    for (id, ps) in e.outgoing().iter() {
        let f = 1. + 0.001 * id.id() as f64;
        for p in ps.iter() {
            let p: [f64; 4] = [p[0], p[1], p[2], p[3]].map(f64::from);
            x = x + f * (p[0] + 0.25 * p[1] + -0.5 * p[2] + p[3]);
        }
    }
    x
}

impl Distance for Dist {
    fn distance(&self, a: &Event, b: &Event) -> N64 {
        n64((position(a) - position(b)).abs())
    }
}

/// run the driver
fn drive(dir: &Path, calls: &[String], threads: u8) -> Result<Ran, String> {
    let name = dir.join("calls");
    std::fs::write(&name, format!("{}\n{}", calls.len(), calls.concat())).unwrap();
    let mut c = command("cres-driver", &[name.display().to_string()], dir);
    if threads > 0 {
        c.env("RAYON_NUM_THREADS", threads.to_string());
    }
    c.env("DRIVER_LOG", "off");
    let r = finish(c);
    ensure!(r.code.is_some(), "a program using the C interface is {}", r.status());
    assert!(r.ok(), "driver: {}", r.status());
    Ok(r)
}

struct RunResult {
    ret: i32,
    calls: u64,
    /// id -> weights, particles
    views: BTreeMap<usize, (Vec<f64>, Vec<(i32, P4)>)>,
}

fn parse_view(l: &str) -> Result<(usize, Vec<f64>, Vec<(i32, P4)>), String> {
    let (a, b) = l.split_once(" | ").ok_or("bad view")?;
    let mut a = a.split(' ');
    let id: usize = a.next().unwrap().parse().map_err(|_| format!("bad id in {l:?}"))?;
    let nw: usize = a.next().unwrap().parse().unwrap();
    let w: Vec<f64> = a.map(|x| x.parse().unwrap()).collect();
    assert_eq!(w.len(), nw);
    let mut b = b.split(' ');
    let mut next = || b.next().unwrap_or("");
    let mut out = vec![];
    let mut seen = vec![];
    for _ in 0..next().parse::<usize>().unwrap() {
        let pid: i32 = next().parse().unwrap();
        ensure!(!seen.contains(&pid), "two sets of particles with type {pid} in a view");
        seen.push(pid);
        let n: usize = next().parse().unwrap();
        for _ in 0..n {
            let mut p = [0.; 4];
            for x in &mut p {
                *x = next().parse().unwrap();
            }
            out.push((pid, p));
        }
    }
    sort_kin(&mut out);
    Ok((id, w, out))
}

enum Line {
    Run(RunResult),
    Get(i32, Vec<u8>),
    Print,
    Log(i32),
}

fn results(r: &Ran) -> Result<Vec<Line>, String> {
    let mut res = vec![];
    let mut views = BTreeMap::new();
    for l in r.stdout.lines() {
        let (what, rest) = l.split_once(' ').unwrap_or((l, ""));
        let f: Vec<&str> = rest.split(' ').collect();
        match what {
            "view" => {
                let (id, w, out) = parse_view(rest)?;
                views.insert(id, (w, out));
            }
            "run" => {
                ensure!(f[2] == "0", "the particles of an event in the distance function depend on the call");
                res.push(Line::Run(RunResult { ret: f[0].parse().unwrap(), calls: f[1].parse().unwrap(), views: std::mem::take(&mut views) }));
            }
            "get" => {
                ensure!(f[1] == "0", "cres_get_last_err writes outside the buffer");
                let h = f.get(2).copied().unwrap_or("");
                let b = (0..h.len() / 2).map(|n| u8::from_str_radix(&h[2 * n..2 * n + 2], 16).unwrap()).collect();
                res.push(Line::Get(f[0].parse().unwrap(), b));
            }
            "print" => res.push(Line::Print),
            "log" => res.push(Line::Log(f[0].parse().unwrap())),
            _ => panic!("unexpected output of the driver: {l:?}"),
        }
    }
    Ok(res)
}

/// the messages printed to stderr
fn printed(r: &Ran) -> Vec<String> {
    r.stderr.split("<<<").skip(1).map(|s| s.split(">>>").next().unwrap().to_string()).collect()
}

// ------------------------------------------------------------------ complete runs

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CRun {
    group: Group,
    opt: COpt,
    /// how often the same is done in the same process
    times: u8,
}

fn library(c: &CRun) -> Result<Vec<Vec<f64>>, String> {
    fn with<D: Distance + Send + Sync>(d: D, o: &RunOpt, events: Vec<Event>) -> Result<Vec<Event>, String> {
        let b = ResamplerBuilder::default().max_cell_size(o.maxcell).distance(d);
        if o.naive == Some(true) {
            b.neighbour_search::<NaiveNeighbourSearch>().build().resample(events)
        } else {
            b.neighbour_search::<TreeSearch>().build().resample(events)
        }
        .map_err(|e| format!("resampling: {e:?}"))
    }
    let o = &c.opt.run;
    single_threaded(|| {
        expected_with(&c.group, o, |events| {
            if c.opt.custom {
                with(Dist, o, events)
            } else {
                with(EuclWithScaledPt::new(n64(o.ptweight.unwrap_or(0.))), o, events)
            }
        })
    })
}

fn check_runs(c: &CRun) -> Outcome {
    let (g, o) = (&c.group, &c.opt.run);
    let exp = library(c)?;
    let dir = Scratch::new();
    std::fs::create_dir(dir.join("in")).unwrap();
    let stored = store(&dir.join("in"), &g.files, &g.comps, &g.norms);
    let infiles = event_files(&stored);
    let before: Vec<Vec<u8>> = infiles.iter().map(|f| std::fs::read(f).unwrap()).collect();
    let rel: Vec<PathBuf> = infiles.iter().map(|f| if c.opt.cwd { f.strip_prefix(dir.path()).unwrap().into() } else { f.clone() }).collect();
    let times = 1 + usize::from(c.times % 4 == 0);
    let mut calls = vec!["log DRIVER_LOG\n".to_string()];
    for n in 0..times {
        calls.push(c.opt.call(&dir.join(format!("new/out {n}")), &rel, &BTreeMap::new()));
    }
    calls.push("get 60\n".into());
    let r = drive(dir.path(), &calls, c.opt.threads)?;
    let res = results(&r)?;
    // no error so far
    match &res[..] {
        [Line::Log(0), .., Line::Get(0, b)] => {
            ensure!(b[0] == 0 || b.iter().all(|b| *b == 0xa5), "an error message {:?} although there was no error", String::from_utf8_lossy(b))
        }
        _ => return Err(format!("initialising the log or getting the last error fails: {}", r.stdout)),
    }
    let mut kin = BTreeMap::new();
    let mut orig = vec![];
    for (k, (n, i)) in g.events().into_iter().enumerate() {
        let mut e = g.files[n].event(i, &[]);
        e.w[0] *= stored.scale[n];
        orig.push(e.w[0]);
        let mut ev = cres::traits::Clustering::cluster(&clustering(&o.clus_case(vec![])), to_event(&e, k)).map_err(|_| "cannot cluster")?;
        ev.id = k;
        if !ev.outgoing().is_empty() {
            kin.insert(k, kin_of(&ev));
        }
    }
    let mut seen = 0;
    for (n, run) in res[1..=times].iter().enumerate() {
        let Line::Run(run) = run else { return Err("no result".into()) };
        ensure!(run.ret == 0, "cres_run number {n} returns {}: {}", run.ret, r.status());
        ensure!(c.opt.custom || run.calls == 0, "a custom distance function is called");
        for (id, (w, out)) in &run.views {
            let k = kin.get(id).ok_or(format!("the distance function sees event {id}, which should not be resampled"))?;
            match_kin(out, k, 1e-12).map_err(|e| format!("event {id} in the distance function: {e}"))?;
            ensure!(w.len() == 1, "{} weights in the distance function for event {id} with one weight", w.len());
            if o.naive != Some(true) {
                ensure!(near(w[0], orig[*id], 1e-13), "weight {:e} instead of {:e} in the distance function for event {id}", w[0], orig[*id]);
            }
        }
        if c.opt.custom && o.naive != Some(true) && kin.len() > 1 {
            // all events are in the search tree
            ensure!(run.views.len() == kin.len(), "the distance function only sees {} of {} events", run.views.len(), kin.len());
        }
        seen += run.views.len();
        let outdir = dir.join(format!("new/out {n}"));
        let mut names: Vec<String> =
            (0..g.files.len()).map(|n| infiles.iter().filter(|f| !f.file_name().unwrap().to_str().unwrap().starts_with("norm")).nth(n).unwrap().file_name().unwrap().to_str().unwrap().to_string()).collect();
        let found = listing(&outdir);
        let mut out = vec![];
        for (n, f) in g.files.iter().enumerate() {
            let text = read_file(&outdir.join(&names[n]), Comp::None)?;
            let w = extract(f, &text, &[], stored.scale[n]).map_err(|e| format!("output file {n} ({:?}): {e}", f.kind))?;
            let new: Vec<Option<Vec<f64>>> = w.iter().cloned().map(Some).collect();
            same_file(f, &text, &new, &[], stored.scale[n]).map_err(|e| format!("output file {n} ({:?}): {e}", f.kind))?;
            out.extend(w);
        }
        names.sort();
        ensure!(names == found, "output files {found:?} instead of {names:?}");
        if c.opt.threads == 1 {
            same_weights(&out, &exp, "from the C interface instead of")?;
        } else {
            let (mut a, mut b, mut s) = (0., 0., 0.);
            for (x, y) in orig.iter().zip(&out) {
                a += x;
                b += y[0];
                s += x.abs() + y[0].abs();
            }
            ensure!((a - b).abs() <= 1e-11 * s, "the sum of weights changes from {a:e} to {b:e}");
        }
    }
    for (b, f) in before.iter().zip(&infiles) {
        ensure!(*b == std::fs::read(f).unwrap(), "input file {f:?} changed");
    }
    let changed = orig.iter().zip(&exp).any(|(a, b)| !near(*a, b[0], 1e-12));
    Ok(Info::new(changed)
        .label(c.opt.custom, "custom distance")
        .label(seen > 0, "events seen by the distance function")
        .label(c.opt.threads != 1, "several threads")
        .label(times > 1, "several runs in one process")
        .label(o.naive == Some(true), "naive search")
        .label(o.maxcell.is_some(), "limited cell size"))
}

// ------------------------------------------------------------------ failures

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Call {
    /// a run as described by the options
    Good,
    MissingFile(u8),
    BrokenFile(u8, u8),
    OutdirIsFile,
    OutIsDir(u8),
    NoName(u8),
    /// numbers which make no sense
    Odd(u8, u8),
    Get(u16),
    /// all sizes up to the length of the message
    Sweep,
    Print,
    Log,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CErr {
    group: Group,
    opt: COpt,
    calls: Vec<Call>,
    long: u8,
}

/// `None`: may succeed or not
fn expect_failure(c: &Call) -> Option<bool> {
    match c {
        Call::Good => Some(false),
        Call::Odd(..) => None,
        _ => Some(true),
    }
}

/// the message of the library for the same input
fn library_error(o: &COpt, outdir: &Path, infiles: &[PathBuf]) -> Option<String> {
    if let Err(e) = std::fs::create_dir_all(outdir) {
        return Some(e.to_string());
    }
    let files: Vec<_> = infiles.iter().map(|f| (f.clone(), outdir.join(f.file_name().unwrap()))).collect();
    single_threaded(|| {
        let event_io = match IOBuilder::default().build_from_files_iter(files) {
            Ok(io) => io,
            Err(e) => return Some(e.to_string()),
        };
        let mut cres = CresBuilder {
            event_io,
            converter: Converter::new(),
            clustering: clustering(&o.run.clus_case(vec![])),
            resampler: ResamplerBuilder::default().build(),
            unweighter: NO_UNWEIGHTING,
        }
        .build();
        cres.run().err().map(|e| e.to_string())
    })
}

const BROKEN: [&str; 4] = [
    "HepMC::Version 2.06.09\nHepMC::IO_GenEvent-START_EVENT_LISTING\nE 1 -1 broken\n",
    "<LesHouchesEvents version=\"1.0\">\n<init>\n</init>\n<event>\n 3 x\n</event>\n",
    "<?xml version=\"1.0\"?>\n<Eventrecord nevents=\"1\" nsubevents=\"1\" nreweights=\"0\" name=\"n\">\n<e><se w=\"x\"><p id=\"1\" s=\"1\">1,1,0,0</p></se></e>\n</Eventrecord>\n",
    "HepMC::Version 2.06.09\nHepMC::IO_GenEvent-START_EVENT_LISTING\nE 1 -1 -1 -1 -1 1 -1 1 1 2 0 1 1\nU GEV MM\nP 1 21 0 0 x 1 0 1 0 0 0 0\n",
];

fn check_errors(c: &CErr) -> Outcome {
    let g = &c.group;
    let dir = Scratch::new();
    let long = ["in".to_string(), "i".repeat(180), "δ∂é".repeat(30)][c.long as usize % 3].clone();
    std::fs::create_dir(dir.join(&long)).unwrap();
    let stored = store(&dir.join(&long), &g.files, &g.comps, &g.norms);
    let good = event_files(&stored);
    let mut calls = vec![];
    let mut messages: Vec<Option<String>> = vec![];
    for (k, call) in c.calls.iter().enumerate() {
        let outdir = dir.join(format!("out{k}"));
        let mut files = good.clone();
        let mut change = BTreeMap::new();
        let mut message = None;
        match call {
            Call::Get(n) => calls.push(format!("get {n}\n")),
            Call::Sweep => calls.push("get 0\n".into()),
            Call::Print => calls.push("print\n".into()),
            Call::Log => calls.push("log DRIVER_LOG\n".into()),
            _ => {
                let mut ask = true;
                match call {
                    Call::MissingFile(n) => {
                        let n = *n as usize % (files.len() + 1);
                        files.insert(n, dir.join(format!("missing-{k}")));
                    }
                    Call::BrokenFile(n, what) => {
                        let n = *n as usize % (files.len() + 1);
                        let f = dir.join(format!("broken-{k}"));
                        std::fs::write(&f, BROKEN[*what as usize % BROKEN.len()]).unwrap();
                        files.insert(n, f);
                    }
                    Call::OutdirIsFile => std::fs::write(&outdir, "something").unwrap(),
                    Call::OutIsDir(_) => {
                        // the first event file
                        let f = good.iter().find(|f| !f.file_name().unwrap().to_str().unwrap().starts_with("norm")).unwrap();
                        std::fs::create_dir_all(outdir.join(f.file_name().unwrap())).unwrap();
                    }
                    Call::NoName(n) => {
                        let n = *n as usize % (files.len() + 1);
                        files.insert(n, "..".into());
                        ask = false;
                    }
                    Call::Odd(what, x) => {
                        let x = [f64::NAN, f64::INFINITY, -1., 0., f64::MAX, 1e-308][*x as usize % 6];
                        let what = ["ptweight", "pt", "max"][*what as usize % 3];
                        change.insert(what, x);
                        ask = false;
                    }
                    _ => {}
                }
                if ask {
                    message = library_error(&c.opt, &outdir, &files);
                    ensure!(
                        message.is_some() == expect_failure(call).unwrap(),
                        "the result of the library for {call:?} is {message:?}"
                    );
                    if !matches!(call, Call::OutdirIsFile | Call::OutIsDir(_)) {
                        std::fs::remove_dir_all(&outdir).unwrap();
                    }
                }
                calls.push(c.opt.call(&outdir, &files, &change));
            }
        }
        messages.push(message);
    }
    let r = drive(dir.path(), &calls, c.opt.threads)?;
    let res = results(&r)?;
    ensure!(res.len() == calls.len(), "{} results for {} calls", res.len(), calls.len());
    let mut printed = printed(&r).into_iter();

    // what is known about the current error: None if nothing is known
    #[derive(Clone, Debug)]
    enum Last {
        Nothing,
        Contains(String),
        Unknown,
        Is(Vec<u8>),
    }
    let mut last = Last::Nothing;
    let (mut errors, mut truncated, mut logged) = (0, 0, false);
    let mut sweep = None;
    for (k, ((call, line), message)) in c.calls.iter().zip(&res).zip(messages).enumerate() {
        let is_get = |ret: i32, b: &[u8], last: &mut Last| -> Result<bool, String> {
            let what = || format!("call {k}: cres_get_last_err with size {}", b.len());
            if let Last::Nothing = last {
                ensure!(ret == 0, "{} returns {ret} before any error", what());
                ensure!(b.is_empty() || b[0] == 0 || b.iter().all(|b| *b == 0xa5), "{}: a message before any error", what());
                return Ok(false);
            }
            ensure!(ret >= 0, "{} returns {ret}", what());
            let text: &[u8] = if b.is_empty() {
                &[]
            } else {
                let end = b.iter().position(|c| *c == 0).ok_or(format!("{}: the message is not terminated", what()))?;
                &b[..end]
            };
            ensure!(ret != 0 || !text.is_empty(), "{}: the message is empty", what());
            if ret == 0 {
                // complete
                match last {
                    Last::Is(m) => ensure!(text == &m[..], "{}: message {:?} instead of {:?}", what(), String::from_utf8_lossy(text), String::from_utf8_lossy(m)),
                    Last::Contains(m) => {
                        let s = std::str::from_utf8(text).map_err(|_| format!("{}: message is not UTF-8", what()))?;
                        ensure!(s.contains(m.as_str()), "{}: message {s:?} instead of {m:?}", what());
                    }
                    _ => {}
                }
                *last = Last::Is(text.to_vec());
                Ok(false)
            } else {
                ensure!(ret as usize > b.len(), "{} returns {ret} although this would fit", what());
                ensure!(b.is_empty() || text.len() == b.len() - 1, "{} returns {ret} but only {} bytes", what(), text.len());
                match last {
                    Last::Is(m) => {
                        ensure!(ret as usize == m.len() + 1, "{} returns {ret} instead of {}", what(), m.len() + 1);
                        ensure!(m.starts_with(text), "{}: {:?} is not the start of {:?}", what(), String::from_utf8_lossy(text), String::from_utf8_lossy(m));
                    }
                    Last::Contains(m) => ensure!(ret as usize > m.len(), "{} returns {ret}, too small for {m:?}", what()),
                    _ => {}
                }
                Ok(true)
            }
        };
        match (call, line) {
            (Call::Get(_) | Call::Sweep, Line::Get(ret, b)) => {
                truncated += usize::from(is_get(*ret, b, &mut last)?);
                if matches!(call, Call::Sweep) && *ret > 0 {
                    sweep = Some((k, *ret as usize));
                }
            }
            (Call::Print, Line::Print) => {
                let p = printed.next().ok_or("nothing printed")?;
                match &last {
                    Last::Nothing => ensure!(p.is_empty(), "call {k}: cres_print_last_err prints {p:?} before any error"),
                    Last::Contains(m) => ensure!(p.contains(m.as_str()), "call {k}: cres_print_last_err prints {p:?} instead of {m:?}"),
                    Last::Is(m) => ensure!(
                        p.strip_suffix('\n').map(|p| p.as_bytes()) == Some(m),
                        "call {k}: cres_print_last_err prints {p:?} instead of {:?}",
                        String::from_utf8_lossy(m)
                    ),
                    Last::Unknown => ensure!(!p.trim().is_empty(), "call {k}: no message is printed after an error"),
                }
                if let (Some(p), false) = (p.strip_suffix('\n'), matches!(last, Last::Nothing)) {
                    last = Last::Is(p.as_bytes().to_vec());
                }
            }
            (Call::Log, Line::Log(ret)) => {
                if logged {
                    // it is not possible to have a second one
                    ensure!(*ret != 0, "call {k}: a second log is initialised");
                    last = Last::Unknown;
                } else {
                    ensure!(*ret == 0, "call {k}: cres_logger_from_env returns {ret}");
                }
                logged = true;
            }
            (_, Line::Run(run)) => {
                match expect_failure(call) {
                    Some(f) => ensure!((run.ret != 0) == f, "call {k}, {call:?}: cres_run returns {}", run.ret),
                    None => {}
                }
                if run.ret != 0 {
                    errors += 1;
                    last = message.map_or(Last::Unknown, Last::Contains);
                }
            }
            _ => return Err(format!("unexpected result of call {k}, {call:?}")),
        }
    }
    let swept = sweep.is_some();
    if let Some((k, size)) = sweep {
        // the same again up to this point, with all sizes
        let mut calls = calls[..k].to_vec();
        for c in &mut calls {
            // outputs may exist
            if let Some(s) = c.strip_prefix("log ") {
                *c = format!("log {s}");
            }
        }
        let first = calls.len();
        calls.push(format!("get {}\n", size + 3));
        calls.extend((0..size + 5).map(|n| format!("get {n}\n")));
        let r = drive(dir.path(), &calls, c.opt.threads)?;
        let res = results(&r)?;
        let Some(Line::Get(0, full)) = res.get(first) else {
            return Err(format!("cannot get the message with a buffer of size {} although the required size is {size}", size + 3));
        };
        let end = full.iter().position(|c| *c == 0).ok_or("the message is not terminated")?;
        let msg = &full[..end];
        ensure!(msg.len() + 1 == size, "message of length {} but the required buffer size was {size}", msg.len());
        for (n, l) in res[first + 1..].iter().enumerate() {
            let Line::Get(ret, b) = l else { return Err("no result".into()) };
            ensure!(b.len() == n, "bad driver output");
            ensure!(*ret == if n < size { size as i32 } else { 0 }, "cres_get_last_err with size {n} returns {ret} for a message of length {}", msg.len());
            if n > 0 {
                let l = (n - 1).min(msg.len());
                ensure!(b[..l] == msg[..l] && b[l] == 0, "cres_get_last_err with size {n} gives {:?} for {:?}", String::from_utf8_lossy(b), String::from_utf8_lossy(msg));
            }
        }
    }
    let mut info = Info::new(errors > 0 && c.calls.iter().any(|c| matches!(c, Call::Get(_) | Call::Sweep | Call::Print)))
        .label(errors > 1, "several failing runs")
        .label(truncated > 0, "truncated messages")
        .label(swept, "all buffer sizes")
        .label(long.len() > 2, "long file names");
    for c in &c.calls {
        let s = format!("{c:?}");
        info = info.tag(s.split('(').next().unwrap().to_string());
    }
    Ok(info)
}

fn calls() -> BoxedStrategy<Vec<Call>> {
    let call = prop_oneof![
        2 => Just(Call::Good),
        3 => any::<u8>().prop_map(Call::MissingFile),
        4 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Call::BrokenFile(a, b)),
        2 => Just(Call::OutdirIsFile),
        2 => any::<u8>().prop_map(Call::OutIsDir),
        2 => any::<u8>().prop_map(Call::NoName),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Call::Odd(a, b)),
        6 => prop_oneof![0u16..4, 0u16..120, 100u16..500, Just(5000)].prop_map(Call::Get),
        2 => Just(Call::Sweep),
        3 => Just(Call::Print),
        1 => Just(Call::Log),
    ];
    vec(call, 1..8).boxed()
}

// ------------------------------------------------------------------ distance functions in Rust

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DistCase {
    a: Ev,
    b: Ev,
    ids: (usize, usize),
    value: f64,
    /// change weights before the call
    update: Option<Vec<f64>>,
}

struct Seen {
    value: f64,
    events: Vec<(usize, Ev)>,
    data: *const c_void,
    back: Vec<(usize, Ev)>,
}

fn copy(v: &EventView) -> (usize, Ev) {
    let slice = |p: *const f64, n: usize| if n == 0 { vec![] } else { unsafe { std::slice::from_raw_parts(p, n).to_vec() } };
    let w = slice(v.weights, v.n_weights);
    let mut out = vec![];
    for t in 0..v.n_type_sets {
        let t = unsafe { &*v.type_sets.add(t) };
        for n in 0..t.n_momenta {
            out.push((t.pid, unsafe { *t.momenta.add(n) }));
        }
    }
    sort_kin(&mut out);
    (v.id, Ev { w, out })
}

extern "C" fn record(data: *mut c_void, a: &EventView, b: &EventView) -> f64 {
    let s = unsafe { &mut *(data as *mut Seen) };
    s.data = data;
    for v in [a, b] {
        s.events.push(copy(v));
        let e: Event = (*v).into();
        s.back.push((e.id(), Ev { w: weights_of(&e), out: kin_of(&e) }));
    }
    s.value
}

fn check_dist(c: &DistCase) -> Outcome {
    let a = to_event(&c.a, c.ids.0);
    let b = to_event(&c.b, c.ids.1);
    if let Some(w) = &c.update {
        let mut lock = b.weights.write();
        for (x, y) in lock.iter_mut().zip(w) {
            *x = n64(*y);
        }
    }
    let exp = [(c.ids.0, Ev { w: weights_of(&a), out: kin_of(&a) }), (c.ids.1, Ev { w: weights_of(&b), out: kin_of(&b) })];
    ensure!(
        c.update.is_some() || exp[0].1.w == c.a.w && exp[1].1.w == c.b.w,
        "weights {:?}, {:?} of the events instead of {:?}, {:?}",
        exp[0].1.w,
        exp[1].1.w,
        c.a.w,
        c.b.w
    );
    let mut seen = Seen { value: c.value, events: vec![], data: std::ptr::null(), back: vec![] };
    let data = &mut seen as *mut Seen as *mut c_void;
    // whatever the exact type of function pointers is
    let f: extern "C" fn(*mut c_void, &EventView, &EventView) -> f64 = record;
    let d = DistanceFn { fun: unsafe { std::mem::transmute_copy(&f) }, data };
    let x = f64::from(d.distance(&a, &b));
    ensure!(x == c.value, "distance {x:e} instead of the {:e} returned by the function", c.value);
    ensure!(seen.data == data as *const c_void, "the function was called with different data");
    ensure!(seen.events.len() == 2, "{} calls for one distance", seen.events.len() / 2);
    let same = |x: &(usize, Ev), y: &(usize, Ev)| x.0 == y.0 && x.1.w == y.1.w && same_kin(&x.1.out, &y.1.out);
    for n in 0..2 {
        ensure!(same(&seen.events[n], &exp[n]), "the distance function sees {:?} instead of {:?}", seen.events[n], exp[n]);
        ensure!(same(&seen.back[n], &exp[n]), "the view is converted to {:?} instead of {:?}", seen.back[n], exp[n]);
    }
    let dbg = format!("{d:?}");
    ensure!(!dbg.is_empty(), "no debug output");
    Ok(Info::new(!c.a.out.is_empty() || !c.b.out.is_empty())
        .label(c.a.w.len() > 1 || c.b.w.len() > 1, "several weights")
        .label(c.update.is_some(), "changed weights")
        .label(c.a.out.len() > 3, "many particles"))
}

fn dist_case() -> BoxedStrategy<DistCase> {
    let ev = || (vec(weight(), 1..6), particles(12)).prop_map(|(w, out)| Ev { w, out });
    let few = || (vec(weight(), 1..6), few_type_particles(12)).prop_map(|(w, out)| Ev { w, out });
    (
        prop_oneof![ev(), few()],
        prop_oneof![ev(), few()],
        (any::<usize>(), 0..1000usize),
        prop_oneof![Just(0.), 0.0..1e10f64, Just(f64::INFINITY), Just(f64::MIN_POSITIVE)],
        prop::option::of(vec(weight(), 1..6)),
    )
        .prop_map(|(a, b, ids, value, update)| DistCase { a, b, ids, value, update })
        .boxed()
}

fn c_opt() -> BoxedStrategy<COpt> {
    (any::<bool>(), prop_oneof![3 => Just(1u8), 1 => 2u8..5], run_opt(Just(None).boxed()), any::<bool>())
        .prop_map(|(custom, threads, mut run, cwd)| {
            run.lepton = None;
            run.photon = None;
            run.neutrinos = false;
            run.strategy = None;
            run.minweight = None;
            run.seed = None;
            COpt { custom, threads, run, cwd }
        })
        .boxed()
}

pub fn interface(ctx: &mut Ctx) -> String {
    let grp = |n, r, p| {
        (cli_group(n, r, p), scale()).prop_map(|(mut g, scale)| {
            g.wanted = vec![];
            in_units(g, scale)
        })
    };
    let n = ctx.n(8_000, 200_000);
    ctx.part("runs", n, || (grp(1..=3, 0..=12, 4), c_opt(), any::<u8>()).prop_map(|(group, opt, times)| CRun { group, opt, times }).boxed(), check_runs);
    let n = ctx.n(200, 6_000);
    ctx.part("large", n, || (grp(1..=2, 40..=150, 6), c_opt(), any::<u8>()).prop_map(|(group, opt, times)| CRun { group, opt, times }).boxed(), check_runs);
    let n = ctx.n(10_000, 200_000);
    ctx.part(
        "errors",
        n,
        || (grp(1..=2, 0..=3, 3), c_opt(), calls(), any::<u8>()).prop_map(|(group, opt, calls, long)| CErr { group, opt, calls, long }).boxed(),
        check_errors,
    );
    let n = ctx.n(40_000, 1_000_000);
    ctx.part("distance", n, dist_case, check_dist);
    "A C program linked to libcres.so with the generated header runs random files and options with the built-in or a custom distance function, \
     repeatedly in one process and with one or more threads; outputs are compared to the same resampling with the library (1 thread) or checked for conservation, \
     and the events seen by the distance function to the events in the files. Sequences of failing and successful runs, buffer sizes and message retrievals \
     are compared to a model of the last error, with guard bytes around buffers. Distance functions are also called directly with events with several weights. \
     Non-trivial: weights change; at least one failing run and one retrieval; at least one particle."
        .into()
}
