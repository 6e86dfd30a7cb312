//! C14 complete runs, C22 options, C23 metamorphic relations between runs
use super::clus::*;
use super::io::*;
use crate::core::*;
use crate::ensure;
use crate::fmt::*;
use crate::model::*;
use cres::event::Event;
use cres::io::IOBuilder;
use cres::neighbour_search::{NaiveNeighbourSearch, TreeSearch};
use cres::resampler::DefaultResamplerBuilder;
use cres::seeds::Strategy as SeedStrategy;
use cres::traits::{Clustering, Resample, TryConvert, Unweight};
use cres::unweight::Unweighter;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rand::SeedableRng;
use rand_xoshiro::Xoshiro256Plus;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

// ------------------------------------------------------------ running programs

pub struct Ran {
    pub code: Option<i32>,
    pub stderr: String,
    pub stdout: String,
}

impl Ran {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn status(&self) -> String {
        match self.code {
            Some(c) => format!("exit status {c}, messages: {}", tail(&self.stderr)),
            None => format!("killed by a signal, messages: {}", tail(&self.stderr)),
        }
    }
}

fn tail(s: &str) -> String {
    let lines: Vec<&str> = s.lines().filter(|l| !l.trim().is_empty()).collect();
    let n = lines.len().saturating_sub(8);
    let t = lines[n..].join(" | ");
    t.chars().take(1500).collect()
}

pub fn program(name: &str) -> PathBuf {
    PathBuf::from(std::env::var_os("CRESV_BIN").expect("CRESV_BIN is not set")).join(name)
}

pub fn command(name: &str, args: &[String], cwd: &Path) -> Command {
    let mut c = Command::new(program(name));
    c.args(args).current_dir(cwd).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    for k in ["MALLOC_MMAP_THRESHOLD_", "MALLOC_TRIM_THRESHOLD_", "MALLOC_TOP_PAD_", "CRES_LOG", "RAYON_NUM_THREADS"] {
        c.env_remove(k);
    }
    c
}

pub fn finish(mut c: Command) -> Ran {
    let out = c.output().expect("cannot start program");
    Ran {
        code: out.status.code(),
        stderr: String::from_utf8_lossy(&out.stderr).into(),
        stdout: String::from_utf8_lossy(&out.stdout).into(),
    }
}

pub fn run(name: &str, args: &[String], cwd: &Path) -> Ran {
    finish(command(name, args, cwd))
}

/// names of all files below a directory
pub fn listing(dir: &Path) -> Vec<String> {
    fn walk(base: &Path, dir: &Path, res: &mut Vec<String>) {
        if let Ok(d) = std::fs::read_dir(dir) {
            for e in d.flatten() {
                let p = e.path();
                if p.is_dir() {
                    walk(base, &p, res);
                } else {
                    res.push(p.strip_prefix(base).unwrap().to_string_lossy().into());
                }
            }
        }
    }
    let mut res = vec![];
    walk(dir, dir, &mut res);
    res.sort();
    res
}

// -------------------------------------------------------------------- options

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RunOpt {
    pub jet: JetDef,
    pub lepton: Option<JetDef>,
    pub photon: Option<PhotonDef>,
    pub neutrinos: bool,
    pub ptweight: Option<f64>,
    pub minweight: Option<f64>,
    pub seed: Option<u64>,
    pub maxcell: Option<f64>,
    /// naive search?
    pub naive: Option<bool>,
    /// Any, MostNegative, LeastNegative
    pub strategy: Option<u8>,
    pub threads: Option<u8>,
    pub comp: Comp,
    pub level: Option<u8>,
    /// how options are spelled and ordered
    pub style: Vec<u8>,
}

pub struct Style<'a>(pub &'a [u8], pub usize);
impl Style<'_> {
    pub fn next(&mut self, n: usize) -> usize {
        if self.0.is_empty() {
            return 0;
        }
        let r = (self.0[self.1 % self.0.len()] as usize).wrapping_add(31 * (self.1 / self.0.len()));
        self.1 += 1;
        r % n
    }
}

/// An option with a value, in one of the possible ways
pub fn opt(st: &mut Style, short: Option<&str>, long: &str, val: &str) -> Vec<String> {
    match (short, st.next(4)) {
        (Some(s), 0) => vec![format!("-{s}"), val.into()],
        (Some(s), 1) => vec![format!("-{s}{val}")],
        (_, 2) => vec![format!("--{long}={val}")],
        _ if val.starts_with('-') => vec![format!("--{long}={val}")],
        _ => vec![format!("--{long}"), val.into()],
    }
}

pub fn algorithm(st: &mut Style, algo: u8) -> &'static str {
    let names: &[&str] = match algo {
        0 => &["anti-kt", "antikt", "anti_kt"],
        1 => &["Cambridge-Aachen", "Cambridge/Aachen", "cambridge-aachen", "Cambridge_Aachen"],
        _ => &["kt", "kt"],
    };
    names[st.next(names.len())]
}

pub fn number(st: &mut Style, x: f64) -> String {
    match st.next(3) {
        0 => format!("{x:e}"),
        1 if x.fract() == 0. && x.abs() < 1e6 => format!("{x:.1}"),
        _ => format!("{x}"),
    }
}

pub fn comp_name(st: &mut Style, c: Comp, level: Option<u8>) -> Option<String> {
    let (names, max): (&[&str], u8) = match c {
        Comp::None => return None,
        Comp::Bzip2 => (&["bzip2", "bz2", "BZip2"], 0),
        Comp::Gzip => (&["gzip", "gz", "GZIP"], 9),
        Comp::Lz4 => (&["lz4", "LZ4"], 16),
        Comp::Zstd => (&["zstd", "zstandard", "Zstd"], 19),
    };
    let n = names[st.next(names.len())];
    Some(match level {
        Some(l) if max > 0 => format!("{n}_{}", l % (max + 1)),
        _ => n.to_string(),
    })
}

/// the options which define objects
pub fn clus_args(st: &mut Style, jet: &JetDef, lepton: &Option<JetDef>, photon: &Option<PhotonDef>, neutrinos: bool) -> Vec<Vec<String>> {
    let mut o = vec![];
    let a = algorithm(st, jet.algo);
    o.push(opt(st, Some("a"), "jetalgorithm", a));
    let x = number(st, jet.r);
    o.push(opt(st, Some("R"), "jetradius", &x));
    let x = number(st, jet.pt);
    o.push(opt(st, Some("p"), "jetpt", &x));
    if let Some(l) = lepton {
        let a = algorithm(st, l.algo);
        o.push(opt(st, None, "leptonalgorithm", a));
        let x = number(st, l.r);
        o.push(opt(st, None, "leptonradius", &x));
        let x = number(st, l.pt);
        o.push(opt(st, None, "leptonpt", &x));
    }
    if let Some(p) = photon {
        for (n, x) in [("photonefrac", p.efrac), ("photonradius", p.r), ("photonpt", p.pt)] {
            let x = number(st, x);
            o.push(opt(st, None, n, &x));
        }
    }
    if neutrinos {
        o.push(vec!["--include-neutrinos".into()]);
    }
    o
}

pub fn shuffle<T>(st: &mut Style, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, st.next(i + 1));
    }
}

impl RunOpt {
    pub fn clus_case(&self, out: Vec<(i32, P4)>) -> ClusCase {
        ClusCase { out, jet: self.jet, lepton: self.lepton, photon: self.photon, neutrinos: self.neutrinos }
    }

    /// groups of arguments in any order
    pub fn groups(&self, st: &mut Style, outdir: &str, wanted: &[String]) -> Vec<Vec<String>> {
        let mut o = clus_args(st, &self.jet, &self.lepton, &self.photon, self.neutrinos);
        o.push(opt(st, Some("o"), "outdir", outdir));
        if let Some(x) = self.ptweight {
            let x = number(st, x);
            o.push(opt(st, None, "ptweight", &x));
        }
        if let Some(x) = self.minweight {
            let x = number(st, x);
            o.push(opt(st, Some("w"), "minweight", &x));
        }
        if let Some(x) = self.seed {
            o.push(opt(st, None, "seed", &x.to_string()));
        }
        if let Some(x) = self.maxcell {
            let x = number(st, x);
            o.push(opt(st, None, "max-cell-size", &x));
        }
        if let Some(n) = self.naive {
            o.push(opt(st, Some("s"), "search", if n { "naive" } else { "tree" }));
        }
        if let Some(s) = self.strategy {
            let names = [["any", "Any"], ["most_negative", "MostNegative"], ["least_negative", "LeastNegative"]];
            let n = names[s as usize % 3][st.next(2)];
            o.push(opt(st, None, "strategy", n));
        }
        if let Some(t) = self.threads {
            o.push(opt(st, Some("t"), "threads", &t.to_string()));
        }
        if let Some(c) = comp_name(st, self.comp, self.level) {
            o.push(opt(st, None, "compression", &c));
        }
        if !wanted.is_empty() {
            if st.next(2) == 0 {
                o.push(vec![format!("--weights={}", wanted.join(","))]);
            } else {
                // in one group, because the order matters for the weights
                o.push(wanted.iter().map(|w| format!("--weights={w}")).collect());
            }
        }
        match st.next(6) {
            0 => o.push(opt(st, Some("l"), "loglevel", "off")),
            1 => o.push(opt(st, Some("l"), "loglevel", "error")),
            2 => o.push(opt(st, Some("l"), "loglevel", "debug")),
            3 => o.push(opt(st, Some("l"), "loglevel", "Warn")),
            _ => {}
        }
        o
    }
}

/// Arguments as they are passed to a program, some of them in argument files
pub fn assemble(st: &mut Style, mut groups: Vec<Vec<String>>, infiles: &[String], dir: &Path) -> Vec<String> {
    shuffle(st, &mut groups);
    // input files keep their order but may be anywhere
    let mut pos: Vec<usize> = infiles.iter().map(|_| st.next(groups.len() + 1)).collect();
    pos.sort_unstable();
    let mut args: Vec<Vec<String>> = vec![];
    let mut k = 0;
    for (n, g) in groups.into_iter().enumerate() {
        while k < pos.len() && pos[k] <= n {
            args.push(vec![infiles[k].clone()]);
            k += 1;
        }
        args.push(g);
    }
    while k < pos.len() {
        args.push(vec![infiles[k].clone()]);
        k += 1;
    }
    match st.next(4) {
        0 => {
            // everything in an argument file
            std::fs::write(dir.join("args"), args.concat().iter().map(|a| format!("{a}\n")).collect::<String>()).unwrap();
            vec![format!("@{}", dir.join("args").display())]
        }
        1 => {
            // a part of it
            let a = st.next(args.len());
            let b = a + st.next(args.len() - a) + 1;
            let lines: Vec<String> = args[a..b].concat();
            std::fs::write(dir.join("some.args"), lines.join("\n")).unwrap();
            let mut res = args[..a].concat();
            res.push(format!("@{}", dir.join("some.args").display()));
            res.extend(args[b..].concat());
            res
        }
        _ => args.concat(),
    }
}

// --------------------------------------------------------------------- samples

fn cli_pid() -> BoxedStrategy<i32> {
    prop_oneof![
        8 => prop::sample::select(&PARTONS[..]),
        4 => prop::sample::select(&HADRON_IDS[..]),
        3 => prop::sample::select(&LEPTONS[..]),
        2 => Just(22),
        2 => prop::sample::select(&NEUTRINOS[..]),
        1 => prop::sample::select(&OTHERS[..]),
    ]
    .boxed()
}

fn cli_name() -> BoxedStrategy<String> {
    prop_oneof![
        2 => prop::sample::select(vec!["0", "1", "Default", "Weight", "MUR1_MUF2", "PDF=303400", "E", "Δ", "muR=0.5E+00"])
            .prop_map(|s| s.to_string()),
        1 => "[A-Za-z][!#-+./-~]{0,9}",
    ]
    .boxed()
}

/// positive on average
fn cli_weight() -> BoxedStrategy<Num> {
    prop_oneof![
        3 => ((-4i32..=8).prop_map(|n| n as f64), prop::sample::select(vec![0u8, 1, 2, 3, 4, 5])),
        3 => ((-32i32..=64).prop_map(|n| n as f64 / 16.), prop::sample::select(vec![0u8, 1, 2, 3, 4])),
        5 => (-1.0..2.0f64, prop::sample::select(vec![0u8, 1, 2, 3])),
    ]
    .prop_map(|(v, s)| Num(v, s))
    .boxed()
}

pub fn cli_group(n: std::ops::RangeInclusive<usize>, recs: std::ops::RangeInclusive<usize>, parts: usize) -> BoxedStrategy<Group> {
    let (m, r) = (n.clone(), recs.clone());
    let gen = move |kinds: Vec<Kind>, w: std::ops::RangeInclusive<usize>, r: std::ops::RangeInclusive<usize>| Gen {
        kinds,
        recs: r,
        parts,
        weights: w,
        weight: cli_weight,
        pids: cli_pid,
    };
    let g = gen;
    let mixed = (
        vec(g(vec![Kind::HepMC, Kind::HepMC, Kind::Lhef, Kind::Xml], 1..=3, r).file(), m),
        vec(comp(), 1..=3),
        norms(),
    )
        .prop_map(|(files, comps, norms)| Group { files, comps, norms, wanted: vec![] });
    let named = (1usize..=4)
        .prop_flat_map(move |nw| {
            (
                vec(gen(vec![Kind::HepMC], nw..=nw, recs.clone()).file(), n.clone()),
                vec(comp(), 1..=3),
                norms(),
                vec(cli_name(), nw),
                vec(any::<u8>(), 0..4),
            )
        })
        .prop_map(|(mut files, comps, norms, mut names, choice)| {
            unique(&mut names);
            for (n, f) in files.iter_mut().enumerate() {
                f.names = names.clone();
                // with names
                f.opt &= !(1 << 5);
                // the central weight is the same in all events
                f.opt |= 1 << 17;
                let l = names.len() - 1;
                if l > 0 {
                    f.names[1..].rotate_left(n % l);
                }
            }
            let wanted = pick(&names, &choice);
            Group { files, comps, norms, wanted: if MULTI { wanted } else { vec![] } }
        });
    prop_oneof![1 => mixed, 1 => named].boxed()
}

/// The same with weights in other units
pub fn in_units(mut g: Group, scale: f64) -> Group {
    if scale != 1. {
        for w in g.files.iter_mut().flat_map(|f| &mut f.recs).flat_map(|r| &mut r.w) {
            *w = Num(w.0 * scale, if (4..7).contains(&w.1) { w.1 - 3 } else { w.1 });
        }
    }
    g
}

/// input and options of a run, with weights of any magnitude
pub fn cli_case(
    n: std::ops::RangeInclusive<usize>,
    recs: std::ops::RangeInclusive<usize>,
    parts: usize,
    threads: BoxedStrategy<Option<u8>>,
) -> BoxedStrategy<(Group, RunOpt)> {
    (cli_group(n, recs, parts), run_opt(threads), scale())
        .prop_map(|(group, mut opt, scale)| {
            opt.minweight = opt.minweight.map(|w| w * scale);
            (in_units(group, scale), opt)
        })
        .boxed()
}

pub fn style() -> BoxedStrategy<Vec<u8>> {
    vec(any::<u8>(), 0..24).boxed()
}

pub fn photon_def() -> BoxedStrategy<PhotonDef> {
    (prop_oneof![Just(0.09), 0.0..3.0f64], 0.05..1.5f64, 0.0..40.0f64).prop_map(|(efrac, r, pt)| PhotonDef { efrac, r, pt }).boxed()
}

pub fn run_opt(threads: BoxedStrategy<Option<u8>>) -> BoxedStrategy<RunOpt> {
    (
        (jet_def(40.), prop::option::of(jet_def(30.)), prop::option::of(photon_def()), any::<bool>()),
        (
            prop::option::of(prop_oneof![1 => Just(0.), 2 => 0.0..2.0f64, 1 => 2.0..200.0f64]),
            prop::option::weighted(0.4, prop_oneof![1 => Just(0.), 3 => 0.01..3.0f64]),
            prop::option::of(prop_oneof![3 => 0u64..10, 1 => any::<u64>()]),
            prop::option::of(prop_oneof![1 => Just(0.), 3 => 1.0..400.0f64]),
        ),
        (prop::option::of(any::<bool>()), prop::option::of(0u8..3), threads, comp(), prop::option::of(any::<u8>())),
        style(),
    )
        .prop_map(|((jet, lepton, photon, neutrinos), (ptweight, minweight, seed, maxcell), (naive, strategy, threads, comp, level), style)| {
            // expensive compression levels are of no interest
            let level = level.map(|l| match comp {
                Comp::Zstd => l % 4,
                _ => l,
            });
            RunOpt { jet, lepton, photon, neutrinos, ptweight, minweight, seed, maxcell, naive, strategy, threads, comp, level, style }
        })
        .boxed()
}

/// weights of all events in an output file
pub fn extract(f: &FileSpec, text: &str, wanted: &[String], scale: f64) -> Result<Vec<Vec<f64>>, String> {
    let r = f.render();
    let rest = text.strip_prefix(r.header.as_str()).ok_or("the header is different")?;
    let (recs, _) = split_records(f.kind, rest);
    ensure!(recs.len() == f.recs.len(), "{} events in the output instead of {}", recs.len(), f.recs.len());
    let num = |s: Option<&str>| -> Result<f64, String> {
        let s = s.ok_or("no weight")?;
        let x: f64 = s.parse().map_err(|_| format!("weight {s:?} is not a number"))?;
        ensure!(x.is_finite(), "weight {s:?} is not finite");
        Ok(x)
    };
    recs.iter()
        .enumerate()
        .map(|(i, rec)| match f.kind {
            Kind::HepMC => {
                let toks: Vec<&str> = rec.lines().next().unwrap_or("").split_ascii_whitespace().collect();
                let nr: usize = toks.get(11).and_then(|t| t.parse().ok()).ok_or("bad event line")?;
                let mut w = vec![num(toks.get(13 + nr).copied())?];
                for name in wanted {
                    w.push(num(toks.get(13 + nr + f.weight_pos(i, name)).copied())?);
                }
                Ok(w)
            }
            Kind::Lhef => {
                let s = rec.split_once("<event").ok_or("no event")?.1;
                let s = s.split_once('\n').ok_or("no event")?.1;
                Ok(vec![num(s.split_ascii_whitespace().nth(2))?])
            }
            Kind::Xml => {
                let s = rec.strip_prefix("<se w=\"").and_then(|s| s.split_once('"')).map(|s| s.0);
                Ok(vec![num(s)? * scale])
            }
        })
        .collect()
}

// ----------------------------------------------------------------- C14

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RunCase {
    pub group: Group,
    pub opt: RunOpt,
}

pub struct Finished {
    pub dir: Scratch,
    pub stored: Stored,
    /// weights of all events in the output, in order
    pub out: Vec<Vec<f64>>,
}

/// input files (in order) as the program sees them
pub fn event_files(stored: &Stored) -> Vec<PathBuf> {
    stored.files.iter().map(|f| f.0.clone()).collect()
}

fn is_norm(p: &Path) -> bool {
    p.file_name().unwrap().to_str().unwrap().starts_with("norm")
}

/// Run the program and check what has to hold for every run
pub fn complete_run(g: &Group, o: &RunOpt, relative: bool) -> Result<Finished, String> {
    let dir = Scratch::new();
    let indir = dir.join("in");
    std::fs::create_dir(&indir).unwrap();
    let stored = store(&indir, &g.files, &g.comps, &g.norms);
    let before: Vec<Vec<u8>> = stored.files.iter().map(|f| std::fs::read(&f.0).unwrap()).collect();
    let mut st = Style(&o.style, 0);
    let name = |p: &Path| {
        if relative {
            p.strip_prefix(dir.path()).unwrap().display().to_string()
        } else {
            p.display().to_string()
        }
    };
    let outdir = dir.join(["out", "new/sub dir/out"][st.next(2)]);
    let groups = o.groups(&mut st, &name(&outdir), &g.wanted);
    let infiles: Vec<String> = stored.files.iter().map(|f| name(&f.0)).collect();
    let args = assemble(&mut st, groups, &infiles, dir.path());
    let r = run("cres", &args, dir.path());
    ensure!(r.ok(), "cres {args:?}: {}", r.status());
    // outputs
    let mut expect: Vec<String> = vec![];
    for (p, _) in stored.files.iter().filter(|f| !is_norm(&f.0)) {
        expect.push(p.file_name().unwrap().to_str().unwrap().to_string());
    }
    let mut sorted = expect.clone();
    sorted.sort();
    let found = listing(&outdir);
    ensure!(sorted == found, "output files {found:?} instead of {sorted:?}");
    for (b, f) in before.iter().zip(&stored.files) {
        ensure!(*b == std::fs::read(&f.0).unwrap(), "input file {:?} changed", f.0);
    }
    let mut out = vec![];
    for (n, f) in g.files.iter().enumerate() {
        let text = read_file(&outdir.join(&expect[n]), o.comp)?;
        let w = extract(f, &text, &g.wanted, stored.scale[n]).map_err(|e| format!("output file {n} ({:?}): {e}", f.kind))?;
        let new: Vec<Option<Vec<f64>>> = w.iter().cloned().map(Some).collect();
        same_file(f, &text, &new, &g.wanted, stored.scale[n]).map_err(|e| format!("output file {n} ({:?}): {e}", f.kind))?;
        out.extend(w);
    }
    Ok(Finished { dir, stored, out })
}

fn check_run(c: &RunCase) -> Outcome {
    let (g, o) = (&c.group, &c.opt);
    let fin = complete_run(g, o, false)?;
    let nw = 1 + g.wanted.len();
    let mut sums = vec![(0., 0., 0.); nw];
    let mut ambiguous = false;
    // weights that can be redistributed
    let mut pool = (0., 0.);
    let mut status = vec![];
    let mut changed = 0;
    for (k, (n, i)) in g.events().into_iter().enumerate() {
        let mut e = g.files[n].event(i, &g.wanted);
        e.w[0] *= fin.stored.scale[n];
        let w = &fin.out[k];
        ensure!(w.len() == nw, "{} weights", w.len());
        for j in 0..nw {
            sums[j].0 += e.w[j];
            sums[j].1 += w[j];
            sums[j].2 += e.w[j].abs() + w[j].abs();
        }
        let id = match ref_cluster(&o.clus_case(e.out.clone())) {
            Ok(v) => Some(!v.is_empty()),
            Err(_) => None,
        };
        if id == Some(false) {
            ensure!(
                (0..nw).all(|j| near(e.w[j], w[j], 1e-13)),
                "weights of event {i} of file {n}, which has no identified particles, change from {:?} to {w:?}",
                e.w
            );
        } else {
            pool.0 += e.w[0];
            pool.1 += e.w[0].abs();
        }
        changed += usize::from(!near(e.w[0], w[0], 1e-12));
        ambiguous |= id.is_none();
        status.push(id);
    }
    let unweighted = o.minweight.is_some_and(|w| w > 0.);
    let left = || fin.out.iter().zip(&status).filter(|(_, s)| **s != Some(false)).map(|(w, _)| w[0]);
    // nothing is left after unweighting, or all remaining weights cancel
    let nothing_left = left().sum::<f64>().abs() <= 1e-12 * left().map(|w| w.abs()).sum::<f64>();
    for (j, (a, b, scale)) in sums.iter().enumerate() {
        // unweighting preserves the central weight, unless nothing is left
        if unweighted && (j > 0 && g.wanted[j - 1] != central_name(g) || nothing_left || ambiguous) {
            continue;
        }
        ensure!((a - b).abs() <= 1e-11 * scale, "sum of weight number {j} changes from {a:e} to {b:e}");
    }
    let any_limit = o.maxcell.is_some();
    // with several threads, overlapping cells may be found before either is resampled
    if o.threads == Some(1) && !any_limit && !unweighted && !ambiguous && pool.0 > 1e-9 * pool.1 {
        for (w, s) in fin.out.iter().zip(&status) {
            ensure!(
                *s == Some(false) || w[0] >= -1e-12 * pool.1,
                "negative weight {:e} is left although the cell size is not limited and the sum of weights is positive",
                w[0]
            );
        }
    }
    Ok(Info::new(changed > 0)
        .label(unweighted, "unweighting")
        .label(unweighted && fin.out.iter().any(|w| w[0] == 0.), "discarded events")
        .label(status.contains(&Some(false)), "events without identified particles")
        .label(!g.wanted.is_empty(), "named weights")
        .label(g.files.len() > 1, "several files")
        .label(any_limit, "limited cell size")
        .label(fin.out.iter().any(|w| w[0] < 0.), "negative weights left")
        .label(o.threads != Some(1), "several threads"))
}

/// the name of the first weight, if it is the same everywhere
fn central_name(g: &Group) -> &str {
    let mut name = None;
    for (n, i) in g.events() {
        let f = &g.files[n];
        if !f.has_names() {
            return "";
        }
        let c = f.names[f.name_order(i)[0]].as_str();
        if name.is_some_and(|n| n != c) {
            return "";
        }
        name = Some(c);
    }
    name.unwrap_or("")
}

fn threads() -> BoxedStrategy<Option<u8>> {
    prop_oneof![2 => Just(Some(1)), 1 => Just(None), 2 => (0u8..5).prop_map(Some)].boxed()
}

pub fn end_to_end(ctx: &mut Ctx) -> String {
    let n = ctx.n(3_000, 60_000);
    ctx.part(
        "runs",
        n,
        || cli_case(1..=3, 0..=10, 4, threads()).prop_map(|(group, opt)| RunCase { group, opt }).boxed(),
        check_run,
    );
    let n = ctx.n(100, 3_000);
    ctx.part(
        "large",
        n,
        || cli_case(1..=2, 40..=200, 6, threads()).prop_map(|(group, opt)| RunCase { group, opt }).boxed(),
        check_run,
    );
    "The cres program is run on up to three random event files (mixed formats and compressions, with normalisation files and named weights) \
     with random options and thread numbers. Checked: names and formats of outputs, inputs untouched, everything but weights identical, weight \
     sums, events without identified particles (according to an independent clustering) unchanged, with a single thread no negative weights where none may be left. \
     Non-trivial: at least one weight changes."
        .into()
}

// ----------------------------------------------------------------- C22

/// What the run should give, from the components of the library
pub fn expected(g: &Group, o: &RunOpt) -> Result<Vec<Vec<f64>>, String> {
    let strategy = match o.strategy.map(|s| s % 3) {
        Some(0) => SeedStrategy::Next,
        Some(2) => SeedStrategy::LeastNegative,
        _ => SeedStrategy::MostNegative,
    };
    expected_with(g, o, |events| {
        let b = DefaultResamplerBuilder::default()
            .max_cell_size(o.maxcell)
            .ptweight(o.ptweight.unwrap_or(0.))
            .strategy(strategy)
            .cell_collector(None);
        let events = if o.naive == Some(true) {
            b.neighbour_search::<NaiveNeighbourSearch>().build().resample(events)
        } else {
            b.neighbour_search::<TreeSearch>().build().resample(events)
        }
        .map_err(|e| format!("resampling: {e:?}"))?;
        let rng = Xoshiro256Plus::seed_from_u64(o.seed.unwrap_or(0));
        Ok(Unweighter::new(o.minweight.unwrap_or(0.), rng).unweight(events).unwrap())
    })
}

/// Same with a given way to resample
pub fn expected_with(g: &Group, o: &RunOpt, resample: impl FnOnce(Vec<Event>) -> Result<Vec<Event>, String>) -> Result<Vec<Vec<f64>>, String> {
    let dir = Scratch::new();
    let stored = store(dir.path(), &g.files, &g.comps, &g.norms);
    let mut b = IOBuilder::default();
    b.weight_names(g.wanted.clone());
    let io = b.build_from_files_iter(stored.files.clone()).map_err(|e| format!("cannot open: {e:?}"))?;
    let conv = converter(&g.wanted);
    let clus = clustering(&o.clus_case(vec![]));
    let mut events = vec![];
    let mut out: Vec<Vec<f64>> = vec![];
    for (id, r) in io.enumerate() {
        let r = r.map_err(|e| format!("cannot read: {e:?}"))?;
        let e = conv.try_convert(r).map_err(|e| format!("cannot parse: {e:?}"))?;
        let mut e = clus.cluster(e).map_err(|_| "cannot cluster".to_string())?;
        e.id = id;
        let w = weights_of(&e);
        if e.outgoing().is_empty() {
            out.push(w);
        } else {
            out.push(vec![0.; w.len()]);
            events.push(e);
        }
    }
    let events = resample(events)?;
    for e in events {
        out[e.id] = weights_of(&e);
    }
    Ok(out)
}

/// Run something with a single thread
pub fn single_threaded<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap().install(f)
}

pub fn same_weights(a: &[Vec<f64>], b: &[Vec<f64>], what: &str) -> Result<(), String> {
    ensure!(a.len() == b.len(), "{} events {what} {}", a.len(), b.len());
    let scale = a.iter().chain(b).flatten().fold(0f64, |m, x| m.max(x.abs()));
    for (n, (x, y)) in a.iter().zip(b).enumerate() {
        ensure!(
            x.len() == y.len() && x.iter().zip(y).all(|(x, y)| (x - y).abs() <= 1e-11 * scale),
            "weights {x:?} {what} {y:?} for event {n}"
        );
    }
    Ok(())
}

fn check_options(c: &RunCase) -> Outcome {
    let (g, o) = (&c.group, &c.opt);
    let exp = single_threaded(|| expected(g, o))?;
    let fin = complete_run(g, o, false)?;
    same_weights(&fin.out, &exp, "instead of")?;
    let same_input = g.events().iter().zip(&exp).all(|(&(n, i), w)| near(g.files[n].event(i, &[]).w[0] * fin.stored.scale[n], w[0], 1e-12));
    Ok(Info::new(!same_input)
        .label(o.lepton.is_some(), "leptons")
        .label(o.photon.is_some(), "photons")
        .label(o.minweight.is_some_and(|w| w > 0.), "unweighting")
        .label(o.ptweight.is_some(), "ptweight")
        .label(o.maxcell.is_some(), "max-cell-size"))
}

/// Ways to make valid arguments invalid
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Flaw {
    /// leave out a required option
    Missing(u8),
    /// replace the value of an option
    Value(u8, u8),
    /// incomplete lepton or photon definition: which of the three are there
    Partial(bool, u8),
    UnknownOption(u8),
    MissingFile(u8),
    MissingArgFile,
    Twice(u8),
    SameNames,
    UnknownWeight(u8),
    /// input path without a file name
    NoName(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BadCase {
    group: Group,
    opt: RunOpt,
    flaw: Flaw,
    program: u8,
}

fn bad_value(kind: &str, n: u8) -> String {
    let v: &[&str] = match kind {
        "algorithm" => &["", "antikt2", "anti", "k-t", "cambridge", "1", "kt ", "aachen"],
        "number" => &["", "x", "1,5", "1.5GeV", "0x10", "--", "1e", "ten", "nan", "-NaN"],
        "finite" => &["", "x", "1,5", "1.5GeV", "0x10", "--", "1e", "ten", "nan", "-NaN", "inf", "-infinity"],
        "integer" => &["", "x", "1.5", "-1", "1e3", "18446744073709551616", "0x1", "one"],
        "search" => &["", "fast", "tre", "tree,naive", "kd-tree", "0", "vptree", "naiv"],
        "strategy" => &["", "most", "next", "Most_Negative", "random", "0", "most-negative", "leastnegative"],
        "regions" => &["", "0", "3", "-2", "12", "2.0", "4294967296", "x"],
        _ => &["", "gzip_10", "lz4_17", "zstd_20", "bzip2_1", "xz", "gzip_-1", "lz4_x"],
    };
    v[n as usize % v.len()].to_string()
}

fn check_rejected(c: &BadCase) -> Outcome {
    let (g, o) = (&c.group, &c.opt);
    let dir = Scratch::new();
    let indir = dir.join("in");
    std::fs::create_dir_all(indir.join("more")).unwrap();
    let stored = store(&indir, &g.files, &g.comps, &g.norms);
    let mut st = Style(&o.style, 0);
    let outdir = dir.join("out");
    let prog = ["cres", "cres", "cres-partition", "cres-classify-events"][c.program as usize % 4];
    let (mut groups, required, values): (Vec<Vec<String>>, &[&str], &[(&str, &str)]) = match prog {
        "cres" => (
            o.groups(&mut st, outdir.to_str().unwrap(), &g.wanted),
            &["outdir", "jetalgorithm", "jetradius", "jetpt"],
            &[
                ("jetalgorithm", "algorithm"),
                ("jetradius", "number"),
                ("jetpt", "number"),
                ("ptweight", "finite"),
                ("minweight", "finite"),
                ("seed", "integer"),
                ("max-cell-size", "number"),
                ("search", "search"),
                ("strategy", "strategy"),
                ("threads", "integer"),
                ("compression", "compression"),
                ("leptonalgorithm", "algorithm"),
                ("leptonradius", "number"),
                ("photonefrac", "number"),
                ("photonpt", "number"),
            ],
        ),
        "cres-partition" => {
            std::fs::create_dir(&outdir).unwrap();
            let mut o2 = clus_args(&mut st, &o.jet, &o.lepton, &o.photon, o.neutrinos);
            o2.push(opt(&mut st, Some("o"), "outfile", outdir.join("part.yml").to_str().unwrap()));
            o2.push(vec!["--regions=1".into()]);
            (
                o2,
                &["outfile", "jetalgorithm", "jetradius", "jetpt", "regions"],
                &[
                    ("jetalgorithm", "algorithm"),
                    ("jetradius", "number"),
                    ("jetpt", "number"),
                    ("ptweight", "finite"),
                    ("regions", "regions"),
                    ("regions", "regions"),
                    ("threads", "integer"),
                    ("compression", "compression"),
                    ("leptonalgorithm", "algorithm"),
                    ("photonradius", "number"),
                ],
            )
        }
        _ => {
            let part = dir.join("part.yml");
            std::fs::write(&part, one_region(o)).unwrap();
            let o2 = vec![
                opt(&mut st, Some("o"), "outdir", outdir.to_str().unwrap()),
                opt(&mut st, Some("p"), "partition", part.to_str().unwrap()),
            ];
            (o2, &["outdir", "partition"], &[("compression", "compression")])
        }
    };
    let mut infiles: Vec<String> = stored.files.iter().map(|f| f.0.display().to_string()).collect();
    let is = |g: &Vec<String>, long: &str| {
        let short = match long {
            "outdir" | "outfile" => Some("-o"),
            "jetalgorithm" => Some("-a"),
            "jetradius" => Some("-R"),
            "jetpt" | "partition" => Some("-p"),
            "search" => Some("-s"),
            "threads" => Some("-t"),
            "minweight" => Some("-w"),
            _ => None,
        };
        g[0].starts_with(&format!("--{long}")) && !g[0][2 + long.len()..].starts_with(|c: char| c.is_alphanumeric())
            || short.is_some_and(|s| g[0].starts_with(s))
    };
    let events = g.events().len();
    let mut argfile = None;
    match &c.flaw {
        Flaw::Missing(n) => {
            let r = required[*n as usize % required.len()];
            groups.retain(|g| !is(g, r));
        }
        Flaw::Value(n, v) => {
            let (name, kind) = values[*n as usize % values.len()];
            groups.retain(|g| !is(g, name));
            // complete definitions
            for (p, names) in [("lepton", ["leptonalgorithm", "leptonradius", "leptonpt"]), ("photon", ["photonefrac", "photonradius", "photonpt"])] {
                if name.starts_with(p) {
                    groups.retain(|g| !names.iter().any(|n| is(g, n)));
                    for n in names.into_iter().filter(|n| *n != name) {
                        groups.push(vec![format!("--{n}={}", if n.ends_with("algorithm") { "kt" } else { "1" })]);
                    }
                }
            }
            groups.push(vec![format!("--{name}={}", bad_value(kind, *v))]);
        }
        Flaw::Partial(lepton, which) => {
            if prog == "cres-classify-events" {
                return Ok(Info::new(false));
            }
            let names = if *lepton { ["leptonalgorithm", "leptonradius", "leptonpt"] } else { ["photonefrac", "photonradius", "photonpt"] };
            groups.retain(|g| !names.iter().any(|n| is(g, n)));
            let which = 1 + *which as usize % 6;
            for (k, n) in names.into_iter().enumerate() {
                if which >> k & 1 == 1 {
                    groups.push(vec![format!("--{n}={}", if n.ends_with("algorithm") { "kt" } else { "1" })]);
                }
            }
        }
        Flaw::UnknownOption(n) => {
            groups.push(vec![["--nosuchoption", "-Z", "--jet-pt=3", "--output=x", "--weightz=3", "--max_cell_size=4"][*n as usize % 6].into()])
        }
        Flaw::MissingFile(n) => {
            let k = *n as usize % (infiles.len() + 1);
            infiles.insert(k, indir.join("no such file").display().to_string());
        }
        Flaw::NoName(n) => {
            let k = *n as usize % (infiles.len() + 1);
            infiles.insert(k, ["..".into(), "/".into(), ".".into(), indir.join("..").display().to_string()][*n as usize / 8 % 4].clone());
        }
        Flaw::MissingArgFile => argfile = Some(format!("@{}", dir.join("no such arguments").display())),
        Flaw::Twice(n) => {
            let r = required[*n as usize % required.len()];
            let again = groups.iter().find(|g| is(g, r)).unwrap().clone();
            groups.push(again);
        }
        Flaw::SameNames => {
            if prog == "cres-partition" {
                return Ok(Info::new(false));
            }
            let Some((f, _)) = stored.files.iter().find(|f| !is_norm(&f.0)) else {
                return Ok(Info::new(false));
            };
            let copy = indir.join("more").join(f.file_name().unwrap());
            std::fs::copy(f, &copy).unwrap();
            infiles.push(copy.display().to_string());
        }
        Flaw::UnknownWeight(n) => {
            if prog != "cres" || !MULTI || events == 0 {
                return Ok(Info::new(false));
            }
            let mut name = ["nothing", "weight", "\"", "0 1"][*n as usize % 4];
            // a name which exists in HepMC files, but not in those of other formats
            let other = |f: &FileSpec| f.kind != Kind::HepMC && !f.recs.is_empty();
            if *n >= 128 && g.files.iter().any(other) {
                if let Some(n) = g.files.iter().filter(|f| f.kind == Kind::HepMC).flat_map(|f| &f.names).find(|n| !n.contains([',', '"'])) {
                    name = n;
                }
            }
            let has = |f: &FileSpec| f.kind == Kind::HepMC && f.names.iter().any(|n| n == name);
            if !g.files.iter().any(|f| !f.recs.is_empty() && !has(f)) {
                return Ok(Info::new(false));
            }
            groups.push(vec![format!("--weights={name}")]);
        }
    }
    let before: Vec<Vec<u8>> = stored.files.iter().map(|f| std::fs::read(&f.0).unwrap()).collect();
    let mut args = assemble(&mut st, groups, &infiles, dir.path());
    args.extend(argfile);
    let r = run(prog, &args, dir.path());
    let flaw = &c.flaw;
    ensure!(r.code.is_some(), "{prog} {args:?} with {flaw:?}: {}", r.status());
    ensure!(!r.ok(), "{prog} {args:?} succeeds in spite of {flaw:?}");
    ensure!(r.code != Some(101), "{prog} {args:?} with {flaw:?} panics: {}", r.status());
    ensure!(!r.stderr.trim().is_empty(), "{prog} {args:?} with {flaw:?} fails without any message");
    // the input has to be read to find these
    if !matches!(c.flaw, Flaw::MissingFile(_) | Flaw::UnknownWeight(_) | Flaw::NoName(_)) {
        let l = listing(&outdir);
        ensure!(l.is_empty(), "{prog} {args:?} with {flaw:?} fails, but there is output: {l:?}");
    }
    for (b, f) in before.iter().zip(&stored.files) {
        ensure!(*b == std::fs::read(&f.0).unwrap(), "input file {:?} changed", f.0);
    }
    Ok(Info::new(true).tag(format!("{prog} {}", format!("{flaw:?}").split('(').next().unwrap())))
}

/// A partition with a single region
pub fn one_region(o: &RunOpt) -> String {
    let part = unsafe {
        cres::partition::VPTreePartition::<cres::event::Event, _>::from_vp(vec![], cres::distance::EuclWithScaledPt::new(cres::n64(0.)))
    };
    serde_yaml::to_string(&(clustering(&o.clus_case(vec![])), part)).unwrap()
}

// ------------------------------------------------------------ compression names

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CompCase {
    name: String,
    recs: u8,
    seed: u16,
    program: u8,
    opt: RunOpt,
}

/// The documented grammar
fn parse_comp(s: &str) -> Option<(Comp, Option<u8>)> {
    let s = s.to_ascii_lowercase();
    let (name, level) = match s.split_once('_') {
        Some((n, l)) => (n, Some(l)),
        None => (s.as_str(), None),
    };
    let (c, max) = match name {
        "bzip2" | "bz2" => (Comp::Bzip2, None),
        "gzip" | "gz" => (Comp::Gzip, Some(9)),
        "lz4" => (Comp::Lz4, Some(16)),
        "zstd" | "zstandard" => (Comp::Zstd, Some(19)),
        _ => return None,
    };
    match (level, max) {
        (None, _) => Some((c, None)),
        (Some(_), None) => None,
        (Some(l), Some(max)) => {
            if l.is_empty() || !l.bytes().all(|b| b.is_ascii_digit()) {
                return None;
            }
            let l: u8 = l.parse().ok()?;
            (l <= max).then_some((c, Some(l)))
        }
    }
}

/// size after compression with the given level
fn compressed_size(data: &[u8], c: Comp, level: Option<u8>) -> usize {
    use std::io::Write;
    match c {
        Comp::None => data.len(),
        Comp::Bzip2 => {
            let mut w = bzip2::write::BzEncoder::new(vec![], bzip2::Compression::best());
            w.write_all(data).unwrap();
            w.finish().unwrap().len()
        }
        Comp::Gzip => {
            let mut w = flate2::write::GzEncoder::new(vec![], flate2::Compression::new(level.unwrap_or(6) as u32));
            w.write_all(data).unwrap();
            w.finish().unwrap().len()
        }
        Comp::Lz4 => {
            let mut w = lz4::EncoderBuilder::new().level(level.unwrap_or(0) as u32).build(vec![]).unwrap();
            w.write_all(data).unwrap();
            let (v, r) = w.finish();
            r.unwrap();
            v.len()
        }
        Comp::Zstd => {
            let mut w = zstd::stream::write::Encoder::new(vec![], level.unwrap_or(0) as i32).unwrap();
            w.write_all(data).unwrap();
            w.finish().unwrap().len()
        }
    }
}

fn check_comp_name(c: &CompCase) -> Outcome {
    let dir = Scratch::new();
    // one positive event with a lot of other content
    let mut s = c.seed as u32 + 1;
    let mut text = String::from("HepMC::Version 2.06.09\nHepMC::IO_GenEvent-START_EVENT_LISTING\n");
    text += "E 0 0 0 0 0 0 0 0 0 0 0 1 1.5\n";
    for n in 0..c.recs as usize * 8 + 1 {
        text += &format!("V -{} 0 0 0 0 0 0 1 0\n", n + 1);
        s = s.wrapping_mul(1664525).wrapping_add(1013904223);
        let p = (s >> 12) as f64 / 1e4;
        text += &format!("P {} 23 {p:.12} {} 0.5 1000 91.2 1 0 0 0 0\n", 10001 + n, p.sin());
    }
    let inp = dir.join("in.hepmc");
    std::fs::write(&inp, &text).unwrap();
    let outdir = dir.join("out");
    let (prog, mut args): (&str, Vec<String>) = match c.program % 3 {
        0 => ("cres", ["-akt", "-R1", "-p1", "-t1", "-o"].iter().map(|s| s.to_string()).collect()),
        1 => {
            let part = dir.join("part.yml");
            std::fs::write(&part, one_region(&c.opt)).unwrap();
            ("cres-classify-events", vec!["-p".into(), part.display().to_string(), "-o".into()])
        }
        _ => ("cres-partition", ["-akt", "-R1", "-p1", "-t1", "--regions=1", "-o"].iter().map(|s| s.to_string()).collect()),
    };
    if prog == "cres-partition" {
        std::fs::create_dir(&outdir).unwrap();
        std::fs::write(&inp, text.replacen(" 1.5\n", " -1.5\n", 1)).unwrap();
        args.push(outdir.join("in.hepmc").display().to_string());
    } else {
        args.push(outdir.display().to_string());
    }
    args.push(format!("--compression={}", c.name));
    args.push(inp.display().to_string());
    let r = run(prog, &args, dir.path());
    let exp = parse_comp(&c.name);
    let Some((comp, level)) = exp else {
        ensure!(r.code.is_some() && !r.ok(), "{prog} accepts compression {:?}: {}", c.name, r.status());
        ensure!(listing(&outdir).is_empty(), "{prog} rejects compression {:?}, but there is output", c.name);
        return Ok(Info::new(true).tag("rejected"));
    };
    ensure!(r.ok(), "{prog} with compression {:?}: {}", c.name, r.status());
    let l = listing(&outdir);
    ensure!(l.len() == 1, "output files {l:?}");
    let path = outdir.join(&l[0]);
    let size = std::fs::metadata(&path).unwrap().len() as usize;
    let found = recognise(&std::fs::read(&path).unwrap());
    ensure!(found == comp, "{prog} with compression {:?} gives {found:?}", c.name);
    let out = read_file(&path, comp)?;
    let exp = compressed_size(out.as_bytes(), comp, level);
    // lz4 makes a new block for every write
    let extra = if comp == Comp::Lz4 { 250. } else { 40. };
    ensure!(
        (size as f64 - exp as f64).abs() <= 0.01 * exp as f64 + extra,
        "{prog}: output with compression {:?} has {size} bytes instead of {exp}",
        c.name
    );
    Ok(Info::new(true).tag(format!("{comp:?}")).label(level.is_some(), "with level"))
}

fn comp_case() -> BoxedStrategy<CompCase> {
    let algo = prop::sample::select(vec!["bzip2", "bz2", "gzip", "gz", "lz4", "zstd", "zstandard"]);
    let case = |s: &str, m: u16| -> String {
        s.chars().enumerate().map(|(k, c)| if m >> k & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect()
    };
    let name = prop_oneof![
        4 => (algo.clone(), prop_oneof![Just(0u16), any::<u16>()]).prop_map(move |(s, m)| case(s, m)),
        8 => (algo.clone(), prop_oneof![3 => 0u32..20, 1 => 0u32..300]).prop_map(|(s, l)| format!("{s}_{l}")),
        1 => (algo, "[_0-9a-z.+ -]{1,4}").prop_map(|(s, l)| format!("{s}{l}")),
        1 => "[a-z0-9]{0,6}(_[0-9]{1,3})?",
    ];
    (name, 0u8..40, any::<u16>(), 0u8..3, run_opt(Just(Some(1)).boxed()))
        .prop_map(|(name, recs, seed, program, opt)| CompCase { name, recs, seed, program, opt })
        .boxed()
}

fn check_help(c: &(u8, u8)) -> Outcome {
    let dir = Scratch::new();
    let prog = ["cres", "cres-partition", "cres-classify-events"][c.0 as usize % 3];
    let arg = ["--help", "-h", "--version", "-V"][c.1 as usize % 4];
    let r = run(prog, &[arg.to_string()], dir.path());
    ensure!(r.ok(), "{prog} {arg}: {}", r.status());
    let want = if c.1 % 4 < 2 { "outdir" } else { "0." };
    let want = if prog == "cres-partition" && want == "outdir" { "outfile" } else { want };
    ensure!(r.stdout.contains(want), "{prog} {arg} prints {:?}", r.stdout);
    Ok(Info::new(true))
}

pub fn options(ctx: &mut Ctx) -> String {
    let n = ctx.n(2_500, 60_000);
    ctx.part(
        "effect",
        n,
        || cli_case(1..=2, 0..=14, 5, Just(Some(1)).boxed()).prop_map(|(group, opt)| RunCase { group, opt }).boxed(),
        check_options,
    );
    let n = ctx.n(2_000, 40_000);
    ctx.part(
        "rejected",
        n,
        || {
            let flaw = prop_oneof![
                2 => any::<u8>().prop_map(Flaw::Missing),
                5 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Flaw::Value(a, b)),
                3 => (any::<bool>(), any::<u8>()).prop_map(|(a, b)| Flaw::Partial(a, b)),
                1 => any::<u8>().prop_map(Flaw::UnknownOption),
                1 => any::<u8>().prop_map(Flaw::MissingFile),
                1 => Just(Flaw::MissingArgFile),
                1 => any::<u8>().prop_map(Flaw::Twice),
                1 => Just(Flaw::SameNames),
                2 => any::<u8>().prop_map(Flaw::UnknownWeight),
                1 => any::<u8>().prop_map(Flaw::NoName),
            ];
            (cli_group(1..=2, 0..=3, 2), run_opt(threads()), flaw, any::<u8>())
                .prop_map(|(group, opt, flaw, program)| BadCase { group, opt, flaw, program })
                .boxed()
        },
        check_rejected,
    );
    let n = ctx.n(1_500, 20_000);
    ctx.part("compression", n, comp_case, check_comp_name);
    ctx.part("help", 24, || (any::<u8>(), any::<u8>()).boxed(), check_help);
    "effect: the weights written by cres for random options (spelled in random ways, in random order, partly in argument files) are compared to \
     those from composing the components of the library with the same settings. rejected: one flaw is introduced into valid arguments of one of \
     the three programs, which then has to fail with a message and without output. compression: names from the documented grammar and near \
     misses; outputs must have the right format and the size expected for the level. Non-trivial: weights change; a flaw or a name was tested."
        .into()
}

// ----------------------------------------------------------------- C23

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Variation {
    Repeat,
    /// distribute over several files at the given positions
    Split(Vec<u8>),
    /// other format
    Format(Kind),
    Compression(Vec<Comp>, Comp),
    OtherSearch,
    /// run with relative paths
    Relative,
    /// all weights multiplied by a power of two
    Scale(i8),
    /// irrelevant content of records
    Decoration(u64),
    /// several of them
    Threads,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PairCase {
    base: RunCase,
    var: Variation,
}

/// can any decision depend on the order in which equal distances are found?
fn tied(g: &Group, o: &RunOpt) -> Option<bool> {
    let mut evs = vec![];
    for (n, i) in g.events() {
        let out = ref_cluster(&o.clus_case(g.files[n].event(i, &[]).out)).ok()?;
        if !out.is_empty() {
            if by_type(&out).values().any(|v| v.len() > 10) {
                return None;
            }
            evs.push(out);
        }
    }
    let tau = o.ptweight.unwrap_or(0.);
    for a in &evs {
        let mut d: Vec<f64> = evs.iter().map(|b| ref_dist(a, b, tau)).collect();
        d.sort_by(f64::total_cmp);
        if d.windows(2).any(|w| (w[1] - w[0]).abs() <= 1e-8 * (1. + w[1])) {
            return Some(true);
        }
        if let Some(max) = o.maxcell {
            if d.iter().any(|d| (d - max).abs() <= 1e-8 * (1. + max)) {
                return Some(true);
            }
        }
    }
    Some(false)
}

fn check_pair(c: &PairCase) -> Outcome {
    let mut a = c.base.clone();
    let mut factor = 1.;
    let mut exact = true;
    // comparable inputs
    match &c.var {
        Variation::Format(k) if *k != Kind::HepMC => {
            a.group.wanted.clear();
            for f in &mut a.group.files {
                // no units
                f.opt &= !1;
            }
        }
        Variation::Decoration(_) => {
            for f in &mut a.group.files {
                f.opt &= !1;
            }
        }
        _ => {}
    }
    let mut b = a.clone();
    let mut relative = false;
    match &c.var {
        Variation::Repeat => {}
        Variation::Split(pos) => {
            let mut files = vec![];
            for f in &a.group.files {
                let mut rest = f.recs.clone();
                let mut parts = vec![];
                for p in pos {
                    let at = *p as usize % (rest.len() + 1);
                    parts.push(rest.drain(..at).collect::<Vec<_>>());
                }
                parts.push(rest);
                for p in parts {
                    let mut f = f.clone();
                    f.recs = p;
                    files.push(f);
                }
            }
            b.group.files = files;
        }
        Variation::Format(k) => {
            for f in &mut b.group.files {
                f.kind = *k;
                if *k != Kind::HepMC {
                    for r in &mut f.recs {
                        r.w.truncate(1);
                    }
                    f.names.truncate(1);
                }
                // total cross section such that weights are not changed
                f.nevents = (f.recs.len() as u64).max(1);
                f.channel = 0;
            }
            let n: u64 = b.group.files.iter().map(|f| f.nevents).sum();
            b.group.norms = vec![(Num(n as f64, 0), false, 0)];
        }
        Variation::Compression(i, o) => {
            b.group.comps = i.clone();
            b.opt.comp = *o;
        }
        Variation::OtherSearch => {
            if tied(&a.group, &a.opt) != Some(false) {
                return Ok(Info::new(false).tag("tied"));
            }
            b.opt.naive = Some(a.opt.naive != Some(true));
        }
        Variation::Relative => relative = true,
        Variation::Scale(k) => {
            factor = 2f64.powi(*k as i32);
            let all = |g: &mut Group, f: &dyn Fn(&Num) -> Num| {
                for file in &mut g.files {
                    for r in &mut file.recs {
                        for w in &mut r.w {
                            *w = f(w);
                        }
                    }
                }
            };
            all(&mut a.group, &|w| Num(w.value(), 0));
            all(&mut b.group, &|w| Num(w.value() * factor, 0));
            b.opt.minweight = a.opt.minweight.map(|w| w * factor);
        }
        Variation::Decoration(seed) => {
            let mut s = *seed | 1;
            let mut next = || {
                s ^= s << 13;
                s ^= s >> 7;
                s ^= s << 17;
                s
            };
            for f in &mut b.group.files {
                for r in &mut f.recs {
                    // keep the order of weight names
                    r.opt = r.opt & (!0 << 20) | next() as u32 & !(!0 << 20);
                    for x in &mut r.noise {
                        *x = next() as u16;
                    }
                    // other particles in between
                    if next() % 2 == 0 {
                        let at = next() as usize % (r.parts.len() + 1);
                        r.parts.insert(
                            at,
                            Part { id: 21, out: false, noise: next() as u16, p: [Num(100., 0), Num(60., 0), Num(80., 0), Num(0., 0)] },
                        );
                    }
                }
            }
        }
        Variation::Threads => {
            // without overlapping cells
            if a.opt.minweight.is_some() || a.group.events().iter().filter(|(n, i)| a.group.files[*n].event(*i, &[]).w[0] < 0.).count() > 1 {
                return Ok(Info::new(false));
            }
            b.opt.threads = Some(3);
            exact = false;
        }
    }
    let ra = complete_run(&a.group, &a.opt, false)?;
    let rb = complete_run(&b.group, &b.opt, relative)?;
    ensure!(ra.out.len() == rb.out.len(), "{} events instead of {}", rb.out.len(), ra.out.len());
    let xml = a.group.files.iter().chain(&b.group.files).any(|f| f.kind == Kind::Xml);
    let unweighted = a.opt.minweight.is_some_and(|w| w > 0.);
    if xml || unweighted {
        exact = false;
    }
    let mx = ra.out.iter().flatten().fold(0f64, |m, w| m.max(w.abs())) * factor;
    for (n, (x, y)) in ra.out.iter().zip(&rb.out).enumerate() {
        let same = x.len() == y.len()
            && x.iter().zip(y).all(|(x, y)| if exact { x * factor == *y } else { (x * factor - y).abs() <= 1e-11 * mx });
        ensure!(same, "weights of event {n} are {x:?} (times {factor}) in one run, and {y:?} in the other run with {:?}", c.var);
    }
    let changed = a.group.events().iter().zip(&ra.out).any(|(&(n, i), w)| !near(a.group.files[n].event(i, &[]).w[0] * ra.stored.scale[n], w[0], 1e-12));
    let v = format!("{:?}", c.var);
    Ok(Info::new(changed).tag(v.split(['(', ' ']).next().unwrap()).label(unweighted, "unweighting"))
}

pub fn relations(ctx: &mut Ctx) -> String {
    let n = ctx.n(3_000, 60_000);
    let mk = |recs: std::ops::RangeInclusive<usize>, parts: usize| {
        let var = prop_oneof![
            1 => Just(Variation::Repeat),
            2 => vec(any::<u8>(), 1..4).prop_map(Variation::Split),
            3 => prop::sample::select(vec![Kind::HepMC, Kind::Lhef, Kind::Xml]).prop_map(Variation::Format),
            1 => (vec(comp(), 1..3), comp()).prop_map(|(a, b)| Variation::Compression(a, b)),
            3 => Just(Variation::OtherSearch),
            1 => Just(Variation::Relative),
            2 => (-20i8..20).prop_map(Variation::Scale),
            2 => any::<u64>().prop_map(Variation::Decoration),
            1 => Just(Variation::Threads),
        ];
        let named = cli_case(1..=2, recs, parts, Just(Some(1)).boxed()).prop_map(|(mut g, opt)| {
            for f in &mut g.files {
                if f.kind != Kind::HepMC {
                    f.kind = Kind::HepMC;
                }
            }
            (g, opt)
        });
        (named, var).prop_map(|((group, opt), var)| PairCase { base: RunCase { group, opt }, var }).boxed()
    };
    ctx.part("pairs", n, || mk(0..=10, 4), check_pair);
    let n = ctx.n(60, 2_000);
    ctx.part("large-pairs", n, || mk(30..=120, 5), check_pair);
    "The program is run twice with a single thread on the same events: again, distributed differently over files, in another format, with other \
     compression, with the other search algorithm (if no distances are tied), with relative paths from another directory, with all weights \
     multiplied by a power of two, and with other irrelevant content. All resulting weights have to be the same (exactly, except for roundings \
     from normalisation and unweighting). Non-trivial: the run changes at least one weight."
        .into()
}
