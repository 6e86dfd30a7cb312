//! C17 failing output and protected files
use super::cli::*;
use super::clus::*;
use super::robust::plain_opt;
use crate::core::*;
use crate::ensure;
use crate::fmt::*;
use cres::io::FileReader;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::os::unix::fs::symlink;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};

const PROGRAMS: [&str; 3] = ["cres", "cres-partition", "cres-classify-events"];

/// Partition in one or two regions
pub fn few_regions(o: &RunOpt, two: bool) -> String {
    use cres::partition::{VPBisection, VPTreePartition};
    let tree = if two { vec![VPBisection { pt: cres::event::Event::default(), r: cres::n64(60.) }] } else { vec![] };
    let part = unsafe { VPTreePartition::<cres::event::Event, _>::from_vp(tree, cres::distance::EuclWithScaledPt::new(cres::n64(0.))) };
    serde_yaml::to_string(&(clustering(&o.clus_case(vec![])), part)).unwrap()
}

fn snapshot(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    listing(dir).into_iter().filter_map(|f| std::fs::read(dir.join(&f)).ok().map(|d| (f, d))).collect()
}

fn same_snapshot(a: &BTreeMap<String, Vec<u8>>, b: &BTreeMap<String, Vec<u8>>) -> Result<(), String> {
    for (f, d) in a {
        match b.get(f) {
            None => return Err(format!("input file {f} is gone")),
            Some(e) => ensure!(d == e, "input file {f} has been changed from {} to {} bytes", d.len(), e.len()),
        }
    }
    ensure!(a.len() == b.len(), "files have appeared among the input: {:?}", b.keys().collect::<Vec<_>>());
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Fault {
    /// file size limits relative to the size of the outputs
    Limits(Vec<u16>),
    AllLimits,
    /// output is a full device
    Full(u8),
    /// a directory is in the place of the output
    Directory(u8),
    /// link into a directory that does not exist
    Dangling(u8),
    /// the output directory is a file
    IsFile,
    /// or below a file
    BelowFile,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FaultCase {
    group: Group,
    comp: Comp,
    level: Option<u8>,
    program: u8,
    two: bool,
    fault: Fault,
}

use super::io::{store, Group};

struct Setup {
    dir: Scratch,
    program: &'static str,
    infiles: Vec<String>,
    opts: Vec<String>,
    wanted: Vec<String>,
}

impl Setup {
    fn new(c: &FaultCase) -> Setup {
        let dir = Scratch::new();
        let program = PROGRAMS[c.program as usize % 3];
        let indir = dir.join("in");
        std::fs::create_dir(&indir).unwrap();
        let stored = store(&indir, &c.group.files, &c.group.comps, &c.group.norms);
        let mut infiles: Vec<PathBuf> = stored.files.iter().map(|f| f.0.clone()).collect();
        if program != "cres" {
            infiles.retain(|f| !f.file_name().unwrap().to_string_lossy().starts_with("norm"));
        }
        let mut opts: Vec<String> = vec![];
        if program != "cres-classify-events" {
            opts.extend(["-akt", "-R0.4", "-p1", "-t1"].iter().map(|s| s.to_string()));
        }
        if program == "cres-partition" {
            opts.push("--regions=1".into());
        }
        if program == "cres-classify-events" {
            let part = dir.join("in").join("part.yml");
            std::fs::write(&part, few_regions(&plain_opt(), c.two)).unwrap();
            opts.push(format!("--partition={}", part.display()));
        }
        let mut st = Style(&[], 0);
        if let Some(n) = comp_name(&mut st, c.comp, c.level) {
            opts.push(format!("--compression={n}"));
        }
        let wanted = if program == "cres" { c.group.wanted.clone() } else { vec![] };
        if !wanted.is_empty() {
            opts.push(format!("--weights={}", wanted.join(",")));
        }
        Setup { dir, program, infiles: infiles.iter().map(|f| f.display().to_string()).collect(), opts, wanted }
    }

    /// output below `out`
    fn args(&self, out: &Path) -> Vec<String> {
        let mut a = self.opts.clone();
        a.push(match self.program {
            "cres-partition" => format!("--outfile={}", out.join("part.out").display()),
            _ => format!("--outdir={}", out.display()),
        });
        a.extend(self.infiles.iter().cloned());
        a
    }

    /// everything fine: the complete output
    fn reference(&self) -> Option<BTreeMap<String, Vec<u8>>> {
        let out = self.dir.join("ref");
        std::fs::create_dir(&out).unwrap();
        let r = run(self.program, &self.args(&out), self.dir.path());
        r.ok().then(|| snapshot(&out))
    }
}

fn limited(s: &Setup, out: &Path, limit: u64) -> Ran {
    let mut c = command(s.program, &s.args(out), s.dir.path());
    unsafe {
        c.pre_exec(move || {
            libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            let l = libc::rlimit { rlim_cur: limit, rlim_max: limit };
            if libc::setrlimit(libc::RLIMIT_FSIZE, &l) != 0 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
    finish(c)
}

fn must_fail(s: &Setup, r: &Ran, why: &str) -> Result<(), String> {
    ensure!(r.code == Some(1), "{}: {} although {why}", s.program, r.status());
    ensure!(!r.stderr.trim().is_empty(), "{} fails without any message", s.program);
    Ok(())
}

fn check_fault(c: &FaultCase) -> Outcome {
    let s = Setup::new(c);
    let before = snapshot(&s.dir.join("in"));
    let Some(reference) = s.reference() else {
        return Ok(Info::new(false));
    };
    same_snapshot(&before, &snapshot(&s.dir.join("in")))?;
    let out = s.dir.join("out");
    let names: Vec<&String> = reference.keys().collect();
    if names.is_empty() {
        return Ok(Info::new(false));
    }
    let pick = |n: &u8| names[*n as usize % names.len()].clone();
    let mut tries = 0;
    match &c.fault {
        Fault::Limits(_) | Fault::AllLimits => {
            let max = reference.values().map(|d| d.len() as u64).max().unwrap();
            let limits: Vec<u64> = match &c.fault {
                Fault::Limits(l) => {
                    let mut v: Vec<u64> = l.iter().map(|l| max * *l as u64 / 65536).collect();
                    v.extend([max.saturating_sub(1), max]);
                    v
                }
                _ => (0..=max + 1).collect(),
            };
            for l in limits {
                std::fs::create_dir(&out).unwrap();
                let r = limited(&s, &out, l);
                tries += 1;
                if l < max {
                    must_fail(&s, &r, &format!("no file can have more than {l} bytes, but {max} are needed"))?;
                } else {
                    ensure!(r.ok(), "{}: {} although files with {max} bytes can be written", s.program, r.status());
                    ensure!(snapshot(&out) == reference, "{}: the output differs from the one without any limit", s.program);
                }
                same_snapshot(&before, &snapshot(&s.dir.join("in")))?;
                std::fs::remove_dir_all(&out).unwrap();
            }
        }
        Fault::Full(n) => {
            std::fs::create_dir(&out).unwrap();
            let n = pick(n);
            if reference[&n].is_empty() {
                return Ok(Info::new(false));
            }
            symlink("/dev/full", out.join(&n)).unwrap();
            let r = run(s.program, &s.args(&out), s.dir.path());
            tries += 1;
            must_fail(&s, &r, &format!("nothing can be written to {n}"))?;
        }
        Fault::Directory(n) => {
            let n = pick(n);
            std::fs::create_dir_all(out.join(&n)).unwrap();
            let r = run(s.program, &s.args(&out), s.dir.path());
            tries += 1;
            must_fail(&s, &r, &format!("output {n} is a directory"))?;
        }
        Fault::Dangling(n) => {
            std::fs::create_dir(&out).unwrap();
            let n = pick(n);
            symlink(s.dir.join("nowhere/file"), out.join(&n)).unwrap();
            let r = run(s.program, &s.args(&out), s.dir.path());
            tries += 1;
            must_fail(&s, &r, &format!("output {n} cannot be created"))?;
        }
        Fault::IsFile | Fault::BelowFile => {
            std::fs::write(&out, "important").unwrap();
            let target = if matches!(c.fault, Fault::IsFile) { out.clone() } else { out.join("more") };
            let r = run(s.program, &s.args(&target), s.dir.path());
            tries += 1;
            must_fail(&s, &r, "the output directory is a file")?;
            ensure!(std::fs::read(&out).is_ok_and(|d| d == b"important"), "a file named like the output directory has been changed");
        }
    }
    same_snapshot(&before, &snapshot(&s.dir.join("in")))?;
    let kind = format!("{:?}", c.fault);
    Ok(Info::new(tries > 0)
        .tag(kind.split('(').next().unwrap().to_string())
        .tag(s.program)
        .tag(format!("{:?}-compressed", c.comp))
        .label(!s.wanted.is_empty(), "named weights"))
}

// -------------------------------------------------------------------- paths

#[derive(Clone, Debug, Serialize, Deserialize)]
struct InFile {
    file: FileSpec,
    dir: u8,
    name: u8,
    /// given as a link in this directory with this name
    link: Option<(u8, u8)>,
    /// how the path is written
    spell: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PathCase {
    files: Vec<InFile>,
    program: u8,
    out: u8,
    /// partition or normalisation
    extra: (u8, u8),
    outname: u8,
    two: bool,
    /// existing link in the output directory to another name there
    link: Option<(u8, u8)>,
}

const FILE_NAMES: [&str; 9] = ["x.hepmc", "x.0.hepmc", "x.1.hepmc", "x", "x.", "x.0.", "y.lhe", "x.hepmc.gz", "x.0.hepmc.gz"];
const DIRS: [&str; 3] = ["a", "b", "out"];
const OUTDIRS: [&str; 9] = ["out", "out", "a", "b", "a/../out", "new/deep", "linked", ".", "out/."];

fn dirname(n: u8) -> &'static str {
    DIRS[n as usize % DIRS.len()]
}

fn filename(n: u8) -> &'static str {
    FILE_NAMES[n as usize % FILE_NAMES.len()]
}

fn resolve(p: &Path) -> PathBuf {
    if let Ok(p) = p.canonicalize() {
        return p;
    }
    let parent = p.parent().unwrap();
    match parent.canonicalize() {
        Ok(d) => d.join(p.file_name().unwrap()),
        Err(_) => p.to_path_buf(),
    }
}

fn out_parts(name: &str, i: usize) -> String {
    let (prefix, suffix) = name.split_once('.').unwrap_or((name, ""));
    format!("{prefix}.{i}.{suffix}")
}

fn check_paths(c: &PathCase) -> Outcome {
    let dir = Scratch::new();
    let d = dir.path();
    for x in DIRS {
        std::fs::create_dir(d.join(x)).unwrap();
    }
    symlink("out", d.join("linked")).unwrap();
    let program = PROGRAMS[c.program as usize % 3];
    let mut infiles: Vec<(String, Option<&FileSpec>)> = vec![];
    let mut norms = vec![];
    for f in &c.files {
        let rel = format!("{}/{}", dirname(f.dir), filename(f.name));
        if d.join(&rel).exists() {
            return Ok(Info::new(false));
        }
        write_file(&d.join(&rel), &f.file.render().text(), Comp::None);
        let mut given = rel.clone();
        if let Some((a, b)) = f.link {
            let l = format!("{}/{}", dirname(a), filename(b));
            if d.join(&l).symlink_metadata().is_err() {
                symlink(d.join(&rel), d.join(&l)).unwrap();
                given = l;
            }
        }
        let given = match f.spell % 4 {
            0 => given,
            1 => format!("./{given}"),
            2 => d.join(given).display().to_string(),
            _ => format!("a/../{given}"),
        };
        infiles.push((given, Some(&f.file)));
        if f.file.kind == Kind::Xml && program == "cres" && !norms.contains(&f.file.channel_name()) {
            norms.push(f.file.channel_name());
        }
    }
    let mut protected: Vec<PathBuf> = vec![];
    for (k, n) in norms.iter().enumerate() {
        let rel = format!("{}/{}", dirname(c.extra.0.wrapping_add(k as u8)), filename(c.extra.1.wrapping_add(k as u8)));
        if d.join(&rel).symlink_metadata().is_ok() {
            return Ok(Info::new(false));
        }
        write_file(&d.join(&rel), &normalisation(n, &Num(2., 0), false), Comp::None);
        infiles.insert(k % infiles.len(), (rel, None));
    }
    let mut args: Vec<String> = vec![];
    if program != "cres-classify-events" {
        args.extend(["-akt", "-R0.4", "-p1", "-t1"].iter().map(|s| s.to_string()));
    }
    let nregions = if c.two { 2 } else { 1 };
    if program == "cres-classify-events" {
        let rel = format!("{}/{}", dirname(c.extra.0), filename(c.extra.1));
        if d.join(&rel).symlink_metadata().is_ok() {
            return Ok(Info::new(false));
        }
        std::fs::write(d.join(&rel), few_regions(&plain_opt(), c.two)).unwrap();
        protected.push(d.join(&rel));
        args.push(format!("-p{rel}"));
    }
    let outdir = OUTDIRS[c.out as usize % OUTDIRS.len()];
    if let Some((a, b)) = c.link {
        // the other end has to exist, otherwise it may or may not be an output
        let (from, to) = (d.join("out").join(filename(a)), d.join("out").join(filename(b)));
        if from.symlink_metadata().is_err() && from != to {
            if to.symlink_metadata().is_err() {
                std::fs::write(&to, "old output").unwrap();
            }
            symlink(filename(b), from).unwrap();
        }
    }
    // what will be written
    let mut outs: Vec<PathBuf> = vec![];
    let mut per_file: Vec<Vec<PathBuf>> = vec![];
    for (f, spec) in &infiles {
        if spec.is_none() {
            continue;
        }
        let name = Path::new(f).file_name().unwrap().to_str().unwrap();
        let o: Vec<PathBuf> = match program {
            "cres" => vec![d.join(outdir).join(name)],
            "cres-classify-events" => (0..nregions).map(|i| d.join(outdir).join(out_parts(name, i))).collect(),
            _ => vec![],
        };
        outs.extend(o.iter().cloned());
        per_file.push(o);
    }
    if program == "cres-partition" {
        let o = format!("{outdir}/{}", filename(c.outname));
        outs.push(d.join(&o));
        args.push(format!("-o{o}"));
        args.push("--regions=1".into());
        if outdir == "new/deep" {
            std::fs::create_dir_all(d.join(outdir)).unwrap();
        }
    } else {
        args.push(format!("-o{outdir}"));
    }
    args.extend(infiles.iter().map(|f| f.0.clone()));
    protected.extend(infiles.iter().map(|f| d.join(&f.0)));
    let contents: Vec<(PathBuf, Vec<u8>)> = protected.iter().map(|p| (p.clone(), std::fs::read(p).unwrap())).collect();
    let real: Vec<PathBuf> = protected.iter().map(|p| p.canonicalize().unwrap()).collect();
    let resolved: Vec<PathBuf> = outs.iter().map(|p| resolve(p)).collect();
    let over_input = resolved.iter().any(|o| real.contains(o));
    let over_output = (0..resolved.len()).any(|i| resolved[..i].contains(&resolved[i]));
    let r = run(program, &args, d);
    for (p, data) in &contents {
        ensure!(
            std::fs::read(p).is_ok_and(|n| n == *data),
            "{program} has changed the input {} ({})",
            p.display(),
            r.status()
        );
    }
    let describe = || format!("input {protected:?}, output {outs:?}");
    if over_input || over_output {
        ensure!(
            r.code == Some(1) && !r.stderr.trim().is_empty(),
            "{program}: {} although an {} file would be overwritten; {}",
            r.status(),
            if over_input { "input" } else { "output" },
            describe()
        );
        return Ok(Info::new(true).tag(if over_input { "over input" } else { "over output" }).tag(program));
    }
    ensure!(r.ok(), "{program}: {}; {}", r.status(), describe());
    if program == "cres-partition" {
        let text = std::fs::read_to_string(&outs[0]).map_err(|e| format!("cannot read partition: {e}"))?;
        ensure!(serde_yaml::from_str::<serde_yaml::Value>(&text).is_ok(), "invalid partition file {text:?}");
        return Ok(Info::new(true).tag("no conflict").tag(program));
    }
    for (o, f) in per_file.iter().zip(infiles.iter().filter_map(|f| f.1)) {
        let mut n = 0;
        for o in o {
            let reader = FileReader::try_new(o.clone()).map_err(|e| format!("cannot read output {}: {e}", o.display()))?;
            for r in reader {
                r.map_err(|e| format!("cannot read output {}: {e}", o.display()))?;
                n += 1;
            }
        }
        ensure!(n == f.recs.len(), "{program}: {n} of {} events are in {o:?}; {}", f.recs.len(), describe());
    }
    Ok(Info::new(true).tag("no conflict").tag(program))
}

// ------------------------------------------------------------------- writer

#[derive(Clone, Debug, Serialize, Deserialize)]
struct WriterCase {
    chunks: Vec<Vec<u8>>,
    /// repeat chunks to get more data
    times: u16,
    comp: Comp,
    level: u8,
    /// space in per cent of what is needed
    space: Option<u16>,
    /// bytes taken at once
    at_once: u16,
    flush: u8,
}

#[derive(Clone)]
struct Sink(std::rc::Rc<std::cell::RefCell<(Vec<u8>, usize)>>, usize, bool);

impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let mut s = self.0.borrow_mut();
        if b.is_empty() {
            return Ok(0);
        }
        if s.1 == 0 {
            return Err(std::io::Error::from_raw_os_error(28));
        }
        let n = b.len().min(self.1).min(s.1);
        s.0.extend(&b[..n]);
        s.1 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        if self.2 {
            return Err(std::io::Error::from_raw_os_error(5));
        }
        Ok(())
    }
}

fn check_writer(c: &WriterCase) -> Outcome {
    use cres::compression::CompressedWriter;
    use std::io::Write;
    let data: Vec<u8> = c.chunks.concat();
    let total = data.len() * c.times as usize;
    let write = |space: usize, bad_flush: bool| -> (Result<(), std::io::Error>, Vec<u8>) {
        let buf = std::rc::Rc::new(std::cell::RefCell::new((vec![], space)));
        let sink = Sink(buf.clone(), c.at_once as usize + 1, bad_flush);
        let mut all = || -> std::io::Result<()> {
            let mut w = CompressedWriter::new(std::io::BufWriter::with_capacity(1 + c.flush as usize * 16, sink.clone()), to_cres(c.comp, c.level))?;
            for _ in 0..c.times {
                for (n, chunk) in c.chunks.iter().enumerate() {
                    w.write_all(chunk)?;
                    if n == 1 && c.flush % 3 == 0 {
                        w.flush()?;
                    }
                }
            }
            assert!(!w.is_finished());
            w.finish()?;
            assert!(w.is_finished());
            // nothing happens any more
            w.finish()?;
            assert!(w.write_all(b"more").is_err(), "data are accepted after the end");
            Ok(())
        };
        let r = all();
        let b = buf.borrow().0.clone();
        (r, b)
    };
    let (r, full) = write(usize::MAX, false);
    r.map_err(|e| format!("cannot write: {e}"))?;
    let back = decompress(&full, c.comp).map_err(|e| format!("output is not valid: {e}"))?;
    ensure!(
        back.len() == total && back.chunks(data.len().max(1)).all(|x| x == data),
        "{} bytes have been written, {} come back",
        total,
        back.len()
    );
    let Some(space) = c.space else {
        let (r, _) = write(usize::MAX, true);
        ensure!(r.is_err(), "failure of the final flush is not reported");
        return Ok(Info::new(!full.is_empty()).tag("flush"));
    };
    let space = full.len() * space as usize / 65536;
    let (r, part) = write(space, false);
    ensure!(
        r.is_err() == (space < full.len()),
        "{space} of {} bytes can be written, but the result is {r:?}",
        full.len()
    );
    ensure!(full.starts_with(&part), "part of the output is different");
    Ok(Info::new(space < full.len()).tag(format!("{:?}", c.comp)))
}

fn fault_group(recs: std::ops::RangeInclusive<usize>, parts: usize) -> BoxedStrategy<Group> {
    // partitions need negative weights
    cli_group(1..=3, recs, parts)
        .prop_map(|mut g| {
            if let Some(r) = g.files.iter_mut().find_map(|f| f.recs.first_mut()) {
                r.w[0] = Num(-1., 0);
            }
            g
        })
        .boxed()
}

pub fn output_faults(ctx: &mut Ctx) -> String {
    let mk = |fault: BoxedStrategy<Fault>, group: BoxedStrategy<Group>| {
        (group, comp(), prop::option::of(0u8..4), any::<u8>(), any::<bool>(), fault)
            .prop_map(|(group, comp, level, program, two, fault)| FaultCase { group, comp, level, program, two, fault })
            .boxed()
    };
    let n = ctx.n(1_500, 40_000);
    ctx.part("limits", n, || mk(vec(any::<u16>(), 1..4).prop_map(Fault::Limits).boxed(), fault_group(1..=8, 6)), check_fault);
    let n = ctx.n(80, 4_000);
    ctx.part("limits-large", n, || mk(vec(any::<u16>(), 1..4).prop_map(Fault::Limits).boxed(), fault_group(20..=60, 30)), check_fault);
    let n = ctx.n(8, 400);
    ctx.part("limits-all", n, || mk(Just(Fault::AllLimits).boxed(), fault_group(0..=2, 3)), check_fault);
    let n = ctx.n(6_000, 150_000);
    ctx.part(
        "writer",
        n,
        || {
            let chunk = prop_oneof![vec(any::<u8>(), 0..300), vec(0u8..3, 0..2000), (any::<u8>(), 0usize..3000).prop_map(|(b, n)| vec![b; n])];
            (
                (vec(chunk, 0..6), prop_oneof![3 => Just(1u16), 1 => 0u16..60], comp(), 0u8..8),
                (prop::option::weighted(0.9, any::<u16>()), prop_oneof![any::<u16>(), 0u16..20], any::<u8>()),
            )
                .prop_map(|((chunks, times, comp, level), (space, at_once, flush))| WriterCase { chunks, times, comp, level, space, at_once, flush })
                .boxed()
        },
        check_writer,
    );
    let n = ctx.n(2_500, 60_000);
    ctx.part(
        "targets",
        n,
        || {
            let f = prop_oneof![
                4 => any::<u8>().prop_map(Fault::Full),
                2 => any::<u8>().prop_map(Fault::Directory),
                2 => any::<u8>().prop_map(Fault::Dangling),
                1 => Just(Fault::IsFile),
                1 => Just(Fault::BelowFile),
            ];
            mk(f.boxed(), fault_group(0..=4, 4))
        },
        check_fault,
    );
    let n = ctx.n(6_000, 150_000);
    ctx.part(
        "paths",
        n,
        || {
            let g = Gen { recs: 1..=3, parts: 3, weights: 1..=1, weight: tame_weight, ..Gen::default() };
            let f = (g.file(), any::<u8>(), any::<u8>(), prop::option::weighted(0.3, any::<(u8, u8)>()), any::<u8>()).prop_map(
                |(mut file, dir, name, link, spell)| {
                    file.recs[0].w[0] = Num(-1., 0);
                    InFile { file, dir, name, link, spell }
                },
            );
            (
                vec(f, 1..=3),
                any::<u8>(),
                any::<u8>(),
                any::<(u8, u8)>(),
                any::<u8>(),
                any::<bool>(),
                prop::option::weighted(0.2, any::<(u8, u8)>()),
            )
                .prop_map(|(files, program, out, extra, outname, two, link)| PathCase { files, program, out, extra, outname, two, link })
                .boxed()
        },
        check_paths,
    );
    "limits: the programs run with the size of files limited to generated values (for small outputs: all values) below, equal to and above the \
     size needed; they have to fail with status 1 and a message exactly if the limit is too small. writer: the compressing \
     writer on a sink that takes few bytes at a time and fails at a generated position or when flushed. targets: outputs are full devices, directories, \
     dangling links; output directories are files. paths: layouts of input, normalisation and partition files, links, spellings and output \
     directories, with a model of the file names that decides whether any input or output would be overwritten: then the program has to fail, \
     otherwise to succeed with all events in the output; inputs never change. Non-trivial: the fault could be applied."
        .into()
}
