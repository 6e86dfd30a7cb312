//! C10 parsing, C11 reading, C12 writing, C13 histories
use crate::core::*;
use crate::ensure;
use crate::fmt::*;
use crate::model::*;
use cres::event::{Event, Weights};
use cres::formats::FileFormat;
use cres::io::{detect_event_file_format, CombinedFileIO, Converter, EventFileReader, EventRecord, FileReader, IOBuilder};
use cres::traits::{Rewind, TryConvert, UpdateWeights};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};

pub fn converter(wanted: &[String]) -> Converter {
    #[cfg(feature = "multi")]
    return Converter::with_weights(wanted.to_vec());
    #[cfg(not(feature = "multi"))]
    {
        let _ = wanted;
        Converter::new()
    }
}

pub fn record(kind: Kind, text: &str) -> EventRecord {
    match kind {
        Kind::HepMC => EventRecord::HepMC(text.into()),
        Kind::Lhef => EventRecord::LHEF(text.into()),
        Kind::Xml => EventRecord::StripperXml(text.into()),
    }
}

/// New weights as the resampler would pass them on
pub fn new_weights(w: &[f64]) -> Weights {
    if w.is_empty() {
        return Weights::default();
    }
    to_event(&Ev { w: w.to_vec(), out: vec![] }, 0).weights.into_inner()
}

pub fn near(a: f64, b: f64, rel: f64) -> bool {
    a == b || (a - b).abs() <= rel * a.abs().max(b.abs())
}

/// Is the event the expected one? Weights relative to `wrel`
pub fn same_event(e: &Event, exp: &Ev, wrel: f64) -> Result<(), String> {
    let w = weights_of(e);
    ensure!(
        w.len() == exp.w.len() && w.iter().zip(&exp.w).all(|(a, b)| near(*a, *b, wrel)),
        "weights {w:?} instead of {:?}",
        exp.w
    );
    let got = kin_of(e);
    let mut rest: Vec<&(i32, P4)> = exp.out.iter().collect();
    for p in &got {
        let pos = rest.iter().position(|q| q.0 == p.0 && (0..4).all(|k| near(q.1[k], p.1[k], 1e-14)));
        match pos {
            Some(n) => {
                rest.swap_remove(n);
            }
            None => return Err(format!("event has particle {p:?}, which is not among the remaining expected ones {rest:?}")),
        }
    }
    ensure!(rest.is_empty(), "event lacks particles {rest:?}");
    Ok(())
}

// ------------------------------------------------------------------ parsing

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ParseCase {
    file: FileSpec,
    choice: Vec<u8>,
    missing: bool,
}

/// names of additional weights to be taken into account
fn wanted_names(f: &FileSpec, choice: &[u8]) -> Vec<String> {
    if f.has_names() {
        pick(&f.names, choice)
    } else {
        vec![]
    }
}

fn check_parse(c: &ParseCase) -> Outcome {
    let f = &c.file;
    let wanted = wanted_names(f, &c.choice);
    let conv = converter(&wanted);
    let r = f.render();
    let mut hidden = 0;
    for (i, text) in r.recs.iter().enumerate() {
        let e = conv.try_convert(record(f.kind, text)).map_err(|e| format!("record {i} is rejected: {e:?}\n{text}"))?;
        let exp = f.event(i, &wanted);
        same_event(&e, &exp, 0.).map_err(|e| format!("record {i}: {e}\n{text}"))?;
        ensure!(e.id() == 0, "converted event has id {}", e.id());
        hidden += f.recs[i].parts.iter().filter(|p| !p.out).count();
        if MULTI && c.missing && f.kind == Kind::HepMC {
            let mut more = wanted.clone();
            let mut n = "no such weight".to_string();
            while f.names.contains(&n) {
                n += "!";
            }
            more.push(n.clone());
            ensure!(
                converter(&more).try_convert(record(f.kind, text)).is_err(),
                "no error although there is no weight named {n:?} in\n{text}"
            );
        }
    }
    Ok(Info::new(f.recs.iter().any(|r| r.parts.iter().any(|p| p.out)))
        .tag(format!("{:?}", f.kind))
        .label(hidden > 0, "other particles")
        .label(!wanted.is_empty(), "named weights")
        .label((0..f.recs.len()).any(|i| f.mev(i)), "MeV"))
}

/// Files with a normalisation
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ScaleCase {
    files: Vec<FileSpec>,
    comps: Vec<Comp>,
    /// normalisation per channel, position among the files
    norms: Vec<(Num, bool, usize)>,
}

pub struct Stored {
    pub files: Vec<(PathBuf, PathBuf)>,
    /// scale factor for the weights of each event file, in order
    pub scale: Vec<f64>,
}

/// Write files and normalisations
pub fn store(dir: &Path, files: &[FileSpec], comps: &[Comp], norms: &[(Num, bool, usize)]) -> Stored {
    let mut paths = vec![];
    for (n, f) in files.iter().enumerate() {
        let p = dir.join(format!("in{n}.dat"));
        write_file(&p, &f.render().text(), comps[n % comps.len()]);
        paths.push((p, dir.join(format!("out{n}.dat"))));
    }
    let mut scale = vec![1.; files.len()];
    let channels: Vec<String> = {
        let mut c: Vec<String> = files.iter().filter(|f| f.kind == Kind::Xml).map(|f| f.channel_name()).collect();
        c.sort();
        c.dedup();
        c
    };
    let mut all: Vec<(PathBuf, PathBuf)> = paths.clone();
    for (n, c) in channels.iter().enumerate() {
        let (num, neg, pos) = &norms[n % norms.len()];
        let p = dir.join(format!("norm{n}.xml"));
        write_file(&p, &normalisation(c, num, *neg), comps[(n + 1) % comps.len()]);
        all.insert(pos % (all.len() + 1), (p, dir.join(format!("norm-out{n}"))));
        let total: u64 = files.iter().filter(|f| f.kind == Kind::Xml && f.channel_name() == *c).map(|f| f.nevents).sum();
        for (f, s) in files.iter().zip(scale.iter_mut()) {
            if f.kind == Kind::Xml && f.channel_name() == *c {
                *s = num.value() / total as f64;
            }
        }
    }
    Stored { files: all, scale }
}

fn check_scale(c: &ScaleCase) -> Outcome {
    let dir = Scratch::new();
    let stored = store(dir.path(), &c.files, &c.comps, &c.norms);
    let mut io = IOBuilder::default().build_from_files_iter(stored.files.clone()).map_err(|e| format!("cannot open files: {e:?}"))?;
    let conv = converter(&[]);
    for (n, f) in c.files.iter().enumerate() {
        for i in 0..f.recs.len() {
            let r = io.next().ok_or_else(|| format!("record {i} of file {n} is missing"))?;
            let r = r.map_err(|e| format!("record {i} of file {n}: {e:?}"))?;
            let e = conv.try_convert(r).map_err(|e| format!("record {i} of file {n}: {e:?}"))?;
            let mut exp = f.event(i, &[]);
            exp.w[0] *= stored.scale[n];
            same_event(&e, &exp, 1e-14).map_err(|e| format!("record {i} of file {n} ({:?}): {e}", f.kind))?;
        }
    }
    ensure!(io.next().is_none(), "surplus record");
    let xml = c.files.iter().filter(|f| f.kind == Kind::Xml && !f.recs.is_empty()).count();
    Ok(Info::new(xml > 0).label(xml > 1, "several event files with normalisation"))
}

pub fn norms() -> BoxedStrategy<Vec<(Num, bool, usize)>> {
    vec(
        (
            (prop_oneof![Just(1.0), 1e-4..1e4f64], prop::sample::select(vec![0u8, 1, 2, 3]), any::<bool>())
                .prop_map(|(v, s, neg)| Num(if neg { -v } else { v }, s)),
            any::<bool>(),
            0usize..8,
        ),
        1..=3,
    )
    .boxed()
}

/// weights which can be rescaled
fn mid_weight() -> BoxedStrategy<Num> {
    num(weight())
}

pub fn parse(ctx: &mut Ctx) -> String {
    let n = ctx.n(60_000, 1_500_000);
    ctx.part(
        "records",
        n,
        || {
            (Gen { recs: 1..=3, ..Gen::default() }.file(), vec(any::<u8>(), 0..4), prop::bool::weighted(0.3))
                .prop_map(|(file, choice, missing)| ParseCase { file, choice, missing })
                .boxed()
        },
        check_parse,
    );
    let n = ctx.n(1_000, 20_000);
    ctx.part(
        "large-records",
        n,
        || {
            (Gen { recs: 1..=2, parts: 200, weights: 1..=60, ..Gen::default() }.file(), vec(any::<u8>(), 0..20))
                .prop_map(|(file, choice)| ParseCase { file, choice, missing: false })
                .boxed()
        },
        check_parse,
    );
    let n = ctx.n(3_000, 60_000);
    ctx.part(
        "normalisation",
        n,
        || {
            let g = Gen { kinds: vec![Kind::Xml, Kind::Xml, Kind::Xml, Kind::HepMC, Kind::Lhef], weights: 1..=1, weight: mid_weight, parts: 3, ..Gen::default() };
            (vec(g.file(), 1..=4), vec(comp(), 1..=3), norms()).prop_map(|(files, comps, norms)| ScaleCase { files, comps, norms }).boxed()
        },
        check_scale,
    );
    "Model events are rendered as HepMC, Les Houches or STRIPPER XML records with random number formats, units, random states, weight names \
     in random order, non-final particles, vertices and other optional content; the converted event must have exactly the modelled weights and \
     outgoing particles. Unknown weight names must be rejected. normalisation: STRIPPER files of several channels with normalisation files at \
     random positions, mixed with other formats. Non-trivial: an outgoing particle (resp. an XML event) is present."
        .into()
}

// ------------------------------------------------------------------ reading

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ReadCase {
    file: FileSpec,
    comp: Comp,
    name: u8,
    /// number of records to read between rewinds
    reads: Vec<u8>,
}

const NAMES: [&str; 8] = ["events.hepmc", "events.lhe", "x.xml", "data", "a.b.c.gz", "a.zst", "E", "run 1.hepmc2.bz2"];

fn check_read(c: &ReadCase) -> Outcome {
    let dir = Scratch::new();
    let path = dir.join(NAMES[c.name as usize % NAMES.len()]);
    let f = &c.file;
    let r = f.render();
    let text = r.text();
    write_file(&path, &text, c.comp);
    let format = detect_event_file_format(&path).map_err(|e| format!("cannot detect format: {e:?}"))?;
    let exp = match f.kind {
        Kind::HepMC => FileFormat::HepMC2,
        Kind::Lhef => FileFormat::Lhef,
        Kind::Xml => FileFormat::StripperXml,
    };
    ensure!(format == exp, "format detected as {format:?} instead of {exp:?}");
    let mut readers: Vec<(&str, Box<dyn EventFileReader>)> =
        vec![("reader", Box::new(FileReader::try_new(path.clone()).map_err(|e| format!("cannot open: {e:?}"))?))];
    readers.push((
        "format-specific reader",
        match f.kind {
            Kind::HepMC => Box::new(cres::hepmc2::FileReader::try_new(path.clone()).map_err(|e| format!("cannot open: {e:?}"))?),
            Kind::Lhef => Box::new(cres::lhef::FileReader::try_new(path.clone()).map_err(|e| format!("cannot open: {e:?}"))?),
            Kind::Xml => Box::new(cres::stripper_xml::FileReader::try_new(path.clone()).map_err(|e| format!("cannot open: {e:?}"))?),
        },
    ));
    for (what, reader) in readers.iter_mut() {
        ensure!(reader.path() == path, "{what} has path {:?}", reader.path());
        let mut rounds: Vec<usize> = c.reads.iter().map(|n| *n as usize).collect();
        rounds.push(usize::MAX);
        let last = rounds.len() - 1;
        for (k, n) in rounds.into_iter().enumerate() {
            ensure!(
                reader.header() == r.header.as_bytes(),
                "{what} reports header {:?} instead of {:?}",
                String::from_utf8_lossy(reader.header()),
                r.header
            );
            for i in 0..n.min(r.recs.len() + 2) {
                let rem = r.recs.len().saturating_sub(i);
                let (lo, hi) = reader.size_hint();
                ensure!(
                    lo <= rem && hi.is_none_or(|h| h >= rem),
                    "{what} announces {lo} to {hi:?} remaining events instead of {rem}"
                );
                if f.kind == Kind::Xml {
                    ensure!((lo, hi) == (rem, Some(rem)), "{what} announces {lo} to {hi:?} remaining events instead of {rem}");
                }
                let next = reader.next();
                match (next, r.recs.get(i)) {
                    (None, None) => {}
                    (Some(Ok(got)), Some(exp)) => {
                        ensure!(got == record(f.kind, exp), "{what} returns {got:?} as record {i} instead of {exp:?}");
                    }
                    (got, exp) => return Err(format!("{what} returns {got:?} as record {i} instead of {exp:?}")),
                }
            }
            if k < last {
                reader.rewind().map_err(|e| format!("cannot rewind {what}: {e:?}"))?;
            }
        }
    }
    Ok(Info::new(r.recs.len() > 1)
        .tag(format!("{:?}", f.kind))
        .tag(format!("{:?}-compressed", c.comp))
        .label(r.recs.is_empty(), "no events")
        .label(text.len() > 8192, "larger than a read buffer")
        .label(!c.reads.is_empty(), "rewound"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Group {
    pub files: Vec<FileSpec>,
    pub comps: Vec<Comp>,
    pub norms: Vec<(Num, bool, usize)>,
    pub wanted: Vec<String>,
}

impl Group {
    /// the concatenated events: file, index
    pub fn events(&self) -> Vec<(usize, usize)> {
        self.files.iter().enumerate().flat_map(|(n, f)| (0..f.recs.len()).map(move |i| (n, i))).collect()
    }
}

/// Files which can be treated together
pub fn group(n: std::ops::RangeInclusive<usize>, recs: std::ops::RangeInclusive<usize>, parts: usize) -> BoxedStrategy<Group> {
    let (m, r) = (n.clone(), recs.clone());
    let mixed = (
        vec(Gen { recs: r, parts, weight: mid_weight, weights: 1..=3, ..Gen::default() }.file(), m),
        vec(comp(), 1..=3),
        norms(),
    )
        .prop_map(|(files, comps, norms)| Group { files, comps, norms, wanted: vec![] });
    let named = (1usize..=5)
        .prop_flat_map(move |nw| {
            let g = Gen { kinds: vec![Kind::HepMC], recs: recs.clone(), parts, weights: nw..=nw, ..Gen::default() };
            (vec(g.file(), n.clone()), vec(comp(), 1..=3), norms(), vec(weight_name(), nw), vec(any::<u8>(), 0..4))
        })
        .prop_map(|(mut files, comps, norms, mut names, choice)| {
            unique(&mut names);
            for (n, f) in files.iter_mut().enumerate() {
                f.names = names.clone();
                // with names
                f.opt &= !(1 << 5);
                let l = names.len();
                f.names.rotate_left(n % l);
            }
            let wanted = pick(&names, &choice);
            Group { files, comps, norms, wanted: if MULTI { wanted } else { vec![] } }
        });
    prop_oneof![1 => mixed, 1 => named].boxed()
}

pub fn open(g: &Group, dir: &Path, out: Option<cres::compression::Compression>) -> Result<(CombinedFileIO, Stored), String> {
    let stored = store(dir, &g.files, &g.comps, &g.norms);
    let mut b = IOBuilder::default();
    b.compression(out).weight_names(g.wanted.clone());
    let io = b.build_from_files_iter(stored.files.clone()).map_err(|e| format!("cannot open files: {e:?}"))?;
    Ok((io, stored))
}

/// Is `got` the record `i` of file `n`?
fn right_record(g: &Group, stored: &Stored, n: usize, i: usize, got: &EventRecord) -> Result<(), String> {
    let f = &g.files[n];
    let text = &f.render().recs[i];
    if f.kind != Kind::Xml {
        ensure!(*got == record(f.kind, text), "got {got:?} instead of record {i} of file {n}: {text:?}");
        return Ok(());
    }
    // the weight is rescaled
    let EventRecord::StripperXml(s) = got else {
        return Err(format!("got {got:?} instead of record {i} of file {n}"));
    };
    let new = f.recs[i].w[0].value() * stored.scale[n];
    same_record(f, i, text, s, Some(&[new]), &[], 1.).map_err(|e| format!("record {i} of file {n}: {e}"))
}

fn check_combined_read(c: &(Group, Vec<u8>)) -> Outcome {
    let (g, reads) = c;
    let dir = Scratch::new();
    let (mut io, stored) = open(g, dir.path(), None)?;
    let events = g.events();
    let mut rounds: Vec<usize> = reads.iter().map(|n| *n as usize).collect();
    rounds.push(usize::MAX);
    let last = rounds.len() - 1;
    let all_xml = g.files.iter().all(|f| f.kind == Kind::Xml);
    for (k, n) in rounds.into_iter().enumerate() {
        for i in 0..n.min(events.len() + 2) {
            let rem = events.len().saturating_sub(i);
            let (lo, hi) = io.size_hint();
            ensure!(lo <= rem && hi.is_none_or(|h| h >= rem), "{lo} to {hi:?} remaining events are announced instead of {rem}");
            ensure!(
                !all_xml || (lo, hi) == (rem, Some(rem)),
                "{lo} to {hi:?} remaining events are announced instead of {rem}"
            );
            match (io.next(), events.get(i)) {
                (None, None) => {}
                (Some(Ok(got)), Some(&(n, i))) => right_record(g, &stored, n, i, &got)?,
                (got, exp) => return Err(format!("got {got:?} as record {i} instead of {exp:?}")),
            }
        }
        if k < last {
            io.rewind().map_err(|e| format!("cannot rewind: {e:?}"))?;
        }
    }
    Ok(Info::new(events.len() > 1 && g.files.len() > 1)
        .label(g.files.iter().any(|f| f.recs.is_empty()), "with empty file")
        .label(!reads.is_empty(), "rewound"))
}

pub fn read(ctx: &mut Ctx) -> String {
    let mk = |recs: std::ops::RangeInclusive<usize>, parts: usize| {
        (Gen { recs, parts, ..Gen::default() }.file(), comp(), any::<u8>(), vec(0u8..10, 0..3))
            .prop_map(|(file, comp, name, reads)| ReadCase { file, comp, name, reads })
            .boxed()
    };
    let n = ctx.n(16_000, 400_000);
    ctx.part("files", n, || mk(0..=6, 6), check_read);
    let n = ctx.n(1_000, 20_000);
    ctx.part("large", n, || mk(5..=60, 40), check_read);
    let n = ctx.n(6_000, 100_000);
    ctx.part("several-files", n, || (group(0..=4, 0..=4, 4), vec(0u8..12, 0..3)).boxed(), check_combined_read);
    "Random event files of all three formats (also without events, with various headers and footers), stored uncompressed or compressed by \
     independent encoders under arbitrary names, are read completely or partly with rewinds in between; header, every record, the end and the \
     announced number of events are compared to the rendered model. Non-trivial: at least two records (and two files)."
        .into()
}

// ------------------------------------------------------------------ writing

fn value(tok: &str, what: &str) -> Result<f64, String> {
    tok.parse().map_err(|_| format!("{what} is {tok:?} in the output, not a number"))
}

/// Is the output record the input record with the new weights (None: unchanged)?
#[allow(clippy::too_many_arguments)]
pub fn same_record(
    f: &FileSpec,
    i: usize,
    inp: &str,
    out: &str,
    new: Option<&[f64]>,
    wanted: &[String],
    scale: f64,
) -> Result<(), String> {
    let Some(new) = new else {
        ensure!(inp == out, "record changed from {inp:?} to {out:?} although there is no new weight");
        return Ok(());
    };
    match f.kind {
        Kind::HepMC => {
            let (il, ir) = inp.split_once('\n').unwrap();
            let (ol, or) = out.split_once('\n').ok_or("no line break")?;
            ensure!(ir == or, "content after event line changed from {ir:?} to {or:?}");
            let it: Vec<&str> = il.split_ascii_whitespace().collect();
            let ot: Vec<&str> = ol.split_ascii_whitespace().collect();
            ensure!(it.len() == ot.len(), "event line changed from {il:?} to {ol:?}");
            let nrandom: usize = it[11].parse().unwrap();
            let w0 = 13 + nrandom;
            let mut expect: Vec<Option<f64>> = vec![None; it.len()];
            expect[w0] = Some(new[0]);
            for (k, name) in wanted.iter().enumerate() {
                expect[w0 + f.weight_pos(i, name)] = Some(new[k + 1]);
            }
            for (n, e) in expect.iter().enumerate() {
                match e {
                    None => ensure!(it[n] == ot[n], "entry {n} of the event line changed from {} to {}", it[n], ot[n]),
                    Some(v) => {
                        let got = value(ot[n], "weight")?;
                        ensure!(got == *v, "weight is {got:e} in the output instead of {v:e} (entry {n})");
                    }
                }
            }
        }
        Kind::Lhef => {
            // nothing changes but the third entry after the event tag
            let split = |s: &str| -> Option<(String, Vec<String>, String)> {
                let tag = s.find("<event")?;
                let start = tag + s[tag..].find('\n')? + 1;
                let end = start + s[start..].find('\n')?;
                let toks = s[start..end].split_ascii_whitespace().map(|t| t.to_string()).collect();
                Some((s[..start].to_string(), toks, s[end..].to_string()))
            };
            let (ih, it, ir) = split(inp).unwrap();
            let (oh, mut ot, or) = split(out).ok_or_else(|| format!("no event line in {out:?}"))?;
            ensure!(ih == oh && ir == or, "record changed from {inp:?} to {out:?}");
            ensure!(it.len() == ot.len(), "event line changed from {it:?} to {ot:?}");
            let got = value(&ot[2], "weight")?;
            ensure!(got == new[0], "weight is {got:e} in the output instead of {:e}", new[0]);
            ot[2] = it[2].clone();
            ensure!(it == ot, "event line changed from {it:?} to {ot:?}");
        }
        Kind::Xml => {
            let split = |s: &str| -> Option<(String, String, String)> {
                let s0 = s.strip_prefix("<se w=\"")?;
                let (w, rest) = s0.split_once('"')?;
                Some(("<se w=\"".into(), w.into(), rest.into()))
            };
            let (ih, _, ir) = split(inp).unwrap();
            let (oh, w, or) = split(out).ok_or_else(|| format!("no weight in {out:?}"))?;
            ensure!(ih == oh && ir == or, "record changed from {inp:?} to {out:?}");
            let got = value(&w, "weight")? * scale;
            ensure!(near(got, new[0], 1e-14), "weight is {got:e} in the output instead of {:e}", new[0]);
        }
    }
    Ok(())
}

/// Split text after the header into records and the rest
pub fn split_records(kind: Kind, rest: &str) -> (Vec<&str>, &str) {
    let marker = match kind {
        Kind::HepMC => "\nE ",
        Kind::Lhef => "</event>",
        Kind::Xml => "<se",
    };
    let mut recs: Vec<&str> = vec![];
    let mut rest = rest;
    match kind {
        Kind::HepMC => {
            while let Some(p) = rest.find(marker) {
                recs.push(&rest[..p + 1]);
                rest = &rest[p + 1..];
            }
            if !rest.is_empty() {
                recs.push(rest);
                rest = "";
            }
        }
        Kind::Lhef => {
            while let Some(p) = rest.find(marker) {
                recs.push(&rest[..p + marker.len()]);
                rest = &rest[p + marker.len()..];
            }
        }
        Kind::Xml => {
            while !rest.is_empty() {
                let p = rest[3.min(rest.len())..].find(marker).map(|p| p + 3).unwrap_or(rest.len());
                recs.push(&rest[..p]);
                rest = &rest[p..];
            }
        }
    }
    (recs, rest)
}

/// Compare an output file to the input
///
/// new: for each record the new weights, None if unchanged
pub fn same_file(
    f: &FileSpec,
    out: &str,
    new: &[Option<Vec<f64>>],
    wanted: &[String],
    scale: f64,
) -> Result<(), String> {
    let r = f.render();
    let rest = out
        .strip_prefix(r.header.as_str())
        .ok_or_else(|| format!("output starts with {:?} instead of the header {:?}", out.chars().take(r.header.len()).collect::<String>(), r.header))?;
    let (recs, rest) = split_records(f.kind, rest);
    ensure!(
        recs.len() == new.len(),
        "{} events in the output instead of {}",
        recs.len(),
        new.len()
    );
    for (i, (out, new)) in recs.iter().zip(new).enumerate() {
        same_record(f, i, &r.recs[i], out, new.as_deref(), wanted, scale).map_err(|e| format!("record {i}: {e}"))?;
    }
    if f.kind == Kind::Lhef {
        ensure!(rest.trim() == r.footer.trim(), "footer is {rest:?} instead of {:?}", r.footer);
    } else if new.len() == r.recs.len() {
        ensure!(rest.is_empty(), "surplus {rest:?} at the end of output");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WriteCase {
    pub group: Group,
    /// new weights, as many as needed; None: keep
    pub new: Vec<Option<Vec<f64>>>,
    pub out: Comp,
    pub level: u8,
    pub one_by_one: bool,
}

/// the new weights of each event
fn assign(g: &Group, new: &[Option<Vec<f64>>]) -> Vec<Option<Vec<f64>>> {
    g.events()
        .iter()
        .enumerate()
        .map(|(k, &(n, i))| {
            let f = &g.files[n];
            let w = new.get(k % new.len().max(1)).cloned().flatten();
            let nw = 1 + g.wanted.len();
            match w {
                Some(mut w) => {
                    while w.len() < nw {
                        w.push(w[w.len() - 1] * 0.5 + 1.);
                    }
                    w.truncate(nw);
                    // the same weight cannot have two values
                    for (k, name) in g.wanted.iter().enumerate() {
                        if f.weight_pos(i, name) == 0 {
                            w[k + 1] = w[0];
                        }
                    }
                    Some(w)
                }
                None if MULTI => None,
                None => Some(vec![f.recs[i].w[0].value()]),
            }
        })
        .collect()
}

fn to_weights(new: &[Option<Vec<f64>>]) -> Vec<Weights> {
    new.iter().map(|w| new_weights(w.as_deref().unwrap_or(&[]))).collect()
}

/// Compare all output files
pub fn check_outputs(g: &Group, stored: &Stored, new: &[Option<Vec<f64>>], out: Comp) -> Result<(), String> {
    let event_files: Vec<&(PathBuf, PathBuf)> =
        stored.files.iter().filter(|f| f.0.file_name().unwrap().to_str().unwrap().starts_with("in")).collect();
    let mut k = 0;
    for (n, f) in g.files.iter().enumerate() {
        let text = read_file(&event_files[n].1, out)?;
        let m = f.recs.len().min(new.len() - k);
        same_file(f, &text, &new[k..k + m], &g.wanted, stored.scale[n]).map_err(|e| format!("output file {n} ({:?}): {e}", f.kind))?;
        k += m;
        // the input is still the same
        let comp = g.comps[n % g.comps.len()];
        ensure!(read_file(&event_files[n].0, comp)? == f.render().text(), "input file {n} changed");
    }
    for (i, o) in &stored.files {
        if i.file_name().unwrap().to_str().unwrap().starts_with("norm") {
            ensure!(!o.exists(), "output {o:?} for a normalisation");
        }
    }
    Ok(())
}

fn check_write(c: &WriteCase) -> Outcome {
    let g = &c.group;
    let dir = Scratch::new();
    let (mut io, stored) = open(g, dir.path(), to_cres(c.out, c.level))?;
    let new = assign(g, &c.new);
    let weights = to_weights(&new);
    if c.one_by_one {
        for (n, w) in weights.iter().enumerate() {
            let more = io.update_next_weights(w).map_err(|e| format!("cannot write event {n}: {e:?}"))?;
            ensure!(more, "no event to write at {n}");
        }
        ensure!(!io.update_next_weights(&new_weights(&[1.])).map_err(|e| format!("{e:?}"))?, "an event after the last one is written");
        io.finish_weight_update().map_err(|e| format!("cannot finish: {e:?}"))?;
    } else {
        let n = io.update_all_weights(&weights).map_err(|e| format!("cannot write: {e:?}"))?;
        ensure!(n == weights.len(), "{n} events written instead of {}", weights.len());
    }
    // complete before everything is dropped
    check_outputs(g, &stored, &new, c.out)?;
    drop(io);
    check_outputs(g, &stored, &new, c.out)?;
    // read back the output
    let conv = converter(&g.wanted);
    let mut k = 0;
    for (n, f) in g.files.iter().enumerate() {
        let outfile = &stored.files.iter().filter(|f| f.0.file_name().unwrap().to_str().unwrap().starts_with("in")).nth(n).unwrap().1;
        let mut r = FileReader::try_new(outfile.clone()).map_err(|e| format!("cannot open output file {n}: {e:?}"))?;
        for i in 0..f.recs.len() {
            let rec = r.next().ok_or("output ends early")?.map_err(|e| format!("cannot read output {n}: {e:?}"))?;
            let e = conv.try_convert(rec).map_err(|e| format!("cannot parse output {n}: {e:?}"))?;
            let mut exp = f.event(i, &g.wanted);
            if let Some(w) = &new[k] {
                exp.w = w.clone();
            } else if f.kind == Kind::Xml {
                exp.w[0] *= stored.scale[n];
            }
            if f.kind == Kind::Xml {
                exp.w[0] /= stored.scale[n];
            }
            same_event(&e, &exp, if f.kind == Kind::Xml { 1e-13 } else { 0. }).map_err(|e| format!("output file {n}, event {i}: {e}"))?;
            k += 1;
        }
        ensure!(r.next().is_none(), "surplus event in output {n}");
    }
    Ok(Info::new(new.iter().any(|n| n.is_some()))
        .tag(format!("output {:?}", c.out))
        .label(g.files.len() > 1, "several files")
        .label(new.iter().any(|n| n.is_none()), "unchanged events")
        .label(!g.wanted.is_empty(), "named weights")
        .label(c.one_by_one, "one by one")
        .label(g.files.iter().any(|f| f.recs.is_empty()), "with empty file"))
}

fn new_list() -> BoxedStrategy<Vec<Option<Vec<f64>>>> {
    let w = prop_oneof![
        3 => weight(),
        1 => Just(-0.0),
        1 => (-280.0..280.0f64, any::<bool>()).prop_map(|(e, s)| if s { 1. } else { -1. } * 10f64.powf(e)),
        1 => (any::<u32>()).prop_map(|n| n as f64 * 1e-7 + 0.1),
    ];
    vec(prop_oneof![5 => vec(w, 1..=4).prop_map(Some), 1 => Just(None)], 1..12).boxed()
}

fn write_case(n: std::ops::RangeInclusive<usize>, recs: std::ops::RangeInclusive<usize>, parts: usize) -> BoxedStrategy<WriteCase> {
    (group(n, recs, parts), new_list(), comp(), any::<u8>(), any::<bool>())
        .prop_map(|(group, new, out, level, one_by_one)| WriteCase { group, new, out, level, one_by_one })
        .boxed()
}

pub fn write(ctx: &mut Ctx) -> String {
    let n = ctx.n(12_000, 300_000);
    ctx.part("files", n, || write_case(1..=1, 0..=5, 6), check_write);
    let n = ctx.n(5_000, 100_000);
    ctx.part("several-files", n, || write_case(0..=4, 0..=3, 3), check_write);
    let n = ctx.n(400, 8_000);
    ctx.part("large", n, || write_case(1..=2, 5..=60, 40), check_write);
    "Random event files of all formats and compressions are copied with random new weights (all at once or one by one, including unchanged \
     events, denormal-free values over 560 decades, several named weights) to outputs with random compression and level. The output is compared \
     entry by entry to the input: only the weights may differ and must equal the new values exactly (1e-14 for rescaled STRIPPER weights); it must \
     be complete before the writer is dropped, and is read back. Non-trivial: at least one weight is replaced."
        .into()
}

// ---------------------------------------------------------------- histories

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Next(u8),
    Rewind,
    /// update that many events more or less than there are
    UpdateAll(i8, u8),
    /// rewind, update some one by one, finish
    UpdateSome(u8, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HistCase {
    group: Group,
    new: Vec<Option<Vec<f64>>>,
    out: Comp,
    level: u8,
    ops: Vec<Op>,
    single: bool,
}

fn check_history(c: &HistCase) -> Outcome {
    let g = &c.group;
    let dir = Scratch::new();
    let (mut io, stored) = open(g, dir.path(), to_cres(c.out, c.level))?;
    let events = g.events();
    let mut pos = 0;
    // weights in the output, if it is complete
    let mut written: Option<Vec<Option<Vec<f64>>>> = None;
    let mut writes = 0;
    let mut fresh = true;
    let mut log: Vec<String> = vec![];
    let all = assign(g, &c.new);
    for op in &c.ops {
        log.push(format!("{op:?}"));
        let ctxt = |e: String| format!("{e} (after {log:?})");
        match op {
            Op::Next(n) => {
                if !fresh {
                    // reading restarts the output
                    io.rewind().map_err(|e| format!("cannot rewind: {e:?}"))?;
                    pos = 0;
                    fresh = true;
                }
                written = None;
                for _ in 0..*n {
                    match (io.next(), events.get(pos)) {
                        (None, None) => {}
                        (Some(Ok(got)), Some(&(n, i))) => {
                            right_record(g, &stored, n, i, &got).map_err(ctxt)?;
                            pos += 1;
                        }
                        (got, exp) => return Err(ctxt(format!("got {got:?} instead of record {exp:?}"))),
                    }
                }
            }
            Op::Rewind => {
                io.rewind().map_err(|e| format!("cannot rewind: {e:?}"))?;
                pos = 0;
                fresh = true;
            }
            Op::UpdateAll(diff, shift) => {
                let mut new = all.clone();
                if !new.is_empty() {
                    // other weights than before
                    for w in new.iter_mut().flatten() {
                        for x in w.iter_mut() {
                            *x += *shift as f64;
                        }
                    }
                }
                let m = (events.len() as i64 + *diff as i64).max(0) as usize;
                let template: Option<Vec<f64>> = Some(vec![1.; 1 + g.wanted.len()]);
                new.resize(m, template);
                let n = io.update_all_weights(&to_weights(&new)).map_err(|e| ctxt(format!("cannot write: {e:?}")))?;
                let exp = m.min(events.len());
                ensure!(n == exp, "{}", ctxt(format!("{n} events written instead of {exp}")));
                new.truncate(exp);
                written = Some(new);
                writes += 1;
                fresh = false;
            }
            Op::UpdateSome(n, finish) => {
                io.rewind().map_err(|e| format!("cannot rewind: {e:?}"))?;
                let n = if *finish { events.len() + 1 } else { *n as usize };
                for k in 0..n {
                    let w = all.get(k).cloned().unwrap_or(Some(vec![1.; 1 + g.wanted.len()]));
                    let more = io
                        .update_next_weights(&new_weights(w.as_deref().unwrap_or(&[])))
                        .map_err(|e| ctxt(format!("cannot write event {k}: {e:?}")))?;
                    ensure!(more == (k < events.len()), "{}", ctxt(format!("update {k} of {} returns {more}", events.len())));
                }
                io.finish_weight_update().map_err(|e| ctxt(format!("cannot finish: {e:?}")))?;
                writes += 1;
                fresh = false;
                // files which have not been reached have no defined content
                written = if n > events.len() { Some(all.clone()) } else { None };
            }
        }
        if let Some(w) = &written {
            check_outputs(g, &stored, w, c.out).map_err(ctxt)?;
        }
    }
    drop(io);
    if let Some(w) = &written {
        check_outputs(g, &stored, w, c.out).map_err(|e| format!("{e} (after {log:?} and dropping everything)"))?;
    }
    Ok(Info::new(writes > 0 && c.ops.len() > 1 && events.len() > 1)
        .label(g.files.len() > 1, "several files")
        .label(writes > 1, "several updates")
        .label(written.is_some(), "output compared at the end"))
}

/// the same with a single file, which can be written to once
fn check_single_history(c: &HistCase) -> Outcome {
    let mut g = c.group.clone();
    g.files.truncate(1);
    if g.files.is_empty() || g.files[0].kind == Kind::Xml {
        return Ok(Info::new(false));
    }
    let dir = Scratch::new();
    let stored = store(dir.path(), &g.files, &g.comps, &g.norms);
    let (inp, outp) = stored.files[0].clone();
    let mut b = IOBuilder::default();
    b.compression(to_cres(c.out, c.level)).weight_names(g.wanted.clone());
    let mut io = b.build_from_files(inp, outp).map_err(|e| format!("cannot open file: {e:?}"))?;
    let events = g.events();
    let all = assign(&g, &c.new);
    let mut pos = 0;
    let mut log: Vec<String> = vec![];
    for op in &c.ops {
        log.push(format!("{op:?}"));
        let ctxt = |e: String| format!("{e} (after {log:?})");
        match op {
            Op::Next(n) => {
                for _ in 0..*n {
                    match (io.next(), events.get(pos)) {
                        (None, None) => {}
                        (Some(Ok(got)), Some(&(n, i))) => {
                            right_record(&g, &stored, n, i, &got).map_err(ctxt)?;
                            pos += 1;
                        }
                        (got, exp) => return Err(ctxt(format!("got {got:?} instead of record {exp:?}"))),
                    }
                }
            }
            Op::Rewind => {
                io.rewind().map_err(|e| format!("cannot rewind: {e:?}"))?;
                pos = 0;
            }
            Op::UpdateAll(diff, _) => {
                let m = (events.len() as i64 + *diff as i64).max(0) as usize;
                let mut new = all.clone();
                new.resize(m, Some(vec![1.; 1 + g.wanted.len()]));
                let n = io.update_all_weights(&to_weights(&new)).map_err(|e| ctxt(format!("cannot write: {e:?}")))?;
                new.truncate(events.len());
                ensure!(n == new.len(), "{}", ctxt(format!("{n} events written instead of {}", new.len())));
                check_outputs(&g, &stored, &new, c.out).map_err(ctxt)?;
                break;
            }
            Op::UpdateSome(n, finish) => {
                io.rewind().map_err(|e| format!("cannot rewind: {e:?}"))?;
                let n = if *finish { events.len() + 1 } else { *n as usize };
                for k in 0..n {
                    let w = all.get(k).cloned().unwrap_or(Some(vec![1.; 1 + g.wanted.len()]));
                    let more = io
                        .update_next_weights(&new_weights(w.as_deref().unwrap_or(&[])))
                        .map_err(|e| ctxt(format!("cannot write event {k}: {e:?}")))?;
                    ensure!(more == (k < events.len()), "{}", ctxt(format!("update {k} of {} returns {more}", events.len())));
                }
                io.finish_weight_update().map_err(|e| ctxt(format!("cannot finish: {e:?}")))?;
                let new: Vec<_> = all[..n.min(all.len())].to_vec();
                check_outputs(&g, &stored, &new, c.out).map_err(ctxt)?;
                break;
            }
        }
    }
    Ok(Info::new(events.len() > 1 && log.len() > 1))
}

fn hist_case(n: std::ops::RangeInclusive<usize>) -> BoxedStrategy<HistCase> {
    let op = prop_oneof![
        4 => (0u8..9).prop_map(Op::Next),
        2 => Just(Op::Rewind),
        2 => (prop_oneof![3 => Just(0i8), 2 => -4i8..4], 0u8..3).prop_map(|(d, s)| Op::UpdateAll(d, s)),
        2 => (0u8..10, any::<bool>()).prop_map(|(n, b)| Op::UpdateSome(n, b)),
    ];
    (group(n, 0..=3, 2), new_list(), comp(), any::<u8>(), vec(op, 1..10))
        .prop_map(|(group, new, out, level, ops)| HistCase { group, new, out, level, ops, single: false })
        .boxed()
}

pub fn history(ctx: &mut Ctx) -> String {
    let n = ctx.n(8_000, 200_000);
    ctx.part("combined", n, || hist_case(0..=4), check_history);
    let n = ctx.n(6_000, 120_000);
    ctx.part("single", n, || hist_case(1..=1), check_single_history);
    "Random operation sequences (reading any number of events, rewinding, updating all weights with too few, exactly enough or too many \
     weights, updating one by one and finishing) on zero to four event files of mixed formats and compressions; every returned record, return \
     value and the output files after each update are compared to a model that concatenates the events. Non-trivial: at least two operations \
     including an update and at least two events."
        .into()
}
