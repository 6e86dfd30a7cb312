//! C16 malformed input
use super::cli::*;
use super::clus::*;
use super::io::*;
use crate::core::*;
use crate::ensure;
use crate::fmt::*;
use crate::model::*;
use cres::event::Event;
use cres::formats::FileFormat;
use cres::io::{detect_event_file_format, EventFileReader, EventRecord, FileReader, IOBuilder};
use cres::traits::{TryConvert, UpdateWeights};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::Path;

fn finite(e: &Event) -> Result<(), String> {
    let w = weights_of(e);
    ensure!(w.iter().all(|w| w.is_finite()), "event has weights {w:?}");
    for (id, p) in kin_of(e) {
        ensure!(p.iter().all(|x| x.is_finite()), "event has a particle {id} with momentum {p:?}");
    }
    Ok(())
}

fn text_of(r: &EventRecord) -> String {
    match r {
        EventRecord::HepMC(s) | EventRecord::LHEF(s) | EventRecord::StripperXml(s) => s.clone(),
        #[allow(unreachable_patterns)]
        _ => String::new(),
    }
}

// ---------------------------------------------------------------- any bytes

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mut {
    Set(u32, u8),
    Flip(u32, u8),
    Insert(u32, u8),
    Token(u32, u8),
    Raw(u32, Vec<u8>),
    Delete(u32, u8),
    Dup(u32, u16),
    Cut(u32),
    Move(u32, u32, u8),
}

const DICT: [&str; 48] = [
    "nan", "inf", "-", "E", "\nE", "\nE ", "<se", "</se>", "<event>", "</event>", "\n<event>\n", "\n", "\"", "1e400", "-1e-400", "0x1p3",
    "99999999999999999999", "-1", "\0", "\u{e9}", "\u{2028}", ",", "</p>", "<p", "<p id=\"0,21\">", "<?xml", ">", "<", "\nU MEV MM\n", "\nP ", "\nN 1 \"a\"", "\n\n", " ",
    "\t", "\r\n", "0", "4294967295", "18446744073709551615", "1e308", "<!--", "-->", "&amp;", "&", "</Eventrecord>", "<Eventrecord ", "nsubevents=\"999999999999999\"", "\n</init>", "<e>",
];

fn mutate(data: &mut Vec<u8>, muts: &[Mut]) {
    for m in muts {
        let n = data.len();
        let at = |p: u32| p as usize % (n + 1);
        match m {
            Mut::Set(p, b) if n > 0 => {
                data[*p as usize % n] = *b;
            }
            Mut::Flip(p, b) if n > 0 => data[*p as usize % n] ^= 1 << (b % 8),
            Mut::Insert(p, b) => data.insert(at(*p), *b),
            Mut::Token(p, t) => {
                let p = at(*p);
                data.splice(p..p, DICT[*t as usize % DICT.len()].bytes());
            }
            Mut::Raw(p, r) => {
                let p = at(*p);
                data.splice(p..p, r.iter().copied());
            }
            Mut::Delete(p, l) => {
                let p = at(*p);
                data.drain(p..(p + *l as usize).min(n));
            }
            Mut::Dup(p, l) => {
                let p = at(*p);
                let piece = data[p..(p + *l as usize).min(n)].to_vec();
                data.splice(p..p, piece);
            }
            Mut::Cut(p) => data.truncate(at(*p)),
            Mut::Move(p, q, l) => {
                let p = at(*p);
                let piece: Vec<u8> = data.drain(p..(p + *l as usize).min(n)).collect();
                let q = *q as usize % (data.len() + 1);
                data.splice(q..q, piece);
            }
            _ => {}
        }
    }
}

fn mutation() -> impl Strategy<Value = Mut> {
    prop_oneof![
        2 => (any::<u32>(), any::<u8>()).prop_map(|(p, b)| Mut::Set(p, b)),
        2 => (any::<u32>(), any::<u8>()).prop_map(|(p, b)| Mut::Flip(p, b)),
        2 => (any::<u32>(), 32u8..127).prop_map(|(p, b)| Mut::Insert(p, b)),
        6 => (any::<u32>(), any::<u8>()).prop_map(|(p, b)| Mut::Token(p, b)),
        1 => (any::<u32>(), vec(any::<u8>(), 0..12)).prop_map(|(p, b)| Mut::Raw(p, b)),
        3 => (any::<u32>(), 1u8..12).prop_map(|(p, b)| Mut::Delete(p, b)),
        1 => (any::<u32>(), 12u8..255).prop_map(|(p, b)| Mut::Delete(p, b)),
        1 => (any::<u32>(), 1u16..600).prop_map(|(p, b)| Mut::Dup(p, b)),
        1 => any::<u32>().prop_map(Mut::Cut),
        1 => (any::<u32>(), any::<u32>(), 1u8..60).prop_map(|(p, q, b)| Mut::Move(p, q, b)),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BytesCase {
    file: FileSpec,
    comp: Comp,
    choice: Vec<u8>,
    norm: Num,
    /// before and after compression
    text: Vec<Mut>,
    raw: Vec<Mut>,
    /// mutate the normalisation file instead
    on_norm: bool,
}

impl BytesCase {
    /// event file and normalisation file
    fn write(&self, dir: &Path) -> Result<Vec<u8>, String> {
        let mut text = self.file.render().text().into_bytes();
        let mut norm = normalisation(&self.file.channel_name(), &self.norm, false).into_bytes();
        let target = if self.on_norm { &mut norm } else { &mut text };
        mutate(target, &self.text);
        let mut data = compress(&text, self.comp);
        if !self.on_norm {
            mutate(&mut data, &self.raw);
        }
        std::fs::write(dir.join("in.dat"), &data).unwrap();
        std::fs::write(dir.join("norm.xml"), &norm).unwrap();
        Ok(text)
    }
}

fn check_bytes(c: &BytesCase) -> Outcome {
    let dir = Scratch::new();
    let text = c.write(dir.path())?;
    let path = dir.join("in.dat");
    let wanted: Vec<String> = if MULTI && c.file.has_names() { pick(&c.file.names, &c.choice) } else { vec![] };
    let limit = text.len() + 100;
    let mut failed = false;
    let format = detect_event_file_format(&path);
    let wanted = if matches!(format, Ok(FileFormat::HepMC2)) { wanted } else { vec![] };
    let mut n = 0;
    match FileReader::try_new(path.clone()) {
        Err(_) => failed = true,
        Ok(mut reader) => {
            ensure!(format.is_ok(), "file is read although its format is unknown");
            let conv = converter(&wanted);
            let mut all = reader.header().to_vec();
            loop {
                let _ = reader.size_hint();
                match reader.next() {
                    None => break,
                    Some(Err(_)) => {
                        failed = true;
                        break;
                    }
                    Some(Ok(r)) => {
                        all.extend(text_of(&r).bytes());
                        n += 1;
                        match conv.try_convert(r) {
                            Ok(e) => finite(&e)?,
                            Err(_) => failed = true,
                        }
                    }
                }
                ensure!(n <= limit, "more than {n} events in a file of {} bytes", text.len());
            }
            if !failed && c.raw.is_empty() && !c.on_norm {
                // nothing is lost without an error
                match format {
                    Ok(FileFormat::Lhef) => {
                        ensure!(text.starts_with(&all), "header and events are not the beginning of the file");
                        let rest = String::from_utf8_lossy(&text[all.len()..]);
                        ensure!(!rest.trim_start().starts_with("<event"), "{rest:?} at the end of the file is ignored");
                    }
                    _ => ensure!(
                        // a file cut directly after the start of an event cannot be told from one without the event
                        all == text || [&all[..], b"E"].concat() == text || [&all[..], b"<se"].concat() == text,
                        "header and events are {} bytes, but the file has {}", all.len(), text.len()
                    ),
                }
            }
        }
    }
    // the same with output
    let mut b = IOBuilder::default();
    b.weight_names(wanted.clone());
    let files = vec![(path.clone(), dir.join("out.dat")), (dir.join("norm.xml"), dir.join("norm-out"))];
    let mut written = false;
    if let Ok(mut io) = b.build_from_files_iter(files) {
        let conv = converter(&wanted);
        let mut failed = false;
        let mut k = 0;
        loop {
            let _ = io.size_hint();
            match io.next() {
                None => break,
                Some(Err(_)) => {
                    failed = true;
                    break;
                }
                Some(Ok(r)) => match conv.try_convert(r) {
                    Ok(e) => finite(&e)?,
                    Err(_) => failed = true,
                },
            }
            k += 1;
            ensure!(k <= limit, "more than {k} events in a file of {} bytes", text.len());
        }
        let w = vec![1.5; 1 + wanted.len()];
        let weights: Vec<_> = (0..k).map(|_| new_weights(&w)).collect();
        // whether or not there was a problem
        match io.update_all_weights(&weights) {
            Ok(m) => {
                written = true;
                ensure!(failed || m == k, "{m} instead of {k} weights have been updated");
            }
            Err(_) => ensure!(failed || !wanted.is_empty(), "cannot update weights of a readable file"),
        }
    }
    Ok(Info::new(failed || n > 0).label(failed, "rejected").label(!failed && n > 0, "accepted").label(written, "written").tag(format!("{:?}", c.file.kind)))
}

// ------------------------------------------------------------ certain damage

/// damage which has to be noticed
#[derive(Copy, Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
enum Kd {
    Number,
    Word,
    Cut,
    NotText,
    EndTag,
    Tag,
    Count,
    NoWeight,
    Unit,
    Line,
    Names,
    Attribute,
    Root,
    NormMissing,
    NormCut,
    Stream,
    StreamFlip,
}

const KINDS: [Kd; 17] = [
    Kd::Number,
    Kd::Word,
    Kd::Cut,
    Kd::NotText,
    Kd::EndTag,
    Kd::Tag,
    Kd::Count,
    Kd::NoWeight,
    Kd::Unit,
    Kd::Line,
    Kd::Names,
    Kd::Attribute,
    Kd::Root,
    Kd::NormMissing,
    Kd::NormCut,
    Kd::Stream,
    Kd::StreamFlip,
];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DamageCase {
    file: FileSpec,
    comp: Comp,
    choice: Vec<u8>,
    norm: Num,
    kind: Kd,
    rec: u8,
    a: u32,
    b: u32,
}

const BAD_FLOAT: [&str; 25] = [
    "nan", "NaN", "-nan", "inf", "-inf", "infinity", "Infinity", "1e999", "-1e400", "abc", "1.5D+00", "0x10", "1;5", "1.2.3", "--1", "e5", "1e+", ".", "-", "1..2", "1_0", "½", "1.5f",
    "1.0E+0x", "*",
];
const BAD_INT: [&str; 10] = ["x", "1.5", "99999999999", "1a", "+-1", "--1", "0x1", "1e0", "½", "4294967296"];

/// byte ranges of the entries in text[from..to]
fn tokens(text: &str, from: usize, to: usize) -> Vec<(usize, usize)> {
    let mut res = vec![];
    let mut start = None;
    for (k, c) in text[from..to].char_indices().map(|(k, c)| (k + from, c)).chain(std::iter::once((to, ' '))) {
        match (c.is_ascii_whitespace(), start) {
            (false, None) => start = Some(k),
            (true, Some(s)) => {
                res.push((s, k));
                start = None;
            }
            _ => {}
        }
    }
    res
}

/// byte ranges of lines
fn lines(text: &str) -> Vec<(usize, usize)> {
    let mut res = vec![];
    let mut s = 0;
    for l in text.split_inclusive('\n') {
        res.push((s, s + l.trim_end_matches('\n').len()));
        s += l.len();
    }
    res
}

type Span = (usize, usize);

/// Where things are in a rendered record
struct Layout {
    weights: Vec<Span>,
    nweights: Option<Span>,
    nrandom: Option<Span>,
    /// number of particles
    nup: Option<Span>,
    /// weight names line
    names: Option<Span>,
    units: Option<Span>,
    /// for each particle: pid, status, momentum
    parts: Vec<(Span, Span, [Span; 4])>,
    /// position of record start and end tag or line
    start: Span,
    end: Span,
}

fn layout(f: &FileSpec, i: usize, text: &str) -> Layout {
    let ls = lines(text);
    let mut l = Layout {
        weights: vec![],
        nweights: None,
        nrandom: None,
        nup: None,
        names: None,
        units: None,
        parts: vec![],
        start: (0, 0),
        end: (text.len(), text.len()),
    };
    let nparts = f.recs[i].parts.len();
    match f.kind {
        Kind::HepMC => {
            let t = tokens(text, ls[0].0, ls[0].1);
            l.start = t[0];
            l.nrandom = Some(t[11]);
            let nr: usize = text[t[11].0..t[11].1].parse().unwrap();
            l.nweights = Some(t[12 + nr]);
            l.weights = t[13 + nr..].to_vec();
            for s in &ls[1..] {
                match text.as_bytes().get(s.0) {
                    Some(b'P') => {
                        let t = tokens(text, s.0, s.1);
                        l.parts.push((t[2], t[8], [t[3], t[4], t[5], t[6]]));
                    }
                    Some(b'N') => l.names = Some(*s),
                    Some(b'U') => l.units = Some(*s),
                    _ => {}
                }
            }
        }
        Kind::Lhef => {
            let tag = ls.iter().position(|s| text[s.0..s.1].starts_with("<event")).unwrap();
            l.start = ls[tag];
            let t = tokens(text, ls[tag + 1].0, ls[tag + 1].1);
            l.nup = Some(t[0]);
            l.weights = vec![t[2]];
            for s in &ls[tag + 2..tag + 2 + nparts] {
                let t = tokens(text, s.0, s.1);
                l.parts.push((t[0], t[1], [t[6], t[7], t[8], t[9]]));
            }
            let p = text.rfind("</event>").unwrap();
            l.end = (p, p + 8);
        }
        Kind::Xml => {
            l.start = (0, 3);
            let p = text.find("w=\"").unwrap() + 3;
            l.weights = vec![(p, p + text[p..].find('"').unwrap())];
            for s in &ls {
                if text[s.0..s.1].starts_with("<p id=\"") {
                    let comma = s.0 + text[s.0..].find(',').unwrap();
                    let quote = comma + text[comma..].find('"').unwrap();
                    let close = quote + text[quote..].find('>').unwrap() + 1;
                    let end = s.0 + text[s.0..].find("</p>").unwrap();
                    let mut at = close;
                    let p: Vec<Span> = text[close..end]
                        .split(',')
                        .map(|x| {
                            let lead = x.len() - x.trim_start().len();
                            let r = (at + lead, at + lead + x.trim().len());
                            at += x.len() + 1;
                            r
                        })
                        .collect();
                    l.parts.push(((comma + 1, quote), (s.0 + 7, comma), [p[0], p[1], p[2], p[3]]));
                }
            }
            let p = text.find("</se>").unwrap();
            l.end = (p, p + 5);
        }
    }
    l
}

struct Damaged {
    /// event file before compression
    text: Vec<u8>,
    /// what has been done to the compressed data
    stream: Option<Box<dyn Fn(&mut Vec<u8>)>>,
    norm: Option<Vec<u8>>,
    /// the error is expected at this event at the latest, and not before ...
    last: usize,
    first: usize,
    /// the file cannot be opened for input and output
    not_open: bool,
    /// ... and for input neither
    not_readable: bool,
    /// everything may be all right
    harmless: bool,
    what: String,
}

impl DamageCase {
    fn wanted(&self) -> Vec<String> {
        if MULTI && self.file.has_names() {
            pick(&self.file.names, &self.choice)
        } else {
            vec![]
        }
    }

    /// None if not applicable
    fn damage(&self) -> Option<Damaged> {
        let f = &self.file;
        let r = f.render();
        let norm = normalisation(&f.channel_name(), &self.norm, false);
        let (a, b) = (self.a as usize, self.b as usize);
        let mut d = Damaged {
            text: vec![],
            stream: None,
            norm: Some(norm.clone().into_bytes()),
            last: 0,
            first: 0,
            not_open: false,
            not_readable: false,
            harmless: false,
            what: String::new(),
        };
        // not a single record
        match self.kind {
            Kd::Attribute => {
                if f.kind != Kind::Xml {
                    return None;
                }
                let mut h = r.header.clone();
                let attr = ["nevents", "nsubevents", "name"][a % 3];
                match b % 4 {
                    0 => h = h.replacen(&format!(" {attr}=\""), " other=\"", 1),
                    1 if attr != "name" => {
                        let bad = ["", "x", "-1", "99999999999999999999", "\u{bd}", "nan"][b / 4 % 6];
                        let p = h.find(&format!(" {attr}=\"")).unwrap() + attr.len() + 3;
                        let e = p + h[p..].find('"').unwrap();
                        h.replace_range(p..e, bad);
                    }
                    2 => h = h.replacen("<Eventrecord ", ["<Eventrecords ", "<Event ", "<eventrecord "][b / 4 % 3], 1),
                    3 => {
                        // cut in the first tag
                        let p = h.find("<Eventrecord").unwrap();
                        let e = p + h[p..].find('>').unwrap();
                        h.truncate(p + (b / 4) % (e - p + 1));
                        d.text = h.into_bytes();
                        d.what = "header tag is cut".into();
                        d.not_open = true;
                        d.not_readable = true;
                        return Some(d);
                    }
                    _ => return None,
                }
                d.what = format!("header is {h:?}");
                d.text = (h + &r.recs.concat()).into_bytes();
                d.not_open = true;
                d.not_readable = true;
                return Some(d);
            }
            Kd::Root => {
                d.text = r.text().into_bytes();
                d.text.splice(0..0, *b"root\0");
                d.text.truncate(5.max(d.text.len() * (a % 3) / 2));
                d.not_open = true;
                d.not_readable = true;
                d.what = "file starts like a ROOT file".into();
                return Some(d);
            }
            Kd::NormMissing => {
                if f.kind != Kind::Xml {
                    return None;
                }
                d.text = r.text().into_bytes();
                d.norm = match a % 3 {
                    0 => None,
                    1 => Some(normalisation("other", &self.norm, false).into_bytes()),
                    _ => Some(norm.replace(&format!("Contribution name=\"{}\"", f.channel_name()), "Contribution name=\"X\"").into_bytes()),
                };
                d.not_open = true;
                d.what = "no normalisation".into();
                return Some(d);
            }
            Kd::NormCut => {
                if f.kind != Kind::Xml {
                    return None;
                }
                d.text = r.text().into_bytes();
                let tag = norm.find("<xsection>").unwrap() + 10;
                let mut n = norm.clone();
                if a % 3 == 0 {
                    let e = tag + n[tag..].find(',').unwrap();
                    n.replace_range(tag..e, ["", " ", "x", " 1.2.3", "nan nan", "1e"][b % 6]);
                } else {
                    let from = n.find("<Normalization").unwrap();
                    let to = n.find("</Normalization>").unwrap() + 15;
                    n.truncate(from + b % (to - from));
                }
                d.what = format!("normalisation file is {n:?}");
                d.norm = Some(n.into_bytes());
                d.not_open = true;
                return Some(d);
            }
            Kd::Stream => {
                if self.comp == Comp::None {
                    return None;
                }
                d.text = r.text().into_bytes();
                d.what = "compressed data are cut".into();
                d.last = usize::MAX;
                d.stream = Some(Box::new(move |s| s.truncate(18 + a % (s.len() - 18))));
                return Some(d);
            }
            Kd::StreamFlip => {
                // formats with a check sum
                if self.comp != Comp::Gzip && self.comp != Comp::Bzip2 {
                    return None;
                }
                d.text = r.text().into_bytes();
                d.what = "a bit of the compressed data is wrong".into();
                d.last = usize::MAX;
                d.harmless = true;
                d.stream = Some(Box::new(move |s| {
                    let n = s.len();
                    s[10 + a % (n - 10)] ^= 1 << (b % 8)
                }));
                return Some(d);
            }
            _ => {}
        }
        if r.recs.is_empty() {
            return None;
        }
        let i = self.rec as usize % r.recs.len();
        let mut recs: Vec<Vec<u8>> = r.recs.iter().map(|r| r.clone().into_bytes()).collect();
        let text = &r.recs[i];
        let l = layout(f, i, text);
        d.first = i;
        d.last = i;
        let outgoing: Vec<usize> = (0..l.parts.len()).filter(|&k| f.recs[i].parts[k].out).collect();
        let mut cut = false;
        let set = |rec: &mut Vec<u8>, s: Span, new: &str| {
            rec.splice(s.0..s.1, new.bytes());
        };
        match self.kind {
            Kd::Number => {
                let mut spans = vec![l.weights[0]];
                if f.kind == Kind::HepMC {
                    spans.extend(self.wanted().iter().map(|n| l.weights[f.weight_pos(i, n)]));
                }
                spans.extend(outgoing.iter().flat_map(|&k| l.parts[k].2));
                let s = spans[a % spans.len()];
                let bad = BAD_FLOAT[b % BAD_FLOAT.len()];
                set(&mut recs[i], s, bad);
                d.what = format!("{bad} instead of {}", &text[s.0..s.1]);
            }
            Kd::Word => {
                let mut spans: Vec<Span> = vec![];
                spans.extend(l.nweights);
                spans.extend(l.nrandom);
                spans.extend(l.nup);
                // further numbers of particles would not be reached
                spans.extend(outgoing.iter().flat_map(|&k| [l.parts[k].0, l.parts[k].1]));
                if spans.is_empty() {
                    return None;
                }
                let s = spans[a % spans.len()];
                let bad = BAD_INT[b % BAD_INT.len()];
                set(&mut recs[i], s, bad);
                d.what = format!("{bad} instead of {}", &text[s.0..s.1]);
            }
            Kd::Cut => {
                cut = true;
                let p = match f.kind {
                    Kind::HepMC => {
                        let last = if MULTI { l.weights.last().unwrap() } else { &l.weights[0] };
                        if a % 2 == 0 || l.parts.is_empty() {
                            2 + b % (last.0 - 1)
                        } else {
                            let p = &l.parts[a / 2 % l.parts.len()];
                            let line = text[..p.0 .0].rfind('\n').unwrap() + 1;
                            line + 1 + b % (p.1 .0 - line)
                        }
                    }
                    Kind::Lhef => {
                        let from = l.start.0 + 6;
                        from + a % (l.end.1 - from)
                    }
                    Kind::Xml => 4 + a % (l.end.1 - 4),
                };
                recs[i].truncate(p);
                recs.truncate(i + 1);
                d.what = format!("file ends after {:?}", String::from_utf8_lossy(&recs[i][p.saturating_sub(50)..]));
            }
            Kd::NotText => {
                let from = match f.kind {
                    Kind::HepMC => 1,
                    Kind::Lhef => 0,
                    Kind::Xml => 3,
                };
                let end = if f.kind == Kind::Lhef { l.end.1 } else { text.len() };
                let bad: &[u8] = [&[0xffu8] as &[u8], &[0xc3, 0x28], &[0xe2, 0x82], &[0xf0, 0x28, 0x8c, 0x28], &[0x80]][b % 5];
                let mut p = from + a % (end - from);
                while !text.is_char_boundary(p) {
                    p -= 1;
                }
                recs[i].splice(p..p, bad.iter().copied());
                d.what = format!("non-text bytes {bad:?} before {:?}", &text[p..].chars().take(20).collect::<String>());
            }
            Kd::EndTag => {
                let s = match f.kind {
                    Kind::HepMC => return None,
                    Kind::Lhef => l.end,
                    Kind::Xml if a % 3 == 0 && i > 0 => {
                        d.first = i - 1;
                        d.last = i - 1;
                        l.start
                    }
                    Kind::Xml => l.end,
                };
                let p = s.0 + b % (s.1 - s.0);
                if b / 16 % 2 == 0 {
                    recs[i][p] = b'_';
                } else {
                    recs[i].remove(p);
                }
                d.what = format!("tag {:?} is damaged", &text[s.0..s.1]);
            }
            Kd::Tag => {
                if f.kind != Kind::Xml || l.parts.is_empty() {
                    return None;
                }
                // something wrong in the tags of a particle
                let (pid, status, _) = &l.parts[a % l.parts.len()];
                let close = pid.1 + text[pid.1..].find("</p>").unwrap();
                let out = f.recs[i].parts[a % l.parts.len()].out;
                let spots: &[Span] = &[(status.0 - 7, status.0), (close, close + 4), (status.1, status.1 + 1), (pid.1, pid.1 + 2)];
                // content of other particles is not relevant
                let s = spots[b % if out { 4 } else { 2 }];
                let p = s.0 + b / 8 % (s.1 - s.0);
                if text.as_bytes()[p] == b' ' {
                    return None;
                }
                if b / 4 % 2 == 0 {
                    recs[i][p] = b'_';
                } else {
                    recs[i].remove(p);
                }
                d.what = format!("particle tag {:?} is damaged at {}", &text[s.0..s.1], p - s.0);
            }
            Kd::Count => match f.kind {
                Kind::HepMC => {
                    if a % 2 == 0 && MULTI {
                        let s = l.nweights.unwrap();
                        let n = [f.names.len() + 1 + b % 5, 4_000_000_000][usize::from(b % 7 == 0)];
                        set(&mut recs[i], s, &n.to_string());
                        d.what = format!("{n} instead of {} weights", f.names.len());
                    } else {
                        let s = l.nrandom.unwrap();
                        let n = [1000 + b % 1000, 4_000_000_000][usize::from(b % 7 == 0)];
                        set(&mut recs[i], s, &n.to_string());
                        d.what = format!("{n} random states");
                    }
                }
                Kind::Lhef => {
                    let n = [l.parts.len() + 1 + b % 5, 4_000_000_000][usize::from(b % 7 == 0)];
                    set(&mut recs[i], l.nup.unwrap(), &n.to_string());
                    d.what = format!("{n} instead of {} particles", l.parts.len());
                }
                Kind::Xml => return None,
            },
            Kd::NoWeight => {
                let (first, last) = (l.weights[0], *l.weights.last().unwrap());
                match f.kind {
                    Kind::HepMC => {
                        recs[i].drain(first.0 - 1..last.1);
                        if a % 2 == 0 {
                            set(&mut recs[i], l.nweights.unwrap(), "0");
                        }
                    }
                    Kind::Lhef => {
                        // the rest of the line as well
                        let e = first.0 + text[first.0..].find('\n').unwrap();
                        recs[i].drain(first.0..e);
                    }
                    Kind::Xml => {
                        match a % 3 {
                            0 => set(&mut recs[i], first, ""),
                            1 => set(&mut recs[i], (first.0 - 3, first.1 + 1), ""),
                            _ => set(&mut recs[i], (first.0 - 3, first.0 - 2), "weight"),
                        };
                    }
                }
                d.what = "no weight".into();
            }
            Kd::Unit => {
                let s = l.units?;
                let bad = ["U KEV MM", "U gev MM", "U", "U ", "U TEV CM", "U MM GEV", "UGEV MM"][a % 7];
                set(&mut recs[i], s, bad);
                d.what = format!("{bad:?} instead of units");
            }
            Kd::Line => {
                if f.kind != Kind::HepMC {
                    return None;
                }
                let ls = lines(text);
                let n = 1 + a % ls.len();
                let p = ls.get(n).map(|s| s.0).unwrap_or(text.len());
                let bad = ["X 1 2 3\n", "p 1 2\n", "# comment\n", "0\n", "</event>\n", "\u{e9}\n", "v -1\n", "\"\n", "  x\n", "P\n", "P 1 2 3\n", "U\n", "- E\n"][b % 13];
                recs[i].splice(p..p, bad.bytes());
                d.what = format!("surplus line {bad:?}");
            }
            Kd::Names => {
                let s = l.names?;
                if self.wanted().is_empty() {
                    return None;
                }
                let line = &text[s.0..s.1];
                match a % 3 {
                    0 => {
                        // cut
                        cut = true;
                        let p = s.0 + 1 + b % (line.len() - 2);
                        if !text.is_char_boundary(p) {
                            return None;
                        }
                        recs[i].truncate(p);
                        recs.truncate(i + 1);
                        d.what = format!("file ends after {:?}", &text[s.0..p]);
                    }
                    1 => {
                        recs[i].drain(s.0..s.1 + 1);
                        d.what = "no names of weights".into();
                    }
                    _ => {
                        // no closing quote
                        recs[i].remove(s.1 - 1);
                        let rest = &text[s.1..];
                        if rest.contains('"') {
                            return None;
                        }
                        d.what = format!("no quote at the end of {line:?}");
                    }
                }
            }
            _ => unreachable!(),
        }
        d.text = r.header.clone().into_bytes();
        d.text.extend(recs.concat());
        if !cut {
            d.text.extend(r.footer.bytes());
        }
        Some(d)
    }
}

/// Write files, returns the files to be processed
fn write_damaged(c: &DamageCase, d: &Damaged, dir: &Path) -> Vec<std::path::PathBuf> {
    let path = dir.join("in.dat");
    let mut data = compress(&d.text, c.comp);
    if let Some(s) = &d.stream {
        s(&mut data);
    }
    std::fs::write(&path, data).unwrap();
    let mut files = vec![path];
    if let (Kind::Xml, Some(n)) = (c.file.kind, &d.norm) {
        let norm = dir.join("norm.xml");
        std::fs::write(&norm, n).unwrap();
        files.insert(c.b as usize % 2, norm);
    }
    files
}

fn read_damaged(
    c: &DamageCase,
    d: &Damaged,
    what: &str,
    scale: f64,
    it: impl Iterator<Item = Result<EventRecord, String>>,
) -> Result<usize, String> {
    let wanted = c.wanted();
    let conv = converter(&wanted);
    let total = c.file.recs.len();
    let mut n = 0;
    for r in it {
        let e = match r.and_then(|r| conv.try_convert(r).map_err(|e| e.to_string())) {
            Ok(e) => e,
            Err(_) => {
                ensure!(n >= d.first.min(total), "{what} fails at event {n}, before the damage");
                return Ok(n);
            }
        };
        ensure!(n <= d.last, "{what}: damaged event {n} is accepted ({}): {e:?}", d.what);
        if n < d.first || d.stream.is_some() && c.comp != Comp::Gzip && c.comp != Comp::Bzip2 && n < total {
            let mut exp = c.file.event(n, &wanted);
            exp.w[0] *= scale;
            same_event(&e, &exp, if scale == 1. { 0. } else { 1e-14 }).map_err(|m| format!("{what}: event {n} before the damage: {m}"))?;
        }
        ensure!(n < total + 5 || d.stream.is_some(), "{what}: more events than in the file");
        n += 1;
    }
    if d.harmless && c.kind == Kd::Stream {
        return Ok(n);
    }
    if d.harmless {
        // no error, so everything has to be there
        ensure!(n == total, "{what}: {n} of {total} events and no error ({})", d.what);
        return Ok(n);
    }
    Err(format!("{what}: no error although {}", d.what))
}

fn check_damage(c: &DamageCase) -> Outcome {
    let Some(d) = c.damage() else { return Ok(Info::new(false)) };
    let dir = Scratch::new();
    let files = write_damaged(c, &d, dir.path());
    let path = dir.join("in.dat");
    let mut silent = false;
    match FileReader::try_new(path.clone()) {
        Ok(reader) => {
            ensure!(!d.not_readable, "file is opened although {}", d.what);
            if !d.not_open {
                let n = read_damaged(c, &d, "reader", 1., reader.map(|r| r.map_err(|e| e.to_string())))?;
                silent = n == c.file.recs.len();
            }
        }
        Err(e) => ensure!(d.not_readable || d.stream.is_some(), "file cannot be opened: {e} ({})", d.what),
    }
    let mut b = IOBuilder::default();
    b.weight_names(c.wanted());
    let files: Vec<_> = files.iter().enumerate().map(|(k, f)| (f.clone(), dir.join(format!("out{k}")))).collect();
    match b.build_from_files_iter(files) {
        Ok(io) => {
            ensure!(!d.not_open, "files are opened for input and output although {}", d.what);
            let scale = match c.file.kind {
                Kind::Xml => c.norm.value() / c.file.nevents as f64,
                _ => 1.,
            };
            read_damaged(c, &d, "combined reader", scale, io.map(|r| r.map_err(|e| e.to_string())))?;
        }
        Err(e) => ensure!(d.not_open || d.stream.is_some(), "files cannot be opened: {e} ({})", d.what),
    }
    Ok(Info::new(!silent).tag(format!("{:?}-{:?}", c.file.kind, c.kind)))
}

fn damage_case(kinds: &'static [Kd]) -> BoxedStrategy<DamageCase> {
    (
        Gen { recs: 1..=4, parts: 6, weight: || num(weight()), ..Gen::default() }.file(),
        comp(),
        vec(any::<u8>(), 0..3),
        num((0.5..20.0f64).boxed()),
        prop::sample::select(kinds),
        any::<u8>(),
        any::<u32>(),
        any::<u32>(),
    )
        .prop_map(|(file, comp, choice, norm, kind, rec, a, b)| {
            // streams are only damaged if there are any
            let comp = match (kind, comp) {
                (Kd::Stream, Comp::None) => [Comp::Gzip, Comp::Bzip2, Comp::Zstd, Comp::Lz4][a as usize % 4],
                (Kd::StreamFlip, _) => [Comp::Gzip, Comp::Bzip2][a as usize / 7 % 2],
                _ => comp,
            };
            let norm = Num(norm.0, 0);
            DamageCase { file, comp, choice, norm, kind, rec, a, b }
        })
        .boxed()
}

// ----------------------------------------------------------------- programs

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ProgCase {
    case: DamageCase,
    program: u8,
    /// intact file before or after
    other: Option<(FileSpec, bool)>,
}

const PROGRAMS: [&str; 3] = ["cres", "cres-partition", "cres-classify-events"];

fn prog_args(program: &str, dir: &Path, files: &[String], wanted: &[String]) -> Vec<String> {
    let mut args: Vec<String> = match program {
        "cres-classify-events" => {
            std::fs::write(dir.join("part.yml"), one_region(&plain_opt())).unwrap();
            vec!["-p".into(), dir.join("part.yml").display().to_string(), "-o".into(), dir.join("out").display().to_string()]
        }
        "cres-partition" => vec!["-o".into(), dir.join("out.yml").display().to_string(), "--regions=1".into()],
        _ => vec!["-o".into(), dir.join("out").display().to_string()],
    };
    if program != "cres-classify-events" {
        args.extend(["-akt", "-R0.4", "-p1", "-t2"].iter().map(|s| s.to_string()));
    }
    if program == "cres" && !wanted.is_empty() {
        args.push(format!("--weights={}", wanted.join(",")));
    }
    args.extend(files.iter().cloned());
    args
}

pub fn plain_opt() -> RunOpt {
    RunOpt {
        jet: JetDef { algo: 0, r: 0.4, pt: 1. },
        lepton: None,
        photon: None,
        neutrinos: false,
        ptweight: None,
        minweight: None,
        seed: None,
        maxcell: None,
        naive: None,
        strategy: None,
        threads: None,
        comp: Comp::None,
        level: None,
        style: vec![],
    }
}

fn check_programs(c: &ProgCase) -> Outcome {
    let Some(d) = c.case.damage() else { return Ok(Info::new(false)) };
    if d.harmless {
        return Ok(Info::new(false));
    }
    let program = PROGRAMS[c.program as usize % 3];
    // only the program itself takes normalisation and named weights into account
    let named = matches!(c.case.kind, Kd::Names) || c.case.kind == Kd::Number && !c.case.wanted().is_empty();
    let wanted = c.case.wanted();
    if named && (program != "cres" || wanted.iter().any(|w| w.contains(','))) {
        return Ok(Info::new(false));
    }
    if matches!(c.case.kind, Kd::NormMissing | Kd::NormCut) && program != "cres" {
        return Ok(Info::new(false));
    }
    let wanted = if named { wanted } else { vec![] };
    let dir = Scratch::new();
    let mut files = write_damaged(&c.case, &d, dir.path());
    if let (Some((f, before)), true) = (&c.other, wanted.is_empty()) {
        let p = dir.join("other.dat");
        write_file(&p, &f.render().text(), Comp::None);
        if *before {
            files.insert(0, p)
        } else {
            files.push(p)
        }
    }
    if program != "cres" {
        files.retain(|f| !f.ends_with("norm.xml"));
    }
    let files: Vec<String> = files.iter().map(|f| f.display().to_string()).collect();
    let r = run(program, &prog_args(program, dir.path(), &files, &wanted), dir.path());
    ensure!(r.code == Some(1), "{program}: {} although {}", r.status(), d.what);
    ensure!(!r.stderr.trim().is_empty(), "{program} does not print any message");
    ensure!(!r.stderr.contains("panicked"), "{program}: {}", r.status());
    Ok(Info::new(true).tag(format!("{program}-{:?}", c.case.kind)).label(c.other.is_some(), "other files"))
}

fn check_program_bytes(c: &(BytesCase, u8)) -> Outcome {
    let (c, program) = c;
    let program = PROGRAMS[*program as usize % 3];
    let dir = Scratch::new();
    let text = c.write(dir.path())?;
    let wanted: Vec<String> = if MULTI && c.file.has_names() && program == "cres" { pick(&c.file.names, &c.choice) } else { vec![] };
    let wanted: Vec<String> = wanted.into_iter().filter(|w| !w.contains(',')).collect();
    let wanted = if matches!(detect_event_file_format(&dir.join("in.dat")), Ok(FileFormat::HepMC2)) { wanted } else { vec![] };
    let mut files = vec![dir.join("in.dat").display().to_string()];
    if program == "cres" && (c.file.kind == Kind::Xml || c.on_norm) {
        files.push(dir.join("norm.xml").display().to_string());
    }
    let r = run(program, &prog_args(program, dir.path(), &files, &wanted), dir.path());
    ensure!(matches!(r.code, Some(0) | Some(1)) && !r.stderr.contains("panicked"), "{program}: {}", r.status());
    let _ = text;
    Ok(Info::new(true).tag(format!("{program}-{}", r.code.unwrap())))
}

fn bytes_case(file: BoxedStrategy<FileSpec>) -> BoxedStrategy<BytesCase> {
    (
        file,
        comp(),
        vec(any::<u8>(), 0..3),
        num((0.5..20.0f64).boxed()),
        vec(mutation(), 0..5),
        prop_oneof![3 => Just(vec![]).boxed(), 1 => vec(mutation(), 1..4).boxed()],
        prop::bool::weighted(0.1),
    )
        .prop_map(|(file, comp, choice, norm, text, raw, on_norm)| BytesCase { file, comp, choice, norm, text, raw, on_norm })
        .boxed()
}

pub fn malformed(ctx: &mut Ctx) -> String {
    let n = ctx.n(100_000, 4_000_000);
    ctx.part("damage", n, || damage_case(&KINDS), check_damage);
    let n = ctx.n(100_000, 4_000_000);
    ctx.part("bytes", n, || bytes_case(Gen { recs: 0..=3, parts: 4, ..Gen::default() }.file()), check_bytes);
    let n = ctx.n(8_000, 300_000);
    ctx.part(
        "damage-programs",
        n,
        || {
            let other = Gen { recs: 1..=2, parts: 3, kinds: vec![Kind::HepMC, Kind::Lhef], weights: 1..=1, weight: tame_weight, ..Gen::default() }.file();
            (damage_case(&KINDS), any::<u8>(), proptest::option::of((other, any::<bool>())))
                .prop_map(|(case, program, other)| ProgCase { case, program, other })
                .boxed()
        },
        check_programs,
    );
    let n = ctx.n(8_000, 300_000);
    ctx.part(
        "bytes-programs",
        n,
        || (bytes_case(Gen { recs: 0..=3, parts: 4, weight: tame_weight, ..Gen::default() }.file()), any::<u8>()).boxed(),
        check_program_bytes,
    );
    "damage: one defect of a kind that can be recognised is introduced into a well-formed file (bad numbers and words at any relevant entry, cut \
     inside an event, bytes that are not text, damaged tags, counts, units, lines, names, headers, normalisation, cut or flipped compressed data); \
     all events before it have to be delivered intact and the error has to come at the damaged event. bytes: random byte and token mutations of text \
     and compressed data; no panic, finite numbers only, and either an error or every byte accounted for. programs: the same for the three \
     programs, which must end with exit status 1 (0 or 1 for random mutations). Non-trivial: the defect was applicable."
        .into()
}
