//! Models of event files: rendering to text and the events they stand for
#![allow(dead_code)]
use crate::model::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::io::Write;
use std::path::Path;

/// A number together with the way it is written
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Num(pub f64, pub u8);

impl Num {
    pub fn text(&self) -> String {
        let v = self.0;
        match self.1 {
            0 => format!("{v}"),
            1 => format!("{v:e}"),
            2 => c_exp(v, 8, 'e'),
            3 => c_exp(v, 16, 'E'),
            4 => {
                if v.abs() < 1e15 {
                    format!("{v:.6}")
                } else {
                    c_exp(v, 10, 'e')
                }
            }
            5 => {
                if v.abs() < 1e15 {
                    format!("{v:.1}")
                } else {
                    c_exp(v, 3, 'e')
                }
            }
            6 => c_exp(v, 0, 'e'),
            _ => {
                if v.is_sign_negative() {
                    format!("{v}")
                } else {
                    format!("+{v}")
                }
            }
        }
    }
    /// the number which is actually written
    pub fn value(&self) -> f64 {
        let v: f64 = self.text().parse().unwrap();
        assert!(v.is_finite());
        v
    }
}

/// like C's %.Ne
fn c_exp(v: f64, digits: usize, e: char) -> String {
    let s = format!("{v:.digits$e}");
    let (m, x) = s.split_once('e').unwrap();
    let (sign, x) = match x.strip_prefix('-') {
        Some(x) => ('-', x),
        None => ('+', x),
    };
    let s = format!("{m}{e}{sign}{x:0>2}");
    // rounding up may overflow
    if s.parse::<f64>().unwrap().is_finite() {
        s
    } else {
        format!("{v}")
    }
}

#[derive(Copy, Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Kind {
    HepMC,
    Lhef,
    Xml,
}

impl Kind {
    pub fn outgoing(self) -> i32 {
        match self {
            Kind::Xml => 0,
            _ => 1,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Part {
    pub id: i32,
    pub out: bool,
    /// selects a status for particles that are not outgoing, and irrelevant entries
    pub noise: u16,
    pub p: [Num; 4],
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Rec {
    pub w: Vec<Num>,
    pub parts: Vec<Part>,
    /// optional content
    pub opt: u32,
    pub noise: Vec<u16>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct FileSpec {
    pub kind: Kind,
    /// names of all weights, as many as each event has
    pub names: Vec<String>,
    pub recs: Vec<Rec>,
    pub opt: u32,
    /// name of STRIPPER event record
    pub channel: u8,
    /// number of events according to STRIPPER file
    pub nevents: u64,
}

pub struct Rendered {
    pub header: String,
    /// record boundaries as seen by the readers, footer included
    pub recs: Vec<String>,
    /// text after the last record that is not part of it
    pub footer: String,
}

impl Rendered {
    pub fn text(&self) -> String {
        let mut s = self.header.clone();
        for r in &self.recs {
            s += r;
        }
        s += &self.footer;
        s
    }
}

fn bit(opt: u32, n: u32) -> bool {
    opt >> n & 1 == 1
}

struct Noise<'a>(&'a [u16], usize);
impl Noise<'_> {
    fn next(&mut self) -> u16 {
        if self.0.is_empty() {
            return 0;
        }
        let r = self.0[self.1 % self.0.len()].wrapping_add(7919u16.wrapping_mul((self.1 / self.0.len()) as u16));
        self.1 += 1;
        r
    }
    fn token(&mut self) -> String {
        let n = self.next();
        match n % 7 {
            0 => "0".into(),
            1 => format!("-{}", n / 7),
            2 => format!("{}.5E+0{}", n % 9 + 1, n % 10),
            3 => format!("{:.4e}", n as f64 / 77.),
            4 => format!("-{}.25E-01", n % 100),
            _ => format!("{}", n / 7),
        }
    }
    fn int(&mut self) -> String {
        let n = self.next() as i32;
        (if n % 3 == 0 { -(n % 500) } else { n % 9000 }).to_string()
    }
}

const BAD_STATUS: [i32; 8] = [2, 3, 4, 11, 0, 21, 62, -1];
const BAD_LHEF_STATUS: [i32; 5] = [-1, 2, 3, -2, -9];

impl FileSpec {
    /// the order of named weights in record `i`
    pub fn name_order(&self, i: usize) -> Vec<usize> {
        let n = self.names.len();
        let mut o: Vec<usize> = (0..n).collect();
        // is the first weight always the same?
        let k = usize::from(bit(self.opt, 17));
        if n > k && bit(self.opt, 4) {
            let r = self.recs[i].opt as usize >> 20;
            o[k..].rotate_left(r % (n - k));
            if r & 16 != 0 {
                o[k..].reverse();
            }
        }
        o
    }
    pub fn has_names(&self) -> bool {
        self.kind == Kind::HepMC && !self.names.is_empty() && !bit(self.opt, 5)
    }
    pub fn mev(&self, i: usize) -> bool {
        self.kind == Kind::HepMC && bit(self.opt, 0) && (bit(self.opt, 1) || bit(self.recs[i].opt, 0))
    }
    fn unit_line(&self, i: usize) -> Option<&'static str> {
        let o = self.recs[i].opt;
        if self.mev(i) {
            Some(if bit(o, 1) { "U MEV MM\n" } else { "U MEV CM\n" })
        } else if bit(o, 2) {
            Some(if bit(o, 1) { "U GEV MM\n" } else { "U GEV CM\n" })
        } else {
            None
        }
    }
    pub fn channel_name(&self) -> String {
        ["Bm", "Cm", "Rp", "LO_qq"][self.channel as usize % 4].to_string()
    }
    fn status(&self, p: &Part) -> i32 {
        if p.out {
            return self.kind.outgoing();
        }
        let n = p.noise as usize;
        match self.kind {
            Kind::HepMC => BAD_STATUS[n % BAD_STATUS.len()],
            Kind::Lhef => BAD_LHEF_STATUS[n % BAD_LHEF_STATUS.len()],
            Kind::Xml => 1,
        }
    }

    /// position of a weight among those in the record
    pub fn weight_pos(&self, i: usize, name: &str) -> usize {
        let order = self.name_order(i);
        order.iter().position(|&k| self.names[k] == name).unwrap()
    }

    /// the weights in the order they are written
    fn hepmc_record(&self, i: usize, res: &mut String) {
        let r = &self.recs[i];
        let mut n = Noise(&r.noise, 0);
        let mut toks: Vec<String> = vec!["E".into(), i.to_string()];
        for k in 0..9 {
            toks.push(if matches!(k, 1 | 2 | 3) { n.token() } else { n.int() });
        }
        let nrandom = if bit(r.opt, 3) { n.next() % 40 } else { 0 };
        toks.push(nrandom.to_string());
        for _ in 0..nrandom {
            toks.push(n.token());
        }
        toks.push(r.w.len().to_string());
        toks.extend(r.w.iter().map(|w| w.text()));
        *res += &toks.join(" ");
        *res += "\n";
        if self.has_names() {
            *res += &format!("N {}", self.names.len());
            for k in self.name_order(i) {
                *res += &format!(" \"{}\"", self.names[k]);
            }
            *res += "\n";
        }
        if let Some(u) = self.unit_line(i) {
            *res += u;
        }
        if bit(r.opt, 4) {
            *res += &format!("C {} {}\n", n.token(), n.token());
        }
        if bit(r.opt, 5) {
            *res += "H 0 0 0 0 0 0 0 0 0 0 0 0 0\n";
        }
        if bit(r.opt, 6) {
            *res += &format!("F 21 {} {} {} 1.1E+01 0 0 0 0\n", n.int(), n.token(), n.token());
        }
        let nvert = (n.next() % 4) as usize + 1;
        let chunk = r.parts.len().div_ceil(nvert).max(1);
        for (v, ps) in r.parts.chunks(chunk).enumerate() {
            *res += &format!("V -{} 0 {} 0 0 0 0 {} {}", v + 1, n.token(), ps.len(), if bit(r.opt, 7) { 2 } else { 0 });
            if bit(r.opt, 7) {
                *res += " 0.5 1E0";
            }
            *res += "\n";
            for (k, p) in ps.iter().enumerate() {
                let [e, x, y, z] = &p.p;
                *res += &format!(
                    "P {} {} {} {} {} {} {} {} {} {} {} ",
                    10001 + v * chunk + k,
                    p.id,
                    x.text(),
                    y.text(),
                    z.text(),
                    e.text(),
                    n.token(),
                    self.status(p),
                    n.token(),
                    n.token(),
                    n.int()
                );
                *res += match p.noise % 3 {
                    0 => "0\n",
                    1 => "1 1 501\n",
                    _ => "2 1 501 2 502\n",
                };
            }
        }
    }

    fn lhef_record(&self, i: usize, res: &mut String) {
        let r = &self.recs[i];
        let mut n = Noise(&r.noise, 0);
        *res += if bit(r.opt, 0) { "\n<event npLO=\" -1 \" npNLO=\" 1 \">\n" } else { "\n<event>\n" };
        let pad = if bit(r.opt, 1) { "  " } else { "" };
        let sep = if bit(r.opt, 2) { "   " } else { " " };
        let line: Vec<String> = vec![
            r.parts.len().to_string(),
            (n.next() % 100).to_string(),
            r.w[0].text(),
            n.token(),
            n.token(),
            n.token(),
        ];
        *res += pad;
        *res += &line.join(sep);
        *res += "\n";
        for p in &r.parts {
            let [e, x, y, z] = &p.p;
            let toks = [
                p.id.to_string(),
                self.status(p).to_string(),
                "1".into(),
                "2".into(),
                (p.noise % 3 * 501).to_string(),
                "0".into(),
                x.text(),
                y.text(),
                z.text(),
                e.text(),
                n.token(),
                "0.".into(),
                "9.".into(),
            ];
            *res += pad;
            *res += &toks.join(sep);
            *res += "\n";
        }
        if bit(r.opt, 3) {
            *res += "#aMCatNLO 2 5 3 1 0.5E+00 > 1 -1 0\n";
        }
        if bit(r.opt, 4) {
            *res += "<rwgt>\n<wgt id='1'> 0.5E+00 </wgt>\n<wgt id='2'> 1 </wgt>\n</rwgt>\n";
        }
        if bit(r.opt, 5) {
            *res += "<scales muf='9.1E+01'></scales>\n";
        }
        *res += "</event>";
    }

    fn xml_record(&self, i: usize, res: &mut String) {
        let r = &self.recs[i];
        let mut n = Noise(&r.noise, 0);
        *res += &format!("<se w=\"{}\" muR=\"{}\" muF=\"{}\">\n", r.w[0].text(), n.token(), n.token());
        let pad = match r.opt % 3 {
            0 => "",
            _ => " ",
        };
        for p in &r.parts {
            let [e, x, y, z] = &p.p;
            *res += &format!(
                "<p id=\"{},{}\">{pad}{},{},{},{}{pad}</p>\n",
                self.status(p),
                p.id,
                e.text(),
                x.text(),
                y.text(),
                z.text()
            );
        }
        for k in 0..r.opt / 3 % 3 {
            *res += &format!("<rw ch=\"{k}\"> 0.889,{},-0.5 </rw>\n", n.token());
        }
        *res += "</se>\n";
    }

    pub fn render(&self) -> Rendered {
        let mut header = String::new();
        let mut recs: Vec<String> = vec![];
        let mut footer = String::new();
        let o = self.opt;
        match self.kind {
            Kind::HepMC => {
                if bit(o, 8) {
                    header += "\n";
                }
                header += "HepMC::Version 2.06.09\nHepMC::IO_GenEvent-START_EVENT_LISTING\n";
                for i in 0..self.recs.len() {
                    let mut s = String::new();
                    self.hepmc_record(i, &mut s);
                    recs.push(s);
                }
                if bit(o, 9) {
                    let tail = if bit(o, 10) {
                        "HepMC::IO_GenEvent-END_EVENT_LISTING\n"
                    } else {
                        "HepMC::IO_GenEvent-END_EVENT_LISTING\n\n"
                    };
                    recs.last_mut().map(|r| *r += tail).unwrap_or_else(|| header += tail);
                }
            }
            Kind::Lhef => {
                header += if bit(o, 8) { "<LesHouchesEvents version=\"3.0\">\n" } else { "<LesHouchesEvents>\n" };
                if bit(o, 9) {
                    header += "<!--\nFile generated with HELAC-NLO -> 1 > 0\n-->\n";
                }
                if bit(o, 10) {
                    header += "<header>\n<MGRunCard>\n<![CDATA[ 1 > 0 ; event ]]>\n</MGRunCard>\n</header>\n";
                }
                header += "<init>\n2212 2212 6.5E+03 6.5E+03 0 0 260000 260000 -4 1\n1.5E+01 2E-02 1.5E+01 1\n";
                if bit(o, 11) {
                    header += "<generator name='MG5' version='3'>please cite</generator>\n";
                }
                header += "</init>";
                for i in 0..self.recs.len() {
                    let mut s = String::new();
                    self.lhef_record(i, &mut s);
                    recs.push(s);
                }
                footer += if bit(o, 12) { "\n\n</LesHouchesEvents>" } else { "\n</LesHouchesEvents>\n" };
            }
            Kind::Xml => {
                header += "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
                let ne = self.nevents;
                let ns = self.recs.len();
                let name = self.channel_name();
                header += &if bit(o, 8) {
                    format!("<Eventrecord nevents=\"{ne}\" nsubevents=\"{ns}\" nreweights=\"{ns}\" as=\"2\" name=\"{name}\">\n")
                } else {
                    format!("<Eventrecord name=\"{name}\" as=\"3\" nsubevents=\"{ns}\"  nevents=\"{ne}\">\n")
                };
                if bit(o, 9) {
                    header += "<!--\nFile generated with STRIPPER v0.1 for online data base\n-->\n";
                }
                if ns > 0 {
                    header += "<e>\n";
                }
                for i in 0..ns {
                    let mut s = String::new();
                    self.xml_record(i, &mut s);
                    if i + 1 == ns {
                        s += "</e>\n";
                    } else if bit(self.recs[i].opt, 6) {
                        s += "</e>\n<e>\n";
                    }
                    recs.push(s);
                }
                let tail = if bit(o, 10) { "</Eventrecord>\n" } else { "</Eventrecord>" };
                recs.last_mut().map(|r| *r += tail).unwrap_or_else(|| header += tail);
            }
        }
        Rendered { header, recs, footer }
    }

    /// The event in record `i`, with the given named weights, without
    /// normalisation
    pub fn event(&self, i: usize, wanted: &[String]) -> Ev {
        let r = &self.recs[i];
        let mut w = vec![r.w[0].value()];
        if MULTI && self.kind == Kind::HepMC {
            for name in wanted {
                w.push(r.w[self.weight_pos(i, name)].value());
            }
        }
        let scale = if self.mev(i) { 1e-3 } else { 1. };
        let out = r
            .parts
            .iter()
            .filter(|p| p.out)
            .map(|p| {
                let q = [0, 1, 2, 3].map(|k| p.p[k].value());
                (p.id, if self.mev(i) { q.map(|x| x * scale) } else { q })
            })
            .collect();
        Ev { w, out }
    }
}

pub fn normalisation(name: &str, scale: &Num, neg: bool) -> String {
    let s = if neg { "Neg" } else { "Pos" };
    let t = scale.text();
    format!(
        "<?xml version=\"1.0\" encoding=\"UTF-8\"?>
<Normalization name=\"{name}\">
<!--
File generated with STRIPPER v0.1 for online data base
-->
<XSection>
 <XS{s}> 687.103,0.978277 </XS{s}>
 <MaxWeight{s}> 796475 </MaxWeight{s}>
 <TotalEvents{s}> 488338734 </TotalEvents{s}>
 <AcceptedEvents{s}> 493310 </AcceptedEvents{s}>
 <Factor{s}> 803.98,1.14468 </Factor{s}>
</XSection>
<Contribution name=\"{name}\">
  <xsection> {t},0.978277</xsection>
  <rw>
    <rwentry> x1 </rwentry>
    <rwentry> x2 </rwentry>
  </rw>
</Contribution>
<NumberOfRejectedEvents> 0 , 100</NumberOfRejectedEvents>
</Normalization>
"
    )
}

// ---------------------------------------------------------------- compression

#[derive(Copy, Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Comp {
    None,
    Bzip2,
    Gzip,
    Lz4,
    Zstd,
}

pub const COMPS: [Comp; 5] = [Comp::None, Comp::Bzip2, Comp::Gzip, Comp::Lz4, Comp::Zstd];

pub fn comp() -> BoxedStrategy<Comp> {
    prop_oneof![4 => Just(Comp::None), 1 => Just(Comp::Bzip2), 1 => Just(Comp::Gzip), 1 => Just(Comp::Lz4), 1 => Just(Comp::Zstd)].boxed()
}

pub fn compress(data: &[u8], c: Comp) -> Vec<u8> {
    match c {
        Comp::None => data.to_vec(),
        Comp::Bzip2 => {
            let mut w = bzip2::write::BzEncoder::new(vec![], bzip2::Compression::fast());
            w.write_all(data).unwrap();
            w.finish().unwrap()
        }
        Comp::Gzip => {
            let mut w = flate2::write::GzEncoder::new(vec![], flate2::Compression::new(3));
            w.write_all(data).unwrap();
            w.finish().unwrap()
        }
        Comp::Lz4 => {
            let mut w = lz4::EncoderBuilder::new().level(1).build(vec![]).unwrap();
            w.write_all(data).unwrap();
            let (v, r) = w.finish();
            r.unwrap();
            v
        }
        Comp::Zstd => zstd::encode_all(data, 1).unwrap(),
    }
}

/// Which compression has been used, according to the magic bytes
pub fn recognise(data: &[u8]) -> Comp {
    if data.starts_with(b"BZh") {
        Comp::Bzip2
    } else if data.starts_with(&[0x1f, 0x8b]) {
        Comp::Gzip
    } else if data.starts_with(&[0x04, 0x22, 0x4d, 0x18]) {
        Comp::Lz4
    } else if data.starts_with(&[0x28, 0xb5, 0x2f, 0xfd]) {
        Comp::Zstd
    } else {
        Comp::None
    }
}

/// Err if the data are damaged or incomplete
pub fn decompress(data: &[u8], c: Comp) -> Result<Vec<u8>, String> {
    use std::io::Read;
    let mut out = vec![];
    match c {
        Comp::None => out = data.to_vec(),
        Comp::Bzip2 => {
            bzip2::read::MultiBzDecoder::new(data).read_to_end(&mut out).map_err(|e| e.to_string())?;
        }
        Comp::Gzip => {
            flate2::read::MultiGzDecoder::new(data).read_to_end(&mut out).map_err(|e| e.to_string())?;
        }
        Comp::Lz4 => {
            let mut rest = data;
            loop {
                let mut d = lz4::Decoder::new(rest).map_err(|e| e.to_string())?;
                // with a smaller buffer the decoder can read past the end of the frame
                let mut buf = vec![0; 4 << 20];
                loop {
                    let n = d.read(&mut buf).map_err(|e| e.to_string())?;
                    if n == 0 {
                        break;
                    }
                    out.extend_from_slice(&buf[..n]);
                }
                let (left, r) = d.finish();
                r.map_err(|e| e.to_string())?;
                rest = left;
                if rest.is_empty() {
                    break;
                }
            }
        }
        Comp::Zstd => {
            out = zstd::decode_all(data).map_err(|e| e.to_string())?;
        }
    }
    Ok(out)
}

pub fn to_cres(c: Comp, level: u8) -> Option<cres::compression::Compression> {
    use cres::compression::Compression::*;
    match c {
        Comp::None => None,
        Comp::Bzip2 => Some(Bzip2),
        Comp::Gzip => Some(Gzip(level % 10)),
        Comp::Lz4 => Some(Lz4(level % 17)),
        Comp::Zstd => Some(Zstd(level % 20)),
    }
}

pub fn write_file(path: &Path, text: &str, c: Comp) {
    std::fs::write(path, compress_parts(text.as_bytes(), c)).unwrap();
}

/// Compress the data as one to four parts, possibly empty
///
/// This is what you get by concatenating compressed files or from
/// parallel compression programs. How the data are divided depends
/// only on the data.
pub fn compress_parts(data: &[u8], c: Comp) -> Vec<u8> {
    // FNV hash
    let mut h = data.iter().fold(0xcbf29ce484222325_u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3));
    let nparts = [1, 1, 2, 4][(h >> 60) as usize % 4];
    let mut cuts: Vec<usize> = (1..nparts)
        .map(|_| {
            h = h.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (h >> 33) as usize % (data.len() + 1)
        })
        .collect();
    cuts.extend([0, data.len()]);
    cuts.sort_unstable();
    cuts.windows(2).flat_map(|p| compress(&data[p[0]..p[1]], c)).collect()
}

/// Read and decompress a file, which must use the given compression
pub fn read_file(path: &Path, c: Comp) -> Result<String, String> {
    let data = std::fs::read(path).map_err(|e| format!("{}: {e}", path.display()))?;
    let found = recognise(&data);
    if found != c && !(c == Comp::None) {
        return Err(format!("{} is {found:?}-compressed instead of {c:?}", path.display()));
    }
    let text = decompress(&data, c).map_err(|e| format!("{} is not a complete {c:?} file: {e}", path.display()))?;
    String::from_utf8(text).map_err(|_| format!("{} is not text", path.display()))
}

// ---------------------------------------------------------------- generators

fn style() -> BoxedStrategy<u8> {
    (0u8..8).boxed()
}

pub fn num(v: BoxedStrategy<f64>) -> BoxedStrategy<Num> {
    (v, style()).prop_map(|(v, s)| Num(v, s)).boxed()
}

/// every kind of weight
pub fn any_weight() -> BoxedStrategy<f64> {
    prop_oneof![
        6 => weight(),
        1 => Just(-0.0),
        1 => (-290.0..290.0f64, any::<bool>()).prop_map(|(e, s)| if s { 1. } else { -1. } * 10f64.powf(e)),
    ]
    .boxed()
}

/// numbers which do not collapse to zero in any style
pub fn tame_weight() -> BoxedStrategy<Num> {
    prop_oneof![
        3 => ((-4i32..=8).prop_map(|n| n as f64), 0u8..6),
        3 => ((-32i32..=64).prop_map(|n| n as f64 / 16.), prop::sample::select(vec![0u8, 1, 2, 3, 4])),
        4 => (-1.0..2.0f64, prop::sample::select(vec![0u8, 1, 2, 3])),
    ]
    .prop_map(|(v, s)| Num(v, s))
    .boxed()
}

fn file_pid() -> BoxedStrategy<i32> {
    prop_oneof![
        4 => prop::sample::select(vec![1, -1, 2, 5, -5, 21, 21, 11, -13, 22, 111, 211, -211, 2212, 12, -14, 25, 6, -6, 24, 23]),
        1 => -100_000_000i32..100_000_000,
    ]
    .boxed()
}

fn part(pid: BoxedStrategy<i32>) -> BoxedStrategy<Part> {
    (pid, prop::bool::weighted(0.7), any::<u16>(), momentum(), [style(), style(), style(), style()])
        .prop_map(|(id, out, noise, p, s)| Part {
            id,
            out,
            noise,
            p: [Num(p[0], s[0]), Num(p[1], s[1]), Num(p[2], s[2]), Num(p[3], s[3])],
        })
        .boxed()
}

pub fn weight_name() -> BoxedStrategy<String> {
    prop_oneof![
        2 => prop::sample::select(vec!["0", "1", "Default", "Weight", "MUR1_MUF2", "PDF 303400", "E", "EE E", "N", "Δ", "muR=0.5E+00", "Weight_MERGING=0.000"])
            .prop_map(|s| s.to_string()),
        1 => "[ !#-~]{1,12}",
    ]
    .boxed()
}

pub struct Gen {
    pub kinds: Vec<Kind>,
    pub recs: std::ops::RangeInclusive<usize>,
    pub parts: usize,
    pub weights: std::ops::RangeInclusive<usize>,
    pub weight: fn() -> BoxedStrategy<Num>,
    pub pids: fn() -> BoxedStrategy<i32>,
}

impl Default for Gen {
    fn default() -> Self {
        Gen {
            kinds: vec![Kind::HepMC, Kind::HepMC, Kind::Lhef, Kind::Xml],
            recs: 0..=6,
            parts: 8,
            weights: 1..=4,
            weight: || num(any_weight()),
            pids: file_pid,
        }
    }
}

impl Gen {
    pub fn file(&self) -> BoxedStrategy<FileSpec> {
        let (parts, weights, weight, pids) = (self.parts, self.weights.clone(), self.weight, self.pids);
        let recs = self.recs.clone();
        (prop::sample::select(self.kinds.clone()), weights, recs)
            .prop_flat_map(move |(kind, nw, n)| {
                let nw = if kind == Kind::HepMC { nw } else { 1 };
                let rec = (vec(weight(), nw), vec(part(pids()), 0..=parts), any::<u32>(), vec(any::<u16>(), 1..12))
                    .prop_map(|(w, parts, opt, noise)| Rec { w, parts, opt, noise });
                (
                    Just(kind),
                    vec(weight_name(), nw),
                    vec(rec, n),
                    any::<u32>(),
                    0u8..4,
                    prop_oneof![Just(0u64), 0u64..5000],
                )
                    .prop_map(|(kind, mut names, recs, opt, channel, extra)| {
                        unique(&mut names);
                        let nevents = recs.len() as u64 + extra;
                        FileSpec { kind, names, recs, opt, channel, nevents: nevents.max(1) }
                    })
            })
            .boxed()
    }
}

pub fn unique(names: &mut [String]) {
    for i in 0..names.len() {
        while names[..i].contains(&names[i]) {
            names[i] += &i.to_string();
        }
    }
}

/// A selection of weight names in random order
pub fn pick(names: &[String], choice: &[u8]) -> Vec<String> {
    let mut rest: Vec<String> = names.to_vec();
    let mut res = vec![];
    for c in choice {
        if rest.is_empty() {
            break;
        }
        res.push(rest.remove(*c as usize % rest.len()));
    }
    res
}
