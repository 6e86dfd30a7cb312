//! C08 clustering
use crate::core::*;
use crate::ensure;
use crate::model::*;
use cres::cluster::{DefaultClustering, JetAlgorithm, JetDefinition, PhotonDefinition, NO_CLUSTERING};
use cres::traits::Clustering;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct JetDef {
    /// 0: anti-kt, 1: Cambridge/Aachen, 2: kt
    pub algo: u8,
    pub r: f64,
    pub pt: f64,
}

impl JetDef {
    pub fn to(self) -> JetDefinition {
        JetDefinition {
            algorithm: match self.algo {
                0 => JetAlgorithm::AntiKt,
                1 => JetAlgorithm::CambridgeAachen,
                _ => JetAlgorithm::Kt,
            },
            radius: self.r,
            min_pt: self.pt,
        }
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct PhotonDef {
    pub efrac: f64,
    pub r: f64,
    pub pt: f64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ClusCase {
    pub out: Vec<(i32, P4)>,
    pub jet: JetDef,
    pub lepton: Option<JetDef>,
    pub photon: Option<PhotonDef>,
    pub neutrinos: bool,
}

pub const PARTONS: [i32; 11] = [1, 2, 3, 4, 5, -1, -2, -3, -4, -5, 21];
pub const HADRON_IDS: [i32; 20] =
    [211, -211, 111, 321, -321, 130, 310, 2212, -2212, 2112, -2112, 3122, -3122, 411, -421, 511, -521, 5122, 443, 113];
pub const LEPTONS: [i32; 4] = [11, -11, 13, -13];
pub const NEUTRINOS: [i32; 6] = [12, -12, 14, -14, 16, -16];
pub const OTHERS: [i32; 9] = [6, -6, 15, -15, 23, 24, -24, 25, 1000022];

fn pt2(p: &P4) -> f64 {
    p[1] * p[1] + p[2] * p[2]
}
fn rap(p: &P4) -> f64 {
    0.5 * ((p[0] + p[3]) / (p[0] - p[3])).ln()
}
fn dr2(p: &P4, q: &P4) -> f64 {
    let mut dphi = (p[2].atan2(p[1]) - q[2].atan2(q[1])).abs();
    if dphi > std::f64::consts::PI {
        dphi = 2. * std::f64::consts::PI - dphi;
    }
    dphi * dphi + (rap(p) - rap(q)).powi(2)
}

/// The numerical outcome is too close to call
pub struct Ambiguous;

/// sequential recombination, straight from the definition
fn ref_jets(mut p: Vec<P4>, def: &JetDef) -> Result<Vec<P4>, Ambiguous> {
    let weight = |q: &P4| match def.algo {
        0 => 1. / pt2(q),
        1 => 1.,
        _ => pt2(q),
    };
    let mut jets = vec![];
    while !p.is_empty() {
        let mut beam = (f64::INFINITY, 0);
        let mut pairs = vec![];
        for i in 0..p.len() {
            let b = weight(&p[i]);
            if !b.is_finite() || !rap(&p[i]).is_finite() {
                return Err(Ambiguous);
            }
            if b < beam.0 {
                beam = (b, i);
            }
            for j in i + 1..p.len() {
                pairs.push((b.min(weight(&p[j])) * dr2(&p[i], &p[j]) / (def.r * def.r), i, j));
            }
        }
        pairs.sort_by(|a, b| a.0.total_cmp(&b.0));
        let near = |a: f64, b: f64| (a - b).abs() <= 1e-7 * a.abs().max(b.abs());
        match pairs.first() {
            Some(&(d, i, j)) => {
                if near(d, beam.0) || pairs.get(1).is_some_and(|x| near(d, x.0)) {
                    return Err(Ambiguous);
                }
                if d < beam.0 {
                    let q = p.remove(j);
                    for k in 0..4 {
                        p[i][k] += q[k];
                    }
                } else {
                    jets.push(p.remove(beam.1));
                }
            }
            None => jets.push(p.remove(beam.1)),
        }
    }
    let cut = def.pt * def.pt;
    if jets.iter().any(|j| (pt2(j) - cut).abs() <= 1e-9 * cut.max(1e-9)) {
        return Err(Ambiguous);
    }
    jets.retain(|j| pt2(j) > cut);
    Ok(jets)
}

fn ref_isolated(c: &ClusCase, n: usize, def: &PhotonDef) -> Result<bool, Ambiguous> {
    let p = c.out[n].1;
    let pt = pt2(&p).sqrt();
    if (pt - def.pt).abs() <= 1e-9 * pt.max(def.pt) {
        return Err(Ambiguous);
    }
    if pt < def.pt {
        return Ok(false);
    }
    let mut cone = [0.; 4];
    let mut scale = 0.;
    for (m, (id, q)) in c.out.iter().enumerate() {
        if m == n || NEUTRINOS.contains(id) || id.abs() == 13 {
            continue;
        }
        let dr = dr2(&p, q).sqrt();
        if (dr - def.r).abs() <= 1e-7 {
            return Err(Ambiguous);
        }
        if dr < def.r {
            for k in 0..4 {
                cone[k] += q[k];
            }
            scale += q[0];
        }
    }
    let et2 = cone[0] * cone[0] - cone[3] * cone[3];
    if scale > 0. && et2 < 1e-6 * scale * scale {
        return Err(Ambiguous);
    }
    let lim = def.efrac * et2.max(0.).sqrt();
    if (pt - lim).abs() <= 1e-6 * (pt + lim + scale * 1e-3) {
        return Err(Ambiguous);
    }
    Ok(pt > lim)
}

pub fn ref_cluster(c: &ClusCase) -> Result<Vec<(i32, P4)>, Ambiguous> {
    let mut jets = vec![];
    let mut leptons = vec![];
    let mut res = vec![];
    for (n, (id, p)) in c.out.iter().enumerate() {
        match *id {
            22 => {
                let isolated = match &c.photon {
                    Some(def) => ref_isolated(c, n, def)?,
                    None => false,
                };
                if isolated {
                    res.push((83, *p));
                } else if c.lepton.is_some() {
                    leptons.push(*p);
                } else {
                    res.push((22, *p));
                }
            }
            x if PARTONS.contains(&x) || HADRON_IDS.contains(&x) => jets.push(*p),
            x if LEPTONS.contains(&x) && c.lepton.is_some() => leptons.push(*p),
            x if NEUTRINOS.contains(&x) => {
                if c.neutrinos {
                    res.push((x, *p));
                }
            }
            x => res.push((x, *p)),
        }
    }
    res.extend(ref_jets(jets, &c.jet)?.into_iter().map(|j| (81, j)));
    if let Some(def) = &c.lepton {
        res.extend(ref_jets(leptons, def)?.into_iter().map(|j| (82, j)));
    }
    Ok(res)
}

pub fn clustering(c: &ClusCase) -> DefaultClustering {
    let mut cl = DefaultClustering::new(c.jet.to()).include_neutrinos(c.neutrinos);
    if let Some(l) = c.lepton {
        cl = cl.with_lepton_def(l.to());
    }
    if let Some(p) = c.photon {
        cl = cl.with_photon_def(PhotonDefinition { min_e_fraction: p.efrac, radius: p.r, min_pt: p.pt });
    }
    cl
}

/// same particles up to rounding?
pub fn match_kin(got: &[(i32, P4)], exp: &[(i32, P4)], tol: f64) -> Result<(), String> {
    let count = |v: &[(i32, P4)]| {
        let mut m: BTreeMap<i32, usize> = BTreeMap::new();
        for (i, _) in v {
            *m.entry(*i).or_default() += 1;
        }
        m
    };
    ensure!(count(got) == count(exp), "objects {:?} instead of {:?} (id: number)", count(got), count(exp));
    let mut rest = got.to_vec();
    for (id, p) in exp {
        let d = |q: &P4| (0..4).map(|k| (p[k] - q[k]).abs()).fold(0., f64::max);
        let best = rest
            .iter()
            .enumerate()
            .filter(|(_, r)| r.0 == *id)
            .min_by(|a, b| d(&a.1 .1).total_cmp(&d(&b.1 .1)))
            .unwrap();
        ensure!(d(&best.1 .1) <= tol, "no object {id} with momentum {p:?}, the closest is {:?}", best.1 .1);
        let i = best.0;
        rest.swap_remove(i);
    }
    Ok(())
}

fn check_cluster(c: &ClusCase) -> Outcome {
    let mut ev = to_event(&Ev { w: vec![-1.5, 2., 3.], out: c.out.clone() }, 77);
    let w0 = weights_of(&ev);
    let mut ev2 = to_event(&Ev { w: vec![-1.5, 2., 3.], out: c.out.clone() }, 77);
    ev.id = 77;
    ev2.id = 77;
    let same = NO_CLUSTERING.cluster(ev2).unwrap();
    ensure!(
        same == ev && weights_of(&same) == w0,
        "an event changes although clustering is disabled"
    );
    let expected = ref_cluster(c);
    let res = clustering(c).cluster(ev).unwrap();
    ensure!(res.id() == 77, "clustering changes the event id to {}", res.id());
    ensure!(weights_of(&res) == w0, "clustering changes the weights to {:?}", weights_of(&res));
    let Ok(expected) = expected else {
        return Ok(Info::new(false).tag("numerically ambiguous"));
    };
    let scale: f64 = c.out.iter().map(|p| p.1[0]).sum::<f64>() + 1e-9;
    let got = kin_of(&res);
    match_kin(&got, &expected, 1e-9 * scale)?;
    let clustered = c.out.iter().filter(|p| PARTONS.contains(&p.0) || HADRON_IDS.contains(&p.0)).count();
    let n = |id: i32| expected.iter().filter(|p| p.0 == id).count();
    Ok(Info::new(clustered > 1)
        .label(n(81) > 1, "several jets")
        .label(n(82) > 0, "dressed leptons")
        .label(n(83) > 0, "isolated photons")
        .label(c.photon.is_some() && c.out.iter().any(|p| p.0 == 22) && n(83) < c.out.iter().filter(|p| p.0 == 22).count(), "photon not isolated")
        .label(clustered > n(81), "partons combined or below threshold"))
}

fn check_many(c: &ClusCase) -> Outcome {
    // many particles: every bit of momentum is in exactly one jet if there is no threshold
    let mut c = c.clone();
    c.jet.pt = 0.;
    let ev = to_event(&Ev { w: vec![1.], out: c.out.clone() }, 0);
    let res = kin_of(&clustering(&c).cluster(ev).unwrap());
    let mut sum = [0.; 4];
    let mut n_in = 0;
    for (id, p) in &c.out {
        if PARTONS.contains(id) || HADRON_IDS.contains(id) {
            n_in += 1;
            for k in 0..4 {
                sum[k] += p[k];
            }
        }
    }
    let scale = sum[0] + 1e-9;
    let mut n_jets = 0;
    for (id, p) in &res {
        if *id == 81 {
            n_jets += 1;
            for k in 0..4 {
                sum[k] -= p[k];
            }
        }
    }
    ensure!(
        sum.iter().all(|s| s.abs() <= 1e-9 * scale),
        "momentum {sum:?} out of a total energy {scale} of {n_in} particles is not in any of the {n_jets} jets"
    );
    ensure!(n_jets <= n_in && (n_in == 0 || n_jets > 0), "{n_jets} jets out of {n_in} particles");
    Ok(Info::new(n_in > 24))
}

fn momentum_near() -> BoxedStrategy<P4> {
    // directions around a few axes, so that recombination happens
    (0usize..5, -0.6..0.6f64, -0.6..0.6f64, prop_oneof![0.5..10.0f64, 10.0..200.0f64], prop_oneof![Just(0.0), 0.0..5.0f64])
        .prop_map(|(axis, dy, dphi, pt, m)| {
            let (y0, phi0) = [(0., 0.), (1.2, 2.), (-2., -3.1), (0.5, 3.0), (3., -1.)][axis];
            let (y, phi): (f64, f64) = (y0 + dy, phi0 + dphi);
            let mt = (pt * pt + m * m).sqrt();
            [mt * y.cosh(), pt * phi.cos(), pt * phi.sin(), mt * y.sinh()]
        })
        .boxed()
}

pub fn jet_def(max_pt: f64) -> BoxedStrategy<JetDef> {
    (0u8..3, prop_oneof![Just(0.4), 0.05..2.0f64], prop_oneof![1 => Just(0.), 4 => 0.0..max_pt])
        .prop_map(|(algo, r, pt)| JetDef { algo, r, pt })
        .boxed()
}

pub fn clus_case(n: std::ops::RangeInclusive<usize>, partons: u32) -> BoxedStrategy<ClusCase> {
    let pid = prop_oneof![
        partons => prop::sample::select(&PARTONS[..]),
        partons => prop::sample::select(&HADRON_IDS[..]),
        4 => prop::sample::select(&LEPTONS[..]),
        4 => Just(22),
        2 => prop::sample::select(&NEUTRINOS[..]),
        2 => prop::sample::select(&OTHERS[..]),
    ];
    (
        vec((pid, momentum_near()), n),
        jet_def(60.),
        prop::option::of(jet_def(40.)),
        prop::option::of((prop_oneof![Just(0.), 0.0..3.0f64], 0.05..1.5f64, 0.0..60.0f64).prop_map(|(efrac, r, pt)| PhotonDef { efrac, r, pt })),
        any::<bool>(),
    )
        .prop_map(|(out, jet, lepton, photon, neutrinos)| ClusCase { out, jet, lepton, photon, neutrinos })
        .boxed()
}

fn check_name(c: &(u8, String)) -> Outcome {
    let (kind, junk) = c;
    let names: [(&str, u8); 9] = [
        ("anti-kt", 0),
        ("antikt", 0),
        ("anti_kt", 0),
        ("kt", 2),
        ("Cambridge-Aachen", 1),
        ("Cambridge/Aachen", 1),
        ("Cambridge_Aachen", 1),
        ("cambridge-aachen", 1),
        ("cambridge/aachen", 1),
    ];
    let (name, algo) = names[*kind as usize % names.len()];
    let parsed: JetAlgorithm = name.parse().map_err(|e| format!("{name}: {e}"))?;
    let exp = JetDef { algo, r: 1., pt: 0. }.to().algorithm;
    ensure!(format!("{parsed:?}") == format!("{exp:?}"), "{name} is parsed as {parsed:?}");
    if !names.iter().any(|n| n.0.eq_ignore_ascii_case(junk)) && !junk.to_ascii_lowercase().starts_with("cambridge") {
        ensure!(junk.parse::<JetAlgorithm>().is_err(), "{junk:?} is accepted as jet algorithm");
    }
    Ok(Info::new(true))
}

pub fn cluster(ctx: &mut Ctx) -> String {
    let n = ctx.n(60_000, 1_000_000);
    ctx.part("objects", n, || clus_case(0..=22, 6), check_cluster);
    let n = ctx.n(20_000, 300_000);
    ctx.part("leptons-photons", n, || clus_case(1..=14, 1), check_cluster);
    let n = ctx.n(2_000, 30_000);
    ctx.part("many", n, || clus_case(25..=120, 20), check_many);
    let n = ctx.n(500, 2_000);
    ctx.part("names", n, || (any::<u8>(), "[a-zA-Z/_-]{0,12}").boxed(), check_name);
    "Random events with up to 22 partons, hadrons, leptons, photons, neutrinos and other particles around a few axes, random jet, lepton \
     and photon definitions; the result is compared to an independent implementation of sequential recombination, photon isolation, dressing and \
     the classification of particles; cases whose decisions are within rounding of a threshold are skipped and counted. Events with up to 120 \
     particles are checked for momentum conservation. Non-trivial: at least two particles go into jets and no decision was ambiguous."
        .into()
}
