//! Model events, generators and reference implementations written
//! independently of the code under test.
#![allow(dead_code)]
use cres::event::{Event, EventBuilder};
use cres::{n64, ParticleID};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub const MULTI: bool = cfg!(feature = "multi");

/// [E, px, py, pz]
pub type P4 = [f64; 4];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Ev {
    pub w: Vec<f64>,
    pub out: Vec<(i32, P4)>,
}

pub fn to_event(ev: &Ev, id: usize) -> Event {
    let mut b = EventBuilder::new();
    for w in &ev.w {
        b.add_weight(n64(*w));
        if !MULTI {
            break;
        }
    }
    for (pid, p) in &ev.out {
        b.add_outgoing(ParticleID::new(*pid), p.map(n64).into());
    }
    let mut e = b.build();
    e.id = id;
    e
}

pub fn weights_of(e: &Event) -> Vec<f64> {
    e.weights.read().iter().map(|w| f64::from(*w)).collect()
}

/// The outgoing particles, as a canonically sorted list
pub fn kin_of(e: &Event) -> Vec<(i32, P4)> {
    let mut res: Vec<(i32, P4)> = e
        .outgoing()
        .iter()
        .flat_map(|(id, ps)| {
            ps.iter().map(|p| (id.id(), [p[0], p[1], p[2], p[3]].map(f64::from)))
        })
        .collect();
    sort_kin(&mut res);
    res
}

pub fn sort_kin(v: &mut [(i32, P4)]) {
    v.sort_by(|a, b| {
        a.0.cmp(&b.0).then_with(|| {
            for i in 0..4 {
                // treat 0 and -0 as the same
                let o = (a.1[i] + 0.).total_cmp(&(b.1[i] + 0.));
                if o != std::cmp::Ordering::Equal {
                    return o;
                }
            }
            std::cmp::Ordering::Equal
        })
    });
}

pub fn same_kin(a: &[(i32, P4)], b: &[(i32, P4)]) -> bool {
    let mut a = a.to_vec();
    let mut b = b.to_vec();
    sort_kin(&mut a);
    sort_kin(&mut b);
    a == b
}

// ---------------------------------------------------------------- generators

/// A finite weight, with special values, ties and a wide range of scales
pub fn weight() -> BoxedStrategy<f64> {
    prop_oneof![
        3 => (-4i32..=4).prop_map(|n| n as f64),
        3 => (-64i32..=64).prop_map(|n| n as f64 / 16.),
        4 => -1.0..1.0f64,
        1 => (-12.0..12.0f64, any::<bool>()).prop_map(|(e, s)| if s { 1. } else { -1. } * 10f64.powf(e)),
        1 => Just(0.0),
    ]
    .boxed()
}

/// A weight of moderate size for which every representation is unambiguous
pub fn simple_weight() -> BoxedStrategy<f64> {
    prop_oneof![
        3 => (-4i32..=8).prop_map(|n| n as f64),
        3 => (-32i32..=64).prop_map(|n| n as f64 / 16.),
        4 => -1.0..2.0f64,
    ]
    .boxed()
}

pub fn momentum() -> BoxedStrategy<P4> {
    prop_oneof![
        // grid: produces duplicates and exact ties
        2 => (-2i32..=2, -2i32..=2, -2i32..=2).prop_map(|(x, y, z)| {
            let p = [10. * x as f64, 10. * y as f64, 10. * z as f64];
            [(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]).sqrt(), p[0], p[1], p[2]]
        }),
        4 => (0.1..200.0f64, -3.2..3.2f64, -4.0..4.0f64).prop_map(|(pt, phi, y)| {
            [pt * y.cosh(), pt * phi.cos(), pt * phi.sin(), pt * y.sinh()]
        }),
        1 => (0.0..100.0f64, -100.0..100.0f64, -100.0..100.0f64, -100.0..100.0f64)
            .prop_map(|(m, x, y, z)| [(m * m + x * x + y * y + z * z).sqrt(), x, y, z]),
    ]
    .boxed()
}

/// ids of objects as they appear after clustering, plus a few others
pub const PIDS: [i32; 9] = [81, 82, 83, 11, -11, 22, 25, 23, 6];

pub fn particles(max: usize) -> BoxedStrategy<Vec<(i32, P4)>> {
    vec((prop::sample::select(&PIDS[..]), momentum()), 0..=max).boxed()
}

pub fn few_type_particles(max: usize) -> BoxedStrategy<Vec<(i32, P4)>> {
    vec((prop::sample::select(&[81, 81, 81, 82][..]), momentum()), 0..=max).boxed()
}

/// The unit in which the weights of a sample are given. Cross sections in
/// picobarn, or in natural units, or multiplied by a large normalisation
pub fn scale() -> BoxedStrategy<f64> {
    prop_oneof![
        6 => Just(1.0),
        1 => (-40i32..=40).prop_map(|n| 10f64.powi(n)),
        1 => (-100i32..=60).prop_map(|n| 2f64.powi(n)),
    ]
    .boxed()
}

/// events with the same number of weights each
pub fn events(n: std::ops::RangeInclusive<usize>, max_part: usize) -> BoxedStrategy<Vec<Ev>> {
    let nw = if MULTI { 1usize..=4 } else { 1usize..=1 };
    (nw, n)
        .prop_flat_map(move |(nw, n)| {
            let parts = prop_oneof![particles(max_part), few_type_particles(max_part)];
            let rec = vec((vec(weight(), nw), parts, any::<prop::sample::Index>(), 0u8..8), n);
            (vec(scale(), nw), rec).prop_map(|(scale, v)| {
                let mut out: Vec<Ev> = Vec::with_capacity(v.len());
                for (mut w, p, idx, copy) in v {
                    w.iter_mut().zip(&scale).for_each(|(w, s)| *w *= s);
                    // now and then exactly the kinematics of an earlier event
                    let p = if copy == 0 && !out.is_empty() {
                        out[idx.index(out.len())].out.clone()
                    } else {
                        p
                    };
                    out.push(Ev { w, out: p });
                }
                out
            })
        })
        .boxed()
}

// ------------------------------------------------------- reference distance

fn pt(p: &P4) -> f64 {
    (p[1] * p[1] + p[2] * p[2]).sqrt()
}

pub fn ref_p_dist(p: &P4, q: &P4, tau: f64) -> f64 {
    let dpt = tau * (pt(p) - pt(q));
    ((p[1] - q[1]).powi(2) + (p[2] - q[2]).powi(2) + (p[3] - q[3]).powi(2) + dpt * dpt).sqrt()
}

/// minimum over all pairings, dynamic programming over subsets
pub fn ref_set_dist(a: &[P4], b: &[P4], tau: f64) -> f64 {
    let n = a.len().max(b.len());
    assert!(n <= 14);
    let mut a = a.to_vec();
    let mut b = b.to_vec();
    a.resize(n, [0.; 4]);
    b.resize(n, [0.; 4]);
    let mut best = vec![f64::INFINITY; 1 << n];
    best[0] = 0.;
    for mask in 0..(1usize << n) {
        let row = mask.count_ones() as usize;
        if row == n || best[mask] == f64::INFINITY {
            continue;
        }
        for col in 0..n {
            if mask & (1 << col) == 0 {
                let d = best[mask] + ref_p_dist(&a[row], &b[col], tau);
                let m = mask | (1 << col);
                if d < best[m] {
                    best[m] = d;
                }
            }
        }
    }
    best[(1 << n) - 1]
}

pub fn by_type(out: &[(i32, P4)]) -> BTreeMap<i32, Vec<P4>> {
    let mut m: BTreeMap<i32, Vec<P4>> = BTreeMap::new();
    for (id, p) in out {
        m.entry(*id).or_default().push(*p);
    }
    m
}

pub fn ref_dist(a: &[(i32, P4)], b: &[(i32, P4)], tau: f64) -> f64 {
    let a = by_type(a);
    let b = by_type(b);
    let mut keys: Vec<i32> = a.keys().chain(b.keys()).copied().collect();
    keys.sort_unstable();
    keys.dedup();
    let empty = vec![];
    keys.into_iter()
        .map(|k| ref_set_dist(a.get(&k).unwrap_or(&empty), b.get(&k).unwrap_or(&empty), tau))
        .sum()
}

/// A serialisable index into a collection of unknown size
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Idx(pub usize);
impl Idx {
    pub fn index(&self, n: usize) -> usize {
        self.0 % n
    }
}
