//! C01: fixed-size columns.
use crate::col::*;
use crate::core::*;
use std::collections::BTreeSet;

const UNIT: usize = 32 * 1024;

/// Entry counts around every multiple of the storage unit, for entries of `s` bytes.
pub fn boundary_counts(s: usize, units: &[usize], spread: i64) -> BTreeSet<usize> {
    let mut v = BTreeSet::new();
    for u in units {
        // a unit may hold k or k-1 entries depending on how fullness is decided
        for per in [UNIT / s, (UNIT / s).saturating_sub(1).max(1)] {
            for d in -spread..=spread {
                let c = (per * u) as i64 + d;
                if c >= 0 {
                    v.insert(c as usize);
                }
            }
        }
    }
    v
}

fn one(c: &mut Case, ty: Ty, vals: Vec<Val>) -> Result<(), String> {
    c.state((ty, vals.len().min(4), vals.len() * ty.fixed().unwrap_or(1) / UNIT, hash_of(&vals)));
    c.steps(2 * vals.len() as u64 + 3);
    c.outcome((ty, vals.len()));
    let p = c.path("c01.root");
    roundtrip(&p, &[TreeSpec::new("t", vec![Col::new("x", ty, vals)])])
}

pub fn run(cx: &mut Ctx) {
    let tier = cx.tier;
    // all short sequences over extreme values: every type, every order
    for p in PRIMS {
        let pats = p.patterns();
        let alpha: Vec<Val> = match p {
            Prim::Bool => pats.clone(),
            _ => vec![pats[0].clone(), pats[1].clone(), pats[3].clone(), p.elem(5)],
        };
        let depth = tier.pick(3, 5);
        for len in 0..=depth {
            let k = alpha.len().pow(len as u32);
            for code in 0..k {
                let mut x = code;
                let vals: Vec<Val> = (0..len)
                    .map(|_| {
                        let v = alpha[x % alpha.len()].clone();
                        x /= alpha.len();
                        v
                    })
                    .collect();
                cx.case(|| format!("{} sequence of length {len} code {code}", p.rust()), |c| one(c, Ty::P(p), vals));
            }
        }
    }
    // every bit pattern (8/16 bit: all values), alone and inside a sequence
    for p in PRIMS {
        cx.case(|| format!("{} all bit patterns", p.rust()), |c| {
            let mut v = p.patterns();
            if p.size() <= 2 && p != Prim::Bool {
                for x in 0..(1u32 << (8 * p.size())) {
                    v.push(x.to_be_bytes()[4 - p.size()..].to_vec());
                }
            }
            one(c, Ty::P(p), v)
        });
    }
    // entry counts: dense small, then around unit boundaries
    let units: &[usize] = tier.pick(&[1, 2, 3, 9, 10, 11, 12], &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 19, 20, 21]);
    for p in PRIMS {
        let ty = Ty::P(p);
        let mut counts: BTreeSet<usize> = (0..=tier.pick(64, 1100)).collect();
        counts.extend(boundary_counts(p.size(), units, 2));
        counts.extend([127, 128, 129, 255, 256, 257, 998, 999, 1000, 1001, 1002, 1023, 1024, 1025]);
        for n in counts {
            cx.case(|| format!("{} x {n} entries", p.rust()), |c| one(c, ty, (0..n as u64).map(|i| ty.val(i, 0)).collect()));
        }
    }
    // arrays
    for p in PRIMS {
        for n in ARR_N {
            let ty = Ty::A(p, n);
            let s = p.size() * n;
            let mut counts: BTreeSet<usize> = [0, 1, 2, 3, 10, 11, 999, 1000, 1001].into_iter().collect();
            let au: &[usize] = if s >= 64 { tier.pick(&[1, 2, 9, 10, 11, 12], units) } else { tier.pick(&[1, 2], &[1, 2, 3, 10, 11]) };
            counts.extend(boundary_counts(s, au, 1));
            for cnt in counts {
                if tier.quick() && cnt > 12000 && p != Prim::I32 && p != Prim::U8 {
                    continue;
                }
                cx.case(|| format!("{} x {cnt} entries", ty.rust()), |c| one(c, ty, (0..cnt as u64).map(|i| ty.val(i, 0)).collect()));
            }
            cx.case(|| format!("{} bit patterns at every position", ty.rust()), |c| {
                let pats = p.patterns();
                let mut v = vec![];
                for k in 0..n {
                    for q in pats.iter().take(20) {
                        let mut e = vec![0u8; s];
                        e[k * p.size()..(k + 1) * p.size()].copy_from_slice(q);
                        v.push(e);
                    }
                }
                one(c, ty, v)
            });
        }
    }
    // many units: entries of 256 bytes make the unit table long with little data
    for u in tier.pick(vec![40usize, 99, 100, 101, 255, 256, 257], (13..=300).chain([999, 1000, 1001, 1002]).collect::<Vec<_>>()) {
        for (p, n) in [(Prim::F64, 32), (Prim::I64, 31)] {
            let ty = Ty::A(p, n);
            let per = UNIT / (8 * n);
            for cnt in [per * u - 1, (per - 1) * u, (per - 1) * u + 1] {
                cx.case(|| format!("{} x {cnt} entries ({u} units)", ty.rust()), |c| one(c, ty, (0..cnt as u64).map(|i| ty.val(i, 0)).collect()));
            }
        }
    }
    if !tier.quick() {
        // every count through two unit boundaries, for the widest scalars
        for p in [Prim::F64, Prim::I64] {
            for n in 1100..8300usize {
                let ty = Ty::P(p);
                cx.case(|| format!("{} x {n} entries", p.rust()), |c| one(c, ty, (0..n as u64).map(|i| ty.val(i, 0)).collect()));
            }
        }
    }
}
