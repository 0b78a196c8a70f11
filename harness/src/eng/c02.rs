//! C02: variable-length columns.
use crate::col::*;
use crate::core::*;

pub fn one(c: &mut Case, ty: Ty, vals: Vec<Val>) -> Result<(), String> {
    c.state((ty, vals.len(), hash_of(&vals)));
    c.steps(2 * vals.len() as u64 + 3);
    c.outcome((ty, vals.iter().take(40).map(|v| v.len()).collect::<Vec<_>>()));
    let p = c.path("c02.root");
    roundtrip(&p, &[TreeSpec::new("t", vec![Col::new("x", ty, vals)])])
}
fn lens(ty: Ty, l: &[usize]) -> Vec<Val> {
    l.iter().enumerate().map(|(i, l)| ty.val(i as u64, *l)).collect()
}
pub fn seqs<T: Copy>(alpha: &[T], depth: usize) -> Vec<Vec<T>> {
    let mut all: Vec<Vec<T>> = vec![vec![]];
    let mut last: Vec<Vec<T>> = vec![vec![]];
    for _ in 0..depth {
        let mut next = vec![];
        for s in &last {
            for a in alpha {
                let mut t = s.clone();
                t.push(*a);
                next.push(t);
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}

pub fn run(cx: &mut Ctx) {
    let tier = cx.tier;
    let mut types = vec![Ty::Str];
    types.extend(PRIMS.map(Ty::V));
    // every sequence of entry lengths over the encoding thresholds
    for &ty in &types {
        let main = matches!(ty, Ty::Str | Ty::V(Prim::U8) | Ty::V(Prim::I32));
        let alpha: Vec<usize> = match (ty, main) {
            (Ty::Str, _) => vec![0, 1, 2, 253, 254, 255, 256, 257],
            (_, true) => vec![0, 1, 2, 3, 63, 64, 255, 256],
            _ => vec![0, 1, 2, 5],
        };
        let depth = if main { tier.pick(3, 5) } else { tier.pick(3, 6) };
        for s in seqs(&alpha, depth) {
            cx.case(|| format!("{} lengths {s:?}", ty.rust()), |c| one(c, ty, lens(ty, &s)));
        }
    }
    // long entries alone and between short ones
    for &ty in &types {
        let es = match ty {
            Ty::V(p) => p.size(),
            _ => 1,
        };
        let mut ls: Vec<usize> = vec![];
        for b in [1000usize, 4096, 16384, 32768, 65536, 131072] {
            for d in [-14i64, -12, -11, -10, -9, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3] {
                ls.push(((b as i64 + d).max(0) as usize) / es);
            }
        }
        if tier.quick() && !matches!(ty, Ty::Str | Ty::V(Prim::I32) | Ty::V(Prim::F64)) {
            ls = vec![1000 / es, 32768 / es, 65536 / es];
        }
        ls.sort();
        ls.dedup();
        for l in ls {
            for pat in 0..4 {
                let s: Vec<usize> = match pat {
                    0 => vec![l],
                    1 => vec![0, l, 1],
                    2 => vec![l, l, 0, l],
                    _ => vec![1, 0, 2, l, 0, 3, l, l],
                };
                cx.case(|| format!("{} long {l} pattern {pat}", ty.rust()), |c| one(c, ty, lens(ty, &s)));
            }
        }
    }
    // entry counts around the growth steps of the offset table and around storage units
    for &ty in &types {
        for l in [0usize, 1, 3] {
            let es = match ty {
                Ty::V(p) => p.size(),
                _ => 1,
            };
            let st = ty.stored(l * if ty == Ty::Str { 1 } else { es });
            let per = 32768 / st;
            let mut counts = vec![];
            for b in [10usize, 100, 999, 1000, 1001, 1999, 2000, 2001, 3998, 4000, 7999, 8000, 15999, 16000, 31999, 32000, per, 2 * per, 3 * per] {
                for d in -2i64..=2 {
                    let n = b as i64 + d;
                    if n >= 0 && (n as usize) <= 3 * per + 3 {
                        counts.push(n as usize);
                    }
                }
            }
            if !tier.quick() {
                counts.extend(0..=tier.pick(0, 2100));
                for u in [4, 9, 10, 11, 12] {
                    for d in -2i64..=2 {
                        counts.push((per as i64 * u + d) as usize);
                    }
                }
            }
            counts.sort();
            counts.dedup();
            for n in counts {
                if tier.quick() && n > 10000 && !matches!(ty, Ty::Str | Ty::V(Prim::I32)) {
                    continue;
                }
                cx.case(|| format!("{} x {n} entries of length {l}", ty.rust()), |c| one(c, ty, lens(ty, &vec![l; n])));
            }
        }
    }
    // one long entry at position k among many short ones: the offset table and the longest entry interact
    for &ty in &[Ty::Str, Ty::V(Prim::U8), Ty::V(Prim::I16), Ty::V(Prim::F64)] {
        let es = match ty {
            Ty::V(p) => p.size(),
            _ => 1,
        };
        for big in tier.pick(vec![500usize, 998, 1000, 1002, 1500, 2002, 5000, 16000], vec![250, 500, 900, 989, 990, 991, 992, 995, 996, 998, 999, 1000, 1001, 1002, 1003, 1500, 1998, 2000, 2002, 3000, 4002, 5000, 8000, 16000, 30000]) {
            for k in tier.pick(vec![0usize, 1, 500, 997, 998, 999, 1000, 1500], vec![0, 1, 10, 500, 900, 996, 997, 998, 999, 1000, 1001, 1500, 1997, 1998, 1999, 2000]) {
                for n in tier.pick(vec![1200usize, 2600], vec![999, 1000, 1001, 1200, 2001, 2600, 5000, 9000]) {
                    if k >= n {
                        continue;
                    }
                    cx.case(|| format!("{} x {n} short, one of {big} bytes at {k}", ty.rust()), |c| {
                        let mut s = vec![0usize; n];
                        for (i, x) in s.iter_mut().enumerate() {
                            *x = i % 3;
                        }
                        s[k] = big / es;
                        one(c, ty, lens(ty, &s))
                    });
                }
            }
        }
    }
    // text: characters of every encoded length in every position of a short string
    let alpha = ['a', '\0', '\u{7f}', '\u{80}', 'é', '\u{7ff}', '\u{800}', '€', '\u{fffd}', '\u{ffff}', '\u{10000}', '😀', '\u{10ffff}', '\n', '"', '\\'];
    for s in seqs(&alpha, tier.pick(2, 3)) {
        let st: String = s.iter().collect();
        cx.case(|| format!("text {st:?}"), |c| one(c, Ty::Str, vec![st.clone().into_bytes(), vec![], st.clone().into_bytes()]));
    }
    // multi-byte text across the length-encoding threshold
    for ch in ['é', '€', '😀'] {
        for n in [60usize, 63, 64, 84, 85, 86, 126, 127, 128, 129, 255, 256] {
            let st: String = std::iter::repeat(ch).take(n).collect();
            cx.case(|| format!("text {n} x {ch:?}"), |c| one(c, Ty::Str, vec![st.clone().into_bytes(), b"x".to_vec(), st.into_bytes()]));
        }
    }
    // every Unicode scalar value
    let step = 0x2000u32;
    let mut at = 0u32;
    while at < 0x110000 {
        let (a, b) = (at, (at + step).min(0x110000));
        at = b;
        if tier.quick() && a >= 0x4000 && a % 0x10000 != 0 && a != 0xe000 && a != 0xc000 {
            continue;
        }
        cx.case(|| format!("text code points {a:#x}..{b:#x}"), |c| one(c, Ty::Str, (a..b).filter_map(char::from_u32).map(|x| x.to_string().into_bytes()).collect()));
    }
    // very long entries
    let mut huge = vec![1usize << 20, (1 << 24) - 20, (1 << 24) - 6, (1 << 24) - 4, 1 << 24, (1 << 24) + 5];
    if !tier.quick() {
        huge.extend([(1 << 24) - 12, (1 << 24) - 8, (1 << 24) - 7, (1 << 24) - 5, (1 << 24) - 3, (1 << 24) - 2, (1 << 24) - 1, (1 << 25) + 3, 1 << 26]);
    }
    for n in huge {
        for ty in [Ty::Str, Ty::V(Prim::U8), Ty::V(Prim::I64)] {
            let es = if let Ty::V(p) = ty { p.size() } else { 1 };
            cx.case(|| format!("{} one entry of {n} bytes", ty.rust()), |c| one(c, ty, lens(ty, &[2, n / es, 3])));
        }
    }
}
