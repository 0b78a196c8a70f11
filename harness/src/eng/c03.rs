//! C03: several columns in one tree.
use crate::col::*;
use crate::core::*;

pub fn mk(name: &str, ty: Ty, seed: u64, n: usize) -> Col {
    Col::new(name, ty, (0..n as u64).map(|i| ty.val(seed * 100_003 + i, ((i * 7 + seed) % 5) as usize)).collect())
}
fn one(c: &mut Case, cols: Vec<Col>) -> Result<(), String> {
    c.state(cols.iter().map(|x| (x.ty, x.vals.len())).collect::<Vec<_>>());
    c.steps(cols.iter().map(|x| 2 * x.vals.len() as u64 + 1).sum());
    c.outcome(cols.iter().map(|x| x.vals.len()).collect::<Vec<_>>());
    let p = c.path("c03.root");
    roundtrip(&p, &[TreeSpec::new("t", cols)])
}
pub fn run(cx: &mut Ctx) {
    let tier = cx.tier;
    let types = [Ty::P(Prim::I32), Ty::P(Prim::F64), Ty::P(Prim::Bool), Ty::A(Prim::I16, 3), Ty::Str, Ty::V(Prim::I32), Ty::V(Prim::F64), Ty::P(Prim::U8)];
    let lens: Vec<usize> = tier.pick(vec![0, 1, 3], vec![0, 1, 2, 5, 1001]);
    // ordered pairs of all types, all length combinations
    for a in types {
        for b in types {
            for &la in &tier.pick(vec![0usize, 1, 2, 3, 7], vec![0, 1, 2, 3, 7, 999, 1002]) {
                for &lb in &tier.pick(vec![0usize, 1, 2, 3, 7], vec![0, 1, 2, 3, 7, 999, 1002]) {
                    cx.case(|| format!("pair {}x{la} {}x{lb}", a.rust(), b.rust()), |c| one(c, vec![mk("a", a, 1, la), mk("b", b, 2, lb)]));
                }
            }
        }
    }
    let t3: &[Ty] = tier.pick(&types[..6], &types[..6]);
    for &a in t3 {
        for &b in t3 {
            for &d in t3 {
                for &la in &lens {
                    for &lb in &lens {
                        for &ld in &lens {
                            cx.case(|| format!("triple {}x{la} {}x{lb} {}x{ld}", a.rust(), b.rust(), d.rust()), |c| one(c, vec![mk("a", a, 1, la), mk("b", b, 2, lb), mk("c", d, 3, ld)]));
                        }
                    }
                }
            }
        }
    }
    // columns that fill their units at different rates
    for a in types {
        for b in types {
            for (na, nb) in tier.pick(vec![(4097usize, 4097usize), (9000, 2), (3, 9000)], vec![(4095, 4096), (4096, 4097), (4097, 4097), (9000, 2), (3, 9000), (33000, 33000), (0, 12000), (12000, 0), (50000, 40000)]) {
                cx.case(|| format!("units {}x{na} {}x{nb}", a.rust(), b.rust()), |c| one(c, vec![mk("a", a, 1, na), mk("b", b, 2, nb)]));
            }
        }
    }
    // every permutation of one column of each type
    let base: Vec<Ty> = types[..tier.pick(5, 7)].to_vec();
    let n = base.len();
    let total: usize = (1..=n).product();
    for code in 0..total {
        let mut left: Vec<usize> = (0..n).collect();
        let mut x = code;
        let mut order = vec![];
        for k in (1..=n).rev() {
            order.push(left.remove(x % k));
            x /= k;
        }
        cx.case(|| format!("order {order:?}"), |c| one(c, order.iter().map(|&i| mk(&format!("c{i}"), base[i], i as u64, 3 + i)).collect()));
    }
    // many columns
    for n in tier.pick(vec![0usize, 1, 4, 10, 16, 40, 130, 300], (0..=130).chain([200, 255, 256, 257, 300, 1000, 2000]).collect::<Vec<_>>()) {
        for k in 0..4usize {
            cx.case(|| format!("{n} columns, kind {k}"), |c| {
                one(c, (0..n).map(|i| mk(&format!("col{i}"), if k < 3 { types[(i + 2 * k) % types.len()] } else { Ty::V(PRIMS[[0, 3, 5, 9][i % 4]]) }, i as u64, [2, 12, 2 + i % 4, 3][k])).collect())
            });
        }
    }
    // names that are prefixes, suffixes or equal up to case
    for names in [["x", "xx", "xxx"], ["a.b", "a", "b"], ["x", "X", "x_"], ["t", "t1", "1t"], ["_", "__", "-"]] {
        for a in types {
            for b in types {
                cx.case(|| format!("names {names:?} {} {}", a.rust(), b.rust()), |c| one(c, vec![mk(names[0], a, 1, 4), mk(names[1], b, 2, 2), mk(names[2], a, 3, 5)]));
            }
        }
    }
}
