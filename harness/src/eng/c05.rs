//! C05: the written file as seen by an independent decoder.
use super::c03::mk;
use crate::check::{structure, Opts};
use crate::col::*;
use crate::core::*;

fn one(c: &mut Case, file: &str, specs: &[TreeSpec]) -> Result<(), String> {
    c.state(specs.iter().map(|s| (s.name.clone(), s.cols.iter().map(|x| (x.name.clone(), x.ty, x.vals.len())).collect::<Vec<_>>())).collect::<Vec<_>>());
    let p = c.path(file);
    write_file(&p, specs)?;
    let b = std::fs::read(&p).map_err(|e| e.to_string())?;
    let _ = std::fs::remove_file(&p);
    let n = structure(&b, p.to_str().unwrap(), specs, &Opts { orphans: false, light: 0 })?;
    c.steps(n);
    c.outcome((b.len(), specs.len()));
    Ok(())
}
fn t(cols: Vec<Col>) -> Vec<TreeSpec> {
    vec![TreeSpec::new("t", cols)]
}
pub fn run(cx: &mut Ctx) {
    let tier = cx.tier;
    let mut types: Vec<Ty> = PRIMS.map(Ty::P).to_vec();
    types.push(Ty::Str);
    types.extend(PRIMS.map(Ty::V));
    for p in PRIMS {
        for n in ARR_N {
            types.push(Ty::A(p, n));
        }
    }
    // one column: every type, dense counts and unit boundaries
    for &ty in &types {
        let mut counts: Vec<usize> = vec![0, 1, 2, 3, 9, 10, 11, 999, 1000, 1001, 1002, 2003];
        let st = ty.stored(ty.fixed().unwrap_or(3));
        for u in tier.pick(vec![1usize, 2, 9, 10, 11], vec![1, 2, 3, 8, 9, 10, 11, 12, 19, 20, 21]) {
            for d in -1..=1i64 {
                counts.push(((32768 / st * u) as i64 + d) as usize);
            }
        }
        counts.sort();
        counts.dedup();
        for n in counts {
            if n * st > tier.pick(90_000, 1_500_000) && !matches!(ty, Ty::Str | Ty::P(Prim::F64) | Ty::V(Prim::I64)) {
                continue;
            }
            if tier.quick() && matches!(ty, Ty::A(..)) && n > 1002 && !matches!(ty, Ty::A(Prim::I32, _)) {
                continue;
            }
            cx.case(|| format!("{} x {n}", ty.rust()), |c| one(c, "c05.root", &t(vec![mk("x", ty, 9, n)])));
        }
    }
    // pairs and unequal lengths
    let some = [Ty::P(Prim::I32), Ty::P(Prim::Bool), Ty::A(Prim::U16, 3), Ty::Str, Ty::V(Prim::F32), Ty::V(Prim::I32)];
    for a in some {
        for b in some {
            for (na, nb) in [(0usize, 0usize), (0, 3), (3, 0), (2, 5), (5, 5), (1, 4000), (9000, 20)] {
                cx.case(|| format!("pair {}x{na} {}x{nb}", a.rust(), b.rust()), |c| one(c, "c05.root", &t(vec![mk("a", a, 1, na), mk("b", b, 2, nb)])));
            }
        }
    }
    // in the place of an older file of any size: nothing of it is left
    for (i, size) in [1usize, 60, 99, 100, 101, 500, 2000, 20_000, 300_000].into_iter().enumerate() {
        for what in ["zeros", "ones", "a longer file of the same kind"] {
            for (k, spec) in [vec![], t(vec![]), t(vec![mk("x", Ty::P(Prim::I32), 1, 3)]), t(vec![mk("s", Ty::Str, 3, 30 * i), mk("v", Ty::V(Prim::F32), 5, 9)])].into_iter().enumerate() {
                cx.case(|| format!("program {k} in the place of {size} bytes: {what}"), |c| {
                    let p = c.path("c05.root");
                    match what {
                        "zeros" => std::fs::write(&p, vec![0; size]).map_err(|e| e.to_string())?,
                        "ones" => std::fs::write(&p, vec![0xff; size]).map_err(|e| e.to_string())?,
                        _ => write_file(&p, &[TreeSpec::new("old", vec![mk("x", Ty::V(Prim::U8), 1, size / 20)]), TreeSpec::new("t", vec![mk("x", Ty::P(Prim::I32), 1, 5)])])?,
                    }
                    one(c, "c05.root", &spec)
                });
            }
        }
    }
    // several trees, several columns
    for k in 0..tier.pick(6usize, 12) {
        for m in 0..tier.pick(6usize, 12) {
            cx.case(|| format!("{k} trees of {m} columns"), |c| {
                let specs: Vec<TreeSpec> = (0..k).map(|i| TreeSpec::new(&format!("t{}", i % 4), (0..m).map(|j| mk(&format!("c{j}"), types[(i * 13 + j * 5) % types.len()], (i * m + j) as u64, (i * 3 + j * 7) % 17)).collect())).collect();
                one(c, "c05.root", &specs)
            });
        }
    }
    // every set of vector element types: the schema record must name each
    for mask in 0..(1u32 << PRIMS.len()) {
        if tier.quick() && mask.count_ones() > 2 && mask.count_ones() < 10 {
            continue;
        }
        cx.case(|| format!("vector columns {mask:#x}"), |c| {
            let cols = PRIMS.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(i, p)| mk(&format!("v{i}"), Ty::V(*p), i as u64, i % 4)).collect();
            one(c, "c05.root", &t(cols))
        });
    }
    // path lengths: every length of the recorded file name
    let lens: Vec<usize> = tier.pick((1..=120).chain([200, 230, 240, 249, 250]).collect(), (1..=250).collect());
    for n in lens {
        cx.case(|| format!("file name of {n} characters"), |c| one(c, &"f".repeat(n), &t(vec![mk("x", Ty::P(Prim::I32), 1, 3), mk("s", Ty::Str, 2, 2)])));
    }
    // lengths of tree and column names through the length-encoding threshold
    for n in tier.pick(vec![0usize, 1, 2, 100, 253, 254, 255, 256, 257, 300, 1000], (0..=600).chain([1000, 5000, 16000]).collect::<Vec<_>>()) {
        for ty in some {
            cx.case(|| format!("names of {n} characters, {}", ty.rust()), |c| one(c, "c05.root", &[TreeSpec::new(&"T".repeat(n), vec![mk(&"n".repeat(n), ty, 1, 3)]), TreeSpec::new("u", vec![mk(&"m".repeat(n), ty, 1, 3)])]));
        }
    }
}
