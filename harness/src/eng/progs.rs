//! Writer programs and a tolerant reader, shared by the fault and crash engines.
use super::c03::mk;
use crate::col::*;
use crate::core::*;
use oxyroot::{Branch, RootFile};
use std::path::Path;

pub struct Prog {
    pub name: String,
    pub specs: Vec<TreeSpec>,
}
fn p(name: impl Into<String>, specs: Vec<TreeSpec>) -> Prog {
    Prog { name: name.into(), specs }
}
/// Programs chosen so that every record kind, record order and unit count occurs.
pub fn progs(tier: Tier) -> Vec<Prog> {
    let one = |c: Vec<Col>| vec![TreeSpec::new("t", c)];
    let i = Ty::P(Prim::I32);
    let mut v = vec![
        p("no tree", vec![]),
        p("tree without columns", one(vec![])),
        p("empty column", one(vec![mk("x", i, 1, 0)])),
        p("i32 x3", one(vec![mk("x", i, 1, 3)])),
        p("strings x3", one(vec![mk("s", Ty::Str, 2, 3)])),
        p("vectors x3", one(vec![mk("v", Ty::V(Prim::I32), 3, 3)])),
        p("arrays x3", one(vec![mk("a", Ty::A(Prim::F64, 3), 4, 3)])),
        p("mixed", one(vec![mk("x", Ty::P(Prim::U8), 1, 7), mk("s", Ty::Str, 2, 5), mk("v", Ty::V(Prim::F32), 3, 6), mk("a", Ty::A(Prim::I16, 2), 4, 1)])),
        p("two vectors", one(vec![mk("v", Ty::V(Prim::I8), 3, 4), mk("w", Ty::V(Prim::F64), 5, 4)])),
        p("two trees", vec![TreeSpec::new("a", vec![mk("x", i, 1, 3)]), TreeSpec::new("b", vec![mk("v", Ty::V(Prim::I64), 2, 3)])]),
        p("two versions", vec![TreeSpec::new("a", vec![mk("x", i, 1, 3)]), TreeSpec::new("a", vec![mk("x", i, 2, 4)])]),
        p("three trees", vec![TreeSpec::new("a", vec![mk("s", Ty::Str, 1, 3)]), TreeSpec::new("b", vec![mk("x", i, 2, 3), mk("v", Ty::V(Prim::U16), 9, 2)]), TreeSpec::new("a", vec![mk("y", Ty::P(Prim::Bool), 3, 9)])]),
    ];
    let n = tier.pick(8200usize, 20000);
    v.push(p("i32, several units", one(vec![mk("x", i, 1, n)])));
    v.push(p("i32 + strings, several units", one(vec![mk("x", i, 1, 8200), mk("s", Ty::Str, 3, 3000)])));
    v.push(p("vectors, several units", one(vec![mk("v", Ty::V(Prim::F64), 1, tier.pick(1500, 4000))])));
    v.push(p("long entries", one(vec![Col::new("s", Ty::Str, (0..5).map(|k| text(k, 20000 + 3000 * k as usize)).collect())])));
    if !tier.quick() {
        for (k, ty) in PRIMS.iter().flat_map(|p| [Ty::P(*p), Ty::V(*p), Ty::A(*p, 4)]).enumerate() {
            v.push(p(format!("{} x5", ty.rust()), one(vec![mk("c", ty, k as u64, 5)])));
        }
        v.push(p("five trees", (0..5).map(|k| TreeSpec::new(["a", "b", "a", "c", "b"][k], vec![mk("x", i, k as u64, 3 + k), mk("s", Ty::Str, 7, 2 * k)])).collect()));
    }
    v
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Seen {
    Exact,
    Fails,
}

fn probe_col(b: &Branch, c: &Col) -> Result<Seen, String> {
    if b.entries() != c.vals.len() as i64 {
        return Err(format!("column {:?} reports {} entries instead of {}", c.name, b.entries(), c.vals.len()));
    }
    let mut wrong: Option<String> = None;
    let w = &mut wrong;
    let r = guard(move || {
        let it = match iter_of(b, c.ty, true) {
            Ok(it) => it,
            Err(_) => return Seen::Fails,
        };
        let mut n = 0;
        for g in it {
            if c.vals.get(n) != Some(&g) {
                *w = Some(format!("column {:?}: value {n} of {} is {}", c.name, c.vals.len(), show(&g)));
                return Seen::Exact;
            }
            n += 1;
        }
        if n != c.vals.len() {
            *w = Some(format!("column {:?} ends after {n} values of {}", c.name, c.vals.len()));
        }
        Seen::Exact
    });
    match (r, wrong) {
        (_, Some(m)) => Err(m),
        (Ok(s), _) => Ok(s),
        (Err(_), _) => Ok(Seen::Fails),
    }
}

/// Reads whatever `path` now holds. Failing (error or panic) is fine anywhere; every value that
/// does come out must belong to one of `specs`, completely. Returns what was seen.
pub fn probe(path: &Path, specs: &[TreeSpec]) -> Result<Vec<Seen>, String> {
    probe_names(path, specs, true)
}
pub fn probe_names(path: &Path, specs: &[TreeSpec], keys: bool) -> Result<Vec<Seen>, String> {
    let mut f = match guard(|| RootFile::open(path)) {
        Ok(Ok(f)) => f,
        _ => return Ok(vec![Seen::Fails]),
    };
    let mut seen = vec![Seen::Exact];
    if keys {
        for k in f.keys_name() {
            if !specs.iter().any(|s| s.name == k) {
                return Err(format!("the file lists a tree {k:?} that was never written"));
            }
        }
    }
    let mut done: Vec<&str> = vec![];
    for s in specs {
        if done.contains(&s.name.as_str()) {
            continue;
        }
        done.push(&s.name);
        let t = match guard(|| f.get_tree(&s.name)) {
            Ok(Ok(t)) => t,
            _ => {
                seen.push(Seen::Fails);
                continue;
            }
        };
        let names: Vec<String> = t.branches().map(|b| b.name().to_string()).collect();
        let mut best: Option<Vec<Seen>> = None;
        let mut why = String::new();
        for cand in specs.iter().filter(|x| x.name == s.name) {
            let want: Vec<String> = cand.cols.iter().map(|c| c.name.clone()).collect();
            let r: Result<Vec<Seen>, String> = (|| {
                if names != want {
                    return Err(format!("columns {names:?} instead of {want:?}"));
                }
                if t.entries() != cand.entries() as i64 {
                    return Err(format!("{} entries instead of {}", t.entries(), cand.entries()));
                }
                t.branches().zip(&cand.cols).map(|(b, c)| probe_col(b, c)).collect()
            })();
            match r {
                Ok(v) => best = Some(v),
                Err(m) => why = m,
            }
        }
        match best {
            Some(v) => seen.extend(v),
            None => return Err(format!("tree {:?}: {why}", s.name)),
        }
    }
    Ok(seen)
}
