//! C25: a column that is split into parts, read as a whole, in every layout of the parts.
use super::c09::{compositions, kinds, Kd, WKind};
use crate::core::*;
use crate::rootr::File;
use crate::rootw::*;
use oxyroot::{Branch, RBuffer, RootFile};

/// Shape of a split column: parts in order, a part being a plain one (by number) or split itself.
#[derive(Clone, Debug)]
enum S {
    P(usize),
    In(Vec<S>),
}
use S::*;
/// A plain part: its kind, its units, last unit embedded.
#[derive(Clone)]
struct Part<'k> {
    kind: &'k Kd,
    units: Vec<usize>,
    emb: bool,
}
fn class(name: &str) -> WKind {
    WKind::Element { class_name: name.into(), id: -2, stype: -1, title: name.to_lowercase(), len: 1, count: None, clsver: 1 }
}
/// branches of the parts and the class that holds them
fn parts_of(shape: &[S], ps: &[Part], vals: &[Vec<Vec<u8>>], cls: &mut Vec<WClass>, me: &str) -> Vec<WBranch> {
    let mut elems = vec![];
    let mut out = vec![];
    for (si, s) in shape.iter().enumerate() {
        match s {
            P(i) => {
                let p = &ps[*i];
                let name = format!("p{i}");
                let mut kind = p.kind.kind.clone();
                let mut bname = name.clone();
                match &mut kind {
                    WKind::Element { title, stype, id, class_name, .. } => {
                        if p.kind.elem.is_some() {
                            *title = title.replacen('x', &name, 1);
                            *id = si as i32;
                            *class_name = me.into();
                            if (21..40).contains(stype) {
                                bname = title.clone();
                            }
                        } else {
                            *title = name.clone();
                        }
                    }
                    WKind::Base { title, .. } => *title = title.replacen('x', &name, 1),
                }
                if let Some(e) = &p.kind.elem {
                    elems.push(WElem { name: name.clone(), ..e.clone() });
                }
                let mut b = WBranch::new(&bname, kind, vals[*i].clone(), p.kind.offsets);
                b.parts = p.units.clone();
                b.embedded = p.emb;
                out.push(b);
            }
            In(v) => {
                let sub = format!("{me}{si}");
                let mut b = WBranch::new(&sub.to_lowercase(), class(&sub), vec![], false);
                b.children = parts_of(v, ps, vals, cls, &sub);
                elems.push(WElem { class: "TStreamerObjectAny", name: sub.to_lowercase(), etype: 62, size: 8, tname: sub.clone(), ..Default::default() });
                out.push(b);
            }
        }
    }
    cls.push(WClass { name: me.into(), vers: 1, elems });
    out
}
fn order(shape: &[S], out: &mut Vec<usize>) {
    for s in shape {
        match s {
            P(i) => out.push(*i),
            In(v) => order(v, out),
        }
    }
}
struct Tried {
    file: Vec<u8>,
    rows: Vec<Vec<u8>>,
}
fn make(shape: &[S], ps: &[Part], lay: &Layout) -> Tried {
    let n: usize = ps[0].units.iter().sum();
    let lens: Vec<usize> = (0..n).map(|i| [1, 0, 3, 2, 1, 5][i % 6]).collect();
    let vals: Vec<Vec<Vec<u8>>> = ps.iter().enumerate().map(|(ci, p)| lens.iter().enumerate().map(|(i, l)| (p.kind.gen)((i + 100 * ci) as u64, *l).0).collect()).collect();
    let mut cls = vec![];
    let mut f = WFile::new("f.root", lay.clone());
    let mut ev = WBranch::new("ev", class("Ev"), vec![], false);
    ev.children = parts_of(shape, ps, &vals, &mut cls, "Ev");
    let i32k = WKind::Base { leaf: "TLeafI", unsigned: false, esize: 4, len: 1, title: "n".into(), count: None };
    let nb = WBranch::new("n", i32k, lens.iter().map(|l| (*l as i32).to_be_bytes().to_vec()).collect(), false);
    f.streamers(&cls);
    f.tree(&WTree { name: "tree".into(), title: "".into(), entries: n as i64, branches: vec![nb, ev] }, 1, None);
    let mut ord = vec![];
    order(shape, &mut ord);
    let rows = (0..n).map(|i| ord.iter().flat_map(|p| vals[*p][i].clone()).collect()).collect();
    Tried { file: f.finish(), rows }
}
/// A column `ev` of four parts (one split itself) with units of 1000, 1500, 600 and 3000 entries.
pub fn long(n: usize, codec: Codec, emb: bool) -> Vec<u8> {
    let all = kinds();
    let get = |l: &str| all.iter().find(|k| k.label == l).unwrap();
    let ps: Vec<Part> = [("member i32", 1000), ("leaf i32[3]", 1500), ("member f64", 600), ("leaf u16", 3000)]
        .iter()
        .map(|(l, u)| Part { kind: get(l), units: (0..n / u).map(|_| *u).collect(), emb })
        .collect();
    make(&[P(0), In(vec![P(1), P(2)]), P(3)], &ps, &Layout { codec, ..Default::default() }).file
}
/// All bytes of each entry.
fn whole(b: &Branch, most: usize) -> Vec<Vec<u8>> {
    b.get_basket(|r: &mut RBuffer| {
        let n = r.len() as usize;
        r.read_array_u8(n).unwrap().to_vec()
    })
    .take(most)
    .collect()
}
/// `fixed`: every part has entries of one size, so that reading has to succeed.
fn judge(c: &mut Case, t: &Tried, fixed: bool) -> Result<(), String> {
    let p = c.path("f.root");
    std::fs::write(&p, &t.file).map_err(|e| e.to_string())?;
    let r = guard(|| -> Result<Vec<Vec<u8>>, String> {
        let tree = RootFile::open(&p).map_err(|e| format!("open: {e:?}"))?.get_tree("tree").map_err(|e| format!("get_tree: {e:?}"))?;
        let b = tree.branch("ev").ok_or("column ev not found")?;
        Ok(whole(b, t.rows.len() + 5))
    });
    c.steps(t.rows.len() as u64);
    match r {
        Ok(Ok(v)) if v == t.rows => {
            c.outcome((fixed, v.len(), v.first().map(|r| r.len())));
            Ok(())
        }
        Ok(Ok(v)) => {
            let k = v.iter().zip(&t.rows).position(|(a, b)| a != b).unwrap_or(v.len().min(t.rows.len()));
            Err(format!("{} entries instead of {}, first difference at {k}: {:?} instead of {:?}", v.len(), t.rows.len(), v.get(k), t.rows.get(k)))
        }
        Ok(Err(e)) => Err(e),
        Err(_) if !fixed => {
            c.outcome("refused");
            Ok(())
        }
        Err(e) => Err(format!("panic: {e}")),
    }
}
fn is_fixed(k: &Kd) -> bool {
    !k.offsets
}
/// The generated file is what it is meant to be, as the strict decoder sees it.
fn cross(t: &Tried, shape: &[S], ps: &[Part]) -> Result<(), String> {
    let f = File::parse(&t.file)?;
    f.records()?;
    let tr = f.tree(&f.keys[0])?;
    let mut rows: Vec<Vec<u8>> = vec![vec![]; t.rows.len()];
    let mut ord = vec![];
    order(shape, &mut ord);
    for i in ord {
        let name = match &ps[i].kind.kind {
            WKind::Element { title, stype, .. } if (21..40).contains(stype) => title.replacen('x', &format!("p{i}"), 1),
            _ => format!("p{i}"),
        };
        let br = File::find(&tr.branches, &name).ok_or("part missing")?;
        for (r, e) in rows.iter_mut().zip(f.raw_entries(br)?) {
            r.extend(e);
        }
    }
    if rows != t.rows {
        return Err("entries differ".into());
    }
    Ok(())
}
fn run_shape(c: &mut Case, shape: &[S], ks: &[&Kd], n: usize, codec: Codec, all: bool) -> Result<(), String> {
    let fixed = ks.iter().all(|k| is_fixed(k));
    let comps: Vec<(Vec<usize>, bool)> = compositions(n).into_iter().flat_map(|p| if p.is_empty() { vec![(p, false)] } else { vec![(p.clone(), false), (p, true)] }).collect();
    // every way to lay the parts out, or (for many parts) every way for each of two parts while the others alternate
    let m = comps.len();
    let mut plans: Vec<Vec<usize>> = vec![];
    if all || ks.len() <= 2 {
        let total = m.pow(ks.len() as u32);
        for x in 0..total {
            plans.push((0..ks.len()).map(|i| x / m.pow(i as u32) % m).collect());
        }
    } else {
        for a in 0..ks.len() {
            for b in 0..a {
                for x in 0..m * m {
                    plans.push((0..ks.len()).map(|i| if i == a { x % m } else if i == b { x / m } else { (i * 3 + x) % m }).collect());
                }
            }
        }
    }
    let mut first = true;
    for pl in plans {
        let ps: Vec<Part> = ks.iter().zip(&pl).map(|(k, x)| Part { kind: k, units: comps[*x].0.clone(), emb: comps[*x].1 }).collect();
        let t = make(shape, &ps, &Layout { codec, ..Default::default() });
        if first {
            cross(&t, shape, &ps).map_err(|e| format!("MACHINERY: generated file is not well-formed: {e}"))?;
            first = false;
        }
        c.state((format!("{shape:?}"), ks.iter().map(|k| &k.label).collect::<Vec<_>>(), n, &pl, format!("{codec:?}")));
        judge(c, &t, fixed).map_err(|e| {
            let l: Vec<String> = ps.iter().map(|p| format!("{} in units {:?}{}", p.kind.label, p.units, if p.emb { ", the last in the tree record" } else { "" })).collect();
            format!("{n} entries, parts {}: {e}", l.join("; "))
        })?;
    }
    Ok(())
}
pub fn run(cx: &mut Ctx) {
    let tier = cx.tier;
    let all = kinds();
    let get = |l: &str| all.iter().find(|k| k.label == l).unwrap_or_else(|| panic!("no kind {l}"));
    let fixed: Vec<&Kd> = all.iter().filter(|k| is_fixed(k) && (k.elem.is_some() || k.label.starts_with("leaf"))).collect();
    let some: Vec<&Kd> = ["member i32", "member i8", "member f64", "member i16[3]", "leaf u16", "leaf bool", "leaf i32[3]", "leaf i64[2][3]"].iter().map(|l| get(l)).collect();
    let var: Vec<&Kd> = ["member i32[3] with offsets", "member i16*", "member TString", "member string", "member vector<int>", "leaf string", "leaf i32[n]", "leaf u8[n][2]", "object vector<int>", "object map<int,short>"].iter().map(|l| get(l)).collect();
    // one part, of every kind
    for k in &all {
        for codec in [Codec::None, Codec::Zlib] {
            cx.case(|| format!("one part: {} {codec:?}", k.label), |c| {
                for n in 0..=tier.pick(3, 5) {
                    run_shape(c, &[P(0)], &[k], n, codec, true)?;
                    run_shape(c, &[In(vec![P(0)])], &[k], n, codec, true)?;
                }
                Ok(())
            });
        }
    }
    // two parts
    for a in &fixed {
        for b in &some {
            cx.case(|| format!("two parts: {} and {}", a.label, b.label), |c| {
                for n in 1..=tier.pick(3, 4) {
                    run_shape(c, &[P(0), P(1)], &[a, b], n, Codec::None, true)?;
                }
                Ok(())
            });
        }
    }
    for a in var.iter().chain(&some) {
        for b in var.iter().chain(&some) {
            if is_fixed(a) && is_fixed(b) {
                continue;
            }
            cx.case(|| format!("two parts: {} and {}", a.label, b.label), |c| {
                for n in 1..=tier.pick(2, 3) {
                    run_shape(c, &[P(0), P(1)], &[a, b], n, Codec::None, true)?;
                }
                Ok(())
            });
        }
    }
    // more parts, and parts that are split themselves
    let shapes: Vec<(Vec<S>, usize)> = vec![
        (vec![P(0), P(1), P(2)], 3),
        (vec![P(0), In(vec![P(1), P(2)])], 3),
        (vec![In(vec![P(0), P(1)]), P(2)], 3),
        (vec![P(0), In(vec![P(1)]), P(2)], 3),
        (vec![In(vec![P(0)]), In(vec![P(1)]), In(vec![P(2)])], 3),
        (vec![In(vec![In(vec![P(0)]), P(1)]), P(2)], 3),
        (vec![P(0), In(vec![P(1), In(vec![P(2), P(3)])]), P(4)], 5),
        (vec![P(0), P(1), P(2), P(3), P(4), P(5)], 6),
    ];
    for (shape, np) in &shapes {
        for rot in 0..some.len() {
            for step in tier.pick(vec![1, 3], vec![0, 1, 2, 3, 5]) {
                for codec in tier.pick(vec![Codec::None], vec![Codec::None, Codec::Lz4]) {
                    cx.case(|| format!("{shape:?} of kinds {rot} by {step} {codec:?}"), |c| {
                        let ks: Vec<&Kd> = (0..*np).map(|i| some[(rot + i * step) % some.len()]).collect();
                        for n in 0..=tier.pick(3, 4) {
                            run_shape(c, shape, &ks, n, codec, *np <= 3 && n <= 3)?;
                        }
                        // one part of variable length somewhere
                        for (vi, v) in var.iter().enumerate() {
                            let mut ks = ks.clone();
                            ks[vi % np] = v;
                            run_shape(c, shape, &ks, 2, codec, false)?;
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    // many units
    for a in &some {
        for b in &some {
            cx.case(|| format!("many units: {} and {}", a.label, b.label), |c| {
                for n in [9usize, 10, 11, 12, 25, tier.pick(40, 200)] {
                    for (i, j) in [(1, 1), (1, 2), (3, 1), (2, 5), (n, 1), (1, n)] {
                        for emb in 0..4 {
                            let cut = |s: usize| (0..n.div_ceil(s)).map(|k| s.min(n - k * s)).collect::<Vec<_>>();
                            let ps = [Part { kind: a, units: cut(i), emb: emb & 1 > 0 }, Part { kind: b, units: cut(j), emb: emb & 2 > 0 }];
                            let t = make(&[P(0), In(vec![P(1)])], &ps, &Layout::default());
                            c.state((&a.label, &b.label, n, i, j, emb));
                            c.outcome((i, j, emb));
                            judge(c, &t, true).map_err(|e| format!("{n} entries in units of {i} and {j}, embedded {emb:b}: {e}"))?;
                        }
                    }
                }
                Ok(())
            });
        }
    }
}
