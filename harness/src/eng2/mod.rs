//! C12, C13: programs of the derive grammars.
mod gen_progs;
use crate::col::{Elem, Prim};
use crate::core::*;
use crate::dynread::{find, ToV, V};
use crate::rootw::*;
use gen_progs::{READ, ROWS, SHAPES};
use oxyroot::{ReadFromTree, ReaderTree, RootFile, WriteToTree, WriterTree};
use std::collections::BTreeMap;
use std::path::Path;

pub trait Row {
    fn row(self, o: &mut Vec<V>);
}
impl<T: ToV> Row for T {
    fn row(self, o: &mut Vec<V>) {
        o.push(self.v())
    }
}
pub fn slice_row<T: Row>(v: Vec<T>, o: &mut Vec<V>) {
    o.push(V::L(
        v.into_iter()
            .map(|x| {
                let mut r = vec![];
                x.row(&mut r);
                V::L(r)
            })
            .collect(),
    ))
}
pub type Rows<'a> = Box<dyn Iterator<Item = Vec<V>> + 'a>;
pub type ReadFn = for<'a> fn(&'a ReaderTree) -> Result<Rows<'a>, String>;
pub type AddFn = fn(&mut WriterTree, u64, usize) -> Result<(), String>;
pub type RowFn = fn(u64) -> Vec<V>;
pub fn read<S: Row + for<'x> ReadFromTree<'x> + 'static>(t: &ReaderTree) -> Result<Rows<'_>, String> {
    let it = S::from_tree(t).map_err(|e| format!("{e:?}"))?;
    Ok(Box::new(it.map(|s| {
        let mut o = vec![];
        s.row(&mut o);
        o
    })))
}
pub fn mkrow<S: Row + Mk>(i: u64) -> Vec<V> {
    let mut o = vec![];
    S::mk(i).row(&mut o);
    o
}
pub fn add<S: Mk + WriteToTree + 'static>(t: &mut WriterTree, seed: u64, n: usize) -> Result<(), String> {
    S::to_tree((0..n as u64).map(move |i| S::mk(seed + i)), t).map_err(|e| format!("{e:?}"))
}
/// Values from an index.
pub trait Mk {
    fn mk(i: u64) -> Self;
}
macro_rules! mk {
    ($($t:ident $p:ident),*) => {$(impl Mk for $t { fn mk(i: u64) -> Self { <$t as Elem>::from_be(&Prim::$p.elem(i)) } })*};
}
mk!(i8 I8, u8 U8, i16 I16, u16 U16, i32 I32, u32 U32, i64 I64, u64 U64, f32 F32, f64 F64, bool Bool);
impl Mk for String {
    fn mk(i: u64) -> Self {
        (0..i % 6).map(|k| ['a', 'é', 'z', '0'][((i + k * 5) % 4) as usize]).collect()
    }
}
impl<T: Mk> Mk for Vec<T> {
    fn mk(i: u64) -> Self {
        (0..i % 5).map(|k| T::mk(i * 7 + k)).collect()
    }
}
impl<T: Mk, const N: usize> Mk for [T; N] {
    fn mk(i: u64) -> Self {
        std::array::from_fn(|k| T::mk(i * 11 + k as u64))
    }
}
fn base(leaf: &'static str, esize: i32, len: i32, title: String, count: bool) -> Kind {
    Kind::Base { leaf, unsigned: false, esize, len, title, count: count.then(|| "n".into()) }
}
fn sb(s: &str) -> Vec<u8> {
    let mut w = W::new(0);
    w.str(s.as_bytes());
    w.v
}
/// One column of a crafted tree: stored form and the values a reader sees.
struct Column {
    br: WBranch,
    vals: Vec<V>,
}
fn column(name: &str, ty: &str, seed: u64, n: usize) -> Column {
    fn mkv<T: Mk + ToV>(i: u64) -> V {
        T::mk(i).v()
    }
    let f = |x: &V| match x {
        V::P(b) => b.clone(),
        V::S(s) => sb(std::str::from_utf8(s).unwrap()),
        V::L(v) => v.iter().flat_map(|x| if let V::P(b) = x { b.clone() } else { vec![] }).collect(),
        _ => vec![],
    };
    let ix = |i: usize| seed * 1000 + i as u64;
    let vals: Vec<V> = (0..n)
        .map(|i| match ty {
            "i32" => mkv::<i32>(ix(i)),
            "f64" => mkv::<f64>(ix(i)),
            "i32[n]" => V::L((0..slen(i)).map(|k| mkv::<i32>(ix(i) * 10 + k)).collect()),
            "f64[n]" => V::L((0..slen(i)).map(|k| mkv::<f64>(ix(i) * 10 + k)).collect()),
            "i16[n]" => V::L((0..slen(i)).map(|k| mkv::<i16>(ix(i) * 10 + k)).collect()),
            "String" => mkv::<String>(ix(i)),
            "Vec<f64>" => mkv::<Vec<f64>>(ix(i)),
            "[i16; 3]" => mkv::<[i16; 3]>(ix(i)),
            _ => panic!("{ty}"),
        })
        .collect();
    let t = |d: &str| format!("{name}{d}");
    let (kind, offs) = match ty {
        "i32" => (base("TLeafI", 4, 1, t(""), false), false),
        "f64" => (base("TLeafD", 8, 1, t(""), false), false),
        "i32[n]" => (base("TLeafI", 4, 1, t("[n]"), true), true),
        "f64[n]" => (base("TLeafD", 8, 1, t("[n]"), true), true),
        "i16[n]" => (base("TLeafS", 2, 1, t("[n]"), true), true),
        "String" => (base("TLeafC", 1, 9, t(""), false), true),
        "[i16; 3]" => (base("TLeafS", 2, 3, t("[3]"), false), false),
        "Vec<f64>" => (Kind::Element { class_name: "vector<double>".into(), id: -1, stype: -1, title: t(""), len: 1, count: None, clsver: 6 }, true),
        _ => panic!(),
    };
    let mut raw: Vec<Vec<u8>> = vals.iter().map(f).collect();
    if ty == "Vec<f64>" {
        for (r, v) in raw.iter_mut().zip(&vals) {
            let V::L(l) = v else { unreachable!() };
            let mut w = W::new(0);
            w.u32((r.len() as u32 + 6) | 0x4000_0000);
            w.u16(9);
            w.i32(l.len() as i32);
            w.v.extend_from_slice(r);
            *r = w.v;
        }
    }
    let mut br = WBranch::new(name, kind, raw, offs);
    if n > 1 {
        br.parts = vec![1, n - 1];
    }
    Column { br, vals }
}
/// Elements of slice row i.
fn slen(i: usize) -> u64 {
    [2, 0, 1, 3][i % 4]
}
fn count_col(n: usize) -> WBranch {
    WBranch::new("n", base("TLeafI", 4, 1, "n".into(), false), (0..n).map(|i| (slen(i) as i32).to_be_bytes().to_vec()).collect(), false)
}
/// Writes a tree of the given columns; n is the tree's entry count.
fn put(p: &Path, cols: &[&Column], n: usize, count: bool) -> Result<(), String> {
    let mut f = WFile::new("f.root", Layout::default());
    f.streamers(&[]);
    let mut branches: Vec<WBranch> = if count { vec![count_col(n)] } else { vec![] };
    branches.extend(cols.iter().map(|c| c.br.clone()));
    f.tree(&WTree { name: "tree".into(), title: "".into(), entries: n as i64, branches }, 1, None);
    let b = f.finish();
    let r = crate::rootr::File::parse(&b).and_then(|f| f.tree(&f.keys[0]).map(|_| ()));
    r.map_err(|e| format!("MACHINERY: crafted tree is not well-formed: {e}"))?;
    std::fs::write(p, b).map_err(|e| e.to_string())
}
fn open(p: &Path) -> Result<ReaderTree, String> {
    RootFile::open(p).map_err(|e| format!("open: {e:?}"))?.get_tree("tree").map_err(|e| format!("get_tree: {e:?}"))
}
/// All rows, and twice more after the end.
fn all(mut it: Rows, max: usize) -> Result<Vec<Vec<V>>, String> {
    let mut v = vec![];
    for r in it.by_ref() {
        v.push(r);
        if v.len() > max + 3 {
            return Err(format!("more than {max} rows"));
        }
    }
    Ok(v)
}
fn cmp(got: Result<Vec<Vec<V>>, String>, want: &[Vec<V>]) -> Result<(), String> {
    let got = got?;
    if got != want {
        let k = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return Err(format!("{} rows instead of {}, first difference in row {k}: {:?} instead of {:?}", got.len(), want.len(), got.get(k), want.get(k)));
    }
    Ok(())
}
/// Names other conventions would produce; columns of all of them are in the tree.
fn decoys() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for a in ["a", "ra", "pa_a", "ga_a", "pa_ra", "ga_ra", "pa_ga_a", "ga_pa_a", "xa", "y", "xa.y", "pa_xa.y", "ga_xa.y"] {
        v.push(a.into());
        for m in ["m", "rm", "pm_m", "gm_m", "xm", "pm_", "gm_", "pm_xm", "gm_xm", "pm_rm", "gm_rm"] {
            v.push(format!("{m}.{a}"));
            v.push(format!("{m}{a}"));
            v.push(format!("{m}_{a}"));
            for t in ["t", "rt", "pt_t", "gt_t", "xt", "pt_", "gt_"] {
                v.push(format!("{t}.{m}.{a}"));
            }
        }
    }
    v.push("m".into());
    v.push("t".into());
    v
}
struct Uni {
    cols: BTreeMap<String, Column>,
}
fn universe(ty: &str) -> Uni {
    let mut names: Vec<String> = decoys();
    names.extend(READ.iter().map(|r| r.1.to_string()));
    names.sort();
    names.dedup();
    Uni { cols: names.into_iter().enumerate().map(|(i, n)| (n.clone(), column(&n, ty, i as u64 + 1, 4))).collect() }
}
fn run_read(r: ReadFn, t: &ReaderTree, max: usize) -> Result<Vec<Vec<V>>, String> {
    match guard(|| all(r(t)?, max)) {
        Ok(x) => x,
        Err(p) => Err(format!("panic: {p}")),
    }
}
pub fn c12(cx: &mut Ctx) {
    let tier = cx.tier;
    let us = [universe("i32"), universe("i32[n]"), universe("f64"), universe("f64[n]")];
    let u = |slice: bool| &us[slice as usize];
    // every program on the tree with every name
    for slice in [false, true] {
        for (ci, chunk) in READ.chunks(60).enumerate() {
            cx.case(
                || format!("programs {ci}, slices {slice}, among all names"),
                |c| {
                    let p = c.path("c12.root");
                    let cols: Vec<&Column> = u(slice).cols.values().collect();
                    put(&p, &cols, 4, slice)?;
                    let t = open(&p)?;
                    for (id, name, sl, r) in chunk.iter().filter(|x| x.2 == slice) {
                        c.state((id, "all"));
                        let vals = &u(slice).cols[*name].vals;
                        let want: Vec<Vec<V>> = vals.iter().map(|v| vec![if *sl { if let V::L(l) = v { V::L(l.clone()) } else { v.clone() } } else { v.clone() }]).collect();
                        c.steps(want.len() as u64);
                        cmp(run_read(*r, &t, 4), &want).map_err(|e| format!("program {id} (column {name:?}): {e}"))?;
                    }
                    Ok(())
                },
            );
        }
    }
    // the target is missing or has another type
    let mut targets: Vec<(bool, &str)> = READ.iter().map(|r| (r.2, r.1)).collect();
    targets.sort();
    targets.dedup();
    for (slice, name) in targets {
        for mode in ["missing", "mistyped", "no neighbours"] {
            cx.case(
                || format!("column {name:?} {mode}, slices {slice}"),
                |c| {
                    let p = c.path("c12.root");
                    let other = &us[slice as usize + 2].cols[name];
                    let cols: Vec<&Column> = u(slice)
                        .cols
                        .iter()
                        .filter_map(|(n, col)| match mode {
                            "missing" => (n != name).then_some(col),
                            "mistyped" => Some(if n == name { other } else { col }),
                            _ => (n == name).then_some(col),
                        })
                        .collect();
                    put(&p, &cols, 4, slice)?;
                    let t = open(&p)?;
                    for (id, _, _, r) in READ.iter().filter(|x| x.2 == slice && x.1 == name) {
                        c.state((id, mode));
                        c.steps(1);
                        let got = run_read(*r, &t, 4);
                        match (mode, got) {
                            ("missing", Err(e)) if e.contains("BranchNotFound") => {}
                            ("mistyped", Err(e)) if e.contains("TypeMismatch") => {}
                            ("no neighbours", got) => {
                                let want: Vec<Vec<V>> = u(slice).cols[name].vals.iter().map(|v| vec![v.clone()]).collect();
                                cmp(got, &want).map_err(|e| format!("program {id}: {e}"))?
                            }
                            (_, Err(e)) => return Err(format!("program {id}: the wrong refusal: {e}")),
                            (_, Ok(v)) => return Err(format!("program {id}: {} rows although its column is {mode}", v.len())),
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // several fields: every length profile
    let dom: &[usize] = tier.pick(&[0, 1, 2, 4], &[0, 1, 2, 3, 7]);
    for (id, cols, r) in ROWS {
        let k = cols.len();
        let total = dom.len().pow(k as u32);
        let chunk = 300;
        for part in 0..total.div_ceil(chunk) {
            cx.case(
                || format!("lengths of {id}, part {part}"),
                |c| {
                    for code in part * chunk..total.min((part + 1) * chunk) {
                        let mut x = code;
                        let lens: Vec<usize> = (0..k)
                            .map(|_| {
                                let d = dom[x % dom.len()];
                                x /= dom.len();
                                d
                            })
                            .collect();
                        c.state((id, &lens));
                        let mut cs: Vec<Column> = cols.iter().zip(&lens).enumerate().map(|(i, ((n, t), l))| column(n, t, i as u64 + 1, *l)).collect();
                        let rows = *lens.iter().min().unwrap();
                        let want: Vec<Vec<V>> = (0..rows).map(|i| cs.iter().map(|c| c.vals[i].clone()).collect()).collect();
                        c.steps(rows as u64 + 1);
                        // decoys beside and before the real ones
                        cs.insert(0, column("zz", "i32", 77, 9));
                        cs.push(column("s", "i32", 78, 9));
                        if code % 2 == 1 {
                            cs.reverse();
                        }
                        let p = c.path("c12.root");
                        put(&p, &cs.iter().collect::<Vec<_>>(), 9, false)?;
                        let t = open(&p)?;
                        cmp(run_read(*r, &t, 9), &want).map_err(|e| format!("{id} over lengths {lens:?}: {e}"))?;
                        // two readers side by side
                        let mut a = r(&t)?;
                        let mut b = r(&t)?;
                        for i in 0..rows + 2 {
                            let (x, y) = (a.next(), b.next());
                            if x != y || x.as_ref() != want.get(i) {
                                return Err(format!("{id} over lengths {lens:?}: row {i} of two readers side by side: {x:?} and {y:?}"));
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // slices beside plain columns
    let rows = |p: &str, cs: &[(&str, &str, usize)], r: ReadFn, c: &mut Case, want: &dyn Fn(&dyn Fn(&str, usize) -> V, usize) -> Vec<V>| -> Result<(), String> {
        let cs2: Vec<Column> = cs.iter().enumerate().map(|(i, (n, t, l))| column(n, t, i as u64 + 1, *l)).collect();
        let path = c.path("c12.root");
        put(&path, &cs2.iter().collect::<Vec<_>>(), cs.iter().map(|x| x.2).max().unwrap(), true)?;
        let t = open(&path)?;
        let n = cs.iter().map(|x| x.2).min().unwrap();
        let at = |name: &str, i: usize| cs2.iter().find(|c| c.br.name == name).unwrap().vals[i].clone();
        let w: Vec<Vec<V>> = (0..n).map(|i| want(&at, i)).collect();
        c.state((p, n));
        c.steps(n as u64);
        cmp(run_read(r, &t, 20), &w)
    };
    fn zip3(at: &dyn Fn(&str, usize) -> V, pre: &str, i: usize) -> V {
        let g = |f: &str| match at(&format!("{pre}.{f}"), i) {
            V::L(l) => l,
            _ => unreachable!(),
        };
        let (x, y, z) = (g("x"), g("y"), g("z"));
        V::L((0..x.len()).map(|k| V::L(vec![x[k].clone(), y[k].clone(), z[k].clone()])).collect())
    }
    let pt = |pre: &str, n: usize| vec![(format!("{pre}.x"), "i32[n]", n), (format!("{pre}.y"), "f64[n]", n), (format!("{pre}.z"), "i16[n]", n)];
    for n in 0..tier.pick(9, 30) {
        for order in 0..3usize {
            cx.case(
                || format!("slices of structs, {n} rows, column order {order}"),
                |c| {
                    let arrange = |mut v: Vec<(String, &'static str, usize)>| {
                        let k = v.len();
                        match order {
                            1 => v.reverse(),
                            2 => v.rotate_left(k / 2),
                            _ => {}
                        }
                        v
                    };
                    let go = |c: &mut Case, id: &str, cs: Vec<(String, &'static str, usize)>, r: ReadFn, want: &dyn Fn(&dyn Fn(&str, usize) -> V, usize) -> Vec<V>| {
                        let v = arrange(cs);
                        let v: Vec<(&str, &str, usize)> = v.iter().map(|x| (x.0.as_str(), x.1, x.2)).collect();
                        rows(id, &v, r, c, want).map_err(|e| format!("{id}: {e}"))
                    };
                    go(c, "Pts", pt("p", n), read::<gen_progs::Pts>, &|at, i| vec![zip3(at, "p", i)])?;
                    let mut v = pt("p", n);
                    v.extend(pt("q", n));
                    v.extend([("a".to_string(), "i32", n), ("b".to_string(), "String", n), ("r.x".to_string(), "i32[n]", n)]);
                    go(c, "Pts2", v.clone(), read::<gen_progs::Pts2>, &|at, i| vec![at("a", i), zip3(at, "p", i), zip3(at, "q", i), at("b", i)])?;
                    for x in v.iter_mut().filter(|x| x.0 == "b") {
                        x.2 = n / 2;
                    }
                    go(c, "Pts2, one column shorter", v, read::<gen_progs::Pts2>, &|at, i| vec![at("a", i), zip3(at, "p", i), zip3(at, "q", i), at("b", i)])?;
                    let mut v = pt("s.p", n);
                    v.push(("a".to_string(), "i32", n));
                    go(c, "Pts3", v, read::<gen_progs::Pts3>, &|at, i| vec![zip3(at, "s.p", i), at("a", i)])
                },
            );
        }
    }
}

fn rust_name(t: &str) -> String {
    t.replace(' ', "")
}
/// Columns and rows of a shape, read back.
fn check_shape(t: &ReaderTree, si: usize, seed: u64, n: usize, plain: bool) -> Result<(), String> {
    let (id, cols, _, rd, mk) = &SHAPES[si];
    let want: Vec<Vec<V>> = (0..n as u64).map(|i| mk(seed + i)).collect();
    if plain {
        // the i-th value of the flattened row belongs to the i-th column
        for (k, (name, ty)) in cols.iter().enumerate() {
            let b = t.branch(name).ok_or(format!("{id}: no column {name:?}"))?;
            if b.entries() != n as i64 {
                return Err(format!("{id}: column {name:?} reports {} entries instead of {n}", b.entries()));
            }
            let it = find(&rust_name(ty)).ok_or(format!("MACHINERY: type {ty}"))?(b, true).map_err(|e| format!("{id}: column {name:?}: {e}"))?;
            let got: Vec<V> = it.take(n + 3).collect();
            if got.len() != n || got.iter().zip(&want).any(|(g, w)| *g != w[k]) {
                let bad = got.iter().zip(&want).position(|(g, w)| *g != w[k]).unwrap_or(got.len().min(n));
                return Err(format!("{id}: column {name:?}: {} values instead of {n}, first difference at {bad}: {:?} instead of {:?}", got.len(), got.get(bad), want.get(bad).map(|w| &w[k])));
            }
        }
    }
    cmp(run_read(*rd, t, n), &want).map_err(|e| format!("{id} read back: {e}"))
}
fn names(t: &ReaderTree, want: &[String], n: usize) -> Result<(), String> {
    let got: Vec<String> = t.branches().map(|b| b.name().to_string()).collect();
    if got != want {
        return Err(format!("the tree has columns {got:?} instead of {want:?}"));
    }
    if t.entries() != n as i64 {
        return Err(format!("the tree reports {} entries instead of {n}", t.entries()));
    }
    Ok(())
}
#[derive(Clone, Copy, Debug, Hash)]
enum Item {
    Shape(usize, usize),
    Ints(usize),
    Strs(usize),
}
/// Writes the items into one tree in order and checks everything.
fn one(c: &mut Case, items: &[Item]) -> Result<(), String> {
    c.state(items);
    let p = c.path("c13.root");
    let mut want = vec![];
    let mut n = 0;
    let mut t = WriterTree::new("tree");
    for (k, it) in items.iter().enumerate() {
        let seed = k as u64 * 1000 + 5;
        match *it {
            Item::Shape(s, l) => {
                let (_, cols, add, _, _) = &SHAPES[s];
                add(&mut t, seed, l)?;
                want.extend(cols.iter().map(|c| c.0.to_string()));
                n = n.max(l);
            }
            Item::Ints(l) => {
                t.new_branch(format!("ints{k}"), (0..l as u64).map(move |i| i32::mk(seed + i)));
                want.push(format!("ints{k}"));
                n = n.max(l);
            }
            Item::Strs(l) => {
                t.new_branch(format!("strs{k}"), (0..l as u64).map(move |i| String::mk(seed + i)));
                want.push(format!("strs{k}"));
                n = n.max(l);
            }
        }
    }
    let mut f = RootFile::create(&p).map_err(|e| format!("create: {e:?}"))?;
    t.write(&mut f).map_err(|e| format!("write: {e:?}"))?;
    f.close().map_err(|e| format!("close: {e:?}"))?;
    let t = open(&p)?;
    names(&t, &want, n)?;
    c.steps(n as u64);
    for (k, it) in items.iter().enumerate() {
        let seed = k as u64 * 1000 + 5;
        match *it {
            Item::Shape(s, l) => check_shape(&t, s, seed, l, true)?,
            Item::Ints(l) => {
                let g: Vec<i32> = t.branch(&format!("ints{k}")).unwrap().as_iter::<i32>().map_err(|e| format!("{e:?}"))?.collect();
                if g != (0..l as u64).map(|i| i32::mk(seed + i)).collect::<Vec<_>>() {
                    return Err(format!("plain column ints{k} differs"));
                }
            }
            Item::Strs(l) => {
                let g: Vec<String> = t.branch(&format!("strs{k}")).unwrap().as_iter::<String>().map_err(|e| format!("{e:?}"))?.collect();
                if g != (0..l as u64).map(|i| String::mk(seed + i)).collect::<Vec<_>>() {
                    return Err(format!("plain column strs{k} differs"));
                }
            }
        }
    }
    Ok(())
}
pub fn c13(cx: &mut Ctx) {
    let tier = cx.tier;
    let ix = |id: &str| SHAPES.iter().position(|s| s.0 == id).unwrap();
    let lens: &[usize] = tier.pick(&[0, 1, 2, 3, 4, 7, 12, 1001], &[0, 1, 2, 3, 4, 7, 12, 100, 999, 1000, 1001]);
    for s in 0..SHAPES.len() {
        for &n in lens {
            cx.case(|| format!("{} x{n}", SHAPES[s].0), |c| one(c, &[Item::Shape(s, n)]));
        }
    }
    // storage units
    for id in ["W1x0", "W1x4", "W1x11", "W1x13", "W2x00", "W2x57", "W3x012", "W8", "X2", "X5", "X7"] {
        for n in tier.pick(vec![4097usize, 9000], vec![1001, 1365, 1366, 4095, 4096, 4097, 8191, 8192, 8193, 9000, 16385, 32769, 40000]) {
            cx.case(|| format!("{id} x{n}"), |c| one(c, &[Item::Shape(ix(id), n)]));
        }
    }
    // several sequences and plain columns in one tree: every arrangement, every length
    let a = ["W1x4", "W2x54", "W3x213", "X1", "X2", "X5", "X7"].map(ix);
    let dom: Vec<usize> = tier.pick(vec![0, 1, 3], vec![0, 1, 2, 3, 8]);
    for &x in &a {
        for &y in &a {
            // two sequences in one tree need disjoint column names
            let clash = SHAPES[x].1.iter().any(|p| SHAPES[y].1.iter().any(|q| p.0 == q.0));
            if clash {
                continue;
            }
            cx.case(
                || format!("{} and {} in one tree", SHAPES[x].0, SHAPES[y].0),
                |c| {
                    for &l in &dom {
                        for &m in &dom {
                            one(c, &[Item::Shape(x, l), Item::Shape(y, m)])?;
                            for &k in &dom {
                                one(c, &[Item::Ints(k), Item::Shape(x, l), Item::Shape(y, m)])?;
                                one(c, &[Item::Shape(x, l), Item::Strs(k), Item::Shape(y, m)])?;
                                one(c, &[Item::Shape(x, l), Item::Shape(y, m), Item::Ints(k)])?;
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
        cx.case(
            || format!("{} between plain columns", SHAPES[x].0),
            |c| {
                for &l in &dom {
                    for &m in &dom {
                        for &k in &dom {
                            one(c, &[Item::Ints(l), Item::Shape(x, m), Item::Strs(k)])?;
                            one(c, &[Item::Strs(l), Item::Ints(k), Item::Shape(x, m)])?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // the same tree written to two files, or two trees of structs in one file
    for &x in &a {
        cx.case(
            || format!("{} in two trees of one file", SHAPES[x].0),
            |c| {
                let (id, cols, add, _, _) = &SHAPES[x];
                for (l, m) in [(0usize, 3usize), (3, 0), (2, 5), (5, 5)] {
                    c.state((id, l, m));
                    c.steps((l + m) as u64);
                    let p = c.path("c13.root");
                    let mut f = RootFile::create(&p).map_err(|e| format!("{e:?}"))?;
                    let (mut t, mut u) = (WriterTree::new("tree"), WriterTree::new("u"));
                    add(&mut t, 5, l)?;
                    add(&mut u, 900, m)?;
                    u.write(&mut f).map_err(|e| format!("{e:?}"))?;
                    t.write(&mut f).map_err(|e| format!("{e:?}"))?;
                    f.close().map_err(|e| format!("{e:?}"))?;
                    let mut f = RootFile::open(&p).map_err(|e| format!("{e:?}"))?;
                    let want: Vec<String> = cols.iter().map(|c| c.0.to_string()).collect();
                    for (name, seed, n) in [("tree", 5, l), ("u", 900, m)] {
                        let t = f.get_tree(name).map_err(|e| format!("{e:?}"))?;
                        names(&t, &want, n)?;
                        check_shape(&t, x, seed, n, true).map_err(|e| format!("{name}: {e}"))?;
                    }
                }
                Ok(())
            },
        );
    }
}
