//! C20: the files written by ROOT, and what is in them laid out anew, against an independent decoder.
use super::c09::{verify, Built, WKind, C};
use crate::col::Prim;
use crate::core::*;
use crate::dynread::{find, V};
use crate::rootr::{self, Cur, File, StreamerInfo};
use crate::rootw::*;
use oxyroot::{Branch, RootFile};
use std::path::PathBuf;

const FILES: [&str; 13] = [
    "tests/7_userinfo/tree_with_user_info_with_map.root",
    "tests/stl_containers/stl_containers.root",
    "examples/from_uproot/data/HZZ.root",
    "examples/from_uproot/data/simple.root",
    "examples/from_uproot/data/small-evnt-tree-fullsplit.root",
    "examples/from_uproot/data/tree_with_jagged_array.root",
    "tests_data/doc/struct_sd.root",
    "tests_data/from_groot/g4-like.root",
    "tests_data/from_uproot/sample-6.10.05-lz4.root",
    "tests_data/from_uproot/sample-6.10.05-lzma.root",
    "tests_data/from_uproot/sample-6.10.05-uncompressed.root",
    "tests_data/from_uproot/sample-6.10.05-zlib.root",
    "tests_data/g4/g4-ntuples.root",
];
fn path(k: usize) -> PathBuf {
    let root = std::env::var("OXMC_SAMPLES").unwrap_or("/repo/oxyroot".into());
    PathBuf::from(root).join(FILES[k])
}
/// How the entries of a column are stored.
#[derive(Clone, Debug)]
enum K {
    One(Prim),
    Arr(Prim, usize),
    /// counted array; with a leading mark
    Slice(Prim, bool),
    /// string of a leaf
    Text,
    /// container or string, with the head of a member or of an object of its own
    Obj(C, bool),
}
impl K {
    fn rust(&self) -> String {
        match self {
            K::One(p) => p.rust().into(),
            K::Arr(p, n) => format!("[{};{n}]", p.rust()),
            K::Slice(p, _) => format!("Slice<{}>", p.rust()),
            K::Text => "String".into(),
            K::Obj(c, _) => c.rust(),
        }
    }
    fn cpp(&self) -> String {
        fn p(p: &Prim) -> &'static str {
            match p {
                Prim::Bool => "bool",
                Prim::I8 => "int8_t",
                Prim::U8 => "uint8_t",
                Prim::I16 => "int16_t",
                Prim::U16 => "uint16_t",
                Prim::I32 => "int32_t",
                Prim::U32 => "uint32_t",
                Prim::I64 => "int64_t",
                Prim::U64 => "uint64_t",
                Prim::F32 => "float",
                Prim::F64 => "double",
            }
        }
        fn c(x: &C) -> String {
            match x {
                C::P(q) => p(q).into(),
                C::S(false) => "string".into(),
                C::S(true) => "TString".into(),
                C::V(e) => format!("vector<{}>", c(e)),
                C::Set(e) => format!("set<{}>", c(e)),
                C::Map(a, b) => format!("map<{},{}>", c(a), c(b)),
            }
        }
        match self {
            K::One(q) => p(q).into(),
            K::Arr(q, n) => format!("{}[{n}]", p(q)),
            K::Slice(q, _) => format!("{}[]", p(q)),
            K::Text => "char*".into(),
            K::Obj(x, _) => c(x),
        }
    }
    fn decode(&self, b: &[u8]) -> Result<V, String> {
        let mut c = Cur::new(b, 0);
        let list = |c: &mut Cur, p: &Prim| -> Result<V, String> {
            let mut v = vec![];
            while c.left() > 0 {
                v.push(V::P(c.take(p.size())?.to_vec()));
            }
            Ok(V::L(v))
        };
        let v = match self {
            K::One(p) => V::P(c.take(p.size())?.to_vec()),
            K::Arr(p, n) => {
                if b.len() != n * p.size() {
                    return Err(format!("{} bytes for {n} elements", b.len()));
                }
                list(&mut c, p)?
            }
            K::Slice(p, mark) => {
                if *mark {
                    c.take(1)?;
                }
                list(&mut c, p)?
            }
            K::Text => V::S(c.bytes_str()?),
            K::Obj(x, member) => {
                if *member || !matches!(x, C::S(_)) {
                    if !(matches!(x, C::S(true))) {
                        head(&mut c)?;
                    }
                }
                body(&mut c, x)?
            }
        };
        if c.left() != 0 {
            return Err(format!("{} bytes left of {}", c.left(), b.len()));
        }
        Ok(v)
    }
}
fn head(c: &mut Cur) -> Result<(), String> {
    let n = c.u32()?;
    if n & 0x4000_0000 == 0 {
        return Err(format!("no byte count, but {n:#x}"));
    }
    if (n & 0x3fff_ffff) as usize > c.left() {
        return Err("byte count beyond the entry".into());
    }
    c.i16()?;
    Ok(())
}
fn body(c: &mut Cur, x: &C) -> Result<V, String> {
    let counted = |c: &mut Cur, e: &C| -> Result<Vec<V>, String> {
        let n = c.i32()?;
        (0..n).map(|_| body(c, e)).collect()
    };
    Ok(match x {
        C::P(p) => V::P(c.take(p.size())?.to_vec()),
        C::S(_) => V::S(c.bytes_str()?),
        C::V(e) => V::L(counted(c, e)?),
        C::Set(e) => {
            let mut v = counted(c, e)?;
            v.sort();
            V::Set(v)
        }
        C::Map(a, b) => {
            c.i16()?;
            c.u32()?;
            let n = c.i32()?;
            let mut side = |x: &C| -> Result<Vec<V>, String> {
                if n > 0 && !matches!(x, C::P(_) | C::S(true)) {
                    head(c)?;
                }
                (0..n).map(|_| body(c, x)).collect()
            };
            let ks = side(a)?;
            let vs = side(b)?;
            let mut v: Vec<(V, V)> = ks.into_iter().zip(vs).collect();
            v.sort();
            V::Map(v)
        }
    })
}
/// C++ spelling of a type.
fn cpp(s: &str) -> Option<C> {
    fn basic(s: &str) -> Option<Prim> {
        Some(match s {
            "bool" | "Bool_t" => Prim::Bool,
            "char" | "Char_t" | "int8_t" | "signed char" => Prim::I8,
            "unsigned char" | "UChar_t" | "uint8_t" => Prim::U8,
            "short" | "Short_t" | "int16_t" => Prim::I16,
            "unsigned short" | "UShort_t" | "uint16_t" => Prim::U16,
            "int" | "Int_t" | "int32_t" => Prim::I32,
            "unsigned int" | "UInt_t" | "uint32_t" => Prim::U32,
            "long" | "Long64_t" | "int64_t" | "long long" => Prim::I64,
            "unsigned long" | "ULong64_t" | "uint64_t" | "unsigned long long" => Prim::U64,
            "float" | "Float_t" => Prim::F32,
            "double" | "Double_t" => Prim::F64,
            _ => return None,
        })
    }
    fn go(s: &str) -> Option<(C, &str)> {
        let s = s.trim_start();
        let n = s.find(['<', '>', ',']).unwrap_or(s.len());
        let (word, rest) = (s[..n].trim(), &s[n..]);
        let word = word.strip_prefix("std::").unwrap_or(word);
        match word {
            "string" => Some((C::S(false), rest)),
            "TString" => Some((C::S(true), rest)),
            "vector" | "set" | "map" => {
                let (a, rest) = go(rest.strip_prefix('<')?)?;
                let (c, rest) = match word {
                    "vector" => (C::V(Box::new(a)), rest),
                    "set" => (C::Set(Box::new(a)), rest),
                    _ => {
                        let (b, rest) = go(rest.trim_start().strip_prefix(',')?)?;
                        (C::Map(Box::new(a), Box::new(b)), rest)
                    }
                };
                Some((c, rest.trim_start().strip_prefix('>')?))
            }
            w => Some((C::P(basic(w)?), rest)),
        }
    }
    let (c, rest) = go(s)?;
    rest.trim().is_empty().then_some(c)
}
/// What a column holds, from its leaf and the schema; None: objects and parts of them.
fn classify(b: &rootr::Branch, si: &[StreamerInfo]) -> Option<K> {
    if b.leaves.len() != 1 {
        return None;
    }
    let l = &b.leaves[0];
    let leaf = match (l.class.as_str(), l.unsigned) {
        ("TLeafO", _) => Some(Prim::Bool),
        ("TLeafB", false) => Some(Prim::I8),
        ("TLeafB", true) => Some(Prim::U8),
        ("TLeafS", false) => Some(Prim::I16),
        ("TLeafS", true) => Some(Prim::U16),
        ("TLeafI", false) => Some(Prim::I32),
        ("TLeafI", true) => Some(Prim::U32),
        ("TLeafL", false) => Some(Prim::I64),
        ("TLeafL", true) => Some(Prim::U64),
        ("TLeafF", _) => Some(Prim::F32),
        ("TLeafD", _) => Some(Prim::F64),
        _ => None,
    };
    if let Some(p) = leaf {
        return Some(if l.has_count {
            K::Slice(p, false)
        } else if l.title.contains('[') {
            K::Arr(p, l.len as usize)
        } else {
            K::One(p)
        });
    }
    if l.class == "TLeafC" {
        return Some(K::Text);
    }
    let el = b.el.as_ref()?;
    if !b.branches.is_empty() {
        return None;
    }
    if el.id < 0 {
        // an object of its own
        return cpp(&el.class_name).map(|c| K::Obj(c, false));
    }
    let name = b.name.rsplit('.').next().unwrap().split('[').next().unwrap();
    let s = si.iter().filter(|s| s.name == el.class_name).max_by_key(|s| s.version == el.clsver)?;
    let e = s.elems.get(el.id as usize).filter(|e| e.name == name)?;
    let basic = |t: i32| {
        Some(match t {
            1 => Prim::I8,
            2 => Prim::I16,
            3 => Prim::I32,
            4 | 16 => Prim::I64,
            5 => Prim::F32,
            8 => Prim::F64,
            11 => Prim::U8,
            12 => Prim::U16,
            13 => Prim::U32,
            14 | 17 => Prim::U64,
            18 => Prim::Bool,
            // what counts the elements of others is never negative: unsigned by the convention of the
            // library (and of uproot), though the class declares an int
            6 => Prim::U32,
            _ => return None,
        })
    };
    match e.etype {
        t @ 0..=19 => Some(K::One(basic(t)?)),
        t @ 20..=39 => Some(K::Arr(basic(t - 20)?, e.arr_len as usize)),
        t @ 40..=59 => Some(K::Slice(basic(t - 40)?, true)),
        65 => Some(K::Obj(C::S(true), true)),
        _ => cpp(&e.ename).map(|c| K::Obj(c, true)),
    }
}
struct Colm {
    name: String,
    b: rootr::Branch,
    k: Option<K>,
    raw: Vec<Vec<u8>>,
    vals: Vec<V>,
}
fn columns(f: &File, bs: &[rootr::Branch], out: &mut Vec<Colm>) -> Result<(), String> {
    for b in bs {
        let k = classify(b, &f.streamers);
        let (mut raw, mut vals) = (vec![], vec![]);
        if let Some(k) = &k {
            raw = f.raw_entries(b)?;
            for (i, r) in raw.iter().enumerate() {
                vals.push(k.decode(r).map_err(|e| format!("column {} as {k:?}, entry {i}: {e}", b.name))?);
            }
        }
        out.push(Colm { name: b.name.clone(), b: b.clone(), k, raw, vals });
        columns(f, &b.branches, out)?;
    }
    Ok(())
}
struct Tr {
    key: String,
    t: rootr::Tree,
    cols: Vec<Colm>,
}
fn trees(bytes: &[u8]) -> Result<Vec<Tr>, String> {
    let f = File::parse(bytes)?;
    let mut v: Vec<Tr> = vec![];
    for k in &f.keys {
        // the newest version of a name comes first
        if k.class != "TTree" || v.iter().any(|t| t.key == k.name) {
            continue;
        }
        let t = f.tree(k)?;
        let mut cols = vec![];
        columns(&f, &t.branches, &mut cols)?;
        v.push(Tr { key: k.name.clone(), t, cols });
    }
    Ok(v)
}
/// Names and nesting as the library shows them.
fn shape_lib<'a>(bs: impl Iterator<Item = &'a Branch>, o: &mut String) {
    for b in bs {
        o.push_str(&format!("{}:{}{{", b.name(), b.entries()));
        shape_lib(b.branches(), o);
        o.push('}');
    }
}
fn shape(bs: &[rootr::Branch], o: &mut String) {
    for b in bs {
        o.push_str(&format!("{}:{}{{", b.name, b.entries));
        shape(&b.branches, o);
        o.push('}');
    }
}
fn same_vals(what: &str, got: impl Iterator<Item = V>, want: &[V]) -> Result<(), String> {
    let mut n = 0;
    for v in got {
        match want.get(n) {
            None => return Err(format!("{what}: more values than the {} entries", want.len())),
            Some(w) if *w != v => return Err(format!("{what}: entry {n} is {v:?} instead of {w:?}")),
            _ => n += 1,
        }
    }
    if n != want.len() {
        return Err(format!("{what}: {n} values instead of {}", want.len()));
    }
    Ok(())
}
fn elem_class(s: &str) -> &'static str {
    ["TStreamerBasicType", "TStreamerBasicPointer", "TStreamerString", "TStreamerSTL", "TStreamerSTLstring"].into_iter().find(|k| *k == s).unwrap_or("TStreamerBasicType")
}
/// A stretch of a column, laid out anew.
fn anew(f_streamers: &[StreamerInfo], col: &Colm, from: usize, parts: &[usize], emb: bool, lay: &Layout) -> Option<Built> {
    let k = col.k.clone()?;
    let n: usize = parts.iter().sum();
    let raw: Vec<Vec<u8>> = col.raw[from..from + n].to_vec();
    let vals: Vec<V> = col.vals[from..from + n].to_vec();
    let l = &col.b.leaves[0];
    let lens: Vec<i32> = vals
        .iter()
        .map(|v| match (v, &k) {
            (V::L(x), K::Slice(..)) => x.len() as i32,
            _ => 0,
        })
        .collect();
    let name = col.name.rsplit('.').next().unwrap().trim_end_matches('.').to_string();
    let count = l.has_count.then(|| "the count".to_string());
    let mut cls = vec![];
    let (kind, member) = match &col.b.el {
        None => {
            let leaf = ["TLeafO", "TLeafB", "TLeafS", "TLeafI", "TLeafL", "TLeafF", "TLeafD", "TLeafC"].into_iter().find(|c| *c == l.class)?;
            (WKind::Base { leaf, unsigned: l.unsigned, esize: l.etype, len: l.len, title: col.b.title.split('/').next().unwrap().replace(&format!("[{}]", l.count_name.clone().unwrap_or("?".into())), "[the count]"), count }, false)
        }
        Some(el) if el.id < 0 => (WKind::Element { class_name: el.class_name.clone(), id: el.id, stype: el.stype, title: name.clone(), len: 1, count: None, clsver: el.clsver as i16 }, false),
        Some(el) => {
            let s = f_streamers.iter().filter(|s| s.name == el.class_name).max_by_key(|s| s.version == el.clsver)?;
            let e = &s.elems[el.id as usize];
            cls.push(WClass {
                name: "Ev".into(),
                vers: 1,
                elems: vec![WElem {
                    class: elem_class(&e.class),
                    name: e.name.clone(),
                    title: e.title.clone(),
                    etype: e.etype,
                    size: e.size,
                    dims: e.max_idx[..e.arr_dim.max(0) as usize].to_vec(),
                    tname: e.ename.clone(),
                    stl: e.stl,
                    ctype: e.ctype,
                    count: if count.is_some() { "the count".into() } else { String::new() },
                }],
            });
            (WKind::Element { class_name: "Ev".into(), id: 0, stype: el.stype, title: if count.is_some() { format!("{}[the count]", name) } else { name.clone() }, len: l.len, count, clsver: 1 }, true)
        }
    };
    let offsets = !matches!(k, K::One(_) | K::Arr(..));
    let int = |title: &str| WKind::Base { leaf: "TLeafI", unsigned: false, esize: 4, len: 1, title: title.into(), count: None };
    let mut x = WBranch::new(&name, kind, raw.clone(), offsets);
    x.parts = parts.to_vec();
    x.embedded = emb;
    let cn: Vec<Vec<u8>> = lens.iter().map(|l| l.to_be_bytes().to_vec()).collect();
    let last: Vec<Vec<u8>> = (0..n as i32).map(|i| (i * 7 - 3).to_be_bytes().to_vec()).collect();
    let mut branches = vec![WBranch::new("the count", int("the count"), cn.clone(), false)];
    if member {
        let mut ev = WBranch::new("the event", WKind::Element { class_name: "Ev".into(), id: -2, stype: -1, title: "the event".into(), len: 1, count: None, clsver: 1 }, vec![], false);
        ev.children = vec![x];
        branches.push(ev);
    } else {
        branches.push(x);
    }
    branches.push(WBranch::new("the last", int("the last"), last.clone(), false));
    let mut f = WFile::new("f.root", lay.clone());
    f.streamers(&cls);
    f.tree(&WTree { name: "tree".into(), title: "anew".into(), entries: n as i64, branches }, 1, None);
    Some(Built {
        other: None,
        raw,
        bytes: f.finish(),
        want: vec![("the count".into(), "i32".into(), cn.into_iter().map(V::P).collect()), (name, k.rust(), vals), ("the last".into(), "i32".into(), last.into_iter().map(V::P).collect())],
    })
}
fn splits(n: usize, quick: bool) -> Vec<(Vec<usize>, bool)> {
    let mut v: Vec<(Vec<usize>, bool)> = vec![(vec![n], false), (vec![n], true)];
    if n > 1 {
        v.push((vec![1; n], false));
        v.push((vec![1; n], true));
        let cuts: Vec<usize> = if quick { vec![1, n / 2, n - 1] } else { (1..n).collect() };
        for c in cuts {
            if c > 0 && c < n {
                v.push((vec![c, n - c], false));
                v.push((vec![c, n - c], true));
                if c > 1 && n - c > 1 && !quick {
                    v.push((vec![c / 2, c - c / 2, n - c], c % 2 == 0));
                }
            }
        }
    }
    v
}
pub fn run(cx: &mut Ctx) {
    let tier = cx.tier;
    let mut unread = 0;
    for k in 0..FILES.len() {
        let what = FILES[k];
        let p = path(k);
        let bytes = std::fs::read(&p).unwrap_or_default();
        let ts = trees(&bytes);
        let ts = match ts {
            Ok(t) => t,
            Err(e) => {
                cx.case(|| format!("{what}: decoding"), |_| Err(format!("MACHINERY: {e}")));
                continue;
            }
        };
        let si = File::parse(&bytes).map(|f| f.streamers).unwrap_or_default();
        for t in &ts {
            cx.case(|| format!("{what}: structure of tree {}", t.key), |c| {
                let mut f = RootFile::open(&p).map_err(|e| format!("{e:?}"))?;
                let r = f.get_tree(&t.key).map_err(|e| format!("{e:?}"))?;
                if r.entries() != t.t.entries {
                    return Err(format!("{} entries instead of {}", r.entries(), t.t.entries));
                }
                let (mut a, mut b) = (String::new(), String::new());
                shape_lib(r.branches(), &mut a);
                shape(&t.t.branches, &mut b);
                if a != b {
                    return Err(format!("columns are {a} instead of {b}"));
                }
                let all: Vec<&str> = r.branches_r().into_iter().map(|b| b.name()).collect();
                let want: Vec<&str> = t.cols.iter().map(|c| c.name.as_str()).collect();
                let (mut x, mut y) = (all.clone(), want.clone());
                x.sort();
                y.sort();
                if x != y {
                    return Err(format!("all columns are {all:?} instead of {want:?}"));
                }
                for col in &t.cols {
                    let b = r.branch(&col.name).ok_or(format!("no column {}", col.name))?;
                    if b.name() != col.name || b.entries() != col.b.entries {
                        return Err(format!("column {} is {} with {} entries", col.name, b.name(), b.entries()));
                    }
                    if let Some(k) = &col.k {
                        if b.interpretation() != k.rust() || b.item_type_name() != k.cpp() {
                            return Err(format!("column {} is {} ({}) instead of {} ({})", col.name, b.interpretation(), b.item_type_name(), k.rust(), k.cpp()));
                        }
                    }
                    c.state((what, &t.key, &col.name));
                    c.steps(1);
                }
                Ok(())
            });
            // all columns from one handle, in both directions, twice
            cx.case(|| format!("{what}: all columns of tree {} together", t.key), |c| {
                let mut f = RootFile::open(&p).map_err(|e| format!("{e:?}"))?;
                let r = f.get_tree(&t.key).map_err(|e| format!("{e:?}"))?;
                let rounds: Vec<Vec<&Colm>> = vec![t.cols.iter().collect(), t.cols.iter().rev().collect()];
                for cols in rounds {
                    let mut its = vec![];
                    for col in cols {
                        let Some(k) = &col.k else { continue };
                        let g = find(&k.rust()).ok_or(format!("MACHINERY: no reader for {}", k.rust()))?;
                        let b = r.branch(&col.name).ok_or("column")?;
                        its.push((col, g(b, false).map_err(|e| format!("{}: {e}", col.name))?));
                    }
                    // entry by entry
                    for i in 0..t.t.entries as usize {
                        for (col, it) in its.iter_mut() {
                            let v = it.next();
                            if v.as_ref() != col.vals.get(i) {
                                return Err(format!("column {}, entry {i}: {v:?} instead of {:?}", col.name, col.vals.get(i)));
                            }
                        }
                        c.steps(its.len() as u64);
                    }
                }
                Ok(())
            });
            for col in &t.cols {
                let Some(kd) = &col.k else {
                    unread += 1;
                    continue;
                };
                if col.b.entries as usize != col.vals.len() {
                    cx.case(|| format!("{what}: column {}", col.name), |_| Err(format!("MACHINERY: {} entries, {} decoded", col.b.entries, col.vals.len())));
                }
                cx.case(|| format!("{what}: column {} of tree {}", col.name, t.key), |c| {
                    let g = find(&kd.rust()).ok_or(format!("MACHINERY: no reader for {}", kd.rust()))?;
                    for checked in [true, false] {
                        let mut f = RootFile::open(&p).map_err(|e| format!("{e:?}"))?;
                        let r = f.get_tree(&t.key).map_err(|e| format!("{e:?}"))?;
                        let b = r.branch(&col.name).ok_or("column missing")?;
                        for _ in 0..2 {
                            same_vals(&kd.rust(), g(b, checked)?, &col.vals)?;
                            c.steps(col.vals.len() as u64);
                        }
                    }
                    Ok(())
                });
                // laid out anew
                let all = col.vals.len();
                let m = tier.pick(12, 40).min(all);
                let mut starts = vec![0];
                if all > m {
                    starts.push(all - m);
                    if !tier.quick() {
                        starts.push(all / 2);
                    }
                }
                let codecs: Vec<(Codec, Vec<usize>)> = vec![(Codec::None, vec![]), (Codec::Zlib, vec![]), (Codec::Lz4, vec![50]), (Codec::Lzma, vec![]), (Codec::Zlib, vec![20, 7]), (Codec::Lz4, vec![])];
                for from in starts {
                    for vers in tier.pick(vec![13i16], vec![13, 12, 11, 10, 8]) {
                        for big in [false, true] {
                            cx.case(|| format!("{what}: {} entries from {from} of column {} laid out anew, version {vers}, wide pointers {big}", m, col.name), |c| {
                                for (codec, blocks) in &codecs {
                                    let lay = Layout { codec: *codec, blocks: blocks.clone(), vers, big, zip_tree: *codec != Codec::None };
                                    for (parts, emb) in splits(m, tier.quick()) {
                                        let Some(b) = anew(&si, col, from, &parts, emb, &lay) else { return Err("MACHINERY: column cannot be laid out".into()) };
                                        verify(c, &b).map_err(|e| format!("{codec:?} in blocks {blocks:?}, units {parts:?}, last one embedded: {emb}: {e}"))?;
                                        c.state((what, &col.name, from, &parts, emb, vers, big, format!("{codec:?}{blocks:?}")));
                                        c.steps(m as u64);
                                    }
                                }
                                Ok(())
                            });
                        }
                    }
                }
            }
        }
    }
    cx.note("columns of other classes, not read", unread);
}
