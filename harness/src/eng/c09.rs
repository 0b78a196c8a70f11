//! C09: the same column values laid out in every way within the bounds read the same.
use crate::col::*;
use crate::core::*;
use crate::dynread::{suggested, V};
use crate::rootw::*;
use oxyroot::RootFile;

/// One kind of column: how ROOT stores it and what a reader has to see.
pub struct Kd {
    pub label: String,
    pub rust: String,
    pub kind: WKind,
    pub offsets: bool,
    pub elem: Option<WElem>,
    pub jagged: usize,
    pub gen: Gen,
}
pub type WKind = crate::rootw::Kind;
/// stored bytes and value of entry i; `l` elements where the length is free
pub type Gen = Box<dyn Fn(u64, usize) -> (Vec<u8>, V)>;

fn pv(p: Prim, i: u64) -> V {
    V::P(p.elem(i))
}
fn leafc(p: Prim) -> (&'static str, bool) {
    match p {
        Prim::Bool => ("TLeafO", false),
        Prim::I8 => ("TLeafB", false),
        Prim::U8 => ("TLeafB", true),
        Prim::I16 => ("TLeafS", false),
        Prim::U16 => ("TLeafS", true),
        Prim::I32 => ("TLeafI", false),
        Prim::U32 => ("TLeafI", true),
        Prim::I64 => ("TLeafL", false),
        Prim::U64 => ("TLeafL", true),
        Prim::F32 => ("TLeafF", false),
        Prim::F64 => ("TLeafD", false),
    }
}
/// streamer element type and C++ spelling
pub fn etype(p: Prim) -> Option<(i32, &'static str)> {
    Some(match p {
        Prim::I8 => (1, "char"),
        Prim::I16 => (2, "short"),
        Prim::I32 => (3, "int"),
        Prim::I64 => (4, "long"),
        Prim::F32 => (5, "float"),
        Prim::F64 => (8, "double"),
        Prim::U8 => (11, "unsigned char"),
        Prim::U16 => (12, "unsigned short"),
        Prim::U32 => (13, "unsigned int"),
        Prim::U64 => (14, "unsigned long"),
        Prim::Bool => return None,
    })
}
fn sbytes(s: &str) -> Vec<u8> {
    let mut w = W::new(0);
    w.str(s.as_bytes());
    w.v
}
pub fn word(i: u64, l: usize) -> String {
    (0..l).map(|k| (b'a' + ((i as usize * 7 + k * 3) % 26) as u8) as char).collect()
}
fn elems(p: Prim, i: u64, n: usize) -> (Vec<u8>, Vec<V>) {
    let v: Vec<Vec<u8>> = (0..n as u64).map(|k| p.elem(i * 31 + k)).collect();
    (v.concat(), v.into_iter().map(V::P).collect())
}
/// A byte-counted, versioned body.
fn hdr(vers: u16, body: Vec<u8>) -> Vec<u8> {
    let mut w = W::new(0);
    w.u32((body.len() as u32 + 2) | 0x4000_0000);
    w.u16(vers);
    w.v.extend(body);
    w.v
}
fn cnt(n: usize, b: Vec<u8>) -> Vec<u8> {
    let mut v = (n as i32).to_be_bytes().to_vec();
    v.extend(b);
    v
}
/// Contents of containers: nested types as ROOT writes them inside a container.
#[derive(Clone, Debug)]
pub enum C {
    P(Prim),
    S(bool),
    V(Box<C>),
    Set(Box<C>),
    Map(Box<C>, Box<C>),
}
impl C {
    pub fn cpp(&self) -> String {
        let close = |s: String| if s.ends_with('>') { format!("{s} >") } else { format!("{s}>") };
        match self {
            C::P(p) => match p {
                Prim::Bool => "bool",
                p => etype(*p).unwrap().1,
            }
            .into(),
            C::S(false) => "string".into(),
            C::S(true) => "TString".into(),
            C::V(c) => close(format!("vector<{}", c.cpp())),
            C::Set(c) => close(format!("set<{}", c.cpp())),
            C::Map(a, b) => close(format!("map<{},{}", a.cpp(), b.cpp())),
        }
    }
    pub fn rust(&self) -> String {
        match self {
            C::P(p) => p.rust().into(),
            C::S(false) => "String".into(),
            C::S(true) => "TString".into(),
            C::V(c) => format!("Vec<{}>", c.rust()),
            C::Set(c) => format!("HashSet<{}>", c.rust()),
            C::Map(a, b) => format!("HashMap<{},{}>", a.rust(), b.rust()),
        }
    }
    pub fn body(&self, i: u64, l: usize) -> (Vec<u8>, V) {
        match self {
            C::P(p) => {
                let e = p.elem(i);
                (e.clone(), V::P(e))
            }
            C::S(_) => {
                let s = word(i, l);
                (sbytes(&s), V::S(s.into_bytes()))
            }
            C::V(c) => {
                let (mut b, mut v) = (vec![], vec![]);
                for k in 0..l {
                    let (x, y) = c.body(i * 31 + k as u64, (l + k) % 4);
                    b.extend(x);
                    v.push(y);
                }
                (cnt(l, b), V::L(v))
            }
            C::Set(c) => {
                let mut m = std::collections::BTreeMap::new();
                for k in 0..l {
                    let (x, y) = c.body(i * 31 + k as u64, 1 + k);
                    m.insert(y, x);
                }
                (cnt(m.len(), m.values().flatten().copied().collect()), V::Set(m.into_keys().collect()))
            }
            C::Map(a, b) => {
                let mut m = std::collections::BTreeMap::new();
                for k in 0..l {
                    let x = a.body(i * 31 + k as u64, 1 + k);
                    m.insert(x.1, (x.0, b.body(i * 37 + k as u64, (l + k) % 4)));
                }
                let wrap = |c: &C, v: Vec<u8>| match c {
                    C::P(_) | C::S(true) => v,
                    _ if m.is_empty() => v,
                    _ => hdr(9, v),
                };
                let ks = wrap(a, m.values().flat_map(|x| x.0.clone()).collect());
                let vs = wrap(b, m.values().flat_map(|x| x.1 .0.clone()).collect());
                // class version (none) and checksum of the pair, count, keys, values
                let mut w = W::new(0);
                w.i16(0);
                w.u32(0xfe3e_6d80);
                w.i32(m.len() as i32);
                w.v.extend(ks);
                w.v.extend(vs);
                (w.v, V::Map(m.into_iter().map(|(k, v)| (k, v.1 .1)).collect()))
            }
        }
    }
    pub fn entry(&self, i: u64, l: usize) -> (Vec<u8>, V) {
        let (b, v) = self.body(i, l);
        (
            match self {
                C::P(_) | C::S(_) => b,
                C::Map(..) => hdr(0x4009, b),
                _ => hdr(9, b),
            },
            v,
        )
    }
}
pub fn containers() -> Vec<C> {
    let p = |x| Box::new(C::P(x));
    let s = || Box::new(C::S(false));
    let v = |c| Box::new(C::V(c));
    let t = |c| Box::new(C::Set(c));
    let mut out = vec![C::S(false), C::S(true)];
    for q in PRIMS {
        if !matches!(q, Prim::I8 | Prim::U8) {
            out.push(C::V(p(q)));
        }
    }
    out.extend([
        C::V(s()),
        C::V(Box::new(C::S(true))),
        C::V(v(p(Prim::I32))),
        C::V(v(s())),
        C::V(t(p(Prim::I32))),
        C::V(t(s())),
        C::Set(p(Prim::I32)),
        C::Set(p(Prim::I16)),
        C::Set(s()),
        C::Map(p(Prim::I32), p(Prim::I16)),
        C::Map(p(Prim::I32), v(p(Prim::I16))),
        C::Map(p(Prim::I32), v(v(p(Prim::I16)))),
        C::Map(p(Prim::I32), v(s())),
        C::Map(p(Prim::I32), v(t(p(Prim::I16)))),
        C::Map(p(Prim::I32), t(p(Prim::I16))),
        C::Map(p(Prim::I32), t(s())),
        C::Map(s(), p(Prim::I16)),
        C::Map(s(), v(p(Prim::I16))),
        C::Map(s(), v(s())),
        C::Map(s(), s()),
        C::Map(s(), Box::new(C::S(true))),
        C::Map(s(), t(p(Prim::I16))),
        C::Map(s(), t(s())),
    ]);
    out
}
/// Every kind of column.
pub fn kinds() -> Vec<Kd> {
    let mut v: Vec<Kd> = vec![];
    for p in PRIMS {
        let (leaf, unsigned) = leafc(p);
        let base = |title: &str, len: i32, count: bool| WKind::Base { leaf, unsigned, esize: p.size() as i32, len, title: title.into(), count: count.then(|| "n".to_string()) };
        v.push(Kd { label: format!("leaf {}", p.rust()), rust: p.rust().into(), kind: base("x", 1, false), offsets: false, elem: None, jagged: 0, gen: Box::new(move |i, _| (p.elem(i), pv(p, i))) });
        for (dims, n) in [("[1]", 1), ("[3]", 3), ("[2][3]", 6), ("[1][2][3]", 6)] {
            v.push(Kd {
                label: format!("leaf {}{dims}", p.rust()),
                rust: format!("[{};{n}]", p.rust()),
                kind: base(&format!("x{dims}"), n as i32, false),
                offsets: false,
                elem: None,
                jagged: 0,
                gen: Box::new(move |i, _| {
                    let (b, e) = elems(p, i, n);
                    (b, V::L(e))
                }),
            });
        }
        for (dims, m) in [("[n]", 1), ("[n][2]", 2)] {
            v.push(Kd {
                label: format!("leaf {}{dims}", p.rust()),
                rust: format!("Slice<{}>", p.rust()),
                kind: base(&format!("x{dims}"), m as i32, true),
                offsets: true,
                elem: None,
                jagged: m,
                gen: Box::new(move |i, l| {
                    let (b, e) = elems(p, i, l * m);
                    (b, V::L(e))
                }),
            });
        }
    }
    v.push(Kd {
        label: "leaf string".into(),
        rust: "String".into(),
        kind: WKind::Base { leaf: "TLeafC", unsigned: false, esize: 1, len: 9, title: "x".into(), count: None },
        offsets: true,
        elem: None,
        jagged: 0,
        gen: Box::new(|i, l| {
            let l = if l == 5 { 300 } else { l };
            let s = word(i, l);
            (sbytes(&s), V::S(s.into_bytes()))
        }),
    });
    for p in PRIMS {
        let Some((et, cpp)) = etype(p) else { continue };
        let el = |title: &str, stype: i32, len: i32, count: bool| WKind::Element {
            class_name: "Ev".into(),
            id: 0,
            stype,
            title: title.into(),
            len,
            count: count.then(|| "n".to_string()),
            clsver: 1,
        };
        v.push(Kd {
            label: format!("member {}", p.rust()),
            rust: p.rust().into(),
            kind: el("x", et, 1, false),
            offsets: false,
            elem: Some(WElem { class: "TStreamerBasicType", name: "x".into(), etype: et, size: p.size() as i32, tname: cpp.into(), ..Default::default() }),
            jagged: 0,
            gen: Box::new(move |i, _| (p.elem(i), pv(p, i))),
        });
        for (dims, n, offs) in [(vec![3], 3usize, false), (vec![3], 3, true), (vec![2, 3], 6, true)] {
            let d: String = dims.iter().map(|d| format!("[{d}]")).collect();
            v.push(Kd {
                label: format!("member {}{d}{}", p.rust(), if offs { " with offsets" } else { "" }),
                rust: format!("[{};{n}]", p.rust()),
                kind: el(&format!("x{d}"), et + 20, n as i32, false),
                offsets: offs,
                elem: Some(WElem { class: "TStreamerBasicType", name: "x".into(), etype: et + 20, size: (p.size() * n) as i32, dims: dims.clone(), tname: cpp.into(), ..Default::default() }),
                jagged: 0,
                gen: Box::new(move |i, _| {
                    let (b, e) = elems(p, i, n);
                    (b, V::L(e))
                }),
            });
        }
        v.push(Kd {
            label: format!("member {}*", p.rust()),
            rust: format!("Slice<{}>", p.rust()),
            kind: el("x[n]", et + 40, 1, true),
            offsets: true,
            elem: Some(WElem { class: "TStreamerBasicPointer", name: "x".into(), title: "[n]".into(), etype: et + 40, size: p.size() as i32, tname: format!("{cpp}*"), count: "n".into(), ..Default::default() }),
            jagged: 1,
            gen: Box::new(move |i, l| {
                let (mut b, e) = elems(p, i, l);
                b.insert(0, (l > 0) as u8);
                (b, V::L(e))
            }),
        });
    }
    v.push(Kd {
        label: "member TString".into(),
        rust: "TString".into(),
        kind: WKind::Element { class_name: "Ev".into(), id: 0, stype: 65, title: "x".into(), len: 1, count: None, clsver: 1 },
        offsets: true,
        elem: Some(WElem { class: "TStreamerString", name: "x".into(), etype: 65, size: 24, tname: "TString".into(), ..Default::default() }),
        jagged: 0,
        gen: Box::new(|i, l| {
            let s = word(i, if l == 5 { 300 } else { l });
            (sbytes(&s), V::S(s.into_bytes()))
        }),
    });
    for (what, c, sc) in [("string", C::S(false), "TStreamerSTLstring"), ("vector<int>", C::V(Box::new(C::P(Prim::I32))), "TStreamerSTL"), ("vector<double>", C::V(Box::new(C::P(Prim::F64))), "TStreamerSTL"), ("vector<string>", C::V(Box::new(C::S(false))), "TStreamerSTL")] {
        let rust = c.rust();
        v.push(Kd {
            label: format!("member {what}"),
            rust,
            kind: WKind::Element { class_name: "Ev".into(), id: 0, stype: 300, title: "x".into(), len: 1, count: None, clsver: 1 },
            offsets: true,
            elem: Some(WElem { class: sc, name: "x".into(), etype: 500, size: 24, tname: what.into(), stl: if what == "string" { 365 } else { 1 }, ctype: if what == "string" { 365 } else { 3 }, ..Default::default() }),
            jagged: 0,
            gen: Box::new(move |i, l| {
                let (b, v) = c.body(i, l);
                (hdr(9, b), v)
            }),
        });
    }
    for c in containers() {
        v.push(Kd {
            label: format!("object {}", c.cpp()),
            rust: c.rust(),
            kind: WKind::Element { class_name: c.cpp(), id: -1, stype: -1, title: "x".into(), len: 1, count: None, clsver: 6 },
            offsets: true,
            elem: None,
            jagged: 0,
            gen: Box::new(move |i, l| c.entry(i, l)),
        });
    }
    v
}

/// Lengths of free-length entries.
pub const LENS: [(&str, &[usize]); 4] = [("mixed", &[1, 0, 3, 2, 1, 5]), ("ones", &[1]), ("zeros", &[0]), ("late", &[0, 0, 5, 1])];

pub struct Built {
    /// stored bytes of the entries of the subject column
    pub raw: Vec<Vec<u8>>,
    pub bytes: Vec<u8>,
    /// another file that holds units
    pub other: Option<(String, Vec<u8>)>,
    pub want: Vec<(String, String, Vec<V>)>,
}
pub fn build(k: &Kd, parts: &[usize], lens: &[usize], emb: bool, lay: &Layout) -> Built {
    build2(k, parts, lens, emb, lay, "")
}
/// The units of the subject column are in `file`, if that is not empty.
fn build2(k: &Kd, parts: &[usize], lens: &[usize], emb: bool, lay: &Layout, file: &str) -> Built {
    let n: usize = parts.iter().sum();
    let lay2 = lay.clone();
    let mut f = WFile::new("f.root", lay2);
    let i32k = |title: &str| WKind::Base { leaf: "TLeafI", unsigned: false, esize: 4, len: 1, title: title.into(), count: None };
    let ls: Vec<usize> = (0..n).map(|i| lens[i % lens.len()]).collect();
    let count: Vec<Vec<u8>> = ls.iter().map(|l| (*l as i32).to_be_bytes().to_vec()).collect();
    let vals: Vec<(Vec<u8>, V)> = ls.iter().enumerate().map(|(i, l)| (k.gen)(i as u64, *l)).collect();
    let tail: Vec<String> = (0..n).map(|i| word(i as u64 + 5, i % 3)).collect();
    let bname = match &k.kind {
        WKind::Element { title, stype, .. } if (21..40).contains(stype) => title.clone(),
        _ => "x".into(),
    };
    let mut x = WBranch::new(&bname, k.kind.clone(), vals.iter().map(|v| v.0.clone()).collect(), k.offsets);
    x.parts = parts.to_vec();
    x.embedded = emb;
    x.file = file.into();
    if !file.is_empty() {
        f.others.push((file.into(), WFile::new("other.root", lay.clone())));
    }
    let nb = WBranch::new("n", i32k("n"), count.clone(), false);
    let t = WBranch::new("t", WKind::Base { leaf: "TLeafC", unsigned: false, esize: 1, len: 3, title: "t".into(), count: None }, tail.iter().map(|s| sbytes(s)).collect(), true);
    let member = k.elem.is_some();
    let mut branches = vec![nb];
    if member {
        let mut ev = WBranch::new("ev", WKind::Element { class_name: "Ev".into(), id: -2, stype: -1, title: "ev".into(), len: 1, count: None, clsver: 1 }, vec![], false);
        ev.children = vec![x];
        branches.push(ev);
    } else {
        branches.push(x);
    }
    branches.push(t);
    let tree = WTree { name: "tree".into(), title: "a tree".into(), entries: n as i64, branches };
    let mut cls = vec![];
    if let Some(e) = &k.elem {
        cls.push(WClass { name: "Ev".into(), vers: 1, elems: vec![e.clone()] });
    }
    f.streamers(&cls);
    f.tree(&tree, 1, None);
    Built {
        raw: vals.iter().map(|v| v.0.clone()).collect(),
        other: f.others.pop().map(|(n, o)| (n, o.finish())),
        bytes: f.finish(),
        want: vec![
            ("n".into(), "i32".into(), count.into_iter().map(V::P).collect()),
            (bname, k.rust.clone(), vals.into_iter().map(|v| v.1).collect()),
            ("t".into(), "String".into(), tail.into_iter().map(|s| V::S(s.into_bytes())).collect()),
        ],
    }
}
/// One column of a file with several: kind, units, last unit embedded.
pub struct Part<'k> {
    pub kind: &'k Kd,
    pub parts: Vec<usize>,
    pub emb: bool,
}
pub type Want = Vec<(String, String, Vec<V>)>;
/// A file of trees with columns n, c0, c1, ... (at most one class member in the file).
pub fn multi(trees: &[(&str, &[Part])], lens: &[usize], lay: &Layout) -> (Vec<u8>, Vec<Want>) {
    let mut f = WFile::new("f.root", lay.clone());
    let mut cls = vec![];
    let mut out = vec![];
    let mut wants = vec![];
    for (ti, (tree, cols)) in trees.iter().enumerate() {
        let (t, w) = one_tree(tree, cols, lens, ti, &mut cls);
        out.push(t);
        wants.push(w);
    }
    f.streamers(&cls);
    for t in out {
        f.tree(&t, 1, None);
    }
    (f.finish(), wants)
}
fn one_tree(tree: &str, cols: &[Part], lens: &[usize], ti: usize, cls: &mut Vec<WClass>) -> (WTree, Want) {
    let n: usize = cols[0].parts.iter().sum();
    let ls: Vec<usize> = (0..n).map(|i| lens[i % lens.len()]).collect();
    let count: Vec<Vec<u8>> = ls.iter().map(|l| (*l as i32).to_be_bytes().to_vec()).collect();
    let mut want = vec![("n".to_string(), "i32".to_string(), count.iter().cloned().map(V::P).collect::<Vec<_>>())];
    let mut branches = vec![WBranch::new("n", WKind::Base { leaf: "TLeafI", unsigned: false, esize: 4, len: 1, title: "n".into(), count: None }, count, false)];
    for (ci, p) in cols.iter().enumerate() {
        let vals: Vec<(Vec<u8>, V)> = ls.iter().enumerate().map(|(i, l)| (p.kind.gen)((i + 100 * ci + 1000 * ti) as u64, *l)).collect();
        let (mut kind, mut name) = (p.kind.kind.clone(), format!("c{ci}"));
        match &mut kind {
            WKind::Element { title, stype, .. } => {
                if p.kind.elem.is_some() {
                    name = if (21..40).contains(stype) { title.clone() } else { "x".into() };
                } else {
                    *title = name.clone();
                }
            }
            WKind::Base { title, .. } => *title = title.replacen('x', &name, 1),
        }
        let mut x = WBranch::new(&name, kind, vals.iter().map(|v| v.0.clone()).collect(), p.kind.offsets);
        x.parts = p.parts.clone();
        x.embedded = p.emb;
        if let Some(e) = &p.kind.elem {
            assert!(cls.is_empty());
            let mut ev = WBranch::new("ev", WKind::Element { class_name: "Ev".into(), id: -2, stype: -1, title: "ev".into(), len: 1, count: None, clsver: 1 }, vec![], false);
            ev.children = vec![x];
            branches.push(ev);
            cls.push(WClass { name: "Ev".into(), vers: 1, elems: vec![e.clone()] });
        } else {
            branches.push(x);
        }
        want.push((name, p.kind.rust.clone(), vals.into_iter().map(|v| v.1).collect()));
    }
    (WTree { name: tree.into(), title: "a tree".into(), entries: n as i64, branches }, want)
}
/// The strict parser decodes the generated file to what was put in (binds the generator to it).
fn cross(b: &Built) -> Result<(), String> {
    use crate::rootr::File;
    let f = File::parse(&b.bytes)?;
    f.records()?;
    let t = f.tree(&f.keys[0])?;
    let br = File::find(&t.branches, &b.want[1].0).ok_or("column missing")?;
    if f.raw_entries(br)? != b.raw {
        return Err("entries differ".into());
    }
    Ok(())
}
pub fn verify(c: &Case, b: &Built) -> Result<(), String> {
    verify_at(&c.path("f.root"), b, false)
}
/// `away`: units are in another file, already there.
fn verify_at(p: &std::path::Path, b: &Built, away: bool) -> Result<(), String> {
    match &b.other {
        None if away => {}
        None => cross(b).map_err(|e| format!("MACHINERY: generated file is not well-formed: {e}"))?,
        Some((n, o)) => {
            let q = p.with_file_name(n);
            std::fs::create_dir_all(q.parent().unwrap()).map_err(|e| e.to_string())?;
            std::fs::write(q, o).map_err(|e| e.to_string())?;
        }
    }
    std::fs::write(p, &b.bytes).map_err(|e| e.to_string())?;
    let r = guard(|| -> Result<(), String> {
        let mut f = RootFile::open(p).map_err(|e| format!("open: {e:?}"))?;
        let t = f.get_tree("tree").map_err(|e| format!("get_tree: {e:?}"))?;
        let n = b.want[0].2.len() as i64;
        if t.entries() != n {
            return Err(format!("the tree reports {} entries instead of {n}", t.entries()));
        }
        for (name, rust, want) in &b.want {
            let br = t.branch(name).ok_or(format!("column {name} not found"))?;
            let i = br.interpretation();
            if &i != rust {
                return Err(format!("column {name} is reported as {i} instead of {rust}"));
            }
            if br.entries() != n {
                return Err(format!("column {name} reports {} entries instead of {n}", br.entries()));
            }
            let it = suggested(br, true).ok_or(format!("no reader for {i}"))??;
            let mut got = vec![];
            for x in it {
                got.push(x);
                if got.len() > want.len() + 5 {
                    break;
                }
            }
            if &got != want {
                let k = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                return Err(format!("column {name} ({rust}): {} values instead of {}, first difference at {k}: {:?} instead of {:?}", got.len(), want.len(), got.get(k), want.get(k)));
            }
        }
        Ok(())
    });
    match r {
        Ok(r) => r,
        Err(e) => Err(format!("panic: {e}")),
    }
}
/// Every way to split n entries into units.
pub fn compositions(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    (0..1u32 << (n - 1))
        .map(|m| {
            let mut v = vec![1];
            for i in 0..n - 1 {
                if m >> i & 1 == 1 {
                    v.push(1)
                } else {
                    *v.last_mut().unwrap() += 1
                }
            }
            v
        })
        .collect()
}
pub fn run(cx: &mut Ctx) {
    let ks = kinds();
    let tier = cx.tier;
    let nmax = tier.pick(4, 6);
    // 1. every split of up to nmax entries, last unit on disk or in the tree record
    for k in &ks {
        for (ln, lens) in LENS {
            if ln != "mixed" && !k.offsets {
                continue;
            }
            for emb in [false, true] {
                for codec in [Codec::None, Codec::Zlib] {
                    cx.case(
                        || format!("split: {} lengths {ln} embedded {emb} codec {codec:?}", k.label),
                        |c| {
                            for n in 0..=nmax {
                                for parts in compositions(n) {
                                    if emb && parts.is_empty() {
                                        continue;
                                    }
                                    c.state((&k.label, ln, emb, format!("{codec:?}"), n, &parts));
                                    let b = build(k, &parts, lens, emb, &Layout { codec, ..Default::default() });
                                    c.steps(3);
                                    verify(c, &b).map_err(|e| format!("{n} entries in units {parts:?}: {e}"))?;
                                }
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
    // 2. every file layout on a few splits
    let splits: &[&[usize]] = tier.pick(&[&[3, 2]], &[&[5], &[3, 2], &[1, 4], &[2, 2, 1]]);
    let blocks: &[&[usize]] = tier.pick(&[&[1 << 20], &[7], &[1, 5, 30]], &[&[1 << 20], &[1], &[7], &[1, 5, 30], &[13, 1]]);
    for k in &ks {
        for codec in CODECS {
            cx.case(
                || format!("layout: {} codec {codec:?}", k.label),
                |c| {
                    for vers in [8, 10, 11, 12, 13] {
                        for big in [false, true] {
                            for (bi, bl) in blocks.iter().enumerate() {
                                for zip_tree in [false, true] {
                                    if codec == Codec::None && (bi > 0 || zip_tree) {
                                        continue;
                                    }
                                    // byte-sized blocks of the tree record only with the cheap codec
                                    if zip_tree && bl[0] < 5 && (codec != Codec::Zlib || tier.quick()) {
                                        continue;
                                    }
                                    if tier.quick() && codec == Codec::Lzma && (bi > 1 || vers != 13 || zip_tree) {
                                        continue;
                                    }
                                    for parts in splits {
                                        for emb in [false, true] {
                                            if tier.quick() && emb != (vers % 2 == 0) {
                                                continue;
                                            }
                                            let lay = Layout { codec, blocks: bl.to_vec(), vers, big, zip_tree };
                                            c.state((&k.label, format!("{codec:?}"), vers, big, bi, zip_tree, parts, emb));
                                            let b = build(k, parts, LENS[0].1, emb, &lay);
                                            c.steps(3);
                                            verify(c, &b).map_err(|e| format!("{lay:?} units {parts:?} embedded {emb}: {e}"))?;
                                        }
                                    }
                                }
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // 3. units in another file than the tree, whose name is relative to that of the tree's file
    for k in &ks {
        cx.case(
            || format!("another file: {}", k.label),
            |c| {
                for name in ["other.root", "sub/o.root", "./o.dat", "../away.root"] {
                    for emb in [false, true] {
                        for parts in [&[2usize, 3][..], &[1], &[1, 1, 1]] {
                            for (codec, big, vers) in [(Codec::None, false, 13), (Codec::Zlib, true, 13), (Codec::None, false, 10), (Codec::Lz4, false, 8)] {
                                c.state((&k.label, name, emb, parts, vers));
                                let lay = Layout { codec, big, vers, ..Default::default() };
                                let mut b = build2(k, parts, LENS[0].1, emb, &lay, name);
                                // kept apart from other workers' files
                                if name.starts_with("..") {
                                    let d = c.path("d");
                                    std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
                                    std::fs::write(c.path("away.root"), &b.other.take().unwrap().1).map_err(|e| e.to_string())?;
                                    verify_at(&d.join("f.root"), &b, true)
                                } else {
                                    verify(c, &b)
                                }
                                .map_err(|e| format!("units {parts:?} in {name:?}, embedded {emb}, {lay:?}: {e}"))?;
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // 4. many units: the tables grow beyond their initial ten slots
    for k in ks.iter().filter(|k| k.label.contains("i32") || k.label.contains("string")) {
        cx.case(
            || format!("many units: {}", k.label),
            |c| {
                for n in [9, 10, 11, 12, 25, tier.pick(60, 300)] {
                    for per in [1usize, 3] {
                        for emb in [false, true] {
                            let parts = vec![per; n];
                            c.state((&k.label, n, per, emb));
                            let b = build(k, &parts, LENS[0].1, emb, &Layout::default());
                            verify(c, &b).map_err(|e| format!("{n} units of {per}, embedded {emb}: {e}"))?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // 5. large units: the lengths of blocks around 64 kB and the most a block can hold
    let near = |at: usize, per: usize, d: usize| (at / per - d..=at / per + d).collect::<Vec<_>>();
    for label in ["leaf i64", "leaf i64[n]", "leaf string"] {
        for codec in CODECS {
            let per = if label == "leaf string" { 20 } else { 8 };
            cx.case(
                || format!("large units: {label} {codec:?}"),
                |c| {
                    let mut go = |n: usize, l: usize, rnd: usize, blocks: &[usize], emb: bool| -> Result<(), String> {
                        c.state((label, format!("{codec:?}"), n, l, rnd, blocks, emb));
                        let lay = Layout { codec, blocks: blocks.to_vec(), ..Default::default() };
                        let b = build(&noisy(label, rnd), &[n], &[l], emb, &lay);
                        c.steps(3);
                        verify(c, &b).map_err(|e| format!("{n} entries of length {l}, the first {rnd} elements random, blocks {blocks:?}, embedded {emb}: {e}"))
                    };
                    let shape = |k: usize| if label == "leaf i64[n]" { (4, k.div_ceil(4)) } else { (k, 19) };
                    // what the block holds
                    for k in near(1 << 16, per, tier.pick(2, 8)) {
                        for rnd in [0, k / 2, k] {
                            for emb in [false, true] {
                                let (n, l) = shape(k);
                                go(n, l, rnd, &[], emb)?;
                            }
                        }
                    }
                    if codec == Codec::None {
                        return Ok(());
                    }
                    // what the block takes when compressed, and where blocks are cut
                    let most = (1 << 16) * if label == "leaf string" { 5 } else { 4 } / 4;
                    let first = (most - tier.pick(300, 600)) / per;
                    for rnd in (first..first + tier.pick(400, 900) / per).step_by(tier.pick(3, 1)) {
                        let (n, l) = shape(2 * rnd);
                        go(n, l, rnd, &[], false)?;
                    }
                    for bl in [&[65535usize][..], &[65536], &[65537], &[70000, 10], &[300, 90000]] {
                        for k in [9000, 16384, 25000] {
                            let (n, l) = shape(k);
                            go(n, l, k, bl, false)?;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    for codec in CODECS {
        for (l, rnd) in tier.pick(vec![(520_000, 300_000)], vec![(520_000, 300_000), (524_287, 1), (524_288, 2_000_000), (1_100_000, 700_000)]) {
            if tier.quick() && codec == Codec::Lzma {
                continue;
            }
            cx.case(
                || format!("units of {} MB: {codec:?}", l * 4 * 8 / 1_000_000),
                |c| {
                    c.state((format!("{codec:?}"), l, rnd));
                    c.steps(3);
                    // blocks as ROOT makes them, if they do not grow beyond what their length can say
                    let b = build(&noisy("leaf i64[n]", rnd), &[4], &[l], false, &Layout { codec, blocks: vec![0xff_ffff], ..Default::default() });
                    verify(c, &b)
                },
            );
        }
    }
}
/// Kind whose first `rnd` elements hardly compress and whose others are zero.
fn noisy(label: &str, rnd: usize) -> Kd {
    let mut k = kinds().into_iter().find(|k| k.label == label).unwrap();
    let word = move |i: u64| {
        if i >= rnd as u64 {
            return 0;
        }
        let x = (i + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        let x = (x ^ x >> 30).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        (x ^ x >> 27).wrapping_mul(0x94D0_49BB_1331_11EB)
    };
    k.gen = match label {
        "leaf i64" => Box::new(move |i, _| {
            let b = word(i).to_be_bytes().to_vec();
            (b.clone(), V::P(b))
        }),
        "leaf i64[n]" => Box::new(move |i, l| {
            let v: Vec<Vec<u8>> = (0..l as u64).map(|e| word(i * l as u64 + e).to_be_bytes().to_vec()).collect();
            (v.concat(), V::L(v.into_iter().map(V::P).collect()))
        }),
        _ => Box::new(move |i, l| {
            let s: String = (0..l as u64).map(|e| (b'0' + (word(i).wrapping_mul(2 * e + 1) >> 58) as u8) as char).collect();
            (sbytes(&s), V::S(s.into_bytes()))
        }),
    };
    k
}
