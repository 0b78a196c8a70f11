//! Independent writer of the ROOT file format (from the format description, shares no code with
//! the library): files laid out in ways the library's own writer never produces.
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Codec {
    None,
    Zlib,
    Lzma,
    Lz4,
}
pub const CODECS: [Codec; 4] = [Codec::None, Codec::Zlib, Codec::Lzma, Codec::Lz4];

fn xxh64(b: &[u8]) -> u64 {
    const P1: u64 = 0x9E3779B185EBCA87;
    const P2: u64 = 0xC2B2AE3D27D4EB4F;
    const P3: u64 = 0x165667B19E3779F9;
    const P4: u64 = 0x85EBCA77C2B2AE63;
    const P5: u64 = 0x27D4EB2F165667C5;
    let r64 = |p: usize| u64::from_le_bytes(b[p..p + 8].try_into().unwrap());
    let round = |a: u64, v: u64| a.wrapping_add(v.wrapping_mul(P2)).rotate_left(31).wrapping_mul(P1);
    let n = b.len();
    let mut p = 0;
    let mut h;
    if n >= 32 {
        let mut v = [P1.wrapping_add(P2), P2, 0, 0u64.wrapping_sub(P1)];
        while p + 32 <= n {
            for (i, x) in v.iter_mut().enumerate() {
                *x = round(*x, r64(p + 8 * i));
            }
            p += 32;
        }
        h = v[0].rotate_left(1).wrapping_add(v[1].rotate_left(7)).wrapping_add(v[2].rotate_left(12)).wrapping_add(v[3].rotate_left(18));
        for x in v {
            h = (h ^ round(0, x)).wrapping_mul(P1).wrapping_add(P4);
        }
    } else {
        h = P5;
    }
    h = h.wrapping_add(n as u64);
    while p + 8 <= n {
        h = (h ^ round(0, r64(p))).rotate_left(27).wrapping_mul(P1).wrapping_add(P4);
        p += 8;
    }
    if p + 4 <= n {
        h = (h ^ (u32::from_le_bytes(b[p..p + 4].try_into().unwrap()) as u64).wrapping_mul(P1)).rotate_left(23).wrapping_mul(P2).wrapping_add(P3);
        p += 4;
    }
    while p < n {
        h = (h ^ (b[p] as u64).wrapping_mul(P5)).rotate_left(11).wrapping_mul(P1);
        p += 1;
    }
    h ^= h >> 33;
    h = h.wrapping_mul(P2);
    h ^= h >> 29;
    h = h.wrapping_mul(P3);
    h ^ (h >> 32)
}
/// Compress a payload in blocks of the given sizes (the last size repeats). Falls back to the raw
/// bytes when the result could not be told from them.
pub fn zip(src: &[u8], codec: Codec, blocks: &[usize]) -> Vec<u8> {
    use std::io::Write;
    if codec == Codec::None || src.is_empty() {
        return src.to_vec();
    }
    let mut out = vec![];
    let mut p = 0;
    let mut i = 0;
    while p < src.len() {
        let want = blocks.get(i).or(blocks.last()).copied().unwrap_or(0xff_ffff).clamp(1, 0xff_ffff);
        i += 1;
        let n = want.min(src.len() - p);
        let b = &src[p..p + n];
        p += n;
        let (tag, body): (&[u8; 3], Vec<u8>) = match codec {
            Codec::None => unreachable!(),
            Codec::Zlib => {
                let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::default());
                e.write_all(b).unwrap();
                (b"ZL\x08", e.finish().unwrap())
            }
            Codec::Lzma => {
                let mut e = xz2::write::XzEncoder::new(vec![], 1);
                e.write_all(b).unwrap();
                (b"XZ\x00", e.finish().unwrap())
            }
            Codec::Lz4 => {
                let c = lz4::block::compress(b, None, false).unwrap();
                let mut v = xxh64(&c).to_be_bytes().to_vec();
                v.extend(c);
                (b"L4\x01", v)
            }
        };
        out.extend_from_slice(tag);
        out.extend_from_slice(&(body.len() as u32).to_le_bytes()[..3]);
        out.extend_from_slice(&(n as u32).to_le_bytes()[..3]);
        out.extend(body);
    }
    if out.len() == src.len() {
        return src.to_vec();
    }
    out
}

/// Big-endian buffer with ROOT's object and class reference tables.
pub struct W {
    pub v: Vec<u8>,
    base: usize,
    classes: HashMap<String, u32>,
    objs: HashMap<String, u32>,
}
macro_rules! wr {
    ($($t:ident),*) => { $(pub fn $t(&mut self, x: $t) { self.v.extend_from_slice(&x.to_be_bytes()) })* };
}
impl W {
    pub fn new(base: usize) -> W {
        W { v: vec![], base, classes: HashMap::new(), objs: HashMap::new() }
    }
    wr!(u8, i8, u16, i16, u32, i32, u64, i64, f32, f64);
    pub fn str(&mut self, s: &[u8]) {
        if s.len() < 255 {
            self.u8(s.len() as u8);
        } else {
            self.u8(255);
            self.u32(s.len() as u32);
        }
        self.v.extend_from_slice(s);
    }
    /// byte count, version, content
    pub fn ver(&mut self, vers: i16, f: impl FnOnce(&mut W)) {
        let at = self.v.len();
        self.u32(0);
        self.i16(vers);
        f(self);
        let n = (self.v.len() - at - 4) as u32 | 0x4000_0000;
        self.v[at..at + 4].copy_from_slice(&n.to_be_bytes());
    }
    pub fn nil(&mut self) {
        self.u32(0);
    }
    /// An object with its class tag; `id` names it for later references.
    pub fn any(&mut self, class: &str, id: Option<&str>, f: impl FnOnce(&mut W)) {
        if let Some(id) = id {
            if let Some(t) = self.objs.get(id) {
                let t = *t;
                self.u32(t);
                return;
            }
        }
        let at = self.v.len();
        self.u32(0);
        match self.classes.get(class) {
            Some(t) => {
                let t = *t | 0x8000_0000;
                self.u32(t);
            }
            None => {
                let here = (self.v.len() + self.base + 2) as u32;
                self.u32(0xffff_ffff);
                self.v.extend_from_slice(class.as_bytes());
                self.u8(0);
                self.classes.insert(class.into(), here);
            }
        }
        if let Some(id) = id {
            self.objs.insert(id.into(), (at + self.base + 2) as u32);
        }
        f(self);
        let n = (self.v.len() - at - 4) as u32 | 0x4000_0000;
        self.v[at..at + 4].copy_from_slice(&n.to_be_bytes());
    }
    pub fn tobject(&mut self, bits: u32) {
        self.i16(1);
        self.u32(0);
        self.u32(bits | 0x0300_0000);
    }
    pub fn named(&mut self, n: &str, t: &str) {
        self.ver(1, |w| {
            w.tobject(0);
            w.str(n.as_bytes());
            w.str(t.as_bytes());
        })
    }
    pub fn objarray(&mut self, n: i32, f: impl FnOnce(&mut W)) {
        self.ver(3, |w| {
            w.tobject(0);
            w.str(b"");
            w.i32(n);
            w.i32(0);
            f(w)
        })
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    /// leaf class, unsigned flag, element size, number of elements, title, name of the count leaf
    Base { leaf: &'static str, unsigned: bool, esize: i32, len: i32, title: String, count: Option<String> },
    Element { class_name: String, id: i32, stype: i32, title: String, len: i32, count: Option<String>, clsver: i16 },
}
#[derive(Clone, Debug)]
pub struct WBranch {
    pub name: String,
    pub kind: Kind,
    /// stored bytes of each entry
    pub entries: Vec<Vec<u8>>,
    /// entries carry an offset table
    pub offsets: bool,
    /// number of entries of each unit
    pub parts: Vec<usize>,
    /// the last unit is inside the tree record
    pub embedded: bool,
    /// name of the file that holds the units, where it is not that of the tree
    pub file: String,
    pub children: Vec<WBranch>,
}
impl WBranch {
    pub fn new(name: &str, kind: Kind, entries: Vec<Vec<u8>>, offsets: bool) -> WBranch {
        let n = entries.len();
        WBranch { name: name.into(), kind, entries, offsets, parts: if n == 0 { vec![] } else { vec![n] }, embedded: false, file: String::new(), children: vec![] }
    }
}
#[derive(Clone, Debug)]
pub struct Layout {
    pub codec: Codec,
    pub blocks: Vec<usize>,
    /// class version of TBranch: 8, 10, 11, 12 or 13 (TBranchElement and TTree follow)
    pub vers: i16,
    /// keys with 64-bit pointers
    pub big: bool,
    /// compress the tree record too
    pub zip_tree: bool,
}
impl Default for Layout {
    fn default() -> Self {
        Layout { codec: Codec::None, blocks: vec![], vers: 13, big: false, zip_tree: false }
    }
}
#[derive(Clone, Debug)]
pub struct WTree {
    pub name: String,
    pub title: String,
    pub entries: i64,
    pub branches: Vec<WBranch>,
}
/// class name, version, elements: (streamer class, name, etype, size, array length, type name, stl type, content type, count name)
#[derive(Clone, Debug)]
pub struct WClass {
    pub name: String,
    pub vers: i32,
    pub elems: Vec<WElem>,
}
#[derive(Clone, Debug, Default)]
pub struct WElem {
    pub class: &'static str,
    pub name: String,
    pub title: String,
    pub etype: i32,
    pub size: i32,
    pub dims: Vec<i32>,
    pub tname: String,
    pub stl: i32,
    pub ctype: i32,
    pub count: String,
}

pub struct WFile {
    pub b: Vec<u8>,
    lay: Layout,
    keys: Vec<Vec<u8>>,
    name: String,
    seek_info: (i64, i32),
    /// files that hold units of columns of this one, by name
    pub others: Vec<(String, WFile)>,
}
fn key_bytes(big: bool, n_bytes: i32, obj_len: i32, key_len: usize, cycle: i16, seek: i64, pdir: i64, class: &str, name: &str, title: &str) -> Vec<u8> {
    let mut w = W::new(0);
    w.i32(n_bytes);
    w.i16(if big { 1004 } else { 4 });
    w.i32(obj_len);
    w.u32(1_600_000_000);
    w.i16(key_len as i16);
    w.i16(cycle);
    if big {
        w.i64(seek);
        w.i64(pdir);
    } else {
        w.i32(seek as i32);
        w.i32(pdir as i32);
    }
    w.str(class.as_bytes());
    w.str(name.as_bytes());
    w.str(title.as_bytes());
    w.v
}
fn klen(big: bool, class: &str, name: &str, title: &str) -> usize {
    key_bytes(big, 0, 0, 0, 0, 0, 0, class, name, title).len()
}
struct Placed {
    bytes: Vec<i32>,
    seeks: Vec<i64>,
    firsts: Vec<i64>,
    emb: Option<(usize, usize)>,
}
impl WFile {
    pub fn new(name: &str, lay: Layout) -> WFile {
        let mut f = WFile { b: vec![0; 100], lay, keys: vec![], name: name.into(), seek_info: (0, 0), others: vec![] };
        let kl = klen(false, "TFile", name, "");
        let nm = 1 + name.len() + 1;
        let body = nm + 2 + 8 + 8 + 12 + 18 + 12;
        f.b.extend(key_bytes(false, (kl + body) as i32, body as i32, kl, 1, 100, 0, "TFile", name, ""));
        let mut w = W::new(0);
        w.str(name.as_bytes());
        w.str(b"");
        f.b.extend(w.v);
        f.b.extend(vec![0; body - nm]);
        f
    }
    /// One record; returns (position, total length).
    pub fn record(&mut self, class: &str, name: &str, title: &str, cycle: i16, data: &[u8], codec: Codec, blocks: &[usize], list: bool) -> (i64, i32) {
        let big = self.lay.big;
        let kl = klen(big, class, name, title);
        let z = zip(data, codec, blocks);
        let at = self.b.len() as i64;
        let k = key_bytes(big, (kl + z.len()) as i32, data.len() as i32, kl, cycle, at, 100, class, name, title);
        if list {
            self.keys.push(k.clone());
        }
        self.b.extend(k);
        self.b.extend(&z);
        (at, (kl + z.len()) as i32)
    }
    fn unit(&mut self, b: &WBranch, tree: &str, first: usize, n: usize, cycle: i16) -> (i64, i32) {
        let big = self.lay.big;
        let kl = klen(big, "TBasket", &b.name, tree) + 19;
        let mut data = vec![];
        let mut offs = vec![];
        for e in &b.entries[first..first + n] {
            offs.push((kl + data.len()) as i32);
            data.extend_from_slice(e);
        }
        let last = kl + data.len();
        let mut w = W::new(0);
        w.v = data;
        if b.offsets {
            w.i32(n as i32 + 1);
            for o in &offs {
                w.i32(*o);
            }
            w.i32(0);
        }
        let data = w.v;
        let z = zip(&data, self.lay.codec, &self.lay.blocks.clone());
        let at = self.b.len() as i64;
        let nb = (kl + z.len()) as i32;
        let mut k = W::new(0);
        k.v = key_bytes(big, nb, data.len() as i32, kl, cycle, at, 100, "TBasket", &b.name, tree);
        k.i16(3);
        k.i32(32000.max(last as i32));
        k.i32(if b.offsets { 1000.max(n as i32 + 1) } else { b.entries.first().map(|e| e.len()).unwrap_or(0) as i32 });
        k.i32(n as i32);
        k.i32(last as i32);
        k.u8(0);
        assert_eq!(k.v.len(), kl);
        self.b.extend(k.v);
        self.b.extend(z);
        (at, nb)
    }
    fn place(&mut self, b: &WBranch, tree: &str) -> Placed {
        let mut p = Placed { bytes: vec![], seeks: vec![], firsts: vec![], emb: None };
        let mut first = 0;
        for (i, n) in b.parts.iter().enumerate() {
            p.firsts.push(first as i64);
            if b.embedded && i + 1 == b.parts.len() {
                p.emb = Some((first, *n));
            } else {
                let f = match self.others.iter().position(|o| o.0 == b.file) {
                    Some(o) => &mut self.others[o].1,
                    None if b.file.is_empty() => &mut *self,
                    None => panic!("no file {:?}", b.file),
                };
                let (s, l) = f.unit(b, tree, first, *n, i as i16);
                p.seeks.push(s);
                p.bytes.push(l);
            }
            first += n;
        }
        assert_eq!(first, b.entries.len());
        if p.emb.is_none() {
            p.firsts.push(first as i64);
        }
        p
    }
    fn leaf(w: &mut W, b: &WBranch, branch_path: &str, inner: bool) {
        let _ = inner;
        let id = format!("leaf:{branch_path}");
        let tleaf = |w: &mut W, title: &str, len: i32, esize: i32, unsigned: bool, count: &Option<String>, range: bool| {
            w.ver(2, |w| {
                w.named(b.name.split('[').next().unwrap(), title);
                w.i32(len);
                w.i32(esize);
                w.i32(0);
                w.u8(range as u8);
                w.u8(unsigned as u8);
                match count {
                    None => w.nil(),
                    Some(c) => {
                        // the count leaf was written with its own branch
                        let t = *w.objs.get(&format!("leaf:{c}")).expect("count leaf not written yet");
                        w.u32(t);
                    }
                }
            })
        };
        match &b.kind {
            Kind::Base { leaf, unsigned, esize, len, title, count } => w.any(leaf, Some(&id), |w| {
                w.ver(1, |w| {
                    tleaf(w, title, *len, *esize, *unsigned, count, false);
                    let n = match *leaf {
                        "TLeafI" | "TLeafC" | "TLeafF" => 8,
                        "TLeafS" => 4,
                        "TLeafB" | "TLeafO" => 2,
                        _ => 16,
                    };
                    w.v.extend(vec![0; n]);
                })
            }),
            Kind::Element { id: eid, stype, title, len, count, .. } => w.any("TLeafElement", Some(&id), |w| {
                w.ver(1, |w| {
                    tleaf(w, title, *len, if *stype < 0 { 0 } else { 4 }, false, count, *stype == 6);
                    w.i32(*eid);
                    w.i32(*stype);
                })
            }),
        }
    }
    fn branch(&mut self, w: &mut W, b: &WBranch, tree: &str, parent: &str, depth: usize) {
        let pl = self.place(b, tree);
        let vers = self.lay.vers;
        let big = self.lay.big;
        let fix = b.entries.first().map(|e| e.len()).unwrap_or(0) as i32;
        let title = match &b.kind {
            Kind::Base { title, .. } | Kind::Element { title, .. } => title.clone(),
        };
        let path = b.name.clone();
        let mut base = |f: &mut WFile, w: &mut W| {
            w.ver(vers, |w| {
                w.named(&b.name, &title);
                w.ver(2, |w| {
                    w.i16(0);
                    w.i16(1001);
                });
                let wb = pl.seeks.len() as i32;
                let max = (pl.seeks.len() + 1).max(10) as i32;
                w.i32(match f.lay.codec {
                    Codec::None => 0,
                    Codec::Zlib => 101,
                    Codec::Lzma => 201,
                    Codec::Lz4 => 404,
                });
                w.i32(32000);
                w.i32(if b.offsets { 1000 } else { 0 });
                w.i32(wb);
                let n = b.entries.len() as i64;
                let tot: i64 = b.entries.iter().map(|e| e.len() as i64).sum();
                if vers >= 10 {
                    w.i64(n);
                    if vers >= 13 {
                        w.ver(1, |w| w.u8(0));
                    }
                    w.i32(0);
                    w.i32(max);
                    w.i32(if b.children.is_empty() { 0 } else { 99 });
                    w.i64(n);
                    if vers >= 11 {
                        w.i64(0);
                    }
                    w.i64(tot);
                    w.i64(tot);
                } else {
                    w.i32(n as i32);
                    w.i32(0);
                    w.i32(max);
                    w.i32(0);
                    w.f64(n as f64);
                    w.f64(tot as f64);
                    w.f64(tot as f64);
                }
                w.objarray(b.children.len() as i32, |w| {
                    for c in &b.children {
                        f.branch(w, c, tree, &path, depth + 1);
                    }
                });
                w.objarray(1, |w| Self::leaf(w, b, &path, depth > 0));
                match pl.emb {
                    None => w.objarray(0, |_| ()),
                    Some((first, n)) => w.objarray(wb + 1, |w| {
                        for _ in 0..wb {
                            w.nil();
                        }
                        w.any("TBasket", None, |w| {
                            let kl = klen(big, "TBasket", &b.name, tree) + 19;
                            let mut data = vec![0u8; kl];
                            let mut offs = vec![];
                            for e in &b.entries[first..first + n] {
                                offs.push(data.len() as i32);
                                data.extend_from_slice(e);
                            }
                            let k = key_bytes(big, kl as i32, 0, kl, wb as i16, 0, 100, "TBasket", &b.name, tree);
                            data[..k.len()].copy_from_slice(&k);
                            w.v.extend(&k);
                            w.i16(3);
                            w.i32(32000.max(data.len() as i32));
                            w.i32(if b.offsets { 1000.max(n as i32 + 1) } else { fix });
                            w.i32(n as i32);
                            w.i32(data.len() as i32);
                            if b.offsets && n > 0 {
                                w.u8(11);
                                w.i32(n as i32);
                                for o in offs {
                                    w.i32(o);
                                }
                            } else {
                                w.u8(12);
                            }
                            w.v.extend(data);
                        });
                    }),
                }
                let pad = |k: usize| max as usize - k;
                w.u8(1);
                for x in &pl.bytes {
                    w.i32(*x);
                }
                w.v.extend(vec![0; 4 * pad(pl.bytes.len())]);
                w.u8(1);
                for x in &pl.firsts {
                    if vers >= 10 {
                        w.i64(*x)
                    } else {
                        w.i32(*x as i32)
                    }
                }
                w.v.extend(vec![0; if vers >= 10 { 8 } else { 4 } * pad(pl.firsts.len())]);
                // version < 10: 1 = 32-bit, 2 = 64-bit positions
                let wide = vers >= 10 || big;
                w.u8(if vers >= 10 { 1 } else if wide { 2 } else { 1 });
                for x in &pl.seeks {
                    if wide {
                        w.i64(*x)
                    } else {
                        w.i32(*x as i32)
                    }
                }
                w.v.extend(vec![0; if wide { 8 } else { 4 } * pad(pl.seeks.len())]);
                w.str(b.file.as_bytes());
            })
        };
        let id = format!("branch:{path}");
        match &b.kind {
            Kind::Base { .. } => w.any("TBranch", Some(&id), |w| base(self, w)),
            Kind::Element { class_name, id: eid, stype, clsver, .. } => w.any("TBranchElement", Some(&id), |w| {
                w.ver(if vers >= 12 { 10 } else { 9 }, |w| {
                    base(self, w);
                    w.str(class_name.as_bytes());
                    w.str(if depth > 0 { class_name.as_bytes() } else { b"" });
                    w.str(b"");
                    w.u32(0x1234_5678);
                    if vers >= 12 {
                        w.i16(*clsver);
                    } else {
                        w.i32(*clsver as i32);
                    }
                    w.i32(*eid);
                    w.i32(0);
                    w.i32(*stype);
                    w.i32(0);
                    w.nil();
                    w.nil();
                })
            }),
        }
        let _ = parent;
    }
    pub fn tree(&mut self, t: &WTree, cycle: i16, user: Option<&dyn Fn(&mut W)>) {
        let big = self.lay.big;
        let base = klen(big, "TTree", &t.name, &t.title);
        let mut w = W::new(base);
        let tv: i16 = match self.lay.vers {
            13 => 20,
            12 => 19,
            11 => 18,
            10 => 16,
            _ => 5,
        };
        let mut leaves: Vec<(String, WBranch)> = vec![];
        fn collect(b: &WBranch, v: &mut Vec<(String, WBranch)>) {
            v.push((b.name.clone(), b.clone()));
            for c in &b.children {
                collect(c, v);
            }
        }
        for b in &t.branches {
            collect(b, &mut leaves);
        }
        w.ver(tv, |w| {
            w.named(&t.name, &t.title);
            w.ver(2, |w| w.v.extend([2, 90, 0, 1, 0, 1])); // line
            w.ver(2, |w| w.v.extend([0, 1, 3, 233])); // fill
            w.ver(2, |w| w.v.extend([0, 1, 0, 1, 63, 128, 0, 0])); // marker
            if tv > 5 {
                w.i64(t.entries);
                w.i64(0);
                w.i64(0);
                w.i64(0);
                if tv >= 18 {
                    w.i64(0);
                }
            } else {
                w.f64(t.entries as f64);
                w.f64(0.);
                w.f64(0.);
                w.f64(0.);
            }
            if tv >= 16 {
                w.f64(1.);
            }
            w.i32(0);
            w.i32(25);
            w.i32(0);
            if tv >= 17 {
                w.i32(1000);
            }
            if tv >= 19 {
                w.i32(2);
            }
            if tv > 5 {
                w.i64(1_000_000_000_000);
                w.i64(1_000_000_000);
                w.i64(0);
                w.i64(-300_000_000);
                if tv >= 18 {
                    w.i64(-30_000_000);
                }
                w.i64(1_000_000);
            } else {
                for x in [1_000_000_000, 0, 100_000_000, 1_000_000] {
                    w.i32(x);
                }
            }
            if tv >= 19 {
                for _ in 0..2 {
                    w.u8(1);
                    w.i64(1);
                    w.i64(2);
                }
            }
            if tv >= 20 {
                w.ver(1, |w| w.u8(0));
            }
            w.objarray(t.branches.len() as i32, |w| {
                for b in &t.branches {
                    self.branch(w, b, &t.name, "", 0);
                }
            });
            w.objarray(leaves.len() as i32, |w| {
                for (p, b) in &leaves {
                    Self::leaf(w, b, p, false);
                }
            });
            if tv > 5 {
                w.nil(); // aliases
            }
            w.i32(0);
            w.i32(0);
            if tv > 5 {
                w.nil();
                w.nil();
                match user {
                    None => w.nil(),
                    Some(u) => w.any("TList", None, |w| u(w)),
                }
                w.nil();
            }
        });
        let codec = if self.lay.zip_tree { self.lay.codec } else { Codec::None };
        let blocks = self.lay.blocks.clone();
        let data = w.v;
        self.record("TTree", &t.name, &t.title, cycle, &data, codec, &blocks, true);
    }
    pub fn streamers(&mut self, cs: &[WClass]) {
        let base = klen(self.lay.big, "TList", "StreamerInfo", "Doubly linked list");
        let mut w = W::new(base);
        w.ver(5, |w| {
            w.tobject(0);
            w.str(b"");
            w.i32(cs.len() as i32);
            for c in cs {
                w.any("TStreamerInfo", None, |w| {
                    w.ver(9, |w| {
                        w.named(&c.name, "");
                        w.u32(0x1234_5678);
                        w.i32(c.vers);
                        w.any("TObjArray", None, |w| {
                            w.objarray(c.elems.len() as i32, |w| {
                                for e in &c.elems {
                                    Self::selem(w, e, c.vers);
                                }
                            })
                        })
                    })
                });
                w.u8(0);
            }
        });
        let d = w.v;
        self.seek_info = self.record("TList", "StreamerInfo", "Doubly linked list", 1, &d, Codec::None, &[], false);
    }
    fn selem(w: &mut W, e: &WElem, cv: i32) {
        w.any(e.class, None, |w| {
            let sv = match e.class {
                "TStreamerSTL" | "TStreamerBase" => 3,
                _ => 2,
            };
            w.ver(sv, |w| {
                let el = |w: &mut W| {
                    w.ver(4, |w| {
                        w.named(&e.name, &e.title);
                        w.i32(e.etype);
                        w.i32(e.size);
                        w.i32(if e.dims.is_empty() { 0 } else { e.dims.iter().product() });
                        w.i32(e.dims.len() as i32);
                        for k in 0..5 {
                            w.i32(e.dims.get(k).copied().unwrap_or(0));
                        }
                        w.str(e.tname.as_bytes());
                    })
                };
                match e.class {
                    "TStreamerSTLstring" => w.ver(3, |w| {
                        el(w);
                        w.i32(e.stl);
                        w.i32(e.ctype);
                    }),
                    "TStreamerSTL" => {
                        el(w);
                        w.i32(e.stl);
                        w.i32(e.ctype);
                    }
                    "TStreamerBasicPointer" => {
                        el(w);
                        w.i32(cv);
                        w.str(e.count.as_bytes());
                        w.str(e.tname.as_bytes());
                    }
                    _ => el(w),
                }
            })
        })
    }
    /// An arbitrary object under a key.
    pub fn object(&mut self, class: &str, name: &str, title: &str, cycle: i16, f: &dyn Fn(&mut W)) {
        let mut w = W::new(klen(self.lay.big, class, name, title));
        f(&mut w);
        let (c, b) = (self.lay.codec, self.lay.blocks.clone());
        let d = w.v;
        self.record(class, name, title, cycle, &d, if self.lay.zip_tree { c } else { Codec::None }, &b, true);
    }
    pub fn finish(mut self) -> Vec<u8> {
        let big = self.lay.big;
        // key list
        let mut w = W::new(0);
        w.i32(self.keys.len() as i32);
        for k in &self.keys {
            w.v.extend(k);
        }
        let name = self.name.clone();
        let kd = w.v;
        let (seek_keys, n_keys) = self.record("TFile", &name, "", 1, &kd, Codec::None, &[], false);
        // free list: one segment behind the end
        let kl = klen(big, "TFile", &name, "");
        let end = self.b.len() + kl + 10;
        let mut w = W::new(0);
        w.i16(1);
        w.i32(end as i32);
        w.i32(2_000_000_000);
        let fd = w.v;
        let (seek_free, n_free) = self.record("TFile", &name, "", 1, &fd, Codec::None, &[], false);
        let end = self.b.len() as i64;
        let kl0 = klen(false, "TFile", &name, "");
        let nbn = kl0 + 2 + name.len();
        let mut w = W::new(0);
        w.v.extend(b"root");
        w.i32(62400);
        w.i32(100);
        w.i32(end as i32);
        w.i32(seek_free as i32);
        w.i32(n_free);
        w.i32(1);
        w.i32(nbn as i32);
        w.u8(4);
        w.i32(1);
        w.i32(self.seek_info.0 as i32);
        w.i32(self.seek_info.1);
        w.i16(1);
        w.v.extend([7; 16]);
        self.b[..w.v.len()].copy_from_slice(&w.v);
        let mut w = W::new(0);
        w.i16(5);
        w.u32(1_600_000_000);
        w.u32(1_600_000_000);
        w.i32(n_keys);
        w.i32(nbn as i32);
        w.i32(100);
        w.i32(0);
        w.i32(seek_keys as i32);
        w.i16(1);
        w.v.extend([7; 16]);
        let at = 100 + nbn;
        self.b[at..at + w.v.len()].copy_from_slice(&w.v);
        self.b
    }
}
