//! Independent decoder of the ROOT file format (written from the format description, shares no
//! code with the library). Strict: anything unexpected is an error.
use std::collections::{BTreeMap, HashMap};

pub type R<T> = Result<T, String>;

#[derive(Clone)]
pub struct Cur<'a> {
    pub b: &'a [u8],
    pub p: usize,
    /// number added to p to obtain the "buffer position" used by object references
    pub base: usize,
}
macro_rules! rd {
    ($n:ident, $t:ty) => {
        pub fn $n(&mut self) -> R<$t> {
            const S: usize = std::mem::size_of::<$t>();
            let s = self.take(S)?;
            Ok(<$t>::from_be_bytes(s.try_into().unwrap()))
        }
    };
}
impl<'a> Cur<'a> {
    pub fn new(b: &'a [u8], base: usize) -> Self {
        Cur { b, p: 0, base }
    }
    pub fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.p + n > self.b.len() {
            return Err(format!("decoder: {} bytes wanted at {} of {}", n, self.p, self.b.len()));
        }
        let s = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(s)
    }
    rd!(u8, u8);
    rd!(i8, i8);
    rd!(u16, u16);
    rd!(i16, i16);
    rd!(u32, u32);
    rd!(i32, i32);
    rd!(u64, u64);
    rd!(i64, i64);
    rd!(f32, f32);
    rd!(f64, f64);
    pub fn bytes_str(&mut self) -> R<Vec<u8>> {
        let n = self.u8()?;
        let n = if n == 255 { self.u32()? as usize } else { n as usize };
        Ok(self.take(n)?.to_vec())
    }
    pub fn str(&mut self) -> R<String> {
        String::from_utf8(self.bytes_str()?).map_err(|_| "decoder: not UTF-8".into())
    }
    pub fn cstr(&mut self) -> R<String> {
        let mut v = vec![];
        loop {
            let c = self.u8()?;
            if c == 0 {
                break;
            }
            v.push(c)
        }
        String::from_utf8(v).map_err(|_| "decoder: class name not UTF-8".into())
    }
    pub fn pos(&self) -> usize {
        self.p + self.base
    }
    pub fn left(&self) -> usize {
        self.b.len() - self.p
    }
    /// Byte count + version; returns (version, end position in self.b).
    pub fn header(&mut self) -> R<(i16, usize)> {
        let c = self.u32()?;
        if c & 0x4000_0000 == 0 {
            return Err(format!("decoder: no byte count at {}", self.p - 4));
        }
        let end = self.p + (c & 0x3fff_ffff) as usize;
        if end > self.b.len() {
            return Err(format!("decoder: byte count passes the end at {}", self.p - 4));
        }
        Ok((self.i16()?, end))
    }
    pub fn finish(&self, what: &str, end: usize) -> R<()> {
        if self.p != end {
            return Err(format!("decoder: {what}: byte count says {} but content ends at {}", end, self.p));
        }
        Ok(())
    }
}

#[derive(Clone, Debug, Default)]
pub struct Key {
    pub n_bytes: i32,
    pub vers: i16,
    pub obj_len: i32,
    pub datime: u32,
    pub key_len: i16,
    pub cycle: i16,
    pub seek_key: i64,
    pub seek_pdir: i64,
    pub class: String,
    pub name: String,
    pub title: String,
    /// bytes consumed by the standard key fields
    pub parsed: usize,
}
pub fn key(c: &mut Cur) -> R<Key> {
    let s = c.p;
    let mut k = Key { n_bytes: c.i32()?, ..Default::default() };
    if k.n_bytes < 0 {
        return Ok(k);
    }
    k.vers = c.i16()?;
    k.obj_len = c.i32()?;
    k.datime = c.u32()?;
    k.key_len = c.i16()?;
    k.cycle = c.i16()?;
    if k.vers > 1000 {
        k.seek_key = c.i64()?;
        k.seek_pdir = c.i64()?;
    } else {
        k.seek_key = c.i32()? as i64;
        k.seek_pdir = c.i32()? as i64;
    }
    k.class = c.str()?;
    k.name = c.str()?;
    k.title = c.str()?;
    k.parsed = c.p - s;
    Ok(k)
}

#[derive(Clone, Debug, Default)]
pub struct Header {
    pub version: i32,
    pub begin: i64,
    pub end: i64,
    pub seek_free: i64,
    pub n_bytes_free: i32,
    pub n_free: i32,
    pub n_bytes_name: i32,
    pub units: u8,
    pub compress: i32,
    pub seek_info: i64,
    pub n_bytes_info: i32,
    pub big: bool,
}
pub fn header(b: &[u8]) -> R<Header> {
    let mut c = Cur::new(b, 0);
    if c.take(4)? != b"root" {
        return Err("decoder: bad magic".into());
    }
    let v = c.i32()?;
    let big = v >= 1_000_000;
    let mut h = Header { version: v % 1_000_000, big, begin: c.i32()? as i64, ..Default::default() };
    let mut ptr = |c: &mut Cur| -> R<i64> { Ok(if big { c.i64()? } else { c.i32()? as i64 }) };
    h.end = ptr(&mut c)?;
    h.seek_free = ptr(&mut c)?;
    h.n_bytes_free = c.i32()?;
    h.n_free = c.i32()?;
    h.n_bytes_name = c.i32()?;
    h.units = c.u8()?;
    h.compress = c.i32()?;
    h.seek_info = ptr(&mut c)?;
    h.n_bytes_info = c.i32()?;
    Ok(h)
}

/// Decompress a payload of blocks into `n` bytes.
pub fn unzip(src: &[u8], n: usize) -> R<Vec<u8>> {
    use std::io::Read;
    let mut out = Vec::with_capacity(n);
    let mut p = 0;
    while out.len() < n {
        if p + 9 > src.len() {
            return Err("decoder: compressed block header missing".into());
        }
        let h = &src[p..p + 9];
        let cs = h[3] as usize | (h[4] as usize) << 8 | (h[5] as usize) << 16;
        let us = h[6] as usize | (h[7] as usize) << 8 | (h[8] as usize) << 16;
        p += 9;
        if p + cs > src.len() {
            return Err("decoder: compressed block exceeds the record".into());
        }
        let body = &src[p..p + cs];
        let mut v = vec![];
        match &h[..2] {
            b"ZL" => {
                flate2::read::ZlibDecoder::new(body).read_to_end(&mut v).map_err(|e| format!("decoder: zlib {e}"))?;
            }
            b"XZ" => {
                xz2::read::XzDecoder::new(body).read_to_end(&mut v).map_err(|e| format!("decoder: xz {e}"))?;
            }
            b"L4" => {
                v = lz4::block::decompress(&body[8..], Some(us as i32)).map_err(|e| format!("decoder: lz4 {e}"))?;
            }
            o => return Err(format!("decoder: unknown compression {o:?}")),
        }
        if v.len() != us {
            return Err(format!("decoder: block of {} bytes instead of {}", v.len(), us));
        }
        out.extend_from_slice(&v);
        p += cs;
    }
    if out.len() != n {
        return Err(format!("decoder: {} bytes decompressed instead of {n}", out.len()));
    }
    Ok(out)
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub at: usize,
    pub key: Key,
}

#[derive(Clone, Debug, Default)]
pub struct Dir {
    pub vers: i16,
    pub n_bytes_keys: i32,
    pub n_bytes_name: i32,
    pub seek_dir: i64,
    pub seek_parent: i64,
    pub seek_keys: i64,
}

pub struct File<'a> {
    pub b: &'a [u8],
    pub h: Header,
    pub dir: Dir,
    pub name: String,
    pub keys: Vec<Key>,
    pub free: Vec<(i64, i64)>,
    pub streamers: Vec<StreamerInfo>,
}

impl<'a> File<'a> {
    pub fn parse(b: &'a [u8]) -> R<File<'a>> {
        let h = header(b)?;
        let mut f = File { b, h, dir: Dir::default(), name: String::new(), keys: vec![], free: vec![], streamers: vec![] };
        let begin = f.h.begin as usize;
        let mut c = Cur::new(b.get(begin..).ok_or("decoder: begin outside file")?, 0);
        let k0 = key(&mut c)?;
        f.name = k0.name.clone();
        let mut c = Cur::new(b.get(begin + f.h.n_bytes_name as usize..).ok_or("decoder: nbytesname")?, 0);
        let mut d = Dir { vers: c.i16()?, ..Default::default() };
        let _ = (c.u32()?, c.u32()?);
        d.n_bytes_keys = c.i32()?;
        d.n_bytes_name = c.i32()?;
        if d.vers > 1000 {
            d.seek_dir = c.i64()?;
            d.seek_parent = c.i64()?;
            d.seek_keys = c.i64()?;
        } else {
            d.seek_dir = c.i32()? as i64;
            d.seek_parent = c.i32()? as i64;
            d.seek_keys = c.i32()? as i64;
        }
        f.dir = d;
        // key list
        if f.dir.seek_keys > 0 {
            let mut c = Cur::new(b.get(f.dir.seek_keys as usize..).ok_or("decoder: seek_keys outside file")?, 0);
            let hk = key(&mut c)?;
            c.p = hk.key_len as usize;
            let n = c.i32()?;
            for _ in 0..n {
                f.keys.push(key(&mut c)?);
            }
            // ROOT keeps eight spare bytes in the key list of a file past the 32-bit limit
            if c.p != hk.n_bytes as usize && !(b.len() as i64 > 2_000_000_000 && c.p + 8 == hk.n_bytes as usize) {
                return Err(format!("decoder: key list of {} bytes ends at {}", hk.n_bytes, c.p));
            }
        }
        if f.h.seek_info > 0 {
            let (k, data) = f.record(f.h.seek_info)?;
            f.streamers = parse_streamer_list(&data, k.key_len as usize)?;
        }
        if f.h.seek_free > 0 {
            let (_, data) = f.record(f.h.seek_free)?;
            let mut c = Cur::new(&data, 0);
            while c.left() > 0 {
                let v = c.i16()?;
                if v != 1 && v != 1001 {
                    return Err(format!("decoder: free segment of version {v}"));
                }
                f.free.push(if v > 1000 { (c.i64()?, c.i64()?) } else { (c.i32()? as i64, c.i32()? as i64) });
            }
        }
        Ok(f)
    }
    pub fn record(&self, at: i64) -> R<(Key, Vec<u8>)> {
        let b = self.b.get(at as usize..).ok_or(format!("decoder: record at {at} outside the file"))?;
        let mut c = Cur::new(b, 0);
        let k = key(&mut c)?;
        if k.n_bytes < k.key_len as i32 || k.n_bytes as usize > b.len() {
            return Err(format!("decoder: record at {at} has bad length {}", k.n_bytes));
        }
        let p = &b[k.key_len as usize..k.n_bytes as usize];
        let d = if p.len() == k.obj_len as usize { p.to_vec() } else { unzip(p, k.obj_len as usize)? };
        Ok((k, d))
    }
    /// All records from begin to end; error on gap or overlap.
    pub fn records(&self) -> R<Vec<Rec>> {
        let mut v = vec![];
        let mut at = self.h.begin as usize;
        let end = self.h.end as usize;
        while at < end {
            let mut c = Cur::new(self.b.get(at..).ok_or("decoder: record outside file")?, 0);
            let k = key(&mut c)?;
            let step = if k.n_bytes < 0 { -k.n_bytes } else { k.n_bytes } as usize;
            if step == 0 {
                return Err(format!("decoder: empty record at {at}"));
            }
            v.push(Rec { at, key: k });
            at += step;
        }
        if at != end {
            return Err(format!("decoder: records end at {at}, header says {end}"));
        }
        Ok(v)
    }
    pub fn tree(&self, k: &Key) -> R<Tree> {
        let (k2, d) = self.record(k.seek_key)?;
        let mut o = Objs::new(&d, k2.key_len as usize);
        let mut c = Cur::new(&d, k2.key_len as usize);
        let t = read_tree(&mut c, &mut o)?;
        if c.left() != 0 {
            return Err(format!("decoder: {} bytes left after the tree", c.left()));
        }
        Ok(t)
    }
}

#[derive(Clone, Debug, Default)]
pub struct Named {
    pub bits: u32,
    pub name: String,
    pub title: String,
}
fn tobject(c: &mut Cur) -> R<u32> {
    let v = c.i16()?;
    if v & 0x4000 != 0 {
        // byte-counted TObject version
        c.p += 0;
    }
    let _id = c.u32()?;
    let bits = c.u32()?;
    if bits & (1 << 4) != 0 {
        // kIsReferenced: process id
        c.u16()?;
    }
    Ok(bits)
}
pub fn named(c: &mut Cur) -> R<Named> {
    let (_, end) = c.header()?;
    let bits = tobject(c)?;
    let n = Named { bits, name: c.str()?, title: c.str()? };
    c.finish("TNamed", end)?;
    Ok(n)
}
fn skip_versioned(c: &mut Cur) -> R<()> {
    let (_, end) = c.header()?;
    c.p = end;
    Ok(())
}

#[derive(Clone, Debug, Default)]
pub struct Leaf {
    pub class: String,
    pub name: String,
    pub title: String,
    pub len: i32,
    pub etype: i32,
    pub offset: i32,
    pub has_range: bool,
    pub unsigned: bool,
    pub has_count: bool,
    pub count_name: Option<String>,
    pub id: i32,
    pub ltype: i32,
}
#[derive(Clone, Debug, Default)]
pub struct Basket {
    pub key: Key,
    pub vers: i16,
    pub buf_size: i32,
    pub nev_size: i32,
    pub nev_buf: i32,
    pub last: i32,
    pub flag: u8,
    /// absolute offsets (relative to the start of the key)
    pub offsets: Vec<i32>,
    /// payload (without the key), embedded baskets only
    pub data: Vec<u8>,
}
#[derive(Clone, Debug, Default)]
pub struct Branch {
    pub class: String,
    pub vers: i16,
    pub name: String,
    pub title: String,
    pub compress: i32,
    pub basket_size: i32,
    pub entry_offset_len: i32,
    pub write_basket: i32,
    pub entry_number: i64,
    pub offset: i32,
    pub max_baskets: i32,
    pub split_level: i32,
    pub entries: i64,
    pub first_entry: i64,
    pub tot_bytes: i64,
    pub zip_bytes: i64,
    pub branches: Vec<Branch>,
    pub leaves: Vec<Leaf>,
    pub baskets: Vec<Basket>,
    pub basket_bytes: Vec<i32>,
    pub basket_entry: Vec<i64>,
    pub basket_seek: Vec<i64>,
    pub fname: String,
    // TBranchElement
    pub el: Option<El>,
}
#[derive(Clone, Debug, Default)]
pub struct El {
    pub class_name: String,
    pub parent: String,
    pub clones: String,
    pub checksum: u32,
    pub clsver: i32,
    pub id: i32,
    pub btype: i32,
    pub stype: i32,
    pub max: i32,
}
#[derive(Clone, Debug, Default)]
pub struct Tree {
    pub vers: i16,
    pub name: String,
    pub title: String,
    pub entries: i64,
    pub tot_bytes: i64,
    pub zip_bytes: i64,
    pub branches: Vec<Branch>,
    pub leaves: Vec<Leaf>,
    pub user_info: Option<Vec<Obj>>,
}

#[derive(Clone, Debug)]
pub enum Obj {
    Nil,
    Leaf(Leaf),
    Branch(Box<Branch>),
    Basket(Basket),
    SInfo(StreamerInfo),
    SElem(SElem),
    List(Vec<Obj>),
    ObjString(String),
    Named(String, String),
    Map(Vec<(Obj, Obj)>),
    /// parameter: class, name, value bytes
    Other(String),
}
/// Reference tables of one buffer.
pub struct Objs {
    classes: HashMap<usize, String>,
    objs: HashMap<usize, Obj>,
}
impl Objs {
    pub fn new(_d: &[u8], _base: usize) -> Objs {
        Objs { classes: HashMap::new(), objs: HashMap::new() }
    }
}

pub fn object_any(c: &mut Cur, o: &mut Objs) -> R<Obj> {
    let beg = c.pos();
    let bcnt = c.u32()?;
    let (tag, start, end);
    if bcnt & 0x4000_0000 == 0 || bcnt == 0xffff_ffff {
        tag = bcnt;
        start = 0;
        end = None;
    } else {
        start = c.pos();
        end = Some(c.p + (bcnt & 0x3fff_ffff) as usize);
        tag = c.u32()?;
    }
    let _ = beg;
    if tag & 0x8000_0000 == 0 {
        if tag == 0 {
            if let Some(e) = end {
                c.finish("null object", e)?;
            }
            return Ok(Obj::Nil);
        }
        let r = o.objs.get(&(tag as usize)).cloned().ok_or(format!("decoder: dangling object reference {tag} at {beg}"))?;
        if let Some(e) = end {
            c.finish("object reference", e)?;
        }
        return Ok(r);
    }
    let class;
    if tag == 0xffff_ffff {
        class = c.cstr()?;
        o.classes.insert(start + 2, class.clone());
    } else {
        let t = (tag & 0x7fff_ffff) as usize;
        class = o.classes.get(&t).cloned().ok_or(format!("decoder: dangling class reference {t} at {beg}"))?;
    }
    // leaves count references point to objects already registered: register early with a placeholder
    let end = end.ok_or("decoder: object without byte count")?;
    o.objs.insert(beg + 2, Obj::Other(class.clone()));
    let r = read_class(&class, c, o, end)?;
    c.finish(&class, end)?;
    o.objs.insert(beg + 2, r.clone());
    Ok(r)
}

pub fn read_class(class: &str, c: &mut Cur, o: &mut Objs, end: usize) -> R<Obj> {
    Ok(match class {
        "TLeafI" | "TLeafS" | "TLeafB" | "TLeafL" | "TLeafF" | "TLeafD" | "TLeafO" | "TLeafC" | "TLeafElement" | "TLeaf" => Obj::Leaf(read_leaf(class, c, o)?),
        "TBranch" | "TBranchElement" => Obj::Branch(Box::new(read_branch(class, c, o)?)),
        "TBasket" => Obj::Basket(read_basket_obj(c)?),
        "TObjString" => {
            let (_, e) = c.header()?;
            tobject(c)?;
            let s = c.str()?;
            c.finish("TObjString", e)?;
            Obj::ObjString(s)
        }
        "TList" => Obj::List(read_list(c, o)?),
        "TNamed" => {
            let n = named(c)?;
            Obj::Named(n.name, n.title)
        }
        "TMap" => {
            let (v, e) = c.header()?;
            if v > 2 {
                tobject(c)?;
            }
            if v > 1 {
                c.str()?;
            }
            let n = c.i32()?;
            let mut m = vec![];
            for _ in 0..n {
                m.push((object_any(c, o)?, object_any(c, o)?));
            }
            c.finish("TMap", e)?;
            Obj::Map(m)
        }
        "TStreamerInfo" => Obj::SInfo(read_sinfo(c, o)?),
        s if s.starts_with("TStreamer") => Obj::SElem(read_selem(s, c)?),
        s => {
            c.p = end;
            Obj::Other(s.to_string())
        }
    })
}
pub fn read_list(c: &mut Cur, o: &mut Objs) -> R<Vec<Obj>> {
    let (_, e) = c.header()?;
    tobject(c)?;
    let _name = c.str()?;
    let n = c.i32()?;
    let mut v = vec![];
    for _ in 0..n {
        v.push(object_any(c, o)?);
        c.bytes_str()?;
    }
    c.finish("TList", e)?;
    Ok(v)
}
pub fn objarray(c: &mut Cur, o: &mut Objs) -> R<Vec<Obj>> {
    let (v, e) = c.header()?;
    if v > 2 {
        tobject(c)?;
    }
    if v > 1 {
        c.str()?;
    }
    let n = c.i32()?;
    let _low = c.i32()?;
    let mut r = vec![];
    for _ in 0..n {
        r.push(object_any(c, o)?);
    }
    c.finish("TObjArray", e)?;
    Ok(r)
}
fn read_leaf(class: &str, c: &mut Cur, o: &mut Objs) -> R<Leaf> {
    let mut l = Leaf { class: class.to_string(), ..Default::default() };
    let outer = if class != "TLeaf" { Some(c.header()?.1) } else { None };
    let (_, e) = c.header()?;
    let n = named(c)?;
    l.name = n.name;
    l.title = n.title;
    l.len = c.i32()?;
    l.etype = c.i32()?;
    l.offset = c.i32()?;
    l.has_range = c.u8()? != 0;
    l.unsigned = c.u8()? != 0;
    match object_any(c, o)? {
        Obj::Nil => {}
        Obj::Leaf(x) => {
            l.has_count = true;
            l.count_name = Some(x.name);
        }
        _ => l.has_count = true,
    }
    c.finish("TLeaf", e)?;
    match class {
        "TLeafElement" => {
            l.id = c.i32()?;
            l.ltype = c.i32()?;
        }
        "TLeaf" => {}
        _ => {
            // minimum and maximum: the rest
            let e = outer.unwrap();
            let want = match class {
                "TLeafI" | "TLeafC" | "TLeafF" => 8,
                "TLeafS" => 4,
                "TLeafB" | "TLeafO" => 2,
                _ => 16,
            };
            if e - c.p != want {
                return Err(format!("decoder: {class} carries {} bytes of range instead of {want}", e - c.p));
            }
            c.p = e;
        }
    }
    if let Some(e) = outer {
        c.finish(class, e)?;
    }
    Ok(l)
}
pub fn read_basket_obj(c: &mut Cur) -> R<Basket> {
    let mut b = Basket { key: key(c)?, ..Default::default() };
    b.vers = c.i16()?;
    b.buf_size = c.i32()?;
    b.nev_size = c.i32()?;
    if b.nev_size < 0 {
        return Err("decoder: basket with io bits".into());
    }
    b.nev_buf = c.i32()?;
    b.last = c.i32()?;
    b.flag = c.u8()?;
    let flag = if b.flag >= 80 { b.flag - 80 } else { b.flag };
    if b.flag < 80 && flag != 0 && flag % 10 != 2 {
        if b.nev_buf > 0 {
            let n = c.i32()?;
            for _ in 0..n {
                b.offsets.push(c.i32()?);
            }
            if 20 < flag && flag < 40 {
                return Err("decoder: displacement".into());
            }
        }
        if flag > 40 {
            return Err("decoder: displacement".into());
        }
    }
    if flag == 1 || flag > 10 {
        let d = c.take(b.last as usize)?;
        b.data = d[b.key.key_len as usize..].to_vec();
    }
    Ok(b)
}
fn read_branch(class: &str, c: &mut Cur, o: &mut Objs) -> R<Branch> {
    if class == "TBranchElement" {
        let (v, e) = c.header()?;
        let mut b = read_branch("TBranch", c, o)?;
        b.class = class.to_string();
        let mut el = El { class_name: c.str()?, ..Default::default() };
        if v > 1 {
            el.parent = c.str()?;
            el.clones = c.str()?;
            el.checksum = c.u32()?;
        }
        el.clsver = if v >= 10 { c.i16()? as i32 } else { c.i32()? };
        el.id = c.i32()?;
        el.btype = c.i32()?;
        el.stype = c.i32()?;
        if v > 1 {
            el.max = c.i32()?;
            object_any(c, o)?;
            object_any(c, o)?;
        }
        c.finish("TBranchElement", e)?;
        b.el = Some(el);
        return Ok(b);
    }
    let (v, e) = c.header()?;
    let n = named(c)?;
    let mut b = Branch { class: class.to_string(), vers: v, name: n.name, title: n.title, ..Default::default() };
    if v > 7 {
        skip_versioned(c)?;
    }
    if v >= 10 {
        b.compress = c.i32()?;
        b.basket_size = c.i32()?;
        b.entry_offset_len = c.i32()?;
        b.write_basket = c.i32()?;
        b.entry_number = c.i64()?;
        if v >= 13 {
            skip_versioned(c)?;
        }
        b.offset = c.i32()?;
        b.max_baskets = c.i32()?;
        b.split_level = c.i32()?;
        b.entries = c.i64()?;
        if v >= 11 {
            b.first_entry = c.i64()?;
        }
        b.tot_bytes = c.i64()?;
        b.zip_bytes = c.i64()?;
    } else if v >= 6 {
        b.compress = c.i32()?;
        b.basket_size = c.i32()?;
        b.entry_offset_len = c.i32()?;
        b.write_basket = c.i32()?;
        b.entry_number = c.i32()? as i64;
        b.offset = c.i32()?;
        b.max_baskets = c.i32()?;
        if v > 6 {
            b.split_level = c.i32()?;
        }
        b.entries = c.f64()? as i64;
        b.tot_bytes = c.f64()? as i64;
        b.zip_bytes = c.f64()? as i64;
    } else {
        return Err(format!("decoder: TBranch version {v}"));
    }
    for x in objarray(c, o)? {
        match x {
            Obj::Branch(x) => b.branches.push(*x),
            x => return Err(format!("decoder: {x:?} among branches")),
        }
    }
    for x in objarray(c, o)? {
        match x {
            Obj::Leaf(x) => b.leaves.push(x),
            x => return Err(format!("decoder: {x:?} among leaves")),
        }
    }
    for x in objarray(c, o)? {
        match x {
            Obj::Basket(x) => b.baskets.push(x),
            Obj::Nil => {}
            x => return Err(format!("decoder: {x:?} among baskets")),
        }
    }
    let m = b.max_baskets as usize;
    c.i8()?;
    for _ in 0..m {
        b.basket_bytes.push(c.i32()?);
    }
    c.i8()?;
    for _ in 0..m {
        b.basket_entry.push(if v >= 10 { c.i64()? } else { c.i32()? as i64 });
    }
    let s = c.i8()?;
    for _ in 0..m {
        b.basket_seek.push(if v >= 10 || s == 2 { c.i64()? } else { c.i32()? as i64 });
    }
    b.fname = c.str()?;
    c.finish("TBranch", e)?;
    Ok(b)
}
pub fn read_tree(c: &mut Cur, o: &mut Objs) -> R<Tree> {
    let (v, e) = c.header()?;
    let n = named(c)?;
    let mut t = Tree { vers: v, name: n.name, title: n.title, ..Default::default() };
    skip_versioned(c)?;
    skip_versioned(c)?;
    skip_versioned(c)?;
    if v > 5 {
        t.entries = c.i64()?;
        t.tot_bytes = c.i64()?;
        t.zip_bytes = c.i64()?;
        c.i64()?;
        if v >= 18 {
            c.i64()?;
        }
    } else {
        t.entries = c.f64()? as i64;
        t.tot_bytes = c.f64()? as i64;
        t.zip_bytes = c.f64()? as i64;
        c.f64()?;
    }
    if v > 5 && v < 16 {
        return Err(format!("decoder: TTree version {v}"));
    }
    if v >= 16 {
        c.f64()?; // weight
    }
    c.i32()?;
    c.i32()?;
    c.i32()?;
    if v >= 17 {
        c.i32()?;
    }
    let mut nclus = 0;
    if v >= 19 {
        nclus = c.i32()?;
    }
    if v > 5 {
        for _ in 0..4 {
            c.i64()?;
        }
        if v >= 18 {
            c.i64()?; // auto flush
        }
        c.i64()?; // estimate
    } else {
        for _ in 0..4 {
            c.i32()?;
        }
    }
    if v >= 19 {
        for _ in 0..2 {
            c.i8()?;
            for _ in 0..nclus {
                c.i64()?;
            }
        }
    }
    if v >= 20 {
        skip_versioned(c)?;
    }
    for x in objarray(c, o)? {
        match x {
            Obj::Branch(x) => t.branches.push(*x),
            x => return Err(format!("decoder: {x:?} among branches")),
        }
    }
    for x in objarray(c, o)? {
        match x {
            Obj::Leaf(x) => t.leaves.push(x),
            x => return Err(format!("decoder: {x:?} among leaves of the tree")),
        }
    }
    // aliases, index values, index, tree index, friends, user info, branch ref
    if v > 5 {
        object_any(c, o)?; // aliases
    }
    for elem in [8usize, 4] {
        let n = c.i32()?;
        c.take(n as usize * elem)?;
    }
    if v > 5 {
        object_any(c, o)?; // tree index
        object_any(c, o)?; // friends
        t.user_info = match object_any(c, o)? {
            Obj::List(l) => Some(l),
            _ => None,
        };
        object_any(c, o)?; // branch ref
    }
    if v == 20 {
        c.finish("TTree", e)?;
    } else {
        c.p = e;
    }
    Ok(t)
}

#[derive(Clone, Debug, Default)]
pub struct SElem {
    pub class: String,
    pub name: String,
    pub title: String,
    pub etype: i32,
    pub size: i32,
    pub arr_len: i32,
    pub arr_dim: i32,
    pub max_idx: [i32; 5],
    pub ename: String,
    pub base_version: i32,
    pub stl: i32,
    pub ctype: i32,
    pub count: (i32, String, String),
}
#[derive(Clone, Debug, Default)]
pub struct StreamerInfo {
    pub name: String,
    pub title: String,
    pub checksum: u32,
    pub version: i32,
    pub elems: Vec<SElem>,
}
fn read_sinfo(c: &mut Cur, o: &mut Objs) -> R<StreamerInfo> {
    let (_, e) = c.header()?;
    let n = named(c)?;
    let mut s = StreamerInfo { name: n.name, title: n.title, checksum: c.u32()?, version: c.i32()?, elems: vec![] };
    match object_array_any(c, o)? {
        v => {
            for x in v {
                match x {
                    Obj::SElem(x) => s.elems.push(x),
                    x => return Err(format!("decoder: {x:?} among streamer elements of {}", s.name)),
                }
            }
        }
    }
    c.finish("TStreamerInfo", e)?;
    Ok(s)
}
/// A TObjArray written through the any-object mechanism.
fn object_array_any(c: &mut Cur, o: &mut Objs) -> R<Vec<Obj>> {
    let beg = c.pos();
    let bcnt = c.u32()?;
    if bcnt & 0x4000_0000 == 0 {
        return Err("decoder: element array without byte count".into());
    }
    let start = c.pos();
    let end = c.p + (bcnt & 0x3fff_ffff) as usize;
    let tag = c.u32()?;
    if tag & 0x8000_0000 == 0 {
        return Err("decoder: element array is a reference".into());
    }
    let class = if tag == 0xffff_ffff {
        let s = c.cstr()?;
        o.classes.insert(start + 2, s.clone());
        s
    } else {
        o.classes.get(&((tag & 0x7fff_ffff) as usize)).cloned().ok_or("decoder: dangling class reference in streamer list")?
    };
    if class != "TObjArray" {
        return Err(format!("decoder: element array of class {class}"));
    }
    o.objs.insert(beg + 2, Obj::Other(class));
    let v = objarray(c, o)?;
    c.finish("TObjArray", end)?;
    Ok(v)
}
fn read_selem(class: &str, c: &mut Cur) -> R<SElem> {
    let (v, e) = c.header()?;
    let inner = class != "TStreamerElement";
    let mut s = SElem { class: class.to_string(), ..Default::default() };
    let two = class == "TStreamerSTLstring";
    let e_stl = if two { Some(c.header()?.1) } else { None };
    let (bv, be) = if inner { c.header()? } else { (v, e) };
    let n = named(c)?;
    s.name = n.name;
    s.title = n.title;
    s.etype = c.i32()?;
    s.size = c.i32()?;
    s.arr_len = c.i32()?;
    s.arr_dim = c.i32()?;
    if bv == 1 {
        let n = c.i32()?;
        for _ in 0..n {
            c.i32()?;
        }
    } else {
        for k in 0..5 {
            s.max_idx[k] = c.i32()?;
        }
    }
    s.ename = c.str()?;
    c.p = c.p.max(c.p);
    if inner {
        if bv == 3 && be > c.p {
            c.p = be;
        }
        c.finish("TStreamerElement", be)?;
    }
    match class {
        "TStreamerBase" => {
            if v > 2 {
                s.base_version = c.i32()?;
            }
        }
        "TStreamerBasicPointer" | "TStreamerLoop" => {
            s.count = (c.i32()?, c.str()?, c.str()?);
        }
        "TStreamerSTL" | "TStreamerSTLstring" => {
            s.stl = c.i32()?;
            s.ctype = c.i32()?;
        }
        _ => {}
    }
    if let Some(x) = e_stl {
        c.finish("TStreamerSTL", x)?;
    }
    c.finish(class, e)?;
    Ok(s)
}
pub fn parse_streamer_list(d: &[u8], base: usize) -> R<Vec<StreamerInfo>> {
    let mut c = Cur::new(d, base);
    let mut o = Objs::new(d, base);
    let l = read_list(&mut c, &mut o)?;
    if c.left() != 0 {
        return Err(format!("decoder: {} bytes after the streamer list", c.left()));
    }
    let mut v = vec![];
    for x in l {
        match x {
            Obj::SInfo(s) => v.push(s),
            Obj::List(_) => {}
            x => return Err(format!("decoder: {x:?} in streamer list")),
        }
    }
    Ok(v)
}

/// A data unit as stored: entry payloads cut by the offset table (or by `fixed` size).
#[derive(Clone, Debug)]
pub struct Unit {
    pub key: Key,
    pub nev: usize,
    pub nev_size: i32,
    pub last: i32,
    pub buf_size: i32,
    pub data: Vec<u8>,
    /// start of each entry in data, when a table is present
    pub offs: Option<Vec<usize>>,
}
impl<'a> File<'a> {
    pub fn unit(&self, at: i64) -> R<Unit> {
        let (k, d) = self.record(at)?;
        let mut c = Cur::new(&self.b[at as usize..], 0);
        let bk = read_basket_obj(&mut c)?;
        if k.class != "TBasket" {
            return Err(format!("decoder: record of class {} where a data unit should be", k.class));
        }
        if c.p != k.key_len as usize {
            return Err(format!("decoder: data unit header is {} bytes, key says {}", c.p, k.key_len));
        }
        let border = bk.last as i64 - k.key_len as i64;
        if border < 0 || border as usize > d.len() {
            return Err(format!("decoder: data unit border {border} of {}", d.len()));
        }
        let border = border as usize;
        let mut u = Unit { key: k.clone(), nev: bk.nev_buf as usize, nev_size: bk.nev_size, last: bk.last, buf_size: bk.buf_size, data: d[..border].to_vec(), offs: None };
        if border != d.len() {
            let mut c = Cur::new(&d[border..], 0);
            let n = c.i32()?;
            if n as usize != u.nev + 1 || d.len() - border != 4 * (u.nev + 2) {
                return Err(format!("decoder: offset table of {n} for {} entries in {} bytes", u.nev, d.len() - border));
            }
            let mut o = vec![];
            for _ in 0..u.nev {
                let x = c.i32()? as i64 - k.key_len as i64;
                if x < 0 || x > border as i64 || o.last().is_some_and(|l| *l as i64 > x) {
                    return Err(format!("decoder: entry offset {x} out of order"));
                }
                o.push(x as usize);
            }
            if let Some(f) = o.first() {
                if *f != 0 {
                    return Err(format!("decoder: first entry at {f}"));
                }
            } else if border != 0 {
                return Err("decoder: bytes but no entries".into());
            }
            u.offs = Some(o);
        }
        Ok(u)
    }
}
impl Unit {
    pub fn entries(&self, fixed: Option<usize>) -> R<Vec<Vec<u8>>> {
        match (&self.offs, fixed) {
            (Some(o), None) => {
                let mut v = vec![];
                for i in 0..o.len() {
                    let e = if i + 1 < o.len() { o[i + 1] } else { self.data.len() };
                    v.push(self.data[o[i]..e].to_vec());
                }
                Ok(v)
            }
            (None, Some(s)) => {
                if self.data.len() != s * self.nev {
                    return Err(format!("decoder: {} bytes for {} entries of {s}", self.data.len(), self.nev));
                }
                Ok(self.data.chunks(s).map(|c| c.to_vec()).collect())
            }
            (Some(_), Some(_)) => Err("decoder: offset table on a fixed-size column".into()),
            (None, None) => Err("decoder: no offset table on a variable-size column".into()),
        }
    }
}
pub fn by_name(v: &[StreamerInfo]) -> BTreeMap<String, StreamerInfo> {
    v.iter().map(|s| (s.name.clone(), s.clone())).collect()
}
fn cut(data: &[u8], nev: usize, offs: Option<&[usize]>) -> R<Vec<Vec<u8>>> {
    if nev == 0 {
        return Ok(vec![]);
    }
    match offs {
        Some(o) => Ok((0..o.len()).map(|i| data[o[i]..o.get(i + 1).copied().unwrap_or(data.len())].to_vec()).collect()),
        None => {
            if data.len() % nev != 0 {
                return Err(format!("decoder: {} bytes for {nev} entries", data.len()));
            }
            let s = data.len() / nev;
            Ok((0..nev).map(|i| data[i * s..(i + 1) * s].to_vec()).collect())
        }
    }
}
impl<'a> File<'a> {
    /// Stored bytes of every entry of a branch, units on disk first, then the embedded one.
    pub fn raw_entries(&self, b: &Branch) -> R<Vec<Vec<u8>>> {
        let mut v = vec![];
        for i in 0..b.write_basket as usize {
            if b.basket_bytes[i] == 0 {
                continue;
            }
            let u = self.unit(b.basket_seek[i])?;
            if b.basket_entry[i] != v.len() as i64 {
                return Err(format!("decoder: unit {i} starts at entry {} instead of {}", b.basket_entry[i], v.len()));
            }
            v.extend(cut(&u.data, u.nev, u.offs.as_deref())?);
        }
        for k in &b.baskets {
            let o: Vec<usize> = k.offsets.iter().map(|o| *o as usize - k.key.key_len as usize).collect();
            v.extend(cut(&k.data, k.nev_buf as usize, if o.is_empty() { None } else { Some(&o) })?);
        }
        Ok(v)
    }
    pub fn find<'t>(bs: &'t [Branch], name: &str) -> Option<&'t Branch> {
        bs.iter().find_map(|b| if b.name == name { Some(b) } else { Self::find(&b.branches, name) })
    }
}
