//! Dynamic column values. A value is its canonical big-endian byte string, produced and
//! interpreted here with std only, so that it does not depend on the code under test.
use oxyroot::{Branch, Marshaler, RootFile, UnmarshalerInto, WriterTree};
use std::path::Path;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Prim {
    Bool,
    I8,
    U8,
    I16,
    U16,
    I32,
    U32,
    I64,
    U64,
    F32,
    F64,
}
pub const PRIMS: [Prim; 11] =
    [Prim::I32, Prim::Bool, Prim::I8, Prim::U8, Prim::I16, Prim::U16, Prim::U32, Prim::I64, Prim::U64, Prim::F32, Prim::F64];
impl Prim {
    pub fn size(self) -> usize {
        match self {
            Prim::Bool | Prim::I8 | Prim::U8 => 1,
            Prim::I16 | Prim::U16 => 2,
            Prim::I32 | Prim::U32 | Prim::F32 => 4,
            _ => 8,
        }
    }
    pub fn cpp(self) -> &'static str {
        match self {
            Prim::Bool => "bool",
            Prim::I8 => "int8_t",
            Prim::U8 => "uint8_t",
            Prim::I16 => "int16_t",
            Prim::U16 => "uint16_t",
            Prim::I32 => "int32_t",
            Prim::U32 => "uint32_t",
            Prim::I64 => "int64_t",
            Prim::U64 => "uint64_t",
            Prim::F32 => "float",
            Prim::F64 => "double",
        }
    }
    pub fn rust(self) -> &'static str {
        match self {
            Prim::Bool => "bool",
            Prim::I8 => "i8",
            Prim::U8 => "u8",
            Prim::I16 => "i16",
            Prim::U16 => "u16",
            Prim::I32 => "i32",
            Prim::U32 => "u32",
            Prim::I64 => "i64",
            Prim::U64 => "u64",
            Prim::F32 => "f32",
            Prim::F64 => "f64",
        }
    }
    /// Pseudo-random but fixed element number `i`.
    pub fn elem(self, i: u64) -> Vec<u8> {
        let mut x = i.wrapping_add(1).wrapping_mul(0x9E3779B97F4A7C15);
        x ^= x >> 29;
        x = x.wrapping_mul(0xBF58476D1CE4E5B9);
        x ^= x >> 32;
        if self == Prim::Bool {
            return vec![(x & 1) as u8];
        }
        x.to_be_bytes()[..self.size()].to_vec()
    }
    /// Extreme and single-bit patterns.
    pub fn patterns(self) -> Vec<Vec<u8>> {
        if self == Prim::Bool {
            return vec![vec![0], vec![1]];
        }
        let n = self.size();
        let bits = 8 * n;
        let mask: u64 = if bits == 64 { !0 } else { (1u64 << bits) - 1 };
        let mut v: Vec<u64> = vec![0, mask, mask >> 1, (mask >> 1) + 1, 1, 2, 254, 255, 256];
        for b in 0..bits {
            v.push(1u64 << b);
            v.push(mask ^ (1u64 << b));
        }
        match self {
            Prim::F32 => {
                for f in [f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -0.0, f32::MIN_POSITIVE, f32::MAX, f32::EPSILON, 1e-45, 0.1, -1.5] {
                    v.push(f.to_bits() as u64)
                }
                v.push(0x7fa00001);
                v.push(0xffc12345);
            }
            Prim::F64 => {
                for f in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, f64::MIN_POSITIVE, f64::MAX, f64::EPSILON, 5e-324, 0.1, -1.5] {
                    v.push(f.to_bits())
                }
                v.push(0x7ff4000000000001);
                v.push(0xfff8000012345678);
            }
            _ => {}
        }
        v.iter().map(|x| (x & mask).to_be_bytes()[8 - n..].to_vec()).collect()
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ty {
    P(Prim),
    A(Prim, usize),
    Str,
    V(Prim),
}
impl Ty {
    pub fn cpp(self) -> String {
        match self {
            Ty::P(p) => p.cpp().to_string(),
            Ty::A(p, n) => format!("{}[{}]", p.cpp(), n),
            Ty::Str => "char*".to_string(),
            Ty::V(p) => format!("vector<{}>", p.cpp()),
        }
    }
    pub fn rust(self) -> String {
        match self {
            Ty::P(p) => p.rust().to_string(),
            Ty::A(p, n) => format!("[{};{}]", p.rust(), n),
            Ty::Str => "String".to_string(),
            Ty::V(p) => format!("Vec<{}>", p.rust()),
        }
    }
    pub fn fixed(self) -> Option<usize> {
        match self {
            Ty::P(p) => Some(p.size()),
            Ty::A(p, n) => Some(p.size() * n),
            _ => None,
        }
    }
    /// Bytes one entry with payload length `l` occupies in a data unit.
    pub fn stored(self, l: usize) -> usize {
        match self {
            Ty::P(_) | Ty::A(..) => l,
            Ty::Str => l + if l < 255 { 1 } else { 5 },
            Ty::V(_) => l + 10,
        }
    }
    /// Fixed value number i (variable types: payload of `l` elements/bytes).
    pub fn val(self, i: u64, l: usize) -> Val {
        match self {
            Ty::P(p) => p.elem(i),
            Ty::A(p, n) => (0..n as u64).flat_map(|k| p.elem(i.wrapping_mul(n as u64) + k)).collect(),
            Ty::V(p) => (0..l as u64).flat_map(|k| p.elem(i.wrapping_mul(1_000_003).wrapping_add(k))).collect(),
            Ty::Str => text(i, l),
        }
    }
}
/// A string of exactly `l` bytes, different for different `i` (as far as `l` permits).
pub fn text(i: u64, l: usize) -> Val {
    let mut s = Vec::with_capacity(l);
    let mut k = 0u64;
    while s.len() < l {
        let x = (i.wrapping_mul(31).wrapping_add(k)).wrapping_mul(0x9E3779B97F4A7C15) >> 40;
        s.push(b'!' + (x % 90) as u8);
        k += 1;
    }
    s
}
pub type Val = Vec<u8>;

pub trait Elem: Marshaler + UnmarshalerInto<Item = Self> + Clone + Copy + Default + oxyroot::Unmarshaler + std::fmt::Debug + 'static {
    fn from_be(b: &[u8]) -> Self;
    fn be(self, out: &mut Vec<u8>);
    const SZ: usize;
}
macro_rules! elem {
    ($($t:ty),*) => {$(impl Elem for $t {
        fn from_be(b: &[u8]) -> Self { <$t>::from_be_bytes(b.try_into().unwrap()) }
        fn be(self, out: &mut Vec<u8>) { out.extend_from_slice(&self.to_be_bytes()) }
        const SZ: usize = std::mem::size_of::<$t>();
    })*}
}
elem!(i8, u8, i16, u16, i32, u32, i64, u64, f32, f64);
impl Elem for bool {
    fn from_be(b: &[u8]) -> Self {
        b[0] != 0
    }
    fn be(self, out: &mut Vec<u8>) {
        out.push(self as u8)
    }
    const SZ: usize = 1;
}

#[macro_export]
macro_rules! with_prim {
    ($p:expr, $T:ident => $body:expr) => {
        match $p {
            $crate::col::Prim::Bool => { type $T = bool; $body }
            $crate::col::Prim::I8 => { type $T = i8; $body }
            $crate::col::Prim::U8 => { type $T = u8; $body }
            $crate::col::Prim::I16 => { type $T = i16; $body }
            $crate::col::Prim::U16 => { type $T = u16; $body }
            $crate::col::Prim::I32 => { type $T = i32; $body }
            $crate::col::Prim::U32 => { type $T = u32; $body }
            $crate::col::Prim::I64 => { type $T = i64; $body }
            $crate::col::Prim::U64 => { type $T = u64; $body }
            $crate::col::Prim::F32 => { type $T = f32; $body }
            $crate::col::Prim::F64 => { type $T = f64; $body }
        }
    };
}
pub const ARR_N: [usize; 12] = [1, 2, 3, 4, 5, 7, 8, 10, 12, 16, 31, 32];
#[macro_export]
macro_rules! with_n {
    ($n:expr, $N:ident => $body:expr) => {
        match $n {
            1 => { const $N: usize = 1; $body }
            2 => { const $N: usize = 2; $body }
            3 => { const $N: usize = 3; $body }
            4 => { const $N: usize = 4; $body }
            5 => { const $N: usize = 5; $body }
            7 => { const $N: usize = 7; $body }
            8 => { const $N: usize = 8; $body }
            10 => { const $N: usize = 10; $body }
            12 => { const $N: usize = 12; $body }
            16 => { const $N: usize = 16; $body }
            31 => { const $N: usize = 31; $body }
            32 => { const $N: usize = 32; $body }
            n => panic!("array length {n} not instantiated"),
        }
    };
}

fn arr_from<T: Elem, const N: usize>(b: &[u8]) -> [T; N] {
    std::array::from_fn(|k| T::from_be(&b[k * T::SZ..(k + 1) * T::SZ]))
}

/// Iterator over an Rc'd list, mapped by `f`, calling `on` before each request.
pub struct Prov<T, F: FnMut(&Val) -> T> {
    vals: Rc<Vec<Val>>,
    i: usize,
    f: F,
    on: Option<Box<dyn FnMut()>>,
    /// resume with this many extra values after having returned None once
    extra: usize,
    ended: bool,
}
impl<T, F: FnMut(&Val) -> T> Iterator for Prov<T, F> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if let Some(f) = &mut self.on {
            f()
        }
        if self.i < self.vals.len() {
            self.i += 1;
            return Some((self.f)(&self.vals[self.i - 1]));
        }
        if !self.ended {
            self.ended = true;
            return None;
        }
        if self.extra > 0 && !self.vals.is_empty() {
            self.extra -= 1;
            return Some((self.f)(&self.vals[0]));
        }
        None
    }
}
pub fn add_branch(tree: &mut WriterTree, name: &str, ty: Ty, vals: &Rc<Vec<Val>>, on: Option<Box<dyn FnMut()>>, extra: usize) {
    fn go<T: Marshaler + 'static>(tree: &mut WriterTree, name: &str, vals: &Rc<Vec<Val>>, on: Option<Box<dyn FnMut()>>, extra: usize, f: impl FnMut(&Val) -> T + 'static) {
        tree.new_branch(name, Prov { vals: vals.clone(), i: 0, f, on, extra, ended: false });
    }
    match ty {
        Ty::P(p) => with_prim!(p, T => go(tree, name, vals, on, extra, |b| <T as Elem>::from_be(b))),
        Ty::A(p, n) => with_prim!(p, T => with_n!(n, N => go(tree, name, vals, on, extra, |b| arr_from::<T, N>(b)))),
        Ty::Str => go(tree, name, vals, on, extra, |b| String::from_utf8(b.clone()).unwrap()),
        Ty::V(p) => with_prim!(p, T => go(tree, name, vals, on, extra, |b| b.chunks(T::SZ).map(<T as Elem>::from_be).collect::<Vec<T>>())),
    }
}

/// A column of `n` times the same value, made on demand; `on` is called before each.
pub fn repeat_branch(tree: &mut WriterTree, name: &str, ty: Ty, val: Val, n: usize, mut on: Box<dyn FnMut()>) {
    let mut go = (0..n).map(move |_| {
        on();
        val.clone()
    });
    let mut it = move || go.next();
    match ty {
        Ty::P(p) => with_prim!(p, T => tree.new_branch(name, std::iter::from_fn(move || it().map(|b| <T as Elem>::from_be(&b))))),
        Ty::A(p, n) => with_prim!(p, T => with_n!(n, N => tree.new_branch(name, std::iter::from_fn(move || it().map(|b| arr_from::<T, N>(&b)))))),
        Ty::Str => tree.new_branch(name, std::iter::from_fn(move || it().map(|b| String::from_utf8(b).unwrap()))),
        Ty::V(p) => with_prim!(p, T => tree.new_branch(name, std::iter::from_fn(move || it().map(|b| b.chunks(T::SZ).map(<T as Elem>::from_be).collect::<Vec<T>>())))),
    }
}

pub type ValIter<'a> = Box<dyn Iterator<Item = Val> + 'a>;

/// The column's iterator as canonical values; Err = the library refused the request.
pub fn iter_of<'a>(b: &'a Branch, ty: Ty, checked: bool) -> Result<ValIter<'a>, String> {
    fn go<'a, T: UnmarshalerInto<Item = T> + 'a>(b: &'a Branch, checked: bool, f: impl Fn(T) -> Val + 'a) -> Result<ValIter<'a>, String> {
        if checked {
            match b.as_iter::<T>() {
                Ok(it) => Ok(Box::new(it.map(f))),
                Err(e) => Err(format!("{e:?}")),
            }
        } else {
            Ok(Box::new(b.as_iter_unchecked::<T>().map(f)))
        }
    }
    fn cat<T: Elem>(v: impl IntoIterator<Item = T>) -> Val {
        let mut o = Vec::new();
        for x in v {
            x.be(&mut o)
        }
        o
    }
    match ty {
        Ty::P(p) => with_prim!(p, T => go::<T>(b, checked, |x| cat::<T>([x]))),
        Ty::A(p, n) => with_prim!(p, T => with_n!(n, N => go::<[T; N]>(b, checked, |x| cat::<T>(x)))),
        Ty::Str => go::<String>(b, checked, |s| s.into_bytes()),
        Ty::V(p) => with_prim!(p, T => go::<Vec<T>>(b, checked, |x| cat::<T>(x))),
    }
}

#[derive(Clone, Debug)]
pub struct Col {
    pub name: String,
    pub ty: Ty,
    pub vals: Rc<Vec<Val>>,
}
impl Col {
    pub fn new(name: &str, ty: Ty, vals: Vec<Val>) -> Col {
        Col { name: name.to_string(), ty, vals: Rc::new(vals) }
    }
}
#[derive(Clone, Debug)]
pub struct TreeSpec {
    pub name: String,
    pub cols: Vec<Col>,
}
impl TreeSpec {
    pub fn new(name: &str, cols: Vec<Col>) -> TreeSpec {
        TreeSpec { name: name.to_string(), cols }
    }
    pub fn entries(&self) -> usize {
        self.cols.iter().map(|c| c.vals.len()).max().unwrap_or(0)
    }
}

pub fn build(spec: &TreeSpec) -> WriterTree {
    let mut t = WriterTree::new(&spec.name);
    for c in &spec.cols {
        add_branch(&mut t, &c.name, c.ty, &c.vals, None, 0);
    }
    t
}
/// Writes the trees to `path` and closes the file; any error is returned as text.
pub fn write_file(path: &Path, specs: &[TreeSpec]) -> Result<(), String> {
    let mut f = RootFile::create(path).map_err(|e| format!("create: {e:?}"))?;
    for s in specs {
        build(s).write(&mut f).map_err(|e| format!("write {:?}: {e:?}", s.name))?;
    }
    f.close().map_err(|e| format!("close: {e:?}"))?;
    Ok(())
}
pub fn show(v: &[u8]) -> String {
    if v.len() > 24 {
        format!("{:02x?}..({} bytes)", &v[..24], v.len())
    } else {
        format!("{v:02x?}")
    }
}
/// Compares an iterator with the expected values, exactly.
pub fn compare(what: &str, got: impl Iterator<Item = Val>, want: &[Val]) -> Result<(), String> {
    let mut n = 0;
    for g in got {
        if n >= want.len() {
            return Err(format!("{what}: more than {} values; extra value {}", want.len(), show(&g)));
        }
        if g != want[n] {
            return Err(format!("{what}: value {n} of {} is {} but {} was stored", want.len(), show(&g), show(&want[n])));
        }
        n += 1;
    }
    if n != want.len() {
        return Err(format!("{what}: {n} values instead of {}", want.len()));
    }
    Ok(())
}
/// Reopens and compares one tree completely with its specification.
pub fn verify_tree(f: &mut RootFile, s: &TreeSpec) -> Result<(), String> {
    let t = f.get_tree(&s.name).map_err(|e| format!("get_tree {:?}: {e:?}", s.name))?;
    if t.entries() != s.entries() as i64 {
        return Err(format!("tree {:?} reports {} entries, {} were written", s.name, t.entries(), s.entries()));
    }
    let names: Vec<String> = t.branches().map(|b| b.name().to_string()).collect();
    let want: Vec<String> = s.cols.iter().map(|c| c.name.clone()).collect();
    if names != want {
        return Err(format!("columns {names:?} instead of {want:?}"));
    }
    for (k, (b, c)) in t.branches().zip(&s.cols).enumerate() {
        if b.entries() != c.vals.len() as i64 {
            return Err(format!("column {:?} reports {} entries, {} were written", c.name, b.entries(), c.vals.len()));
        }
        let it = iter_of(b, c.ty, true).map_err(|e| format!("column {:?} ({}) refused: {e}", c.name, c.ty.rust()))?;
        compare(&format!("column {:?}", c.name), it, &c.vals)?;
        if s.cols.iter().position(|x| x.name == c.name) == Some(k) {
            let b2 = t.branch(&c.name).ok_or(format!("column {:?} not found by name", c.name))?;
            if !std::ptr::eq(b2, b) {
                return Err(format!("lookup of {:?} found another column", c.name));
            }
        }
    }
    Ok(())
}
pub fn verify_file(path: &Path, specs: &[TreeSpec]) -> Result<(), String> {
    let mut f = RootFile::open(path).map_err(|e| format!("open: {e:?}"))?;
    let names: Vec<String> = f.keys_name().map(|s| s.to_string()).collect();
    let want: Vec<String> = specs.iter().map(|c| c.name.clone()).collect();
    if names != want {
        return Err(format!("keys {names:?} instead of {want:?}"));
    }
    for (k, s) in specs.iter().enumerate() {
        if specs.iter().rposition(|x| x.name == s.name) == Some(k) {
            verify_tree(&mut f, s)?;
        }
    }
    Ok(())
}
pub fn roundtrip(path: &Path, specs: &[TreeSpec]) -> Result<(), String> {
    write_file(path, specs)?;
    verify_file(path, specs)
}
