//! C19: files that pass the 32-bit limits, with the passage at every place of a program's output.
//!
//! A base file is filled with zeros (kept as holes) to just below a limit, once per worker; then
//! each case, in a child process that inherits the open writer, writes a tree of one string whose
//! length puts one particular byte of what follows on the limit, the trees of the program, and
//! closes the file; it is reopened and compared, and examined by the independent decoder.
use super::c03::mk;
use crate::check::{structure, Opts};
use crate::col::*;
use crate::core::*;
use crate::io::{self, Plan};
use crate::rootr;
use crate::sched::fresh;
use oxyroot::{RootFile, WriterTree};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::os::fd::AsRawFd;
use std::path::{Path, PathBuf};
use std::rc::Rc;

/// room between the end of the base and the limit
const ROOM: i64 = 500_000;
const CHUNK: usize = 50_000_000;
const MIN_PAD: usize = 40_000;

fn s(n: usize, k: usize) -> Val {
    (0..n).map(|i| b'a' + ((i * 7 + k) % 26) as u8).collect()
}
fn program(p: usize) -> Vec<TreeSpec> {
    match p {
        // every kind of column, one unit each, several entries
        0 => vec![TreeSpec::new("t", vec![mk("i", Ty::P(Prim::I32), 1, 3), mk("s", Ty::Str, 2, 4), mk("v", Ty::V(Prim::F32), 3, 3), mk("a", Ty::A(Prim::I16, 3), 4, 2)])],
        // units of several columns, of several entries each, filled in turn
        1 => vec![TreeSpec::new(
            "t",
            vec![
                Col::new("s", Ty::Str, (0..9).map(|k| s(9000 + 700 * k, k)).collect()),
                Col::new("v", Ty::V(Prim::F64), (0..9).map(|k| (0..(1000 + 40 * k)).flat_map(|i| Prim::F64.elem((i + 131 * k) as u64)).collect()).collect()),
                mk("d", Ty::P(Prim::U64), 5, 9),
                Col::new("x", Ty::A(Prim::I32, 4), (0..9).map(|k| (0..4).flat_map(|i| Prim::I32.elem(i + 7 * k)).collect()).collect()),
            ],
        )],
        // several trees, one name twice, one without entries
        2 => vec![
            TreeSpec::new("t", vec![mk("s", Ty::Str, 2, 3)]),
            TreeSpec::new("u", vec![mk("e", Ty::P(Prim::F32), 2, 0), mk("w", Ty::V(Prim::I8), 4, 0)]),
            TreeSpec::new("t", vec![mk("s", Ty::Str, 9, 2), mk("b", Ty::P(Prim::Bool), 2, 5)]),
        ],
        // a column of every type
        3 => {
            use Prim::*;
            let ps = [Bool, I8, U8, I16, U16, I32, U32, I64, U64, F32, F64];
            let mut v: Vec<Col> = vec![mk("s", Ty::Str, 3, 2)];
            v.extend(ps.iter().enumerate().map(|(k, p)| mk(&format!("p{k}"), Ty::P(*p), k as u64, 2)));
            v.extend(ps.iter().enumerate().map(|(k, p)| mk(&format!("a{k}"), Ty::A(*p, 2), k as u64, 1 + k % 2)));
            v.extend(ps.iter().enumerate().map(|(k, p)| mk(&format!("v{k}"), Ty::V(*p), k as u64, k % 4)));
            vec![TreeSpec::new("t", v)]
        }
        _ => unreachable!(),
    }
}
fn tree_of(name: &str, col: &str, lens: Vec<usize>) -> WriterTree {
    let mut t = WriterTree::new(name);
    t.new_branch(col, lens.into_iter().map(|n| String::from_utf8(vec![0u8; n]).unwrap()));
    t
}
struct Base {
    path: PathBuf,
    file: RootFile,
    /// the writer's descriptor and its position (what the writer still buffers goes there)
    fd: i32,
    pos: i64,
    len: i64,
    head: Vec<u8>,
    n_fill: usize,
    /// per program: the places of its records with the shortest padding
    dry: BTreeMap<usize, Rc<Dry>>,
}
struct Dry {
    /// (place, what) of the tree of the padding and the records after it
    recs: Vec<(i64, String)>,
    end: i64,
}
thread_local! {
    static BASE: RefCell<BTreeMap<(i64, i64), Base>> = const { RefCell::new(BTreeMap::new()) };
}
struct Map(*mut libc::c_void, usize);
impl Map {
    fn new(p: &Path) -> Result<Map, String> {
        let f = std::fs::File::open(p).map_err(|e| e.to_string())?;
        let n = f.metadata().map_err(|e| e.to_string())?.len() as usize;
        let a = unsafe { libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        if a == libc::MAP_FAILED {
            return Err("mmap".into());
        }
        Ok(Map(a, n))
    }
    fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.0 as *const u8, self.1) }
    }
}
impl Drop for Map {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.0, self.1) };
    }
}
fn base(path: PathBuf, end: i64) -> Result<Base, String> {
    let _ = std::fs::remove_file(&path);
    io::start(Plan { prefix: path.to_string_lossy().into_owned(), sparse: true, ..Plan::default() });
    let mut file = RootFile::create(&path).map_err(|e| format!("create: {e:?}"))?;
    let mut lens = vec![CHUNK; (end as usize) / CHUNK];
    // roughly what the records take besides the strings
    lens.push((end as usize % CHUNK).saturating_sub(6000 + 150 * lens.len()));
    let n_fill = lens.len();
    tree_of("fill", "z", lens).write(&mut file).map_err(|e| format!("filling up to {end}: {e:?}"))?;
    io::reset();
    let len = std::fs::metadata(&path).map_err(|e| e.to_string())?.len() as i64;
    let head = {
        let m = Map::new(&path)?;
        m.bytes()[..4096].to_vec()
    };
    let fd = (0..4096).find(|k| std::fs::read_link(format!("/proc/self/fd/{k}")).is_ok_and(|p| p == path)).ok_or("harness: no descriptor of the base")?;
    let pos = unsafe { libc::lseek(fd, 0, libc::SEEK_CUR) };
    Ok(Base { fd, pos, path, file, len, head, n_fill, dry: BTreeMap::new() })
}
impl Base {
    fn restore(&self) {
        use std::os::unix::fs::FileExt;
        if let Ok(f) = std::fs::OpenOptions::new().write(true).open(&self.path) {
            let _ = f.set_len(self.len as u64);
            let _ = f.write_all_at(&self.head, 0);
            unsafe { libc::lseek(self.fd, self.pos, libc::SEEK_SET) };
        }
    }
    /// In a child: padding, program, close; then `then`.
    fn child(&mut self, pad: usize, specs: &[TreeSpec], then: impl FnOnce(&Path) -> Result<Vec<u8>, String>) -> Result<Vec<u8>, String> {
        let r = fresh(|| {
            let r = (|| -> Result<Vec<u8>, String> {
                tree_of("pad", "p", vec![pad]).write(&mut self.file).map_err(|e| format!("write of a string of {pad} bytes: {e:?}"))?;
                for t in specs {
                    build(t).write(&mut self.file).map_err(|e| format!("write {:?}: {e:?}", t.name))?;
                }
                self.file.close().map_err(|e| format!("close: {e:?}"))?;
                then(&self.path)
            })();
            match r {
                Ok(v) => [vec![1], v].concat(),
                Err(e) => [vec![0], e.into_bytes()].concat(),
            }
        });
        self.restore();
        match r?.split_first() {
            Some((1, v)) => Ok(v.to_vec()),
            Some((_, e)) => Err(String::from_utf8_lossy(e).into_owned()),
            None => Err("no answer".into()),
        }
    }
    fn dry(&mut self, p: usize) -> Result<Rc<Dry>, String> {
        if let Some(d) = self.dry.get(&p) {
            return Ok(d.clone());
        }
        let v = self.child(MIN_PAD, &program(p), |path| {
            let m = Map::new(path)?;
            let f = rootr::File::parse(m.bytes())?;
            let mut o = format!("{}\n", f.h.end);
            for r in f.records()? {
                // the unit of the padding and everything behind it
                o += &format!("{} {} {} {}\n", r.at, r.key.class, r.key.name, r.key.title);
            }
            Ok(o.into_bytes())
        })?;
        let t = String::from_utf8(v).map_err(|e| e.to_string())?;
        let mut l = t.lines();
        let end = l.next().unwrap().parse().unwrap();
        let mut recs: Vec<(i64, String)> = l.map(|l| l.split_once(' ').map(|(a, w)| (a.parse().unwrap(), w.to_string())).unwrap()).collect();
        let k = recs.iter().position(|r| r.1.starts_with("TTree pad")).ok_or("no padding")?;
        recs.drain(..k);
        let d = Rc::new(Dry { recs, end });
        self.dry.insert(p, d.clone());
        Ok(d)
    }
}
fn with_base<T>(dir: &Path, limit: i64, room: i64, f: impl FnOnce(&mut Base) -> Result<T, String>) -> Result<T, String> {
    BASE.with(|b| {
        let mut b = b.borrow_mut();
        if !b.contains_key(&(limit, room)) {
            // one base at a time
            for (_, x) in std::mem::take(&mut *b) {
                let p = x.path.clone();
                std::mem::forget(x.file);
                let _ = std::fs::remove_file(p);
            }
            let x = base(dir.join(format!("big-{limit}-{room}.root")), limit - room)?;
            b.insert((limit, room), x);
        }
        f(b.get_mut(&(limit, room)).unwrap())
    })
}
fn light(f: &mut RootFile, name: &str, col: &str, n: usize) -> Result<(), String> {
    let t = f.get_tree(name).map_err(|e| format!("get_tree {name:?}: {e:?}"))?;
    let b = t.branch(col).ok_or(format!("column {col:?} of {name:?} not found"))?;
    if t.entries() != n as i64 || b.entries() != n as i64 {
        return Err(format!("{name:?} reports {} entries, its column {}, instead of {n}", t.entries(), b.entries()));
    }
    Ok(())
}
/// Everything about the finished file.
fn judge(path: &Path, n_fill: usize, pad: usize, specs: &[TreeSpec], at: Option<(i64, usize)>) -> Result<Vec<u8>, String> {
    let mut f = RootFile::open(path).map_err(|e| format!("open: {e:?}"))?;
    let names: Vec<String> = f.keys_name().map(|s| s.to_string()).collect();
    let want: Vec<String> = ["fill", "pad"].iter().map(|s| s.to_string()).chain(specs.iter().map(|t| t.name.clone())).collect();
    if names != want {
        return Err(format!("keys {names:?} instead of {want:?}"));
    }
    light(&mut f, "fill", "z", n_fill)?;
    let zero = |n: usize| Col::new("p", Ty::Str, vec![vec![0u8; n]]);
    verify_tree(&mut f, &TreeSpec::new("pad", vec![zero(pad)]))?;
    for (k, t) in specs.iter().enumerate() {
        if specs.iter().rposition(|x| x.name == t.name) == Some(k) {
            verify_tree(&mut f, t)?;
        } else {
            // an earlier version under its number
            let v = specs[..=k].iter().filter(|x| x.name == t.name).count();
            let mut w = t.clone();
            w.name = format!("{};{v}", t.name);
            verify_tree(&mut f, &w)?;
        }
    }
    drop(f);
    let m = Map::new(path)?;
    let b = m.bytes();
    let mut all = vec![TreeSpec::new("fill", vec![Col::new("z", Ty::Str, vec![vec![]; n_fill])]), TreeSpec::new("pad", vec![zero(pad)])];
    all.extend(specs.iter().cloned());
    let n = structure(b, &path.to_string_lossy(), &all, &Opts { orphans: false, light: 1 })?;
    if let Some((p, _)) = at {
        // the place the case is about is where it should be
        let f = rootr::File::parse(b)?;
        if !f.records()?.iter().any(|r| r.at as i64 == p) && f.h.end != p {
            return Err(format!("harness: no record at {p}"));
        }
    }
    Ok(n.to_be_bytes().to_vec())
}
fn one(c: &mut Case, limit: i64, p: usize, rec: usize, d: i64) -> Result<(), String> {
    let dir = c.path("");
    let n = with_base(&dir, limit, ROOM, |b| {
        let dry = b.dry(p)?;
        let at = match dry.recs.get(rec) {
            Some(r) => r.0,
            None if rec == dry.recs.len() => dry.end,
            None => return Ok(vec![]),
        };
        let pad = MIN_PAD as i64 + limit - (at + d);
        if pad < MIN_PAD as i64 {
            return Err(format!("harness: the base of {} bytes leaves no room", b.len));
        }
        let n_fill = b.n_fill;
        let specs = program(p);
        // the record starts at limit - d unless an earlier one grew
        let expect = if d >= 0 { Some((limit - d, rec)) } else { None };
        b.child(pad as usize, &specs, |path| judge(path, n_fill, pad as usize, &specs, expect))
    })?;
    let Some(n) = n.get(..8) else {
        return Ok(());
    };
    c.steps(u64::from_be_bytes(n.try_into().unwrap()));
    c.state((limit, p, rec, d));
    c.outcome((limit, p, rec, d.signum()));
    Ok(())
}
/// The filler itself passes the limit; read back completely.
fn straddle(c: &mut Case, limit: i64, over: i64, full: bool) -> Result<(), String> {
    let dir = c.path("");
    with_base(&dir, limit, -over, |b| {
        let n_fill = b.n_fill;
        let specs = program(0);
        b.child(MIN_PAD, &specs, |path| {
            judge(path, n_fill, MIN_PAD, &specs, None)?;
            if full {
                let mut f = RootFile::open(path).map_err(|e| format!("open: {e:?}"))?;
                let t = f.get_tree("fill").map_err(|e| format!("{e:?}"))?;
                let b = t.branch("z").ok_or("z")?;
                let mut n = 0;
                for (k, v) in b.as_iter::<String>().map_err(|e| format!("{e:?}"))?.enumerate() {
                    if (k + 1 < n_fill && v.len() != CHUNK) || v.bytes().any(|x| x != 0) {
                        return Err(format!("entry {k} of {} bytes differs", v.len()));
                    }
                    n += 1;
                }
                if n != n_fill {
                    return Err(format!("{n} entries instead of {n_fill}"));
                }
            }
            Ok(vec![])
        })
    })?;
    c.steps(c_len(limit));
    c.state((limit, over));
    Ok(())
}
fn c_len(l: i64) -> u64 {
    l as u64 / CHUNK as u64
}
/// A tree of one entry of each of these sizes, beside a small one. `must`: stored (true), refused
/// (false) or either; never anything else stored.
fn sizes(c: &mut Case, lens: &[usize], must: Option<bool>) -> Result<(), String> {
    let path = c.path("sizes.root");
    let small = TreeSpec::new("a", vec![mk("x", Ty::P(Prim::I32), 1, 3)]);
    io::start(Plan { prefix: path.to_string_lossy().into_owned(), sparse: true, ..Plan::default() });
    let mut f = RootFile::create(&path).map_err(|e| format!("create: {e:?}"))?;
    build(&small).write(&mut f).map_err(|e| format!("write: {e:?}"))?;
    let mut t = WriterTree::new("t");
    for (k, n) in lens.iter().enumerate() {
        let n = *n;
        t.new_branch(format!("c{k}"), std::iter::once(n).map(|n| String::from_utf8(vec![0u8; n]).unwrap()));
    }
    let r = t.write(&mut f);
    drop(t);
    match (&r, must) {
        (Ok(()), Some(false)) => return Err("stored although its size cannot be".into()),
        (Err(e), Some(true)) => return Err(format!("refused: {e:?}")),
        _ => {}
    }
    f.close().map_err(|e| format!("close: {e:?}"))?;
    drop(f);
    let mut f = RootFile::open(&path).map_err(|e| format!("open: {e:?}"))?;
    verify_tree(&mut f, &small)?;
    let names: Vec<String> = f.keys_name().map(|s| s.to_string()).collect();
    if names != if r.is_ok() { vec!["a", "t"] } else { vec!["a"] } {
        return Err(format!("keys {names:?}"));
    }
    if r.is_ok() {
        let zeros = vec![0u8; 1 << 20];
        let t = f.get_tree("t").map_err(|e| format!("get_tree: {e:?}"))?;
        for (k, n) in lens.iter().enumerate() {
            let b = t.branch(&format!("c{k}")).ok_or("column not found")?;
            let mut got = vec![];
            for x in b.as_iter::<String>().map_err(|e| format!("{e:?}"))? {
                if !x.as_bytes().chunks(1 << 20).all(|c| c == &zeros[..c.len()]) {
                    return Err(format!("column {k} differs"));
                }
                got.push(x.len());
            }
            if got != [*n] {
                return Err(format!("column {k}: entries of {got:?} bytes instead of {n}"));
            }
        }
    }
    c.steps(lens.len() as u64);
    c.state(lens);
    c.outcome(r.is_ok());
    Ok(())
}
/// A column of `n` units.
fn units(c: &mut Case, n: usize) -> Result<(), String> {
    const LEN: usize = 32 * 1024;
    let path = c.path("units.root");
    let entry = |i: usize| -> String {
        let mut v = vec![b'a' + (i % 26) as u8; LEN];
        v[..8].copy_from_slice(format!("{i:08}").as_bytes());
        String::from_utf8(v).unwrap()
    };
    let mut f = RootFile::create(&path).map_err(|e| format!("create: {e:?}"))?;
    let mut t = WriterTree::new("t");
    t.new_branch("s", (0..n).map(entry));
    t.new_branch("i", (0..n as i64).map(|i| i * i));
    t.write(&mut f).map_err(|e| format!("write: {e:?}"))?;
    f.close().map_err(|e| format!("close: {e:?}"))?;
    drop(f);
    let mut f = RootFile::open(&path).map_err(|e| format!("open: {e:?}"))?;
    let t = f.get_tree("t").map_err(|e| format!("get_tree: {e:?}"))?;
    let b = t.branch("s").ok_or("no column s")?;
    let mut k = 0;
    for x in b.as_iter::<String>().map_err(|e| format!("{e:?}"))? {
        if x != entry(k) {
            return Err(format!("entry {k} differs"));
        }
        k += 1;
    }
    let b = t.branch("i").ok_or("no column i")?;
    if k != n || t.entries() != n as i64 || !b.as_iter::<i64>().map_err(|e| format!("{e:?}"))?.eq((0..n as i64).map(|i| i * i)) {
        return Err(format!("{k} entries read, {} reported instead of {n}, or column i differs", t.entries()));
    }
    drop(f);
    let m = Map::new(&path)?;
    let b = rootr::File::parse(m.bytes())?;
    let k = b.records()?.len();
    if k < n {
        return Err(format!("harness: {k} records for {n} units"));
    }
    c.steps(n as u64);
    c.state(("units", n));
    Ok(())
}
pub fn run(cx: &mut Ctx) {
    let quick = cx.tier.quick();
    const G: usize = 1 << 30;
    for (lens, must) in [(vec![2 * G - 1001], Some(true)), (vec![2 * G - 60], None), (vec![2 * G - 1], None), (vec![2 * G], Some(false)), (vec![4 * G + 3], Some(false)), (vec![G + 100_000, G + 100_000], Some(true))] {
        cx.case(|| format!("one entry of {lens:?} bytes in each column"), |c| sizes(c, &lens, must));
    }
    for n in [32_770] {
        cx.case(|| format!("a column of {n} units"), |c| units(c, n));
    }
    let limits: &[i64] = if quick { &[2_000_000_000, 1 << 31, 1 << 32] } else { &[2_000_000_000, 1 << 31, 3_000_000_000, 1 << 32, 5_000_000_000] };
    for &l in limits {
        for (over, full) in [(20_000_000i64, true)] {
            cx.case(|| format!("the filler ends {over} bytes past {l}"), |c| straddle(c, l, over, full));
        }
    }
    for &l in limits {
        for p in 0..cx.tier.pick(3, 4) {
            // how many records follow the padding is a fact of the program, found by the dry run;
            // the last slot taken stands for the end of the file
            for r in 0..SLOTS[p] {
                let near: i64 = cx.tier.pick(if l == 2_000_000_000 { 24 } else { 3 }, 70);
                for d in -near..=near {
                    cx.case(|| format!("byte {d} of record {r} of program {p} at {l}"), |c| one(c, l, p, r, d));
                }
            }
        }
    }
}
const SLOTS: [usize; 4] = [14, 24, 18, 48];
