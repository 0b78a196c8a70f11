//! C26: reading and writing stream: memory, reads and file descriptors stay bounded, and are given back.
use super::c09::{build as build_kind, kinds};
use crate::col::*;
use crate::core::*;
use crate::dynread::suggested;
use crate::io::{self, Kind, Plan};
use crate::rootr;
use crate::rootw::{Codec, Layout};
use crate::sched::{HELD, METER, MOST};
use oxyroot::{ReadFromTree, ReaderTree, RootFile, WriteToTree, WriterTree};
use std::cell::Cell;
use std::path::Path;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

/// Number of open descriptors below `lim`.
fn fds(lim: i32) -> usize {
    (0..lim).filter(|fd| unsafe { libc::fcntl(*fd, libc::F_GETFD) } >= 0).count()
}
/// The most memory held while `f` runs beyond what was held before, and what it leaves behind.
fn metered<T>(f: impl FnOnce() -> T) -> (T, i64, i64) {
    HELD.store(0, Relaxed);
    MOST.store(0, Relaxed);
    METER.store(true, Relaxed);
    let r = f();
    METER.store(false, Relaxed);
    (r, MOST.load(Relaxed), HELD.load(Relaxed))
}
/// Does the most memory held depend on the number of units?
fn flat(what: &str, peaks: &[(usize, i64)]) -> Result<(), String> {
    let base = peaks.iter().filter(|(u, _)| *u <= 4).map(|(_, p)| *p).max().unwrap();
    for (u, p) in peaks {
        let most = 2 * base + 20_000 + 400 * *u as i64;
        if *p > most {
            return Err(format!("{what}: {p} bytes are held with {u} units, {base} with 4 or fewer"));
        }
    }
    Ok(())
}
struct Seen {
    most: i64,
    n: usize,
}
/// First entry and stored bytes of every unit of every column.
fn units_of(p: &Path) -> Result<Vec<Vec<(usize, i64)>>, String> {
    let b = std::fs::read(p).map_err(|e| e.to_string())?;
    let f = rootr::File::parse(&b)?;
    let k = f.records()?.into_iter().map(|r| r.key).find(|k| k.class == "TTree").ok_or("no tree")?;
    let t = f.tree(&k)?;
    let of = |b: &rootr::Branch| b.basket_entry.iter().zip(&b.basket_bytes).take(b.write_basket as usize).map(|(e, n)| (*e as usize, *n as i64)).collect();
    Ok(t.branches.iter().map(of).collect())
}
/// Reads a column to its end; at the beginning of each unit the bytes read from the file so far must not
/// exceed those of the units reached (`starts`: first entry and stored bytes of each).
fn drain(p: &Path, col: &str, starts: Option<&[(usize, i64)]>) -> Result<Seen, String> {
    let tree = RootFile::open(p).map_err(|e| format!("open: {e:?}"))?.get_tree("tree").map_err(|e| format!("get_tree: {e:?}"))?;
    let b = tree.branch(col).ok_or("column not found")?;
    let mut marks = vec![0; starts.map_or(0, |s| s.len())];
    let mut log = Vec::with_capacity(100_000);
    log.clear();
    io::start(Plan { prefix: p.to_string_lossy().into(), keep_log: starts.is_some(), log, ..Default::default() });
    let (n, most, _) = metered(|| {
        let mut it = match suggested(b, true) {
            Some(Ok(it)) => it,
            _ => return None,
        };
        let mut n = 0;
        let mut u = 0;
        while let Some(v) = it.next() {
            drop(v);
            if let Some(s) = starts {
                if s.get(u).is_some_and(|s| s.0 == n) {
                    marks[u] = io::n_ops();
                    u += 1;
                }
            }
            n += 1;
        }
        marks.truncate(u);
        Some(n)
    });
    let plan = io::stop();
    let n = n.ok_or("not readable")?;
    if let Some(s) = starts {
        let mut upto = 0;
        let mut sum = 0;
        for (u, m) in marks.iter().enumerate() {
            let m = *m;
            sum += plan.log[upto..m.min(plan.log.len())].iter().filter(|e| e.kind == Kind::Read).map(|e| e.ret.max(0)).sum::<i64>();
            upto = m.min(plan.log.len());
            let due: i64 = s.iter().take(u + 3).map(|s| s.1).sum();
            let most = 3 * due + 40_000 * (u as i64 + 2);
            if sum > most {
                return Err(format!("{sum} bytes have been read from the file when the first entry of unit {u} is handed out; the units up to the one after next have {due}"));
            }
        }
    }
    Ok(Seen { most, n })
}

#[derive(ReadFromTree, WriteToTree, Clone, Debug, PartialEq)]
struct Row {
    a: i32,
    s: String,
    v: Vec<f32>,
    z: [i16; 3],
}
fn row(i: usize) -> Row {
    Row { a: i as i32, s: "x".repeat(i % 40), v: vec![i as f32; i % 9], z: [i as i16; 3] }
}

/// Operations on one file read and one written.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Open,
    OpenMissing,
    OpenBroken,
    Get,
    GetMissing,
    It(usize),
    ItWrong,
    Step(usize),
    Drain(usize),
    DropIt(usize),
    DropTree,
    DropFile,
    Damaged,
    Create,
    CreateRefused,
    Put,
    PutRefused,
    Close,
    DropW,
}
use Op::*;
const OPS: [Op; 21] = [
    Open, OpenMissing, OpenBroken, Get, GetMissing, It(0), It(1), ItWrong, Step(0), Step(1), Drain(0), DropIt(0), DropIt(1), DropTree, DropFile, Damaged, Create, CreateRefused, Put, PutRefused, Close,
];
/// number of objects alive: file read, trees, iterators with their trees, file written (and closed)
#[derive(Clone, Default, Debug, PartialEq, Eq, Hash)]
struct M {
    r: bool,
    trees: usize,
    its: Vec<usize>,
    w: Option<bool>,
}
impl M {
    fn step(&self, o: Op) -> Option<M> {
        let mut m = self.clone();
        let ok = match o {
            Open => {
                let ok = !m.r;
                m.r = true;
                ok
            }
            OpenMissing | OpenBroken | CreateRefused | Damaged => true,
            Get => {
                m.trees += 1;
                m.r && m.trees <= 2
            }
            GetMissing => m.r,
            It(_) => {
                m.its.push(m.trees.wrapping_sub(1));
                m.trees > 0 && m.its.len() <= 2
            }
            ItWrong => m.trees > 0,
            Step(i) | Drain(i) => i < m.its.len(),
            DropIt(i) => {
                let ok = i < m.its.len();
                if ok {
                    m.its.remove(i);
                }
                ok
            }
            DropTree => {
                let ok = m.trees > 0 && !m.its.contains(&(m.trees - 1));
                m.trees = m.trees.wrapping_sub(1);
                ok
            }
            DropFile => {
                let ok = m.r;
                m.r = false;
                ok
            }
            Create => {
                let ok = m.w.is_none();
                m.w = Some(false);
                ok
            }
            Put | PutRefused => m.w == Some(false),
            Close => {
                let ok = m.w == Some(false);
                m.w = Some(true);
                ok
            }
            DropW => m.w.take().is_some(),
        };
        ok.then_some(m)
    }
    fn alive(&self) -> usize {
        self.r as usize + self.trees + self.its.len() + self.w.is_some() as usize
    }
}
type AnyIt = Box<dyn Iterator<Item = usize>>;
struct World<'p> {
    dir: &'p Path,
    // in the order they have to be dropped
    its: Vec<AnyIt>,
    trees: Vec<*mut ReaderTree>,
    r: Option<RootFile>,
    w: Option<RootFile>,
}
impl World<'_> {
    fn exec(&mut self, o: Op) -> Result<(), String> {
        match o {
            Open => self.r = Some(RootFile::open(self.dir.join("a.root")).map_err(|e| format!("{e:?}"))?),
            OpenMissing => drop(RootFile::open(self.dir.join("missing.root"))),
            OpenBroken => drop(guard(|| RootFile::open(self.dir.join("broken.root")).map(|_| ()))),
            Get => self.trees.push(Box::into_raw(Box::new(self.r.as_mut().unwrap().get_tree("t").map_err(|e| format!("{e:?}"))?))),
            GetMissing => {
                if self.r.as_mut().unwrap().get_tree("u").is_ok() {
                    return Err("missing tree found".into());
                }
            }
            It(k) => {
                // dropped before its tree
                let t: &'static ReaderTree = unsafe { &**self.trees.last().unwrap() };
                self.its.push(if k == 0 {
                    Box::new(t.branch("s").unwrap().as_iter::<String>().map_err(|e| format!("{e:?}"))?.map(|s| s.len()))
                } else {
                    Box::new(t.branch("v").unwrap().as_iter::<Vec<i32>>().map_err(|e| format!("{e:?}"))?.map(|s| s.len()))
                });
            }
            ItWrong => {
                let t: &ReaderTree = unsafe { &**self.trees.last().unwrap() };
                if t.branch("s").unwrap().as_iter::<f32>().is_ok() {
                    return Err("wrong type accepted".into());
                }
            }
            Step(i) => drop(self.its[i].next()),
            Drain(i) => while self.its[i].next().is_some() {},
            DropIt(i) => drop(self.its.remove(i)),
            DropTree => drop(unsafe { Box::from_raw(self.trees.pop().unwrap()) }),
            DropFile => self.r = None,
            Damaged => {
                let p = self.dir.join("damaged.root");
                let r = guard(|| {
                    let t = RootFile::open(&p).unwrap().get_tree("t").unwrap();
                    let n = t.branch("s").unwrap().as_iter::<String>().unwrap().count();
                    n
                });
                if r.is_ok() {
                    return Err("MACHINERY: damaged file is readable".into());
                }
            }
            Create => self.w = Some(RootFile::create(self.dir.join("w.root")).map_err(|e| format!("{e:?}"))?),
            CreateRefused => {
                if RootFile::create(self.dir.join("no-such-dir/w.root")).is_ok() {
                    return Err("created in a missing directory".into());
                }
            }
            Put | PutRefused => {
                let mut t = WriterTree::new(if o == Put { "t" } else { "a/b" });
                t.new_branch("x", 0..3i32);
                t.new_branch("v", (0..3i32).map(|i| vec![i; i as usize]));
                if t.write(self.w.as_mut().unwrap()).is_ok() != (o == Put) {
                    return Err(format!("{o:?}"));
                }
            }
            Close => self.w.as_mut().unwrap().close().map_err(|e| format!("{e:?}"))?,
            DropW => self.w = None,
        }
        Ok(())
    }
}
impl Drop for World<'_> {
    fn drop(&mut self) {
        self.its.clear();
        for t in self.trees.drain(..) {
            drop(unsafe { Box::from_raw(t) });
        }
    }
}
fn histories(m: &M, left: usize, cur: &mut Vec<Op>, f: &mut dyn FnMut(&[Op]) -> Result<(), String>) -> Result<(), String> {
    if left == 0 {
        return f(cur);
    }
    for o in OPS.into_iter().chain([DropW]) {
        if let Some(n) = m.step(o) {
            cur.push(o);
            histories(&n, left - 1, cur, f)?;
            cur.pop();
        }
    }
    Ok(())
}
const LIM: i32 = 64;
fn prepare(dir: &Path) -> Result<(), String> {
    let s = Col::new("s", Ty::Str, (0..5).map(|i| text(i, 20000)).collect());
    let v = Col::new("v", Ty::V(Prim::I32), (0..5).map(|i| Ty::V(Prim::I32).val(i, 3)).collect());
    let p = dir.join("a.root");
    write_file(&p, &[TreeSpec::new("t", vec![s, v])])?;
    let b = std::fs::read(&p).map_err(|e| e.to_string())?;
    std::fs::write(dir.join("broken.root"), &b[..b.len() / 2]).map_err(|e| e.to_string())?;
    // the second unit claims to be a compressed one
    let mut d = b.clone();
    let at: Vec<usize> = (0..d.len() - 8).filter(|i| d[*i..*i + 7] == *b"TBasket").collect();
    d[at[1] - 21..at[1] - 17].copy_from_slice(&[0x7f; 4]);
    std::fs::write(dir.join("damaged.root"), &d).map_err(|e| e.to_string())
}
fn replay(c: &mut Case, ops: &[Op]) -> Result<(), String> {
    let base = fds(LIM);
    let mut left = vec![];
    for rep in 0..4 {
        let mut err = Ok(());
        let ((), _, held) = metered(|| {
            let mut w = World { dir: c.dir, its: Vec::new(), trees: Vec::new(), r: None, w: None };
            let mut m = M::default();
            for (i, o) in ops.iter().enumerate() {
                err = w.exec(*o).map_err(|e| format!("operation {i} ({o:?}): {e}"));
                m = m.step(*o).unwrap();
                let n = fds(LIM) - base;
                if err.is_ok() && n > m.alive() {
                    err = Err(format!("after operation {i} ({o:?}) {n} descriptors are open for {} objects", m.alive()));
                }
                if err.is_err() {
                    break;
                }
            }
        });
        err?;
        let n = fds(LIM);
        if n != base {
            return Err(format!("{} descriptors are still open after everything was dropped", n - base));
        }
        left.push(held);
        if rep >= 2 && left[rep] > 0 && left[rep] >= left[rep - 1] && left[1] > 0 {
            // what is kept from one run to the next is allowed, growing with every run is not
            if rep == 3 {
                return Err(format!("every repetition leaves more memory behind: {left:?}"));
            }
        }
    }
    c.steps(4 * ops.len() as u64);
    Ok(())
}
/// Repeats `lp`, which leaves the same objects alive, after `ops`.
fn cycle(c: &mut Case, ops: &[Op], lp: &[Op]) -> Result<(), String> {
    let mut w = World { dir: c.dir, its: Vec::with_capacity(8), trees: Vec::with_capacity(8), r: None, w: None };
    for o in ops {
        w.exec(*o)?;
    }
    let mut grown = 0;
    let mut all = vec![];
    // the first ones use the iterators up
    for rep in 0..16 {
        let mut err = Ok(());
        let ((), _, held) = metered(|| {
            for o in lp {
                err = w.exec(*o);
                if err.is_err() {
                    break;
                }
            }
        });
        err?;
        if rep >= 8 {
            grown += (held > 0) as usize;
            all.push(held);
        }
    }
    // tables may double in size now and then
    if grown > 4 || all.iter().sum::<i64>() > 20_000 {
        return Err(format!("the memory held grows: {all:?}"));
    }
    c.steps(16 * lp.len() as u64);
    Ok(())
}

thread_local! {
    static TOP: Cell<usize> = const { Cell::new(0) };
}
static WIDE: AtomicUsize = AtomicUsize::new(64);
fn count(_: &Kind) {
    let n = fds(WIDE.load(Relaxed) as i32);
    TOP.with(|t| t.set(t.get().max(n)));
}
fn wide(c: &mut Case, n: usize, all_at_once: bool) -> Result<(), String> {
    WIDE.store(3 * n + 64, Relaxed);
    let lim = WIDE.load(Relaxed) as i32;
    let base = fds(lim);
    let p = c.path("w.root");
    let cols: Vec<Col> = (0..n)
        .map(|i| {
            let ty = [Ty::P(Prim::I32), Ty::Str, Ty::V(Prim::U8), Ty::A(Prim::F64, 2)][i % 4];
            Col::new(&format!("c{i}"), ty, (0..3).map(|k| ty.val((i * 5 + k) as u64, (i + k) % 4)).collect())
        })
        .collect();
    let spec = TreeSpec::new("t", cols);
    let watch = |what: &str, objects: usize, f: &mut dyn FnMut() -> Result<(), String>| -> Result<(), String> {
        TOP.with(|t| t.set(0));
        io::start(Plan { prefix: c.dir.to_string_lossy().into(), ..Default::default() });
        io::set_hook(Some(count));
        let r = guard(f);
        io::set_hook(None);
        io::stop();
        r.unwrap_or_else(Err).map_err(|e| format!("{what}: {e}"))?;
        let top = TOP.with(|t| t.get()).max(fds(lim)) - base;
        // one besides may be open for a moment
        if top > objects + 2 {
            return Err(format!("{what}: {top} descriptors are open at a time"));
        }
        Ok(())
    };
    watch("writing", 1, &mut || write_file(&p, &[spec.clone()]))?;
    if all_at_once {
        watch("reading all columns together", 2 + n, &mut || {
            let t = RootFile::open(&p).map_err(|e| format!("open: {e:?}"))?.get_tree("t").map_err(|e| format!("get_tree: {e:?}"))?;
            let mut its = vec![];
            for col in &spec.cols {
                its.push(iter_of(t.branch(&col.name).ok_or("column not found")?, col.ty, true)?);
            }
            for k in 0..4 {
                for (it, col) in its.iter_mut().zip(&spec.cols) {
                    if it.next().as_ref() != col.vals.get(k) {
                        return Err(format!("column {} entry {k}", col.name));
                    }
                }
            }
            Ok(())
        })?;
    }
    watch("reading", 3, &mut || verify_file(&p, &[spec.clone()]))?;
    if fds(lim) != base {
        return Err(format!("{} descriptors are left open", fds(lim) - base));
    }
    c.state(("wide", n, all_at_once));
    c.outcome(("wide", n));
    c.steps(n as u64 * 3);
    Ok(())
}

pub fn run(cx: &mut Ctx) {
    let tier = cx.tier;
    let units: Vec<usize> = tier.pick(vec![2, 4, 12, 40], vec![1, 2, 3, 4, 5, 7, 10, 11, 20, 40, 80]);
    // columns written by the library: writing and reading
    let mut tys: Vec<Ty> = [Prim::Bool, Prim::U8, Prim::I16, Prim::U32, Prim::I64, Prim::F32, Prim::F64].into_iter().map(Ty::P).collect();
    tys.extend([Ty::A(Prim::I32, 3), Ty::A(Prim::F64, 7), Ty::Str, Ty::V(Prim::U8), Ty::V(Prim::F64)]);
    for ty in &tys {
        for len in if ty.fixed().is_some() { vec![1] } else { vec![0usize, 3, 60, 40000] } {
            for cols in [1usize, 3] {
                let units = &units;
                cx.case(|| format!("{} of length {len} in {cols} columns", ty.rust()), |c| {
                    let one = ty.val(0, len);
                    let per = ty.stored(one.len());
                    let mut wrote = vec![];
                    let mut read = vec![];
                    for u in units {
                        let p = c.path("f.root");
                        let n = (u * 32_000 / per).max(*u);
                        let lag = Cell::new(0i64);
                        let lag: &'static Cell<i64> = unsafe { &*(&lag as *const _) };
                        let mut t = WriterTree::new("tree");
                        for k in 0..cols {
                            let (val, p) = (one.clone(), p.clone());
                            let total = n - n / 3 * k.min(1);
                            stream(&mut t, &format!("c{k}"), *ty, val, total, move |i| {
                                if k == 0 && i % 97 == 0 {
                                    let on = std::fs::metadata(&p).map(|m| m.len()).unwrap_or(0) as i64;
                                    lag.set(lag.get().max((i * per) as i64 - on));
                                }
                            });
                        }
                        let mut f = RootFile::create(&p).map_err(|e| format!("{e:?}"))?;
                        let (r, most, _) = metered(|| t.write(&mut f).and_then(|_| f.close()));
                        r.map_err(|e| format!("write: {e:?}"))?;
                        wrote.push((*u, most));
                        let all = units_of(&p)?;
                        let unit = all.iter().flatten().map(|u| u.1).max().unwrap_or(0);
                        if lag.get() > 3 * unit + 20_000 {
                            return Err(format!("{u} units: {} bytes had been provided that were not in the file", lag.get()));
                        }
                        for k in 0..cols {
                            let total = n - n / 3 * k.min(1);
                            let s = drain(&p, &format!("c{k}"), Some(&all[k])).map_err(|e| format!("{u} units: {e}"))?;
                            if s.n != total {
                                return Err(format!("{u} units: {} values instead of {total}", s.n));
                            }
                            c.steps(total as u64);
                            if k == 0 {
                                read.push((*u, s.most));
                            }
                        }
                        c.state((ty.rust(), len, cols, u));
                    }
                    c.outcome((ty.rust(), len));
                    if c.verbose {
                        println!("wrote {wrote:?} read {read:?}");
                    }
                    flat("writing", &wrote)?;
                    flat("reading", &read)
                });
            }
        }
    }
    // columns as ROOT lays them out
    let all = kinds();
    for k in &all {
        for codec in tier.pick(vec![Codec::Zlib], vec![Codec::None, Codec::Zlib, Codec::Lz4]) {
            for emb in [false, true] {
                let units = &units;
                cx.case(|| format!("{} {codec:?}{}", k.label, if emb { ", the last unit embedded" } else { "" }), |c| {
                    let mut peaks = vec![];
                    for u in units {
                        let e = 1000;
                        let lens: Vec<usize> = (0..u * e).map(|i| [1, 0, 3, 2][i % 4]).collect();
                        let b = build_kind(k, &vec![e; *u], &lens, emb, &Layout { codec, ..Default::default() });
                        let p = c.path("f.root");
                        std::fs::write(&p, &b.bytes).map_err(|e| e.to_string())?;
                        let s = drain(&p, &b.want[1].0, None).map_err(|e| format!("{u} units: {e}"))?;
                        if s.n != u * e {
                            return Err(format!("{u} units: {} values instead of {}", s.n, u * e));
                        }
                        c.steps(s.n as u64);
                        peaks.push((*u, s.most));
                        c.state((&k.label, format!("{codec:?}"), emb, u));
                    }
                    c.outcome((&k.label, emb));
                    if c.verbose {
                        println!("{peaks:?}");
                    }
                    flat("reading", &peaks)
                });
            }
        }
    }
    // split columns read as a whole
    for codec in [Codec::None, Codec::Zlib, Codec::Lz4] {
        for emb in [false, true] {
            cx.case(|| format!("split column {codec:?}{}", if emb { ", the last units embedded" } else { "" }), |c| {
                let mut peaks = vec![];
                for u in tier.pick(vec![1, 2, 4, 20], vec![1, 2, 3, 4, 8, 20, 60]) {
                    let n = u * 3000;
                    let p = c.path("f.root");
                    std::fs::write(&p, super::c25::long(n, codec, emb)).map_err(|e| e.to_string())?;
                    let t = RootFile::open(&p).map_err(|e| format!("{e:?}"))?.get_tree("tree").map_err(|e| format!("{e:?}"))?;
                    let (r, most, _) = metered(|| t.branch("ev").map(|b| b.get_basket(|r| r.len()).filter(|l| *l == 26).count()));
                    if r != Some(n) {
                        return Err(format!("{n} entries: {r:?} found"));
                    }
                    peaks.push((u, most));
                    c.state(("split", format!("{codec:?}"), emb, u));
                    c.steps(n as u64);
                }
                if c.verbose {
                    println!("{peaks:?}");
                }
                flat("reading", &peaks)
            });
        }
    }
    // rows of derived structs
    cx.case(|| "rows".into(), |c| {
        let (mut wrote, mut read) = (vec![], vec![]);
        for u in &units {
            let n = u * 2000;
            let p = c.path("f.root");
            let mut f = RootFile::create(&p).map_err(|e| format!("{e:?}"))?;
            let mut t = WriterTree::new("tree");
            Row::to_tree((0..n).map(row), &mut t).map_err(|e| format!("{e:?}"))?;
            let (r, most, _) = metered(|| t.write(&mut f).and_then(|_| f.close()));
            r.map_err(|e| format!("write: {e:?}"))?;
            wrote.push((*u, most));
            let t = RootFile::open(&p).map_err(|e| format!("{e:?}"))?.get_tree("tree").map_err(|e| format!("{e:?}"))?;
            let (r, most, _) = metered(|| Row::from_tree(&t).map(|it| it.enumerate().filter(|(i, r)| *r == row(*i)).count()));
            if r.map_err(|e| format!("{e:?}"))? != n {
                return Err("rows differ".into());
            }
            read.push((*u, most));
            c.state(("rows", u));
            c.steps(2 * n as u64);
        }
        if c.verbose {
            println!("wrote {wrote:?} read {read:?}");
        }
        flat("writing rows", &wrote)?;
        flat("reading rows", &read)
    });
    // histories of operations
    let depth = tier.pick(5, 6);
    let mut firsts = vec![];
    histories(&M::default(), 3, &mut vec![], &mut |ops| {
        firsts.push(ops.to_vec());
        Ok(())
    })
    .unwrap();
    for ops in &firsts {
        let m = ops.iter().fold(M::default(), |m, o| m.step(*o).unwrap());
        cx.case(|| format!("histories {ops:?}"), |c| {
            prepare(c.dir)?;
            histories(&m, depth - 3, &mut ops.clone(), &mut |ops| {
                c.state(ops);
                c.outcome(ops.iter().fold(M::default(), |m, o| m.step(*o).unwrap()));
                replay(c, ops).map_err(|e| format!("{ops:?}: {e}"))
            })
        });
    }
    // the same again and again on objects that stay alive
    let mut starts = vec![vec![]];
    for n in 1..=tier.pick(3, 4) {
        histories(&M::default(), n, &mut vec![], &mut |ops| {
            // nothing superfluous in it
            if ops.iter().all(|o| matches!(o, Open | Get | It(_) | Create | Close)) {
                starts.push(ops.to_vec());
            }
            Ok(())
        })
        .unwrap();
    }
    for ops in &starts {
        let m = ops.iter().fold(M::default(), |m, o| m.step(*o).unwrap());
        cx.case(|| format!("loops after {ops:?}"), |c| {
            prepare(c.dir)?;
            for n in 1..=tier.pick(3, 4) {
                histories(&m, n, &mut vec![], &mut |lp| {
                    let end = lp.iter().fold(m.clone(), |m, o| m.step(*o).unwrap());
                    if end != m || lp.contains(&Put) {
                        return Ok(());
                    }
                    c.state((ops, lp));
                    cycle(c, ops, lp).map_err(|e| format!("{ops:?}, then repeatedly {lp:?}: {e}"))
                })?;
            }
            Ok(())
        });
    }
    // many columns
    for n in (0..=tier.pick(20, 70)).chain(tier.pick(vec![300, 1100], vec![300, 1100, 3000])) {
        for together in [false, true] {
            if n <= 300 || !together {
                cx.case(|| format!("{n} columns{}", if together { " read together" } else { "" }), |c| wide(c, n, together));
            }
        }
    }
}
/// A column of `n` times the same value, made on demand.
fn stream(t: &mut WriterTree, name: &str, ty: Ty, val: Val, n: usize, mut on: impl FnMut(usize) + 'static) {
    let i = Cell::new(0);
    let tick = move || {
        on(i.get());
        i.set(i.get() + 1);
    };
    repeat_branch(t, name, ty, val, n, Box::new(tick));
}
