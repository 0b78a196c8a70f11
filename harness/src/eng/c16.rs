//! C16: what a thread writes or reads does not depend on other threads, nor on what the process
//! did before.
use super::c03::mk;
use crate::col::*;
use crate::core::*;
use crate::dynread::{suggested, V};
use crate::io::{self, Kind};
use crate::sched::{fresh, instrumented, load_symbols, point, quiet, run as sched_run, ALLOC, CALLS, GIVEN_UP, SYNC};
use oxyroot::{RootFile, WriterTree};
use std::path::{Path, PathBuf};
use std::sync::atomic::Ordering;

/// What one thread does; the result is the bytes it produced.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Prog {
    /// writes a file of this shape
    W(usize),
    /// reads the prepared file of this shape
    R(usize),
    /// reads a file of the bundled samples
    S(usize),
    /// copies a prepared file, the columns being read while the new tree is written
    Copy(usize),
    /// reads one column of a prepared file in two interleaved iterations
    Twice(usize),
    // only as history
    Abandon(usize),
    Missing,
    Refused,
    Broken,
    Partial(usize),
}
use Prog::*;
fn shape(k: usize) -> Vec<TreeSpec> {
    let one = |c: Vec<Col>| vec![TreeSpec::new("t", c)];
    match k {
        0 => one(vec![mk("x", Ty::P(Prim::I32), 1, 3)]),
        1 => one(vec![mk("s", Ty::Str, 2, 3), mk("v", Ty::V(Prim::F32), 3, 2)]),
        2 => vec![TreeSpec::new("a", vec![mk("a", Ty::A(Prim::I16, 3), 4, 2)]), TreeSpec::new("b", vec![mk("b", Ty::P(Prim::Bool), 5, 3)])],
        // several units
        3 => one(vec![Col::new("s", Ty::Str, (0..4).map(|i| text(i, 20000)).collect()), mk("x", Ty::P(Prim::U8), 1, 4)]),
        4 => one(vec![]),
        _ => vec![TreeSpec::new("t", vec![mk("v", Ty::V(Prim::I64), 3, 3)]), TreeSpec::new("t", vec![mk("v", Ty::V(Prim::I64), 9, 2), mk("w", Ty::P(Prim::F64), 9, 1)])],
    }
}
const SHAPES: usize = 6;
const SAMPLES: [&str; 4] = [
    "/repo/oxyroot/examples/from_uproot/data/simple.root",
    "/repo/oxyroot/tests_data/from_uproot/sample-6.10.05-lz4.root",
    "/repo/oxyroot/tests/stl_containers/stl_containers.root",
    "/repo/oxyroot/tests_data/from_uproot/sample-6.10.05-lzma.root",
];
fn e<E: std::fmt::Debug>(e: E) -> String {
    format!("{e:?}")
}
fn add(tree: &mut WriterTree, c: &Col) {
    add_branch(tree, &c.name, c.ty, &c.vals, Some(Box::new(point)), 0)
}
fn write(p: &Path, specs: &[TreeSpec]) -> Result<(), String> {
    let mut f = RootFile::create(p).map_err(e)?;
    point();
    for s in specs {
        let mut t = WriterTree::new(&s.name);
        for c in &s.cols {
            add(&mut t, c);
        }
        point();
        t.write(&mut f).map_err(e)?;
        point();
    }
    f.close().map_err(e)?;
    point();
    Ok(())
}
fn read(p: &Path, cap: usize) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    let mut f = RootFile::open(p).map_err(e)?;
    point();
    let names: Vec<String> = f.keys_name().map(|s| s.to_string()).collect();
    for n in names {
        let t = match f.get_tree(&n) {
            Ok(t) => t,
            Err(_) => continue,
        };
        point();
        quiet(|| out.extend(format!("{n} {}\n", t.entries()).bytes()));
        for b in t.branches() {
            quiet(|| out.extend(format!("{} {}\n", b.name(), b.item_type_name()).bytes()));
            if let Some(Ok(it)) = suggested(b, true) {
                for v in it.take(cap) {
                    quiet(|| push(&mut out, &v));
                    point();
                }
            }
        }
    }
    Ok(out)
}
fn push(out: &mut Vec<u8>, v: &V) {
    out.extend(format!("{v:?}").bytes())
}
fn sample_cap(k: usize) -> usize {
    [3, 2, 5, 4][k]
}
/// Runs the program as participant `me`; `base` holds the prepared files.
fn exec(p: Prog, base: &Path, me: &str) -> Result<Vec<u8>, String> {
    let out = quiet(|| base.join(format!("out-{me}.root")));
    let prep = |k: usize| quiet(|| base.join(format!("prep-{k}.root")));
    let bytes = |out: &PathBuf| quiet(|| std::fs::read(out).map_err(e));
    match p {
        W(k) => {
            let specs = quiet(|| shape(k));
            write(&out, &specs)?;
            bytes(&out)
        }
        R(k) => read(&prep(k), usize::MAX),
        S(k) => read(Path::new(SAMPLES[k]), sample_cap(k)),
        Copy(k) => {
            let specs = quiet(|| shape(k));
            let mut from = RootFile::open(prep(k)).map_err(e)?;
            let mut to = RootFile::create(&out).map_err(e)?;
            for s in &specs {
                // providers must be 'static: the tree read from outlives the one written
                struct Keep(*mut oxyroot::ReaderTree);
                impl Drop for Keep {
                    fn drop(&mut self) {
                        unsafe { drop(Box::from_raw(self.0)) }
                    }
                }
                let keep = Keep(Box::into_raw(Box::new(from.get_tree(&s.name).map_err(e)?)));
                let t: &'static oxyroot::ReaderTree = unsafe { &*keep.0 };
                let mut w = WriterTree::new(&s.name);
                point();
                for b in t.branches() {
                    match b.interpretation().as_str() {
                        "i32" => w.new_branch(b.name(), b.as_iter::<i32>().map_err(e)?.inspect(|_| point())),
                        "u8" => w.new_branch(b.name(), b.as_iter::<u8>().map_err(e)?.inspect(|_| point())),
                        "bool" => w.new_branch(b.name(), b.as_iter::<bool>().map_err(e)?.inspect(|_| point())),
                        "f64" => w.new_branch(b.name(), b.as_iter::<f64>().map_err(e)?.inspect(|_| point())),
                        "String" => w.new_branch(b.name(), b.as_iter::<String>().map_err(e)?.inspect(|_| point())),
                        "Vec<f32>" => w.new_branch(b.name(), b.as_iter::<Vec<f32>>().map_err(e)?.inspect(|_| point())),
                        "Vec<i64>" => w.new_branch(b.name(), b.as_iter::<Vec<i64>>().map_err(e)?.inspect(|_| point())),
                        "[i16;3]" => w.new_branch(b.name(), b.as_iter::<[i16; 3]>().map_err(e)?.inspect(|_| point())),
                        t => return Err(format!("type {t}")),
                    }
                }
                w.write(&mut to).map_err(e)?;
                point();
            }
            to.close().map_err(e)?;
            bytes(&out)
        }
        Twice(k) => {
            let mut f = RootFile::open(prep(k)).map_err(e)?;
            let name = f.keys_name().next().ok_or("no key")?.to_string();
            let t = f.get_tree(&name).map_err(e)?;
            let mut r = vec![];
            for b in t.branches() {
                let mut a = suggested(b, true).ok_or("type")??;
                let mut z = suggested(b, true).ok_or("type")??;
                loop {
                    let x = a.next();
                    point();
                    let y = z.next();
                    if x != y {
                        return Err("two iterations differ".into());
                    }
                    match x {
                        Some(v) => quiet(|| push(&mut r, &v)),
                        None => break,
                    }
                }
            }
            Ok(r)
        }
        Abandon(k) => {
            let mut f = RootFile::create(&out).map_err(e)?;
            if let Some(s) = shape(k).first() {
                build(s).write(&mut f).map_err(e)?;
            }
            drop(f);
            Ok(vec![])
        }
        Missing => {
            let _ = guard(|| RootFile::open(base.join("absent.root")).is_ok());
            let _ = guard(|| RootFile::open(prep(0)).map(|mut f| f.get_tree("absent").is_ok()));
            Ok(vec![])
        }
        Refused => {
            let _ = guard(|| {
                let mut f = RootFile::create(&out).unwrap();
                let _ = build(&TreeSpec::new("a/b", vec![mk("x", Ty::P(Prim::I32), 1, 3)])).write(&mut f);
                let _ = f.close();
            });
            Ok(vec![])
        }
        Broken => {
            // a file cut short, opened and read as far as it goes
            let all = std::fs::read(prep(3)).map_err(e)?;
            for cut in [0, 50, 150, all.len() / 2, all.len() - 10] {
                std::fs::write(&out, &all[..cut]).map_err(e)?;
                let _ = guard(|| read(&out, usize::MAX).is_ok());
            }
            Ok(vec![])
        }
        Partial(k) => {
            let _ = guard(|| read(&prep(k), 1));
            Ok(vec![])
        }
    }
}
/// A scheduled participant: its file operations are scheduling points too.
fn thread(p: Prog, base: &Path, me: &str) -> Result<Vec<u8>, String> {
    fn coarse(_: &Kind) {
        point()
    }
    let prefix = quiet(|| base.to_string_lossy().into_owned());
    quiet(|| io::start(io::Plan { prefix, ..Default::default() }));
    io::set_hook(Some(coarse));
    let r = guard(|| exec(p, base, me));
    quiet(io::reset);
    r.unwrap_or_else(|m| Err(format!("panic: {m}")))
}
fn show_res(r: &Result<Vec<u8>, String>) -> String {
    match r {
        Ok(b) => format!("{} bytes", b.len()),
        Err(m) => format!("failure {m}"),
    }
}
fn same(what: &str, got: &Result<Vec<u8>, String>, want: &Result<Vec<u8>, String>) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    if let (Ok(g), Ok(w)) = (got, want) {
        let k = g.iter().zip(w).position(|(a, b)| a != b).unwrap_or(g.len().min(w.len()));
        return Err(format!("{what}: {} instead of {} bytes, first difference at byte {k}", g.len(), w.len()));
    }
    Err(format!("{what}: {} instead of {}", show_res(got), show_res(want)))
}
pub fn run(cx: &mut Ctx) {
    let tier = cx.tier;
    let base = cx.dir.clone();
    let _ = std::fs::create_dir_all(&base);
    // the reference: each program alone in a process of its own
    let mains: Vec<Prog> = (0..SHAPES).flat_map(|k| [W(k), R(k)]).chain((0..SAMPLES.len()).map(S)).chain((0..SHAPES).map(Copy)).chain([Twice(0), Twice(1), Twice(3)]).collect();
    let mut setup: Result<(), String> = Ok(());
    for k in 0..SHAPES {
        let p = base.join(format!("prep-{k}.root"));
        if let Err(m) = fresh(|| {
            write_file(&p, &shape(k)).unwrap();
            vec![]
        }) {
            setup = Err(format!("preparing file {k}: {m}"));
        }
    }
    let who = ["a", "b", "c"];
    let mut alone: std::collections::HashMap<(Prog, usize), Result<Vec<u8>, String>> = Default::default();
    for p in &mains {
        for (i, w) in who.iter().enumerate() {
            let r = fresh(|| exec(*p, &base, w).unwrap());
            if let Err(m) = &r {
                setup = Err(format!("{p:?} alone: {m}"));
            }
            alone.insert((*p, i), r);
        }
    }
    let _ = guard(|| exec(R(0), &base, "a"));
    if setup.is_ok() && !instrumented() {
        setup = Err("MACHINERY: the library is compiled without calls at the entry of its functions".into());
    }
    if let Err(m) = load_symbols() {
        setup = Err(format!("MACHINERY: {m}"));
    }
    cx.case(|| "every program alone".into(), |_| setup.clone());
    if setup.is_err() {
        return;
    }
    // 1. histories in one process
    let acts: Vec<Prog> = vec![W(0), W(1), W(2), W(3), R(1), S(2), Copy(5), Abandon(1), Missing, Refused, Broken, Partial(3)];
    let depth = tier.pick(2usize, 3);
    for last in &mains {
        for first in 0..acts.len() {
            cx.case(
                || format!("{last:?} after {depth} operations beginning with {:?}", acts[first]),
                |c| {
                    let mut seqs: Vec<Vec<usize>> = vec![vec![first]];
                    for d in 1..=depth {
                        let mut next = vec![];
                        for s in &seqs {
                            for a in s.iter() {
                                let _ = exec(acts[*a], &base, "b");
                                c.steps(1);
                            }
                            let got = guard(|| exec(*last, &base, "a")).unwrap_or_else(Err);
                            let names: Vec<&Prog> = s.iter().map(|a| &acts[*a]).collect();
                            same(&format!("{last:?} after {names:?}"), &got, &alone[&(*last, 0)])?;
                            c.state((last, s));
                            if d < depth {
                                next.extend((0..acts.len()).map(|a| [&s[..], &[a]].concat()));
                            }
                        }
                        seqs = next;
                    }
                    Ok(())
                },
            );
        }
    }
    // long histories of one operation
    for a in &acts {
        cx.case(
            || format!("every program after {} times {a:?}", tier.pick(300, 70_000 / 30)),
            |c| {
                for _ in 0..tier.pick(300, 70_000 / 30) {
                    let _ = exec(*a, &base, "b");
                    c.steps(1);
                }
                for p in &mains {
                    let got = guard(|| exec(*p, &base, "a")).unwrap_or_else(Err);
                    same(&format!("{p:?}"), &got, &alone[&(*p, 0)])?;
                    c.state((p, a, "many"));
                }
                Ok(())
            },
        );
    }
    // 2. two threads: every schedule with one context switch at any point (allocations included),
    //    every schedule with two (three) switches at file operations, requests and calls
    let pairs: Vec<(Prog, Prog)> = {
        let some: Vec<Prog> = if tier.quick() {
            vec![W(0), W(1), W(3), W(5), R(1), R(3), S(1), S(2), Copy(1)]
        } else {
            vec![W(0), W(1), W(3), R(1), R(3), S(2), Copy(1), Twice(1)]
        };
        some.iter().flat_map(|a| some.iter().map(|b| (*a, *b))).collect()
    };
    let pair = |c: &mut Case, plan: &[(usize, u64)], fine: u8, ps: &[Prog]| -> Result<Vec<u64>, String> {
        let bodies: Vec<Box<dyn FnOnce() -> Result<Vec<u8>, String> + Send>> = ps
            .iter()
            .enumerate()
            .map(|(i, p)| {
                let (p, base) = (*p, &base);
                Box::new(move || thread(p, base, who[i])) as _
            })
            .collect();
        let r = sched_run(plan, fine, bodies);
        c.steps(r.iter().map(|x| x.1).sum());
        c.state((ps, plan, fine));
        let mut n = vec![];
        for (i, (res, k)) in r.into_iter().enumerate() {
            let res = res.unwrap_or_else(|m| Err(format!("panic: {m}")));
            same(&format!("{:?} as thread {i} of {ps:?} under schedule {plan:?}", ps[i]), &res, &alone[&(ps[i], i)])?;
            n.push(k);
        }
        Ok(n)
    };
    const END: u64 = u64::MAX;
    for (a, b) in &pairs {
        let ps = [*a, *b];
        // measured in the worker that runs the case
        // (in the quick tier for a few first programs, those of fewer allocations)
        let fine = if !tier.quick() { !matches!(a, S(_)) } else { (matches!(a, W(0) | W(3) | R(1) | R(3) | Copy(1)) && matches!(b, W(1) | R(1))) };
        let parts = if fine { tier.pick(2, 4) } else { 0 };
        for part in 0..parts {
            cx.case(
                || format!("{a:?} and {b:?}: one switch at any point, part {part}"),
                |c| {
                    pair(c, &[(0, END), (1, END)], 0, &ps)?;
                    let n = pair(c, &[(0, END), (1, END)], ALLOC, &ps)?[0];
                    for i in (1..=n).filter(|i| i % parts == part) {
                        pair(c, &[(0, i), (1, END), (0, END)], ALLOC, &ps)?;
                    }
                    Ok(())
                },
            );
        }
        if fine {
            for part in 0..parts {
                cx.case(
                    || format!("{a:?} and {b:?}: one switch at any access to shared memory, part {part}"),
                    |c| {
                        pair(c, &[(0, END), (1, END)], 0, &ps)?;
                        let n = pair(c, &[(0, END), (1, END)], SYNC, &ps)?[0];
                        for i in (1..=n).filter(|i| i % parts == part) {
                            pair(c, &[(0, i), (1, END), (0, END)], SYNC, &ps)?;
                        }
                        Ok(())
                    },
                );
            }
        }
        // at the entry of every function of the library
        if !tier.quick() && matches!((a, b), (W(0), W(1)) | (R(1), W(1))) {
            let parts = 64;
            for part in 0..parts {
                cx.case(
                    || format!("{a:?} and {b:?}: one switch at any call, part {part}"),
                    |c| {
                        pair(c, &[(0, END), (1, END)], 0, &ps)?;
                        let n = pair(c, &[(0, END), (1, END)], CALLS, &ps)?[0];
                        for i in (1..=n).filter(|i| i % parts == part) {
                            pair(c, &[(0, i), (1, END), (0, END)], CALLS, &ps)?;
                        }
                        Ok(())
                    },
                );
            }
        }
        cx.case(
            || format!("{a:?} and {b:?}: two switches"),
            |c| {
                let n = pair(c, &[(0, END), (1, END)], 0, &ps)?;
                // long programs: every point of a stretch at both ends, then evenly spread ones
                let pts = |n: u64| -> Vec<u64> {
                    let m = tier.pick(24, 60);
                    if n <= m {
                        (1..=n).collect()
                    } else {
                        (1..=m / 4).chain((1..=m / 2).map(|k| m / 4 + k * (n - m / 2) / (m / 2))).chain(n - m / 4 + 1..=n).collect()
                    }
                };
                for i in pts(n[0]) {
                    for j in pts(n[1]) {
                        pair(c, &[(0, i), (1, j), (0, END), (1, END)], 0, &ps)?;
                        if !tier.quick() && n[0] <= 24 && n[1] <= 24 {
                            for k in 1..=n[0].saturating_sub(i) {
                                pair(c, &[(0, i), (1, j), (0, k), (1, END), (0, END)], 0, &ps)?;
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // 3. strict alternation with every pair of strides, and three threads
    for (a, b) in &pairs {
        let ps = [*a, *b];
        cx.case(
            || format!("{a:?} and {b:?}: alternation"),
            |c| {
                for x in 1..=tier.pick(3u64, 8) {
                    for y in 1..=tier.pick(3u64, 8) {
                        let plan: Vec<(usize, u64)> = (0..4000).map(|k| if k % 2 == 0 { (0, x) } else { (1, y) }).collect();
                        pair(c, &plan, 0, &ps)?;
                        if x == y {
                            let plan: Vec<(usize, u64)> = (0..4000).map(|k| if k % 2 == 0 { (0, 10 * x) } else { (1, 10 * y) }).collect();
                            pair(c, &plan, ALLOC, &ps)?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
    let trio = if tier.quick() { vec![W(0), W(1), R(1)] } else { vec![W(0), W(1), W(5), R(1), Copy(0)] };
    for a in &trio {
        for b in &trio {
            for d in &trio {
                let ps = [*a, *b, *d];
                cx.case(
                    || format!("{a:?}, {b:?} and {d:?}: two switches"),
                    |c| {
                        let n = pair(c, &[(0, END), (1, END), (2, END)], 0, &ps)?;
                        let step = tier.pick(2, 1);
                        for i in (1..=n[0].min(60)).step_by(step) {
                            for j in (1..=n[1].min(60)).step_by(step) {
                                pair(c, &[(0, i), (1, j), (2, END), (0, END), (1, END)], 0, &ps)?;
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    cx.note("schedules given up because the other thread was blocked", GIVEN_UP.load(Ordering::SeqCst));
}
