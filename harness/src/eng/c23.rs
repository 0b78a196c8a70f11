//! C23: operations in the wrong mode or state are refused and leave no trace.
use super::c03::mk;
use crate::col::*;
use crate::core::*;
use oxyroot::{ReaderTree, RootFile, WriterTree};
use std::cell::RefCell;
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    /// the handle becomes a file created anew, opened, or none at all
    Create(usize),
    Open(usize),
    /// opens the file of the other handle
    OpenOther(usize),
    Forget(usize),
    /// writes tree object `.1` (which stays the same object)
    Write(usize, usize),
    Get(usize),
    Close(usize),
    // hopeless attempts
    OpenAbsent(usize),
    CreateNowhere(usize),
    OpenDirectory(usize),
}
use Op::*;
/// What a handle is; the number is that of its path.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum H {
    Nothing,
    Writing(Vec<usize>),
    Reading(usize, Vec<usize>),
    Closed(Vec<usize>),
}
/// What is on disk under a path.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum D {
    Absent,
    Unfinished,
    Finished(Vec<usize>),
}
fn spec(t: usize) -> TreeSpec {
    match t {
        0 => TreeSpec::new("t", vec![mk("x", Ty::P(Prim::I32), 1, 3)]),
        1 => TreeSpec::new("u", vec![mk("s", Ty::Str, 2, 4), mk("v", Ty::V(Prim::F32), 3, 2)]),
        _ => TreeSpec::new("t", vec![mk("b", Ty::P(Prim::Bool), 5, 2)]),
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Model {
    h: Vec<H>,
    d: Vec<D>,
    done: Vec<bool>,
}
impl Model {
    fn new(handles: usize, trees: usize) -> Model {
        Model { h: vec![H::Nothing; handles], d: vec![D::Absent; handles], done: vec![false; trees] }
    }
    /// what became of the file when the handle is given another value
    fn leave(&mut self, i: usize) {
        self.h[i] = H::Nothing;
    }
    /// whether the operation must succeed; None: not part of the space explored
    fn step(&mut self, op: Op) -> Option<bool> {
        Some(match op {
            Create(i) => {
                // a file somebody reads is not overwritten
                if self.h.iter().any(|h| matches!(h, H::Reading(p, _) if *p == i)) {
                    return None;
                }
                self.h[i] = H::Writing(vec![]);
                self.d[i] = D::Unfinished;
                true
            }
            Open(i) | OpenOther(i) => {
                let p = if matches!(op, Open(_)) { i } else { (i + 1) % self.h.len() };
                match &self.d[p] {
                    D::Unfinished => return None,
                    D::Absent => false,
                    D::Finished(l) => {
                        let l = l.clone();
                        self.leave(i);
                        self.h[i] = H::Reading(p, l);
                        true
                    }
                }
            }
            Forget(i) => {
                self.leave(i);
                true
            }
            Write(i, t) => match &mut self.h[i] {
                H::Writing(l) if !self.done[t] => {
                    l.push(t);
                    self.done[t] = true;
                    true
                }
                _ => false,
            },
            Get(i) => match &self.h[i] {
                H::Reading(_, l) => !l.is_empty(),
                _ => false,
            },
            Close(i) => match &self.h[i] {
                H::Writing(l) => {
                    let l = l.clone();
                    self.d[i] = D::Finished(l.clone());
                    self.h[i] = H::Closed(l);
                    true
                }
                _ => false,
            },
            OpenAbsent(_) | CreateNowhere(_) | OpenDirectory(_) => false,
        })
    }
}
struct Real {
    dir: PathBuf,
    h: Vec<RootFile>,
    trees: Vec<WriterTree>,
    /// trees obtained, with the path and the contents of its file
    held: Vec<(ReaderTree, usize, TreeSpec)>,
}
fn path(dir: &Path, i: usize) -> PathBuf {
    dir.join(format!("c23-{i}.root"))
}
fn first(l: &[usize]) -> TreeSpec {
    // the newest version of the first name
    let n = spec(l[0]).name;
    spec(*l.iter().rev().find(|t| spec(**t).name == n).unwrap())
}
impl Real {
    fn new(dir: &Path, handles: usize, trees: usize) -> Real {
        for i in 0..handles {
            let _ = std::fs::remove_file(path(dir, i));
        }
        Real { dir: dir.to_path_buf(), h: (0..handles).map(|_| RootFile::default()).collect(), trees: (0..trees).map(|t| build(&spec(t))).collect(), held: vec![] }
    }
    fn step(&mut self, op: Op, m: &Model) -> Result<bool, String> {
        Ok(match op {
            Create(i) => {
                // the handle that wrote this file before is gone first
                self.h[i] = RootFile::default();
                self.held.retain(|h| h.1 != i);
                match RootFile::create(path(&self.dir, i)) {
                    Ok(f) => {
                        self.h[i] = f;
                        true
                    }
                    Err(_) => false,
                }
            }
            Open(i) | OpenOther(i) | OpenAbsent(i) | OpenDirectory(i) => {
                let p = match op {
                    Open(_) => path(&self.dir, i),
                    OpenOther(_) => path(&self.dir, (i + 1) % self.h.len()),
                    OpenAbsent(_) => path(&self.dir, 77),
                    _ => self.dir.clone(),
                };
                match RootFile::open(p) {
                    Ok(f) => {
                        self.h[i] = f;
                        true
                    }
                    Err(_) => false,
                }
            }
            CreateNowhere(_) => RootFile::create(self.dir.join("no/such/place.root")).is_ok(),
            Forget(i) => {
                self.h[i] = RootFile::default();
                true
            }
            Write(i, t) => self.trees[t].write(&mut self.h[i]).is_ok(),
            Close(i) => self.h[i].close().is_ok(),
            Get(i) => {
                let (n, l) = match &m.h[i] {
                    H::Reading(_, l) | H::Writing(l) | H::Closed(l) if !l.is_empty() => (spec(l[0]).name, l.clone()),
                    _ => ("t".to_string(), vec![]),
                };
                match self.h[i].get_tree(&n) {
                    Ok(t) => {
                        if let H::Reading(p, _) = &m.h[i] {
                            self.held.push((t, *p, first(&l)));
                        }
                        true
                    }
                    Err(_) => false,
                }
            }
        })
    }
}
fn check_read(t: &ReaderTree, s: &TreeSpec) -> Result<(), String> {
    for c in &s.cols {
        let b = t.branch(&c.name).ok_or_else(|| format!("column {:?} not found", c.name))?;
        compare(&c.name, iter_of(b, c.ty, true)?, &c.vals)?;
    }
    Ok(())
}
/// the names a file lists
fn listed(l: &[usize]) -> Vec<String> {
    l.iter().map(|t| spec(*t).name).collect()
}
type Refs = RefCell<HashMap<(usize, Vec<usize>), Rc<Vec<u8>>>>;
/// the bytes of a file under this path with these trees, written without anything else happening
fn reference(refs: &Refs, dir: &Path, p: usize, l: &[usize]) -> Result<Rc<Vec<u8>>, String> {
    if let Some(b) = refs.borrow().get(&(p, l.to_vec())) {
        return Ok(b.clone());
    }
    let file = path(dir, p);
    let keep = std::fs::read(&file).ok();
    write_file(&file, &l.iter().map(|t| spec(*t)).collect::<Vec<_>>())?;
    let b = Rc::new(std::fs::read(&file).map_err(|e| e.to_string())?);
    match keep {
        Some(k) => std::fs::write(&file, k).map_err(|e| e.to_string())?,
        None => std::fs::remove_file(&file).map_err(|e| e.to_string())?,
    }
    refs.borrow_mut().insert((p, l.to_vec()), b.clone());
    Ok(b)
}
fn sequence(c: &mut Case, refs: &Refs, ops: &[Op], handles: usize, trees: usize) -> Result<(), String> {
    let dir = c.path("d");
    let _ = std::fs::create_dir_all(&dir);
    let mut m = Model::new(handles, trees);
    let mut r = Real::new(&dir, handles, trees);
    for (k, op) in ops.iter().enumerate() {
        let before = m.clone();
        let want = m.step(*op).ok_or("sequence outside the space")?;
        let got = guard(|| r.step(*op, &before)).map_err(|p| format!("{:?}: {op:?} panicked: {p}", &ops[..k]))??;
        c.steps(1);
        if got != want {
            return Err(format!("after {:?}, {op:?} {}", &ops[..k], if got { "was accepted" } else { "was refused" }));
        }
        for (i, h) in m.h.iter().enumerate() {
            let names: Vec<String> = r.h[i].keys_name().map(|s| s.to_string()).collect();
            let want = match h {
                H::Nothing => vec![],
                H::Writing(l) | H::Reading(_, l) | H::Closed(l) => listed(l),
            };
            let (mut a, mut b) = (names.clone(), want.clone());
            a.sort();
            b.sort();
            if a != b {
                return Err(format!("after {:?}, handle {i} lists {names:?} instead of {want:?}", &ops[..=k]));
            }
        }
    }
    c.state(&m);
    let say = |m: String| format!("after {ops:?}: {m}");
    // what was obtained from a file is still readable, whatever became of the handle
    for (t, _, s) in &r.held {
        guard(|| check_read(t, s)).unwrap_or_else(Err).map_err(say)?;
    }
    // refused writes have used up nothing: the trees not yet written are written elsewhere
    let rest: Vec<usize> = (0..trees).filter(|t| !m.done[*t]).collect();
    let p = path(&dir, handles);
    let mut f = RootFile::create(&p).map_err(|e| format!("{e:?}"))?;
    for t in &rest {
        r.trees[*t].write(&mut f).map_err(|e| say(format!("tree {t} cannot be written any more: {e:?}")))?;
    }
    f.close().map_err(|e| say(format!("close: {e:?}")))?;
    drop(f);
    let diff = |p: usize, l: &[usize]| -> Result<(), String> {
        let got = std::fs::read(path(&dir, p)).map_err(|e| say(e.to_string()))?;
        let want = reference(refs, &dir, p, l)?;
        if got != **want {
            return Err(say(format!("file {p} has {} bytes instead of the {} it has without the refused operations (first difference at {:?})", got.len(), want.len(), got.iter().zip(want.iter()).position(|(a, b)| a != b))));
        }
        Ok(())
    };
    diff(handles, &rest)?;
    // files still being written are finished
    for i in 0..handles {
        if let H::Writing(l) = &m.h[i] {
            guard(|| r.h[i].close()).map_err(|p| say(format!("close panicked: {p}")))?.map_err(|e| say(format!("close: {e:?}")))?;
            m.d[i] = D::Finished(l.clone());
        }
    }
    drop(r);
    for i in 0..handles {
        if let D::Finished(l) = &m.d[i] {
            diff(i, l)?;
        }
        c.outcome((i, &m.d[i]));
    }
    Ok(())
}
/// All sequences of exactly this many operations that begin with `pre`, in the space explored.
fn all(ops: &[Op], pre: &[Op], depth: usize, handles: usize, trees: usize, f: &mut dyn FnMut(&[Op]) -> Result<(), String>) -> Result<(), String> {
    fn go(ops: &[Op], seq: &mut Vec<Op>, m: &Model, left: usize, f: &mut dyn FnMut(&[Op]) -> Result<(), String>) -> Result<(), String> {
        if left == 0 {
            return f(seq);
        }
        for o in ops {
            let mut n = m.clone();
            if n.step(*o).is_none() {
                continue;
            }
            seq.push(*o);
            go(ops, seq, &n, left - 1, f)?;
            seq.pop();
        }
        Ok(())
    }
    let mut m = Model::new(handles, trees);
    for o in pre {
        if m.step(*o).is_none() {
            return Ok(());
        }
    }
    go(ops, &mut pre.to_vec(), &m, depth - pre.len(), f)
}
pub fn run(cx: &mut Ctx) {
    let tier = cx.tier;
    let refs: Refs = Default::default();
    let one = vec![Create(0), Open(0), Forget(0), Write(0, 0), Write(0, 1), Get(0), Close(0)];
    let more = vec![Create(0), Open(0), Forget(0), Write(0, 0), Write(0, 2), Get(0), Close(0), OpenAbsent(0), CreateNowhere(0), OpenDirectory(0)];
    let two = vec![Create(0), Create(1), Open(0), Open(1), OpenOther(0), OpenOther(1), Write(0, 0), Write(1, 0), Write(0, 1), Write(1, 1), Get(0), Get(1), Close(0), Close(1), Forget(0)];
    for (ops, depth, handles, trees) in [(one, tier.pick(5, 7), 1usize, 2usize), (more, tier.pick(4, 6), 1, 3), (two, tier.pick(4, 5), 2, 2)] {
        for d in 1..=depth as usize {
            let mut pres: Vec<Vec<Op>> = vec![vec![]];
            for _ in 0..d.min(2) {
                pres = pres.iter().flat_map(|p| ops.iter().map(|o| [&p[..], &[*o]].concat())).collect();
            }
            for pre in pres {
                cx.case(|| format!("{handles} handle(s), {trees} trees: {d} operations beginning with {pre:?}"), |c| all(&ops, &pre, d, handles, trees, &mut |s| sequence(c, &refs, s, handles, trees)));
            }
        }
    }
    // one file through many lives
    for n in tier.pick(vec![3usize, 20], vec![3, 20, 300]) {
        cx.case(|| format!("{n} times created, written, closed, refused everything, opened, read, refused"), |c| {
            let mut ops = vec![Write(0, 0), Close(0), Get(0)];
            for k in 0..n {
                ops.extend([Create(0), Get(0), Write(0, k % 3), Get(0), Open(0), Close(0), Write(0, (k + 1) % 3), Close(0), Get(0), Open(0), Write(0, (k + 1) % 3), Get(0), Close(0), Get(0), Create(0), CreateNowhere(0), Forget(0), Write(0, 1), Close(0)]);
            }
            // keep those in the space
            let mut m = Model::new(1, 3);
            let ops: Vec<Op> = ops.into_iter().filter(|o| { let mut n = m.clone(); let ok = n.step(*o).is_some(); if ok { m = n } ok }).collect();
            sequence(c, &refs, &ops, 1, 3)
        });
    }
}
