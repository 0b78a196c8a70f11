//! C11: interleavings of iterators over the same and different columns, trees and handles.
use super::c09::{self, kinds, Kd, Part, Want, LENS};
use crate::core::*;
use crate::dynread::{find, VIter, V};
use crate::rootw::{Codec, Layout};
use oxyroot::{ReaderTree, RootFile};
use std::path::Path;

/// What one iterator can be put on.
#[derive(Clone)]
pub struct Src {
    pub tree: usize,
    pub col: String,
    pub rust: String,
    pub want: Vec<V>,
}
/// The trees of one exploration; dropped after the iterators over them.
struct Arena(std::cell::RefCell<Vec<*mut ReaderTree>>);
impl Arena {
    fn put<'a>(&'a self, t: ReaderTree) -> &'a ReaderTree {
        let p = Box::into_raw(Box::new(t));
        self.0.borrow_mut().push(p);
        unsafe { &*p }
    }
}
impl Drop for Arena {
    fn drop(&mut self) {
        for p in self.0.borrow().iter() {
            unsafe { drop(Box::from_raw(*p)) }
        }
    }
}
fn start<'a>(t: &'a ReaderTree, s: &Src) -> Result<VIter<'a>, String> {
    let b = t.branch(&s.col).ok_or(format!("column {:?} not found", s.col))?;
    find(&s.rust).ok_or("type")?(b, true).map_err(|e| format!("column {:?} refused: {e}", s.col))
}
/// One iterator with what it has to yield next.
struct It<'a, 's> {
    it: VIter<'a>,
    src: &'s Src,
    pos: usize,
}
impl It<'_, '_> {
    fn next(&mut self) -> Result<(), String> {
        let g = self.it.next();
        if g.as_ref() != self.src.want.get(self.pos) {
            return Err(format!("column {:?}: value {} of {} is {:?} instead of {:?}", self.src.col, self.pos, self.src.want.len(), g, self.src.want.get(self.pos)));
        }
        self.pos += g.is_some() as usize;
        Ok(())
    }
    fn nth(&mut self, k: usize) -> Result<(), String> {
        let g = self.it.nth(k);
        let w = self.src.want.get(self.pos + k);
        if g.as_ref() != w {
            return Err(format!("column {:?}: skipping {k} from {} gives {:?} instead of {:?}", self.src.col, self.pos, g, w));
        }
        self.pos = if g.is_some() { self.pos + k + 1 } else { self.src.want.len() };
        Ok(())
    }
    fn rest(self) -> Result<(), String> {
        let mut v: Vec<V> = vec![];
        let n = self.src.want.len();
        self.it.for_each(|x| if v.len() < n + 5 { v.push(x) });
        let w = self.src.want.get(self.pos..).unwrap_or(&[]);
        if v != w {
            return Err(format!("column {:?}: the rest from {} on is {:?} instead of {:?}", self.src.col, self.pos, v, w));
        }
        Ok(())
    }
}
/// Every interleaving of sequences of the given lengths.
pub fn interleavings(lens: &[usize]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    fn go(left: &mut Vec<usize>, cur: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
        if left.iter().all(|l| *l == 0) {
            out.push(cur.clone());
            return;
        }
        for i in 0..left.len() {
            if left[i] > 0 {
                left[i] -= 1;
                cur.push(i as u8);
                go(left, cur, out);
                cur.pop();
                left[i] += 1;
            }
        }
    }
    go(&mut lens.to_vec(), &mut vec![], &mut out);
    out
}
/// Runs iterator programs: create, `steps` advances, then dropped; one shared or own handle.
fn run_sched(p: &Path, order: &[u8], srcs: &[&Src], own: bool, names: &[&str], drop_at: &[usize]) -> Result<(), String> {
    let arena = Arena(Default::default());
    let mut rf = RootFile::open(p).map_err(|e| format!("open: {e:?}"))?;
    let shared: Vec<&ReaderTree> = names.iter().map(|n| Ok(arena.put(rf.get_tree(n).map_err(|e| format!("get_tree: {e:?}"))?))).collect::<Result<_, String>>()?;
    let mut its: Vec<Option<It>> = srcs.iter().map(|_| None).collect();
    let mut done = vec![0usize; srcs.len()];
    let mut rf2 = None;
    for &w in order {
        let w = w as usize;
        if done[w] == 0 {
            let t = if own && w > 0 {
                let mut h = RootFile::open(p).map_err(|e| format!("open: {e:?}"))?;
                let t = arena.put(h.get_tree(names[srcs[w].tree]).map_err(|e| format!("get_tree: {e:?}"))?);
                rf2 = Some(h);
                t
            } else {
                shared[srcs[w].tree]
            };
            its[w] = Some(It { it: start(t, srcs[w])?, src: srcs[w], pos: 0 });
        } else if done[w] == drop_at[w] {
            its[w] = None;
        } else if let Some(i) = its[w].as_mut() {
            i.next()?;
        }
        done[w] += 1;
    }
    drop(its);
    drop(rf2);
    Ok(())
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    New(u8, u8),
    Next(u8),
    Nth(u8),
    Rest(u8),
    Drop(u8),
    /// fetch the tree again / open the file again / let go of the handle
    Tree,
    Open,
    Close,
    Look,
}
/// All operation sequences up to a depth, one branch at a time, replayed from the start.
fn seqs(depth: usize, n_src: u8, slots: u8) -> Vec<Vec<Op>> {
    let mut out = vec![];
    fn go(depth: usize, n_src: u8, slots: u8, live: &mut Vec<bool>, handle: bool, cur: &mut Vec<Op>, out: &mut Vec<Vec<Op>>) {
        if cur.len() == depth {
            out.push(cur.clone());
            return;
        }
        let mut ops = vec![Op::Look];
        if handle {
            ops.extend([Op::Tree, Op::Close]);
        }
        ops.push(Op::Open);
        let mut fresh = false;
        for s in 0..slots {
            if live[s as usize] {
                ops.extend([Op::Next(s), Op::Nth(s), Op::Rest(s), Op::Drop(s)]);
            } else if !fresh {
                fresh = true; // free slots are interchangeable
                ops.extend((0..n_src).map(|k| Op::New(s, k)));
            }
        }
        for o in ops {
            if matches!(o, Op::Tree | Op::Open | Op::Close | Op::Look) && (cur.last() == Some(&o) || cur.len() + 1 == depth) {
                continue;
            }
            let was = live.clone();
            let mut h = handle;
            match o {
                Op::New(s, _) => live[s as usize] = true,
                Op::Rest(s) | Op::Drop(s) => live[s as usize] = false,
                Op::Open => h = true,
                Op::Close => h = false,
                _ => {}
            }
            cur.push(o);
            go(depth, n_src, slots, live, h, cur, out);
            cur.pop();
            *live = was;
        }
    }
    go(depth, n_src, slots, &mut vec![false; slots as usize], true, &mut vec![], &mut out);
    out
}
fn run_ops(p: &Path, ops: &[Op], srcs: &[Src], names: &[&str]) -> Result<(), String> {
    let arena = Arena(Default::default());
    let open = || RootFile::open(p).map_err(|e| format!("open: {e:?}"));
    let mut rf = Some(open()?);
    let get = |rf: &mut RootFile, n: &str| -> Result<&ReaderTree, String> { Ok(arena.put(rf.get_tree(n).map_err(|e| format!("get_tree: {e:?}"))?)) };
    let mut trees: Vec<&ReaderTree> = names.iter().map(|n| get(rf.as_mut().unwrap(), n)).collect::<Result<_, _>>()?;
    let mut its: [Option<It>; 3] = [None, None, None];
    for o in ops {
        match *o {
            Op::New(s, k) => {
                let src = &srcs[k as usize];
                its[s as usize] = Some(It { it: start(trees[src.tree], src)?, src, pos: 0 });
            }
            Op::Next(s) => its[s as usize].as_mut().unwrap().next()?,
            Op::Nth(s) => its[s as usize].as_mut().unwrap().nth(1)?,
            Op::Rest(s) => its[s as usize].take().unwrap().rest()?,
            Op::Drop(s) => its[s as usize] = None,
            Op::Tree => trees = names.iter().map(|n| get(rf.as_mut().unwrap(), n)).collect::<Result<_, _>>()?,
            Op::Open => rf = Some(open()?),
            Op::Close => rf = None,
            Op::Look => {
                if let Some(f) = &mut rf {
                    let k: Vec<String> = f.keys_name().map(|x| x.to_string()).collect();
                    if k != names {
                        return Err(format!("the file lists {k:?}"));
                    }
                }
                for (i, t) in trees.iter().enumerate() {
                    for s in srcs.iter().filter(|s| s.tree == i) {
                        let b = t.branch(&s.col).ok_or("column lost")?;
                        if b.entries() != s.want.len() as i64 {
                            return Err(format!("column {:?} reports {} entries", s.col, b.entries()));
                        }
                    }
                }
            }
        }
    }
    for i in its.into_iter().flatten() {
        i.rest()?;
    }
    Ok(())
}
/// A file with columns of many storage kinds in two trees.
pub fn subject(ks: &[Kd], codec: Codec) -> (Vec<u8>, Vec<Src>, Vec<&'static str>) {
    let k = |l: &str| ks.iter().find(|k| k.label == l).unwrap_or_else(|| panic!("kind {l}"));
    let p = |l: &str, parts: &[usize], emb: bool| Part { kind: k(l), parts: parts.to_vec(), emb };
    let a = [
        p("leaf i32", &[2, 1, 1], false),
        p("leaf string", &[1, 3], false),
        p("leaf i16[n]", &[2, 2], true),
        p("object vector<int>", &[1, 1, 2], false),
        p("leaf f64[3]", &[3, 1], true),
        p("object map<string,vector<short> >", &[2, 2], false),
        p("member i32*", &[1, 2, 1], false),
        p("leaf i32", &[4], true),
    ];
    let b = [p("leaf i32", &[1, 1, 1, 1], false), p("object string", &[2, 2], true)];
    let names = vec!["a", "b"];
    let (bytes, wants): (Vec<u8>, Vec<Want>) = c09::multi(&[("a", &a), ("b", &b)], LENS[0].1, &Layout { codec, blocks: vec![1 << 20], ..Default::default() });
    let mut srcs = vec![];
    for (i, w) in wants.into_iter().enumerate() {
        for (col, rust, want) in w {
            if !(i == 1 && col == "n") {
                srcs.push(Src { tree: i, col, rust, want });
            }
        }
    }
    (bytes, srcs, names)
}
pub fn run(cx: &mut Ctx) {
    let tier = cx.tier;
    let ks = kinds();
    for codec in [Codec::None, Codec::Zlib] {
        let (bytes, srcs, names) = subject(&ks, codec);
        let n = srcs.len();
        // all pairs: create, advance past the end (or be dropped early), in every interleaving
        let adv = tier.pick(5, 6); // 4 values, the end, and the end again
        let all2 = interleavings(&[adv + 1, adv + 1]);
        for i in 0..n {
            for j in 0..n {
                for own in [false, true] {
                    cx.case(
                        || format!("{codec:?}: {:?} of {} with {:?} of {}, own handle {own}", srcs[i].col, names[srcs[i].tree], srcs[j].col, names[srcs[j].tree]),
                        |c| {
                            let p = c.path("c11.root");
                            std::fs::write(&p, &bytes).map_err(|e| e.to_string())?;
                            for o in &all2 {
                                c.state((i, j, own, o));
                                c.steps(o.len() as u64);
                                run_sched(&p, o, &[&srcs[i], &srcs[j]], own, &names, &[99, 99]).map_err(|e| format!("order {o:?}: {e}"))?;
                            }
                            Ok(())
                        },
                    );
                }
                if codec == Codec::None {
                    cx.case(
                        || format!("{:?} of {} with {:?} of {} dropped early", srcs[i].col, names[srcs[i].tree], srcs[j].col, names[srcs[j].tree]),
                        |c| {
                            let p = c.path("c11.root");
                            std::fs::write(&p, &bytes).map_err(|e| e.to_string())?;
                            for d in 1..=4 {
                                for o in interleavings(&[5, d + 1]) {
                                    c.state((i, j, d, &o));
                                    c.steps(o.len() as u64);
                                    run_sched(&p, &o, &[&srcs[i], &srcs[j]], d % 2 == 0, &names, &[99, d]).map_err(|e| format!("order {o:?}, the second dropped after {} values: {e}", d - 1))?;
                                }
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
        // three iterators
        let all3 = interleavings(&tier.pick([3, 3, 3], [4, 4, 4]));
        let trip: Vec<[usize; 3]> = (0..n).flat_map(|i| [[i, i, i], [i, (i + 1) % n, (i + 3) % n], [i, i, (i + 5) % n]]).collect();
        for t in trip {
            cx.case(
                || format!("{codec:?}: three iterators over sources {t:?}"),
                |c| {
                    let p = c.path("c11.root");
                    std::fs::write(&p, &bytes).map_err(|e| e.to_string())?;
                    for o in &all3 {
                        c.state((t, o));
                        c.steps(o.len() as u64);
                        run_sched(&p, o, &t.map(|k| &srcs[k]), t[2] % 2 == 0, &names, &[99; 3]).map_err(|e| format!("order {o:?}: {e}"))?;
                    }
                    Ok(())
                },
            );
        }
    }
    // operation sequences with fetching trees again, opening again and letting handles go
    let (bytes, srcs, names) = subject(&ks, Codec::None);
    let depth = tier.pick(5, 6);
    let all = seqs(depth, 3, 2);
    let sets: Vec<[usize; 3]> = (0..srcs.len()).map(|i| [i, (i + 2) % srcs.len(), (i + 5) % srcs.len()]).collect();
    for s in sets {
        let set: Vec<Src> = s.iter().map(|k| srcs[*k].clone()).collect();
        for (ci, ch) in all.chunks(2000).enumerate() {
            cx.case(
                || format!("operations on {:?}, part {ci}", set.iter().map(|s| &s.col).collect::<Vec<_>>()),
                |c| {
                    let p = c.path("c11.root");
                    std::fs::write(&p, &bytes).map_err(|e| e.to_string())?;
                    for o in ch {
                        c.state((s, format!("{o:?}")));
                        c.steps(o.len() as u64);
                        run_ops(&p, o, &set, &names).map_err(|e| format!("{o:?}: {e}"))?;
                    }
                    Ok(())
                },
            );
        }
    }
    // larger columns written by the library itself, advanced in every round pattern
    let pat = interleavings(&[4, 4]);
    for (a, b) in [("i32", "i32"), ("i32", "String"), ("String", "Vec<f64>"), ("Vec<f64>", "Vec<f64>"), ("[i16;3]", "i32")] {
        cx.case(
            || format!("written columns {a} and {b} advanced in blocks"),
            |c| {
                use crate::col::*;
                let ty = |s: &str| match s {
                    "i32" => Ty::P(Prim::I32),
                    "String" => Ty::Str,
                    "Vec<f64>" => Ty::V(Prim::F64),
                    _ => Ty::A(Prim::I16, 3),
                };
                let n = 12_000;
                let cols = vec![super::c03::mk("a", ty(a), 1, n), super::c03::mk("b", ty(b), 2, n)];
                let p = c.path("c11.root");
                let (va, vb) = (cols[0].vals.clone(), cols[1].vals.clone());
                write_file(&p, &[TreeSpec::new("t", cols)])?;
                let mut f = RootFile::open(&p).map_err(|e| format!("{e:?}"))?;
                let t = f.get_tree("t").map_err(|e| format!("{e:?}"))?;
                for o in &pat {
                    c.state((a, b, o));
                    let mut its = [iter_of(t.branch("a").unwrap(), ty(a), true)?, iter_of(t.branch("b").unwrap(), ty(b), true)?];
                    let mut pos = [0usize; 2];
                    for &w in o {
                        let w = w as usize;
                        for _ in 0..n / 4 + 1 {
                            let want = [&va, &vb][w].get(pos[w]);
                            let g = its[w].next();
                            c.steps(1);
                            if g.as_ref() != want {
                                return Err(format!("order {o:?}: iterator {w} differs at {}", pos[w]));
                            }
                            pos[w] += g.is_some() as usize;
                        }
                    }
                    if pos != [n, n] {
                        return Err(format!("order {o:?}: only {pos:?} values"));
                    }
                }
                Ok(())
            },
        );
    }
}
