//! C14: what user callbacks and providers observe while a tree is written.
use super::c03::mk;
use crate::col::*;
use crate::core::*;
use oxyroot::rtree::StateCallBack;
use oxyroot::{RootFile, WriterTree};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    Before(usize),
    Branch(usize, String),
    After(usize),
    Next(usize),
    Mark(&'static str),
}
type Log = Rc<RefCell<Vec<Ev>>>;
fn callback(t: &mut WriterTree, id: usize, log: &Log) {
    let l = log.clone();
    t.add_callback(Box::new(move |s: StateCallBack| {
        l.borrow_mut().push(match s {
            StateCallBack::Before => Ev::Before(id),
            StateCallBack::Branch(n) => Ev::Branch(id, n),
            StateCallBack::After => Ev::After(id),
        })
    }));
}
/// Builds the tree with callbacks registered before, between or after the columns.
fn tree(name: &str, cols: &[Col], ncb: usize, when: usize, extra: &[usize], log: &Log) -> WriterTree {
    let mut t = WriterTree::new(name);
    let mut cb = 0;
    for (k, c) in cols.iter().enumerate() {
        while cb < ncb && (when == 0 || (when == 1 && cb <= k)) {
            callback(&mut t, cb, log);
            cb += 1;
        }
        let l = log.clone();
        add_branch(&mut t, &c.name, c.ty, &c.vals, Some(Box::new(move || l.borrow_mut().push(Ev::Next(k)))), extra[k]);
    }
    while cb < ncb {
        callback(&mut t, cb, log);
        cb += 1;
    }
    t
}
/// The order the statement fixes: one round per entry and a last one that finds every column ended.
fn expect(cols: &[Col], ncb: usize) -> Vec<Ev> {
    let n = cols.iter().map(|c| c.vals.len()).max().unwrap_or(0);
    let mut v = vec![];
    for _ in 0..=n {
        v.extend((0..ncb).map(Ev::Before));
        for (k, c) in cols.iter().enumerate() {
            v.extend((0..ncb).map(|i| Ev::Branch(i, c.name.clone())));
            v.push(Ev::Next(k));
        }
    }
    v
}
/// `resumes`: the library may ask a provider that ended again, and then has more rounds to do.
fn judge(got: &[Ev], cols: &[Col], ncb: usize, extra: &[usize]) -> Result<(), String> {
    let want = expect(cols, ncb);
    let at = |v: &[Ev], k: usize| v.get(k).map(|e| format!("{e:?}")).unwrap_or("nothing".into());
    let w = |i: usize| got.get(i) != want.get(i);
    if extra.iter().all(|e| *e == 0) {
        if let Some(k) = (0..got.len().max(want.len())).find(|&i| w(i)) {
            return Err(format!("event {k} is {} instead of {}", at(got, k), at(&want, k)));
        }
        return Ok(());
    }
    // every round up to the longest first end is fixed; further rounds have the same form
    if let Some(k) = (0..want.len()).find(|&i| w(i)) {
        return Err(format!("event {k} is {} instead of {}", at(got, k), at(&want, k)));
    }
    let round = ncb + cols.len() * (ncb + 1);
    for (k, e) in got.iter().enumerate().skip(want.len()) {
        if Some(e) != want.get(k % round) {
            return Err(format!("event {k} is {} instead of {}", at(got, k), at(&want, k % round)));
        }
    }
    Ok(())
}
fn run_one(c: &mut Case, cols: &[Col], ncb: usize, when: usize, extra: &[usize]) -> Result<(), String> {
    let log: Log = Default::default();
    let p = c.path("c14.root");
    let mut t = tree("t", cols, ncb, when, extra, &log);
    let mut f = RootFile::create(&p).map_err(|e| format!("create: {e:?}"))?;
    if !log.borrow().is_empty() {
        return Err(format!("{:?} before writing began", log.borrow()[0]));
    }
    t.write(&mut f).map_err(|e| format!("write: {e:?}"))?;
    let got = log.borrow().clone();
    f.close().map_err(|e| format!("close: {e:?}"))?;
    drop((t, f));
    if log.borrow().len() != got.len() {
        return Err(format!("{:?} after the tree was written", log.borrow().last()));
    }
    c.state(&got);
    c.steps(got.len() as u64);
    judge(&got, cols, ncb, extra)?;
    let mut f = RootFile::open(&p).map_err(|e| format!("open: {e:?}"))?;
    let t = f.get_tree("t").map_err(|e| format!("get_tree: {e:?}"))?;
    let names: Vec<String> = t.branches().map(|b| b.name().to_string()).collect();
    if names != cols.iter().map(|c| c.name.clone()).collect::<Vec<_>>() {
        return Err(format!("columns {names:?}"));
    }
    for (k, (b, c)) in t.branches().zip(cols).enumerate() {
        let it = iter_of(b, c.ty, true)?;
        let n = c.vals.len();
        if extra[k] == 0 {
            compare(&format!("column {:?}", c.name), it, &c.vals)?;
        } else {
            // values after the first end are the provider's own business; those before it are not
            compare(&format!("column {:?} up to its first end", c.name), it.take(n), &c.vals)?;
        }
    }
    Ok(())
}
pub fn run(cx: &mut Ctx) {
    let tier = cx.tier;
    let types = [Ty::P(Prim::I32), Ty::Str, Ty::V(Prim::F64), Ty::A(Prim::I16, 3), Ty::P(Prim::Bool)];
    let max = tier.pick(4usize, 6);
    // every length profile of up to three (four) columns, every number of callbacks and place of registration
    for k in 0..=tier.pick(3usize, 4) {
        let lmax = if k == 4 { 3 } else { max };
        for rot in 0..types.len() {
            for ncb in 0..=tier.pick(2usize, 3) {
                for when in 0..3 {
                    if k == 0 && rot > 0 || ncb == 0 && when > 0 {
                        continue;
                    }
                    cx.case(
                        || format!("{k} columns, types from {rot}, {ncb} callbacks registered {when}"),
                        |c| {
                            for code in 0..(lmax + 1).pow(k as u32) {
                                let mut x = code;
                                let cols: Vec<Col> = (0..k)
                                    .map(|i| {
                                        let l = x % (lmax + 1);
                                        x /= lmax + 1;
                                        mk(&format!("c{i}"), types[(rot + i) % types.len()], i as u64, l)
                                    })
                                    .collect();
                                let lens: Vec<usize> = cols.iter().map(|c| c.vals.len()).collect();
                                run_one(c, &cols, ncb, when, &[0; 4][..k]).map_err(|e| format!("lengths {lens:?}: {e}"))?;
                                // each column in turn, or all, go on after their first end
                                for r in 1..=tier.pick(1usize, 3) {
                                    for who in 0..=k {
                                        if k == 0 || lens.iter().all(|l| *l == 0) {
                                            continue;
                                        }
                                        let ex: Vec<usize> = (0..k).map(|i| if who == k || who == i { r } else { 0 }).collect();
                                        run_one(c, &cols, ncb, when, &ex).map_err(|e| format!("lengths {lens:?}, resuming by {ex:?}: {e}"))?;
                                    }
                                }
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
    // names that repeat or contain anything: the callback gets the column's own name
    for names in [["a", "a", "a"], ["x", "x.y", "x"], ["é", " ", "t"], ["long-name-", "b", "b"]] {
        cx.case(
            || format!("names {names:?}"),
            |c| {
                for l in 0..5usize {
                    let cols: Vec<Col> = names.iter().enumerate().map(|(i, n)| mk(n, types[i], i as u64, (l + i) % 5)).collect();
                    run_one(c, &cols, 2, l % 3, &[0; 3])?;
                }
                Ok(())
            },
        );
    }
    // lengths around the growth of tables and storage units
    for n in tier.pick(vec![9usize, 10, 11, 999, 1000, 1001, 4097, 9000], vec![9, 10, 11, 999, 1000, 1001, 4095, 4096, 4097, 8191, 8192, 8193, 9000, 20000, 40000]) {
        for (a, b) in [(n, n), (n, 3), (0, n), (n, n - 1), (n - 1, n)] {
            for rot in 0..types.len() {
                cx.case(
                    || format!("lengths {a} and {b}, types from {rot}"),
                    |c| {
                        let cols = [mk("a", types[rot], 1, a), mk("b", types[(rot + 1) % types.len()], 2, b)];
                        run_one(c, &cols, 2, rot % 3, &[0, 0])
                    },
                );
            }
        }
    }
    // two trees, built first and written in either order: only the tree being written is driven
    for (la, lb) in [(0usize, 2usize), (2, 0), (3, 1), (2, 2)] {
        for order in 0..2 {
            for ncb in 0..3 {
                cx.case(
                    || format!("two trees of {la} and {lb} entries, order {order}, {ncb} callbacks"),
                    |c| {
                        let logs: [Log; 2] = Default::default();
                        let p = c.path("c14.root");
                        let cols = [[mk("a", types[0], 1, la), mk("b", types[1], 2, la / 2)], [mk("a", types[2], 3, lb), mk("z", types[0], 4, lb)]];
                        let mut ts: Vec<WriterTree> = (0..2).map(|i| tree(["t", "u"][i], &cols[i], ncb, i, &[0, 0], &logs[i])).collect();
                        let mut f = RootFile::create(&p).map_err(|e| format!("{e:?}"))?;
                        let seq = if order == 0 { [0, 1] } else { [1, 0] };
                        for (n, &i) in seq.iter().enumerate() {
                            if !logs[i].borrow().is_empty() {
                                return Err("a tree was driven before it was written".into());
                            }
                            let before = logs[1 - i].borrow().len();
                            ts[i].write(&mut f).map_err(|e| format!("{e:?}"))?;
                            if logs[1 - i].borrow().len() != before {
                                return Err(format!("the other tree was driven while tree {n} was written"));
                            }
                            judge(&logs[i].borrow(), &cols[i], ncb, &[0, 0])?;
                        }
                        c.state((la, lb, order, ncb));
                        f.close().map_err(|e| format!("{e:?}"))?;
                        let specs: Vec<TreeSpec> = seq.iter().map(|&i| TreeSpec::new(["t", "u"][i], cols[i].to_vec())).collect();
                        verify_file(&p, &specs)
                    },
                );
            }
        }
    }
}
