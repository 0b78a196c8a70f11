//! C04: histories of tree writes to one file.
use super::c02::seqs;
use super::c03::mk;
use crate::check::{structure, Opts};
use crate::col::*;
use crate::core::*;
use oxyroot::RootFile;

const NAMES: [&str; 6] = ["a", "b", "", "ab", "a/b", "B"];

fn spec(i: usize, name: &str) -> TreeSpec {
    // contents and columns depend on the position in the history only
    let n = [3usize, 0, 5, 1, 12, 2, 4][i % 7];
    let mut cols = vec![mk("x", Ty::P(Prim::I32), i as u64 + 1, n)];
    match i % 4 {
        0 => cols.push(mk("s", Ty::Str, 50 + i as u64, n + 1)),
        1 => cols.push(mk("v", Ty::V(PRIMS[2 + i % 8]), 60 + i as u64, 2)),
        2 => cols.insert(0, mk("y", Ty::A(Prim::F32, 2), 70 + i as u64, n)),
        _ => {}
    }
    TreeSpec::new(name, cols)
}
fn history(c: &mut Case, h: &[&str]) -> Result<(), String> {
    let p = c.path("c04.root");
    let mut f = RootFile::create(&p).map_err(|e| format!("create {e:?}"))?;
    let mut model: Vec<TreeSpec> = vec![];
    let mut refused = false;
    for (i, n) in h.iter().enumerate() {
        let s = spec(i, n);
        let r = build(&s).write(&mut f);
        if n.contains('/') {
            if r.is_ok() {
                return Err(format!("illegal name {n:?} accepted"));
            }
            refused = true;
        } else {
            r.map_err(|e| format!("write {i} {n:?}: {e:?}"))?;
            model.push(s);
        }
        c.state(model.iter().map(|m| m.name.clone()).collect::<Vec<_>>());
        c.steps(1);
    }
    f.close().map_err(|e| format!("close {e:?}"))?;
    drop(f);
    verify_file(&p, &model)?;
    let mut f = RootFile::open(&p).map_err(|e| format!("open {e:?}"))?;
    let mut absent: Vec<String> = NAMES.iter().map(|s| s.to_string()).collect();
    absent.extend(["c".into(), "A".into(), "a ".into(), "x".into(), "aa".into(), "b/a".into()]);
    for n in absent {
        let there = model.iter().any(|m| m.name == n);
        match (f.get_tree(&n), there) {
            (Ok(_), false) => return Err(format!("tree {n:?} was found but never written")),
            (Err(e), true) => return Err(format!("tree {n:?} not found: {e:?}")),
            _ => {}
        }
        c.steps(1);
    }
    c.outcome(model.iter().map(|m| m.name.clone()).collect::<Vec<_>>());
    let b = std::fs::read(&p).map_err(|e| e.to_string())?;
    structure(&b, p.to_str().unwrap(), &model, &Opts { orphans: refused, light: 0 })?;
    Ok(())
}
/// The number of a version is a signed 16-bit number in the file: 32767 versions are kept, the next is refused
/// and leaves what is there intact. 9999 is no number one can ask for: it stands for the last one.
fn versions(c: &mut Case, last: i32) -> Result<(), String> {
    let p = c.path("c04.root");
    let one = |name: &str, k: i32| {
        TreeSpec::new(name, vec![Col::new("x", Ty::P(Prim::I32), vec![k.to_be_bytes().to_vec()])])
    };
    let mut f = RootFile::create(&p).map_err(|e| format!("create {e:?}"))?;
    for k in 1..=last {
        build(&one("t", k)).write(&mut f).map_err(|e| format!("version {k}: {e:?}"))?;
        c.steps(1);
    }
    if last == 32767 {
        match guard(|| build(&one("t", 0)).write(&mut f).is_ok()) {
            Ok(true) => return Err("version 32768 was accepted".into()),
            Ok(false) => {}
            Err(e) => return Err(format!("version 32768 was not refused but panicked: {e}")),
        }
    }
    build(&one("u", -1)).write(&mut f).map_err(|e| format!("another tree: {e:?}"))?;
    f.close().map_err(|e| format!("close {e:?}"))?;
    drop(f);
    let mut f = RootFile::open(&p).map_err(|e| format!("open {e:?}"))?;
    let n = f.keys_name().filter(|n| *n == "t").count();
    if n != last as usize {
        return Err(format!("{n} versions listed"));
    }
    let mut ask = |name: &str, k: i32| -> Result<(), String> {
        let t = f.get_tree(name).map_err(|e| format!("{name}: {e:?}"))?;
        let got: Vec<i32> = t.branch("x").ok_or("no column")?.as_iter::<i32>().map_err(|e| format!("{e:?}"))?.collect();
        c.state((name, &got));
        if got != [k] { Err(format!("{name} holds {got:?}, not {k}")) } else { Ok(()) }
    };
    ask("t", last)?;
    ask("u", -1)?;
    for k in (1..=last).filter(|k| (k % 37 == 1 || *k > last - 7 || k & (k + 1) == 0 || k & (k - 1) == 0) && *k != 9999) {
        ask(&format!("t;{k}"), k)?;
    }
    Ok(())
}
pub fn run(cx: &mut Ctx) {
    let tier = cx.tier;
    // the last version number a key can hold, and the first it cannot
    for last in tier.pick(vec![127, 128, 256, 257, 300, 10_000, 20_000, 32_767], vec![100, 127, 128, 129, 200, 255, 256, 257, 300, 999, 1000, 4097, 9998, 9999, 10_000, 16_385, 20_000, 32_766, 32_767]) {
        cx.case(|| format!("{last} versions of one name"), |c| versions(c, last));
    }
    for h in seqs(&NAMES, tier.pick(4, 5)) {
        cx.case(|| format!("history {h:?}"), |c| history(c, &h));
    }
    if !tier.quick() {
        for h in seqs(&NAMES[..3], 8) {
            if h.len() > 5 {
                cx.case(|| format!("history {h:?}"), |c| history(c, &h));
            }
        }
    }
    // long histories: many versions of one name, many names
    for n in tier.pick(vec![9usize, 10, 11, 64, 130], vec![9, 10, 11, 64, 127, 128, 129, 255, 256, 257, 600]) {
        for k in [1usize, 2, 7, n] {
            cx.case(|| format!("{n} trees under {k} names"), |c| {
                let names: Vec<String> = (0..n).map(|i| format!("tree{}", i % k)).collect();
                history(c, &names.iter().map(|s| s.as_str()).collect::<Vec<_>>())
            });
        }
    }
}
