//! C10: every stored column type against every requested Rust type.
use super::c08::SAMPLES;
use super::c03::mk;
use super::c09;
use crate::col::*;
use crate::core::*;
use crate::dynread::{suggested, TYPES};
use crate::rootw::Layout;
use oxyroot::{Branch, RootFile};
use std::path::{Path, PathBuf};

pub fn norm(t: &str) -> String {
    t.replace("TString", "String")
}
/// All requests against one column whose stored type corresponds to `want`.
fn matrix(c: &mut Case, b: &Branch, want: &str) -> Result<(), String> {
    let want = norm(want);
    let i = b.interpretation();
    if norm(&i) != want {
        return Err(format!("column {:?} is reported as {i} ({}) instead of {want}", b.name(), b.item_type_name()));
    }
    match suggested(b, true) {
        None => return Err(format!("no Rust type is called {i}")),
        Some(Err(e)) => return Err(format!("column {:?}: the suggested type {i} is refused: {e}", b.name())),
        Some(Ok(_)) => {}
    }
    for (name, go) in TYPES {
        c.steps(1);
        let ok = norm(name) == want;
        match (go(b, true), ok) {
            (Ok(_), true) => {}
            (Err(e), false) if e.contains("TypeMismatch") => {}
            (Err(e), false) => return Err(format!("column {:?} of {want} requested as {name}: {e}", b.name())),
            (Ok(_), false) => return Err(format!("column {:?} of {want} is handed out as {name}", b.name())),
            (Err(e), true) => return Err(format!("column {:?} of {want} is refused as {name}: {e}", b.name())),
        }
    }
    Ok(())
}
fn with(p: &Path, f: impl FnOnce(&oxyroot::ReaderTree) -> Result<(), String>) -> Result<(), String> {
    let mut rf = RootFile::open(p).map_err(|e| format!("open: {e:?}"))?;
    let t = rf.get_tree("tree").map_err(|e| format!("get_tree: {e:?}"))?;
    f(&t)
}
pub fn samples() -> Vec<PathBuf> {
    let mut v: Vec<PathBuf> = vec![];
    fn walk(d: &Path, v: &mut Vec<PathBuf>) {
        if let Ok(r) = std::fs::read_dir(d) {
            for e in r.flatten() {
                let p = e.path();
                let n = e.file_name();
                let n = n.to_string_lossy();
                if p.is_dir() {
                    if n != "target" && !n.starts_with('.') {
                        walk(&p, v)
                    }
                } else if n.ends_with(".root") {
                    v.push(p)
                }
            }
        }
    }
    for d in ["examples", "tests", "tests_data"] {
        walk(&Path::new(SAMPLES).join(d), &mut v);
    }
    v.retain(|p| committed(p));
    v.sort();
    v
}
/// Files left behind by the repository's own tests are not samples.
fn committed(p: &Path) -> bool {
    use std::sync::OnceLock;
    static LIST: OnceLock<Option<std::collections::HashSet<PathBuf>>> = OnceLock::new();
    let l = LIST.get_or_init(|| {
        let o = std::process::Command::new("git").args(["-C", "/repo", "ls-files", "-z", "*.root"]).output().ok()?;
        if !o.status.success() {
            return None;
        }
        Some(String::from_utf8_lossy(&o.stdout).split('\0').filter(|s| !s.is_empty()).map(|s| Path::new("/repo").join(s)).collect())
    });
    l.as_ref().is_none_or(|l| l.contains(p))
}
pub fn stored() -> Vec<Ty> {
    let mut v: Vec<Ty> = vec![Ty::Str];
    for p in PRIMS {
        v.push(Ty::P(p));
        v.push(Ty::V(p));
        for n in ARR_N {
            v.push(Ty::A(p, n));
        }
    }
    v
}
pub fn run(cx: &mut Ctx) {
    let tier = cx.tier;
    let names: &[&str] = tier.pick(&["x", "evt.x", "int"], &["x", "evt.x", "int", "xé", "vector<int>", "x_t", "float", "a b", "n", "a;1", "0"]);
    for ty in stored() {
        for name in names {
            for pos in 0..3 {
                for n in [0usize, 3] {
                    cx.case(
                        || format!("written column {name:?} of {} at position {pos} with {n} entries", ty.rust()),
                        |c| {
                            let mut cols = vec![mk("p", Ty::P(Prim::F64), 1, n), mk("q", Ty::V(Prim::I16), 2, n)];
                            cols.insert(pos, mk(name, ty, 3, n));
                            let spec = TreeSpec::new("tree", cols);
                            let p = c.path("c10.root");
                            write_file(&p, &[spec])?;
                            c.state((&ty, name, pos, n));
                            let mut reqs = 0;
                            let r = with(&p, |t| {
                                let b = t.branch(name).ok_or("column not found")?;
                                let i = b.interpretation();
                                if norm(&i) != ty.rust() {
                                    return Err(format!("column is reported as {i} ({}) instead of {}", b.item_type_name(), ty.rust()));
                                }
                                if b.item_type_name() != ty.cpp() {
                                    return Err(format!("column is reported as {} instead of {}", b.item_type_name(), ty.cpp()));
                                }
                                reqs = 1;
                                Ok(())
                            });
                            c.steps(reqs);
                            r?;
                            let mut rf = RootFile::open(&p).map_err(|e| format!("open: {e:?}"))?;
                            let t = rf.get_tree("tree").map_err(|e| format!("get_tree: {e:?}"))?;
                            let b = t.branch(name).unwrap();
                            if crate::dynread::find(&ty.rust()).is_some() {
                                matrix(c, b, &ty.rust())
                            } else {
                                // the array length has no entry in the table of requests: all of them are wrong
                                for (q, go) in TYPES {
                                    c.steps(1);
                                    match go(b, true) {
                                        Err(e) if e.contains("TypeMismatch") => {}
                                        Err(e) => return Err(format!("requested as {q}: {e}")),
                                        Ok(_) => return Err(format!("a column of {} is handed out as {q}", ty.rust())),
                                    }
                                }
                                Ok(())
                            }
                        },
                    );
                }
            }
        }
    }
    for k in c09::kinds() {
        for emb in [false, true] {
            cx.case(
                || format!("foreign column: {} embedded {emb}", k.label),
                |c| {
                    c.state((&k.label, emb));
                    let b = c09::build(&k, &[2, 1], c09::LENS[0].1, emb, &Layout::default());
                    let p = c.path("c10.root");
                    std::fs::write(&p, &b.bytes).map_err(|e| e.to_string())?;
                    let mut rf = RootFile::open(&p).map_err(|e| format!("open: {e:?}"))?;
                    let t = rf.get_tree("tree").map_err(|e| format!("get_tree: {e:?}"))?;
                    for (n, r, _) in &b.want {
                        matrix(c, t.branch(n).ok_or("column not found")?, r)?;
                    }
                    Ok(())
                },
            );
        }
    }
    for s in samples() {
        let short = s.strip_prefix(SAMPLES).unwrap_or(&s).display().to_string();
        let leaves: Vec<(String, usize)> = guard(|| {
            let mut v = vec![];
            if let Ok(mut f) = RootFile::open(&s) {
                let mut ks: Vec<String> = f.keys_name().map(|k| k.to_string()).collect();
                ks.dedup();
                for k in ks {
                    if let Ok(t) = f.get_tree(&k) {
                        for (i, b) in t.branches_r().iter().enumerate() {
                            if b.branches().count() == 0 {
                                v.push((k.clone(), i));
                            }
                        }
                    }
                }
            }
            v
        })
        .unwrap_or_default();
        for (k, i) in leaves {
            cx.case(
                || format!("sample {short}: tree {k:?} column {i}"),
                |c| {
                    let mut f = RootFile::open(&s).map_err(|e| format!("open: {e:?}"))?;
                    let t = f.get_tree(&k).map_err(|e| format!("get_tree: {e:?}"))?;
                    let v = t.branches_r();
                    let b = v.get(i).ok_or("column vanished")?;
                    c.state((&short, &k, i));
                    // types the harness has no request for are C20's business
                    let Ok(w) = guard(|| b.interpretation()) else { return Ok(()) };
                    if crate::dynread::find(&w).is_none() {
                        return Ok(());
                    }
                    matrix(c, b, &w)
                },
            );
        }
    }
}
