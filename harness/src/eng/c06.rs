//! C06: every crash point, torn write and truncation length of a set of writer programs.
use super::progs::*;
use crate::check::{structure, Opts};
use crate::col::*;
use crate::core::*;
use crate::io::{self, Kind, Plan};
use oxyroot::RootFile;
use std::path::Path;

struct History {
    log: Vec<io::Ev>,
    closed_at: usize,
    image_at_close: Vec<u8>,
    image: Vec<u8>,
}
fn record(p: &Path, specs: &[TreeSpec], old: Option<&[u8]>) -> Result<History, String> {
    match old {
        None => drop(std::fs::remove_file(p)),
        Some(b) => std::fs::write(p, b).map_err(|e| e.to_string())?,
    }
    io::start(Plan { prefix: p.to_str().unwrap().into(), keep_log: true, keep_data: true, ..Default::default() });
    let mut f = RootFile::create(p).map_err(|e| format!("create {e:?}"))?;
    for s in specs {
        build(s).write(&mut f).map_err(|e| format!("write {e:?}"))?;
    }
    f.close().map_err(|e| format!("close {e:?}"))?;
    let closed_at = io::n_ops();
    let image_at_close = std::fs::read(p).map_err(|e| e.to_string())?;
    // the file is complete for other readers while the writing handle is still alive
    let n = io::stop();
    verify_file(p, specs).map_err(|e| format!("after close, handle alive: {e}"))?;
    structure(&image_at_close, p.to_str().unwrap(), specs, &Opts { orphans: false, light: 0 }).map_err(|e| format!("after close, handle alive: {e}"))?;
    io::start(Plan { keep_log: true, keep_data: true, prefix: n.prefix.clone(), ..Default::default() });
    drop(f);
    let rest = io::stop();
    let mut log = n.log;
    // reads of the closing check are not part of the program
    log.truncate(log.iter().filter(|_| true).count());
    log.extend(rest.log.into_iter().filter(|e| e.kind != Kind::OpenR && e.kind != Kind::Read));
    let image = std::fs::read(p).map_err(|e| e.to_string())?;
    Ok(History { log, closed_at, image_at_close, image })
}
/// Older files: with the same trees and more entries of other values, with another tree, of other bytes.
fn olds(specs: &[TreeSpec]) -> Vec<(&'static str, Vec<TreeSpec>)> {
    let mut more = specs.to_vec();
    for (i, c) in more.iter_mut().flat_map(|s| s.cols.iter_mut()).enumerate() {
        let n = c.vals.len();
        c.vals = (0..2 * n + 3).map(|k| c.ty.val(77 + (i * 1000 + k) as u64, k % 5)).collect::<Vec<_>>().into();
    }
    let other = TreeSpec::new("old", vec![Col::new("o", Ty::V(Prim::F32), (0..60).map(|i| Ty::V(Prim::F32).val(i, 60)).collect())]);
    let mut both = more.clone();
    both.push(other.clone());
    vec![("the same trees with more entries", more), ("another tree", vec![other]), ("more trees", both.clone()), ("junk", both)]
}
/// The file is unreadable, or holds trees that were completely written, now or before.
fn either(c: &mut Case, q: &Path, img: &[u8], new: &[TreeSpec], old: &[TreeSpec]) -> Result<(), String> {
    std::fs::write(q, img).map_err(|e| e.to_string())?;
    let r = probe(q, new);
    let r = match r {
        Err(m) => probe(q, old).map_err(|_| m)?,
        Ok(s) => s,
    };
    c.outcome(&r);
    c.steps(1);
    Ok(())
}
fn tears(len: usize, tier: Tier) -> Vec<usize> {
    let dense = tier.pick(96, 4096);
    if len <= dense {
        return (1..len).collect();
    }
    let mut v: Vec<usize> = (1..=24).chain(len - 24..len).collect();
    for k in 0..tier.pick(24, 256) {
        v.push(1 + k * (len - 2) / tier.pick(24, 256));
    }
    for b in [512usize, 4096, 8192, 16384, 32768] {
        v.extend([b - 1, b, b + 1].iter().filter(|x| **x < len));
    }
    v.sort();
    v.dedup();
    v
}
pub fn run(cx: &mut Ctx) {
    let tier = cx.tier;
    for pr in progs(tier) {
        let name = pr.name.clone();
        cx.case(|| format!("{name}: visible after close, unchanged by dropping the handle"), |c| {
            let p = c.path("c06.root");
            let h = record(&p, &pr.specs, None)?;
            if h.image != h.image_at_close {
                return Err("dropping the handle changed the closed file".into());
            }
            let mut img = vec![];
            for e in &h.log {
                io::apply(&mut img, e);
            }
            if img != h.image {
                return Err("harness: the recorded writes do not rebuild the file".into());
            }
            c.state((&pr.name, "closed"));
            c.steps(h.closed_at as u64);
            Ok(())
        });
        // in the place of an older file
        for (what, specs) in olds(&pr.specs) {
            cx.case(|| format!("{name}: in the place of {what}"), |c| {
                let q = c.path("c06.root");
                write_file(&q, &specs)?;
                let mut old = std::fs::read(&q).map_err(|e| e.to_string())?;
                if what.starts_with("junk") {
                    old.iter_mut().enumerate().for_each(|(i, b)| *b = (i * 7) as u8);
                }
                let h = record(&q, &pr.specs, Some(&old))?;
                let mut img = old.clone();
                for e in &h.log {
                    io::apply(&mut img, e);
                }
                if img != h.image {
                    return Err("harness: the recorded writes do not rebuild the file".into());
                }
                let mut img = old;
                for (k, e) in h.log.iter().enumerate() {
                    if e.kind == Kind::Write && e.ret > 1 {
                        for t in [1, e.data.len() / 2, e.data.len() - 1] {
                            let mut torn = e.clone();
                            torn.data.truncate(t);
                            torn.ret = t as i64;
                            let mut im = img.clone();
                            io::apply(&mut im, &torn);
                            either(c, &q, &im, &pr.specs, &specs).map_err(|m| format!("write {k} of {} torn after {t}: {m}", h.log.len()))?;
                            c.state((&pr.name, what, k, t));
                        }
                    }
                    io::apply(&mut img, e);
                    either(c, &q, &img, &pr.specs, &specs).map_err(|m| format!("interrupted after operation {k} of {}: {m}", h.log.len()))?;
                    c.state((&pr.name, what, k));
                }
                Ok(())
            });
        }
        // every prefix of the write history, the last write torn at every enumerated length
        let parts = 8;
        for part in 0..parts {
            cx.case(|| format!("{name}: interrupted after each write and inside it (part {part} of {parts})"), |c| {
                let p = c.path("c06.root");
                let h = record(&p, &pr.specs, None)?;
                let q = c.path("c06.root");
                let mut img: Vec<u8> = vec![];
                for (k, e) in h.log.iter().enumerate() {
                    if e.kind != Kind::Write || e.ret <= 0 {
                        io::apply(&mut img, e);
                        continue;
                    }
                    if k % parts == part {
                        for t in tears(e.data.len(), tier) {
                            let mut torn = e.clone();
                            torn.data.truncate(t);
                            torn.ret = t as i64;
                            let mut im = img.clone();
                            io::apply(&mut im, &torn);
                            std::fs::write(&q, &im).map_err(|e| e.to_string())?;
                            let s = probe(&q, &pr.specs).map_err(|m| format!("write {k} of {} (offset {}, {} bytes) torn after {t}: {m}", h.log.len(), e.off, e.len))?;
                            c.outcome((&pr.name, &s));
                            c.state((&pr.name, k, t));
                            c.steps(1);
                        }
                    }
                    io::apply(&mut img, e);
                    if k % parts == part {
                        std::fs::write(&q, &img).map_err(|e| e.to_string())?;
                        let s = probe(&q, &pr.specs).map_err(|m| format!("interrupted after write {k} of {} (offset {}, {} bytes): {m}", h.log.len(), e.off, e.len))?;
                        c.outcome((&pr.name, &s));
                        c.state((&pr.name, k, usize::MAX));
                        c.steps(1);
                    }
                }
                Ok(())
            });
        }
        let parts = 16;
        for part in 0..parts {
            cx.case(|| format!("{name}: cut off at each length (part {part} of {parts})"), |c| {
                let p = c.path("c06.root");
                write_file(&p, &pr.specs)?;
                let b = std::fs::read(&p).map_err(|e| e.to_string())?;
                let dense = tier.pick(6000, 400_000);
                let mut cuts: Vec<usize> = (0..b.len().min(dense / 2)).chain(b.len().saturating_sub(dense / 2)..b.len()).collect();
                let f = crate::rootr::File::parse(&b)?;
                for r in f.records()? {
                    for d in -3i64..=3 {
                        cuts.push((r.at as i64 + d).max(0) as usize);
                        cuts.push((r.at as i64 + r.key.key_len as i64 + d).max(0) as usize);
                    }
                }
                cuts.sort();
                cuts.dedup();
                for n in cuts.into_iter().filter(|n| n % parts == part && *n < b.len()) {
                    std::fs::write(&p, &b[..n]).map_err(|e| e.to_string())?;
                    let s = probe(&p, &pr.specs).map_err(|m| format!("cut to {n} of {} bytes: {m}", b.len()))?;
                    c.outcome((&pr.name, &s));
                    c.state((&pr.name, "cut", n));
                    c.steps(1);
                }
                Ok(())
            });
        }
    }
}
