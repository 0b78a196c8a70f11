//! C07: every write-side system call of a set of writer programs answered with every fault.
use super::progs::*;
use crate::check::{structure, Opts};
use crate::col::*;
use crate::core::*;
use crate::io::{self, Act, Kind, Plan};
use oxyroot::RootFile;
use std::path::Path;

/// Runs the program under a plan; Ok(None) = every call reported success.
fn attempt(p: &Path, specs: &[TreeSpec], plan: Plan) -> (Result<Option<String>, String>, Plan) {
    let _ = std::fs::remove_file(p);
    io::start(Plan { prefix: p.to_str().unwrap().into(), ..plan });
    let r = guard(|| {
        let mut f = match RootFile::create(p) {
            Ok(f) => f,
            Err(e) => return Some(format!("create: {e:?}")),
        };
        for s in specs {
            if let Err(e) = build(s).write(&mut f) {
                return Some(format!("write: {e:?}"));
            }
        }
        if let Err(e) = f.close() {
            return Some(format!("close: {e:?}"));
        }
        None
    });
    (r, io::stop())
}
fn golden(p: &Path, specs: &[TreeSpec]) -> Result<(Vec<u8>, Vec<io::Ev>), String> {
    let (r, pl) = attempt(p, specs, Plan { keep_log: true, ..Default::default() });
    if r != Ok(None) {
        return Err(format!("without faults: {r:?}"));
    }
    Ok((std::fs::read(p).map_err(|e| e.to_string())?, pl.log))
}
fn judge(c: &mut Case, p: &Path, specs: &[TreeSpec], gold: &[u8], plan: Plan, what: &str) -> Result<bool, String> {
    let (r, pl) = attempt(p, specs, plan);
    c.steps(pl.n_ops as u64);
    let fired = pl.fired > 0;
    match r {
        Ok(None) => {
            let b = std::fs::read(p).map_err(|e| format!("{what}: every call reported success but {e}"))?;
            if b != gold {
                structure(&b, p.to_str().unwrap(), specs, &Opts { orphans: false, light: 0 }).map_err(|m| format!("{what}: every call reported success but {m}"))?;
            }
            verify_file(p, specs).map_err(|m| format!("{what}: every call reported success but {m}"))?;
            c.outcome((what.split(':').next().unwrap_or(""), fired, "ok"));
        }
        Ok(Some(e)) => {
            if !fired {
                return Err(format!("{what}: failed without a fault: {e}"));
            }
            c.outcome(("reported", e.split(':').next().unwrap_or("").to_string()));
            if p.exists() {
                probe(p, specs).map_err(|m| format!("{what}: reported, but left behind a file with wrong data: {m}"))?;
            }
        }
        Err(m) => return Err(format!("{what}: panic instead of an error: {m}")),
    }
    Ok(fired)
}
fn acts(k: &Kind, len: usize) -> Vec<Act> {
    let mut v: Vec<Act> = match k {
        Kind::Write => [libc::ENOSPC, libc::EIO, libc::EINTR, libc::EDQUOT, libc::EFBIG].iter().map(|e| Act::Err(*e)).collect(),
        Kind::OpenW => [libc::EACCES, libc::ENOSPC, libc::EINTR, libc::EMFILE].iter().map(|e| Act::Err(*e)).collect(),
        Kind::Seek => [libc::EINVAL, libc::EIO, libc::EOVERFLOW].iter().map(|e| Act::Err(*e)).collect(),
        Kind::Sync | Kind::Trunc => [libc::EIO, libc::ENOSPC].iter().map(|e| Act::Err(*e)).collect(),
        _ => vec![],
    };
    if *k == Kind::Write {
        for s in [1, len / 2, len.saturating_sub(1)] {
            if s > 0 && s < len && !v.contains(&Act::Short(s)) {
                v.push(Act::Short(s));
            }
        }
        v.push(Act::Eof);
    }
    v
}
pub fn run(cx: &mut Ctx) {
    let tier = cx.tier;
    for pr in progs(tier) {
        let name = pr.name.clone();
        let parts = 8usize;
        for part in 0..parts {
            cx.case(|| format!("{name}: one fault at each operation (part {part} of {parts})"), |c| {
                let p = c.path("c07.root");
                let (gold, log) = golden(&p, &pr.specs)?;
                for (k, e) in log.iter().enumerate() {
                    if k % parts != part {
                        continue;
                    }
                    for a in acts(&e.kind, e.len) {
                        let what = format!("{:?} at operation {k} of {} ({:?})", a, log.len(), e.kind);
                        if !judge(c, &p, &pr.specs, &gold, Plan { faults: vec![(k, a)], ..Default::default() }, &what)? {
                            return Err(format!("harness: fault not reached: {what}"));
                        }
                        c.state((&pr.name, k, a));
                    }
                    for e in [libc::ENOSPC, libc::EIO] {
                        let what = format!("errno {e} from operation {k} of {} on", log.len());
                        judge(c, &p, &pr.specs, &gold, Plan { dead_from: Some((k, e)), ..Default::default() }, &what)?;
                        c.state((&pr.name, k, "dead", e));
                    }
                }
                Ok(())
            });
        }
        // two faults: a retryable one first, then any
        let small = pr.specs.iter().map(|s| s.cols.iter().map(|c| c.vals.len()).sum::<usize>()).sum::<usize>() < 50;
        if small {
            let parts = 16usize;
            for part in 0..parts {
                cx.case(|| format!("{name}: two faults (part {part} of {parts})"), |c| {
                    let p = c.path("c07.root");
                    let (gold, log) = golden(&p, &pr.specs)?;
                    let lim = tier.pick(14, 60).min(log.len());
                    // the last operations are those of close
                    let ops: Vec<usize> = if tier.quick() { (log.len() - lim..log.len()).collect() } else { (0..log.len()).collect() };
                    for (n, &a) in ops.iter().enumerate() {
                        if n % parts != part {
                            continue;
                        }
                        for fa in [Act::Err(libc::EINTR), Act::Short(1), Act::Err(libc::ENOSPC)] {
                            if log[a].kind != Kind::Write {
                                continue;
                            }
                            for b in a + 1..=(a + tier.pick(6, 24)).min(log.len()) {
                                for fb in [Act::Err(libc::EIO), Act::Short(1), Act::Err(libc::EINTR), Act::Eof] {
                                    let what = format!("{fa:?} at operation {a} and {fb:?} at {b}");
                                    judge(c, &p, &pr.specs, &gold, Plan { faults: vec![(a, fa), (b, fb)], ..Default::default() }, &what)?;
                                    c.state((&pr.name, a, fa, b, fb));
                                }
                            }
                        }
                    }
                    Ok(())
                });
            }
        }
        // every write shortened
        for s in [1usize, 7, 512] {
            cx.case(|| format!("{name}: every write limited to {s} bytes"), |c| {
                let p = c.path("c07.root");
                let (gold, log) = golden(&p, &pr.specs)?;
                let tot: usize = log.iter().filter(|e| e.kind == Kind::Write).map(|e| e.len).sum();
                if tot / s > tier.pick(20_000, 400_000) {
                    return Ok(());
                }
                let faults = (0..tot / s + log.len() + 16).map(|k| (k, Act::Short(s))).collect::<Vec<_>>();
                judge(c, &p, &pr.specs, &gold, Plan { faults, ..Default::default() }, "all writes short")?;
                Ok(())
            });
        }
    }
}
