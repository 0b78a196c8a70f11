//! C08: every read-side system call of a set of reader programs answered with every fault.
use super::progs::*;
use crate::col::*;
use crate::core::*;
use crate::dynread::{suggested, V};
use crate::io::{self, Act, Kind, Plan};
use oxyroot::RootFile;
use std::path::{Path, PathBuf};

pub const SAMPLES: &str = "/repo/oxyroot";

/// What a reader sees: one line per column, values as far as they came.
#[derive(Default)]
struct Seen {
    cols: Vec<(String, Vec<V>)>,
    failed: bool,
}
/// Reads at most `lim` values of every column of every tree.
fn read_all(p: &Path, lim: usize, out: &mut Seen) {
    let r = guard(|| {
        let mut f = match RootFile::open(p) {
            Ok(f) => f,
            Err(_) => return false,
        };
        let mut names: Vec<String> = f.keys_name().map(|s| s.to_string()).collect();
        names.dedup();
        for n in names {
            let t = match f.get_tree(&n) {
                Ok(t) => t,
                Err(_) => return false,
            };
            for b in t.branches_r() {
                if b.branches().count() > 0 {
                    continue;
                }
                if let Some(it) = suggested(b, false) {
                    out.cols.push((format!("{n}/{}", b.name()), vec![]));
                    match it {
                        Err(_) => return false,
                        Ok(it) => {
                            for v in it.take(lim) {
                                out.cols.last_mut().unwrap().1.push(v);
                            }
                        }
                    }
                }
            }
        }
        true
    });
    out.failed = r != Ok(true);
}
fn judge(c: &mut Case, p: &Path, lim: usize, want: &Seen, plan: Plan, what: &str, must_match: bool) -> Result<usize, String> {
    io::start(Plan { prefix: p.to_str().unwrap().into(), ..plan });
    let mut s = Seen::default();
    read_all(p, lim, &mut s);
    let pl = io::stop();
    c.steps(pl.n_ops as u64);
    for (i, (n, v)) in s.cols.iter().enumerate() {
        let Some((wn, w)) = want.cols.get(i) else {
            return Err(format!("{what}: a column {n:?} appeared"));
        };
        if wn != n {
            return Err(format!("{what}: column {n:?} instead of {wn:?}"));
        }
        for (k, x) in v.iter().enumerate() {
            if w.get(k) != Some(x) {
                return Err(format!("{what}: column {n:?} value {k} changed to {x:?}"));
            }
        }
        let last = i + 1 == s.cols.len();
        if v.len() < w.len() && !(last && s.failed) {
            return Err(format!("{what}: column {n:?} silently ended after {} of {} values", v.len(), w.len()));
        }
    }
    if !s.failed && s.cols.len() != want.cols.len() {
        return Err(format!("{what}: only {} of {} columns were seen", s.cols.len(), want.cols.len()));
    }
    if must_match && s.failed {
        return Err(format!("{what}: reading failed although the fault is transient"));
    }
    c.outcome((what.split(' ').next().unwrap_or("").to_string(), s.failed));
    Ok(pl.fired)
}
fn acts(k: &Kind, len: usize) -> Vec<(Act, bool)> {
    match k {
        Kind::Read => {
            let mut v = vec![(Act::Err(libc::EINTR), true), (Act::Err(libc::EIO), false), (Act::Eof, false), (Act::Err(libc::ESTALE), false)];
            for s in [1usize, 2, 3, 7, len / 2, len.saturating_sub(1)] {
                if s > 0 && s < len && !v.contains(&(Act::Short(s), true)) {
                    v.push((Act::Short(s), true));
                }
            }
            v
        }
        Kind::OpenR => vec![(Act::Err(libc::EINTR), false), (Act::Err(libc::EMFILE), false), (Act::Err(libc::EACCES), false), (Act::Err(libc::ENOENT), false)],
        Kind::Seek => vec![(Act::Err(libc::EINVAL), false), (Act::Err(libc::EIO), false)],
        _ => vec![],
    }
}
fn subject(cx: &mut Ctx, name: &str, parts: usize, lim: usize, stride: usize, make: &dyn Fn(&Case) -> Result<PathBuf, String>) {
    let prep = |c: &Case| -> Result<(PathBuf, Seen, Vec<io::Ev>), String> {
        let p = make(c)?;
        io::start(Plan { prefix: p.to_str().unwrap().into(), keep_log: true, ..Default::default() });
        let mut want = Seen::default();
        read_all(&p, lim, &mut want);
        let log = io::stop().log;
        if want.failed {
            return Err("reading fails without any fault".into());
        }
        Ok((p, want, log))
    };
    for part in 0..parts {
        cx.case(|| format!("{name}: one fault at each operation (part {part} of {parts})"), |c| {
            let (p, want, log) = prep(c)?;
            for (k, e) in log.iter().enumerate() {
                if (k / stride) % parts != part || k % stride != 0 {
                    continue;
                }
                for (a, same) in acts(&e.kind, e.len) {
                    let what = format!("{a:?} at operation {k} of {} ({:?})", log.len(), e.kind);
                    if judge(c, &p, lim, &want, Plan { faults: vec![(k, a)], ..Default::default() }, &what, same)? == 0 {
                        return Err(format!("harness: fault not reached: {what}"));
                    }
                    c.state((name, k, a));
                }
            }
            Ok(())
        });
    }
    for s in [1usize, 2, 3, 5, 64, 511, 4096] {
        cx.case(|| format!("{name}: every read limited to {s} bytes"), |c| {
            let (p, want, log) = prep(c)?;
            let tot: usize = log.iter().filter(|e| e.kind == Kind::Read).map(|e| e.ret.max(0) as usize).sum();
            if tot / s > 60_000 {
                return Ok(());
            }
            let faults = (0..(tot / s + log.len() * 2 + 16)).map(|k| (k, Act::Short(s))).collect::<Vec<_>>();
            judge(c, &p, lim, &want, Plan { faults, ..Default::default() }, &format!("short reads of {s}"), true)?;
            c.state((name, "all", s));
            Ok(())
        });
    }
    // the file becomes shorter: before it is opened, or between two operations
    let shrink = |c: &Case| -> Result<(PathBuf, Seen, Vec<io::Ev>, Vec<u8>), String> {
        let q = make(c)?;
        let bytes = std::fs::read(&q).map_err(|e| e.to_string())?;
        let p = c.path("c08s.root");
        std::fs::write(&p, &bytes).map_err(|e| e.to_string())?;
        io::start(Plan { prefix: p.to_str().unwrap().into(), keep_log: true, ..Default::default() });
        let mut want = Seen::default();
        read_all(&p, lim, &mut want);
        let log = io::stop().log;
        if want.failed {
            return Err("reading fails without any fault".into());
        }
        Ok((p, want, log, bytes))
    };
    let lens = 16;
    for part in 0..lens {
        cx.case(|| format!("{name}: the file ends early (part {part} of {lens})"), |c| {
            let (p, want, log, bytes) = shrink(c)?;
            // every length of a small file; of a larger one, those around the ends of all reads, and a grid
            let n = bytes.len();
            let mut ls: Vec<usize> = if n <= c.tier.pick(2500, 30_000) {
                (0..n).collect()
            } else {
                let step = c.tier.pick(n / 400, n / 3000).max(1);
                let mut v: Vec<usize> = (0..n).step_by(step).collect();
                for e in log.iter().filter(|e| e.kind == Kind::Read) {
                    let (a, b) = (e.off.max(0) as usize, e.off.max(0) as usize + e.ret.max(0) as usize);
                    v.extend([a.saturating_sub(1), a, a + 1, (a + b) / 2, b.saturating_sub(1), b]);
                }
                v.retain(|l| *l < n);
                v.sort();
                v.dedup();
                v
            };
            let most = c.tier.pick(1500, 30_000) / stride;
            if ls.len() > most {
                let step = ls.len().div_ceil(most);
                ls = ls.into_iter().step_by(step).collect();
            }
            for l in ls.into_iter().skip(part).step_by(lens) {
                std::fs::write(&p, &bytes[..l]).map_err(|e| e.to_string())?;
                judge(c, &p, lim, &want, Plan::default(), &format!("only the first {l} of {n} bytes are there"), false)?;
                c.state((name, "len", l));
            }
            Ok(())
        });
        cx.case(|| format!("{name}: the file is cut while it is read (part {part} of {lens})"), |c| {
            let (p, want, log, bytes) = shrink(c)?;
            let reads: Vec<usize> = (0..log.len()).filter(|k| log[*k].kind == Kind::Read).collect();
            let step = (reads.len() / c.tier.pick(40, 400)).max(1) * stride;
            for (i, k) in reads.iter().enumerate().step_by(step).skip(part).step_by(lens) {
                // ends of what this read and the following ones want
                let mut ls = std::collections::BTreeSet::new();
                for j in reads[i..].iter().take(c.tier.pick(3, 8)) {
                    let (a, b) = (log[*j].off.max(0) as u64, (log[*j].off.max(0) + log[*j].ret.max(0)) as u64);
                    ls.extend([a, a + 1, (a + b) / 2, b.saturating_sub(1)]);
                }
                ls.extend([bytes.len() as u64 / 2, bytes.len() as u64 - 1]);
                for l in ls {
                    std::fs::write(&p, &bytes).map_err(|e| e.to_string())?;
                    let what = format!("cut to {l} of {} bytes at operation {k} of {}", bytes.len(), log.len());
                    judge(c, &p, lim, &want, Plan { faults: vec![(*k, Act::Cut(l))], ..Default::default() }, &what, false)?;
                    c.state((name, "cut", k, l));
                }
            }
            Ok(())
        });
    }
    // a transient fault followed by any fault
    let small = 16;
    for part in 0..small {
        cx.case(|| format!("{name}: an interrupted or short read and a second fault (part {part} of {small})"), |c| {
            let (p, want, log) = prep(c)?;
            let reads: Vec<usize> = (0..log.len()).filter(|k| log[*k].kind == Kind::Read).collect();
            let step = (reads.len() / c.tier.pick(12, 60)).max(1);
            for (n, a) in reads.iter().enumerate().filter(|(n, _)| n % step == 0).map(|(n, a)| (n / step, *a)) {
                if n % small != part {
                    continue;
                }
                for fa in [Act::Err(libc::EINTR), Act::Short(1)] {
                    for b in a + 1..a + 5 {
                        for (fb, same) in [(Act::Err(libc::EIO), false), (Act::Eof, false), (Act::Short(1), true), (Act::Err(libc::EINTR), false)] {
                            judge(c, &p, lim, &want, Plan { faults: vec![(a, fa), (b, fb)], ..Default::default() }, &format!("{fa:?} at {a} then {fb:?} at {b}"), same)?;
                            c.state((name, a, fa, b, fb));
                        }
                    }
                }
            }
            Ok(())
        });
    }
}
pub fn run(cx: &mut Ctx) {
    let tier = cx.tier;
    for pr in progs(tier) {
        let specs = pr.specs.clone();
        subject(cx, &pr.name, 4, usize::MAX, 1, &move |c| {
            let p = c.path("c08.root");
            write_file(&p, &specs)?;
            Ok(p)
        });
    }
    let files: &[(&str, usize, usize)] = &[
        ("examples/from_uproot/data/simple.root", 1000, 1),
        ("tests/stl_containers/stl_containers.root", 1000, 1),
        ("tests/7_userinfo/tree_with_user_info_with_map.root", 1000, 1),
        ("tests_data/from_uproot/sample-6.10.05-zlib.root", 1000, tier.pick(3, 1)),
        ("tests_data/from_uproot/sample-6.10.05-lz4.root", 1000, tier.pick(3, 1)),
        ("tests_data/from_uproot/sample-6.10.05-lzma.root", 1000, tier.pick(5, 1)),
        ("examples/from_uproot/data/small-evnt-tree-fullsplit.root", 1000, tier.pick(5, 1)),
        ("examples/from_uproot/data/tree_with_jagged_array.root", 1000, 1),
    ];
    for (f, lim, stride) in files {
        let path = format!("{SAMPLES}/{f}");
        if !Path::new(&path).exists() {
            cx.note("sample files missing", 1);
            continue;
        }
        subject(cx, f, 8, *lim, *stride, &|_| Ok(PathBuf::from(&path)));
    }
}
