//! C24: whatever the bytes of a file are, reading it comes to an end, and with little memory.
use super::c03::mk;
use super::c09;
use crate::col::*;
use crate::core::*;
use crate::dynread;
use crate::rootr::File;
use crate::rootw::*;
use crate::sched;
use oxyroot::rbase::TObjString;
use oxyroot::{Named, RootFile};
use std::path::Path;
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};


/// Everything a reader can do with the file, each step allowed to fail; returns how far it came.
/// `deep` reads the columns also as types they were not written as.
pub fn explore(p: &Path, deep: bool) -> [u32; 5] {
    let mut n = [0u32; 5];
    let Ok(Ok(mut f)) = guard(|| RootFile::open(p)) else { return n };
    n[0] += 1;
    let names: Vec<String> = f.keys_name().map(|s| s.to_string()).collect();
    let _ = guard(|| f.keys().len());
    for name in names.iter().take(6) {
        n[1] += 1;
        let Ok(Ok(t)) = guard(|| f.get_tree(name)) else { continue };
        n[2] += 1;
        let _ = guard(|| t.entries());
        if let Ok(Some(l)) = guard(|| t.user_info()) {
            for i in 0..l.len().min(50) {
                let _ = guard(|| l.at::<TObjString>(i).name().len());
            }
        }
        let Ok(bs) = guard(|| t.branches_r()) else { continue };
        for b in bs.into_iter().take(50) {
            n[3] += 1;
            let _ = guard(|| (b.item_type_name(), b.interpretation(), b.entries()));
            let k = guard(|| match dynread::suggested(b, true) {
                Some(Ok(it)) => it.take(100_000).count(),
                _ => 0,
            });
            n[4] += k.unwrap_or(0) as u32;
            if deep {
                for ty in ["String", "Vec<i32>", "Vec<String>", "Slice<u8>", "HashMap<i32,String>", "Vec<Vec<u16>>", "f64"] {
                    let Some(go) = dynread::find(ty) else { continue };
                    let k = guard(|| go(b, false).map(|it| it.take(100_000).count()).unwrap_or(0));
                    n[4] += k.unwrap_or(0) as u32;
                }
            }
        }
    }
    n
}
/// Sound files, smallest first: written by the library, by the independent writer (units, last
/// units embedded, compressed, wide pointers, old class versions, objects), and by ROOT.
fn bases(tier: Tier) -> Vec<(String, Vec<u8>)> {
    let mut out = vec![];
    let dir = Path::new("/dev/shm").join(format!("oxmc-base-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let p = dir.join("b.root");
    let a = TreeSpec::new("t", vec![mk("i", Ty::P(Prim::I32), 1, 5), mk("s", Ty::Str, 2, 4), mk("v", Ty::V(Prim::F64), 3, 4), mk("a", Ty::A(Prim::F32, 3), 4, 3)]);
    let b = TreeSpec::new("u", vec![mk("b", Ty::P(Prim::Bool), 5, 3)]);
    write_file(&p, &[a, b]).unwrap();
    out.push(("written by the library".to_string(), std::fs::read(&p).unwrap()));
    let _ = std::fs::remove_file(&p);
    let _ = std::fs::remove_dir(&dir);
    let ks = c09::kinds();
    let plain: Vec<&c09::Kd> = ks.iter().filter(|k| k.elem.is_none()).collect();
    let mut several = |codec, from: usize, many: usize, vers, big, zip_tree| {
        let step = plain.len() / many;
        let parts: Vec<c09::Part> = plain.iter().skip(from % step).step_by(step).take(many).enumerate().map(|(i, k)| c09::Part { kind: k, parts: if i % 2 == 0 { vec![2, 2] } else { vec![4] }, emb: i % 4 == 1 }).collect();
        let lay = Layout { codec, blocks: vec![40], vers, big, zip_tree };
        out.push((format!("{codec:?}, version {vers}, wide pointers {big}, columns {:?}", parts.iter().map(|p| p.kind.rust.as_str()).collect::<Vec<_>>()), c09::multi(&[("t", &parts)], &[1, 0, 2], &lay).0));
    };
    several(Codec::None, 0, 4, 13, false, false);
    several(Codec::Lz4, 3, 4, 12, true, false);
    if !tier.quick() {
        several(Codec::Zlib, 5, 3, 11, false, true);
        several(Codec::Lzma, 7, 3, 10, false, false);
        several(Codec::None, 9, 3, 8, false, false);
        several(Codec::None, 11, 5, 13, true, false);
        several(Codec::None, 2, 5, 13, false, false);
    }
    out.push(("objects".into(), super::c22::sample_file()));
    let root = Path::new("/repo/oxyroot");
    let mut of = vec!["examples/from_uproot/data/simple.root"];
    if !tier.quick() {
        of.extend(["tests/7_userinfo/tree_with_user_info_with_map.root", "examples/from_uproot/data/tree_with_jagged_array.root"]);
    }
    for f in of {
        if let Ok(b) = std::fs::read(root.join(f)) {
            out.push((f.to_string(), b));
        }
    }
    out
}
/// The most memory that may be asked for at once, and the most time a reading may take.
const MEMORY: usize = 32 << 20;
const TIME: Duration = Duration::from_secs(20);
fn attempt(c: &mut Case, p: &Path, b: &[u8], deep: bool, what: impl Fn() -> String) -> Result<(), String> {
    std::fs::write(p, b).map_err(|e| e.to_string())?;
    let t = Instant::now();
    sched::BIGGEST.store(0, Relaxed);
    let r = explore(p, deep);
    let big = sched::BIGGEST.load(Relaxed);
    let t = t.elapsed();
    c.outcome(r);
    c.steps(1);
    if t > TIME {
        return Err(format!("{}: reading takes {t:?}", what()));
    }
    if big > MEMORY {
        return Err(format!("{}: {big} bytes of memory requested at once, for a file of {} bytes", what(), b.len()));
    }
    Ok(())
}
pub fn run(cx: &mut Ctx) {
    let tier = cx.tier;
    // objects inside objects, more than any stack holds; read by a thread with the usual stack
    for n in [100usize, 255, 256, 1000, 20_000] {
        cx.case(|| format!("objects nested {n} deep"), |c| {
            let p = c.path("c24.root");
            // (the encoder recurses too)
            let files = std::thread::Builder::new().stack_size(1 << 30).spawn(move || super::c22::deep_files(n)).unwrap().join().map_err(|_| "MACHINERY: encoder")?;
            for b in files {
                std::fs::write(&p, b).map_err(|e| e.to_string())?;
                let q = p.clone();
                let r = std::thread::Builder::new().stack_size(2 << 20).spawn(move || explore(&q, false)).unwrap().join().map_err(|_| "the thread ended with a panic")?;
                c.outcome(r);
                c.steps(1);
            }
            c.state(n);
            Ok(())
        });
    }
    for (fi, (name, b)) in bases(tier).into_iter().enumerate() {
        let places: Vec<usize> = File::parse(&b).and_then(|f| f.records()).map(|r| r.iter().map(|r| r.at).collect()).unwrap_or_default();
        cx.case(|| format!("{name}: intact"), |c| {
            if places.is_empty() {
                return Err(format!("MACHINERY: {name} has no records: {:?}", File::parse(&b).and_then(|f| f.records()).err()));
            }
            attempt(c, &c.path("c24.root"), &b, true, || "intact".into())
        });
        // a field: every width, at every place, with every value of a set
        for w in [1usize, 2, 4, 8] {
            let vals: Vec<u64> = match w {
                1 if !tier.quick() => (0..256).collect(),
                1 => vec![0, 1, 2, 0x3f, 0x40, 0x7f, 0x80, 0xfe, 0xff],
                2 => vec![0, 1, 0x7fff, 0x8000, 0xffff, 0x4000],
                4 => [0u64, 1, 0x10, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fffe, 0x4000_0001, 0x0100_0000, 0x8000_0001, b.len() as u64].into_iter().chain(places.iter().step_by(tier.pick(3, 1)).map(|p| *p as u64)).collect(),
                _ => vec![0, 1, 0x7fff_ffff_ffff_ffff, 1 << 63, u64::MAX, 1 << 40, 1 << 32, 0x7fff_fff0],
            };
            let step = tier.pick(32, 8);
            for from in (0..=b.len() - w).step_by(step) {
                cx.case(|| format!("{name}: {w} bytes overwritten at {from} and following"), |c| {
                    let p = c.path("c24.root");
                    for at in from..(from + step).min(b.len() - w + 1) {
                        for v in &vals {
                            let mut x = b.clone();
                            x[at..at + w].copy_from_slice(&v.to_be_bytes()[8 - w..]);
                            if x != b {
                                attempt(c, &p, &x, !tier.quick(), || format!("{w} bytes at {at} are {v:#x}"))?;
                            }
                        }
                    }
                    c.state((fi, w, from));
                    Ok(())
                });
            }
        }
        // a piece missing, doubled, or cleared: all places, lengths of powers of two
        let lens: Vec<usize> = tier.pick(vec![1, 4, 64], vec![1, 2, 3, 4, 8, 16, 64, 256, 1024]);
        let step = tier.pick(64, 16);
        for from in (0..b.len()).step_by(step) {
            cx.case(|| format!("{name}: pieces missing, doubled, cleared from {from} on"), |c| {
                let p = c.path("c24.root");
                for at in from..(from + step).min(b.len()) {
                    for l in &lens {
                        let e = (at + l).min(b.len());
                        attempt(c, &p, &[&b[..at], &b[e..]].concat(), false, || format!("{l} bytes missing at {at}"))?;
                        attempt(c, &p, &[&b[..e], &b[at..]].concat(), false, || format!("{l} bytes doubled at {at}"))?;
                        for fill in [0u8, 0xff] {
                            let mut x = b.clone();
                            x[at..e].fill(fill);
                            attempt(c, &p, &x, false, || format!("{l} bytes at {at} are {fill:#x}"))?;
                        }
                    }
                    attempt(c, &p, &b[..at], false, || format!("cut at {at}"))?;
                }
                c.state((fi, "pieces", from));
                Ok(())
            });
        }
        // a record in the place of another
        let ends: Vec<usize> = places.iter().skip(1).copied().chain([b.len()]).collect();
        for i in 0..places.len() {
            cx.case(|| format!("{name}: record {i} in the place of others"), |c| {
                let p = c.path("c24.root");
                for j in 0..places.len() {
                    let r = &b[places[i]..ends[i]];
                    let mut x = b.clone();
                    let n = r.len().min(x.len() - places[j]);
                    x[places[j]..places[j] + n].copy_from_slice(&r[..n]);
                    attempt(c, &p, &x, true, || format!("record {i} over record {j}"))?;
                    for k in [8, 16, 64] {
                        let n = n.min(k);
                        let mut x = b.clone();
                        x[places[j]..places[j] + n].copy_from_slice(&r[..n]);
                        attempt(c, &p, &x, true, || format!("the first {k} bytes of record {i} over record {j}"))?;
                    }
                }
                c.state((fi, "records", i));
                Ok(())
            });
        }
        // two fields of four bytes of the same record's beginning, or of the file's
        let reach = tier.pick(32, 64);
        for (pi, s) in std::iter::once(&0).chain(&places).enumerate() {
            if tier.quick() && pi % 3 != 0 {
                continue;
            }
            for i in 0..reach {
                cx.case(|| format!("{name}: two fields of the record at {s}, one at {i}"), |c| {
                    let p = c.path("c24.root");
                    for j in (i + 1..reach).step_by(tier.pick(2, 1)) {
                        for v in [0u32, 1, 0x7fff_ffff, 0xffff_ffff] {
                            for w in [0u32, 0x7fff_ffff, 0xffff_ffff] {
                                let mut x = b.clone();
                                for (at, v) in [(s + i, v), (s + j, w)] {
                                    if at + 4 <= x.len() {
                                        x[at..at + 4].copy_from_slice(&v.to_be_bytes());
                                    }
                                }
                                attempt(c, &p, &x, false, || format!("{v:#x} at {} and {w:#x} at {}", s + i, s + j))?;
                            }
                        }
                    }
                    c.state((fi, "pairs", s, i));
                    Ok(())
                });
            }
        }
    }
}
