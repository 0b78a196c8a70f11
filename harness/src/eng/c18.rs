//! C18: names of trees and columns, and file paths, of every form.
use super::c02::seqs;
use super::c03::mk;
use crate::check::{structure, Opts};
use crate::col::*;
use crate::core::*;
use oxyroot::RootFile;
use std::path::Path;

fn col(i: usize, name: &str) -> Col {
    let ty = [Ty::P(Prim::I32), Ty::Str, Ty::V(Prim::F32), Ty::A(Prim::I16, 3), Ty::P(Prim::Bool), Ty::P(Prim::F64), Ty::V(Prim::U8)][i % 7];
    mk(name, ty, 7 + i as u64, [3, 2, 4, 1][i % 4])
}
fn tree(i: usize, name: &str, cols: &[String]) -> TreeSpec {
    TreeSpec::new(name, cols.iter().enumerate().map(|(k, n)| col(i + k, n)).collect())
}
/// Writes the trees, reads them back, and looks the absent names up.
fn store(c: &mut Case, p: &Path, trees: &[TreeSpec], absent: &[String]) -> Result<(), String> {
    write_file(p, trees)?;
    verify_file(p, trees)?;
    let mut f = RootFile::open(p).map_err(|e| format!("open: {e:?}"))?;
    for n in absent {
        if !trees.iter().any(|t| &t.name == n) && guard(|| f.get_tree(n).is_ok()).map_err(|m| format!("looking up the absent tree {n:?} panicked: {m}"))? {
            // "name;1" names the first version of "name"
            let named = n.rsplit_once(';').map_or(false, |(a, k)| trees.iter().any(|t| t.name == a) && k.parse::<u16>().is_ok());
            if !named {
                return Err(format!("tree {n:?} was found but never written"));
            }
        }
        for t in trees {
            let r = f.get_tree(&t.name).map_err(|e| format!("tree {:?}: {e:?}", t.name))?;
            if !t.cols.iter().any(|x| &x.name == n) && r.branch(n).is_some() {
                return Err(format!("column {n:?} was found in tree {:?} but never written", t.name));
            }
            c.steps(1);
        }
    }
    for t in trees {
        c.state((&t.name, t.cols.iter().map(|x| x.name.clone()).collect::<Vec<_>>()));
        c.steps(1 + t.cols.len() as u64);
        // each version under its own number
        let same: Vec<usize> = (0..trees.len()).filter(|k| trees[*k].name == t.name).collect();
        for (v, k) in same.iter().enumerate() {
            let n = format!("{};{}", t.name, v + 1);
            if t.name.contains(';') || trees.iter().any(|x| x.name == n) {
                continue;
            }
            let r = guard(|| f.get_tree(&n)).map_err(|m| format!("looking up {n:?} panicked: {m}"))?.map_err(|e| format!("looking up {n:?}: {e:?}"))?;
            let got: Vec<&str> = r.branches().map(|b| b.name()).collect();
            let want: Vec<&str> = trees[*k].cols.iter().map(|c| c.name.as_str()).collect();
            if got != want {
                return Err(format!("{n:?} has columns {got:?} instead of {want:?}"));
            }
        }
    }
    let b = std::fs::read(p).map_err(|e| e.to_string())?;
    structure(&b, &p.to_string_lossy(), trees, &Opts { orphans: false, light: 0 }).map(|_| ())
}
fn s(x: &[&str]) -> Vec<String> {
    x.iter().map(|s| s.to_string()).collect()
}
/// Either the names are refused, before anything can be lost, or they are preserved.
fn attempt(c: &mut Case, p: &Path, trees: &[TreeSpec], absent: &[String]) -> Result<(), String> {
    if refused(p, trees)? {
        return Ok(());
    }
    store(c, p, trees, absent)
}
/// True if a name was refused with an error, and the file then holds the other trees only.
fn refused(p: &Path, trees: &[TreeSpec]) -> Result<bool, String> {
    let mut f = RootFile::create(p).map_err(|e| format!("create: {e:?}"))?;
    let mut kept = vec![];
    for t in trees {
        match build(t).write(&mut f) {
            Ok(()) => kept.push(t.clone()),
            Err(_) => {}
        }
    }
    f.close().map_err(|e| format!("close: {e:?}"))?;
    drop(f);
    if kept.len() < trees.len() {
        verify_file(p, &kept)?;
        return Ok(true);
    }
    Ok(false)
}
fn name_of(l: usize, k: usize) -> String {
    (0..l).map(|i| (b'a' + ((i * 7 + k * 3 + i / 26) % 26) as u8) as char).collect()
}
const ODD: [char; 20] = ['é', 'ß', '漢', '😀', '\u{301}', '\u{7f}', '\u{80}', '\u{a0}', '\u{ff}', '\u{fffd}', '\u{feff}', '\n', '\t', '\r', '\u{1}', '\u{1b}', '\u{0}', '\u{200b}', '\u{2028}', '\u{10ffff}'];
fn alphabet() -> Vec<char> {
    (0x20u8..0x7f).map(|b| b as char).chain(ODD).collect()
}
/// A tree name with the sign that separates directories is refused.
fn may_refuse(n: &str, column: bool) -> bool {
    !column && n.contains('/')
}
pub fn run(cx: &mut Ctx) {
    let tier = cx.tier;
    let one = s(&["x", "y"]);
    // lengths
    let mut lens: Vec<usize> = (0..=tier.pick(70, 700)).collect();
    if tier.quick() {
        lens.extend((70..=300).filter(|l| l % 10 == 0 || (245..=270).contains(l)));
    }
    lens.extend([500, 1000, 1022, 1023, 1024, 1025, 4095, 4096, 4097, 16383, 16384, 32000, 32766, 32767]);
    if !tier.quick() {
        lens.extend([32740, 32750, 32760, 32765]);
    }
    lens.sort();
    lens.dedup();
    for l in &lens {
        let l = *l;
        let name = name_of(l, 1);
        let short = l <= 1000;
        cx.case(|| format!("tree name of {l} bytes"), |c| {
            let p = c.path("c18.root");
            let near = [name_of(l + 1, 1), name_of(l.saturating_sub(1), 1), "x".to_string()];
            if short {
                store(c, &p, &[tree(0, &name, &one)], &near)?;
                store(c, &p, &[tree(0, "first", &one), tree(1, &name, &one), tree(2, &name, &s(&["z"])), tree(3, "last", &one)], &near)
            } else {
                attempt(c, &p, &[tree(0, &name, &one)], &near)?;
                attempt(c, &p, &[tree(0, "first", &one), tree(1, &name, &one), tree(3, "last", &one)], &near)
            }
        });
        cx.case(|| format!("column name of {l} bytes"), |c| {
            let p = c.path("c18.root");
            let near = [name_of(l + 1, 1), name_of(l.saturating_sub(1), 1), "t".to_string()];
            for k in 0..7 {
                let t = TreeSpec::new("t", vec![col(1, "first"), Col { name: name.clone(), ..col(k, "") }, col(5, "last")]);
                if short {
                    store(c, &p, &[t], &near)?;
                } else {
                    attempt(c, &p, &[t], &near)?;
                }
            }
            Ok(())
        });
        // files in directories as deep as it takes
        if l > 0 && l < 4000 {
            cx.case(|| format!("file path longer by {l}"), |c| {
                let mut dir = c.path("p");
                let mut left = l;
                while left > 200 {
                    dir = dir.join(name_of(199, left));
                    left -= 200;
                }
                let _ = std::fs::create_dir_all(&dir);
                let file = dir.join(name_of(left, 2));
                if file.as_os_str().len() > 4090 {
                    return Ok(());
                }
                let r = store(c, &file, &[tree(0, "t", &one), tree(1, "u", &s(&["z"]))], &s(&["a"]));
                let _ = std::fs::remove_file(&file);
                r
            });
        }
    }
    // every sign, alone and at each place of a short name
    let signs = alphabet();
    for ch in &signs {
        let forms: Vec<String> = vec![format!("{ch}"), format!("{ch}b"), format!("a{ch}"), format!("a{ch}b"), format!("{ch}{ch}"), format!("a{ch}1"), format!("a{ch}b{ch}c")];
        cx.case(|| format!("tree names with {ch:?}"), |c| {
            let p = c.path("c18.root");
            for (k, n) in forms.iter().enumerate() {
                let ts = [tree(k, n, &one), tree(k + 1, "ab", &one)];
                let absent = [&forms[..], &s(&["a", "b", "1", ""])].concat();
                if may_refuse(n, false) {
                    attempt(c, &p, &ts, &absent).map_err(|m| format!("{n:?}: {m}"))?
                } else {
                    store(c, &p, &ts, &absent).map_err(|m| format!("{n:?}: {m}"))?
                }
            }
            Ok(())
        });
        cx.case(|| format!("column names with {ch:?}"), |c| {
            let p = c.path("c18.root");
            for n in forms.iter() {
                for k in 0..7 {
                    let t = TreeSpec::new("t", vec![Col { name: n.clone(), ..col(k, "") }, col(k + 1, "ab"), col(k + 2, "q")]);
                    let absent = [&forms[..], &s(&["a", "b", "1", "", "t"])].concat();
                    if may_refuse(n, true) {
                        attempt(c, &p, &[t], &absent).map_err(|m| format!("{n:?}: {m}"))?
                    } else {
                        store(c, &p, &[t], &absent).map_err(|m| format!("{n:?}: {m}"))?
                    }
                }
            }
            Ok(())
        });
        if *ch != '/' && *ch != '\0' {
            cx.case(|| format!("file names with {ch:?}"), |c| {
                let dir = c.path("names");
                let _ = std::fs::create_dir_all(&dir);
                for n in &forms {
                    let p = dir.join(n);
                    let r = if n == "." || n == ".." { Ok(()) } else { store(c, &p, &[tree(0, "t", &one)], &[]) };
                    let _ = std::fs::remove_file(&p);
                    r.map_err(|m| format!("{n:?}: {m}"))?;
                }
                Ok(())
            });
        }
    }
    // paths that are no text
    for b in 0x80..=0xffu8 {
        cx.case(|| format!("file names with byte {b:#x}"), |c| {
            use std::os::unix::ffi::OsStrExt;
            let dir = c.path("names");
            let _ = std::fs::create_dir_all(&dir);
            for n in [&[b][..], &[b'a', b, b'z'], &[b, b], &[b'a', b, 0x80, b'.', b'r']] {
                let p = dir.join(std::ffi::OsStr::from_bytes(n));
                let r = store(c, &p, &[tree(0, "t", &one)], &[]);
                let _ = std::fs::remove_file(&p);
                r?;
            }
            Ok(())
        });
    }
    // every short word over the signs with a meaning somewhere
    let special = ['a', '.', ';', '1', '[', ']', ':', '/', '_', ' ', '(', ',', '<', '*', '9'];
    for w in seqs(&special, tier.pick(3, 4)) {
        if w.len() < 2 {
            continue;
        }
        // grouped by the first two signs
        if w.len() == 2 {
            cx.case(|| format!("words beginning with {w:?}"), |c| {
                let p = c.path("c18.root");
                for rest in seqs(&special, tier.pick(1, 2)) {
                    let n: String = w.iter().chain(rest.iter()).collect();
                    let wrap = |r: Result<(), String>| r.map_err(|m| format!("{n:?}: {m}"));
                    let ts = [tree(0, "a", &one), tree(0, &n, &one), tree(1, "a1", &one)];
                    if n != "a" && n != "a1" {
                        wrap(if may_refuse(&n, false) { attempt(c, &p, &ts, &[]) } else { store(c, &p, &ts, &s(&["a;2", "a.", "b"])) })?;
                    }
                    for k in [0, 1, 2, 3] {
                        let t = [TreeSpec::new("t", vec![Col { name: n.clone(), ..col(k, "") }, col(5, "z")])];
                        wrap(if may_refuse(&n, true) { attempt(c, &p, &t, &[]) } else { store(c, &p, &t, &s(&["a", "a.", "1"])) })?;
                    }
                }
                Ok(())
            });
        }
    }
    // names that are parts and extensions of each other, together
    let close = s(&["a", "ab", "abc", "a.", "a.b", "b", "a_", "A", " a", "a ", "aa", "a;b"]);
    for i in 0..close.len() {
        for j in 0..close.len() {
            if i == j {
                continue;
            }
            cx.case(|| format!("{:?} beside {:?}", close[i], close[j]), |c| {
                let p = c.path("c18.root");
                for k in 0..close.len() {
                    let mut set = vec![close[i].clone(), close[j].clone()];
                    if k != i && k != j {
                        set.push(close[k].clone());
                    }
                    store(c, &p, &[TreeSpec::new("t", set.iter().enumerate().map(|(n, x)| col(n + k, x)).collect())], &close)?;
                    let ts: Vec<TreeSpec> = set.iter().enumerate().map(|(n, x)| tree(n, x, &set[n..])).collect();
                    store(c, &p, &ts, &close)?;
                    // a second version of the first among them
                    let more = [&ts[..], &[tree(4, &set[0], &s(&["new"]))]].concat();
                    store(c, &p, &more, &close)?;
                }
                Ok(())
            });
        }
    }
    // many columns
    for n in tier.pick(vec![1usize, 10, 100], vec![1, 2, 9, 10, 11, 99, 100, 127, 128, 129, 255, 256, 257, 1000]) {
        for l in [1usize, 10, 60, 200] {
            cx.case(|| format!("{n} columns with names of {l} bytes and more"), |c| {
                let p = c.path("c18.root");
                let names: Vec<String> = (0..n).map(|k| format!("{}{k}", name_of(l, k))).collect();
                store(c, &p, &[tree(0, "t", &names)], &s(&["0", "x"]))
            });
        }
    }
}
