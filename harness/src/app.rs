//! Command line shared by the two executables.
use crate::core::*;
use crate::rootr;
use std::path::{Path, PathBuf};

pub fn main(es: Vec<Engine>) {
    let a: Vec<String> = std::env::args().collect();
    let root = std::env::var("OXMC_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"));
    let find = |id: &str| es.iter().find(|e| e.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    });
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => std::process::exit(check(find(&a[2]), tier(&a[3]), &root)),
        Some("worker") => worker(find(&a[2]), tier(&a[3]), a[4].parse().unwrap(), a[5].parse().unwrap(), Path::new(&a[6]), None),
        Some("replay") => {
            let dir = std::env::temp_dir().join(format!("oxmc-replay-{}", std::process::id()));
            std::fs::create_dir_all(&dir).unwrap();
            worker(find(&a[2]), tier(&a[3]), 0, 1, &dir, Some(a[4].parse().unwrap()))
        }
        Some("dump") => {
            for p in &a[2..] {
                let b = std::fs::read(p).unwrap();
                match rootr::File::parse(&b) {
                    Err(e) => println!("{p}: {e}"),
                    Ok(f) => {
                        if let Err(e) = f.records() {
                            println!("{p}: records {e}");
                        }
                        for k in &f.keys {
                            if k.class == "TTree" {
                                match f.tree(k) {
                                    Ok(t) => println!("{p}: tree {} v{} {} entries {} branches", t.name, t.vers, t.entries, t.branches.len()),
                                    Err(e) => println!("{p}: tree {}: {e}", k.name),
                                }
                            } else {
                                println!("{p}: key {} {}", k.class, k.name)
                            }
                        }
                    }
                }
            }
        }
        Some("branches") => {
            for p in &a[2..] {
                let mut f = oxyroot::RootFile::open(p).unwrap();
                let keys: Vec<String> = f.keys_name().map(|s| s.to_string()).collect();
                for k in keys {
                    match crate::core::guard(|| f.get_tree(&k)) {
                        Ok(Ok(t)) => {
                            for b in t.branches_r() {
                                println!("{p} {k} {} [{}] entries {} type {} interp {} subs {}", b.name(), b.class(), b.entries(), b.item_type_name(), b.interpretation(), b.branches().count());
                            }
                        }
                        Ok(Err(e)) => println!("{p} {k}: {e:?}"),
                        Err(e) => println!("{p} {k}: panic {e}"),
                    }
                }
            }
        }
        Some("dumpv") => {
            fn br(b: &rootr::Branch, d: usize, f: &rootr::File) {
                println!("{:d$}{} {:?} v{} title {:?} eoff {} wb {} max {} entries {} split {} base_bytes {:?} seek {:?} entry {:?} file {:?}", "", b.class, b.name, b.vers, b.title, b.entry_offset_len, b.write_basket, b.max_baskets, b.entries, b.split_level, &b.basket_bytes, &b.basket_seek, &b.basket_entry, b.fname);
                if let Some(e) = &b.el {
                    println!("{:d$}  {e:?}", "")
                }
                for l in &b.leaves {
                    println!("{:d$}  {l:?}", "")
                }
                for k in &b.baskets {
                    println!("{:d$}  embedded {:?} nev {} size {} last {} flag {} offsets {:?} data {}", "", k.key, k.nev_buf, k.nev_size, k.last, k.flag, k.offsets, k.data.len())
                }
                for (i, s) in b.basket_seek.iter().enumerate() {
                    if b.basket_bytes[i] > 0 {
                        match f.unit(*s) {
                            Ok(u) => println!("{:d$}  unit nev {} nev_size {} last {} keylen {} data {} offs {:?} {:?}", "", u.nev, u.nev_size, u.last, u.key.key_len, u.data.len(), u.offs.as_ref().map(|o| o.iter().take(4).collect::<Vec<_>>()), &u.data[..u.data.len().min(40)]),
                            Err(e) => println!("unit {e}"),
                        }
                    }
                }
                for x in &b.branches {
                    br(x, d + 2, f)
                }
            }
            for p in &a[2..] {
                let b = std::fs::read(p).unwrap();
                let f = rootr::File::parse(&b).unwrap();
                println!("{:?} {:?}", f.h, f.dir);
                for s in &f.streamers {
                    println!("streamer {} v{} {:x} {:?}", s.name, s.version, s.checksum, s.elems.iter().map(|e| (&e.class, &e.name, e.etype, e.size, &e.ename)).collect::<Vec<_>>());
                }
                for k in &f.keys {
                    println!("{k:?}");
                    if k.class == "TTree" {
                        for x in &f.tree(k).unwrap().branches {
                            br(x, 0, &f)
                        }
                    }
                }
            }
        }
        Some("list") => {
            for e in &es {
                println!("{}", e.id)
            }
        }
        _ => {
            eprintln!("usage: oxmc check|replay ID quick|thorough [case]");
            std::process::exit(2)
        }
    }
}
