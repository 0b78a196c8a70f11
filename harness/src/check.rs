//! Structural check of a written file against the trees it should contain, made with the
//! independent decoder only.
use crate::col::*;
use crate::rootr::*;
use std::collections::BTreeMap;

const START_BIG: i64 = 2_000_000_000;

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> R<()> {
    if got != want {
        return Err(format!("{what}: {got:?} instead of {want:?}"));
    }
    Ok(())
}
fn leaf_of(p: Prim) -> (&'static str, bool, &'static str) {
    match p {
        Prim::Bool => ("TLeafO", false, ""),
        Prim::I8 => ("TLeafB", false, "B"),
        Prim::U8 => ("TLeafB", true, "b"),
        Prim::I16 => ("TLeafS", false, "S"),
        Prim::U16 => ("TLeafS", true, "s"),
        Prim::I32 => ("TLeafI", false, "I"),
        Prim::U32 => ("TLeafI", true, "i"),
        Prim::I64 => ("TLeafL", false, "L"),
        Prim::U64 => ("TLeafL", true, "l"),
        Prim::F32 => ("TLeafF", false, "F"),
        Prim::F64 => ("TLeafD", false, "D"),
    }
}
/// The schema describes every class its own entries refer to, except the root of all classes, which every reader of
/// the format knows, and the class of the tree's index, of which no tree holds an object.
pub fn closure(sinfo: &BTreeMap<String, crate::rootr::StreamerInfo>) -> R<()> {
    for si in sinfo.values() {
        for e in &si.elems {
            let want = match e.class.as_str() {
                "TStreamerBase" => &e.name,
                "TStreamerObject" | "TStreamerObjectAny" | "TStreamerObjectPointer" | "TStreamerObjectAnyPointer" => &e.ename,
                _ => continue,
            };
            let want = want.trim_end_matches('*');
            if !matches!(want, "TObject" | "TString" | "TVirtualIndex") && !sinfo.contains_key(want) {
                return Err(format!("schema entry {} refers to {want}, which has no schema entry", si.name));
            }
        }
    }
    Ok(())
}
/// Payload of a stored entry, checking its envelope.
pub fn payload(ty: Ty, e: &[u8]) -> R<Val> {
    let mut c = Cur::new(e, 0);
    match ty {
        Ty::P(_) | Ty::A(..) => Ok(e.to_vec()),
        Ty::Str => {
            let v = c.bytes_str()?;
            c.finish("string entry", e.len())?;
            Ok(v)
        }
        Ty::V(p) => {
            let (v, end) = c.header()?;
            if end != e.len() {
                return Err(format!("vector entry: byte count ends at {end}, entry at {}", e.len()));
            }
            if v < 0 {
                return Err(format!("vector entry: version {v}"));
            }
            let n = c.i32()?;
            let d = c.take(n as usize * p.size())?.to_vec();
            c.finish("vector entry", end)?;
            Ok(d)
        }
    }
}

pub struct Opts {
    /// data units of refused trees may remain without an owner
    pub orphans: bool,
    /// of this many trees at the front only the pointers are followed, not the values
    pub light: usize,
}

pub fn structure(b: &[u8], path: &str, specs: &[TreeSpec], o: &Opts) -> R<u64> {
    let f = File::parse(b)?;
    let mut checks = 0u64;
    eq("header begin", f.h.begin, 100)?;
    eq("header end / file size", f.h.end as usize, b.len())?;
    eq("header pointer width", f.h.units, if f.h.big { 8 } else { 4 })?;
    eq("big header", f.h.big, f.h.end > START_BIG)?;
    let recs = f.records()?;
    let mut owner: BTreeMap<usize, &str> = BTreeMap::new();
    let mut claim = |at: i64, what: &'static str, n: i64| -> R<()> {
        let r = recs.iter().find(|r| r.at as i64 == at).ok_or(format!("{what} pointer {at} is not a record"))?;
        if n >= 0 && r.key.n_bytes as i64 != n {
            return Err(format!("{what}: record of {} bytes, pointer says {n}", r.key.n_bytes));
        }
        if let Some(x) = owner.insert(r.at, what) {
            return Err(format!("record at {at} is both {x} and {what}"));
        }
        Ok(())
    };
    for r in &recs {
        let k = &r.key;
        if k.n_bytes < 0 {
            return Err(format!("gap record at {}", r.at));
        }
        let big = r.at as i64 > START_BIG;
        if k.seek_key != r.at as i64 {
            return Err(format!("record at {} ({} {:?}) says it is at {}", r.at, k.class, k.name, k.seek_key));
        }
        eq("record directory", k.seek_pdir, if r.at == 100 { k.seek_pdir } else { 100 })?;
        if big != (k.vers > 1000) && !(k.vers > 1000 && f.h.end > START_BIG) {
            return Err(format!("record at {} has version {}", r.at, k.vers));
        }
        if k.n_bytes != k.key_len as i32 + k.obj_len {
            return Err(format!("record at {}: {} != {} + {}", r.at, k.n_bytes, k.key_len, k.obj_len));
        }
        if k.class != "TBasket" {
            eq("key length", k.parsed, k.key_len as usize)?;
        }
        checks += 4;
    }
    claim(100, "directory record", -1)?;
    eq("directory record class", recs[0].key.class.as_str(), "TFile")?;
    eq("file name in directory record", recs[0].key.name.as_str(), path)?;
    let name_len = Cur::new(path.as_bytes(), 0).b.len();
    let tlen = |n: usize| n + if n < 255 { 1 } else { 5 };
    eq("n_bytes_name", f.h.n_bytes_name as usize, recs[0].key.key_len as usize + tlen(name_len) + 1)?;
    eq("directory n_bytes_name", f.dir.n_bytes_name, f.h.n_bytes_name)?;
    eq("seek_dir", f.dir.seek_dir, 100)?;
    eq("seek_parent", f.dir.seek_parent, 0)?;
    {
        let (k, d) = f.record(100)?;
        let mut c = Cur::new(&d, 0);
        eq("directory title record", c.str()?, path.to_string())?;
        c.str()?;
        let want = tlen(name_len) + 1 + 18 + 12 + 18 + 12;
        if k.obj_len as usize != want && k.obj_len as usize != want {
            return Err(format!("directory record of {} bytes instead of {want}", k.obj_len));
        }
    }
    claim(f.dir.seek_keys, "key list", f.dir.n_bytes_keys as i64)?;
    claim(f.h.seek_info, "schema record", f.h.n_bytes_info as i64)?;
    claim(f.h.seek_free, "free list", f.h.n_bytes_free as i64)?;
    eq("free list length", f.free.len(), f.h.n_free as usize)?;
    let last = f.free.last().ok_or("empty free list")?;
    eq("free list start", last.0, f.h.end)?;
    if last.1 < f.h.end {
        return Err(format!("free segment {last:?} ends before the file"));
    }
    let sinfo = by_name(&f.streamers);
    eq("schema entries are unique", sinfo.len(), f.streamers.len())?;
    closure(&sinfo)?;
    // keys
    eq("number of keys", f.keys.len(), specs.len())?;
    let mut cyc: BTreeMap<&str, i16> = BTreeMap::new();
    for (ki, (k, s)) in f.keys.iter().zip(specs).enumerate() {
        let n = cyc.entry(&s.name).or_default();
        *n += 1;
        eq("key name", k.name.as_str(), s.name.as_str())?;
        eq("key class", k.class.as_str(), "TTree")?;
        eq("key cycle", k.cycle, *n)?;
        let r = recs.iter().find(|r| r.at as i64 == k.seek_key).ok_or("key points to no record")?;
        eq("key and record", format!("{:?}", k), format!("{:?}", r.key))?;
        claim(k.seek_key, "tree record", k.n_bytes as i64)?;
        let t = f.tree(k)?;
        eq("schema entry for TTree", sinfo.contains_key("TTree"), true)?;
        eq("tree name", t.name.as_str(), s.name.as_str())?;
        eq("tree entries", t.entries, s.entries() as i64)?;
        eq("tree columns", t.branches.len(), s.cols.len())?;
        eq("tree leaves", t.leaves.len(), s.cols.len())?;
        for ((br, c), tl) in t.branches.iter().zip(&s.cols).zip(&t.leaves) {
            let w = |m: &str| format!("column {:?}: {m}", c.name);
            eq(&w("name"), br.name.as_str(), c.name.as_str())?;
            eq(&w("entries"), br.entries, c.vals.len() as i64)?;
            eq(&w("entry number"), br.entry_number, c.vals.len() as i64)?;
            eq(&w("leaves"), br.leaves.len(), 1)?;
            let l = &br.leaves[0];
            if format!("{tl:?}") != format!("{l:?}") {
                return Err(w("leaf of the tree is not the leaf of the column"));
            }
            eq(&w("leaf name"), l.name.as_str(), c.name.as_str())?;
            eq(&w("first entry"), br.first_entry, 0)?;
            eq(&w("sub-columns"), br.branches.len(), 0)?;
            eq(&w("embedded units"), br.baskets.len(), 0)?;
            match c.ty {
                Ty::P(p) => {
                    let (cl, un, code) = leaf_of(p);
                    eq(&w("class"), br.class.as_str(), "TBranch")?;
                    eq(&w("leaf"), (l.class.as_str(), l.unsigned, l.len, l.etype), (cl, un, 1, p.size() as i32))?;
                    eq(&w("leaf title"), l.title.as_str(), c.name.as_str())?;
                    if p != Prim::Bool {
                        eq(&w("title"), br.title.clone(), format!("{}/{code}", c.name))?;
                    }
                }
                Ty::A(p, n) => {
                    let (cl, un, _) = leaf_of(p);
                    eq(&w("class"), br.class.as_str(), "TBranch")?;
                    eq(&w("leaf"), (l.class.as_str(), l.unsigned, l.len, l.etype), (cl, un, n as i32, p.size() as i32))?;
                    eq(&w("leaf title"), l.title.clone(), format!("{}[{n}]", c.name))?;
                }
                Ty::Str => {
                    eq(&w("class"), br.class.as_str(), "TBranch")?;
                    eq(&w("leaf"), l.class.as_str(), "TLeafC")?;
                }
                Ty::V(p) => {
                    eq(&w("class"), br.class.as_str(), "TBranchElement")?;
                    eq(&w("leaf"), l.class.as_str(), "TLeafElement")?;
                    let el = br.el.as_ref().ok_or("no element data")?;
                    let cn = format!("vector<{}>", p.cpp());
                    eq(&w("element class"), el.class_name.as_str(), cn.as_str())?;
                    let si = sinfo.get(&cn).ok_or(w(&format!("no schema entry for {cn}")))?;
                    eq(&w("schema elements"), si.elems.len(), 1)?;
                    eq(&w("schema element"), (si.elems[0].class.as_str(), si.elems[0].ename.as_str(), si.elems[0].stl), ("TStreamerSTL", cn.as_str(), 1))?;
                }
            }
            let nb = br.write_basket as usize;
            if br.max_baskets < br.write_basket + 1 || br.basket_seek.len() != br.max_baskets as usize {
                return Err(w(&format!("unit table of {} for {nb} units", br.max_baskets)));
            }
            let mut at = 0i64;
            let (mut tot, mut zip) = (0i64, 0i64);
            for u in 0..nb {
                eq(&w("first entry of unit"), br.basket_entry[u], at)?;
                claim(br.basket_seek[u], "data unit", br.basket_bytes[u] as i64)?;
                if ki < o.light {
                    at = br.basket_entry[u + 1];
                    (tot, zip) = (br.tot_bytes, br.zip_bytes);
                    continue;
                }
                let un = f.unit(br.basket_seek[u])?;
                eq(&w("unit name"), un.key.name.as_str(), c.name.as_str())?;
                eq(&w("unit title"), un.key.title.as_str(), s.name.as_str())?;
                tot += (un.key.key_len as i32 + un.key.obj_len) as i64;
                zip += un.key.n_bytes as i64;
                let es = un.entries(if un.nev == 0 { c.ty.fixed().or(None) } else { c.ty.fixed() });
                let es = match es {
                    Err(_) if un.nev == 0 => vec![],
                    x => x.map_err(|e| w(&format!("unit {u}: {e}")))?,
                };
                for (i, e) in es.iter().enumerate() {
                    let g = at as usize + i;
                    let want = c.vals.get(g).ok_or(w("more stored entries than written"))?;
                    let p = payload(c.ty, e).map_err(|e| w(&format!("entry {g}: {e}")))?;
                    if p != *want {
                        return Err(w(&format!("stored entry {g} is {} but {} was written", show(&p), show(want))));
                    }
                    checks += 1;
                }
                at += es.len() as i64;
            }
            eq(&w("entries in units"), at, c.vals.len() as i64)?;
            eq(&w("entry after the last unit"), br.basket_entry[nb], at)?;
            eq(&w("total bytes"), br.tot_bytes, tot)?;
            eq(&w("stored bytes"), br.zip_bytes, zip)?;
            if br.basket_seek[nb..].iter().any(|x| *x != 0) || br.basket_bytes[nb..].iter().any(|x| *x != 0) {
                return Err(w("unused slots of the unit table are not zero"));
            }
        }
    }
    for r in &recs {
        if !owner.contains_key(&r.at) && !o.orphans {
            return Err(format!("record at {} ({} {:?}) belongs to nothing", r.at, r.key.class, r.key.name));
        }
    }
    Ok(checks + recs.len() as u64)
}
