//! C17: what the command-line tools print, against the contents of the file.
use super::c03::mk;
use super::{c09, c10};
use crate::col::*;
use crate::core::*;
use crate::dynread::{suggested, V};
use crate::rootr;
use crate::rootw::*;
use oxyroot::RootFile;
use std::path::Path;
use std::process::Command;

struct Out {
    ok: bool,
    out: String,
    err: String,
}
fn tool(name: &str, p: &Path) -> Result<Out, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?.parent().unwrap().join(name);
    let o = Command::new(exe).arg("-f").arg(p).env_remove("RUST_LOG").env_remove("RUST_BACKTRACE").output().map_err(|e| format!("MACHINERY: {name}: {e}"))?;
    Ok(Out { ok: o.status.success(), out: String::from_utf8_lossy(&o.stdout).into_owned(), err: String::from_utf8_lossy(&o.stderr).into_owned() })
}
/// A value the way Rust prints one of that type.
fn fmt(ty: &str, v: &V) -> Option<String> {
    let inner = |p: &str, s: &str| ty.strip_prefix(p).and_then(|t| t.strip_suffix(s)).map(|t| t.to_string());
    Some(match v {
        V::S(b) => format!("{:?}", std::str::from_utf8(b).ok()?),
        V::P(b) => {
            macro_rules! p {
                ($($t:ident),*) => { match ty { $(stringify!($t) => format!("{:?}", <$t>::from_be_bytes(b.as_slice().try_into().ok()?)),)* "bool" => format!("{:?}", b[0] != 0), _ => return None } };
            }
            p!(i8, u8, i16, u16, i32, u32, i64, u64, f32, f64)
        }
        V::L(x) => {
            let e = inner("Vec<", ">").or(inner("Slice<", ">")).or_else(|| {
                let t = inner("[", "]")?;
                Some(t[..t.rfind(';')?].to_string())
            })?;
            format!("[{}]", x.iter().map(|x| fmt(&e, x)).collect::<Option<Vec<_>>>()?.join(", "))
        }
        V::Set(x) => {
            let e = inner("HashSet<", ">")?;
            format!("{{{}}}", x.iter().map(|x| fmt(&e, x)).collect::<Option<Vec<_>>>()?.join(", "))
        }
        V::Map(x) => {
            let t = inner("HashMap<", ">")?;
            let (k, e) = t.split_once(',')?;
            format!("{{{}}}", x.iter().map(|(a, b)| Some(format!("{}: {}", fmt(k, a)?, fmt(e, b)?))).collect::<Option<Vec<_>>>()?.join(", "))
        }
    })
}
/// Sets and maps are printed in no particular order.
fn loose(ty: &str, s: &str) -> String {
    if !ty.contains("Hash") {
        return s.to_string();
    }
    let mut t: Vec<&str> = s.split(|c| "[]{}, ".contains(c)).filter(|x| !x.is_empty()).collect();
    t.sort();
    t.join(" ")
}
#[derive(Clone, Debug)]
struct Column {
    name: String,
    cpp: String,
    rust: String,
    /// None = no data of its own
    vals: Option<Vec<V>>,
}
#[derive(Clone, Debug)]
struct Tree {
    name: String,
    title: String,
    entries: usize,
    cols: Vec<Column>,
}
/// All objects of the file in order: class, name, title; the tree where it is one.
type Listing = Vec<(String, String, String, Option<Tree>)>;

fn words(l: &str) -> String {
    l.split_whitespace().collect::<Vec<_>>().join(" ")
}
struct Lines<'a> {
    it: std::iter::Peekable<std::str::Lines<'a>>,
    n: usize,
}
impl<'a> Lines<'a> {
    fn new(o: &'a str) -> Lines<'a> {
        Lines { it: o.lines().peekable(), n: 0 }
    }
    fn next(&mut self) -> Option<&'a str> {
        self.n += 1;
        self.it.next()
    }
    fn want(&mut self, w: &str) -> Result<(), String> {
        match self.next() {
            Some(l) if words(l) == words(w) => Ok(()),
            l => Err(format!("line {} is {l:?} instead of {w:?}", self.n)),
        }
    }
}
fn table(l: &mut Lines, t: &Tree) -> Result<(), String> {
    l.want("name | typename | interpretation")?;
    match l.next() {
        Some(s) if !s.is_empty() && s.chars().all(|c| c == '-' || c == '+') => {}
        x => return Err(format!("line {} is {x:?} instead of a rule", l.n)),
    }
    for c in &t.cols {
        // long type names are cut to the width of their column
        let short: String = c.cpp.chars().take(30).collect();
        l.want(&format!("{} | {} | {}", c.name, short, c.rust))?;
    }
    Ok(())
}
fn check_ls(c: &mut Case, p: &Path, want: &Listing) -> Result<(), String> {
    let o = tool("oxyroot-ls", p)?;
    let fail = |m: String| Err(format!("oxyroot-ls: {m}{}", if o.err.is_empty() { String::new() } else { format!(" (it says {:?})", o.err) }));
    if !o.ok {
        return fail("the tool fails".into());
    }
    let mut l = Lines::new(&o.out);
    let r = (|| {
        if !l.next().unwrap_or("").starts_with("=== ") {
            return Err("no heading".to_string());
        }
        for (class, name, title, tree) in want {
            l.want(&format!("> {class} name='{name}' (title='{title}')"))?;
            if let Some(t) = tree {
                l.want(&format!("> Data in {name}:"))?;
                table(&mut l, t)?;
            }
            c.steps(1);
        }
        match l.next() {
            None => Ok(()),
            Some(x) => Err(format!("extra line {x:?}")),
        }
    })();
    match r {
        Ok(()) => Ok(()),
        Err(m) => fail(m),
    }
}
/// Types every writable column or plain ROOT column can have: these must be printed.
fn must_print(rust: &str) -> bool {
    let prim = |s: &str| PRIMS.iter().any(|p| p.rust() == s) || s == "String";
    let of = |p: &str| rust.strip_prefix(p).and_then(|t| t.strip_suffix('>')).map(prim).unwrap_or(false);
    prim(rust) || of("Vec<") || of("Slice<") || of("Vec<Vec<") || (rust.starts_with('[') && !rust.starts_with("[["))
}
fn check_dump(c: &mut Case, p: &Path, want: &Listing) -> Result<(), String> {
    let o = tool("oxyroot-dump", p)?;
    let fail = |m: String| Err(format!("oxyroot-dump: {m}{}", if o.err.is_empty() { String::new() } else { format!(" (it says {:?})", o.err) }));
    if !o.ok {
        return fail("the tool fails".into());
    }
    let mut l = Lines::new(&o.out);
    let mut steps = 0;
    let r = (|| {
        if !l.next().unwrap_or("").starts_with("=== ") {
            return Err("no heading".to_string());
        }
        for t in want.iter().filter_map(|x| x.3.as_ref()) {
            l.want(&format!(">>> tree: {:?}", t.name))?;
            table(&mut l, t)?;
            // a column may only be left out when the tool says so
            let shown: Vec<&Column> = t
                .cols
                .iter()
                .filter(|c| {
                    let said = o.err.lines().any(|l| l.contains(&format!("{:?}", c.rust)));
                    !(said && !must_print(&c.rust))
                })
                .collect();
            for i in 0..t.entries {
                for c in &shown {
                    let v = match &c.vals {
                        Some(v) => match v.get(i) {
                            Some(v) => fmt(&c.rust, v).ok_or(format!("MACHINERY: no format for {}", c.rust))?,
                            None => "None".into(),
                        },
                        None => return Err(format!("column {:?} without data is neither left out nor reported", c.name)),
                    };
                    let pre = format!("[{i}][{}]: ", c.name);
                    let line = l.next();
                    match line.and_then(|l| l.strip_prefix(&pre)) {
                        Some(g) if loose(&c.rust, g) == loose(&c.rust, &v) => {}
                        _ => return Err(format!("line {} is {line:?} instead of {:?}", l.n, pre + &v)),
                    }
                    steps += 1;
                }
            }
        }
        match l.next() {
            None => Ok(()),
            Some(x) => Err(format!("extra line {x:?}")),
        }
    })();
    c.steps(steps);
    match r {
        Ok(()) => Ok(()),
        Err(m) => fail(m),
    }
}
fn val(ty: Ty, b: &[u8]) -> V {
    let l = |p: Prim| V::L(b.chunks(p.size()).map(|x| V::P(x.to_vec())).collect());
    match ty {
        Ty::P(_) => V::P(b.to_vec()),
        Ty::Str => V::S(b.to_vec()),
        Ty::A(p, _) | Ty::V(p) => l(p),
    }
}
/// The listing of a written file, from what was written.
fn listing(bytes: &[u8], specs: &[TreeSpec]) -> Result<Listing, String> {
    let f = rootr::File::parse(bytes)?;
    if f.keys.len() != specs.len() {
        return Err(format!("{} keys", f.keys.len()));
    }
    Ok(specs
        .iter()
        .zip(&f.keys)
        .map(|(s, k)| {
            // a name designates its most recent tree
            let s = specs.iter().rev().find(|x| x.name == s.name).unwrap();
            let cols = s.cols.iter().map(|c| Column { name: c.name.clone(), cpp: c.ty.cpp(), rust: c.ty.rust(), vals: Some(c.vals.iter().map(|v| val(c.ty, v)).collect()) }).collect();
            ("TTree".to_string(), s.name.clone(), k.title.clone(), Some(Tree { name: s.name.clone(), title: k.title.clone(), entries: s.entries(), cols }))
        })
        .collect())
}
fn written(c: &mut Case, specs: &[TreeSpec], file: &str) -> Result<(), String> {
    let p = c.path(file);
    write_file(&p, specs)?;
    let b = std::fs::read(&p).map_err(|e| e.to_string())?;
    let want = listing(&b, specs)?;
    c.state(&b);
    check_ls(c, &p, &want)?;
    let r = check_dump(c, &p, &want);
    let _ = std::fs::remove_file(&p);
    r
}
/// The listing of a foreign file, by the library's reader (itself decided by C09 and C20).
fn foreign(p: &Path) -> Result<Listing, String> {
    let bytes = std::fs::read(p).map_err(|e| e.to_string())?;
    let f = rootr::File::parse(&bytes)?;
    let mut rf = RootFile::open(p).map_err(|e| format!("{e:?}"))?;
    let mut v = vec![];
    for k in &f.keys {
        let tree = if k.class == "TTree" {
            let t = rf.get_tree(&k.name).map_err(|e| format!("{e:?}"))?;
            let cols = t
                .branches_r()
                .iter()
                .map(|b| {
                    let vals = match guard(|| suggested(b, true).and_then(|r| r.ok()).map(|i| i.collect::<Vec<V>>())) {
                        Ok(v) => v,
                        Err(_) => None,
                    };
                    Column { name: b.name().to_string(), cpp: b.item_type_name(), rust: b.interpretation(), vals }
                })
                .collect();
            Some(Tree { name: k.name.clone(), title: k.title.clone(), entries: t.entries() as usize, cols })
        } else {
            None
        };
        v.push((k.class.clone(), k.name.clone(), k.title.clone(), tree));
    }
    Ok(v)
}
fn refused(c: &mut Case, name: &str, p: &Path, full: Option<&str>) -> Result<(), String> {
    let o = tool(name, p)?;
    c.steps(1);
    c.outcome(o.ok);
    let body = |s: &str| s.split_once('\n').map(|x| x.1.to_string()).unwrap_or_default();
    if o.ok && full.map(|f| body(f) != body(&o.out)).unwrap_or(true) {
        return Err(format!("{name} reports success and prints {:?}", o.out));
    }
    if !o.ok && o.err.is_empty() {
        return Err(format!("{name} fails without a message"));
    }
    Ok(())
}
pub fn run(cx: &mut Ctx) {
    let tier = cx.tier;
    let i = Ty::P(Prim::I32);
    let mut types: Vec<Ty> = PRIMS.iter().flat_map(|p| [Ty::P(*p), Ty::V(*p), Ty::A(*p, 1), Ty::A(*p, 4)]).collect();
    types.push(Ty::Str);
    if !tier.quick() {
        types.extend(PRIMS.iter().flat_map(|p| ARR_N.iter().map(|n| Ty::A(*p, *n))));
    }
    for (k, ty) in types.iter().enumerate() {
        for n in [0usize, 1, 2, 3, 7] {
            cx.case(|| format!("one column of {} with {n} values", ty.rust()), |c| written(c, &[TreeSpec::new("t", vec![mk("x", *ty, k as u64, n)])], "f.root"));
        }
        if let Ty::P(p) = ty {
            cx.case(|| format!("extreme values of {}", ty.rust()), |c| written(c, &[TreeSpec::new("t", vec![Col::new("x", *ty, p.patterns())])], "f.root"));
        }
    }
    // columns of all length pairs, and every pair of types
    for a in 0..=3usize {
        for b in 0..=3usize {
            for d in 0..=tier.pick(2usize, 3) {
                cx.case(|| format!("columns of {a}, {b} and {d} values"), |c| written(c, &[TreeSpec::new("t", vec![mk("x", i, 1, a), mk("s", Ty::Str, 2, b), mk("v", Ty::V(Prim::F64), 3, d)])], "f.root"));
            }
        }
    }
    let some = [i, Ty::P(Prim::U64), Ty::Str, Ty::V(Prim::I64), Ty::A(Prim::F32, 3), Ty::P(Prim::Bool), Ty::V(Prim::Bool), Ty::A(Prim::I64, 2)];
    for (x, a) in some.iter().enumerate() {
        for b in &some {
            cx.case(|| format!("{} beside {}", a.rust(), b.rust()), |c| written(c, &[TreeSpec::new("t", vec![mk("p", *a, x as u64, 2), mk("q", *b, 9, 3)])], "f.root"));
        }
    }
    // several trees, also of one name, also without columns
    let names = ["t", "u", "t v"];
    let kinds = |name: &str, k: usize| match k {
        0 => TreeSpec::new(name, vec![]),
        1 => TreeSpec::new(name, vec![mk("x", i, 1, 2)]),
        _ => TreeSpec::new(name, vec![mk("s", Ty::Str, 1, 1), mk("a", Ty::A(Prim::U8, 2), 4, 3)]),
    };
    let depth = tier.pick(2usize, 3);
    for n in 0..=depth {
        for code in 0..9usize.pow(n as u32) {
            cx.case(
                || format!("{n} trees, number {code}"),
                |c| {
                    let mut x = code;
                    let specs: Vec<TreeSpec> = (0..n)
                        .map(|_| {
                            let s = kinds(names[x % 3], x / 3 % 3);
                            x /= 9;
                            s
                        })
                        .collect();
                    written(c, &specs, "f.root")
                },
            );
        }
    }
    // names, strings and paths
    for len in [1usize, 2, 28, 29, 30, 31, 32, 33, 60, 200] {
        for ch in ["n", "é", "漢", "-", "_ x"] {
            cx.case(
                || format!("names of {len} times {ch:?}"),
                |c| {
                    let s: String = ch.repeat(len);
                    written(c, &[TreeSpec::new(&s, vec![mk(&s, i, 1, 2), mk(&format!("{s}2"), Ty::Str, 1, 1)])], "f.root")
                },
            );
        }
    }
    for s in ["", "a\nb", "\"quoted\"", "tab\there", "漢字", "\u{1}", "[0][x]: 5", "back\\slash"] {
        cx.case(|| format!("the string {s:?}"), |c| written(c, &[TreeSpec::new("t", vec![Col::new("x", Ty::Str, vec![s.as_bytes().to_vec(), b"next".to_vec()])])], "f.root"));
    }
    for f in ["a b.root", "ünï.root", "-x.root", "no-extension", "x.root.root"] {
        cx.case(|| format!("the file {f:?}"), |c| written(c, &[TreeSpec::new("t", vec![mk("x", i, 1, 2)])], f));
    }
    cx.case(|| "many entries".into(), |c| written(c, &[TreeSpec::new("t", vec![mk("x", i, 1, 20000), mk("s", Ty::Str, 2, 5000)])], "f.root"));
    // files of other programs: every column kind, and the bundled samples
    let kinds = c09::kinds();
    for (k, kd) in kinds.iter().enumerate() {
        for emb in [false, true] {
            cx.case(
                || format!("foreign column {} {}", kd.label, if emb { "embedded" } else { "apart" }),
                |c| {
                    let part = c09::Part { kind: &kinds[k], parts: vec![2, 1], emb };
                    let (b, wants) = c09::multi(&[("tree", &[part])], c09::LENS[0].1, &Layout::default());
                    let p = c.path("f.root");
                    std::fs::write(&p, &b).map_err(|e| e.to_string())?;
                    let l = foreign(&p)?;
                    // the reference for the values is what was stored
                    let t = l[0].3.as_ref().ok_or("no tree")?;
                    for (name, rust, vals) in &wants[0] {
                        let col = t.cols.iter().find(|c| &c.name == name).ok_or("column missing")?;
                        if &col.rust != rust || col.vals.as_ref() != Some(vals) {
                            return Err(format!("column {name} is read as {} {:?}", col.rust, col.vals));
                        }
                    }
                    c.state(&b);
                    check_ls(c, &p, &l)?;
                    check_dump(c, &p, &l)
                },
            );
        }
    }
    for p in c10::samples() {
        cx.case(
            || format!("sample {}", p.display()),
            |c| {
                let l = foreign(&p)?;
                c.state(&p);
                check_ls(c, &p, &l)?;
                check_dump(c, &p, &l)
            },
        );
    }
    // trees beside objects that are none
    for order in 0..6 {
        cx.case(
            || format!("a tree beside other objects, order {order}"),
            |c| {
                let k = kinds.iter().find(|k| k.rust == "i32").ok_or("no kind")?;
                let bt = c09::build(k, &[2], &[1], false, &Layout::default());
                let mut f = WFile::new("f.root", Layout::default());
                f.streamers(&[]);
                let mk_tree = |f: &mut WFile, name: &str| {
                    let e: Vec<Vec<u8>> = (0..3i32).map(|x| x.to_be_bytes().to_vec()).collect();
                    let b = WBranch::new("n", Kind::Base { leaf: "TLeafI", unsigned: false, esize: 4, len: 1, title: "n".into(), count: None }, e, false);
                    f.tree(&WTree { name: name.into(), title: "a tree".into(), entries: 3, branches: vec![b] }, 1, None)
                };
                drop(bt);
                let obj = |f: &mut WFile, n: &str| f.object("TNamed", n, "a title", 1, &|w: &mut W| w.ver(1, |w| w.named(n, "a title")));
                let orders: [&[u8]; 6] = [b"to", b"ot", b"oto", b"tot", b"oo", b"ott"];
                for (k, x) in orders[order].iter().enumerate() {
                    match x {
                        b't' => mk_tree(&mut f, &format!("t{k}")),
                        _ => obj(&mut f, &format!("o{k}")),
                    }
                }
                let p = c.path("f.root");
                std::fs::write(&p, f.finish()).map_err(|e| e.to_string())?;
                let l = foreign(&p)?;
                c.state(order);
                check_ls(c, &p, &l)?;
                check_dump(c, &p, &l)
            },
        );
    }
    // what cannot be read must be reported
    for t in ["oxyroot-ls", "oxyroot-dump"] {
        cx.case(
            || format!("{t} on no file, a directory, an empty file, other data"),
            |c| {
                refused(c, t, &c.path("absent.root"), None)?;
                refused(c, t, c.dir, None)?;
                let p = c.path("e.root");
                for b in [&b""[..], b"root", b"not a file of that kind at all, although it is long enough to have a header of more than sixty-four bytes", &[0; 300]] {
                    std::fs::write(&p, b).map_err(|e| e.to_string())?;
                    refused(c, t, &p, None)?;
                }
                Ok(())
            },
        );
        for (w, specs) in [
            ("scalars", vec![TreeSpec::new("t", vec![mk("x", i, 1, 3)])]),
            ("mixed", vec![TreeSpec::new("t", vec![mk("s", Ty::Str, 1, 2), mk("v", Ty::V(Prim::I16), 3, 2)]), TreeSpec::new("u", vec![mk("a", Ty::A(Prim::F64, 2), 1, 2)])]),
        ] {
            let parts = 8;
            for part in 0..parts {
                cx.case(
                    || format!("{t} on every truncation of a file of {w}, part {part}"),
                    |c| {
                        let p = c.path("f.root");
                        write_file(&p, &specs)?;
                        let full = tool(t, &p)?;
                        let b = std::fs::read(&p).map_err(|e| e.to_string())?;
                        let step = tier.pick(5, 1);
                        for cut in (part..b.len()).step_by(parts).step_by(step) {
                            std::fs::write(&p, &b[..cut]).map_err(|e| e.to_string())?;
                            refused(c, t, &p, Some(&full.out)).map_err(|e| format!("cut at {cut}: {e}"))?;
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}
