//! C22: lists, maps, arrays and strings attached to a tree, decoded from an independent encoding.
use super::c02::seqs;
use crate::core::*;
use crate::rootw::*;
use oxyroot::rbase::TObjString;
use oxyroot::rcont::list::ReaderList;
use oxyroot::rcont::objarray::ReaderObjArray;
use oxyroot::rcont::tmap::{Key, TMap};
use oxyroot::{Named, ReaderTree, RootFile};
use std::collections::HashMap;

/// A graph of objects in the order they are stored; numbers are those of the objects (keys of maps
/// that are strings of their own have none).
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum T {
    Str,
    List,
    Map,
    Arr,
    End,
    /// an object stored before
    Ref(u8),
    /// an empty place of an array
    Nil,
    /// what precedes a value of a map: a new string, or one stored before
    Key(Option<u8>),
}
/// Every graph of exactly `n` objects, references and empty places, with containers of some kinds.
fn graphs(n: usize, kinds: &[T], f: &mut dyn FnMut(&[T])) {
    struct St {
        toks: Vec<T>,
        open: Vec<(T, u8, Vec<u8>)>,
        done: Vec<(u8, bool)>,
        next: u8,
        left: usize,
        kinds: Vec<T>,
    }
    fn value(s: &mut St, f: &mut dyn FnMut(&[T])) {
        s.left -= 1;
        // a string
        s.toks.push(T::Str);
        s.done.push((s.next, true));
        s.next += 1;
        step(s, f);
        s.next -= 1;
        s.done.pop();
        s.toks.pop();
        for k in s.kinds.clone() {
            s.toks.push(k);
            s.open.push((k, s.next, vec![]));
            s.next += 1;
            step(s, f);
            s.next -= 1;
            s.open.pop();
            s.toks.pop();
        }
        for i in 0..s.done.len() {
            s.toks.push(T::Ref(s.done[i].0));
            step(s, f);
            s.toks.pop();
        }
        if s.open.last().map(|o| o.0) == Some(T::Arr) {
            s.toks.push(T::Nil);
            step(s, f);
            s.toks.pop();
        }
        s.left += 1;
    }
    fn step(s: &mut St, f: &mut dyn FnMut(&[T])) {
        if s.left == 0 && s.open.is_empty() {
            f(&s.toks);
            return;
        }
        if let Some(o) = s.open.pop() {
            s.toks.push(T::End);
            s.done.push((o.1, false));
            step(s, f);
            s.done.pop();
            s.toks.pop();
            s.open.push(o);
        }
        if s.left > 0 {
            if s.open.last().map(|o| o.0) == Some(T::Map) {
                s.toks.push(T::Key(None));
                value(s, f);
                s.toks.pop();
                for i in 0..s.done.len() {
                    let (id, is) = s.done[i];
                    if is && !s.open.last().unwrap().2.contains(&id) {
                        s.open.last_mut().unwrap().2.push(id);
                        s.toks.push(T::Key(Some(id)));
                        value(s, f);
                        s.toks.pop();
                        s.open.last_mut().unwrap().2.pop();
                    }
                }
            } else {
                value(s, f);
            }
        }
    }
    step(&mut St { toks: vec![], open: vec![], done: vec![], next: 0, left: n, kinds: kinds.to_vec() }, f);
}
#[derive(Clone, Debug)]
enum O {
    Str(String),
    List(String, Vec<usize>),
    Map(String, Vec<(String, usize)>),
    Arr(String, Vec<usize>),
}
const ALL: [T; 3] = [T::List, T::Map, T::Arr];
/// How a graph is put down.
#[derive(Clone, Debug)]
struct Form {
    list: i16,
    map: i16,
    arr: i16,
    refd: u32,
    low: i32,
    opts: Vec<Vec<u8>>,
    text: Vec<usize>,
    name: Vec<usize>,
}
impl Default for Form {
    fn default() -> Self {
        Form { list: 5, map: 3, arr: 3, refd: 0, low: 0, opts: vec![b"".to_vec(), b"same".to_vec(), b"".to_vec()], text: vec![3, 1, 6], name: vec![2, 0, 4] }
    }
}
impl Form {
    fn text(&self, id: usize) -> String {
        word(id, self.text[id % self.text.len()])
    }
    fn name(&self, id: usize) -> String {
        word(100 + id, self.name[id % self.name.len()])
    }
    fn opt(&self, i: usize) -> &[u8] {
        &self.opts[i % self.opts.len()]
    }
}
/// A word of a length, different for different numbers as far as the length allows.
fn word(id: usize, len: usize) -> String {
    (0..len).map(|i| (b'a' + ((id + i * (id / 26 + 1)) % 26) as u8) as char).collect()
}
/// The key of a map that is a string of its own.
fn own_key(at: usize) -> String {
    format!("key {at}")
}
fn obj(w: &mut W, refd: u32) {
    if refd != 0 {
        w.i16(1);
        w.u32(7);
        w.u32(0x0300_0000 | 1 << 4);
        w.u16(refd as u16);
    } else {
        w.tobject(0)
    }
}
/// Writes the objects up to the end of the container that is open; returns the model of its content.
fn put(w: &mut W, g: &[T], pos: &mut usize, next: &mut usize, all: &mut HashMap<usize, O>, kind: T, fm: &Form) -> (Vec<usize>, Vec<String>) {
    let mut vals = vec![];
    let mut keys = vec![];
    while *pos < g.len() {
        let t = g[*pos];
        *pos += 1;
        match t {
            T::End => break,
            T::Key(None) => {
                let k = own_key(*pos);
                w.any("TObjString", None, |w| {
                    w.ver(1, |w| {
                        obj(w, fm.refd);
                        w.str(k.as_bytes());
                    })
                });
                keys.push(k);
                continue;
            }
            T::Key(Some(i)) => {
                w.any("", Some(&format!("o{i}")), |_| unreachable!());
                let O::Str(s) = &all[&(i as usize)] else { unreachable!() };
                keys.push(s.clone());
                continue;
            }
            T::Nil => {
                w.nil();
                continue;
            }
            T::Ref(i) => {
                w.any("", Some(&format!("o{i}")), |_| unreachable!());
                vals.push(i as usize);
            }
            _ => {
                let id = *next;
                *next += 1;
                vals.push(id);
                let tag = format!("o{id}");
                let o = match t {
                    T::Str => {
                        let s = fm.text(id);
                        w.any("TObjString", Some(&tag), |w| {
                            w.ver(1, |w| {
                                obj(w, fm.refd);
                                w.str(s.as_bytes());
                            })
                        });
                        O::Str(s)
                    }
                    k => {
                        let n = count(&g[*pos..]);
                        let name = fm.name(id);
                        let (class, v) = match k {
                            T::List => ("TList", fm.list),
                            T::Map => ("TMap", fm.map),
                            _ => ("TObjArray", fm.arr),
                        };
                        let mut r = None;
                        w.any(class, Some(&tag), |w| {
                            w.ver(v, |w| {
                                if v > 2 {
                                    obj(w, fm.refd);
                                }
                                if v > 1 {
                                    w.str(name.as_bytes());
                                }
                                w.i32(n as i32);
                                if k == T::Arr {
                                    w.i32(fm.low);
                                }
                                r = Some(put(w, g, pos, next, all, k, fm));
                            })
                        });
                        let (vals, keys) = r.unwrap();
                        let name = if v > 1 { name } else { String::new() };
                        match k {
                            T::List => O::List(name, vals),
                            T::Map => O::Map(name, keys.into_iter().zip(vals).collect()),
                            _ => O::Arr(name, vals),
                        }
                    }
                };
                all.insert(id, o);
            }
        }
        if kind == T::List {
            let o = fm.opt(vals.len());
            match fm.list {
                5 => w.str(o),
                4 => {
                    w.u8(o.len() as u8);
                    w.v.extend(o);
                }
                _ => {}
            }
        }
    }
    (vals, keys)
}
/// Number of entries up to the end of the container.
fn count(g: &[T]) -> usize {
    let (mut n, mut depth) = (0, 0);
    for t in g {
        match t {
            T::End if depth == 0 => break,
            T::End => depth -= 1,
            T::Key(_) => {}
            T::Str | T::Ref(_) | T::Nil => n += (depth == 0) as usize,
            _ => {
                n += (depth == 0) as usize;
                depth += 1;
            }
        }
    }
    n
}
fn tree_of(name: &str, seed: usize) -> WTree {
    let e: Vec<Vec<u8>> = (0..3).map(|i| (i * 1000 + seed as i32).to_be_bytes().to_vec()).collect();
    WTree {
        name: name.into(),
        title: "t".into(),
        entries: 3,
        branches: vec![WBranch::new("x", Kind::Base { leaf: "TLeafI", unsigned: false, esize: 4, len: 1, title: "x".into(), count: None }, e, false)],
    }
}
struct Model {
    all: HashMap<usize, O>,
    top: Option<(String, Vec<usize>)>,
}
/// One file with a tree for each graph (None: nothing attached).
fn file(gs: &[Option<Vec<T>>], fm: &Form, lay: &Layout) -> (Vec<u8>, Vec<Model>) {
    let mut f = WFile::new("f.root", lay.clone());
    f.streamers(&[]);
    let mut ms = vec![];
    for (i, g) in gs.iter().enumerate() {
        let t = tree_of(&format!("t{i}"), i);
        match g {
            None => {
                f.tree(&t, 1, None);
                ms.push(Model { all: HashMap::new(), top: None });
            }
            Some(g) => {
                let m = std::cell::RefCell::new(None);
                let name = fm.name(50 + i);
                f.tree(&t, 1, Some(&|w: &mut W| {
                    let mut all = HashMap::new();
                    let mut top = vec![];
                    w.ver(fm.list, |w| {
                        obj(w, fm.refd);
                        w.str(name.as_bytes());
                        w.i32(count(g) as i32);
                        top = put(w, g, &mut 0, &mut 0, &mut all, T::List, fm).0;
                    });
                    *m.borrow_mut() = Some(Model { all, top: Some((name.clone(), top)) });
                }));
                ms.push(m.into_inner().unwrap());
            }
        }
    }
    (f.finish(), ms)
}
fn same(what: &str, got: &str, want: &str) -> Result<(), String> {
    if got != want {
        return Err(format!("{what} is {got:?} instead of {want:?}"));
    }
    Ok(())
}
fn len(what: &str, got: usize, want: usize) -> Result<(), String> {
    if got != want {
        return Err(format!("{what} has {got} elements instead of {want}"));
    }
    Ok(())
}
fn is_str(o: &TObjString, want: &str, at: &str) -> Result<(), String> {
    same(at, &o.to_string(), want)
}
fn is_list(o: &ReaderList, m: &Model, name: &str, want: &[usize], at: &str, n: &mut u64) -> Result<(), String> {
    same(&format!("the name of {at}"), o.name(), name)?;
    len(at, o.len(), want.len())?;
    if o.is_empty() != want.is_empty() {
        return Err(format!("{at}: is_empty"));
    }
    for (i, id) in want.iter().enumerate() {
        let at = format!("{at}[{i}]");
        *n += 1;
        match &m.all[id] {
            O::Str(s) => is_str(o.at::<TObjString>(i), s, &at)?,
            O::List(name, v) => is_list(o.at::<ReaderList>(i), m, name, v, &at, n)?,
            O::Map(name, v) => is_map(o.at::<TMap>(i), m, name, v, &at, n)?,
            O::Arr(name, v) => is_arr(o.at::<ReaderObjArray>(i), m, name, v, &at, n)?,
        }
    }
    Ok(())
}
fn is_map(o: &TMap, m: &Model, name: &str, want: &[(String, usize)], at: &str, n: &mut u64) -> Result<(), String> {
    if !name.is_empty() {
        same(&format!("the name of {at}"), o.name(), name)?;
    }
    for (k, id) in want {
        let at = format!("{at}[{k:?}]");
        let k = Key::String(k.clone());
        let gone = || format!("{at} is missing");
        *n += 1;
        match &m.all[id] {
            O::Str(s) => is_str(o.get(&k).ok_or_else(gone)?, s, &at)?,
            O::List(name, v) => is_list(o.get(&k).ok_or_else(gone)?, m, name, v, &at, n)?,
            O::Map(name, v) => is_map(o.get(&k).ok_or_else(gone)?, m, name, v, &at, n)?,
            O::Arr(name, v) => is_arr(o.get(&k).ok_or_else(gone)?, m, name, v, &at, n)?,
        }
    }
    // nothing under any other name: the texts of all strings, and near ones
    let other = m.all.values().filter_map(|o| match o {
        O::Str(s) => Some(s.clone()),
        _ => None,
    });
    for k in other.chain((0..20).map(own_key)).chain(["".to_string(), "key".into(), name.to_string()]) {
        if !want.iter().any(|w| w.0 == k) && has(o, &k) {
            return Err(format!("{at} has an element {k:?} that was never put in"));
        }
    }
    Ok(())
}
fn has(o: &TMap, k: &str) -> bool {
    // a value of another class is refused by a panic
    guard(|| o.get::<TObjString>(&Key::String(k.into())).is_some()).unwrap_or(true)
}
fn is_arr(o: &ReaderObjArray, m: &Model, name: &str, want: &[usize], at: &str, n: &mut u64) -> Result<(), String> {
    if !name.is_empty() {
        same(&format!("the name of {at}"), o.name(), name)?;
    }
    len(at, o.objs.len(), want.len())?;
    for (i, id) in want.iter().enumerate() {
        let at = format!("{at}[{i}]");
        let x = &o.objs[i];
        let bad = |_| format!("{at} is of another class than {:?}", m.all[id]);
        *n += 1;
        match &m.all[id] {
            O::Str(s) => is_str(x.downcast_ref().map_err(bad)?, s, &at)?,
            O::List(name, v) => is_list(x.downcast_ref().map_err(bad)?, m, name, v, &at, n)?,
            O::Map(name, v) => is_map(x.downcast_ref().map_err(bad)?, m, name, v, &at, n)?,
            O::Arr(name, v) => is_arr(x.downcast_ref().map_err(bad)?, m, name, v, &at, n)?,
        }
    }
    Ok(())
}
fn one(t: &ReaderTree, m: &Model, seed: usize, n: &mut u64) -> Result<(), String> {
    match (&m.top, t.user_info()) {
        (None, None) => {}
        (None, Some(l)) => return Err(format!("a list of {} elements is attached, though there is none", l.len())),
        (Some(_), None) => return Err("the attached list is missing".into()),
        (Some((name, v)), Some(l)) => is_list(l, m, name, v, "info", n)?,
    }
    let got: Vec<i32> = t.branch("x").ok_or("column x is missing")?.as_iter::<i32>().map_err(|e| format!("{e:?}"))?.collect();
    let want: Vec<i32> = (0..3).map(|i| i * 1000 + seed as i32).collect();
    if got != want {
        return Err(format!("column x is {got:?}"));
    }
    Ok(())
}
fn check(c: &mut Case, gs: &[Option<Vec<T>>], fm: &Form, lay: &Layout) -> Result<(), String> {
    let (b, ms) = file(gs, fm, lay);
    let p = c.path("c22.root");
    std::fs::write(&p, b).map_err(|e| e.to_string())?;
    let mut f = RootFile::open(&p).map_err(|e| format!("open: {e:?}"))?;
    for (i, m) in ms.iter().enumerate() {
        let tell = |e: String| format!("objects {:?}: {e}", gs[i]);
        let mut n = 1;
        guard(|| {
            let t = f.get_tree(&format!("t{i}")).map_err(|e| format!("{e:?}"))?;
            one(&t, m, i, &mut n)
        })
        .map_err(|e| tell(format!("panic: {e}")))?
        .map_err(tell)?;
        c.state(&gs[i]);
        c.steps(n);
    }
    Ok(())
}
/// A file with every kind of object in the user information of its trees.
pub fn sample_file() -> Vec<u8> {
    let all = samples(0);
    let gs: Vec<Option<Vec<T>>> = all[all.len() - 2..].iter().cloned().map(Some).collect();
    file(&gs, &Form::default(), &Layout::default()).0
}
/// Files with objects nested `n` levels deep.
pub fn deep_files(n: usize) -> Vec<Vec<u8>> {
    [&[T::List][..], &[T::Map], &[T::Arr], &[T::List, T::Map, T::Arr]].iter().map(|k| file(&[Some(deep(n, k))], &Form::default(), &Layout::default()).0).collect()
}
/// Graphs that have everything once or more.
fn samples(n: usize) -> Vec<Vec<T>> {
    let mut v: Vec<Vec<T>> = vec![];
    for k in 0..=n {
        graphs(k, &ALL, &mut |g| v.push(g.to_vec()));
    }
    v.push(vec![T::Str, T::List, T::Str, T::Ref(0), T::Map, T::Key(Some(2)), T::Arr, T::Nil, T::Str, T::Ref(2), T::Nil, T::End, T::Key(None), T::Ref(0), T::End, T::End, T::Ref(1), T::Ref(4), T::Ref(3)]);
    v.push(vec![T::Map, T::Key(None), T::Map, T::Key(None), T::Map, T::Key(None), T::List, T::List, T::Arr, T::Arr, T::Str, T::End, T::End, T::End, T::End, T::End, T::End, T::End, T::Ref(7), T::Ref(3), T::Ref(0)]);
    v
}
fn deep(n: usize, kinds: &[T]) -> Vec<T> {
    let mut g = vec![];
    let mut prev = T::List;
    for i in 0..n {
        if prev == T::Map {
            g.push(T::Key(None));
        }
        prev = kinds[i % kinds.len()];
        g.push(prev);
    }
    if prev == T::Map {
        g.push(T::Key(None));
    }
    g.push(T::Str);
    g.extend(vec![T::End; n]);
    g
}
pub fn run(cx: &mut Ctx) {
    let tier = cx.tier;
    // all graphs
    let flat = Layout::default();
    let mut batch: Vec<Option<Vec<T>>> = vec![];
    const B: usize = 64;
    fn flush(cx: &mut Ctx, batch: &mut Vec<Option<Vec<T>>>, flat: &Layout) {
        if batch.is_empty() {
            return;
        }
        let b = std::mem::take(batch);
        cx.case(|| format!("graphs from {:?} on", b[0].as_ref().unwrap()), |c| {
            for part in b.chunks(16) {
                check(c, part, &Form::default(), flat)?;
            }
            Ok(())
        });
    }
    let mut sizes: Vec<(usize, &[T])> = (0..=tier.pick(5, 6)).map(|n| (n, &ALL[..])).collect();
    if !tier.quick() {
        sizes.extend([(7, &ALL[..2]), (7, &ALL[1..]), (8, &ALL[..1])]);
    }
    for (n, kinds) in sizes {
        graphs(n, kinds, &mut |g| {
            batch.push(Some(g.to_vec()));
            if batch.len() == B {
                flush(cx, &mut batch, &flat);
            }
        });
        flush(cx, &mut batch, &flat);
    }
    // every form of every small graph
    let small = samples(tier.pick(2, 3));
    for (list, map, arr) in [4i16, 5].iter().flat_map(|l| [1i16, 2, 3].iter().flat_map(move |m| [1i16, 2, 3].iter().map(move |a| (*l, *m, *a)))) {
        for refd in [0, 1, 0xffff] {
            for low in [0, -1, 5, i32::MAX] {
                let fm = Form { list, map, arr, refd, low, ..Form::default() };
                cx.case(|| format!("list version {list}, map {map}, array {arr}, process {refd}, first index {low}"), |c| {
                    for part in small.chunks(16) {
                        let gs: Vec<_> = part.iter().cloned().map(Some).collect();
                        check(c, &gs, &fm, &Layout::default())?;
                    }
                    Ok(())
                });
            }
        }
    }
    // lengths of texts, names and options
    let lens: Vec<usize> = tier.pick(vec![0, 1, 127, 128, 253, 254, 255, 256, 300, 32767, 70000], (0..=600).chain([1000, 32767, 32768, 65535, 65536, 70000, 1 << 20]).collect());
    let last = samples(0);
    for l in &lens {
        for (list, which) in [(5i16, 0), (5, 1), (5, 2), (4, 2), (4, 0)] {
            if list == 4 && *l > 255 && which == 2 {
                continue;
            }
            cx.case(|| format!("list version {list}, {} of {l} bytes", ["texts", "names", "options"][which]), |c| {
                let mut fm = Form { list, ..Form::default() };
                match which {
                    0 => fm.text = vec![*l],
                    1 => fm.name = vec![*l],
                    _ => fm.opts = vec![word(9, *l).into_bytes()],
                }
                let mut gs = last.clone();
                if *l == 0 || which != 0 {
                    gs.push(vec![T::Str, T::Str, T::List, T::Str, T::End, T::Ref(2), T::Ref(0)]);
                } else {
                    // the texts of all the strings differ
                    gs.push(vec![T::Str, T::List, T::Ref(0), T::End, T::Map, T::Key(Some(0)), T::Ref(0), T::End]);
                }
                let gs: Vec<_> = gs.into_iter().map(Some).collect();
                check(c, &gs, &fm, &Layout::default())
            });
        }
    }
    // mixed options, one after the other
    let forms: Vec<Vec<u8>> = vec![vec![], b"a".to_vec(), vec![b'x'; 254], vec![b'y'; 255]];
    for ix in seqs(&[0usize, 1, 2, 3], 3) {
        if ix.len() < 3 {
            continue;
        }
        let o: Vec<Vec<u8>> = ix.iter().map(|i| forms[*i].clone()).collect();
        for list in [4, 5] {
            cx.case(|| format!("list version {list}, options of {:?} bytes", o.iter().map(|x| x.len()).collect::<Vec<_>>()), |c| {
                let fm = Form { list, opts: o.clone(), ..Form::default() };
                let gs: Vec<_> = last.iter().cloned().chain([vec![T::Str, T::List, T::Str, T::Str, T::End, T::Ref(0), T::Str]]).map(Some).collect();
                check(c, &gs, &fm, &Layout::default())
            });
        }
    }
    // depth and width
    for n in tier.pick(vec![10, 50, 100], vec![7, 8, 9, 10, 20, 30, 50, 64, 100, 150]) {
        for kinds in [vec![T::List], vec![T::Map], vec![T::Arr], vec![T::List, T::Map, T::Arr], vec![T::Arr, T::List]] {
            cx.case(|| format!("{n} levels of {kinds:?}"), |c| check(c, &[Some(deep(n, &kinds))], &Form::default(), &Layout::default()));
        }
    }
    for n in tier.pick(vec![100usize, 255], vec![10, 100, 127, 128, 200, 250, 255]) {
        for kind in [T::List, T::Map, T::Arr] {
            for shared in [false, true] {
                cx.case(|| format!("{kind:?} of {n} elements{}", if shared { " that are one" } else { "" }), |c| {
                    let mut g = vec![T::Str, kind];
                    for i in 0..n - 2 {
                        if kind == T::Map {
                            g.push(T::Key(None));
                        }
                        g.push(if shared && i > 0 { T::Ref(0) } else { T::Str });
                    }
                    g.extend([T::End, T::Ref(0), T::Ref(1)]);
                    check(c, &[Some(g)], &Form::default(), &Layout::default())
                });
            }
        }
    }
    // class versions of the tree, codecs and pointer sizes; trees with and without
    for vers in [10i16, 11, 12, 13] {
        for codec in CODECS {
            for big in [false, true] {
                cx.case(|| format!("tree version for {vers}, {codec:?}, wide pointers {big}"), |c| {
                    let lay = Layout { codec, blocks: vec![tier.pick(100, 60)], vers, big, zip_tree: codec != Codec::None };
                    let all = samples(2);
                    for part in all.chunks(6) {
                        let mut gs = vec![None];
                        for g in part {
                            gs.push(Some(g.clone()));
                            if gs.len() % 3 == 0 {
                                gs.push(None);
                            }
                        }
                        check(c, &gs, &Form::default(), &lay)?;
                    }
                    Ok(())
                });
            }
        }
    }
}
