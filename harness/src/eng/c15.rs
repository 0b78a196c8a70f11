//! C15: decoding at the byte level, against an independent interpretation of the bytes.
use crate::col::Prim;
use crate::core::*;
use crate::dynread::{ToV, V};
use oxyroot::{RBuffer, Slice, UnmarshalerInto};
use std::collections::{HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// What is asked of the buffer.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum R {
    P(Prim),
    Str,
    CStr(usize),
    Bytes(usize),
    /// fixed number of elements, without length
    N(usize, Box<R>),
    /// 32-bit length and elements
    Vec(Box<R>),
    Set(Box<R>),
    Map(Box<R>, Box<R>),
    /// everything left
    All(Box<R>),
    Skip(i64),
    Rewind(i64),
    Seek(i64),
}
use Prim::*;
/// The reference: value and new position, or None when the bytes hold no such value.
fn expect(r: &R, b: &[u8], p: usize) -> Option<(V, usize)> {
    let take = |p: usize, n: usize| if p <= b.len() && n <= b.len() - p { Some(&b[p..p + n]) } else { None };
    let seq = |mut p: usize, n: usize, e: &R| {
        let mut v = vec![];
        for _ in 0..n {
            let (x, q) = expect(e, b, p)?;
            v.push(x);
            p = q;
        }
        Some((v, p))
    };
    let utf8 = |s: &[u8]| std::str::from_utf8(s).ok().map(|s| V::S(s.as_bytes().to_vec()));
    Some(match r {
        R::P(Bool) => (V::P(vec![(take(p, 1)?[0] != 0) as u8]), p + 1),
        R::P(t) => (V::P(take(p, t.size())?.to_vec()), p + t.size()),
        R::Bytes(n) => (V::S(take(p, *n)?.to_vec()), p + n),
        R::Str => {
            let (n, q) = match take(p, 1)?[0] {
                255 => (u32::from_be_bytes(take(p + 1, 4)?.try_into().unwrap()) as usize, p + 5),
                n => (n as usize, p + 1),
            };
            (utf8(take(q, n)?)?, q + n)
        }
        R::CStr(n) => {
            let all = b.get(p..)?;
            match all.iter().take(*n).position(|x| *x == 0) {
                Some(k) => (utf8(&all[..k])?, p + k + 1),
                None => (utf8(take(p, *n)?)?, p + n),
            }
        }
        R::N(n, e) => {
            let (v, q) = seq(p, *n, e)?;
            (V::L(v), q)
        }
        R::Vec(e) | R::Set(e) => {
            let n = i32::from_be_bytes(take(p, 4)?.try_into().unwrap());
            let (mut v, q) = seq(p + 4, usize::try_from(n).ok()?, e)?;
            if matches!(r, R::Set(_)) {
                v.sort();
                v.dedup();
                (V::Set(v), q)
            } else {
                (V::L(v), q)
            }
        }
        R::Map(k, x) => {
            let n = usize::try_from(i32::from_be_bytes(take(p, 4)?.try_into().unwrap())).ok()?;
            let (ks, q) = seq(p + 4, n, k)?;
            let (xs, q) = seq(q, n, x)?;
            let m: std::collections::BTreeMap<V, V> = ks.into_iter().zip(xs).collect();
            (V::Map(m.into_iter().collect()), q)
        }
        R::All(e) => {
            let mut v = vec![];
            let mut p = p;
            while p < b.len() {
                let (x, q) = expect(e, b, p)?;
                v.push(x);
                p = q;
            }
            (V::L(v), p)
        }
        R::Skip(n) => (V::L(vec![]), usize::try_from(p as i64 + n).ok()?),
        R::Rewind(n) => (V::L(vec![]), usize::try_from(p as i64 - n).ok()?),
        R::Seek(n) => (V::L(vec![]), usize::try_from(*n).ok()?),
    })
}
type Got = Result<V, String>;
fn e<E: std::fmt::Debug>(e: E) -> String {
    format!("{e:?}")
}
fn obj<T: UnmarshalerInto<Item = T> + ToV>(r: &mut RBuffer) -> Got {
    r.read_object_into::<T>().map_err(e).map(|x| x.v())
}
/// The same value decoded into one that already holds something.
fn over<T: UnmarshalerInto<Item = T> + oxyroot::Unmarshaler + ToV>(r: &mut RBuffer, mut held: T) -> Got {
    held.unmarshal(r).map_err(e)?;
    Ok(held.v())
}
type Run = Box<dyn Fn(&mut RBuffer) -> Got>;
fn op(name: R, f: impl Fn(&mut RBuffer) -> Got + 'static) -> (R, Run) {
    (name, Box::new(f))
}
fn vs(b: &str) -> V {
    V::S(b.as_bytes().to_vec())
}
fn unit() -> V {
    V::L(vec![])
}
fn n(k: usize, r: R) -> R {
    R::N(k, Box::new(r))
}
fn vec_of(r: R) -> R {
    R::Vec(Box::new(r))
}
fn map_of(k: R, v: R) -> R {
    R::Map(Box::new(k), Box::new(v))
}
fn set_of(r: R) -> R {
    R::Set(Box::new(r))
}
fn all_of(r: R) -> R {
    R::All(Box::new(r))
}
/// Every operation; the offset is the one the buffer was made with.
fn ops(off: i64) -> Vec<(R, Run)> {
    let mut v = vec![
        op(R::P(U8), |r| r.read_u8().map_err(e).map(|x| x.v())),
        op(R::P(I8), |r| r.read_i8().map_err(e).map(|x| x.v())),
        op(R::P(Bool), |r| r.read_bool().map_err(e).map(|x| x.v())),
        op(R::P(U16), |r| r.read_u16().map_err(e).map(|x| x.v())),
        op(R::P(I16), |r| r.read_i16().map_err(e).map(|x| x.v())),
        op(R::P(U32), |r| r.read_u32().map_err(e).map(|x| x.v())),
        op(R::P(I32), |r| r.read_i32().map_err(e).map(|x| x.v())),
        op(R::P(U64), |r| r.read_u64().map_err(e).map(|x| x.v())),
        op(R::P(I64), |r| r.read_i64().map_err(e).map(|x| x.v())),
        op(R::P(F32), |r| r.read_f32().map_err(e).map(|x| x.v())),
        op(R::P(F64), |r| r.read_f64().map_err(e).map(|x| x.v())),
        op(R::Str, |r| r.read_string().map_err(e).map(vs)),
        op(n(3, R::P(U8)), |r| {
            let mut a = [9; 3];
            r.read_array_u8_into(&mut a).map_err(e)?;
            Ok(a.v())
        }),
        op(n(2, R::P(I16)), |r| {
            let mut a = [9; 2];
            r.read_array_i16_into(&mut a).map_err(e)?;
            Ok(a.v())
        }),
        op(n(2, R::P(I32)), |r| {
            let mut a = [9; 2];
            r.read_array_i32(&mut a).map_err(e)?;
            Ok(a.v())
        }),
        op(n(2, R::P(I64)), |r| {
            let mut a = [9; 2];
            r.read_array_i64(&mut a).map_err(e)?;
            Ok(a.v())
        }),
        op(R::P(Bool), obj::<bool>),
        op(R::P(I8), obj::<i8>),
        op(R::P(U8), obj::<u8>),
        op(R::P(I16), obj::<i16>),
        op(R::P(U16), obj::<u16>),
        op(R::P(I32), obj::<i32>),
        op(R::P(U32), obj::<u32>),
        op(R::P(I64), obj::<i64>),
        op(R::P(U64), obj::<u64>),
        op(R::P(F32), obj::<f32>),
        op(R::P(F64), obj::<f64>),
        op(R::Str, obj::<String>),
        op(R::Str, |r| over(r, "held".to_string())),
        op(n(2, R::P(U8)), obj::<[u8; 2]>),
        op(n(3, R::P(I16)), obj::<[i16; 3]>),
        op(n(2, R::Str), obj::<[String; 2]>),
        op(n(2, n(3, R::P(U8))), obj::<[[u8; 3]; 2]>),
        op(vec_of(R::P(Bool)), obj::<Vec<bool>>),
        op(vec_of(R::P(I8)), obj::<Vec<i8>>),
        op(vec_of(R::P(U8)), obj::<Vec<u8>>),
        op(vec_of(R::P(I16)), obj::<Vec<i16>>),
        op(vec_of(R::P(U16)), obj::<Vec<u16>>),
        op(vec_of(R::P(I32)), obj::<Vec<i32>>),
        op(vec_of(R::P(U32)), obj::<Vec<u32>>),
        op(vec_of(R::P(I64)), obj::<Vec<i64>>),
        op(vec_of(R::P(U64)), obj::<Vec<u64>>),
        op(vec_of(R::P(F32)), obj::<Vec<f32>>),
        op(vec_of(R::P(F64)), obj::<Vec<f64>>),
        op(vec_of(R::Str), obj::<Vec<String>>),
        op(vec_of(R::P(I16)), |r| over(r, vec![7i16, 8])),
        op(vec_of(vec_of(R::P(I16))), obj::<Vec<Vec<i16>>>),
        op(vec_of(vec_of(R::Str)), obj::<Vec<Vec<String>>>),
        op(vec_of(n(2, R::P(I16))), obj::<Vec<[i16; 2]>>),
        op(vec_of(set_of(R::P(I16))), obj::<Vec<HashSet<i16>>>),
        op(set_of(R::P(I16)), obj::<HashSet<i16>>),
        op(set_of(R::Str), obj::<HashSet<String>>),
        op(set_of(R::P(U8)), |r| over(r, HashSet::from([7u8, 8]))),
        op(map_of(R::P(I32), R::P(I16)), obj::<HashMap<i32, i16>>),
        op(map_of(R::P(U8), R::P(F64)), obj::<HashMap<u8, f64>>),
        op(map_of(R::P(U8), R::P(U8)), |r| over(r, HashMap::from([(7u8, 8u8)]))),
        op(all_of(R::P(U8)), obj::<Slice<u8>>),
        op(all_of(R::P(I16)), obj::<Slice<i16>>),
        op(all_of(R::P(F32)), obj::<Slice<f32>>),
        op(all_of(R::P(I64)), obj::<Slice<i64>>),
        op(all_of(R::Str), obj::<Slice<String>>),
    ];
    for k in [0usize, 1, 2, 4] {
        v.push(op(R::CStr(k), move |r| r.read_cstring(k).map_err(e).map(vs)));
        v.push(op(R::Bytes(k), move |r| r.read_array_u8(k).map_err(e).map(|b| V::S(b.to_vec()))));
    }
    for k in [0i64, 1, 3] {
        v.push(op(R::Skip(k), move |r| r.skip(k).map_err(e).map(|_| unit())));
        v.push(op(R::Rewind(k), move |r| r.rewind(k).map_err(e).map(|_| unit())));
        v.push(op(R::Seek(k), move |r| {
            r.set_pos(k + off);
            Ok(unit())
        }));
    }
    v
}
/// One operation at position `p` of `b`; true when it is one that succeeds.
fn step(r: &mut RBuffer, b: &[u8], off: i64, p: &mut usize, o: &(R, Run)) -> Result<bool, String> {
    let want = expect(&o.0, b, *p);
    let got = catch_unwind(AssertUnwindSafe(|| (o.1)(r)));
    let what = || format!("{:?} at {p} of {} (offset {off})", o.0, show(b));
    match (want, got) {
        (Some((v, q)), Ok(Ok(x))) => {
            if x != v {
                return Err(format!("{} gives {x:?} instead of {v:?}", what()));
            }
            if r.pos() != q as i64 + off {
                return Err(format!("{} ends at {} instead of {}", what(), r.pos() - off, q));
            }
            if r.len() != b.len() as i64 - q as i64 || r.is_empty() != (q >= b.len()) {
                return Err(format!("{} leaves {} bytes (empty: {}) instead of {}", what(), r.len(), r.is_empty(), b.len() as i64 - q as i64));
            }
            *p = q;
            Ok(true)
        }
        (None, Ok(Err(_))) => Ok(false),
        // moving before the beginning is a misuse that may stop the program
        (None, Err(_)) if matches!(o.0, R::Rewind(_) | R::Skip(_) | R::Seek(_)) => Ok(false),
        (None, Ok(Ok(x))) => Err(format!("{} gives {x:?} instead of an error", what())),
        (None, Err(_)) => Err(format!("{} panics instead of returning an error", what())),
        (Some((v, _)), Ok(Err(x))) => Err(format!("{} fails with {x} instead of giving {v:?}", what())),
        (Some((v, _)), Err(_)) => Err(format!("{} panics instead of giving {v:?}", what())),
    }
}
fn show(b: &[u8]) -> String {
    if b.len() > 40 {
        format!("{} bytes {:02x?}…", b.len(), &b[..40])
    } else {
        format!("{b:02x?}")
    }
}
/// Every operation at every position.
fn everywhere(c: &mut Case, b: &[u8], off: i64, ops: &[(R, Run)]) -> Result<(), String> {
    for p in 0..=b.len() {
        for o in ops {
            let mut r = RBuffer::new(b, off as u32);
            r.set_pos(p as i64 + off);
            let mut q = p;
            let ok = step(&mut r, b, off, &mut q, o)?;
            c.steps(1);
            c.outcome((ok, q - p.min(q)));
        }
    }
    c.state(b);
    Ok(())
}
/// Canonical bytes of sample values of one kind.
fn encodings(r: &R, k: usize) -> Vec<Vec<u8>> {
    let many = |e: &R, n: usize, seed: usize| {
        let s = encodings(e, k + 1);
        (0..n).flat_map(|i| s[(seed + i) % s.len()].clone()).collect::<Vec<u8>>()
    };
    match r {
        R::P(p) => p.patterns(),
        R::Str => {
            let mut v = vec![];
            let top = if k == 0 { 300 } else { 3 };
            for l in (0..=top).chain(if k == 0 { vec![65535usize, 65536, 65537] } else { vec![254, 255] }) {
                for unit in ["a", "é", "\0", "漢"] {
                    if l % unit.len() != 0 {
                        continue;
                    }
                    let s = unit.repeat(l / unit.len());
                    if l < 255 {
                        v.push([&[l as u8][..], s.as_bytes()].concat());
                    }
                    // the long form is admitted for every length
                    v.push([&[255][..], &(l as u32).to_be_bytes(), s.as_bytes()].concat());
                }
            }
            v
        }
        R::N(n, e) => (0..6).map(|i| many(e, *n, i)).collect(),
        R::Vec(e) | R::Set(e) => {
            (0..6).flat_map(|i| [0usize, 1, 2, 3, 17].map(|n| [&(n as u32).to_be_bytes()[..], &many(e, n, i)].concat())).collect()
        }
        R::Map(x, y) => (0..6)
            .flat_map(|i| [0usize, 1, 2, 5].map(|n| [&(n as u32).to_be_bytes()[..], &many(x, n, i), &many(y, n, i + 3)].concat()))
            .collect(),
        R::All(e) => (0..6).flat_map(|i| [0usize, 1, 2, 5].map(|n| many(e, n, i))).collect(),
        _ => vec![],
    }
}
pub fn run(cx: &mut Ctx) {
    let tier = cx.tier;
    // 1. every byte string to a length over an alphabet, every operation at every position
    let alpha = [0u8, 1, 2, 4, 0x40, 0x61, 0x7f, 0x80, 0xc3, 0xff];
    let max = tier.pick(4usize, 6);
    for first in 0..alpha.len() {
        for second in 0..alpha.len() {
            cx.case(
                || format!("bytes {:02x} {:02x} and up to {} more", alpha[first], alpha[second], max - 2),
                |c| {
                    let ops = ops(0);
                    for l in 0..=max - 2 {
                        for code in 0..alpha.len().pow(l as u32) {
                            let mut b = vec![alpha[first], alpha[second]];
                            let mut x = code;
                            for _ in 0..l {
                                b.push(alpha[x % alpha.len()]);
                                x /= alpha.len();
                            }
                            everywhere(c, &b, 0, &ops)?;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    cx.case(
        || "buffers of no or one byte".into(),
        |c| {
            for off in [0i64, 1, 7, 100_000] {
                let ops = ops(off);
                everywhere(c, &[], off, &ops)?;
                for b in 0..=255u8 {
                    everywhere(c, &[b], off, &ops)?;
                }
            }
            Ok(())
        },
    );
    // 2. containers announcing any number of elements, however few bytes follow
    for len in [0u32, 1, 2, 3, 4, 5, 255, 256, 65536, 0x3fff_ffff, 0x4000_0000, 0x4000_0008, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff] {
        cx.case(
            || format!("{len:#x} elements announced"),
            |c| {
                for off in [0i64, 3] {
                    let ops = ops(off);
                    for rest in 0..=tier.pick(20usize, 40) {
                        for seed in 0..4u64 {
                            let mut b = len.to_be_bytes().to_vec();
                            b.extend((0..rest as u64).map(|i| U8.elem(i * (seed + 1) + seed)[0] >> (2 * seed)));
                            everywhere(c, &b, off, &ops)?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // 3. every sample value of every kind, shifted, followed by other bytes, and cut at every byte
    for k in 0..ops(0).len() {
        let name = ops(0)[k].0.clone();
        let enc = encodings(&name, 0);
        for (part, enc) in enc.chunks(200).enumerate() {
            cx.case(
                || format!("operation {k} {name:?}, sample values {part}"),
                |c| {
                    for (off, shift, tail) in [(0i64, 0usize, 0usize), (0, 1, 0), (5, 0, 1), (64, 3, 9)] {
                        let ops = ops(off);
                        for x in enc {
                            if tail > 0 && matches!(name, R::All(_)) {
                                continue;
                            }
                            let mut b = vec![0x40u8; shift];
                            b.extend(x);
                            b.extend((0..tail).map(|i| i as u8 | 0x80));
                            let one = |c: &mut Case, b: &[u8]| -> Result<bool, String> {
                                let mut r = RBuffer::new(b, off as u32);
                                r.set_pos(shift as i64 + off);
                                let mut p = shift;
                                c.steps(1);
                                step(&mut r, b, off, &mut p, &ops[k])
                            };
                            if !one(c, &b)? {
                                return Err(format!("{name:?}: the reference refuses {}", show(&b)));
                            }
                            c.state((k, &b));
                            let cuts: Vec<usize> = if x.len() <= 400 { (0..x.len()).collect() } else { (0..10).chain(x.len() - 10..x.len()).collect() };
                            for cut in cuts {
                                one(c, &b[..shift + cut])?;
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // 4. strings of arbitrary bytes: decoded exactly or refused
    for hi in 0..16u32 {
        cx.case(
            || format!("strings of two arbitrary bytes, the first from {:#x}", hi * 16),
            |c| {
                let ops = ops(0);
                let which: Vec<usize> = (0..ops.len()).filter(|k| matches!(ops[*k].0, R::Str | R::CStr(_))).collect();
                for w in hi * 4096..(hi + 1) * 4096 {
                    for pre in [&[2u8][..], &[255, 0, 0, 0, 2], &[3, b'x'], &[4, 0xe6, 0xbc]] {
                        let b = [pre, &(w as u16).to_be_bytes()].concat();
                        for k in &which {
                            for p in [0, pre.len()] {
                                let mut r = RBuffer::new(&b, 0);
                                r.set_pos(p as i64);
                                let mut q = p;
                                step(&mut r, &b, 0, &mut q, &ops[*k])?;
                                c.steps(1);
                            }
                        }
                        c.state(b);
                    }
                }
                Ok(())
            },
        );
    }
    // 5. every sequence of operations on one buffer object
    let texts: [&[u8]; 3] = [
        &[3, b'a', b'b', b'c', 0, 0, 0, 2, 1, 2, 0, 0, 0, 1, 0, 5, 255, 0, 0, 0, 1, b'z', 7, 0],
        &[0, 0, 0, 1, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 1, 1, b'q', 0, 0, 0, 0, 0, 0, 0, 0],
        &[0, 0, 0, 0, 0x40, 0, 0, 6, 0, 3, 0, 0, 0, 2, 1, 0x80, 2, 0xc3, 0xa9, 0, 0, 0, 0, 9],
    ];
    let depth = tier.pick(3usize, 4);
    for (ti, text) in texts.iter().enumerate() {
        for first in 0..ops(0).len() {
            cx.case(
                || format!("buffer {ti}, sequences of {depth} operations beginning with {first}"),
                |c| {
                    let off = 2 * ti as i64;
                    let ops = ops(off);
                    let n = ops.len();
                    let mut seq = vec![first];
                    // depth-first; a refused operation ends the sequence
                    loop {
                        let mut r = RBuffer::new(text, off as u32);
                        let mut p = 0;
                        let mut stop = None;
                        for (i, k) in seq.iter().enumerate() {
                            c.steps(1);
                            let was = p;
                            if !step(&mut r, text, off, &mut p, &ops[*k]).map_err(|e| {
                                format!("after {:?}: {e}", seq[..i].iter().map(|k| &ops[*k].0).collect::<Vec<_>>())
                            })? {
                                stop = Some(i);
                                break;
                            }
                            c.state((ti, was, *k, p));
                            // past the end every further operation is refused: one is enough
                            if p > text.len() && i > 0 {
                                stop = Some(i);
                                break;
                            }
                        }
                        if let Some(i) = stop {
                            seq.truncate(i + 1);
                        } else if seq.len() < depth {
                            seq.push(0);
                            continue;
                        }
                        while seq.len() > 1 && seq[seq.len() - 1] + 1 == n {
                            seq.pop();
                        }
                        if seq.len() == 1 {
                            return Ok(());
                        }
                        *seq.last_mut().unwrap() += 1;
                    }
                },
            );
        }
    }
}
