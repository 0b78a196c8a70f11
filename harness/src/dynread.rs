//! Reading any column as canonical values, chosen by the Rust type the column suggests.
use crate::col::Elem;
use oxyroot::{Branch, Slice, UnmarshalerInto};
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum V {
    P(Vec<u8>),
    S(Vec<u8>),
    L(Vec<V>),
    Set(Vec<V>),
    Map(Vec<(V, V)>),
}
pub trait ToV {
    fn v(self) -> V;
}
macro_rules! prim {
    ($($t:ty),*) => {$(impl ToV for $t { fn v(self) -> V { let mut o = vec![]; <$t as Elem>::be(self, &mut o); V::P(o) } })*}
}
prim!(i8, u8, i16, u16, i32, u32, i64, u64, f32, f64, bool);
impl ToV for String {
    fn v(self) -> V {
        V::S(self.into_bytes())
    }
}
impl<T: ToV> ToV for Vec<T> {
    fn v(self) -> V {
        V::L(self.into_iter().map(|x| x.v()).collect())
    }
}
impl<T: ToV> ToV for Slice<T> {
    fn v(self) -> V {
        self.into_vec().v()
    }
}
impl<T: ToV, const N: usize> ToV for [T; N] {
    fn v(self) -> V {
        V::L(self.into_iter().map(|x| x.v()).collect())
    }
}
impl<T: ToV> ToV for HashSet<T> {
    fn v(self) -> V {
        let mut v: Vec<V> = self.into_iter().map(|x| x.v()).collect();
        v.sort();
        V::Set(v)
    }
}
impl<K: ToV, T: ToV> ToV for HashMap<K, T> {
    fn v(self) -> V {
        let mut v: Vec<(V, V)> = self.into_iter().map(|(k, x)| (k.v(), x.v())).collect();
        v.sort();
        V::Map(v)
    }
}

pub type VIter<'a> = Box<dyn Iterator<Item = V> + 'a>;

fn go<'a, T: UnmarshalerInto<Item = T> + ToV + 'static>(b: &'a Branch, checked: bool) -> Result<VIter<'a>, String> {
    if checked {
        match b.as_iter::<T>() {
            Ok(i) => Ok(Box::new(i.map(|x| x.v()))),
            Err(e) => Err(format!("{e:?}")),
        }
    } else {
        Ok(Box::new(b.as_iter_unchecked::<T>().map(|x| x.v())))
    }
}
type Go = for<'a> fn(&'a Branch, bool) -> Result<VIter<'a>, String>;
macro_rules! table {
    ($($n:literal => $t:ty,)*) => {
        /// Every Rust type the harness can ask for, by the name the library suggests.
        pub const TYPES: &[(&str, Go)] = &[$(($n, { fn f(b: &Branch, c: bool) -> Result<VIter<'_>, String> { go::<$t>(b, c) } f as Go })),*];
    }
}
table! {
    "bool" => bool, "i8" => i8, "u8" => u8, "i16" => i16, "u16" => u16, "i32" => i32, "u32" => u32, "i64" => i64, "u64" => u64, "f32" => f32, "f64" => f64,
    "String" => String, "TString" => String,
    "Slice<bool>" => Slice<bool>, "Slice<i8>" => Slice<i8>, "Slice<u8>" => Slice<u8>, "Slice<i16>" => Slice<i16>, "Slice<u16>" => Slice<u16>, "Slice<i32>" => Slice<i32>, "Slice<u32>" => Slice<u32>, "Slice<i64>" => Slice<i64>, "Slice<u64>" => Slice<u64>, "Slice<f32>" => Slice<f32>, "Slice<f64>" => Slice<f64>,
    "Vec<bool>" => Vec<bool>, "Vec<i8>" => Vec<i8>, "Vec<u8>" => Vec<u8>, "Vec<i16>" => Vec<i16>, "Vec<u16>" => Vec<u16>, "Vec<i32>" => Vec<i32>, "Vec<u32>" => Vec<u32>, "Vec<i64>" => Vec<i64>, "Vec<u64>" => Vec<u64>, "Vec<f32>" => Vec<f32>, "Vec<f64>" => Vec<f64>,
    "[bool;3]" => [bool; 3], "[i8;3]" => [i8; 3], "[u8;3]" => [u8; 3], "[i16;3]" => [i16; 3], "[u16;3]" => [u16; 3], "[i32;3]" => [i32; 3], "[u32;3]" => [u32; 3], "[i64;3]" => [i64; 3], "[u64;3]" => [u64; 3], "[f32;3]" => [f32; 3], "[f64;3]" => [f64; 3],
    "[bool;1]" => [bool; 1], "[i8;1]" => [i8; 1], "[i32;1]" => [i32; 1], "[f64;1]" => [f64; 1],
    "[bool;2]" => [bool; 2], "[i16;2]" => [i16; 2], "[i32;2]" => [i32; 2], "[u32;2]" => [u32; 2], "[f32;2]" => [f32; 2], "[u8;4]" => [u8; 4],
    "[i16;10]" => [i16; 10], "[u16;10]" => [u16; 10], "[i32;10]" => [i32; 10], "[u32;10]" => [u32; 10], "[i64;10]" => [i64; 10], "[u64;10]" => [u64; 10], "[f32;10]" => [f32; 10], "[f64;10]" => [f64; 10],
    "[u8;1]" => [u8; 1], "[i16;1]" => [i16; 1], "[u16;1]" => [u16; 1], "[u32;1]" => [u32; 1], "[i64;1]" => [i64; 1], "[u64;1]" => [u64; 1], "[f32;1]" => [f32; 1], "[bool;6]" => [bool; 6], "[i8;6]" => [i8; 6], "[u8;6]" => [u8; 6], "[i16;6]" => [i16; 6], "[u16;6]" => [u16; 6], "[i32;6]" => [i32; 6], "[u32;6]" => [u32; 6], "[i64;6]" => [i64; 6], "[u64;6]" => [u64; 6], "[f32;6]" => [f32; 6], "[f64;6]" => [f64; 6],
    "[i8;2]" => [i8; 2], "[u8;2]" => [u8; 2], "[u16;2]" => [u16; 2], "[i64;2]" => [i64; 2], "[u64;2]" => [u64; 2], "[f64;2]" => [f64; 2], "[bool;4]" => [bool; 4], "[i8;4]" => [i8; 4], "[i16;4]" => [i16; 4], "[u16;4]" => [u16; 4], "[i32;4]" => [i32; 4], "[u32;4]" => [u32; 4], "[i64;4]" => [i64; 4], "[u64;4]" => [u64; 4], "[f32;4]" => [f32; 4], "[f64;4]" => [f64; 4], "[bool;5]" => [bool; 5], "[i8;5]" => [i8; 5], "[u8;5]" => [u8; 5], "[i16;5]" => [i16; 5], "[u16;5]" => [u16; 5], "[i32;5]" => [i32; 5], "[u32;5]" => [u32; 5], "[i64;5]" => [i64; 5], "[u64;5]" => [u64; 5], "[f32;5]" => [f32; 5], "[f64;5]" => [f64; 5], "[bool;7]" => [bool; 7], "[i8;7]" => [i8; 7], "[u8;7]" => [u8; 7], "[i16;7]" => [i16; 7], "[u16;7]" => [u16; 7], "[i32;7]" => [i32; 7], "[u32;7]" => [u32; 7], "[i64;7]" => [i64; 7], "[u64;7]" => [u64; 7], "[f32;7]" => [f32; 7], "[f64;7]" => [f64; 7], "[bool;10]" => [bool; 10], "[i8;10]" => [i8; 10], "[u8;10]" => [u8; 10], "HashSet<bool>" => HashSet<bool>, "Vec<HashSet<bool>>" => Vec<HashSet<bool>>, "HashMap<bool,bool>" => HashMap<bool, bool>, "HashSet<i8>" => HashSet<i8>, "Vec<HashSet<i8>>" => Vec<HashSet<i8>>, "HashMap<i8,i8>" => HashMap<i8, i8>, "HashSet<u8>" => HashSet<u8>, "Vec<HashSet<u8>>" => Vec<HashSet<u8>>, "HashMap<u8,u8>" => HashMap<u8, u8>, "Vec<HashSet<i16>>" => Vec<HashSet<i16>>, "HashMap<i16,i16>" => HashMap<i16, i16>, "HashSet<u16>" => HashSet<u16>, "Vec<HashSet<u16>>" => Vec<HashSet<u16>>, "HashMap<u16,u16>" => HashMap<u16, u16>, "HashMap<i32,i32>" => HashMap<i32, i32>, "HashSet<u32>" => HashSet<u32>, "Vec<HashSet<u32>>" => Vec<HashSet<u32>>, "HashMap<u32,u32>" => HashMap<u32, u32>, "HashSet<i64>" => HashSet<i64>, "Vec<HashSet<i64>>" => Vec<HashSet<i64>>, "HashMap<i64,i64>" => HashMap<i64, i64>, "HashSet<u64>" => HashSet<u64>, "Vec<HashSet<u64>>" => Vec<HashSet<u64>>, "HashMap<u64,u64>" => HashMap<u64, u64>, "Vec<Vec<bool>>" => Vec<Vec<bool>>, "Vec<Vec<i8>>" => Vec<Vec<i8>>, "Vec<Vec<u8>>" => Vec<Vec<u8>>, "Vec<Vec<u16>>" => Vec<Vec<u16>>, "Vec<Vec<u32>>" => Vec<Vec<u32>>, "Vec<Vec<i64>>" => Vec<Vec<i64>>, "Vec<Vec<u64>>" => Vec<Vec<u64>>, "Vec<Vec<f32>>" => Vec<Vec<f32>>, "Vec<Vec<f64>>" => Vec<Vec<f64>>, "Vec<[i32;2]>" => Vec<[i32; 2]>, "Vec<[f64;3]>" => Vec<[f64; 3]>, "[[i32;2];3]" => [[i32; 2]; 3], "[String;2]" => [String; 2], "HashSet<Vec<i32>>" => HashSet<Vec<i32>>, "HashMap<i64,i16>" => HashMap<i64, i16>, "HashMap<i16,i32>" => HashMap<i16, i32>, "HashMap<i32,u16>" => HashMap<i32, u16>, "HashMap<i32,f64>" => HashMap<i32, f64>, "HashMap<i32,String>" => HashMap<i32, String>, "HashMap<String,i32>" => HashMap<String, i32>, "HashMap<String,Vec<i32>>" => HashMap<String, Vec<i32>>, "HashMap<i32,HashMap<i32,i16>>" => HashMap<i32, HashMap<i32, i16>>, "Vec<HashMap<i32,i16>>" => Vec<HashMap<i32, i16>>, "Vec<Vec<Vec<i32>>>" => Vec<Vec<Vec<i32>>>, "Slice<[i32;2]>" => Slice<[i32; 2]>, "Slice<String>" => Slice<String>, "Slice<Vec<i32>>" => Slice<Vec<i32>>,
    "Vec<String>" => Vec<String>, "Vec<TString>" => Vec<String>, "Vec<Vec<i32>>" => Vec<Vec<i32>>, "Vec<Vec<i16>>" => Vec<Vec<i16>>, "Vec<Vec<String>>" => Vec<Vec<String>>, "Vec<Vec<TString>>" => Vec<Vec<String>>,
    "Vec<HashSet<i32>>" => Vec<HashSet<i32>>, "Vec<HashSet<String>>" => Vec<HashSet<String>>, "HashSet<i32>" => HashSet<i32>, "HashSet<String>" => HashSet<String>, "HashSet<i16>" => HashSet<i16>,
    "HashMap<i32,i16>" => HashMap<i32, i16>, "HashMap<i32,Vec<i16>>" => HashMap<i32, Vec<i16>>, "HashMap<i32,Vec<Vec<i16>>>" => HashMap<i32, Vec<Vec<i16>>>, "HashMap<i32,Vec<String>>" => HashMap<i32, Vec<String>>, "HashMap<i32,Vec<HashSet<i16>>>" => HashMap<i32, Vec<HashSet<i16>>>,
    "HashMap<i32,HashSet<i16>>" => HashMap<i32, HashSet<i16>>, "HashMap<i32,HashSet<String>>" => HashMap<i32, HashSet<String>>, "HashMap<String,i16>" => HashMap<String, i16>, "HashMap<String,Vec<i16>>" => HashMap<String, Vec<i16>>, "HashMap<String,Vec<String>>" => HashMap<String, Vec<String>>,
    "HashMap<String,String>" => HashMap<String, String>, "HashMap<String,TString>" => HashMap<String, String>, "HashMap<String,HashSet<i16>>" => HashMap<String, HashSet<i16>>, "HashMap<String,HashSet<String>>" => HashMap<String, HashSet<String>>,
}
pub fn find(rust: &str) -> Option<Go> {
    TYPES.iter().find(|t| t.0 == rust).map(|t| t.1)
}
/// The column's values as the type it suggests; None = no such type in the harness.
pub fn suggested(b: &Branch, checked: bool) -> Option<Result<VIter<'_>, String>> {
    let t = b.interpretation();
    find(&t).map(|g| g(b, checked))
}
