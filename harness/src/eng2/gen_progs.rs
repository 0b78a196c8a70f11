// Written by gen_progs.py.
use super::*;

#[derive(ReadFromTree)]
pub struct L0 {
    a: i32,
}
impl Row for L0 { fn row(self, o: &mut Vec<V>) { self.a.row(o) } }
#[derive(ReadFromTree)]
pub struct L0r {
    #[oxyroot(rename = "ra")]
    a: i32,
}
impl Row for L0r { fn row(self, o: &mut Vec<V>) { self.a.row(o) } }
#[derive(ReadFromTree)]
pub struct L0p {
    #[oxyroot(branch_prefix = "pa_")]
    a: i32,
}
impl Row for L0p { fn row(self, o: &mut Vec<V>) { self.a.row(o) } }
#[derive(ReadFromTree)]
pub struct L0a {
    #[oxyroot(absolute_name = "xa.y")]
    a: i32,
}
impl Row for L0a { fn row(self, o: &mut Vec<V>) { self.a.row(o) } }
#[derive(ReadFromTree)]
pub struct L0pr {
    #[oxyroot(rename = "ra", branch_prefix = "pa_")]
    a: i32,
}
impl Row for L0pr { fn row(self, o: &mut Vec<V>) { self.a.row(o) } }
#[derive(ReadFromTree)]
pub struct L0ar {
    #[oxyroot(rename = "ra", absolute_name = "xa.y")]
    a: i32,
}
impl Row for L0ar { fn row(self, o: &mut Vec<V>) { self.a.row(o) } }
#[derive(ReadFromTree)]
pub struct L0ap {
    #[oxyroot(branch_prefix = "pa_", absolute_name = "xa.y")]
    a: i32,
}
impl Row for L0ap { fn row(self, o: &mut Vec<V>) { self.a.row(o) } }
#[derive(ReadFromTree)]
pub struct L0apr {
    #[oxyroot(rename = "ra", branch_prefix = "pa_", absolute_name = "xa.y")]
    a: i32,
}
impl Row for L0apr { fn row(self, o: &mut Vec<V>) { self.a.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "ga_")]
pub struct L1 {
    a: i32,
}
impl Row for L1 { fn row(self, o: &mut Vec<V>) { self.a.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "ga_")]
pub struct L1r {
    #[oxyroot(rename = "ra")]
    a: i32,
}
impl Row for L1r { fn row(self, o: &mut Vec<V>) { self.a.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "ga_")]
pub struct L1p {
    #[oxyroot(branch_prefix = "pa_")]
    a: i32,
}
impl Row for L1p { fn row(self, o: &mut Vec<V>) { self.a.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "ga_")]
pub struct L1a {
    #[oxyroot(absolute_name = "xa.y")]
    a: i32,
}
impl Row for L1a { fn row(self, o: &mut Vec<V>) { self.a.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "ga_")]
pub struct L1pr {
    #[oxyroot(rename = "ra", branch_prefix = "pa_")]
    a: i32,
}
impl Row for L1pr { fn row(self, o: &mut Vec<V>) { self.a.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "ga_")]
pub struct L1ar {
    #[oxyroot(rename = "ra", absolute_name = "xa.y")]
    a: i32,
}
impl Row for L1ar { fn row(self, o: &mut Vec<V>) { self.a.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "ga_")]
pub struct L1ap {
    #[oxyroot(branch_prefix = "pa_", absolute_name = "xa.y")]
    a: i32,
}
impl Row for L1ap { fn row(self, o: &mut Vec<V>) { self.a.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "ga_")]
pub struct L1apr {
    #[oxyroot(rename = "ra", branch_prefix = "pa_", absolute_name = "xa.y")]
    a: i32,
}
impl Row for L1apr { fn row(self, o: &mut Vec<V>) { self.a.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(slicable)]
pub struct L0S {
    a: i32,
}
impl Row for L0S { fn row(self, o: &mut Vec<V>) { self.a.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(slicable)]
pub struct L0rS {
    #[oxyroot(rename = "ra")]
    a: i32,
}
impl Row for L0rS { fn row(self, o: &mut Vec<V>) { self.a.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(slicable)]
pub struct L0pS {
    #[oxyroot(branch_prefix = "pa_")]
    a: i32,
}
impl Row for L0pS { fn row(self, o: &mut Vec<V>) { self.a.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(slicable)]
pub struct L0aS {
    #[oxyroot(absolute_name = "xa.y")]
    a: i32,
}
impl Row for L0aS { fn row(self, o: &mut Vec<V>) { self.a.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(slicable)]
pub struct L0prS {
    #[oxyroot(rename = "ra", branch_prefix = "pa_")]
    a: i32,
}
impl Row for L0prS { fn row(self, o: &mut Vec<V>) { self.a.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(slicable)]
pub struct L0arS {
    #[oxyroot(rename = "ra", absolute_name = "xa.y")]
    a: i32,
}
impl Row for L0arS { fn row(self, o: &mut Vec<V>) { self.a.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(slicable)]
pub struct L0apS {
    #[oxyroot(branch_prefix = "pa_", absolute_name = "xa.y")]
    a: i32,
}
impl Row for L0apS { fn row(self, o: &mut Vec<V>) { self.a.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(slicable)]
pub struct L0aprS {
    #[oxyroot(rename = "ra", branch_prefix = "pa_", absolute_name = "xa.y")]
    a: i32,
}
impl Row for L0aprS { fn row(self, o: &mut Vec<V>) { self.a.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "ga_", slicable)]
pub struct L1S {
    a: i32,
}
impl Row for L1S { fn row(self, o: &mut Vec<V>) { self.a.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "ga_", slicable)]
pub struct L1rS {
    #[oxyroot(rename = "ra")]
    a: i32,
}
impl Row for L1rS { fn row(self, o: &mut Vec<V>) { self.a.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "ga_", slicable)]
pub struct L1pS {
    #[oxyroot(branch_prefix = "pa_")]
    a: i32,
}
impl Row for L1pS { fn row(self, o: &mut Vec<V>) { self.a.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "ga_", slicable)]
pub struct L1aS {
    #[oxyroot(absolute_name = "xa.y")]
    a: i32,
}
impl Row for L1aS { fn row(self, o: &mut Vec<V>) { self.a.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "ga_", slicable)]
pub struct L1prS {
    #[oxyroot(rename = "ra", branch_prefix = "pa_")]
    a: i32,
}
impl Row for L1prS { fn row(self, o: &mut Vec<V>) { self.a.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "ga_", slicable)]
pub struct L1arS {
    #[oxyroot(rename = "ra", absolute_name = "xa.y")]
    a: i32,
}
impl Row for L1arS { fn row(self, o: &mut Vec<V>) { self.a.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "ga_", slicable)]
pub struct L1apS {
    #[oxyroot(branch_prefix = "pa_", absolute_name = "xa.y")]
    a: i32,
}
impl Row for L1apS { fn row(self, o: &mut Vec<V>) { self.a.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "ga_", slicable)]
pub struct L1aprS {
    #[oxyroot(rename = "ra", branch_prefix = "pa_", absolute_name = "xa.y")]
    a: i32,
}
impl Row for L1aprS { fn row(self, o: &mut Vec<V>) { self.a.row(o) } }
#[derive(ReadFromTree)]
pub struct M0_L0 {
    m: L0,
}
impl Row for M0_L0 { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0_L0r {
    m: L0r,
}
impl Row for M0_L0r { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0_L0p {
    m: L0p,
}
impl Row for M0_L0p { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0_L0a {
    m: L0a,
}
impl Row for M0_L0a { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0_L0pr {
    m: L0pr,
}
impl Row for M0_L0pr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0_L0ar {
    m: L0ar,
}
impl Row for M0_L0ar { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0_L0ap {
    m: L0ap,
}
impl Row for M0_L0ap { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0_L0apr {
    m: L0apr,
}
impl Row for M0_L0apr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0_L1 {
    m: L1,
}
impl Row for M0_L1 { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0_L1r {
    m: L1r,
}
impl Row for M0_L1r { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0_L1p {
    m: L1p,
}
impl Row for M0_L1p { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0_L1a {
    m: L1a,
}
impl Row for M0_L1a { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0_L1pr {
    m: L1pr,
}
impl Row for M0_L1pr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0_L1ar {
    m: L1ar,
}
impl Row for M0_L1ar { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0_L1ap {
    m: L1ap,
}
impl Row for M0_L1ap { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0_L1apr {
    m: L1apr,
}
impl Row for M0_L1apr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0_L0Sv {
    #[oxyroot(slicable = "L0S")]
    m: Vec<L0S>,
}
impl Row for M0_L0Sv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0_L0S {
    m: L0S,
}
impl Row for M0_L0S { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0_L0rSv {
    #[oxyroot(slicable = "L0rS")]
    m: Vec<L0rS>,
}
impl Row for M0_L0rSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0_L0rS {
    m: L0rS,
}
impl Row for M0_L0rS { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0_L0pSv {
    #[oxyroot(slicable = "L0pS")]
    m: Vec<L0pS>,
}
impl Row for M0_L0pSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0_L0pS {
    m: L0pS,
}
impl Row for M0_L0pS { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0_L0aSv {
    #[oxyroot(slicable = "L0aS")]
    m: Vec<L0aS>,
}
impl Row for M0_L0aSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0_L0aS {
    m: L0aS,
}
impl Row for M0_L0aS { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0_L0prSv {
    #[oxyroot(slicable = "L0prS")]
    m: Vec<L0prS>,
}
impl Row for M0_L0prSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0_L0prS {
    m: L0prS,
}
impl Row for M0_L0prS { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0_L0arSv {
    #[oxyroot(slicable = "L0arS")]
    m: Vec<L0arS>,
}
impl Row for M0_L0arSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0_L0arS {
    m: L0arS,
}
impl Row for M0_L0arS { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0_L0apSv {
    #[oxyroot(slicable = "L0apS")]
    m: Vec<L0apS>,
}
impl Row for M0_L0apSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0_L0apS {
    m: L0apS,
}
impl Row for M0_L0apS { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0_L0aprSv {
    #[oxyroot(slicable = "L0aprS")]
    m: Vec<L0aprS>,
}
impl Row for M0_L0aprSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0_L0aprS {
    m: L0aprS,
}
impl Row for M0_L0aprS { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0_L1Sv {
    #[oxyroot(slicable = "L1S")]
    m: Vec<L1S>,
}
impl Row for M0_L1Sv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0_L1S {
    m: L1S,
}
impl Row for M0_L1S { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0_L1rSv {
    #[oxyroot(slicable = "L1rS")]
    m: Vec<L1rS>,
}
impl Row for M0_L1rSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0_L1rS {
    m: L1rS,
}
impl Row for M0_L1rS { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0_L1pSv {
    #[oxyroot(slicable = "L1pS")]
    m: Vec<L1pS>,
}
impl Row for M0_L1pSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0_L1pS {
    m: L1pS,
}
impl Row for M0_L1pS { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0_L1aSv {
    #[oxyroot(slicable = "L1aS")]
    m: Vec<L1aS>,
}
impl Row for M0_L1aSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0_L1aS {
    m: L1aS,
}
impl Row for M0_L1aS { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0_L1prSv {
    #[oxyroot(slicable = "L1prS")]
    m: Vec<L1prS>,
}
impl Row for M0_L1prSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0_L1prS {
    m: L1prS,
}
impl Row for M0_L1prS { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0_L1arSv {
    #[oxyroot(slicable = "L1arS")]
    m: Vec<L1arS>,
}
impl Row for M0_L1arSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0_L1arS {
    m: L1arS,
}
impl Row for M0_L1arS { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0_L1apSv {
    #[oxyroot(slicable = "L1apS")]
    m: Vec<L1apS>,
}
impl Row for M0_L1apSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0_L1apS {
    m: L1apS,
}
impl Row for M0_L1apS { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0_L1aprSv {
    #[oxyroot(slicable = "L1aprS")]
    m: Vec<L1aprS>,
}
impl Row for M0_L1aprSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0_L1aprS {
    m: L1aprS,
}
impl Row for M0_L1aprS { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0r_L0 {
    #[oxyroot(rename = "rm")]
    m: L0,
}
impl Row for M0r_L0 { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0r_L0r {
    #[oxyroot(rename = "rm")]
    m: L0r,
}
impl Row for M0r_L0r { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0r_L0p {
    #[oxyroot(rename = "rm")]
    m: L0p,
}
impl Row for M0r_L0p { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0r_L0a {
    #[oxyroot(rename = "rm")]
    m: L0a,
}
impl Row for M0r_L0a { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0r_L0pr {
    #[oxyroot(rename = "rm")]
    m: L0pr,
}
impl Row for M0r_L0pr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0r_L0ar {
    #[oxyroot(rename = "rm")]
    m: L0ar,
}
impl Row for M0r_L0ar { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0r_L0ap {
    #[oxyroot(rename = "rm")]
    m: L0ap,
}
impl Row for M0r_L0ap { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0r_L0apr {
    #[oxyroot(rename = "rm")]
    m: L0apr,
}
impl Row for M0r_L0apr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0r_L1 {
    #[oxyroot(rename = "rm")]
    m: L1,
}
impl Row for M0r_L1 { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0r_L1r {
    #[oxyroot(rename = "rm")]
    m: L1r,
}
impl Row for M0r_L1r { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0r_L1p {
    #[oxyroot(rename = "rm")]
    m: L1p,
}
impl Row for M0r_L1p { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0r_L1a {
    #[oxyroot(rename = "rm")]
    m: L1a,
}
impl Row for M0r_L1a { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0r_L1pr {
    #[oxyroot(rename = "rm")]
    m: L1pr,
}
impl Row for M0r_L1pr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0r_L1ar {
    #[oxyroot(rename = "rm")]
    m: L1ar,
}
impl Row for M0r_L1ar { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0r_L1ap {
    #[oxyroot(rename = "rm")]
    m: L1ap,
}
impl Row for M0r_L1ap { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0r_L1apr {
    #[oxyroot(rename = "rm")]
    m: L1apr,
}
impl Row for M0r_L1apr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0r_L0Sv {
    #[oxyroot(rename = "rm", slicable = "L0S")]
    m: Vec<L0S>,
}
impl Row for M0r_L0Sv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0r_L0rSv {
    #[oxyroot(rename = "rm", slicable = "L0rS")]
    m: Vec<L0rS>,
}
impl Row for M0r_L0rSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0r_L0pSv {
    #[oxyroot(rename = "rm", slicable = "L0pS")]
    m: Vec<L0pS>,
}
impl Row for M0r_L0pSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0r_L0aSv {
    #[oxyroot(rename = "rm", slicable = "L0aS")]
    m: Vec<L0aS>,
}
impl Row for M0r_L0aSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0r_L0prSv {
    #[oxyroot(rename = "rm", slicable = "L0prS")]
    m: Vec<L0prS>,
}
impl Row for M0r_L0prSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0r_L0arSv {
    #[oxyroot(rename = "rm", slicable = "L0arS")]
    m: Vec<L0arS>,
}
impl Row for M0r_L0arSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0r_L0apSv {
    #[oxyroot(rename = "rm", slicable = "L0apS")]
    m: Vec<L0apS>,
}
impl Row for M0r_L0apSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0r_L0aprSv {
    #[oxyroot(rename = "rm", slicable = "L0aprS")]
    m: Vec<L0aprS>,
}
impl Row for M0r_L0aprSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0r_L1Sv {
    #[oxyroot(rename = "rm", slicable = "L1S")]
    m: Vec<L1S>,
}
impl Row for M0r_L1Sv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0r_L1rSv {
    #[oxyroot(rename = "rm", slicable = "L1rS")]
    m: Vec<L1rS>,
}
impl Row for M0r_L1rSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0r_L1pSv {
    #[oxyroot(rename = "rm", slicable = "L1pS")]
    m: Vec<L1pS>,
}
impl Row for M0r_L1pSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0r_L1aSv {
    #[oxyroot(rename = "rm", slicable = "L1aS")]
    m: Vec<L1aS>,
}
impl Row for M0r_L1aSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0r_L1prSv {
    #[oxyroot(rename = "rm", slicable = "L1prS")]
    m: Vec<L1prS>,
}
impl Row for M0r_L1prSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0r_L1arSv {
    #[oxyroot(rename = "rm", slicable = "L1arS")]
    m: Vec<L1arS>,
}
impl Row for M0r_L1arSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0r_L1apSv {
    #[oxyroot(rename = "rm", slicable = "L1apS")]
    m: Vec<L1apS>,
}
impl Row for M0r_L1apSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0r_L1aprSv {
    #[oxyroot(rename = "rm", slicable = "L1aprS")]
    m: Vec<L1aprS>,
}
impl Row for M0r_L1aprSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0p_L0 {
    #[oxyroot(branch_prefix = "pm_")]
    m: L0,
}
impl Row for M0p_L0 { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0p_L0r {
    #[oxyroot(branch_prefix = "pm_")]
    m: L0r,
}
impl Row for M0p_L0r { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0p_L0p {
    #[oxyroot(branch_prefix = "pm_")]
    m: L0p,
}
impl Row for M0p_L0p { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0p_L0a {
    #[oxyroot(branch_prefix = "pm_")]
    m: L0a,
}
impl Row for M0p_L0a { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0p_L0pr {
    #[oxyroot(branch_prefix = "pm_")]
    m: L0pr,
}
impl Row for M0p_L0pr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0p_L0ar {
    #[oxyroot(branch_prefix = "pm_")]
    m: L0ar,
}
impl Row for M0p_L0ar { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0p_L0ap {
    #[oxyroot(branch_prefix = "pm_")]
    m: L0ap,
}
impl Row for M0p_L0ap { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0p_L0apr {
    #[oxyroot(branch_prefix = "pm_")]
    m: L0apr,
}
impl Row for M0p_L0apr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0p_L1 {
    #[oxyroot(branch_prefix = "pm_")]
    m: L1,
}
impl Row for M0p_L1 { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0p_L1r {
    #[oxyroot(branch_prefix = "pm_")]
    m: L1r,
}
impl Row for M0p_L1r { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0p_L1p {
    #[oxyroot(branch_prefix = "pm_")]
    m: L1p,
}
impl Row for M0p_L1p { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0p_L1a {
    #[oxyroot(branch_prefix = "pm_")]
    m: L1a,
}
impl Row for M0p_L1a { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0p_L1pr {
    #[oxyroot(branch_prefix = "pm_")]
    m: L1pr,
}
impl Row for M0p_L1pr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0p_L1ar {
    #[oxyroot(branch_prefix = "pm_")]
    m: L1ar,
}
impl Row for M0p_L1ar { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0p_L1ap {
    #[oxyroot(branch_prefix = "pm_")]
    m: L1ap,
}
impl Row for M0p_L1ap { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0p_L1apr {
    #[oxyroot(branch_prefix = "pm_")]
    m: L1apr,
}
impl Row for M0p_L1apr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0p_L0Sv {
    #[oxyroot(branch_prefix = "pm_", slicable = "L0S")]
    m: Vec<L0S>,
}
impl Row for M0p_L0Sv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0p_L0rSv {
    #[oxyroot(branch_prefix = "pm_", slicable = "L0rS")]
    m: Vec<L0rS>,
}
impl Row for M0p_L0rSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0p_L0pSv {
    #[oxyroot(branch_prefix = "pm_", slicable = "L0pS")]
    m: Vec<L0pS>,
}
impl Row for M0p_L0pSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0p_L0aSv {
    #[oxyroot(branch_prefix = "pm_", slicable = "L0aS")]
    m: Vec<L0aS>,
}
impl Row for M0p_L0aSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0p_L0prSv {
    #[oxyroot(branch_prefix = "pm_", slicable = "L0prS")]
    m: Vec<L0prS>,
}
impl Row for M0p_L0prSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0p_L0arSv {
    #[oxyroot(branch_prefix = "pm_", slicable = "L0arS")]
    m: Vec<L0arS>,
}
impl Row for M0p_L0arSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0p_L0apSv {
    #[oxyroot(branch_prefix = "pm_", slicable = "L0apS")]
    m: Vec<L0apS>,
}
impl Row for M0p_L0apSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0p_L0aprSv {
    #[oxyroot(branch_prefix = "pm_", slicable = "L0aprS")]
    m: Vec<L0aprS>,
}
impl Row for M0p_L0aprSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0p_L1Sv {
    #[oxyroot(branch_prefix = "pm_", slicable = "L1S")]
    m: Vec<L1S>,
}
impl Row for M0p_L1Sv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0p_L1rSv {
    #[oxyroot(branch_prefix = "pm_", slicable = "L1rS")]
    m: Vec<L1rS>,
}
impl Row for M0p_L1rSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0p_L1pSv {
    #[oxyroot(branch_prefix = "pm_", slicable = "L1pS")]
    m: Vec<L1pS>,
}
impl Row for M0p_L1pSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0p_L1aSv {
    #[oxyroot(branch_prefix = "pm_", slicable = "L1aS")]
    m: Vec<L1aS>,
}
impl Row for M0p_L1aSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0p_L1prSv {
    #[oxyroot(branch_prefix = "pm_", slicable = "L1prS")]
    m: Vec<L1prS>,
}
impl Row for M0p_L1prSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0p_L1arSv {
    #[oxyroot(branch_prefix = "pm_", slicable = "L1arS")]
    m: Vec<L1arS>,
}
impl Row for M0p_L1arSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0p_L1apSv {
    #[oxyroot(branch_prefix = "pm_", slicable = "L1apS")]
    m: Vec<L1apS>,
}
impl Row for M0p_L1apSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0p_L1aprSv {
    #[oxyroot(branch_prefix = "pm_", slicable = "L1aprS")]
    m: Vec<L1aprS>,
}
impl Row for M0p_L1aprSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0a_L0 {
    #[oxyroot(absolute_name = "xm")]
    m: L0,
}
impl Row for M0a_L0 { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0a_L0r {
    #[oxyroot(absolute_name = "xm")]
    m: L0r,
}
impl Row for M0a_L0r { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0a_L0p {
    #[oxyroot(absolute_name = "xm")]
    m: L0p,
}
impl Row for M0a_L0p { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0a_L0a {
    #[oxyroot(absolute_name = "xm")]
    m: L0a,
}
impl Row for M0a_L0a { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0a_L0pr {
    #[oxyroot(absolute_name = "xm")]
    m: L0pr,
}
impl Row for M0a_L0pr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0a_L0ar {
    #[oxyroot(absolute_name = "xm")]
    m: L0ar,
}
impl Row for M0a_L0ar { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0a_L0ap {
    #[oxyroot(absolute_name = "xm")]
    m: L0ap,
}
impl Row for M0a_L0ap { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0a_L0apr {
    #[oxyroot(absolute_name = "xm")]
    m: L0apr,
}
impl Row for M0a_L0apr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0a_L1 {
    #[oxyroot(absolute_name = "xm")]
    m: L1,
}
impl Row for M0a_L1 { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0a_L1r {
    #[oxyroot(absolute_name = "xm")]
    m: L1r,
}
impl Row for M0a_L1r { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0a_L1p {
    #[oxyroot(absolute_name = "xm")]
    m: L1p,
}
impl Row for M0a_L1p { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0a_L1a {
    #[oxyroot(absolute_name = "xm")]
    m: L1a,
}
impl Row for M0a_L1a { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0a_L1pr {
    #[oxyroot(absolute_name = "xm")]
    m: L1pr,
}
impl Row for M0a_L1pr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0a_L1ar {
    #[oxyroot(absolute_name = "xm")]
    m: L1ar,
}
impl Row for M0a_L1ar { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0a_L1ap {
    #[oxyroot(absolute_name = "xm")]
    m: L1ap,
}
impl Row for M0a_L1ap { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0a_L1apr {
    #[oxyroot(absolute_name = "xm")]
    m: L1apr,
}
impl Row for M0a_L1apr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0a_L0Sv {
    #[oxyroot(absolute_name = "xm", slicable = "L0S")]
    m: Vec<L0S>,
}
impl Row for M0a_L0Sv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0a_L0rSv {
    #[oxyroot(absolute_name = "xm", slicable = "L0rS")]
    m: Vec<L0rS>,
}
impl Row for M0a_L0rSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0a_L0pSv {
    #[oxyroot(absolute_name = "xm", slicable = "L0pS")]
    m: Vec<L0pS>,
}
impl Row for M0a_L0pSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0a_L0aSv {
    #[oxyroot(absolute_name = "xm", slicable = "L0aS")]
    m: Vec<L0aS>,
}
impl Row for M0a_L0aSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0a_L0prSv {
    #[oxyroot(absolute_name = "xm", slicable = "L0prS")]
    m: Vec<L0prS>,
}
impl Row for M0a_L0prSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0a_L0arSv {
    #[oxyroot(absolute_name = "xm", slicable = "L0arS")]
    m: Vec<L0arS>,
}
impl Row for M0a_L0arSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0a_L0apSv {
    #[oxyroot(absolute_name = "xm", slicable = "L0apS")]
    m: Vec<L0apS>,
}
impl Row for M0a_L0apSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0a_L0aprSv {
    #[oxyroot(absolute_name = "xm", slicable = "L0aprS")]
    m: Vec<L0aprS>,
}
impl Row for M0a_L0aprSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0a_L1Sv {
    #[oxyroot(absolute_name = "xm", slicable = "L1S")]
    m: Vec<L1S>,
}
impl Row for M0a_L1Sv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0a_L1rSv {
    #[oxyroot(absolute_name = "xm", slicable = "L1rS")]
    m: Vec<L1rS>,
}
impl Row for M0a_L1rSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0a_L1pSv {
    #[oxyroot(absolute_name = "xm", slicable = "L1pS")]
    m: Vec<L1pS>,
}
impl Row for M0a_L1pSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0a_L1aSv {
    #[oxyroot(absolute_name = "xm", slicable = "L1aS")]
    m: Vec<L1aS>,
}
impl Row for M0a_L1aSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0a_L1prSv {
    #[oxyroot(absolute_name = "xm", slicable = "L1prS")]
    m: Vec<L1prS>,
}
impl Row for M0a_L1prSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0a_L1arSv {
    #[oxyroot(absolute_name = "xm", slicable = "L1arS")]
    m: Vec<L1arS>,
}
impl Row for M0a_L1arSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0a_L1apSv {
    #[oxyroot(absolute_name = "xm", slicable = "L1apS")]
    m: Vec<L1apS>,
}
impl Row for M0a_L1apSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0a_L1aprSv {
    #[oxyroot(absolute_name = "xm", slicable = "L1aprS")]
    m: Vec<L1aprS>,
}
impl Row for M0a_L1aprSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0pr_L0 {
    #[oxyroot(rename = "rm", branch_prefix = "pm_")]
    m: L0,
}
impl Row for M0pr_L0 { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0pr_L0r {
    #[oxyroot(rename = "rm", branch_prefix = "pm_")]
    m: L0r,
}
impl Row for M0pr_L0r { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0pr_L0p {
    #[oxyroot(rename = "rm", branch_prefix = "pm_")]
    m: L0p,
}
impl Row for M0pr_L0p { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0pr_L0a {
    #[oxyroot(rename = "rm", branch_prefix = "pm_")]
    m: L0a,
}
impl Row for M0pr_L0a { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0pr_L0pr {
    #[oxyroot(rename = "rm", branch_prefix = "pm_")]
    m: L0pr,
}
impl Row for M0pr_L0pr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0pr_L0ar {
    #[oxyroot(rename = "rm", branch_prefix = "pm_")]
    m: L0ar,
}
impl Row for M0pr_L0ar { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0pr_L0ap {
    #[oxyroot(rename = "rm", branch_prefix = "pm_")]
    m: L0ap,
}
impl Row for M0pr_L0ap { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0pr_L0apr {
    #[oxyroot(rename = "rm", branch_prefix = "pm_")]
    m: L0apr,
}
impl Row for M0pr_L0apr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0pr_L1 {
    #[oxyroot(rename = "rm", branch_prefix = "pm_")]
    m: L1,
}
impl Row for M0pr_L1 { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0pr_L1r {
    #[oxyroot(rename = "rm", branch_prefix = "pm_")]
    m: L1r,
}
impl Row for M0pr_L1r { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0pr_L1p {
    #[oxyroot(rename = "rm", branch_prefix = "pm_")]
    m: L1p,
}
impl Row for M0pr_L1p { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0pr_L1a {
    #[oxyroot(rename = "rm", branch_prefix = "pm_")]
    m: L1a,
}
impl Row for M0pr_L1a { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0pr_L1pr {
    #[oxyroot(rename = "rm", branch_prefix = "pm_")]
    m: L1pr,
}
impl Row for M0pr_L1pr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0pr_L1ar {
    #[oxyroot(rename = "rm", branch_prefix = "pm_")]
    m: L1ar,
}
impl Row for M0pr_L1ar { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0pr_L1ap {
    #[oxyroot(rename = "rm", branch_prefix = "pm_")]
    m: L1ap,
}
impl Row for M0pr_L1ap { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0pr_L1apr {
    #[oxyroot(rename = "rm", branch_prefix = "pm_")]
    m: L1apr,
}
impl Row for M0pr_L1apr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0pr_L0Sv {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", slicable = "L0S")]
    m: Vec<L0S>,
}
impl Row for M0pr_L0Sv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0pr_L0rSv {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", slicable = "L0rS")]
    m: Vec<L0rS>,
}
impl Row for M0pr_L0rSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0pr_L0pSv {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", slicable = "L0pS")]
    m: Vec<L0pS>,
}
impl Row for M0pr_L0pSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0pr_L0aSv {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", slicable = "L0aS")]
    m: Vec<L0aS>,
}
impl Row for M0pr_L0aSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0pr_L1Sv {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", slicable = "L1S")]
    m: Vec<L1S>,
}
impl Row for M0pr_L1Sv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0pr_L1rSv {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", slicable = "L1rS")]
    m: Vec<L1rS>,
}
impl Row for M0pr_L1rSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0pr_L1pSv {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", slicable = "L1pS")]
    m: Vec<L1pS>,
}
impl Row for M0pr_L1pSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0pr_L1aSv {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", slicable = "L1aS")]
    m: Vec<L1aS>,
}
impl Row for M0pr_L1aSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0ar_L0 {
    #[oxyroot(rename = "rm", absolute_name = "xm")]
    m: L0,
}
impl Row for M0ar_L0 { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0ar_L0r {
    #[oxyroot(rename = "rm", absolute_name = "xm")]
    m: L0r,
}
impl Row for M0ar_L0r { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0ar_L0p {
    #[oxyroot(rename = "rm", absolute_name = "xm")]
    m: L0p,
}
impl Row for M0ar_L0p { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0ar_L0a {
    #[oxyroot(rename = "rm", absolute_name = "xm")]
    m: L0a,
}
impl Row for M0ar_L0a { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0ar_L0pr {
    #[oxyroot(rename = "rm", absolute_name = "xm")]
    m: L0pr,
}
impl Row for M0ar_L0pr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0ar_L0ar {
    #[oxyroot(rename = "rm", absolute_name = "xm")]
    m: L0ar,
}
impl Row for M0ar_L0ar { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0ar_L0ap {
    #[oxyroot(rename = "rm", absolute_name = "xm")]
    m: L0ap,
}
impl Row for M0ar_L0ap { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0ar_L0apr {
    #[oxyroot(rename = "rm", absolute_name = "xm")]
    m: L0apr,
}
impl Row for M0ar_L0apr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0ar_L1 {
    #[oxyroot(rename = "rm", absolute_name = "xm")]
    m: L1,
}
impl Row for M0ar_L1 { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0ar_L1r {
    #[oxyroot(rename = "rm", absolute_name = "xm")]
    m: L1r,
}
impl Row for M0ar_L1r { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0ar_L1p {
    #[oxyroot(rename = "rm", absolute_name = "xm")]
    m: L1p,
}
impl Row for M0ar_L1p { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0ar_L1a {
    #[oxyroot(rename = "rm", absolute_name = "xm")]
    m: L1a,
}
impl Row for M0ar_L1a { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0ar_L1pr {
    #[oxyroot(rename = "rm", absolute_name = "xm")]
    m: L1pr,
}
impl Row for M0ar_L1pr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0ar_L1ar {
    #[oxyroot(rename = "rm", absolute_name = "xm")]
    m: L1ar,
}
impl Row for M0ar_L1ar { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0ar_L1ap {
    #[oxyroot(rename = "rm", absolute_name = "xm")]
    m: L1ap,
}
impl Row for M0ar_L1ap { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0ar_L1apr {
    #[oxyroot(rename = "rm", absolute_name = "xm")]
    m: L1apr,
}
impl Row for M0ar_L1apr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0ar_L0Sv {
    #[oxyroot(rename = "rm", absolute_name = "xm", slicable = "L0S")]
    m: Vec<L0S>,
}
impl Row for M0ar_L0Sv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0ar_L0rSv {
    #[oxyroot(rename = "rm", absolute_name = "xm", slicable = "L0rS")]
    m: Vec<L0rS>,
}
impl Row for M0ar_L0rSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0ar_L0pSv {
    #[oxyroot(rename = "rm", absolute_name = "xm", slicable = "L0pS")]
    m: Vec<L0pS>,
}
impl Row for M0ar_L0pSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0ar_L0aSv {
    #[oxyroot(rename = "rm", absolute_name = "xm", slicable = "L0aS")]
    m: Vec<L0aS>,
}
impl Row for M0ar_L0aSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0ar_L1Sv {
    #[oxyroot(rename = "rm", absolute_name = "xm", slicable = "L1S")]
    m: Vec<L1S>,
}
impl Row for M0ar_L1Sv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0ar_L1rSv {
    #[oxyroot(rename = "rm", absolute_name = "xm", slicable = "L1rS")]
    m: Vec<L1rS>,
}
impl Row for M0ar_L1rSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0ar_L1pSv {
    #[oxyroot(rename = "rm", absolute_name = "xm", slicable = "L1pS")]
    m: Vec<L1pS>,
}
impl Row for M0ar_L1pSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0ar_L1aSv {
    #[oxyroot(rename = "rm", absolute_name = "xm", slicable = "L1aS")]
    m: Vec<L1aS>,
}
impl Row for M0ar_L1aSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0ap_L0 {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm")]
    m: L0,
}
impl Row for M0ap_L0 { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0ap_L0r {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm")]
    m: L0r,
}
impl Row for M0ap_L0r { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0ap_L0p {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm")]
    m: L0p,
}
impl Row for M0ap_L0p { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0ap_L0a {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm")]
    m: L0a,
}
impl Row for M0ap_L0a { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0ap_L0pr {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm")]
    m: L0pr,
}
impl Row for M0ap_L0pr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0ap_L0ar {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm")]
    m: L0ar,
}
impl Row for M0ap_L0ar { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0ap_L0ap {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm")]
    m: L0ap,
}
impl Row for M0ap_L0ap { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0ap_L0apr {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm")]
    m: L0apr,
}
impl Row for M0ap_L0apr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0ap_L1 {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm")]
    m: L1,
}
impl Row for M0ap_L1 { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0ap_L1r {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm")]
    m: L1r,
}
impl Row for M0ap_L1r { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0ap_L1p {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm")]
    m: L1p,
}
impl Row for M0ap_L1p { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0ap_L1a {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm")]
    m: L1a,
}
impl Row for M0ap_L1a { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0ap_L1pr {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm")]
    m: L1pr,
}
impl Row for M0ap_L1pr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0ap_L1ar {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm")]
    m: L1ar,
}
impl Row for M0ap_L1ar { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0ap_L1ap {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm")]
    m: L1ap,
}
impl Row for M0ap_L1ap { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0ap_L1apr {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm")]
    m: L1apr,
}
impl Row for M0ap_L1apr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0ap_L0Sv {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm", slicable = "L0S")]
    m: Vec<L0S>,
}
impl Row for M0ap_L0Sv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0ap_L0rSv {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm", slicable = "L0rS")]
    m: Vec<L0rS>,
}
impl Row for M0ap_L0rSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0ap_L0pSv {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm", slicable = "L0pS")]
    m: Vec<L0pS>,
}
impl Row for M0ap_L0pSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0ap_L0aSv {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm", slicable = "L0aS")]
    m: Vec<L0aS>,
}
impl Row for M0ap_L0aSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0ap_L1Sv {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm", slicable = "L1S")]
    m: Vec<L1S>,
}
impl Row for M0ap_L1Sv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0ap_L1rSv {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm", slicable = "L1rS")]
    m: Vec<L1rS>,
}
impl Row for M0ap_L1rSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0ap_L1pSv {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm", slicable = "L1pS")]
    m: Vec<L1pS>,
}
impl Row for M0ap_L1pSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0ap_L1aSv {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm", slicable = "L1aS")]
    m: Vec<L1aS>,
}
impl Row for M0ap_L1aSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0apr_L0 {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm")]
    m: L0,
}
impl Row for M0apr_L0 { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0apr_L0r {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm")]
    m: L0r,
}
impl Row for M0apr_L0r { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0apr_L0p {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm")]
    m: L0p,
}
impl Row for M0apr_L0p { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0apr_L0a {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm")]
    m: L0a,
}
impl Row for M0apr_L0a { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0apr_L0pr {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm")]
    m: L0pr,
}
impl Row for M0apr_L0pr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0apr_L0ar {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm")]
    m: L0ar,
}
impl Row for M0apr_L0ar { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0apr_L0ap {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm")]
    m: L0ap,
}
impl Row for M0apr_L0ap { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0apr_L0apr {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm")]
    m: L0apr,
}
impl Row for M0apr_L0apr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0apr_L1 {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm")]
    m: L1,
}
impl Row for M0apr_L1 { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0apr_L1r {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm")]
    m: L1r,
}
impl Row for M0apr_L1r { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0apr_L1p {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm")]
    m: L1p,
}
impl Row for M0apr_L1p { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0apr_L1a {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm")]
    m: L1a,
}
impl Row for M0apr_L1a { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0apr_L1pr {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm")]
    m: L1pr,
}
impl Row for M0apr_L1pr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0apr_L1ar {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm")]
    m: L1ar,
}
impl Row for M0apr_L1ar { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0apr_L1ap {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm")]
    m: L1ap,
}
impl Row for M0apr_L1ap { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0apr_L1apr {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm")]
    m: L1apr,
}
impl Row for M0apr_L1apr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
pub struct M0apr_L0Sv {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm", slicable = "L0S")]
    m: Vec<L0S>,
}
impl Row for M0apr_L0Sv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0apr_L0rSv {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm", slicable = "L0rS")]
    m: Vec<L0rS>,
}
impl Row for M0apr_L0rSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0apr_L0pSv {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm", slicable = "L0pS")]
    m: Vec<L0pS>,
}
impl Row for M0apr_L0pSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0apr_L0aSv {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm", slicable = "L0aS")]
    m: Vec<L0aS>,
}
impl Row for M0apr_L0aSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0apr_L1Sv {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm", slicable = "L1S")]
    m: Vec<L1S>,
}
impl Row for M0apr_L1Sv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0apr_L1rSv {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm", slicable = "L1rS")]
    m: Vec<L1rS>,
}
impl Row for M0apr_L1rSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0apr_L1pSv {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm", slicable = "L1pS")]
    m: Vec<L1pS>,
}
impl Row for M0apr_L1pSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct M0apr_L1aSv {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm", slicable = "L1aS")]
    m: Vec<L1aS>,
}
impl Row for M0apr_L1aSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1_L0 {
    m: L0,
}
impl Row for M1_L0 { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1_L0r {
    m: L0r,
}
impl Row for M1_L0r { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1_L0p {
    m: L0p,
}
impl Row for M1_L0p { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1_L0a {
    m: L0a,
}
impl Row for M1_L0a { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1_L0pr {
    m: L0pr,
}
impl Row for M1_L0pr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1_L0ar {
    m: L0ar,
}
impl Row for M1_L0ar { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1_L0ap {
    m: L0ap,
}
impl Row for M1_L0ap { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1_L0apr {
    m: L0apr,
}
impl Row for M1_L0apr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1_L1 {
    m: L1,
}
impl Row for M1_L1 { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1_L1r {
    m: L1r,
}
impl Row for M1_L1r { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1_L1p {
    m: L1p,
}
impl Row for M1_L1p { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1_L1a {
    m: L1a,
}
impl Row for M1_L1a { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1_L1pr {
    m: L1pr,
}
impl Row for M1_L1pr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1_L1ar {
    m: L1ar,
}
impl Row for M1_L1ar { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1_L1ap {
    m: L1ap,
}
impl Row for M1_L1ap { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1_L1apr {
    m: L1apr,
}
impl Row for M1_L1apr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1_L0Sv {
    #[oxyroot(slicable = "L0S")]
    m: Vec<L0S>,
}
impl Row for M1_L0Sv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1_L0rSv {
    #[oxyroot(slicable = "L0rS")]
    m: Vec<L0rS>,
}
impl Row for M1_L0rSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1_L0pSv {
    #[oxyroot(slicable = "L0pS")]
    m: Vec<L0pS>,
}
impl Row for M1_L0pSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1_L0aSv {
    #[oxyroot(slicable = "L0aS")]
    m: Vec<L0aS>,
}
impl Row for M1_L0aSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1_L0prSv {
    #[oxyroot(slicable = "L0prS")]
    m: Vec<L0prS>,
}
impl Row for M1_L0prSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1_L0arSv {
    #[oxyroot(slicable = "L0arS")]
    m: Vec<L0arS>,
}
impl Row for M1_L0arSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1_L0apSv {
    #[oxyroot(slicable = "L0apS")]
    m: Vec<L0apS>,
}
impl Row for M1_L0apSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1_L0aprSv {
    #[oxyroot(slicable = "L0aprS")]
    m: Vec<L0aprS>,
}
impl Row for M1_L0aprSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1_L1Sv {
    #[oxyroot(slicable = "L1S")]
    m: Vec<L1S>,
}
impl Row for M1_L1Sv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1_L1rSv {
    #[oxyroot(slicable = "L1rS")]
    m: Vec<L1rS>,
}
impl Row for M1_L1rSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1_L1pSv {
    #[oxyroot(slicable = "L1pS")]
    m: Vec<L1pS>,
}
impl Row for M1_L1pSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1_L1aSv {
    #[oxyroot(slicable = "L1aS")]
    m: Vec<L1aS>,
}
impl Row for M1_L1aSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1_L1prSv {
    #[oxyroot(slicable = "L1prS")]
    m: Vec<L1prS>,
}
impl Row for M1_L1prSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1_L1arSv {
    #[oxyroot(slicable = "L1arS")]
    m: Vec<L1arS>,
}
impl Row for M1_L1arSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1_L1apSv {
    #[oxyroot(slicable = "L1apS")]
    m: Vec<L1apS>,
}
impl Row for M1_L1apSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1_L1aprSv {
    #[oxyroot(slicable = "L1aprS")]
    m: Vec<L1aprS>,
}
impl Row for M1_L1aprSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1r_L0 {
    #[oxyroot(rename = "rm")]
    m: L0,
}
impl Row for M1r_L0 { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1r_L0r {
    #[oxyroot(rename = "rm")]
    m: L0r,
}
impl Row for M1r_L0r { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1r_L0p {
    #[oxyroot(rename = "rm")]
    m: L0p,
}
impl Row for M1r_L0p { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1r_L0a {
    #[oxyroot(rename = "rm")]
    m: L0a,
}
impl Row for M1r_L0a { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1r_L0pr {
    #[oxyroot(rename = "rm")]
    m: L0pr,
}
impl Row for M1r_L0pr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1r_L0ar {
    #[oxyroot(rename = "rm")]
    m: L0ar,
}
impl Row for M1r_L0ar { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1r_L0ap {
    #[oxyroot(rename = "rm")]
    m: L0ap,
}
impl Row for M1r_L0ap { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1r_L0apr {
    #[oxyroot(rename = "rm")]
    m: L0apr,
}
impl Row for M1r_L0apr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1r_L1 {
    #[oxyroot(rename = "rm")]
    m: L1,
}
impl Row for M1r_L1 { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1r_L1r {
    #[oxyroot(rename = "rm")]
    m: L1r,
}
impl Row for M1r_L1r { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1r_L1p {
    #[oxyroot(rename = "rm")]
    m: L1p,
}
impl Row for M1r_L1p { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1r_L1a {
    #[oxyroot(rename = "rm")]
    m: L1a,
}
impl Row for M1r_L1a { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1r_L1pr {
    #[oxyroot(rename = "rm")]
    m: L1pr,
}
impl Row for M1r_L1pr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1r_L1ar {
    #[oxyroot(rename = "rm")]
    m: L1ar,
}
impl Row for M1r_L1ar { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1r_L1ap {
    #[oxyroot(rename = "rm")]
    m: L1ap,
}
impl Row for M1r_L1ap { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1r_L1apr {
    #[oxyroot(rename = "rm")]
    m: L1apr,
}
impl Row for M1r_L1apr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1r_L0Sv {
    #[oxyroot(rename = "rm", slicable = "L0S")]
    m: Vec<L0S>,
}
impl Row for M1r_L0Sv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1r_L0rSv {
    #[oxyroot(rename = "rm", slicable = "L0rS")]
    m: Vec<L0rS>,
}
impl Row for M1r_L0rSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1r_L0pSv {
    #[oxyroot(rename = "rm", slicable = "L0pS")]
    m: Vec<L0pS>,
}
impl Row for M1r_L0pSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1r_L0aSv {
    #[oxyroot(rename = "rm", slicable = "L0aS")]
    m: Vec<L0aS>,
}
impl Row for M1r_L0aSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1r_L0prSv {
    #[oxyroot(rename = "rm", slicable = "L0prS")]
    m: Vec<L0prS>,
}
impl Row for M1r_L0prSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1r_L0arSv {
    #[oxyroot(rename = "rm", slicable = "L0arS")]
    m: Vec<L0arS>,
}
impl Row for M1r_L0arSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1r_L0apSv {
    #[oxyroot(rename = "rm", slicable = "L0apS")]
    m: Vec<L0apS>,
}
impl Row for M1r_L0apSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1r_L0aprSv {
    #[oxyroot(rename = "rm", slicable = "L0aprS")]
    m: Vec<L0aprS>,
}
impl Row for M1r_L0aprSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1r_L1Sv {
    #[oxyroot(rename = "rm", slicable = "L1S")]
    m: Vec<L1S>,
}
impl Row for M1r_L1Sv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1r_L1rSv {
    #[oxyroot(rename = "rm", slicable = "L1rS")]
    m: Vec<L1rS>,
}
impl Row for M1r_L1rSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1r_L1pSv {
    #[oxyroot(rename = "rm", slicable = "L1pS")]
    m: Vec<L1pS>,
}
impl Row for M1r_L1pSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1r_L1aSv {
    #[oxyroot(rename = "rm", slicable = "L1aS")]
    m: Vec<L1aS>,
}
impl Row for M1r_L1aSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1r_L1prSv {
    #[oxyroot(rename = "rm", slicable = "L1prS")]
    m: Vec<L1prS>,
}
impl Row for M1r_L1prSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1r_L1arSv {
    #[oxyroot(rename = "rm", slicable = "L1arS")]
    m: Vec<L1arS>,
}
impl Row for M1r_L1arSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1r_L1apSv {
    #[oxyroot(rename = "rm", slicable = "L1apS")]
    m: Vec<L1apS>,
}
impl Row for M1r_L1apSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1r_L1aprSv {
    #[oxyroot(rename = "rm", slicable = "L1aprS")]
    m: Vec<L1aprS>,
}
impl Row for M1r_L1aprSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1p_L0 {
    #[oxyroot(branch_prefix = "pm_")]
    m: L0,
}
impl Row for M1p_L0 { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1p_L0r {
    #[oxyroot(branch_prefix = "pm_")]
    m: L0r,
}
impl Row for M1p_L0r { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1p_L0p {
    #[oxyroot(branch_prefix = "pm_")]
    m: L0p,
}
impl Row for M1p_L0p { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1p_L0a {
    #[oxyroot(branch_prefix = "pm_")]
    m: L0a,
}
impl Row for M1p_L0a { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1p_L0pr {
    #[oxyroot(branch_prefix = "pm_")]
    m: L0pr,
}
impl Row for M1p_L0pr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1p_L0ar {
    #[oxyroot(branch_prefix = "pm_")]
    m: L0ar,
}
impl Row for M1p_L0ar { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1p_L0ap {
    #[oxyroot(branch_prefix = "pm_")]
    m: L0ap,
}
impl Row for M1p_L0ap { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1p_L0apr {
    #[oxyroot(branch_prefix = "pm_")]
    m: L0apr,
}
impl Row for M1p_L0apr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1p_L1 {
    #[oxyroot(branch_prefix = "pm_")]
    m: L1,
}
impl Row for M1p_L1 { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1p_L1r {
    #[oxyroot(branch_prefix = "pm_")]
    m: L1r,
}
impl Row for M1p_L1r { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1p_L1p {
    #[oxyroot(branch_prefix = "pm_")]
    m: L1p,
}
impl Row for M1p_L1p { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1p_L1a {
    #[oxyroot(branch_prefix = "pm_")]
    m: L1a,
}
impl Row for M1p_L1a { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1p_L1pr {
    #[oxyroot(branch_prefix = "pm_")]
    m: L1pr,
}
impl Row for M1p_L1pr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1p_L1ar {
    #[oxyroot(branch_prefix = "pm_")]
    m: L1ar,
}
impl Row for M1p_L1ar { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1p_L1ap {
    #[oxyroot(branch_prefix = "pm_")]
    m: L1ap,
}
impl Row for M1p_L1ap { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1p_L1apr {
    #[oxyroot(branch_prefix = "pm_")]
    m: L1apr,
}
impl Row for M1p_L1apr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1p_L0Sv {
    #[oxyroot(branch_prefix = "pm_", slicable = "L0S")]
    m: Vec<L0S>,
}
impl Row for M1p_L0Sv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1p_L0rSv {
    #[oxyroot(branch_prefix = "pm_", slicable = "L0rS")]
    m: Vec<L0rS>,
}
impl Row for M1p_L0rSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1p_L0pSv {
    #[oxyroot(branch_prefix = "pm_", slicable = "L0pS")]
    m: Vec<L0pS>,
}
impl Row for M1p_L0pSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1p_L0aSv {
    #[oxyroot(branch_prefix = "pm_", slicable = "L0aS")]
    m: Vec<L0aS>,
}
impl Row for M1p_L0aSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1p_L0prSv {
    #[oxyroot(branch_prefix = "pm_", slicable = "L0prS")]
    m: Vec<L0prS>,
}
impl Row for M1p_L0prSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1p_L0arSv {
    #[oxyroot(branch_prefix = "pm_", slicable = "L0arS")]
    m: Vec<L0arS>,
}
impl Row for M1p_L0arSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1p_L0apSv {
    #[oxyroot(branch_prefix = "pm_", slicable = "L0apS")]
    m: Vec<L0apS>,
}
impl Row for M1p_L0apSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1p_L0aprSv {
    #[oxyroot(branch_prefix = "pm_", slicable = "L0aprS")]
    m: Vec<L0aprS>,
}
impl Row for M1p_L0aprSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1p_L1Sv {
    #[oxyroot(branch_prefix = "pm_", slicable = "L1S")]
    m: Vec<L1S>,
}
impl Row for M1p_L1Sv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1p_L1rSv {
    #[oxyroot(branch_prefix = "pm_", slicable = "L1rS")]
    m: Vec<L1rS>,
}
impl Row for M1p_L1rSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1p_L1pSv {
    #[oxyroot(branch_prefix = "pm_", slicable = "L1pS")]
    m: Vec<L1pS>,
}
impl Row for M1p_L1pSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1p_L1aSv {
    #[oxyroot(branch_prefix = "pm_", slicable = "L1aS")]
    m: Vec<L1aS>,
}
impl Row for M1p_L1aSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1p_L1prSv {
    #[oxyroot(branch_prefix = "pm_", slicable = "L1prS")]
    m: Vec<L1prS>,
}
impl Row for M1p_L1prSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1p_L1arSv {
    #[oxyroot(branch_prefix = "pm_", slicable = "L1arS")]
    m: Vec<L1arS>,
}
impl Row for M1p_L1arSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1p_L1apSv {
    #[oxyroot(branch_prefix = "pm_", slicable = "L1apS")]
    m: Vec<L1apS>,
}
impl Row for M1p_L1apSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1p_L1aprSv {
    #[oxyroot(branch_prefix = "pm_", slicable = "L1aprS")]
    m: Vec<L1aprS>,
}
impl Row for M1p_L1aprSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1a_L0 {
    #[oxyroot(absolute_name = "xm")]
    m: L0,
}
impl Row for M1a_L0 { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1a_L0r {
    #[oxyroot(absolute_name = "xm")]
    m: L0r,
}
impl Row for M1a_L0r { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1a_L0p {
    #[oxyroot(absolute_name = "xm")]
    m: L0p,
}
impl Row for M1a_L0p { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1a_L0a {
    #[oxyroot(absolute_name = "xm")]
    m: L0a,
}
impl Row for M1a_L0a { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1a_L0pr {
    #[oxyroot(absolute_name = "xm")]
    m: L0pr,
}
impl Row for M1a_L0pr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1a_L0ar {
    #[oxyroot(absolute_name = "xm")]
    m: L0ar,
}
impl Row for M1a_L0ar { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1a_L0ap {
    #[oxyroot(absolute_name = "xm")]
    m: L0ap,
}
impl Row for M1a_L0ap { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1a_L0apr {
    #[oxyroot(absolute_name = "xm")]
    m: L0apr,
}
impl Row for M1a_L0apr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1a_L1 {
    #[oxyroot(absolute_name = "xm")]
    m: L1,
}
impl Row for M1a_L1 { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1a_L1r {
    #[oxyroot(absolute_name = "xm")]
    m: L1r,
}
impl Row for M1a_L1r { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1a_L1p {
    #[oxyroot(absolute_name = "xm")]
    m: L1p,
}
impl Row for M1a_L1p { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1a_L1a {
    #[oxyroot(absolute_name = "xm")]
    m: L1a,
}
impl Row for M1a_L1a { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1a_L1pr {
    #[oxyroot(absolute_name = "xm")]
    m: L1pr,
}
impl Row for M1a_L1pr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1a_L1ar {
    #[oxyroot(absolute_name = "xm")]
    m: L1ar,
}
impl Row for M1a_L1ar { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1a_L1ap {
    #[oxyroot(absolute_name = "xm")]
    m: L1ap,
}
impl Row for M1a_L1ap { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1a_L1apr {
    #[oxyroot(absolute_name = "xm")]
    m: L1apr,
}
impl Row for M1a_L1apr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1a_L0Sv {
    #[oxyroot(absolute_name = "xm", slicable = "L0S")]
    m: Vec<L0S>,
}
impl Row for M1a_L0Sv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1a_L0rSv {
    #[oxyroot(absolute_name = "xm", slicable = "L0rS")]
    m: Vec<L0rS>,
}
impl Row for M1a_L0rSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1a_L0pSv {
    #[oxyroot(absolute_name = "xm", slicable = "L0pS")]
    m: Vec<L0pS>,
}
impl Row for M1a_L0pSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1a_L0aSv {
    #[oxyroot(absolute_name = "xm", slicable = "L0aS")]
    m: Vec<L0aS>,
}
impl Row for M1a_L0aSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1a_L0prSv {
    #[oxyroot(absolute_name = "xm", slicable = "L0prS")]
    m: Vec<L0prS>,
}
impl Row for M1a_L0prSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1a_L0arSv {
    #[oxyroot(absolute_name = "xm", slicable = "L0arS")]
    m: Vec<L0arS>,
}
impl Row for M1a_L0arSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1a_L0apSv {
    #[oxyroot(absolute_name = "xm", slicable = "L0apS")]
    m: Vec<L0apS>,
}
impl Row for M1a_L0apSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1a_L0aprSv {
    #[oxyroot(absolute_name = "xm", slicable = "L0aprS")]
    m: Vec<L0aprS>,
}
impl Row for M1a_L0aprSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1a_L1Sv {
    #[oxyroot(absolute_name = "xm", slicable = "L1S")]
    m: Vec<L1S>,
}
impl Row for M1a_L1Sv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1a_L1rSv {
    #[oxyroot(absolute_name = "xm", slicable = "L1rS")]
    m: Vec<L1rS>,
}
impl Row for M1a_L1rSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1a_L1pSv {
    #[oxyroot(absolute_name = "xm", slicable = "L1pS")]
    m: Vec<L1pS>,
}
impl Row for M1a_L1pSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1a_L1aSv {
    #[oxyroot(absolute_name = "xm", slicable = "L1aS")]
    m: Vec<L1aS>,
}
impl Row for M1a_L1aSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1a_L1prSv {
    #[oxyroot(absolute_name = "xm", slicable = "L1prS")]
    m: Vec<L1prS>,
}
impl Row for M1a_L1prSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1a_L1arSv {
    #[oxyroot(absolute_name = "xm", slicable = "L1arS")]
    m: Vec<L1arS>,
}
impl Row for M1a_L1arSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1a_L1apSv {
    #[oxyroot(absolute_name = "xm", slicable = "L1apS")]
    m: Vec<L1apS>,
}
impl Row for M1a_L1apSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1a_L1aprSv {
    #[oxyroot(absolute_name = "xm", slicable = "L1aprS")]
    m: Vec<L1aprS>,
}
impl Row for M1a_L1aprSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1pr_L0 {
    #[oxyroot(rename = "rm", branch_prefix = "pm_")]
    m: L0,
}
impl Row for M1pr_L0 { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1pr_L0r {
    #[oxyroot(rename = "rm", branch_prefix = "pm_")]
    m: L0r,
}
impl Row for M1pr_L0r { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1pr_L0p {
    #[oxyroot(rename = "rm", branch_prefix = "pm_")]
    m: L0p,
}
impl Row for M1pr_L0p { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1pr_L0a {
    #[oxyroot(rename = "rm", branch_prefix = "pm_")]
    m: L0a,
}
impl Row for M1pr_L0a { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1pr_L0pr {
    #[oxyroot(rename = "rm", branch_prefix = "pm_")]
    m: L0pr,
}
impl Row for M1pr_L0pr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1pr_L0ar {
    #[oxyroot(rename = "rm", branch_prefix = "pm_")]
    m: L0ar,
}
impl Row for M1pr_L0ar { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1pr_L0ap {
    #[oxyroot(rename = "rm", branch_prefix = "pm_")]
    m: L0ap,
}
impl Row for M1pr_L0ap { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1pr_L0apr {
    #[oxyroot(rename = "rm", branch_prefix = "pm_")]
    m: L0apr,
}
impl Row for M1pr_L0apr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1pr_L1 {
    #[oxyroot(rename = "rm", branch_prefix = "pm_")]
    m: L1,
}
impl Row for M1pr_L1 { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1pr_L1r {
    #[oxyroot(rename = "rm", branch_prefix = "pm_")]
    m: L1r,
}
impl Row for M1pr_L1r { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1pr_L1p {
    #[oxyroot(rename = "rm", branch_prefix = "pm_")]
    m: L1p,
}
impl Row for M1pr_L1p { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1pr_L1a {
    #[oxyroot(rename = "rm", branch_prefix = "pm_")]
    m: L1a,
}
impl Row for M1pr_L1a { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1pr_L1pr {
    #[oxyroot(rename = "rm", branch_prefix = "pm_")]
    m: L1pr,
}
impl Row for M1pr_L1pr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1pr_L1ar {
    #[oxyroot(rename = "rm", branch_prefix = "pm_")]
    m: L1ar,
}
impl Row for M1pr_L1ar { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1pr_L1ap {
    #[oxyroot(rename = "rm", branch_prefix = "pm_")]
    m: L1ap,
}
impl Row for M1pr_L1ap { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1pr_L1apr {
    #[oxyroot(rename = "rm", branch_prefix = "pm_")]
    m: L1apr,
}
impl Row for M1pr_L1apr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1pr_L0Sv {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", slicable = "L0S")]
    m: Vec<L0S>,
}
impl Row for M1pr_L0Sv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1pr_L0rSv {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", slicable = "L0rS")]
    m: Vec<L0rS>,
}
impl Row for M1pr_L0rSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1pr_L0pSv {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", slicable = "L0pS")]
    m: Vec<L0pS>,
}
impl Row for M1pr_L0pSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1pr_L0aSv {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", slicable = "L0aS")]
    m: Vec<L0aS>,
}
impl Row for M1pr_L0aSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1pr_L1Sv {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", slicable = "L1S")]
    m: Vec<L1S>,
}
impl Row for M1pr_L1Sv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1pr_L1rSv {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", slicable = "L1rS")]
    m: Vec<L1rS>,
}
impl Row for M1pr_L1rSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1pr_L1pSv {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", slicable = "L1pS")]
    m: Vec<L1pS>,
}
impl Row for M1pr_L1pSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1pr_L1aSv {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", slicable = "L1aS")]
    m: Vec<L1aS>,
}
impl Row for M1pr_L1aSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ar_L0 {
    #[oxyroot(rename = "rm", absolute_name = "xm")]
    m: L0,
}
impl Row for M1ar_L0 { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ar_L0r {
    #[oxyroot(rename = "rm", absolute_name = "xm")]
    m: L0r,
}
impl Row for M1ar_L0r { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ar_L0p {
    #[oxyroot(rename = "rm", absolute_name = "xm")]
    m: L0p,
}
impl Row for M1ar_L0p { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ar_L0a {
    #[oxyroot(rename = "rm", absolute_name = "xm")]
    m: L0a,
}
impl Row for M1ar_L0a { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ar_L0pr {
    #[oxyroot(rename = "rm", absolute_name = "xm")]
    m: L0pr,
}
impl Row for M1ar_L0pr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ar_L0ar {
    #[oxyroot(rename = "rm", absolute_name = "xm")]
    m: L0ar,
}
impl Row for M1ar_L0ar { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ar_L0ap {
    #[oxyroot(rename = "rm", absolute_name = "xm")]
    m: L0ap,
}
impl Row for M1ar_L0ap { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ar_L0apr {
    #[oxyroot(rename = "rm", absolute_name = "xm")]
    m: L0apr,
}
impl Row for M1ar_L0apr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ar_L1 {
    #[oxyroot(rename = "rm", absolute_name = "xm")]
    m: L1,
}
impl Row for M1ar_L1 { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ar_L1r {
    #[oxyroot(rename = "rm", absolute_name = "xm")]
    m: L1r,
}
impl Row for M1ar_L1r { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ar_L1p {
    #[oxyroot(rename = "rm", absolute_name = "xm")]
    m: L1p,
}
impl Row for M1ar_L1p { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ar_L1a {
    #[oxyroot(rename = "rm", absolute_name = "xm")]
    m: L1a,
}
impl Row for M1ar_L1a { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ar_L1pr {
    #[oxyroot(rename = "rm", absolute_name = "xm")]
    m: L1pr,
}
impl Row for M1ar_L1pr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ar_L1ar {
    #[oxyroot(rename = "rm", absolute_name = "xm")]
    m: L1ar,
}
impl Row for M1ar_L1ar { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ar_L1ap {
    #[oxyroot(rename = "rm", absolute_name = "xm")]
    m: L1ap,
}
impl Row for M1ar_L1ap { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ar_L1apr {
    #[oxyroot(rename = "rm", absolute_name = "xm")]
    m: L1apr,
}
impl Row for M1ar_L1apr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ar_L0Sv {
    #[oxyroot(rename = "rm", absolute_name = "xm", slicable = "L0S")]
    m: Vec<L0S>,
}
impl Row for M1ar_L0Sv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ar_L0rSv {
    #[oxyroot(rename = "rm", absolute_name = "xm", slicable = "L0rS")]
    m: Vec<L0rS>,
}
impl Row for M1ar_L0rSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ar_L0pSv {
    #[oxyroot(rename = "rm", absolute_name = "xm", slicable = "L0pS")]
    m: Vec<L0pS>,
}
impl Row for M1ar_L0pSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ar_L0aSv {
    #[oxyroot(rename = "rm", absolute_name = "xm", slicable = "L0aS")]
    m: Vec<L0aS>,
}
impl Row for M1ar_L0aSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ar_L1Sv {
    #[oxyroot(rename = "rm", absolute_name = "xm", slicable = "L1S")]
    m: Vec<L1S>,
}
impl Row for M1ar_L1Sv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ar_L1rSv {
    #[oxyroot(rename = "rm", absolute_name = "xm", slicable = "L1rS")]
    m: Vec<L1rS>,
}
impl Row for M1ar_L1rSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ar_L1pSv {
    #[oxyroot(rename = "rm", absolute_name = "xm", slicable = "L1pS")]
    m: Vec<L1pS>,
}
impl Row for M1ar_L1pSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ar_L1aSv {
    #[oxyroot(rename = "rm", absolute_name = "xm", slicable = "L1aS")]
    m: Vec<L1aS>,
}
impl Row for M1ar_L1aSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ap_L0 {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm")]
    m: L0,
}
impl Row for M1ap_L0 { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ap_L0r {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm")]
    m: L0r,
}
impl Row for M1ap_L0r { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ap_L0p {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm")]
    m: L0p,
}
impl Row for M1ap_L0p { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ap_L0a {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm")]
    m: L0a,
}
impl Row for M1ap_L0a { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ap_L0pr {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm")]
    m: L0pr,
}
impl Row for M1ap_L0pr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ap_L0ar {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm")]
    m: L0ar,
}
impl Row for M1ap_L0ar { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ap_L0ap {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm")]
    m: L0ap,
}
impl Row for M1ap_L0ap { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ap_L0apr {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm")]
    m: L0apr,
}
impl Row for M1ap_L0apr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ap_L1 {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm")]
    m: L1,
}
impl Row for M1ap_L1 { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ap_L1r {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm")]
    m: L1r,
}
impl Row for M1ap_L1r { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ap_L1p {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm")]
    m: L1p,
}
impl Row for M1ap_L1p { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ap_L1a {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm")]
    m: L1a,
}
impl Row for M1ap_L1a { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ap_L1pr {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm")]
    m: L1pr,
}
impl Row for M1ap_L1pr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ap_L1ar {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm")]
    m: L1ar,
}
impl Row for M1ap_L1ar { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ap_L1ap {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm")]
    m: L1ap,
}
impl Row for M1ap_L1ap { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ap_L1apr {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm")]
    m: L1apr,
}
impl Row for M1ap_L1apr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ap_L0Sv {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm", slicable = "L0S")]
    m: Vec<L0S>,
}
impl Row for M1ap_L0Sv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ap_L0rSv {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm", slicable = "L0rS")]
    m: Vec<L0rS>,
}
impl Row for M1ap_L0rSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ap_L0pSv {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm", slicable = "L0pS")]
    m: Vec<L0pS>,
}
impl Row for M1ap_L0pSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ap_L0aSv {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm", slicable = "L0aS")]
    m: Vec<L0aS>,
}
impl Row for M1ap_L0aSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ap_L1Sv {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm", slicable = "L1S")]
    m: Vec<L1S>,
}
impl Row for M1ap_L1Sv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ap_L1rSv {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm", slicable = "L1rS")]
    m: Vec<L1rS>,
}
impl Row for M1ap_L1rSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ap_L1pSv {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm", slicable = "L1pS")]
    m: Vec<L1pS>,
}
impl Row for M1ap_L1pSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1ap_L1aSv {
    #[oxyroot(branch_prefix = "pm_", absolute_name = "xm", slicable = "L1aS")]
    m: Vec<L1aS>,
}
impl Row for M1ap_L1aSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1apr_L0 {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm")]
    m: L0,
}
impl Row for M1apr_L0 { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1apr_L0r {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm")]
    m: L0r,
}
impl Row for M1apr_L0r { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1apr_L0p {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm")]
    m: L0p,
}
impl Row for M1apr_L0p { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1apr_L0a {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm")]
    m: L0a,
}
impl Row for M1apr_L0a { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1apr_L0pr {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm")]
    m: L0pr,
}
impl Row for M1apr_L0pr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1apr_L0ar {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm")]
    m: L0ar,
}
impl Row for M1apr_L0ar { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1apr_L0ap {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm")]
    m: L0ap,
}
impl Row for M1apr_L0ap { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1apr_L0apr {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm")]
    m: L0apr,
}
impl Row for M1apr_L0apr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1apr_L1 {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm")]
    m: L1,
}
impl Row for M1apr_L1 { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1apr_L1r {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm")]
    m: L1r,
}
impl Row for M1apr_L1r { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1apr_L1p {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm")]
    m: L1p,
}
impl Row for M1apr_L1p { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1apr_L1a {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm")]
    m: L1a,
}
impl Row for M1apr_L1a { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1apr_L1pr {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm")]
    m: L1pr,
}
impl Row for M1apr_L1pr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1apr_L1ar {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm")]
    m: L1ar,
}
impl Row for M1apr_L1ar { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1apr_L1ap {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm")]
    m: L1ap,
}
impl Row for M1apr_L1ap { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1apr_L1apr {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm")]
    m: L1apr,
}
impl Row for M1apr_L1apr { fn row(self, o: &mut Vec<V>) { self.m.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1apr_L0Sv {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm", slicable = "L0S")]
    m: Vec<L0S>,
}
impl Row for M1apr_L0Sv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1apr_L0rSv {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm", slicable = "L0rS")]
    m: Vec<L0rS>,
}
impl Row for M1apr_L0rSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1apr_L0pSv {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm", slicable = "L0pS")]
    m: Vec<L0pS>,
}
impl Row for M1apr_L0pSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1apr_L0aSv {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm", slicable = "L0aS")]
    m: Vec<L0aS>,
}
impl Row for M1apr_L0aSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1apr_L1Sv {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm", slicable = "L1S")]
    m: Vec<L1S>,
}
impl Row for M1apr_L1Sv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1apr_L1rSv {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm", slicable = "L1rS")]
    m: Vec<L1rS>,
}
impl Row for M1apr_L1rSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1apr_L1pSv {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm", slicable = "L1pS")]
    m: Vec<L1pS>,
}
impl Row for M1apr_L1pSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gm_")]
pub struct M1apr_L1aSv {
    #[oxyroot(rename = "rm", branch_prefix = "pm_", absolute_name = "xm", slicable = "L1aS")]
    m: Vec<L1aS>,
}
impl Row for M1apr_L1aSv { fn row(self, o: &mut Vec<V>) { let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v)) } }
#[derive(ReadFromTree)]
pub struct T0_M0_L0 {
    t: M0_L0,
}
impl Row for T0_M0_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M0_L0r {
    t: M0_L0r,
}
impl Row for T0_M0_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M0_L0p {
    t: M0_L0p,
}
impl Row for T0_M0_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M0_L0a {
    t: M0_L0a,
}
impl Row for T0_M0_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M0_L1 {
    t: M0_L1,
}
impl Row for T0_M0_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M0_L1r {
    t: M0_L1r,
}
impl Row for T0_M0_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M0_L1p {
    t: M0_L1p,
}
impl Row for T0_M0_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M0_L1a {
    t: M0_L1a,
}
impl Row for T0_M0_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M0r_L0 {
    t: M0r_L0,
}
impl Row for T0_M0r_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M0r_L0r {
    t: M0r_L0r,
}
impl Row for T0_M0r_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M0r_L0p {
    t: M0r_L0p,
}
impl Row for T0_M0r_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M0r_L0a {
    t: M0r_L0a,
}
impl Row for T0_M0r_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M0r_L1 {
    t: M0r_L1,
}
impl Row for T0_M0r_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M0r_L1r {
    t: M0r_L1r,
}
impl Row for T0_M0r_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M0r_L1p {
    t: M0r_L1p,
}
impl Row for T0_M0r_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M0r_L1a {
    t: M0r_L1a,
}
impl Row for T0_M0r_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M0p_L0 {
    t: M0p_L0,
}
impl Row for T0_M0p_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M0p_L0r {
    t: M0p_L0r,
}
impl Row for T0_M0p_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M0p_L0p {
    t: M0p_L0p,
}
impl Row for T0_M0p_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M0p_L0a {
    t: M0p_L0a,
}
impl Row for T0_M0p_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M0p_L1 {
    t: M0p_L1,
}
impl Row for T0_M0p_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M0p_L1r {
    t: M0p_L1r,
}
impl Row for T0_M0p_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M0p_L1p {
    t: M0p_L1p,
}
impl Row for T0_M0p_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M0p_L1a {
    t: M0p_L1a,
}
impl Row for T0_M0p_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M0a_L0 {
    t: M0a_L0,
}
impl Row for T0_M0a_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M0a_L0r {
    t: M0a_L0r,
}
impl Row for T0_M0a_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M0a_L0p {
    t: M0a_L0p,
}
impl Row for T0_M0a_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M0a_L0a {
    t: M0a_L0a,
}
impl Row for T0_M0a_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M0a_L1 {
    t: M0a_L1,
}
impl Row for T0_M0a_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M0a_L1r {
    t: M0a_L1r,
}
impl Row for T0_M0a_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M0a_L1p {
    t: M0a_L1p,
}
impl Row for T0_M0a_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M0a_L1a {
    t: M0a_L1a,
}
impl Row for T0_M0a_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M1_L0 {
    t: M1_L0,
}
impl Row for T0_M1_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M1_L0r {
    t: M1_L0r,
}
impl Row for T0_M1_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M1_L0p {
    t: M1_L0p,
}
impl Row for T0_M1_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M1_L0a {
    t: M1_L0a,
}
impl Row for T0_M1_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M1_L1 {
    t: M1_L1,
}
impl Row for T0_M1_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M1_L1r {
    t: M1_L1r,
}
impl Row for T0_M1_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M1_L1p {
    t: M1_L1p,
}
impl Row for T0_M1_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M1_L1a {
    t: M1_L1a,
}
impl Row for T0_M1_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M1r_L0 {
    t: M1r_L0,
}
impl Row for T0_M1r_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M1r_L0r {
    t: M1r_L0r,
}
impl Row for T0_M1r_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M1r_L0p {
    t: M1r_L0p,
}
impl Row for T0_M1r_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M1r_L0a {
    t: M1r_L0a,
}
impl Row for T0_M1r_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M1r_L1 {
    t: M1r_L1,
}
impl Row for T0_M1r_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M1r_L1r {
    t: M1r_L1r,
}
impl Row for T0_M1r_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M1r_L1p {
    t: M1r_L1p,
}
impl Row for T0_M1r_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M1r_L1a {
    t: M1r_L1a,
}
impl Row for T0_M1r_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M1p_L0 {
    t: M1p_L0,
}
impl Row for T0_M1p_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M1p_L0r {
    t: M1p_L0r,
}
impl Row for T0_M1p_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M1p_L0p {
    t: M1p_L0p,
}
impl Row for T0_M1p_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M1p_L0a {
    t: M1p_L0a,
}
impl Row for T0_M1p_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M1p_L1 {
    t: M1p_L1,
}
impl Row for T0_M1p_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M1p_L1r {
    t: M1p_L1r,
}
impl Row for T0_M1p_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M1p_L1p {
    t: M1p_L1p,
}
impl Row for T0_M1p_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M1p_L1a {
    t: M1p_L1a,
}
impl Row for T0_M1p_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M1a_L0 {
    t: M1a_L0,
}
impl Row for T0_M1a_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M1a_L0r {
    t: M1a_L0r,
}
impl Row for T0_M1a_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M1a_L0p {
    t: M1a_L0p,
}
impl Row for T0_M1a_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M1a_L0a {
    t: M1a_L0a,
}
impl Row for T0_M1a_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M1a_L1 {
    t: M1a_L1,
}
impl Row for T0_M1a_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M1a_L1r {
    t: M1a_L1r,
}
impl Row for T0_M1a_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M1a_L1p {
    t: M1a_L1p,
}
impl Row for T0_M1a_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0_M1a_L1a {
    t: M1a_L1a,
}
impl Row for T0_M1a_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M0_L0 {
    #[oxyroot(rename = "rt")]
    t: M0_L0,
}
impl Row for T0r_M0_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M0_L0r {
    #[oxyroot(rename = "rt")]
    t: M0_L0r,
}
impl Row for T0r_M0_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M0_L0p {
    #[oxyroot(rename = "rt")]
    t: M0_L0p,
}
impl Row for T0r_M0_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M0_L0a {
    #[oxyroot(rename = "rt")]
    t: M0_L0a,
}
impl Row for T0r_M0_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M0_L1 {
    #[oxyroot(rename = "rt")]
    t: M0_L1,
}
impl Row for T0r_M0_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M0_L1r {
    #[oxyroot(rename = "rt")]
    t: M0_L1r,
}
impl Row for T0r_M0_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M0_L1p {
    #[oxyroot(rename = "rt")]
    t: M0_L1p,
}
impl Row for T0r_M0_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M0_L1a {
    #[oxyroot(rename = "rt")]
    t: M0_L1a,
}
impl Row for T0r_M0_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M0r_L0 {
    #[oxyroot(rename = "rt")]
    t: M0r_L0,
}
impl Row for T0r_M0r_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M0r_L0r {
    #[oxyroot(rename = "rt")]
    t: M0r_L0r,
}
impl Row for T0r_M0r_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M0r_L0p {
    #[oxyroot(rename = "rt")]
    t: M0r_L0p,
}
impl Row for T0r_M0r_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M0r_L0a {
    #[oxyroot(rename = "rt")]
    t: M0r_L0a,
}
impl Row for T0r_M0r_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M0r_L1 {
    #[oxyroot(rename = "rt")]
    t: M0r_L1,
}
impl Row for T0r_M0r_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M0r_L1r {
    #[oxyroot(rename = "rt")]
    t: M0r_L1r,
}
impl Row for T0r_M0r_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M0r_L1p {
    #[oxyroot(rename = "rt")]
    t: M0r_L1p,
}
impl Row for T0r_M0r_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M0r_L1a {
    #[oxyroot(rename = "rt")]
    t: M0r_L1a,
}
impl Row for T0r_M0r_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M0p_L0 {
    #[oxyroot(rename = "rt")]
    t: M0p_L0,
}
impl Row for T0r_M0p_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M0p_L0r {
    #[oxyroot(rename = "rt")]
    t: M0p_L0r,
}
impl Row for T0r_M0p_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M0p_L0p {
    #[oxyroot(rename = "rt")]
    t: M0p_L0p,
}
impl Row for T0r_M0p_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M0p_L0a {
    #[oxyroot(rename = "rt")]
    t: M0p_L0a,
}
impl Row for T0r_M0p_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M0p_L1 {
    #[oxyroot(rename = "rt")]
    t: M0p_L1,
}
impl Row for T0r_M0p_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M0p_L1r {
    #[oxyroot(rename = "rt")]
    t: M0p_L1r,
}
impl Row for T0r_M0p_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M0p_L1p {
    #[oxyroot(rename = "rt")]
    t: M0p_L1p,
}
impl Row for T0r_M0p_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M0p_L1a {
    #[oxyroot(rename = "rt")]
    t: M0p_L1a,
}
impl Row for T0r_M0p_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M0a_L0 {
    #[oxyroot(rename = "rt")]
    t: M0a_L0,
}
impl Row for T0r_M0a_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M0a_L0r {
    #[oxyroot(rename = "rt")]
    t: M0a_L0r,
}
impl Row for T0r_M0a_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M0a_L0p {
    #[oxyroot(rename = "rt")]
    t: M0a_L0p,
}
impl Row for T0r_M0a_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M0a_L0a {
    #[oxyroot(rename = "rt")]
    t: M0a_L0a,
}
impl Row for T0r_M0a_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M0a_L1 {
    #[oxyroot(rename = "rt")]
    t: M0a_L1,
}
impl Row for T0r_M0a_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M0a_L1r {
    #[oxyroot(rename = "rt")]
    t: M0a_L1r,
}
impl Row for T0r_M0a_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M0a_L1p {
    #[oxyroot(rename = "rt")]
    t: M0a_L1p,
}
impl Row for T0r_M0a_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M0a_L1a {
    #[oxyroot(rename = "rt")]
    t: M0a_L1a,
}
impl Row for T0r_M0a_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M1_L0 {
    #[oxyroot(rename = "rt")]
    t: M1_L0,
}
impl Row for T0r_M1_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M1_L0r {
    #[oxyroot(rename = "rt")]
    t: M1_L0r,
}
impl Row for T0r_M1_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M1_L0p {
    #[oxyroot(rename = "rt")]
    t: M1_L0p,
}
impl Row for T0r_M1_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M1_L0a {
    #[oxyroot(rename = "rt")]
    t: M1_L0a,
}
impl Row for T0r_M1_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M1_L1 {
    #[oxyroot(rename = "rt")]
    t: M1_L1,
}
impl Row for T0r_M1_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M1_L1r {
    #[oxyroot(rename = "rt")]
    t: M1_L1r,
}
impl Row for T0r_M1_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M1_L1p {
    #[oxyroot(rename = "rt")]
    t: M1_L1p,
}
impl Row for T0r_M1_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M1_L1a {
    #[oxyroot(rename = "rt")]
    t: M1_L1a,
}
impl Row for T0r_M1_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M1r_L0 {
    #[oxyroot(rename = "rt")]
    t: M1r_L0,
}
impl Row for T0r_M1r_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M1r_L0r {
    #[oxyroot(rename = "rt")]
    t: M1r_L0r,
}
impl Row for T0r_M1r_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M1r_L0p {
    #[oxyroot(rename = "rt")]
    t: M1r_L0p,
}
impl Row for T0r_M1r_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M1r_L0a {
    #[oxyroot(rename = "rt")]
    t: M1r_L0a,
}
impl Row for T0r_M1r_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M1r_L1 {
    #[oxyroot(rename = "rt")]
    t: M1r_L1,
}
impl Row for T0r_M1r_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M1r_L1r {
    #[oxyroot(rename = "rt")]
    t: M1r_L1r,
}
impl Row for T0r_M1r_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M1r_L1p {
    #[oxyroot(rename = "rt")]
    t: M1r_L1p,
}
impl Row for T0r_M1r_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M1r_L1a {
    #[oxyroot(rename = "rt")]
    t: M1r_L1a,
}
impl Row for T0r_M1r_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M1p_L0 {
    #[oxyroot(rename = "rt")]
    t: M1p_L0,
}
impl Row for T0r_M1p_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M1p_L0r {
    #[oxyroot(rename = "rt")]
    t: M1p_L0r,
}
impl Row for T0r_M1p_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M1p_L0p {
    #[oxyroot(rename = "rt")]
    t: M1p_L0p,
}
impl Row for T0r_M1p_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M1p_L0a {
    #[oxyroot(rename = "rt")]
    t: M1p_L0a,
}
impl Row for T0r_M1p_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M1p_L1 {
    #[oxyroot(rename = "rt")]
    t: M1p_L1,
}
impl Row for T0r_M1p_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M1p_L1r {
    #[oxyroot(rename = "rt")]
    t: M1p_L1r,
}
impl Row for T0r_M1p_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M1p_L1p {
    #[oxyroot(rename = "rt")]
    t: M1p_L1p,
}
impl Row for T0r_M1p_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M1p_L1a {
    #[oxyroot(rename = "rt")]
    t: M1p_L1a,
}
impl Row for T0r_M1p_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M1a_L0 {
    #[oxyroot(rename = "rt")]
    t: M1a_L0,
}
impl Row for T0r_M1a_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M1a_L0r {
    #[oxyroot(rename = "rt")]
    t: M1a_L0r,
}
impl Row for T0r_M1a_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M1a_L0p {
    #[oxyroot(rename = "rt")]
    t: M1a_L0p,
}
impl Row for T0r_M1a_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M1a_L0a {
    #[oxyroot(rename = "rt")]
    t: M1a_L0a,
}
impl Row for T0r_M1a_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M1a_L1 {
    #[oxyroot(rename = "rt")]
    t: M1a_L1,
}
impl Row for T0r_M1a_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M1a_L1r {
    #[oxyroot(rename = "rt")]
    t: M1a_L1r,
}
impl Row for T0r_M1a_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M1a_L1p {
    #[oxyroot(rename = "rt")]
    t: M1a_L1p,
}
impl Row for T0r_M1a_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0r_M1a_L1a {
    #[oxyroot(rename = "rt")]
    t: M1a_L1a,
}
impl Row for T0r_M1a_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M0_L0 {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0_L0,
}
impl Row for T0p_M0_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M0_L0r {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0_L0r,
}
impl Row for T0p_M0_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M0_L0p {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0_L0p,
}
impl Row for T0p_M0_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M0_L0a {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0_L0a,
}
impl Row for T0p_M0_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M0_L1 {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0_L1,
}
impl Row for T0p_M0_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M0_L1r {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0_L1r,
}
impl Row for T0p_M0_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M0_L1p {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0_L1p,
}
impl Row for T0p_M0_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M0_L1a {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0_L1a,
}
impl Row for T0p_M0_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M0r_L0 {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0r_L0,
}
impl Row for T0p_M0r_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M0r_L0r {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0r_L0r,
}
impl Row for T0p_M0r_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M0r_L0p {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0r_L0p,
}
impl Row for T0p_M0r_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M0r_L0a {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0r_L0a,
}
impl Row for T0p_M0r_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M0r_L1 {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0r_L1,
}
impl Row for T0p_M0r_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M0r_L1r {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0r_L1r,
}
impl Row for T0p_M0r_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M0r_L1p {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0r_L1p,
}
impl Row for T0p_M0r_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M0r_L1a {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0r_L1a,
}
impl Row for T0p_M0r_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M0p_L0 {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0p_L0,
}
impl Row for T0p_M0p_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M0p_L0r {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0p_L0r,
}
impl Row for T0p_M0p_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M0p_L0p {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0p_L0p,
}
impl Row for T0p_M0p_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M0p_L0a {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0p_L0a,
}
impl Row for T0p_M0p_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M0p_L1 {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0p_L1,
}
impl Row for T0p_M0p_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M0p_L1r {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0p_L1r,
}
impl Row for T0p_M0p_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M0p_L1p {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0p_L1p,
}
impl Row for T0p_M0p_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M0p_L1a {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0p_L1a,
}
impl Row for T0p_M0p_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M0a_L0 {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0a_L0,
}
impl Row for T0p_M0a_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M0a_L0r {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0a_L0r,
}
impl Row for T0p_M0a_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M0a_L0p {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0a_L0p,
}
impl Row for T0p_M0a_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M0a_L0a {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0a_L0a,
}
impl Row for T0p_M0a_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M0a_L1 {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0a_L1,
}
impl Row for T0p_M0a_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M0a_L1r {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0a_L1r,
}
impl Row for T0p_M0a_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M0a_L1p {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0a_L1p,
}
impl Row for T0p_M0a_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M0a_L1a {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0a_L1a,
}
impl Row for T0p_M0a_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M1_L0 {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1_L0,
}
impl Row for T0p_M1_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M1_L0r {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1_L0r,
}
impl Row for T0p_M1_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M1_L0p {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1_L0p,
}
impl Row for T0p_M1_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M1_L0a {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1_L0a,
}
impl Row for T0p_M1_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M1_L1 {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1_L1,
}
impl Row for T0p_M1_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M1_L1r {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1_L1r,
}
impl Row for T0p_M1_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M1_L1p {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1_L1p,
}
impl Row for T0p_M1_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M1_L1a {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1_L1a,
}
impl Row for T0p_M1_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M1r_L0 {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1r_L0,
}
impl Row for T0p_M1r_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M1r_L0r {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1r_L0r,
}
impl Row for T0p_M1r_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M1r_L0p {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1r_L0p,
}
impl Row for T0p_M1r_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M1r_L0a {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1r_L0a,
}
impl Row for T0p_M1r_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M1r_L1 {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1r_L1,
}
impl Row for T0p_M1r_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M1r_L1r {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1r_L1r,
}
impl Row for T0p_M1r_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M1r_L1p {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1r_L1p,
}
impl Row for T0p_M1r_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M1r_L1a {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1r_L1a,
}
impl Row for T0p_M1r_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M1p_L0 {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1p_L0,
}
impl Row for T0p_M1p_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M1p_L0r {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1p_L0r,
}
impl Row for T0p_M1p_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M1p_L0p {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1p_L0p,
}
impl Row for T0p_M1p_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M1p_L0a {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1p_L0a,
}
impl Row for T0p_M1p_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M1p_L1 {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1p_L1,
}
impl Row for T0p_M1p_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M1p_L1r {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1p_L1r,
}
impl Row for T0p_M1p_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M1p_L1p {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1p_L1p,
}
impl Row for T0p_M1p_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M1p_L1a {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1p_L1a,
}
impl Row for T0p_M1p_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M1a_L0 {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1a_L0,
}
impl Row for T0p_M1a_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M1a_L0r {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1a_L0r,
}
impl Row for T0p_M1a_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M1a_L0p {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1a_L0p,
}
impl Row for T0p_M1a_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M1a_L0a {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1a_L0a,
}
impl Row for T0p_M1a_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M1a_L1 {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1a_L1,
}
impl Row for T0p_M1a_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M1a_L1r {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1a_L1r,
}
impl Row for T0p_M1a_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M1a_L1p {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1a_L1p,
}
impl Row for T0p_M1a_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0p_M1a_L1a {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1a_L1a,
}
impl Row for T0p_M1a_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M0_L0 {
    #[oxyroot(absolute_name = "xt")]
    t: M0_L0,
}
impl Row for T0a_M0_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M0_L0r {
    #[oxyroot(absolute_name = "xt")]
    t: M0_L0r,
}
impl Row for T0a_M0_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M0_L0p {
    #[oxyroot(absolute_name = "xt")]
    t: M0_L0p,
}
impl Row for T0a_M0_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M0_L0a {
    #[oxyroot(absolute_name = "xt")]
    t: M0_L0a,
}
impl Row for T0a_M0_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M0_L1 {
    #[oxyroot(absolute_name = "xt")]
    t: M0_L1,
}
impl Row for T0a_M0_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M0_L1r {
    #[oxyroot(absolute_name = "xt")]
    t: M0_L1r,
}
impl Row for T0a_M0_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M0_L1p {
    #[oxyroot(absolute_name = "xt")]
    t: M0_L1p,
}
impl Row for T0a_M0_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M0_L1a {
    #[oxyroot(absolute_name = "xt")]
    t: M0_L1a,
}
impl Row for T0a_M0_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M0r_L0 {
    #[oxyroot(absolute_name = "xt")]
    t: M0r_L0,
}
impl Row for T0a_M0r_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M0r_L0r {
    #[oxyroot(absolute_name = "xt")]
    t: M0r_L0r,
}
impl Row for T0a_M0r_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M0r_L0p {
    #[oxyroot(absolute_name = "xt")]
    t: M0r_L0p,
}
impl Row for T0a_M0r_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M0r_L0a {
    #[oxyroot(absolute_name = "xt")]
    t: M0r_L0a,
}
impl Row for T0a_M0r_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M0r_L1 {
    #[oxyroot(absolute_name = "xt")]
    t: M0r_L1,
}
impl Row for T0a_M0r_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M0r_L1r {
    #[oxyroot(absolute_name = "xt")]
    t: M0r_L1r,
}
impl Row for T0a_M0r_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M0r_L1p {
    #[oxyroot(absolute_name = "xt")]
    t: M0r_L1p,
}
impl Row for T0a_M0r_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M0r_L1a {
    #[oxyroot(absolute_name = "xt")]
    t: M0r_L1a,
}
impl Row for T0a_M0r_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M0p_L0 {
    #[oxyroot(absolute_name = "xt")]
    t: M0p_L0,
}
impl Row for T0a_M0p_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M0p_L0r {
    #[oxyroot(absolute_name = "xt")]
    t: M0p_L0r,
}
impl Row for T0a_M0p_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M0p_L0p {
    #[oxyroot(absolute_name = "xt")]
    t: M0p_L0p,
}
impl Row for T0a_M0p_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M0p_L0a {
    #[oxyroot(absolute_name = "xt")]
    t: M0p_L0a,
}
impl Row for T0a_M0p_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M0p_L1 {
    #[oxyroot(absolute_name = "xt")]
    t: M0p_L1,
}
impl Row for T0a_M0p_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M0p_L1r {
    #[oxyroot(absolute_name = "xt")]
    t: M0p_L1r,
}
impl Row for T0a_M0p_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M0p_L1p {
    #[oxyroot(absolute_name = "xt")]
    t: M0p_L1p,
}
impl Row for T0a_M0p_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M0p_L1a {
    #[oxyroot(absolute_name = "xt")]
    t: M0p_L1a,
}
impl Row for T0a_M0p_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M0a_L0 {
    #[oxyroot(absolute_name = "xt")]
    t: M0a_L0,
}
impl Row for T0a_M0a_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M0a_L0r {
    #[oxyroot(absolute_name = "xt")]
    t: M0a_L0r,
}
impl Row for T0a_M0a_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M0a_L0p {
    #[oxyroot(absolute_name = "xt")]
    t: M0a_L0p,
}
impl Row for T0a_M0a_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M0a_L0a {
    #[oxyroot(absolute_name = "xt")]
    t: M0a_L0a,
}
impl Row for T0a_M0a_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M0a_L1 {
    #[oxyroot(absolute_name = "xt")]
    t: M0a_L1,
}
impl Row for T0a_M0a_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M0a_L1r {
    #[oxyroot(absolute_name = "xt")]
    t: M0a_L1r,
}
impl Row for T0a_M0a_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M0a_L1p {
    #[oxyroot(absolute_name = "xt")]
    t: M0a_L1p,
}
impl Row for T0a_M0a_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M0a_L1a {
    #[oxyroot(absolute_name = "xt")]
    t: M0a_L1a,
}
impl Row for T0a_M0a_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M1_L0 {
    #[oxyroot(absolute_name = "xt")]
    t: M1_L0,
}
impl Row for T0a_M1_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M1_L0r {
    #[oxyroot(absolute_name = "xt")]
    t: M1_L0r,
}
impl Row for T0a_M1_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M1_L0p {
    #[oxyroot(absolute_name = "xt")]
    t: M1_L0p,
}
impl Row for T0a_M1_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M1_L0a {
    #[oxyroot(absolute_name = "xt")]
    t: M1_L0a,
}
impl Row for T0a_M1_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M1_L1 {
    #[oxyroot(absolute_name = "xt")]
    t: M1_L1,
}
impl Row for T0a_M1_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M1_L1r {
    #[oxyroot(absolute_name = "xt")]
    t: M1_L1r,
}
impl Row for T0a_M1_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M1_L1p {
    #[oxyroot(absolute_name = "xt")]
    t: M1_L1p,
}
impl Row for T0a_M1_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M1_L1a {
    #[oxyroot(absolute_name = "xt")]
    t: M1_L1a,
}
impl Row for T0a_M1_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M1r_L0 {
    #[oxyroot(absolute_name = "xt")]
    t: M1r_L0,
}
impl Row for T0a_M1r_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M1r_L0r {
    #[oxyroot(absolute_name = "xt")]
    t: M1r_L0r,
}
impl Row for T0a_M1r_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M1r_L0p {
    #[oxyroot(absolute_name = "xt")]
    t: M1r_L0p,
}
impl Row for T0a_M1r_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M1r_L0a {
    #[oxyroot(absolute_name = "xt")]
    t: M1r_L0a,
}
impl Row for T0a_M1r_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M1r_L1 {
    #[oxyroot(absolute_name = "xt")]
    t: M1r_L1,
}
impl Row for T0a_M1r_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M1r_L1r {
    #[oxyroot(absolute_name = "xt")]
    t: M1r_L1r,
}
impl Row for T0a_M1r_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M1r_L1p {
    #[oxyroot(absolute_name = "xt")]
    t: M1r_L1p,
}
impl Row for T0a_M1r_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M1r_L1a {
    #[oxyroot(absolute_name = "xt")]
    t: M1r_L1a,
}
impl Row for T0a_M1r_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M1p_L0 {
    #[oxyroot(absolute_name = "xt")]
    t: M1p_L0,
}
impl Row for T0a_M1p_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M1p_L0r {
    #[oxyroot(absolute_name = "xt")]
    t: M1p_L0r,
}
impl Row for T0a_M1p_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M1p_L0p {
    #[oxyroot(absolute_name = "xt")]
    t: M1p_L0p,
}
impl Row for T0a_M1p_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M1p_L0a {
    #[oxyroot(absolute_name = "xt")]
    t: M1p_L0a,
}
impl Row for T0a_M1p_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M1p_L1 {
    #[oxyroot(absolute_name = "xt")]
    t: M1p_L1,
}
impl Row for T0a_M1p_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M1p_L1r {
    #[oxyroot(absolute_name = "xt")]
    t: M1p_L1r,
}
impl Row for T0a_M1p_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M1p_L1p {
    #[oxyroot(absolute_name = "xt")]
    t: M1p_L1p,
}
impl Row for T0a_M1p_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M1p_L1a {
    #[oxyroot(absolute_name = "xt")]
    t: M1p_L1a,
}
impl Row for T0a_M1p_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M1a_L0 {
    #[oxyroot(absolute_name = "xt")]
    t: M1a_L0,
}
impl Row for T0a_M1a_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M1a_L0r {
    #[oxyroot(absolute_name = "xt")]
    t: M1a_L0r,
}
impl Row for T0a_M1a_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M1a_L0p {
    #[oxyroot(absolute_name = "xt")]
    t: M1a_L0p,
}
impl Row for T0a_M1a_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M1a_L0a {
    #[oxyroot(absolute_name = "xt")]
    t: M1a_L0a,
}
impl Row for T0a_M1a_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M1a_L1 {
    #[oxyroot(absolute_name = "xt")]
    t: M1a_L1,
}
impl Row for T0a_M1a_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M1a_L1r {
    #[oxyroot(absolute_name = "xt")]
    t: M1a_L1r,
}
impl Row for T0a_M1a_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M1a_L1p {
    #[oxyroot(absolute_name = "xt")]
    t: M1a_L1p,
}
impl Row for T0a_M1a_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
pub struct T0a_M1a_L1a {
    #[oxyroot(absolute_name = "xt")]
    t: M1a_L1a,
}
impl Row for T0a_M1a_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M0_L0 {
    t: M0_L0,
}
impl Row for T1_M0_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M0_L0r {
    t: M0_L0r,
}
impl Row for T1_M0_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M0_L0p {
    t: M0_L0p,
}
impl Row for T1_M0_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M0_L0a {
    t: M0_L0a,
}
impl Row for T1_M0_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M0_L1 {
    t: M0_L1,
}
impl Row for T1_M0_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M0_L1r {
    t: M0_L1r,
}
impl Row for T1_M0_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M0_L1p {
    t: M0_L1p,
}
impl Row for T1_M0_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M0_L1a {
    t: M0_L1a,
}
impl Row for T1_M0_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M0r_L0 {
    t: M0r_L0,
}
impl Row for T1_M0r_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M0r_L0r {
    t: M0r_L0r,
}
impl Row for T1_M0r_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M0r_L0p {
    t: M0r_L0p,
}
impl Row for T1_M0r_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M0r_L0a {
    t: M0r_L0a,
}
impl Row for T1_M0r_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M0r_L1 {
    t: M0r_L1,
}
impl Row for T1_M0r_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M0r_L1r {
    t: M0r_L1r,
}
impl Row for T1_M0r_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M0r_L1p {
    t: M0r_L1p,
}
impl Row for T1_M0r_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M0r_L1a {
    t: M0r_L1a,
}
impl Row for T1_M0r_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M0p_L0 {
    t: M0p_L0,
}
impl Row for T1_M0p_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M0p_L0r {
    t: M0p_L0r,
}
impl Row for T1_M0p_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M0p_L0p {
    t: M0p_L0p,
}
impl Row for T1_M0p_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M0p_L0a {
    t: M0p_L0a,
}
impl Row for T1_M0p_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M0p_L1 {
    t: M0p_L1,
}
impl Row for T1_M0p_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M0p_L1r {
    t: M0p_L1r,
}
impl Row for T1_M0p_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M0p_L1p {
    t: M0p_L1p,
}
impl Row for T1_M0p_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M0p_L1a {
    t: M0p_L1a,
}
impl Row for T1_M0p_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M0a_L0 {
    t: M0a_L0,
}
impl Row for T1_M0a_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M0a_L0r {
    t: M0a_L0r,
}
impl Row for T1_M0a_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M0a_L0p {
    t: M0a_L0p,
}
impl Row for T1_M0a_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M0a_L0a {
    t: M0a_L0a,
}
impl Row for T1_M0a_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M0a_L1 {
    t: M0a_L1,
}
impl Row for T1_M0a_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M0a_L1r {
    t: M0a_L1r,
}
impl Row for T1_M0a_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M0a_L1p {
    t: M0a_L1p,
}
impl Row for T1_M0a_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M0a_L1a {
    t: M0a_L1a,
}
impl Row for T1_M0a_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M1_L0 {
    t: M1_L0,
}
impl Row for T1_M1_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M1_L0r {
    t: M1_L0r,
}
impl Row for T1_M1_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M1_L0p {
    t: M1_L0p,
}
impl Row for T1_M1_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M1_L0a {
    t: M1_L0a,
}
impl Row for T1_M1_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M1_L1 {
    t: M1_L1,
}
impl Row for T1_M1_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M1_L1r {
    t: M1_L1r,
}
impl Row for T1_M1_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M1_L1p {
    t: M1_L1p,
}
impl Row for T1_M1_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M1_L1a {
    t: M1_L1a,
}
impl Row for T1_M1_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M1r_L0 {
    t: M1r_L0,
}
impl Row for T1_M1r_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M1r_L0r {
    t: M1r_L0r,
}
impl Row for T1_M1r_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M1r_L0p {
    t: M1r_L0p,
}
impl Row for T1_M1r_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M1r_L0a {
    t: M1r_L0a,
}
impl Row for T1_M1r_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M1r_L1 {
    t: M1r_L1,
}
impl Row for T1_M1r_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M1r_L1r {
    t: M1r_L1r,
}
impl Row for T1_M1r_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M1r_L1p {
    t: M1r_L1p,
}
impl Row for T1_M1r_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M1r_L1a {
    t: M1r_L1a,
}
impl Row for T1_M1r_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M1p_L0 {
    t: M1p_L0,
}
impl Row for T1_M1p_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M1p_L0r {
    t: M1p_L0r,
}
impl Row for T1_M1p_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M1p_L0p {
    t: M1p_L0p,
}
impl Row for T1_M1p_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M1p_L0a {
    t: M1p_L0a,
}
impl Row for T1_M1p_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M1p_L1 {
    t: M1p_L1,
}
impl Row for T1_M1p_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M1p_L1r {
    t: M1p_L1r,
}
impl Row for T1_M1p_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M1p_L1p {
    t: M1p_L1p,
}
impl Row for T1_M1p_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M1p_L1a {
    t: M1p_L1a,
}
impl Row for T1_M1p_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M1a_L0 {
    t: M1a_L0,
}
impl Row for T1_M1a_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M1a_L0r {
    t: M1a_L0r,
}
impl Row for T1_M1a_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M1a_L0p {
    t: M1a_L0p,
}
impl Row for T1_M1a_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M1a_L0a {
    t: M1a_L0a,
}
impl Row for T1_M1a_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M1a_L1 {
    t: M1a_L1,
}
impl Row for T1_M1a_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M1a_L1r {
    t: M1a_L1r,
}
impl Row for T1_M1a_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M1a_L1p {
    t: M1a_L1p,
}
impl Row for T1_M1a_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1_M1a_L1a {
    t: M1a_L1a,
}
impl Row for T1_M1a_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M0_L0 {
    #[oxyroot(rename = "rt")]
    t: M0_L0,
}
impl Row for T1r_M0_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M0_L0r {
    #[oxyroot(rename = "rt")]
    t: M0_L0r,
}
impl Row for T1r_M0_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M0_L0p {
    #[oxyroot(rename = "rt")]
    t: M0_L0p,
}
impl Row for T1r_M0_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M0_L0a {
    #[oxyroot(rename = "rt")]
    t: M0_L0a,
}
impl Row for T1r_M0_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M0_L1 {
    #[oxyroot(rename = "rt")]
    t: M0_L1,
}
impl Row for T1r_M0_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M0_L1r {
    #[oxyroot(rename = "rt")]
    t: M0_L1r,
}
impl Row for T1r_M0_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M0_L1p {
    #[oxyroot(rename = "rt")]
    t: M0_L1p,
}
impl Row for T1r_M0_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M0_L1a {
    #[oxyroot(rename = "rt")]
    t: M0_L1a,
}
impl Row for T1r_M0_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M0r_L0 {
    #[oxyroot(rename = "rt")]
    t: M0r_L0,
}
impl Row for T1r_M0r_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M0r_L0r {
    #[oxyroot(rename = "rt")]
    t: M0r_L0r,
}
impl Row for T1r_M0r_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M0r_L0p {
    #[oxyroot(rename = "rt")]
    t: M0r_L0p,
}
impl Row for T1r_M0r_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M0r_L0a {
    #[oxyroot(rename = "rt")]
    t: M0r_L0a,
}
impl Row for T1r_M0r_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M0r_L1 {
    #[oxyroot(rename = "rt")]
    t: M0r_L1,
}
impl Row for T1r_M0r_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M0r_L1r {
    #[oxyroot(rename = "rt")]
    t: M0r_L1r,
}
impl Row for T1r_M0r_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M0r_L1p {
    #[oxyroot(rename = "rt")]
    t: M0r_L1p,
}
impl Row for T1r_M0r_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M0r_L1a {
    #[oxyroot(rename = "rt")]
    t: M0r_L1a,
}
impl Row for T1r_M0r_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M0p_L0 {
    #[oxyroot(rename = "rt")]
    t: M0p_L0,
}
impl Row for T1r_M0p_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M0p_L0r {
    #[oxyroot(rename = "rt")]
    t: M0p_L0r,
}
impl Row for T1r_M0p_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M0p_L0p {
    #[oxyroot(rename = "rt")]
    t: M0p_L0p,
}
impl Row for T1r_M0p_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M0p_L0a {
    #[oxyroot(rename = "rt")]
    t: M0p_L0a,
}
impl Row for T1r_M0p_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M0p_L1 {
    #[oxyroot(rename = "rt")]
    t: M0p_L1,
}
impl Row for T1r_M0p_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M0p_L1r {
    #[oxyroot(rename = "rt")]
    t: M0p_L1r,
}
impl Row for T1r_M0p_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M0p_L1p {
    #[oxyroot(rename = "rt")]
    t: M0p_L1p,
}
impl Row for T1r_M0p_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M0p_L1a {
    #[oxyroot(rename = "rt")]
    t: M0p_L1a,
}
impl Row for T1r_M0p_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M0a_L0 {
    #[oxyroot(rename = "rt")]
    t: M0a_L0,
}
impl Row for T1r_M0a_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M0a_L0r {
    #[oxyroot(rename = "rt")]
    t: M0a_L0r,
}
impl Row for T1r_M0a_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M0a_L0p {
    #[oxyroot(rename = "rt")]
    t: M0a_L0p,
}
impl Row for T1r_M0a_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M0a_L0a {
    #[oxyroot(rename = "rt")]
    t: M0a_L0a,
}
impl Row for T1r_M0a_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M0a_L1 {
    #[oxyroot(rename = "rt")]
    t: M0a_L1,
}
impl Row for T1r_M0a_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M0a_L1r {
    #[oxyroot(rename = "rt")]
    t: M0a_L1r,
}
impl Row for T1r_M0a_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M0a_L1p {
    #[oxyroot(rename = "rt")]
    t: M0a_L1p,
}
impl Row for T1r_M0a_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M0a_L1a {
    #[oxyroot(rename = "rt")]
    t: M0a_L1a,
}
impl Row for T1r_M0a_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M1_L0 {
    #[oxyroot(rename = "rt")]
    t: M1_L0,
}
impl Row for T1r_M1_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M1_L0r {
    #[oxyroot(rename = "rt")]
    t: M1_L0r,
}
impl Row for T1r_M1_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M1_L0p {
    #[oxyroot(rename = "rt")]
    t: M1_L0p,
}
impl Row for T1r_M1_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M1_L0a {
    #[oxyroot(rename = "rt")]
    t: M1_L0a,
}
impl Row for T1r_M1_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M1_L1 {
    #[oxyroot(rename = "rt")]
    t: M1_L1,
}
impl Row for T1r_M1_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M1_L1r {
    #[oxyroot(rename = "rt")]
    t: M1_L1r,
}
impl Row for T1r_M1_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M1_L1p {
    #[oxyroot(rename = "rt")]
    t: M1_L1p,
}
impl Row for T1r_M1_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M1_L1a {
    #[oxyroot(rename = "rt")]
    t: M1_L1a,
}
impl Row for T1r_M1_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M1r_L0 {
    #[oxyroot(rename = "rt")]
    t: M1r_L0,
}
impl Row for T1r_M1r_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M1r_L0r {
    #[oxyroot(rename = "rt")]
    t: M1r_L0r,
}
impl Row for T1r_M1r_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M1r_L0p {
    #[oxyroot(rename = "rt")]
    t: M1r_L0p,
}
impl Row for T1r_M1r_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M1r_L0a {
    #[oxyroot(rename = "rt")]
    t: M1r_L0a,
}
impl Row for T1r_M1r_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M1r_L1 {
    #[oxyroot(rename = "rt")]
    t: M1r_L1,
}
impl Row for T1r_M1r_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M1r_L1r {
    #[oxyroot(rename = "rt")]
    t: M1r_L1r,
}
impl Row for T1r_M1r_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M1r_L1p {
    #[oxyroot(rename = "rt")]
    t: M1r_L1p,
}
impl Row for T1r_M1r_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M1r_L1a {
    #[oxyroot(rename = "rt")]
    t: M1r_L1a,
}
impl Row for T1r_M1r_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M1p_L0 {
    #[oxyroot(rename = "rt")]
    t: M1p_L0,
}
impl Row for T1r_M1p_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M1p_L0r {
    #[oxyroot(rename = "rt")]
    t: M1p_L0r,
}
impl Row for T1r_M1p_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M1p_L0p {
    #[oxyroot(rename = "rt")]
    t: M1p_L0p,
}
impl Row for T1r_M1p_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M1p_L0a {
    #[oxyroot(rename = "rt")]
    t: M1p_L0a,
}
impl Row for T1r_M1p_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M1p_L1 {
    #[oxyroot(rename = "rt")]
    t: M1p_L1,
}
impl Row for T1r_M1p_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M1p_L1r {
    #[oxyroot(rename = "rt")]
    t: M1p_L1r,
}
impl Row for T1r_M1p_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M1p_L1p {
    #[oxyroot(rename = "rt")]
    t: M1p_L1p,
}
impl Row for T1r_M1p_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M1p_L1a {
    #[oxyroot(rename = "rt")]
    t: M1p_L1a,
}
impl Row for T1r_M1p_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M1a_L0 {
    #[oxyroot(rename = "rt")]
    t: M1a_L0,
}
impl Row for T1r_M1a_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M1a_L0r {
    #[oxyroot(rename = "rt")]
    t: M1a_L0r,
}
impl Row for T1r_M1a_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M1a_L0p {
    #[oxyroot(rename = "rt")]
    t: M1a_L0p,
}
impl Row for T1r_M1a_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M1a_L0a {
    #[oxyroot(rename = "rt")]
    t: M1a_L0a,
}
impl Row for T1r_M1a_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M1a_L1 {
    #[oxyroot(rename = "rt")]
    t: M1a_L1,
}
impl Row for T1r_M1a_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M1a_L1r {
    #[oxyroot(rename = "rt")]
    t: M1a_L1r,
}
impl Row for T1r_M1a_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M1a_L1p {
    #[oxyroot(rename = "rt")]
    t: M1a_L1p,
}
impl Row for T1r_M1a_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1r_M1a_L1a {
    #[oxyroot(rename = "rt")]
    t: M1a_L1a,
}
impl Row for T1r_M1a_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M0_L0 {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0_L0,
}
impl Row for T1p_M0_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M0_L0r {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0_L0r,
}
impl Row for T1p_M0_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M0_L0p {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0_L0p,
}
impl Row for T1p_M0_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M0_L0a {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0_L0a,
}
impl Row for T1p_M0_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M0_L1 {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0_L1,
}
impl Row for T1p_M0_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M0_L1r {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0_L1r,
}
impl Row for T1p_M0_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M0_L1p {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0_L1p,
}
impl Row for T1p_M0_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M0_L1a {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0_L1a,
}
impl Row for T1p_M0_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M0r_L0 {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0r_L0,
}
impl Row for T1p_M0r_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M0r_L0r {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0r_L0r,
}
impl Row for T1p_M0r_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M0r_L0p {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0r_L0p,
}
impl Row for T1p_M0r_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M0r_L0a {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0r_L0a,
}
impl Row for T1p_M0r_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M0r_L1 {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0r_L1,
}
impl Row for T1p_M0r_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M0r_L1r {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0r_L1r,
}
impl Row for T1p_M0r_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M0r_L1p {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0r_L1p,
}
impl Row for T1p_M0r_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M0r_L1a {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0r_L1a,
}
impl Row for T1p_M0r_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M0p_L0 {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0p_L0,
}
impl Row for T1p_M0p_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M0p_L0r {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0p_L0r,
}
impl Row for T1p_M0p_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M0p_L0p {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0p_L0p,
}
impl Row for T1p_M0p_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M0p_L0a {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0p_L0a,
}
impl Row for T1p_M0p_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M0p_L1 {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0p_L1,
}
impl Row for T1p_M0p_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M0p_L1r {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0p_L1r,
}
impl Row for T1p_M0p_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M0p_L1p {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0p_L1p,
}
impl Row for T1p_M0p_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M0p_L1a {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0p_L1a,
}
impl Row for T1p_M0p_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M0a_L0 {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0a_L0,
}
impl Row for T1p_M0a_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M0a_L0r {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0a_L0r,
}
impl Row for T1p_M0a_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M0a_L0p {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0a_L0p,
}
impl Row for T1p_M0a_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M0a_L0a {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0a_L0a,
}
impl Row for T1p_M0a_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M0a_L1 {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0a_L1,
}
impl Row for T1p_M0a_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M0a_L1r {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0a_L1r,
}
impl Row for T1p_M0a_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M0a_L1p {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0a_L1p,
}
impl Row for T1p_M0a_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M0a_L1a {
    #[oxyroot(branch_prefix = "pt_")]
    t: M0a_L1a,
}
impl Row for T1p_M0a_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M1_L0 {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1_L0,
}
impl Row for T1p_M1_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M1_L0r {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1_L0r,
}
impl Row for T1p_M1_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M1_L0p {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1_L0p,
}
impl Row for T1p_M1_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M1_L0a {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1_L0a,
}
impl Row for T1p_M1_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M1_L1 {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1_L1,
}
impl Row for T1p_M1_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M1_L1r {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1_L1r,
}
impl Row for T1p_M1_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M1_L1p {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1_L1p,
}
impl Row for T1p_M1_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M1_L1a {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1_L1a,
}
impl Row for T1p_M1_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M1r_L0 {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1r_L0,
}
impl Row for T1p_M1r_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M1r_L0r {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1r_L0r,
}
impl Row for T1p_M1r_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M1r_L0p {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1r_L0p,
}
impl Row for T1p_M1r_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M1r_L0a {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1r_L0a,
}
impl Row for T1p_M1r_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M1r_L1 {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1r_L1,
}
impl Row for T1p_M1r_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M1r_L1r {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1r_L1r,
}
impl Row for T1p_M1r_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M1r_L1p {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1r_L1p,
}
impl Row for T1p_M1r_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M1r_L1a {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1r_L1a,
}
impl Row for T1p_M1r_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M1p_L0 {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1p_L0,
}
impl Row for T1p_M1p_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M1p_L0r {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1p_L0r,
}
impl Row for T1p_M1p_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M1p_L0p {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1p_L0p,
}
impl Row for T1p_M1p_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M1p_L0a {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1p_L0a,
}
impl Row for T1p_M1p_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M1p_L1 {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1p_L1,
}
impl Row for T1p_M1p_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M1p_L1r {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1p_L1r,
}
impl Row for T1p_M1p_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M1p_L1p {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1p_L1p,
}
impl Row for T1p_M1p_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M1p_L1a {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1p_L1a,
}
impl Row for T1p_M1p_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M1a_L0 {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1a_L0,
}
impl Row for T1p_M1a_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M1a_L0r {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1a_L0r,
}
impl Row for T1p_M1a_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M1a_L0p {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1a_L0p,
}
impl Row for T1p_M1a_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M1a_L0a {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1a_L0a,
}
impl Row for T1p_M1a_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M1a_L1 {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1a_L1,
}
impl Row for T1p_M1a_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M1a_L1r {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1a_L1r,
}
impl Row for T1p_M1a_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M1a_L1p {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1a_L1p,
}
impl Row for T1p_M1a_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1p_M1a_L1a {
    #[oxyroot(branch_prefix = "pt_")]
    t: M1a_L1a,
}
impl Row for T1p_M1a_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M0_L0 {
    #[oxyroot(absolute_name = "xt")]
    t: M0_L0,
}
impl Row for T1a_M0_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M0_L0r {
    #[oxyroot(absolute_name = "xt")]
    t: M0_L0r,
}
impl Row for T1a_M0_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M0_L0p {
    #[oxyroot(absolute_name = "xt")]
    t: M0_L0p,
}
impl Row for T1a_M0_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M0_L0a {
    #[oxyroot(absolute_name = "xt")]
    t: M0_L0a,
}
impl Row for T1a_M0_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M0_L1 {
    #[oxyroot(absolute_name = "xt")]
    t: M0_L1,
}
impl Row for T1a_M0_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M0_L1r {
    #[oxyroot(absolute_name = "xt")]
    t: M0_L1r,
}
impl Row for T1a_M0_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M0_L1p {
    #[oxyroot(absolute_name = "xt")]
    t: M0_L1p,
}
impl Row for T1a_M0_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M0_L1a {
    #[oxyroot(absolute_name = "xt")]
    t: M0_L1a,
}
impl Row for T1a_M0_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M0r_L0 {
    #[oxyroot(absolute_name = "xt")]
    t: M0r_L0,
}
impl Row for T1a_M0r_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M0r_L0r {
    #[oxyroot(absolute_name = "xt")]
    t: M0r_L0r,
}
impl Row for T1a_M0r_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M0r_L0p {
    #[oxyroot(absolute_name = "xt")]
    t: M0r_L0p,
}
impl Row for T1a_M0r_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M0r_L0a {
    #[oxyroot(absolute_name = "xt")]
    t: M0r_L0a,
}
impl Row for T1a_M0r_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M0r_L1 {
    #[oxyroot(absolute_name = "xt")]
    t: M0r_L1,
}
impl Row for T1a_M0r_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M0r_L1r {
    #[oxyroot(absolute_name = "xt")]
    t: M0r_L1r,
}
impl Row for T1a_M0r_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M0r_L1p {
    #[oxyroot(absolute_name = "xt")]
    t: M0r_L1p,
}
impl Row for T1a_M0r_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M0r_L1a {
    #[oxyroot(absolute_name = "xt")]
    t: M0r_L1a,
}
impl Row for T1a_M0r_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M0p_L0 {
    #[oxyroot(absolute_name = "xt")]
    t: M0p_L0,
}
impl Row for T1a_M0p_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M0p_L0r {
    #[oxyroot(absolute_name = "xt")]
    t: M0p_L0r,
}
impl Row for T1a_M0p_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M0p_L0p {
    #[oxyroot(absolute_name = "xt")]
    t: M0p_L0p,
}
impl Row for T1a_M0p_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M0p_L0a {
    #[oxyroot(absolute_name = "xt")]
    t: M0p_L0a,
}
impl Row for T1a_M0p_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M0p_L1 {
    #[oxyroot(absolute_name = "xt")]
    t: M0p_L1,
}
impl Row for T1a_M0p_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M0p_L1r {
    #[oxyroot(absolute_name = "xt")]
    t: M0p_L1r,
}
impl Row for T1a_M0p_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M0p_L1p {
    #[oxyroot(absolute_name = "xt")]
    t: M0p_L1p,
}
impl Row for T1a_M0p_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M0p_L1a {
    #[oxyroot(absolute_name = "xt")]
    t: M0p_L1a,
}
impl Row for T1a_M0p_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M0a_L0 {
    #[oxyroot(absolute_name = "xt")]
    t: M0a_L0,
}
impl Row for T1a_M0a_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M0a_L0r {
    #[oxyroot(absolute_name = "xt")]
    t: M0a_L0r,
}
impl Row for T1a_M0a_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M0a_L0p {
    #[oxyroot(absolute_name = "xt")]
    t: M0a_L0p,
}
impl Row for T1a_M0a_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M0a_L0a {
    #[oxyroot(absolute_name = "xt")]
    t: M0a_L0a,
}
impl Row for T1a_M0a_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M0a_L1 {
    #[oxyroot(absolute_name = "xt")]
    t: M0a_L1,
}
impl Row for T1a_M0a_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M0a_L1r {
    #[oxyroot(absolute_name = "xt")]
    t: M0a_L1r,
}
impl Row for T1a_M0a_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M0a_L1p {
    #[oxyroot(absolute_name = "xt")]
    t: M0a_L1p,
}
impl Row for T1a_M0a_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M0a_L1a {
    #[oxyroot(absolute_name = "xt")]
    t: M0a_L1a,
}
impl Row for T1a_M0a_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M1_L0 {
    #[oxyroot(absolute_name = "xt")]
    t: M1_L0,
}
impl Row for T1a_M1_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M1_L0r {
    #[oxyroot(absolute_name = "xt")]
    t: M1_L0r,
}
impl Row for T1a_M1_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M1_L0p {
    #[oxyroot(absolute_name = "xt")]
    t: M1_L0p,
}
impl Row for T1a_M1_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M1_L0a {
    #[oxyroot(absolute_name = "xt")]
    t: M1_L0a,
}
impl Row for T1a_M1_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M1_L1 {
    #[oxyroot(absolute_name = "xt")]
    t: M1_L1,
}
impl Row for T1a_M1_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M1_L1r {
    #[oxyroot(absolute_name = "xt")]
    t: M1_L1r,
}
impl Row for T1a_M1_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M1_L1p {
    #[oxyroot(absolute_name = "xt")]
    t: M1_L1p,
}
impl Row for T1a_M1_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M1_L1a {
    #[oxyroot(absolute_name = "xt")]
    t: M1_L1a,
}
impl Row for T1a_M1_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M1r_L0 {
    #[oxyroot(absolute_name = "xt")]
    t: M1r_L0,
}
impl Row for T1a_M1r_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M1r_L0r {
    #[oxyroot(absolute_name = "xt")]
    t: M1r_L0r,
}
impl Row for T1a_M1r_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M1r_L0p {
    #[oxyroot(absolute_name = "xt")]
    t: M1r_L0p,
}
impl Row for T1a_M1r_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M1r_L0a {
    #[oxyroot(absolute_name = "xt")]
    t: M1r_L0a,
}
impl Row for T1a_M1r_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M1r_L1 {
    #[oxyroot(absolute_name = "xt")]
    t: M1r_L1,
}
impl Row for T1a_M1r_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M1r_L1r {
    #[oxyroot(absolute_name = "xt")]
    t: M1r_L1r,
}
impl Row for T1a_M1r_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M1r_L1p {
    #[oxyroot(absolute_name = "xt")]
    t: M1r_L1p,
}
impl Row for T1a_M1r_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M1r_L1a {
    #[oxyroot(absolute_name = "xt")]
    t: M1r_L1a,
}
impl Row for T1a_M1r_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M1p_L0 {
    #[oxyroot(absolute_name = "xt")]
    t: M1p_L0,
}
impl Row for T1a_M1p_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M1p_L0r {
    #[oxyroot(absolute_name = "xt")]
    t: M1p_L0r,
}
impl Row for T1a_M1p_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M1p_L0p {
    #[oxyroot(absolute_name = "xt")]
    t: M1p_L0p,
}
impl Row for T1a_M1p_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M1p_L0a {
    #[oxyroot(absolute_name = "xt")]
    t: M1p_L0a,
}
impl Row for T1a_M1p_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M1p_L1 {
    #[oxyroot(absolute_name = "xt")]
    t: M1p_L1,
}
impl Row for T1a_M1p_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M1p_L1r {
    #[oxyroot(absolute_name = "xt")]
    t: M1p_L1r,
}
impl Row for T1a_M1p_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M1p_L1p {
    #[oxyroot(absolute_name = "xt")]
    t: M1p_L1p,
}
impl Row for T1a_M1p_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M1p_L1a {
    #[oxyroot(absolute_name = "xt")]
    t: M1p_L1a,
}
impl Row for T1a_M1p_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M1a_L0 {
    #[oxyroot(absolute_name = "xt")]
    t: M1a_L0,
}
impl Row for T1a_M1a_L0 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M1a_L0r {
    #[oxyroot(absolute_name = "xt")]
    t: M1a_L0r,
}
impl Row for T1a_M1a_L0r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M1a_L0p {
    #[oxyroot(absolute_name = "xt")]
    t: M1a_L0p,
}
impl Row for T1a_M1a_L0p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M1a_L0a {
    #[oxyroot(absolute_name = "xt")]
    t: M1a_L0a,
}
impl Row for T1a_M1a_L0a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M1a_L1 {
    #[oxyroot(absolute_name = "xt")]
    t: M1a_L1,
}
impl Row for T1a_M1a_L1 { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M1a_L1r {
    #[oxyroot(absolute_name = "xt")]
    t: M1a_L1r,
}
impl Row for T1a_M1a_L1r { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M1a_L1p {
    #[oxyroot(absolute_name = "xt")]
    t: M1a_L1p,
}
impl Row for T1a_M1a_L1p { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "gt_")]
pub struct T1a_M1a_L1a {
    #[oxyroot(absolute_name = "xt")]
    t: M1a_L1a,
}
impl Row for T1a_M1a_L1a { fn row(self, o: &mut Vec<V>) { self.t.row(o) } }
pub const READ: &[(&str, &str, bool, ReadFn)] = &[
    ("L0", "a", false, read::<L0>),
    ("L0r", "ra", false, read::<L0r>),
    ("L0p", "pa_a", false, read::<L0p>),
    ("L0a", "xa.y", false, read::<L0a>),
    ("L0pr", "pa_ra", false, read::<L0pr>),
    ("L0ar", "xa.y", false, read::<L0ar>),
    ("L0ap", "pa_xa.y", false, read::<L0ap>),
    ("L0apr", "pa_xa.y", false, read::<L0apr>),
    ("L1", "ga_a", false, read::<L1>),
    ("L1r", "ga_ra", false, read::<L1r>),
    ("L1p", "pa_a", false, read::<L1p>),
    ("L1a", "xa.y", false, read::<L1a>),
    ("L1pr", "pa_ra", false, read::<L1pr>),
    ("L1ar", "xa.y", false, read::<L1ar>),
    ("L1ap", "pa_xa.y", false, read::<L1ap>),
    ("L1apr", "pa_xa.y", false, read::<L1apr>),
    ("L0S", "a", false, read::<L0S>),
    ("L0rS", "ra", false, read::<L0rS>),
    ("L0pS", "pa_a", false, read::<L0pS>),
    ("L0aS", "xa.y", false, read::<L0aS>),
    ("L0prS", "pa_ra", false, read::<L0prS>),
    ("L0arS", "xa.y", false, read::<L0arS>),
    ("L0apS", "pa_xa.y", false, read::<L0apS>),
    ("L0aprS", "pa_xa.y", false, read::<L0aprS>),
    ("L1S", "ga_a", false, read::<L1S>),
    ("L1rS", "ga_ra", false, read::<L1rS>),
    ("L1pS", "pa_a", false, read::<L1pS>),
    ("L1aS", "xa.y", false, read::<L1aS>),
    ("L1prS", "pa_ra", false, read::<L1prS>),
    ("L1arS", "xa.y", false, read::<L1arS>),
    ("L1apS", "pa_xa.y", false, read::<L1apS>),
    ("L1aprS", "pa_xa.y", false, read::<L1aprS>),
    ("M0_L0", "m.a", false, read::<M0_L0>),
    ("M0_L0r", "m.ra", false, read::<M0_L0r>),
    ("M0_L0p", "m.pa_a", false, read::<M0_L0p>),
    ("M0_L0a", "xa.y", false, read::<M0_L0a>),
    ("M0_L0pr", "m.pa_ra", false, read::<M0_L0pr>),
    ("M0_L0ar", "xa.y", false, read::<M0_L0ar>),
    ("M0_L0ap", "pa_xa.y", false, read::<M0_L0ap>),
    ("M0_L0apr", "pa_xa.y", false, read::<M0_L0apr>),
    ("M0_L1", "m.ga_a", false, read::<M0_L1>),
    ("M0_L1r", "m.ga_ra", false, read::<M0_L1r>),
    ("M0_L1p", "m.pa_a", false, read::<M0_L1p>),
    ("M0_L1a", "xa.y", false, read::<M0_L1a>),
    ("M0_L1pr", "m.pa_ra", false, read::<M0_L1pr>),
    ("M0_L1ar", "xa.y", false, read::<M0_L1ar>),
    ("M0_L1ap", "pa_xa.y", false, read::<M0_L1ap>),
    ("M0_L1apr", "pa_xa.y", false, read::<M0_L1apr>),
    ("M0_L0Sv", "m.a", true, read::<M0_L0Sv>),
    ("M0_L0S", "m.a", false, read::<M0_L0S>),
    ("M0_L0rSv", "m.ra", true, read::<M0_L0rSv>),
    ("M0_L0rS", "m.ra", false, read::<M0_L0rS>),
    ("M0_L0pSv", "m.pa_a", true, read::<M0_L0pSv>),
    ("M0_L0pS", "m.pa_a", false, read::<M0_L0pS>),
    ("M0_L0aSv", "xa.y", true, read::<M0_L0aSv>),
    ("M0_L0aS", "xa.y", false, read::<M0_L0aS>),
    ("M0_L0prSv", "m.pa_ra", true, read::<M0_L0prSv>),
    ("M0_L0prS", "m.pa_ra", false, read::<M0_L0prS>),
    ("M0_L0arSv", "xa.y", true, read::<M0_L0arSv>),
    ("M0_L0arS", "xa.y", false, read::<M0_L0arS>),
    ("M0_L0apSv", "pa_xa.y", true, read::<M0_L0apSv>),
    ("M0_L0apS", "pa_xa.y", false, read::<M0_L0apS>),
    ("M0_L0aprSv", "pa_xa.y", true, read::<M0_L0aprSv>),
    ("M0_L0aprS", "pa_xa.y", false, read::<M0_L0aprS>),
    ("M0_L1Sv", "m.ga_a", true, read::<M0_L1Sv>),
    ("M0_L1S", "m.ga_a", false, read::<M0_L1S>),
    ("M0_L1rSv", "m.ga_ra", true, read::<M0_L1rSv>),
    ("M0_L1rS", "m.ga_ra", false, read::<M0_L1rS>),
    ("M0_L1pSv", "m.pa_a", true, read::<M0_L1pSv>),
    ("M0_L1pS", "m.pa_a", false, read::<M0_L1pS>),
    ("M0_L1aSv", "xa.y", true, read::<M0_L1aSv>),
    ("M0_L1aS", "xa.y", false, read::<M0_L1aS>),
    ("M0_L1prSv", "m.pa_ra", true, read::<M0_L1prSv>),
    ("M0_L1prS", "m.pa_ra", false, read::<M0_L1prS>),
    ("M0_L1arSv", "xa.y", true, read::<M0_L1arSv>),
    ("M0_L1arS", "xa.y", false, read::<M0_L1arS>),
    ("M0_L1apSv", "pa_xa.y", true, read::<M0_L1apSv>),
    ("M0_L1apS", "pa_xa.y", false, read::<M0_L1apS>),
    ("M0_L1aprSv", "pa_xa.y", true, read::<M0_L1aprSv>),
    ("M0_L1aprS", "pa_xa.y", false, read::<M0_L1aprS>),
    ("M0r_L0", "rm.a", false, read::<M0r_L0>),
    ("M0r_L0r", "rm.ra", false, read::<M0r_L0r>),
    ("M0r_L0p", "rm.pa_a", false, read::<M0r_L0p>),
    ("M0r_L0a", "xa.y", false, read::<M0r_L0a>),
    ("M0r_L0pr", "rm.pa_ra", false, read::<M0r_L0pr>),
    ("M0r_L0ar", "xa.y", false, read::<M0r_L0ar>),
    ("M0r_L0ap", "pa_xa.y", false, read::<M0r_L0ap>),
    ("M0r_L0apr", "pa_xa.y", false, read::<M0r_L0apr>),
    ("M0r_L1", "rm.ga_a", false, read::<M0r_L1>),
    ("M0r_L1r", "rm.ga_ra", false, read::<M0r_L1r>),
    ("M0r_L1p", "rm.pa_a", false, read::<M0r_L1p>),
    ("M0r_L1a", "xa.y", false, read::<M0r_L1a>),
    ("M0r_L1pr", "rm.pa_ra", false, read::<M0r_L1pr>),
    ("M0r_L1ar", "xa.y", false, read::<M0r_L1ar>),
    ("M0r_L1ap", "pa_xa.y", false, read::<M0r_L1ap>),
    ("M0r_L1apr", "pa_xa.y", false, read::<M0r_L1apr>),
    ("M0r_L0Sv", "rm.a", true, read::<M0r_L0Sv>),
    ("M0r_L0rSv", "rm.ra", true, read::<M0r_L0rSv>),
    ("M0r_L0pSv", "rm.pa_a", true, read::<M0r_L0pSv>),
    ("M0r_L0aSv", "xa.y", true, read::<M0r_L0aSv>),
    ("M0r_L0prSv", "rm.pa_ra", true, read::<M0r_L0prSv>),
    ("M0r_L0arSv", "xa.y", true, read::<M0r_L0arSv>),
    ("M0r_L0apSv", "pa_xa.y", true, read::<M0r_L0apSv>),
    ("M0r_L0aprSv", "pa_xa.y", true, read::<M0r_L0aprSv>),
    ("M0r_L1Sv", "rm.ga_a", true, read::<M0r_L1Sv>),
    ("M0r_L1rSv", "rm.ga_ra", true, read::<M0r_L1rSv>),
    ("M0r_L1pSv", "rm.pa_a", true, read::<M0r_L1pSv>),
    ("M0r_L1aSv", "xa.y", true, read::<M0r_L1aSv>),
    ("M0r_L1prSv", "rm.pa_ra", true, read::<M0r_L1prSv>),
    ("M0r_L1arSv", "xa.y", true, read::<M0r_L1arSv>),
    ("M0r_L1apSv", "pa_xa.y", true, read::<M0r_L1apSv>),
    ("M0r_L1aprSv", "pa_xa.y", true, read::<M0r_L1aprSv>),
    ("M0p_L0", "pm_m.a", false, read::<M0p_L0>),
    ("M0p_L0r", "pm_m.ra", false, read::<M0p_L0r>),
    ("M0p_L0p", "pm_m.pa_a", false, read::<M0p_L0p>),
    ("M0p_L0a", "xa.y", false, read::<M0p_L0a>),
    ("M0p_L0pr", "pm_m.pa_ra", false, read::<M0p_L0pr>),
    ("M0p_L0ar", "xa.y", false, read::<M0p_L0ar>),
    ("M0p_L0ap", "pa_xa.y", false, read::<M0p_L0ap>),
    ("M0p_L0apr", "pa_xa.y", false, read::<M0p_L0apr>),
    ("M0p_L1", "pm_m.ga_a", false, read::<M0p_L1>),
    ("M0p_L1r", "pm_m.ga_ra", false, read::<M0p_L1r>),
    ("M0p_L1p", "pm_m.pa_a", false, read::<M0p_L1p>),
    ("M0p_L1a", "xa.y", false, read::<M0p_L1a>),
    ("M0p_L1pr", "pm_m.pa_ra", false, read::<M0p_L1pr>),
    ("M0p_L1ar", "xa.y", false, read::<M0p_L1ar>),
    ("M0p_L1ap", "pa_xa.y", false, read::<M0p_L1ap>),
    ("M0p_L1apr", "pa_xa.y", false, read::<M0p_L1apr>),
    ("M0p_L0Sv", "pm_m.a", true, read::<M0p_L0Sv>),
    ("M0p_L0rSv", "pm_m.ra", true, read::<M0p_L0rSv>),
    ("M0p_L0pSv", "pm_m.pa_a", true, read::<M0p_L0pSv>),
    ("M0p_L0aSv", "xa.y", true, read::<M0p_L0aSv>),
    ("M0p_L0prSv", "pm_m.pa_ra", true, read::<M0p_L0prSv>),
    ("M0p_L0arSv", "xa.y", true, read::<M0p_L0arSv>),
    ("M0p_L0apSv", "pa_xa.y", true, read::<M0p_L0apSv>),
    ("M0p_L0aprSv", "pa_xa.y", true, read::<M0p_L0aprSv>),
    ("M0p_L1Sv", "pm_m.ga_a", true, read::<M0p_L1Sv>),
    ("M0p_L1rSv", "pm_m.ga_ra", true, read::<M0p_L1rSv>),
    ("M0p_L1pSv", "pm_m.pa_a", true, read::<M0p_L1pSv>),
    ("M0p_L1aSv", "xa.y", true, read::<M0p_L1aSv>),
    ("M0p_L1prSv", "pm_m.pa_ra", true, read::<M0p_L1prSv>),
    ("M0p_L1arSv", "xa.y", true, read::<M0p_L1arSv>),
    ("M0p_L1apSv", "pa_xa.y", true, read::<M0p_L1apSv>),
    ("M0p_L1aprSv", "pa_xa.y", true, read::<M0p_L1aprSv>),
    ("M0a_L0", "xm.a", false, read::<M0a_L0>),
    ("M0a_L0r", "xm.ra", false, read::<M0a_L0r>),
    ("M0a_L0p", "xm.pa_a", false, read::<M0a_L0p>),
    ("M0a_L0a", "xa.y", false, read::<M0a_L0a>),
    ("M0a_L0pr", "xm.pa_ra", false, read::<M0a_L0pr>),
    ("M0a_L0ar", "xa.y", false, read::<M0a_L0ar>),
    ("M0a_L0ap", "pa_xa.y", false, read::<M0a_L0ap>),
    ("M0a_L0apr", "pa_xa.y", false, read::<M0a_L0apr>),
    ("M0a_L1", "xm.ga_a", false, read::<M0a_L1>),
    ("M0a_L1r", "xm.ga_ra", false, read::<M0a_L1r>),
    ("M0a_L1p", "xm.pa_a", false, read::<M0a_L1p>),
    ("M0a_L1a", "xa.y", false, read::<M0a_L1a>),
    ("M0a_L1pr", "xm.pa_ra", false, read::<M0a_L1pr>),
    ("M0a_L1ar", "xa.y", false, read::<M0a_L1ar>),
    ("M0a_L1ap", "pa_xa.y", false, read::<M0a_L1ap>),
    ("M0a_L1apr", "pa_xa.y", false, read::<M0a_L1apr>),
    ("M0a_L0Sv", "xm.a", true, read::<M0a_L0Sv>),
    ("M0a_L0rSv", "xm.ra", true, read::<M0a_L0rSv>),
    ("M0a_L0pSv", "xm.pa_a", true, read::<M0a_L0pSv>),
    ("M0a_L0aSv", "xa.y", true, read::<M0a_L0aSv>),
    ("M0a_L0prSv", "xm.pa_ra", true, read::<M0a_L0prSv>),
    ("M0a_L0arSv", "xa.y", true, read::<M0a_L0arSv>),
    ("M0a_L0apSv", "pa_xa.y", true, read::<M0a_L0apSv>),
    ("M0a_L0aprSv", "pa_xa.y", true, read::<M0a_L0aprSv>),
    ("M0a_L1Sv", "xm.ga_a", true, read::<M0a_L1Sv>),
    ("M0a_L1rSv", "xm.ga_ra", true, read::<M0a_L1rSv>),
    ("M0a_L1pSv", "xm.pa_a", true, read::<M0a_L1pSv>),
    ("M0a_L1aSv", "xa.y", true, read::<M0a_L1aSv>),
    ("M0a_L1prSv", "xm.pa_ra", true, read::<M0a_L1prSv>),
    ("M0a_L1arSv", "xa.y", true, read::<M0a_L1arSv>),
    ("M0a_L1apSv", "pa_xa.y", true, read::<M0a_L1apSv>),
    ("M0a_L1aprSv", "pa_xa.y", true, read::<M0a_L1aprSv>),
    ("M0pr_L0", "pm_rm.a", false, read::<M0pr_L0>),
    ("M0pr_L0r", "pm_rm.ra", false, read::<M0pr_L0r>),
    ("M0pr_L0p", "pm_rm.pa_a", false, read::<M0pr_L0p>),
    ("M0pr_L0a", "xa.y", false, read::<M0pr_L0a>),
    ("M0pr_L0pr", "pm_rm.pa_ra", false, read::<M0pr_L0pr>),
    ("M0pr_L0ar", "xa.y", false, read::<M0pr_L0ar>),
    ("M0pr_L0ap", "pa_xa.y", false, read::<M0pr_L0ap>),
    ("M0pr_L0apr", "pa_xa.y", false, read::<M0pr_L0apr>),
    ("M0pr_L1", "pm_rm.ga_a", false, read::<M0pr_L1>),
    ("M0pr_L1r", "pm_rm.ga_ra", false, read::<M0pr_L1r>),
    ("M0pr_L1p", "pm_rm.pa_a", false, read::<M0pr_L1p>),
    ("M0pr_L1a", "xa.y", false, read::<M0pr_L1a>),
    ("M0pr_L1pr", "pm_rm.pa_ra", false, read::<M0pr_L1pr>),
    ("M0pr_L1ar", "xa.y", false, read::<M0pr_L1ar>),
    ("M0pr_L1ap", "pa_xa.y", false, read::<M0pr_L1ap>),
    ("M0pr_L1apr", "pa_xa.y", false, read::<M0pr_L1apr>),
    ("M0pr_L0Sv", "pm_rm.a", true, read::<M0pr_L0Sv>),
    ("M0pr_L0rSv", "pm_rm.ra", true, read::<M0pr_L0rSv>),
    ("M0pr_L0pSv", "pm_rm.pa_a", true, read::<M0pr_L0pSv>),
    ("M0pr_L0aSv", "xa.y", true, read::<M0pr_L0aSv>),
    ("M0pr_L1Sv", "pm_rm.ga_a", true, read::<M0pr_L1Sv>),
    ("M0pr_L1rSv", "pm_rm.ga_ra", true, read::<M0pr_L1rSv>),
    ("M0pr_L1pSv", "pm_rm.pa_a", true, read::<M0pr_L1pSv>),
    ("M0pr_L1aSv", "xa.y", true, read::<M0pr_L1aSv>),
    ("M0ar_L0", "xm.a", false, read::<M0ar_L0>),
    ("M0ar_L0r", "xm.ra", false, read::<M0ar_L0r>),
    ("M0ar_L0p", "xm.pa_a", false, read::<M0ar_L0p>),
    ("M0ar_L0a", "xa.y", false, read::<M0ar_L0a>),
    ("M0ar_L0pr", "xm.pa_ra", false, read::<M0ar_L0pr>),
    ("M0ar_L0ar", "xa.y", false, read::<M0ar_L0ar>),
    ("M0ar_L0ap", "pa_xa.y", false, read::<M0ar_L0ap>),
    ("M0ar_L0apr", "pa_xa.y", false, read::<M0ar_L0apr>),
    ("M0ar_L1", "xm.ga_a", false, read::<M0ar_L1>),
    ("M0ar_L1r", "xm.ga_ra", false, read::<M0ar_L1r>),
    ("M0ar_L1p", "xm.pa_a", false, read::<M0ar_L1p>),
    ("M0ar_L1a", "xa.y", false, read::<M0ar_L1a>),
    ("M0ar_L1pr", "xm.pa_ra", false, read::<M0ar_L1pr>),
    ("M0ar_L1ar", "xa.y", false, read::<M0ar_L1ar>),
    ("M0ar_L1ap", "pa_xa.y", false, read::<M0ar_L1ap>),
    ("M0ar_L1apr", "pa_xa.y", false, read::<M0ar_L1apr>),
    ("M0ar_L0Sv", "xm.a", true, read::<M0ar_L0Sv>),
    ("M0ar_L0rSv", "xm.ra", true, read::<M0ar_L0rSv>),
    ("M0ar_L0pSv", "xm.pa_a", true, read::<M0ar_L0pSv>),
    ("M0ar_L0aSv", "xa.y", true, read::<M0ar_L0aSv>),
    ("M0ar_L1Sv", "xm.ga_a", true, read::<M0ar_L1Sv>),
    ("M0ar_L1rSv", "xm.ga_ra", true, read::<M0ar_L1rSv>),
    ("M0ar_L1pSv", "xm.pa_a", true, read::<M0ar_L1pSv>),
    ("M0ar_L1aSv", "xa.y", true, read::<M0ar_L1aSv>),
    ("M0ap_L0", "pm_xm.a", false, read::<M0ap_L0>),
    ("M0ap_L0r", "pm_xm.ra", false, read::<M0ap_L0r>),
    ("M0ap_L0p", "pm_xm.pa_a", false, read::<M0ap_L0p>),
    ("M0ap_L0a", "xa.y", false, read::<M0ap_L0a>),
    ("M0ap_L0pr", "pm_xm.pa_ra", false, read::<M0ap_L0pr>),
    ("M0ap_L0ar", "xa.y", false, read::<M0ap_L0ar>),
    ("M0ap_L0ap", "pa_xa.y", false, read::<M0ap_L0ap>),
    ("M0ap_L0apr", "pa_xa.y", false, read::<M0ap_L0apr>),
    ("M0ap_L1", "pm_xm.ga_a", false, read::<M0ap_L1>),
    ("M0ap_L1r", "pm_xm.ga_ra", false, read::<M0ap_L1r>),
    ("M0ap_L1p", "pm_xm.pa_a", false, read::<M0ap_L1p>),
    ("M0ap_L1a", "xa.y", false, read::<M0ap_L1a>),
    ("M0ap_L1pr", "pm_xm.pa_ra", false, read::<M0ap_L1pr>),
    ("M0ap_L1ar", "xa.y", false, read::<M0ap_L1ar>),
    ("M0ap_L1ap", "pa_xa.y", false, read::<M0ap_L1ap>),
    ("M0ap_L1apr", "pa_xa.y", false, read::<M0ap_L1apr>),
    ("M0ap_L0Sv", "pm_xm.a", true, read::<M0ap_L0Sv>),
    ("M0ap_L0rSv", "pm_xm.ra", true, read::<M0ap_L0rSv>),
    ("M0ap_L0pSv", "pm_xm.pa_a", true, read::<M0ap_L0pSv>),
    ("M0ap_L0aSv", "xa.y", true, read::<M0ap_L0aSv>),
    ("M0ap_L1Sv", "pm_xm.ga_a", true, read::<M0ap_L1Sv>),
    ("M0ap_L1rSv", "pm_xm.ga_ra", true, read::<M0ap_L1rSv>),
    ("M0ap_L1pSv", "pm_xm.pa_a", true, read::<M0ap_L1pSv>),
    ("M0ap_L1aSv", "xa.y", true, read::<M0ap_L1aSv>),
    ("M0apr_L0", "pm_xm.a", false, read::<M0apr_L0>),
    ("M0apr_L0r", "pm_xm.ra", false, read::<M0apr_L0r>),
    ("M0apr_L0p", "pm_xm.pa_a", false, read::<M0apr_L0p>),
    ("M0apr_L0a", "xa.y", false, read::<M0apr_L0a>),
    ("M0apr_L0pr", "pm_xm.pa_ra", false, read::<M0apr_L0pr>),
    ("M0apr_L0ar", "xa.y", false, read::<M0apr_L0ar>),
    ("M0apr_L0ap", "pa_xa.y", false, read::<M0apr_L0ap>),
    ("M0apr_L0apr", "pa_xa.y", false, read::<M0apr_L0apr>),
    ("M0apr_L1", "pm_xm.ga_a", false, read::<M0apr_L1>),
    ("M0apr_L1r", "pm_xm.ga_ra", false, read::<M0apr_L1r>),
    ("M0apr_L1p", "pm_xm.pa_a", false, read::<M0apr_L1p>),
    ("M0apr_L1a", "xa.y", false, read::<M0apr_L1a>),
    ("M0apr_L1pr", "pm_xm.pa_ra", false, read::<M0apr_L1pr>),
    ("M0apr_L1ar", "xa.y", false, read::<M0apr_L1ar>),
    ("M0apr_L1ap", "pa_xa.y", false, read::<M0apr_L1ap>),
    ("M0apr_L1apr", "pa_xa.y", false, read::<M0apr_L1apr>),
    ("M0apr_L0Sv", "pm_xm.a", true, read::<M0apr_L0Sv>),
    ("M0apr_L0rSv", "pm_xm.ra", true, read::<M0apr_L0rSv>),
    ("M0apr_L0pSv", "pm_xm.pa_a", true, read::<M0apr_L0pSv>),
    ("M0apr_L0aSv", "xa.y", true, read::<M0apr_L0aSv>),
    ("M0apr_L1Sv", "pm_xm.ga_a", true, read::<M0apr_L1Sv>),
    ("M0apr_L1rSv", "pm_xm.ga_ra", true, read::<M0apr_L1rSv>),
    ("M0apr_L1pSv", "pm_xm.pa_a", true, read::<M0apr_L1pSv>),
    ("M0apr_L1aSv", "xa.y", true, read::<M0apr_L1aSv>),
    ("M1_L0", "gm_m.a", false, read::<M1_L0>),
    ("M1_L0r", "gm_m.ra", false, read::<M1_L0r>),
    ("M1_L0p", "gm_m.pa_a", false, read::<M1_L0p>),
    ("M1_L0a", "xa.y", false, read::<M1_L0a>),
    ("M1_L0pr", "gm_m.pa_ra", false, read::<M1_L0pr>),
    ("M1_L0ar", "xa.y", false, read::<M1_L0ar>),
    ("M1_L0ap", "pa_xa.y", false, read::<M1_L0ap>),
    ("M1_L0apr", "pa_xa.y", false, read::<M1_L0apr>),
    ("M1_L1", "gm_m.ga_a", false, read::<M1_L1>),
    ("M1_L1r", "gm_m.ga_ra", false, read::<M1_L1r>),
    ("M1_L1p", "gm_m.pa_a", false, read::<M1_L1p>),
    ("M1_L1a", "xa.y", false, read::<M1_L1a>),
    ("M1_L1pr", "gm_m.pa_ra", false, read::<M1_L1pr>),
    ("M1_L1ar", "xa.y", false, read::<M1_L1ar>),
    ("M1_L1ap", "pa_xa.y", false, read::<M1_L1ap>),
    ("M1_L1apr", "pa_xa.y", false, read::<M1_L1apr>),
    ("M1_L0Sv", "gm_m.a", true, read::<M1_L0Sv>),
    ("M1_L0rSv", "gm_m.ra", true, read::<M1_L0rSv>),
    ("M1_L0pSv", "gm_m.pa_a", true, read::<M1_L0pSv>),
    ("M1_L0aSv", "xa.y", true, read::<M1_L0aSv>),
    ("M1_L0prSv", "gm_m.pa_ra", true, read::<M1_L0prSv>),
    ("M1_L0arSv", "xa.y", true, read::<M1_L0arSv>),
    ("M1_L0apSv", "pa_xa.y", true, read::<M1_L0apSv>),
    ("M1_L0aprSv", "pa_xa.y", true, read::<M1_L0aprSv>),
    ("M1_L1Sv", "gm_m.ga_a", true, read::<M1_L1Sv>),
    ("M1_L1rSv", "gm_m.ga_ra", true, read::<M1_L1rSv>),
    ("M1_L1pSv", "gm_m.pa_a", true, read::<M1_L1pSv>),
    ("M1_L1aSv", "xa.y", true, read::<M1_L1aSv>),
    ("M1_L1prSv", "gm_m.pa_ra", true, read::<M1_L1prSv>),
    ("M1_L1arSv", "xa.y", true, read::<M1_L1arSv>),
    ("M1_L1apSv", "pa_xa.y", true, read::<M1_L1apSv>),
    ("M1_L1aprSv", "pa_xa.y", true, read::<M1_L1aprSv>),
    ("M1r_L0", "gm_rm.a", false, read::<M1r_L0>),
    ("M1r_L0r", "gm_rm.ra", false, read::<M1r_L0r>),
    ("M1r_L0p", "gm_rm.pa_a", false, read::<M1r_L0p>),
    ("M1r_L0a", "xa.y", false, read::<M1r_L0a>),
    ("M1r_L0pr", "gm_rm.pa_ra", false, read::<M1r_L0pr>),
    ("M1r_L0ar", "xa.y", false, read::<M1r_L0ar>),
    ("M1r_L0ap", "pa_xa.y", false, read::<M1r_L0ap>),
    ("M1r_L0apr", "pa_xa.y", false, read::<M1r_L0apr>),
    ("M1r_L1", "gm_rm.ga_a", false, read::<M1r_L1>),
    ("M1r_L1r", "gm_rm.ga_ra", false, read::<M1r_L1r>),
    ("M1r_L1p", "gm_rm.pa_a", false, read::<M1r_L1p>),
    ("M1r_L1a", "xa.y", false, read::<M1r_L1a>),
    ("M1r_L1pr", "gm_rm.pa_ra", false, read::<M1r_L1pr>),
    ("M1r_L1ar", "xa.y", false, read::<M1r_L1ar>),
    ("M1r_L1ap", "pa_xa.y", false, read::<M1r_L1ap>),
    ("M1r_L1apr", "pa_xa.y", false, read::<M1r_L1apr>),
    ("M1r_L0Sv", "gm_rm.a", true, read::<M1r_L0Sv>),
    ("M1r_L0rSv", "gm_rm.ra", true, read::<M1r_L0rSv>),
    ("M1r_L0pSv", "gm_rm.pa_a", true, read::<M1r_L0pSv>),
    ("M1r_L0aSv", "xa.y", true, read::<M1r_L0aSv>),
    ("M1r_L0prSv", "gm_rm.pa_ra", true, read::<M1r_L0prSv>),
    ("M1r_L0arSv", "xa.y", true, read::<M1r_L0arSv>),
    ("M1r_L0apSv", "pa_xa.y", true, read::<M1r_L0apSv>),
    ("M1r_L0aprSv", "pa_xa.y", true, read::<M1r_L0aprSv>),
    ("M1r_L1Sv", "gm_rm.ga_a", true, read::<M1r_L1Sv>),
    ("M1r_L1rSv", "gm_rm.ga_ra", true, read::<M1r_L1rSv>),
    ("M1r_L1pSv", "gm_rm.pa_a", true, read::<M1r_L1pSv>),
    ("M1r_L1aSv", "xa.y", true, read::<M1r_L1aSv>),
    ("M1r_L1prSv", "gm_rm.pa_ra", true, read::<M1r_L1prSv>),
    ("M1r_L1arSv", "xa.y", true, read::<M1r_L1arSv>),
    ("M1r_L1apSv", "pa_xa.y", true, read::<M1r_L1apSv>),
    ("M1r_L1aprSv", "pa_xa.y", true, read::<M1r_L1aprSv>),
    ("M1p_L0", "pm_m.a", false, read::<M1p_L0>),
    ("M1p_L0r", "pm_m.ra", false, read::<M1p_L0r>),
    ("M1p_L0p", "pm_m.pa_a", false, read::<M1p_L0p>),
    ("M1p_L0a", "xa.y", false, read::<M1p_L0a>),
    ("M1p_L0pr", "pm_m.pa_ra", false, read::<M1p_L0pr>),
    ("M1p_L0ar", "xa.y", false, read::<M1p_L0ar>),
    ("M1p_L0ap", "pa_xa.y", false, read::<M1p_L0ap>),
    ("M1p_L0apr", "pa_xa.y", false, read::<M1p_L0apr>),
    ("M1p_L1", "pm_m.ga_a", false, read::<M1p_L1>),
    ("M1p_L1r", "pm_m.ga_ra", false, read::<M1p_L1r>),
    ("M1p_L1p", "pm_m.pa_a", false, read::<M1p_L1p>),
    ("M1p_L1a", "xa.y", false, read::<M1p_L1a>),
    ("M1p_L1pr", "pm_m.pa_ra", false, read::<M1p_L1pr>),
    ("M1p_L1ar", "xa.y", false, read::<M1p_L1ar>),
    ("M1p_L1ap", "pa_xa.y", false, read::<M1p_L1ap>),
    ("M1p_L1apr", "pa_xa.y", false, read::<M1p_L1apr>),
    ("M1p_L0Sv", "pm_m.a", true, read::<M1p_L0Sv>),
    ("M1p_L0rSv", "pm_m.ra", true, read::<M1p_L0rSv>),
    ("M1p_L0pSv", "pm_m.pa_a", true, read::<M1p_L0pSv>),
    ("M1p_L0aSv", "xa.y", true, read::<M1p_L0aSv>),
    ("M1p_L0prSv", "pm_m.pa_ra", true, read::<M1p_L0prSv>),
    ("M1p_L0arSv", "xa.y", true, read::<M1p_L0arSv>),
    ("M1p_L0apSv", "pa_xa.y", true, read::<M1p_L0apSv>),
    ("M1p_L0aprSv", "pa_xa.y", true, read::<M1p_L0aprSv>),
    ("M1p_L1Sv", "pm_m.ga_a", true, read::<M1p_L1Sv>),
    ("M1p_L1rSv", "pm_m.ga_ra", true, read::<M1p_L1rSv>),
    ("M1p_L1pSv", "pm_m.pa_a", true, read::<M1p_L1pSv>),
    ("M1p_L1aSv", "xa.y", true, read::<M1p_L1aSv>),
    ("M1p_L1prSv", "pm_m.pa_ra", true, read::<M1p_L1prSv>),
    ("M1p_L1arSv", "xa.y", true, read::<M1p_L1arSv>),
    ("M1p_L1apSv", "pa_xa.y", true, read::<M1p_L1apSv>),
    ("M1p_L1aprSv", "pa_xa.y", true, read::<M1p_L1aprSv>),
    ("M1a_L0", "xm.a", false, read::<M1a_L0>),
    ("M1a_L0r", "xm.ra", false, read::<M1a_L0r>),
    ("M1a_L0p", "xm.pa_a", false, read::<M1a_L0p>),
    ("M1a_L0a", "xa.y", false, read::<M1a_L0a>),
    ("M1a_L0pr", "xm.pa_ra", false, read::<M1a_L0pr>),
    ("M1a_L0ar", "xa.y", false, read::<M1a_L0ar>),
    ("M1a_L0ap", "pa_xa.y", false, read::<M1a_L0ap>),
    ("M1a_L0apr", "pa_xa.y", false, read::<M1a_L0apr>),
    ("M1a_L1", "xm.ga_a", false, read::<M1a_L1>),
    ("M1a_L1r", "xm.ga_ra", false, read::<M1a_L1r>),
    ("M1a_L1p", "xm.pa_a", false, read::<M1a_L1p>),
    ("M1a_L1a", "xa.y", false, read::<M1a_L1a>),
    ("M1a_L1pr", "xm.pa_ra", false, read::<M1a_L1pr>),
    ("M1a_L1ar", "xa.y", false, read::<M1a_L1ar>),
    ("M1a_L1ap", "pa_xa.y", false, read::<M1a_L1ap>),
    ("M1a_L1apr", "pa_xa.y", false, read::<M1a_L1apr>),
    ("M1a_L0Sv", "xm.a", true, read::<M1a_L0Sv>),
    ("M1a_L0rSv", "xm.ra", true, read::<M1a_L0rSv>),
    ("M1a_L0pSv", "xm.pa_a", true, read::<M1a_L0pSv>),
    ("M1a_L0aSv", "xa.y", true, read::<M1a_L0aSv>),
    ("M1a_L0prSv", "xm.pa_ra", true, read::<M1a_L0prSv>),
    ("M1a_L0arSv", "xa.y", true, read::<M1a_L0arSv>),
    ("M1a_L0apSv", "pa_xa.y", true, read::<M1a_L0apSv>),
    ("M1a_L0aprSv", "pa_xa.y", true, read::<M1a_L0aprSv>),
    ("M1a_L1Sv", "xm.ga_a", true, read::<M1a_L1Sv>),
    ("M1a_L1rSv", "xm.ga_ra", true, read::<M1a_L1rSv>),
    ("M1a_L1pSv", "xm.pa_a", true, read::<M1a_L1pSv>),
    ("M1a_L1aSv", "xa.y", true, read::<M1a_L1aSv>),
    ("M1a_L1prSv", "xm.pa_ra", true, read::<M1a_L1prSv>),
    ("M1a_L1arSv", "xa.y", true, read::<M1a_L1arSv>),
    ("M1a_L1apSv", "pa_xa.y", true, read::<M1a_L1apSv>),
    ("M1a_L1aprSv", "pa_xa.y", true, read::<M1a_L1aprSv>),
    ("M1pr_L0", "pm_rm.a", false, read::<M1pr_L0>),
    ("M1pr_L0r", "pm_rm.ra", false, read::<M1pr_L0r>),
    ("M1pr_L0p", "pm_rm.pa_a", false, read::<M1pr_L0p>),
    ("M1pr_L0a", "xa.y", false, read::<M1pr_L0a>),
    ("M1pr_L0pr", "pm_rm.pa_ra", false, read::<M1pr_L0pr>),
    ("M1pr_L0ar", "xa.y", false, read::<M1pr_L0ar>),
    ("M1pr_L0ap", "pa_xa.y", false, read::<M1pr_L0ap>),
    ("M1pr_L0apr", "pa_xa.y", false, read::<M1pr_L0apr>),
    ("M1pr_L1", "pm_rm.ga_a", false, read::<M1pr_L1>),
    ("M1pr_L1r", "pm_rm.ga_ra", false, read::<M1pr_L1r>),
    ("M1pr_L1p", "pm_rm.pa_a", false, read::<M1pr_L1p>),
    ("M1pr_L1a", "xa.y", false, read::<M1pr_L1a>),
    ("M1pr_L1pr", "pm_rm.pa_ra", false, read::<M1pr_L1pr>),
    ("M1pr_L1ar", "xa.y", false, read::<M1pr_L1ar>),
    ("M1pr_L1ap", "pa_xa.y", false, read::<M1pr_L1ap>),
    ("M1pr_L1apr", "pa_xa.y", false, read::<M1pr_L1apr>),
    ("M1pr_L0Sv", "pm_rm.a", true, read::<M1pr_L0Sv>),
    ("M1pr_L0rSv", "pm_rm.ra", true, read::<M1pr_L0rSv>),
    ("M1pr_L0pSv", "pm_rm.pa_a", true, read::<M1pr_L0pSv>),
    ("M1pr_L0aSv", "xa.y", true, read::<M1pr_L0aSv>),
    ("M1pr_L1Sv", "pm_rm.ga_a", true, read::<M1pr_L1Sv>),
    ("M1pr_L1rSv", "pm_rm.ga_ra", true, read::<M1pr_L1rSv>),
    ("M1pr_L1pSv", "pm_rm.pa_a", true, read::<M1pr_L1pSv>),
    ("M1pr_L1aSv", "xa.y", true, read::<M1pr_L1aSv>),
    ("M1ar_L0", "xm.a", false, read::<M1ar_L0>),
    ("M1ar_L0r", "xm.ra", false, read::<M1ar_L0r>),
    ("M1ar_L0p", "xm.pa_a", false, read::<M1ar_L0p>),
    ("M1ar_L0a", "xa.y", false, read::<M1ar_L0a>),
    ("M1ar_L0pr", "xm.pa_ra", false, read::<M1ar_L0pr>),
    ("M1ar_L0ar", "xa.y", false, read::<M1ar_L0ar>),
    ("M1ar_L0ap", "pa_xa.y", false, read::<M1ar_L0ap>),
    ("M1ar_L0apr", "pa_xa.y", false, read::<M1ar_L0apr>),
    ("M1ar_L1", "xm.ga_a", false, read::<M1ar_L1>),
    ("M1ar_L1r", "xm.ga_ra", false, read::<M1ar_L1r>),
    ("M1ar_L1p", "xm.pa_a", false, read::<M1ar_L1p>),
    ("M1ar_L1a", "xa.y", false, read::<M1ar_L1a>),
    ("M1ar_L1pr", "xm.pa_ra", false, read::<M1ar_L1pr>),
    ("M1ar_L1ar", "xa.y", false, read::<M1ar_L1ar>),
    ("M1ar_L1ap", "pa_xa.y", false, read::<M1ar_L1ap>),
    ("M1ar_L1apr", "pa_xa.y", false, read::<M1ar_L1apr>),
    ("M1ar_L0Sv", "xm.a", true, read::<M1ar_L0Sv>),
    ("M1ar_L0rSv", "xm.ra", true, read::<M1ar_L0rSv>),
    ("M1ar_L0pSv", "xm.pa_a", true, read::<M1ar_L0pSv>),
    ("M1ar_L0aSv", "xa.y", true, read::<M1ar_L0aSv>),
    ("M1ar_L1Sv", "xm.ga_a", true, read::<M1ar_L1Sv>),
    ("M1ar_L1rSv", "xm.ga_ra", true, read::<M1ar_L1rSv>),
    ("M1ar_L1pSv", "xm.pa_a", true, read::<M1ar_L1pSv>),
    ("M1ar_L1aSv", "xa.y", true, read::<M1ar_L1aSv>),
    ("M1ap_L0", "pm_xm.a", false, read::<M1ap_L0>),
    ("M1ap_L0r", "pm_xm.ra", false, read::<M1ap_L0r>),
    ("M1ap_L0p", "pm_xm.pa_a", false, read::<M1ap_L0p>),
    ("M1ap_L0a", "xa.y", false, read::<M1ap_L0a>),
    ("M1ap_L0pr", "pm_xm.pa_ra", false, read::<M1ap_L0pr>),
    ("M1ap_L0ar", "xa.y", false, read::<M1ap_L0ar>),
    ("M1ap_L0ap", "pa_xa.y", false, read::<M1ap_L0ap>),
    ("M1ap_L0apr", "pa_xa.y", false, read::<M1ap_L0apr>),
    ("M1ap_L1", "pm_xm.ga_a", false, read::<M1ap_L1>),
    ("M1ap_L1r", "pm_xm.ga_ra", false, read::<M1ap_L1r>),
    ("M1ap_L1p", "pm_xm.pa_a", false, read::<M1ap_L1p>),
    ("M1ap_L1a", "xa.y", false, read::<M1ap_L1a>),
    ("M1ap_L1pr", "pm_xm.pa_ra", false, read::<M1ap_L1pr>),
    ("M1ap_L1ar", "xa.y", false, read::<M1ap_L1ar>),
    ("M1ap_L1ap", "pa_xa.y", false, read::<M1ap_L1ap>),
    ("M1ap_L1apr", "pa_xa.y", false, read::<M1ap_L1apr>),
    ("M1ap_L0Sv", "pm_xm.a", true, read::<M1ap_L0Sv>),
    ("M1ap_L0rSv", "pm_xm.ra", true, read::<M1ap_L0rSv>),
    ("M1ap_L0pSv", "pm_xm.pa_a", true, read::<M1ap_L0pSv>),
    ("M1ap_L0aSv", "xa.y", true, read::<M1ap_L0aSv>),
    ("M1ap_L1Sv", "pm_xm.ga_a", true, read::<M1ap_L1Sv>),
    ("M1ap_L1rSv", "pm_xm.ga_ra", true, read::<M1ap_L1rSv>),
    ("M1ap_L1pSv", "pm_xm.pa_a", true, read::<M1ap_L1pSv>),
    ("M1ap_L1aSv", "xa.y", true, read::<M1ap_L1aSv>),
    ("M1apr_L0", "pm_xm.a", false, read::<M1apr_L0>),
    ("M1apr_L0r", "pm_xm.ra", false, read::<M1apr_L0r>),
    ("M1apr_L0p", "pm_xm.pa_a", false, read::<M1apr_L0p>),
    ("M1apr_L0a", "xa.y", false, read::<M1apr_L0a>),
    ("M1apr_L0pr", "pm_xm.pa_ra", false, read::<M1apr_L0pr>),
    ("M1apr_L0ar", "xa.y", false, read::<M1apr_L0ar>),
    ("M1apr_L0ap", "pa_xa.y", false, read::<M1apr_L0ap>),
    ("M1apr_L0apr", "pa_xa.y", false, read::<M1apr_L0apr>),
    ("M1apr_L1", "pm_xm.ga_a", false, read::<M1apr_L1>),
    ("M1apr_L1r", "pm_xm.ga_ra", false, read::<M1apr_L1r>),
    ("M1apr_L1p", "pm_xm.pa_a", false, read::<M1apr_L1p>),
    ("M1apr_L1a", "xa.y", false, read::<M1apr_L1a>),
    ("M1apr_L1pr", "pm_xm.pa_ra", false, read::<M1apr_L1pr>),
    ("M1apr_L1ar", "xa.y", false, read::<M1apr_L1ar>),
    ("M1apr_L1ap", "pa_xa.y", false, read::<M1apr_L1ap>),
    ("M1apr_L1apr", "pa_xa.y", false, read::<M1apr_L1apr>),
    ("M1apr_L0Sv", "pm_xm.a", true, read::<M1apr_L0Sv>),
    ("M1apr_L0rSv", "pm_xm.ra", true, read::<M1apr_L0rSv>),
    ("M1apr_L0pSv", "pm_xm.pa_a", true, read::<M1apr_L0pSv>),
    ("M1apr_L0aSv", "xa.y", true, read::<M1apr_L0aSv>),
    ("M1apr_L1Sv", "pm_xm.ga_a", true, read::<M1apr_L1Sv>),
    ("M1apr_L1rSv", "pm_xm.ga_ra", true, read::<M1apr_L1rSv>),
    ("M1apr_L1pSv", "pm_xm.pa_a", true, read::<M1apr_L1pSv>),
    ("M1apr_L1aSv", "xa.y", true, read::<M1apr_L1aSv>),
    ("T0_M0_L0", "t.m.a", false, read::<T0_M0_L0>),
    ("T0_M0_L0r", "t.m.ra", false, read::<T0_M0_L0r>),
    ("T0_M0_L0p", "t.m.pa_a", false, read::<T0_M0_L0p>),
    ("T0_M0_L0a", "xa.y", false, read::<T0_M0_L0a>),
    ("T0_M0_L1", "t.m.ga_a", false, read::<T0_M0_L1>),
    ("T0_M0_L1r", "t.m.ga_ra", false, read::<T0_M0_L1r>),
    ("T0_M0_L1p", "t.m.pa_a", false, read::<T0_M0_L1p>),
    ("T0_M0_L1a", "xa.y", false, read::<T0_M0_L1a>),
    ("T0_M0r_L0", "t.rm.a", false, read::<T0_M0r_L0>),
    ("T0_M0r_L0r", "t.rm.ra", false, read::<T0_M0r_L0r>),
    ("T0_M0r_L0p", "t.rm.pa_a", false, read::<T0_M0r_L0p>),
    ("T0_M0r_L0a", "xa.y", false, read::<T0_M0r_L0a>),
    ("T0_M0r_L1", "t.rm.ga_a", false, read::<T0_M0r_L1>),
    ("T0_M0r_L1r", "t.rm.ga_ra", false, read::<T0_M0r_L1r>),
    ("T0_M0r_L1p", "t.rm.pa_a", false, read::<T0_M0r_L1p>),
    ("T0_M0r_L1a", "xa.y", false, read::<T0_M0r_L1a>),
    ("T0_M0p_L0", "t.pm_m.a", false, read::<T0_M0p_L0>),
    ("T0_M0p_L0r", "t.pm_m.ra", false, read::<T0_M0p_L0r>),
    ("T0_M0p_L0p", "t.pm_m.pa_a", false, read::<T0_M0p_L0p>),
    ("T0_M0p_L0a", "xa.y", false, read::<T0_M0p_L0a>),
    ("T0_M0p_L1", "t.pm_m.ga_a", false, read::<T0_M0p_L1>),
    ("T0_M0p_L1r", "t.pm_m.ga_ra", false, read::<T0_M0p_L1r>),
    ("T0_M0p_L1p", "t.pm_m.pa_a", false, read::<T0_M0p_L1p>),
    ("T0_M0p_L1a", "xa.y", false, read::<T0_M0p_L1a>),
    ("T0_M0a_L0", "xm.a", false, read::<T0_M0a_L0>),
    ("T0_M0a_L0r", "xm.ra", false, read::<T0_M0a_L0r>),
    ("T0_M0a_L0p", "xm.pa_a", false, read::<T0_M0a_L0p>),
    ("T0_M0a_L0a", "xa.y", false, read::<T0_M0a_L0a>),
    ("T0_M0a_L1", "xm.ga_a", false, read::<T0_M0a_L1>),
    ("T0_M0a_L1r", "xm.ga_ra", false, read::<T0_M0a_L1r>),
    ("T0_M0a_L1p", "xm.pa_a", false, read::<T0_M0a_L1p>),
    ("T0_M0a_L1a", "xa.y", false, read::<T0_M0a_L1a>),
    ("T0_M1_L0", "t.gm_m.a", false, read::<T0_M1_L0>),
    ("T0_M1_L0r", "t.gm_m.ra", false, read::<T0_M1_L0r>),
    ("T0_M1_L0p", "t.gm_m.pa_a", false, read::<T0_M1_L0p>),
    ("T0_M1_L0a", "xa.y", false, read::<T0_M1_L0a>),
    ("T0_M1_L1", "t.gm_m.ga_a", false, read::<T0_M1_L1>),
    ("T0_M1_L1r", "t.gm_m.ga_ra", false, read::<T0_M1_L1r>),
    ("T0_M1_L1p", "t.gm_m.pa_a", false, read::<T0_M1_L1p>),
    ("T0_M1_L1a", "xa.y", false, read::<T0_M1_L1a>),
    ("T0_M1r_L0", "t.gm_rm.a", false, read::<T0_M1r_L0>),
    ("T0_M1r_L0r", "t.gm_rm.ra", false, read::<T0_M1r_L0r>),
    ("T0_M1r_L0p", "t.gm_rm.pa_a", false, read::<T0_M1r_L0p>),
    ("T0_M1r_L0a", "xa.y", false, read::<T0_M1r_L0a>),
    ("T0_M1r_L1", "t.gm_rm.ga_a", false, read::<T0_M1r_L1>),
    ("T0_M1r_L1r", "t.gm_rm.ga_ra", false, read::<T0_M1r_L1r>),
    ("T0_M1r_L1p", "t.gm_rm.pa_a", false, read::<T0_M1r_L1p>),
    ("T0_M1r_L1a", "xa.y", false, read::<T0_M1r_L1a>),
    ("T0_M1p_L0", "t.pm_m.a", false, read::<T0_M1p_L0>),
    ("T0_M1p_L0r", "t.pm_m.ra", false, read::<T0_M1p_L0r>),
    ("T0_M1p_L0p", "t.pm_m.pa_a", false, read::<T0_M1p_L0p>),
    ("T0_M1p_L0a", "xa.y", false, read::<T0_M1p_L0a>),
    ("T0_M1p_L1", "t.pm_m.ga_a", false, read::<T0_M1p_L1>),
    ("T0_M1p_L1r", "t.pm_m.ga_ra", false, read::<T0_M1p_L1r>),
    ("T0_M1p_L1p", "t.pm_m.pa_a", false, read::<T0_M1p_L1p>),
    ("T0_M1p_L1a", "xa.y", false, read::<T0_M1p_L1a>),
    ("T0_M1a_L0", "xm.a", false, read::<T0_M1a_L0>),
    ("T0_M1a_L0r", "xm.ra", false, read::<T0_M1a_L0r>),
    ("T0_M1a_L0p", "xm.pa_a", false, read::<T0_M1a_L0p>),
    ("T0_M1a_L0a", "xa.y", false, read::<T0_M1a_L0a>),
    ("T0_M1a_L1", "xm.ga_a", false, read::<T0_M1a_L1>),
    ("T0_M1a_L1r", "xm.ga_ra", false, read::<T0_M1a_L1r>),
    ("T0_M1a_L1p", "xm.pa_a", false, read::<T0_M1a_L1p>),
    ("T0_M1a_L1a", "xa.y", false, read::<T0_M1a_L1a>),
    ("T0r_M0_L0", "rt.m.a", false, read::<T0r_M0_L0>),
    ("T0r_M0_L0r", "rt.m.ra", false, read::<T0r_M0_L0r>),
    ("T0r_M0_L0p", "rt.m.pa_a", false, read::<T0r_M0_L0p>),
    ("T0r_M0_L0a", "xa.y", false, read::<T0r_M0_L0a>),
    ("T0r_M0_L1", "rt.m.ga_a", false, read::<T0r_M0_L1>),
    ("T0r_M0_L1r", "rt.m.ga_ra", false, read::<T0r_M0_L1r>),
    ("T0r_M0_L1p", "rt.m.pa_a", false, read::<T0r_M0_L1p>),
    ("T0r_M0_L1a", "xa.y", false, read::<T0r_M0_L1a>),
    ("T0r_M0r_L0", "rt.rm.a", false, read::<T0r_M0r_L0>),
    ("T0r_M0r_L0r", "rt.rm.ra", false, read::<T0r_M0r_L0r>),
    ("T0r_M0r_L0p", "rt.rm.pa_a", false, read::<T0r_M0r_L0p>),
    ("T0r_M0r_L0a", "xa.y", false, read::<T0r_M0r_L0a>),
    ("T0r_M0r_L1", "rt.rm.ga_a", false, read::<T0r_M0r_L1>),
    ("T0r_M0r_L1r", "rt.rm.ga_ra", false, read::<T0r_M0r_L1r>),
    ("T0r_M0r_L1p", "rt.rm.pa_a", false, read::<T0r_M0r_L1p>),
    ("T0r_M0r_L1a", "xa.y", false, read::<T0r_M0r_L1a>),
    ("T0r_M0p_L0", "rt.pm_m.a", false, read::<T0r_M0p_L0>),
    ("T0r_M0p_L0r", "rt.pm_m.ra", false, read::<T0r_M0p_L0r>),
    ("T0r_M0p_L0p", "rt.pm_m.pa_a", false, read::<T0r_M0p_L0p>),
    ("T0r_M0p_L0a", "xa.y", false, read::<T0r_M0p_L0a>),
    ("T0r_M0p_L1", "rt.pm_m.ga_a", false, read::<T0r_M0p_L1>),
    ("T0r_M0p_L1r", "rt.pm_m.ga_ra", false, read::<T0r_M0p_L1r>),
    ("T0r_M0p_L1p", "rt.pm_m.pa_a", false, read::<T0r_M0p_L1p>),
    ("T0r_M0p_L1a", "xa.y", false, read::<T0r_M0p_L1a>),
    ("T0r_M0a_L0", "xm.a", false, read::<T0r_M0a_L0>),
    ("T0r_M0a_L0r", "xm.ra", false, read::<T0r_M0a_L0r>),
    ("T0r_M0a_L0p", "xm.pa_a", false, read::<T0r_M0a_L0p>),
    ("T0r_M0a_L0a", "xa.y", false, read::<T0r_M0a_L0a>),
    ("T0r_M0a_L1", "xm.ga_a", false, read::<T0r_M0a_L1>),
    ("T0r_M0a_L1r", "xm.ga_ra", false, read::<T0r_M0a_L1r>),
    ("T0r_M0a_L1p", "xm.pa_a", false, read::<T0r_M0a_L1p>),
    ("T0r_M0a_L1a", "xa.y", false, read::<T0r_M0a_L1a>),
    ("T0r_M1_L0", "rt.gm_m.a", false, read::<T0r_M1_L0>),
    ("T0r_M1_L0r", "rt.gm_m.ra", false, read::<T0r_M1_L0r>),
    ("T0r_M1_L0p", "rt.gm_m.pa_a", false, read::<T0r_M1_L0p>),
    ("T0r_M1_L0a", "xa.y", false, read::<T0r_M1_L0a>),
    ("T0r_M1_L1", "rt.gm_m.ga_a", false, read::<T0r_M1_L1>),
    ("T0r_M1_L1r", "rt.gm_m.ga_ra", false, read::<T0r_M1_L1r>),
    ("T0r_M1_L1p", "rt.gm_m.pa_a", false, read::<T0r_M1_L1p>),
    ("T0r_M1_L1a", "xa.y", false, read::<T0r_M1_L1a>),
    ("T0r_M1r_L0", "rt.gm_rm.a", false, read::<T0r_M1r_L0>),
    ("T0r_M1r_L0r", "rt.gm_rm.ra", false, read::<T0r_M1r_L0r>),
    ("T0r_M1r_L0p", "rt.gm_rm.pa_a", false, read::<T0r_M1r_L0p>),
    ("T0r_M1r_L0a", "xa.y", false, read::<T0r_M1r_L0a>),
    ("T0r_M1r_L1", "rt.gm_rm.ga_a", false, read::<T0r_M1r_L1>),
    ("T0r_M1r_L1r", "rt.gm_rm.ga_ra", false, read::<T0r_M1r_L1r>),
    ("T0r_M1r_L1p", "rt.gm_rm.pa_a", false, read::<T0r_M1r_L1p>),
    ("T0r_M1r_L1a", "xa.y", false, read::<T0r_M1r_L1a>),
    ("T0r_M1p_L0", "rt.pm_m.a", false, read::<T0r_M1p_L0>),
    ("T0r_M1p_L0r", "rt.pm_m.ra", false, read::<T0r_M1p_L0r>),
    ("T0r_M1p_L0p", "rt.pm_m.pa_a", false, read::<T0r_M1p_L0p>),
    ("T0r_M1p_L0a", "xa.y", false, read::<T0r_M1p_L0a>),
    ("T0r_M1p_L1", "rt.pm_m.ga_a", false, read::<T0r_M1p_L1>),
    ("T0r_M1p_L1r", "rt.pm_m.ga_ra", false, read::<T0r_M1p_L1r>),
    ("T0r_M1p_L1p", "rt.pm_m.pa_a", false, read::<T0r_M1p_L1p>),
    ("T0r_M1p_L1a", "xa.y", false, read::<T0r_M1p_L1a>),
    ("T0r_M1a_L0", "xm.a", false, read::<T0r_M1a_L0>),
    ("T0r_M1a_L0r", "xm.ra", false, read::<T0r_M1a_L0r>),
    ("T0r_M1a_L0p", "xm.pa_a", false, read::<T0r_M1a_L0p>),
    ("T0r_M1a_L0a", "xa.y", false, read::<T0r_M1a_L0a>),
    ("T0r_M1a_L1", "xm.ga_a", false, read::<T0r_M1a_L1>),
    ("T0r_M1a_L1r", "xm.ga_ra", false, read::<T0r_M1a_L1r>),
    ("T0r_M1a_L1p", "xm.pa_a", false, read::<T0r_M1a_L1p>),
    ("T0r_M1a_L1a", "xa.y", false, read::<T0r_M1a_L1a>),
    ("T0p_M0_L0", "pt_t.m.a", false, read::<T0p_M0_L0>),
    ("T0p_M0_L0r", "pt_t.m.ra", false, read::<T0p_M0_L0r>),
    ("T0p_M0_L0p", "pt_t.m.pa_a", false, read::<T0p_M0_L0p>),
    ("T0p_M0_L0a", "xa.y", false, read::<T0p_M0_L0a>),
    ("T0p_M0_L1", "pt_t.m.ga_a", false, read::<T0p_M0_L1>),
    ("T0p_M0_L1r", "pt_t.m.ga_ra", false, read::<T0p_M0_L1r>),
    ("T0p_M0_L1p", "pt_t.m.pa_a", false, read::<T0p_M0_L1p>),
    ("T0p_M0_L1a", "xa.y", false, read::<T0p_M0_L1a>),
    ("T0p_M0r_L0", "pt_t.rm.a", false, read::<T0p_M0r_L0>),
    ("T0p_M0r_L0r", "pt_t.rm.ra", false, read::<T0p_M0r_L0r>),
    ("T0p_M0r_L0p", "pt_t.rm.pa_a", false, read::<T0p_M0r_L0p>),
    ("T0p_M0r_L0a", "xa.y", false, read::<T0p_M0r_L0a>),
    ("T0p_M0r_L1", "pt_t.rm.ga_a", false, read::<T0p_M0r_L1>),
    ("T0p_M0r_L1r", "pt_t.rm.ga_ra", false, read::<T0p_M0r_L1r>),
    ("T0p_M0r_L1p", "pt_t.rm.pa_a", false, read::<T0p_M0r_L1p>),
    ("T0p_M0r_L1a", "xa.y", false, read::<T0p_M0r_L1a>),
    ("T0p_M0p_L0", "pt_t.pm_m.a", false, read::<T0p_M0p_L0>),
    ("T0p_M0p_L0r", "pt_t.pm_m.ra", false, read::<T0p_M0p_L0r>),
    ("T0p_M0p_L0p", "pt_t.pm_m.pa_a", false, read::<T0p_M0p_L0p>),
    ("T0p_M0p_L0a", "xa.y", false, read::<T0p_M0p_L0a>),
    ("T0p_M0p_L1", "pt_t.pm_m.ga_a", false, read::<T0p_M0p_L1>),
    ("T0p_M0p_L1r", "pt_t.pm_m.ga_ra", false, read::<T0p_M0p_L1r>),
    ("T0p_M0p_L1p", "pt_t.pm_m.pa_a", false, read::<T0p_M0p_L1p>),
    ("T0p_M0p_L1a", "xa.y", false, read::<T0p_M0p_L1a>),
    ("T0p_M0a_L0", "xm.a", false, read::<T0p_M0a_L0>),
    ("T0p_M0a_L0r", "xm.ra", false, read::<T0p_M0a_L0r>),
    ("T0p_M0a_L0p", "xm.pa_a", false, read::<T0p_M0a_L0p>),
    ("T0p_M0a_L0a", "xa.y", false, read::<T0p_M0a_L0a>),
    ("T0p_M0a_L1", "xm.ga_a", false, read::<T0p_M0a_L1>),
    ("T0p_M0a_L1r", "xm.ga_ra", false, read::<T0p_M0a_L1r>),
    ("T0p_M0a_L1p", "xm.pa_a", false, read::<T0p_M0a_L1p>),
    ("T0p_M0a_L1a", "xa.y", false, read::<T0p_M0a_L1a>),
    ("T0p_M1_L0", "pt_t.gm_m.a", false, read::<T0p_M1_L0>),
    ("T0p_M1_L0r", "pt_t.gm_m.ra", false, read::<T0p_M1_L0r>),
    ("T0p_M1_L0p", "pt_t.gm_m.pa_a", false, read::<T0p_M1_L0p>),
    ("T0p_M1_L0a", "xa.y", false, read::<T0p_M1_L0a>),
    ("T0p_M1_L1", "pt_t.gm_m.ga_a", false, read::<T0p_M1_L1>),
    ("T0p_M1_L1r", "pt_t.gm_m.ga_ra", false, read::<T0p_M1_L1r>),
    ("T0p_M1_L1p", "pt_t.gm_m.pa_a", false, read::<T0p_M1_L1p>),
    ("T0p_M1_L1a", "xa.y", false, read::<T0p_M1_L1a>),
    ("T0p_M1r_L0", "pt_t.gm_rm.a", false, read::<T0p_M1r_L0>),
    ("T0p_M1r_L0r", "pt_t.gm_rm.ra", false, read::<T0p_M1r_L0r>),
    ("T0p_M1r_L0p", "pt_t.gm_rm.pa_a", false, read::<T0p_M1r_L0p>),
    ("T0p_M1r_L0a", "xa.y", false, read::<T0p_M1r_L0a>),
    ("T0p_M1r_L1", "pt_t.gm_rm.ga_a", false, read::<T0p_M1r_L1>),
    ("T0p_M1r_L1r", "pt_t.gm_rm.ga_ra", false, read::<T0p_M1r_L1r>),
    ("T0p_M1r_L1p", "pt_t.gm_rm.pa_a", false, read::<T0p_M1r_L1p>),
    ("T0p_M1r_L1a", "xa.y", false, read::<T0p_M1r_L1a>),
    ("T0p_M1p_L0", "pt_t.pm_m.a", false, read::<T0p_M1p_L0>),
    ("T0p_M1p_L0r", "pt_t.pm_m.ra", false, read::<T0p_M1p_L0r>),
    ("T0p_M1p_L0p", "pt_t.pm_m.pa_a", false, read::<T0p_M1p_L0p>),
    ("T0p_M1p_L0a", "xa.y", false, read::<T0p_M1p_L0a>),
    ("T0p_M1p_L1", "pt_t.pm_m.ga_a", false, read::<T0p_M1p_L1>),
    ("T0p_M1p_L1r", "pt_t.pm_m.ga_ra", false, read::<T0p_M1p_L1r>),
    ("T0p_M1p_L1p", "pt_t.pm_m.pa_a", false, read::<T0p_M1p_L1p>),
    ("T0p_M1p_L1a", "xa.y", false, read::<T0p_M1p_L1a>),
    ("T0p_M1a_L0", "xm.a", false, read::<T0p_M1a_L0>),
    ("T0p_M1a_L0r", "xm.ra", false, read::<T0p_M1a_L0r>),
    ("T0p_M1a_L0p", "xm.pa_a", false, read::<T0p_M1a_L0p>),
    ("T0p_M1a_L0a", "xa.y", false, read::<T0p_M1a_L0a>),
    ("T0p_M1a_L1", "xm.ga_a", false, read::<T0p_M1a_L1>),
    ("T0p_M1a_L1r", "xm.ga_ra", false, read::<T0p_M1a_L1r>),
    ("T0p_M1a_L1p", "xm.pa_a", false, read::<T0p_M1a_L1p>),
    ("T0p_M1a_L1a", "xa.y", false, read::<T0p_M1a_L1a>),
    ("T0a_M0_L0", "xt.m.a", false, read::<T0a_M0_L0>),
    ("T0a_M0_L0r", "xt.m.ra", false, read::<T0a_M0_L0r>),
    ("T0a_M0_L0p", "xt.m.pa_a", false, read::<T0a_M0_L0p>),
    ("T0a_M0_L0a", "xa.y", false, read::<T0a_M0_L0a>),
    ("T0a_M0_L1", "xt.m.ga_a", false, read::<T0a_M0_L1>),
    ("T0a_M0_L1r", "xt.m.ga_ra", false, read::<T0a_M0_L1r>),
    ("T0a_M0_L1p", "xt.m.pa_a", false, read::<T0a_M0_L1p>),
    ("T0a_M0_L1a", "xa.y", false, read::<T0a_M0_L1a>),
    ("T0a_M0r_L0", "xt.rm.a", false, read::<T0a_M0r_L0>),
    ("T0a_M0r_L0r", "xt.rm.ra", false, read::<T0a_M0r_L0r>),
    ("T0a_M0r_L0p", "xt.rm.pa_a", false, read::<T0a_M0r_L0p>),
    ("T0a_M0r_L0a", "xa.y", false, read::<T0a_M0r_L0a>),
    ("T0a_M0r_L1", "xt.rm.ga_a", false, read::<T0a_M0r_L1>),
    ("T0a_M0r_L1r", "xt.rm.ga_ra", false, read::<T0a_M0r_L1r>),
    ("T0a_M0r_L1p", "xt.rm.pa_a", false, read::<T0a_M0r_L1p>),
    ("T0a_M0r_L1a", "xa.y", false, read::<T0a_M0r_L1a>),
    ("T0a_M0p_L0", "xt.pm_m.a", false, read::<T0a_M0p_L0>),
    ("T0a_M0p_L0r", "xt.pm_m.ra", false, read::<T0a_M0p_L0r>),
    ("T0a_M0p_L0p", "xt.pm_m.pa_a", false, read::<T0a_M0p_L0p>),
    ("T0a_M0p_L0a", "xa.y", false, read::<T0a_M0p_L0a>),
    ("T0a_M0p_L1", "xt.pm_m.ga_a", false, read::<T0a_M0p_L1>),
    ("T0a_M0p_L1r", "xt.pm_m.ga_ra", false, read::<T0a_M0p_L1r>),
    ("T0a_M0p_L1p", "xt.pm_m.pa_a", false, read::<T0a_M0p_L1p>),
    ("T0a_M0p_L1a", "xa.y", false, read::<T0a_M0p_L1a>),
    ("T0a_M0a_L0", "xm.a", false, read::<T0a_M0a_L0>),
    ("T0a_M0a_L0r", "xm.ra", false, read::<T0a_M0a_L0r>),
    ("T0a_M0a_L0p", "xm.pa_a", false, read::<T0a_M0a_L0p>),
    ("T0a_M0a_L0a", "xa.y", false, read::<T0a_M0a_L0a>),
    ("T0a_M0a_L1", "xm.ga_a", false, read::<T0a_M0a_L1>),
    ("T0a_M0a_L1r", "xm.ga_ra", false, read::<T0a_M0a_L1r>),
    ("T0a_M0a_L1p", "xm.pa_a", false, read::<T0a_M0a_L1p>),
    ("T0a_M0a_L1a", "xa.y", false, read::<T0a_M0a_L1a>),
    ("T0a_M1_L0", "xt.gm_m.a", false, read::<T0a_M1_L0>),
    ("T0a_M1_L0r", "xt.gm_m.ra", false, read::<T0a_M1_L0r>),
    ("T0a_M1_L0p", "xt.gm_m.pa_a", false, read::<T0a_M1_L0p>),
    ("T0a_M1_L0a", "xa.y", false, read::<T0a_M1_L0a>),
    ("T0a_M1_L1", "xt.gm_m.ga_a", false, read::<T0a_M1_L1>),
    ("T0a_M1_L1r", "xt.gm_m.ga_ra", false, read::<T0a_M1_L1r>),
    ("T0a_M1_L1p", "xt.gm_m.pa_a", false, read::<T0a_M1_L1p>),
    ("T0a_M1_L1a", "xa.y", false, read::<T0a_M1_L1a>),
    ("T0a_M1r_L0", "xt.gm_rm.a", false, read::<T0a_M1r_L0>),
    ("T0a_M1r_L0r", "xt.gm_rm.ra", false, read::<T0a_M1r_L0r>),
    ("T0a_M1r_L0p", "xt.gm_rm.pa_a", false, read::<T0a_M1r_L0p>),
    ("T0a_M1r_L0a", "xa.y", false, read::<T0a_M1r_L0a>),
    ("T0a_M1r_L1", "xt.gm_rm.ga_a", false, read::<T0a_M1r_L1>),
    ("T0a_M1r_L1r", "xt.gm_rm.ga_ra", false, read::<T0a_M1r_L1r>),
    ("T0a_M1r_L1p", "xt.gm_rm.pa_a", false, read::<T0a_M1r_L1p>),
    ("T0a_M1r_L1a", "xa.y", false, read::<T0a_M1r_L1a>),
    ("T0a_M1p_L0", "xt.pm_m.a", false, read::<T0a_M1p_L0>),
    ("T0a_M1p_L0r", "xt.pm_m.ra", false, read::<T0a_M1p_L0r>),
    ("T0a_M1p_L0p", "xt.pm_m.pa_a", false, read::<T0a_M1p_L0p>),
    ("T0a_M1p_L0a", "xa.y", false, read::<T0a_M1p_L0a>),
    ("T0a_M1p_L1", "xt.pm_m.ga_a", false, read::<T0a_M1p_L1>),
    ("T0a_M1p_L1r", "xt.pm_m.ga_ra", false, read::<T0a_M1p_L1r>),
    ("T0a_M1p_L1p", "xt.pm_m.pa_a", false, read::<T0a_M1p_L1p>),
    ("T0a_M1p_L1a", "xa.y", false, read::<T0a_M1p_L1a>),
    ("T0a_M1a_L0", "xm.a", false, read::<T0a_M1a_L0>),
    ("T0a_M1a_L0r", "xm.ra", false, read::<T0a_M1a_L0r>),
    ("T0a_M1a_L0p", "xm.pa_a", false, read::<T0a_M1a_L0p>),
    ("T0a_M1a_L0a", "xa.y", false, read::<T0a_M1a_L0a>),
    ("T0a_M1a_L1", "xm.ga_a", false, read::<T0a_M1a_L1>),
    ("T0a_M1a_L1r", "xm.ga_ra", false, read::<T0a_M1a_L1r>),
    ("T0a_M1a_L1p", "xm.pa_a", false, read::<T0a_M1a_L1p>),
    ("T0a_M1a_L1a", "xa.y", false, read::<T0a_M1a_L1a>),
    ("T1_M0_L0", "gt_t.m.a", false, read::<T1_M0_L0>),
    ("T1_M0_L0r", "gt_t.m.ra", false, read::<T1_M0_L0r>),
    ("T1_M0_L0p", "gt_t.m.pa_a", false, read::<T1_M0_L0p>),
    ("T1_M0_L0a", "xa.y", false, read::<T1_M0_L0a>),
    ("T1_M0_L1", "gt_t.m.ga_a", false, read::<T1_M0_L1>),
    ("T1_M0_L1r", "gt_t.m.ga_ra", false, read::<T1_M0_L1r>),
    ("T1_M0_L1p", "gt_t.m.pa_a", false, read::<T1_M0_L1p>),
    ("T1_M0_L1a", "xa.y", false, read::<T1_M0_L1a>),
    ("T1_M0r_L0", "gt_t.rm.a", false, read::<T1_M0r_L0>),
    ("T1_M0r_L0r", "gt_t.rm.ra", false, read::<T1_M0r_L0r>),
    ("T1_M0r_L0p", "gt_t.rm.pa_a", false, read::<T1_M0r_L0p>),
    ("T1_M0r_L0a", "xa.y", false, read::<T1_M0r_L0a>),
    ("T1_M0r_L1", "gt_t.rm.ga_a", false, read::<T1_M0r_L1>),
    ("T1_M0r_L1r", "gt_t.rm.ga_ra", false, read::<T1_M0r_L1r>),
    ("T1_M0r_L1p", "gt_t.rm.pa_a", false, read::<T1_M0r_L1p>),
    ("T1_M0r_L1a", "xa.y", false, read::<T1_M0r_L1a>),
    ("T1_M0p_L0", "gt_t.pm_m.a", false, read::<T1_M0p_L0>),
    ("T1_M0p_L0r", "gt_t.pm_m.ra", false, read::<T1_M0p_L0r>),
    ("T1_M0p_L0p", "gt_t.pm_m.pa_a", false, read::<T1_M0p_L0p>),
    ("T1_M0p_L0a", "xa.y", false, read::<T1_M0p_L0a>),
    ("T1_M0p_L1", "gt_t.pm_m.ga_a", false, read::<T1_M0p_L1>),
    ("T1_M0p_L1r", "gt_t.pm_m.ga_ra", false, read::<T1_M0p_L1r>),
    ("T1_M0p_L1p", "gt_t.pm_m.pa_a", false, read::<T1_M0p_L1p>),
    ("T1_M0p_L1a", "xa.y", false, read::<T1_M0p_L1a>),
    ("T1_M0a_L0", "xm.a", false, read::<T1_M0a_L0>),
    ("T1_M0a_L0r", "xm.ra", false, read::<T1_M0a_L0r>),
    ("T1_M0a_L0p", "xm.pa_a", false, read::<T1_M0a_L0p>),
    ("T1_M0a_L0a", "xa.y", false, read::<T1_M0a_L0a>),
    ("T1_M0a_L1", "xm.ga_a", false, read::<T1_M0a_L1>),
    ("T1_M0a_L1r", "xm.ga_ra", false, read::<T1_M0a_L1r>),
    ("T1_M0a_L1p", "xm.pa_a", false, read::<T1_M0a_L1p>),
    ("T1_M0a_L1a", "xa.y", false, read::<T1_M0a_L1a>),
    ("T1_M1_L0", "gt_t.gm_m.a", false, read::<T1_M1_L0>),
    ("T1_M1_L0r", "gt_t.gm_m.ra", false, read::<T1_M1_L0r>),
    ("T1_M1_L0p", "gt_t.gm_m.pa_a", false, read::<T1_M1_L0p>),
    ("T1_M1_L0a", "xa.y", false, read::<T1_M1_L0a>),
    ("T1_M1_L1", "gt_t.gm_m.ga_a", false, read::<T1_M1_L1>),
    ("T1_M1_L1r", "gt_t.gm_m.ga_ra", false, read::<T1_M1_L1r>),
    ("T1_M1_L1p", "gt_t.gm_m.pa_a", false, read::<T1_M1_L1p>),
    ("T1_M1_L1a", "xa.y", false, read::<T1_M1_L1a>),
    ("T1_M1r_L0", "gt_t.gm_rm.a", false, read::<T1_M1r_L0>),
    ("T1_M1r_L0r", "gt_t.gm_rm.ra", false, read::<T1_M1r_L0r>),
    ("T1_M1r_L0p", "gt_t.gm_rm.pa_a", false, read::<T1_M1r_L0p>),
    ("T1_M1r_L0a", "xa.y", false, read::<T1_M1r_L0a>),
    ("T1_M1r_L1", "gt_t.gm_rm.ga_a", false, read::<T1_M1r_L1>),
    ("T1_M1r_L1r", "gt_t.gm_rm.ga_ra", false, read::<T1_M1r_L1r>),
    ("T1_M1r_L1p", "gt_t.gm_rm.pa_a", false, read::<T1_M1r_L1p>),
    ("T1_M1r_L1a", "xa.y", false, read::<T1_M1r_L1a>),
    ("T1_M1p_L0", "gt_t.pm_m.a", false, read::<T1_M1p_L0>),
    ("T1_M1p_L0r", "gt_t.pm_m.ra", false, read::<T1_M1p_L0r>),
    ("T1_M1p_L0p", "gt_t.pm_m.pa_a", false, read::<T1_M1p_L0p>),
    ("T1_M1p_L0a", "xa.y", false, read::<T1_M1p_L0a>),
    ("T1_M1p_L1", "gt_t.pm_m.ga_a", false, read::<T1_M1p_L1>),
    ("T1_M1p_L1r", "gt_t.pm_m.ga_ra", false, read::<T1_M1p_L1r>),
    ("T1_M1p_L1p", "gt_t.pm_m.pa_a", false, read::<T1_M1p_L1p>),
    ("T1_M1p_L1a", "xa.y", false, read::<T1_M1p_L1a>),
    ("T1_M1a_L0", "xm.a", false, read::<T1_M1a_L0>),
    ("T1_M1a_L0r", "xm.ra", false, read::<T1_M1a_L0r>),
    ("T1_M1a_L0p", "xm.pa_a", false, read::<T1_M1a_L0p>),
    ("T1_M1a_L0a", "xa.y", false, read::<T1_M1a_L0a>),
    ("T1_M1a_L1", "xm.ga_a", false, read::<T1_M1a_L1>),
    ("T1_M1a_L1r", "xm.ga_ra", false, read::<T1_M1a_L1r>),
    ("T1_M1a_L1p", "xm.pa_a", false, read::<T1_M1a_L1p>),
    ("T1_M1a_L1a", "xa.y", false, read::<T1_M1a_L1a>),
    ("T1r_M0_L0", "gt_rt.m.a", false, read::<T1r_M0_L0>),
    ("T1r_M0_L0r", "gt_rt.m.ra", false, read::<T1r_M0_L0r>),
    ("T1r_M0_L0p", "gt_rt.m.pa_a", false, read::<T1r_M0_L0p>),
    ("T1r_M0_L0a", "xa.y", false, read::<T1r_M0_L0a>),
    ("T1r_M0_L1", "gt_rt.m.ga_a", false, read::<T1r_M0_L1>),
    ("T1r_M0_L1r", "gt_rt.m.ga_ra", false, read::<T1r_M0_L1r>),
    ("T1r_M0_L1p", "gt_rt.m.pa_a", false, read::<T1r_M0_L1p>),
    ("T1r_M0_L1a", "xa.y", false, read::<T1r_M0_L1a>),
    ("T1r_M0r_L0", "gt_rt.rm.a", false, read::<T1r_M0r_L0>),
    ("T1r_M0r_L0r", "gt_rt.rm.ra", false, read::<T1r_M0r_L0r>),
    ("T1r_M0r_L0p", "gt_rt.rm.pa_a", false, read::<T1r_M0r_L0p>),
    ("T1r_M0r_L0a", "xa.y", false, read::<T1r_M0r_L0a>),
    ("T1r_M0r_L1", "gt_rt.rm.ga_a", false, read::<T1r_M0r_L1>),
    ("T1r_M0r_L1r", "gt_rt.rm.ga_ra", false, read::<T1r_M0r_L1r>),
    ("T1r_M0r_L1p", "gt_rt.rm.pa_a", false, read::<T1r_M0r_L1p>),
    ("T1r_M0r_L1a", "xa.y", false, read::<T1r_M0r_L1a>),
    ("T1r_M0p_L0", "gt_rt.pm_m.a", false, read::<T1r_M0p_L0>),
    ("T1r_M0p_L0r", "gt_rt.pm_m.ra", false, read::<T1r_M0p_L0r>),
    ("T1r_M0p_L0p", "gt_rt.pm_m.pa_a", false, read::<T1r_M0p_L0p>),
    ("T1r_M0p_L0a", "xa.y", false, read::<T1r_M0p_L0a>),
    ("T1r_M0p_L1", "gt_rt.pm_m.ga_a", false, read::<T1r_M0p_L1>),
    ("T1r_M0p_L1r", "gt_rt.pm_m.ga_ra", false, read::<T1r_M0p_L1r>),
    ("T1r_M0p_L1p", "gt_rt.pm_m.pa_a", false, read::<T1r_M0p_L1p>),
    ("T1r_M0p_L1a", "xa.y", false, read::<T1r_M0p_L1a>),
    ("T1r_M0a_L0", "xm.a", false, read::<T1r_M0a_L0>),
    ("T1r_M0a_L0r", "xm.ra", false, read::<T1r_M0a_L0r>),
    ("T1r_M0a_L0p", "xm.pa_a", false, read::<T1r_M0a_L0p>),
    ("T1r_M0a_L0a", "xa.y", false, read::<T1r_M0a_L0a>),
    ("T1r_M0a_L1", "xm.ga_a", false, read::<T1r_M0a_L1>),
    ("T1r_M0a_L1r", "xm.ga_ra", false, read::<T1r_M0a_L1r>),
    ("T1r_M0a_L1p", "xm.pa_a", false, read::<T1r_M0a_L1p>),
    ("T1r_M0a_L1a", "xa.y", false, read::<T1r_M0a_L1a>),
    ("T1r_M1_L0", "gt_rt.gm_m.a", false, read::<T1r_M1_L0>),
    ("T1r_M1_L0r", "gt_rt.gm_m.ra", false, read::<T1r_M1_L0r>),
    ("T1r_M1_L0p", "gt_rt.gm_m.pa_a", false, read::<T1r_M1_L0p>),
    ("T1r_M1_L0a", "xa.y", false, read::<T1r_M1_L0a>),
    ("T1r_M1_L1", "gt_rt.gm_m.ga_a", false, read::<T1r_M1_L1>),
    ("T1r_M1_L1r", "gt_rt.gm_m.ga_ra", false, read::<T1r_M1_L1r>),
    ("T1r_M1_L1p", "gt_rt.gm_m.pa_a", false, read::<T1r_M1_L1p>),
    ("T1r_M1_L1a", "xa.y", false, read::<T1r_M1_L1a>),
    ("T1r_M1r_L0", "gt_rt.gm_rm.a", false, read::<T1r_M1r_L0>),
    ("T1r_M1r_L0r", "gt_rt.gm_rm.ra", false, read::<T1r_M1r_L0r>),
    ("T1r_M1r_L0p", "gt_rt.gm_rm.pa_a", false, read::<T1r_M1r_L0p>),
    ("T1r_M1r_L0a", "xa.y", false, read::<T1r_M1r_L0a>),
    ("T1r_M1r_L1", "gt_rt.gm_rm.ga_a", false, read::<T1r_M1r_L1>),
    ("T1r_M1r_L1r", "gt_rt.gm_rm.ga_ra", false, read::<T1r_M1r_L1r>),
    ("T1r_M1r_L1p", "gt_rt.gm_rm.pa_a", false, read::<T1r_M1r_L1p>),
    ("T1r_M1r_L1a", "xa.y", false, read::<T1r_M1r_L1a>),
    ("T1r_M1p_L0", "gt_rt.pm_m.a", false, read::<T1r_M1p_L0>),
    ("T1r_M1p_L0r", "gt_rt.pm_m.ra", false, read::<T1r_M1p_L0r>),
    ("T1r_M1p_L0p", "gt_rt.pm_m.pa_a", false, read::<T1r_M1p_L0p>),
    ("T1r_M1p_L0a", "xa.y", false, read::<T1r_M1p_L0a>),
    ("T1r_M1p_L1", "gt_rt.pm_m.ga_a", false, read::<T1r_M1p_L1>),
    ("T1r_M1p_L1r", "gt_rt.pm_m.ga_ra", false, read::<T1r_M1p_L1r>),
    ("T1r_M1p_L1p", "gt_rt.pm_m.pa_a", false, read::<T1r_M1p_L1p>),
    ("T1r_M1p_L1a", "xa.y", false, read::<T1r_M1p_L1a>),
    ("T1r_M1a_L0", "xm.a", false, read::<T1r_M1a_L0>),
    ("T1r_M1a_L0r", "xm.ra", false, read::<T1r_M1a_L0r>),
    ("T1r_M1a_L0p", "xm.pa_a", false, read::<T1r_M1a_L0p>),
    ("T1r_M1a_L0a", "xa.y", false, read::<T1r_M1a_L0a>),
    ("T1r_M1a_L1", "xm.ga_a", false, read::<T1r_M1a_L1>),
    ("T1r_M1a_L1r", "xm.ga_ra", false, read::<T1r_M1a_L1r>),
    ("T1r_M1a_L1p", "xm.pa_a", false, read::<T1r_M1a_L1p>),
    ("T1r_M1a_L1a", "xa.y", false, read::<T1r_M1a_L1a>),
    ("T1p_M0_L0", "pt_t.m.a", false, read::<T1p_M0_L0>),
    ("T1p_M0_L0r", "pt_t.m.ra", false, read::<T1p_M0_L0r>),
    ("T1p_M0_L0p", "pt_t.m.pa_a", false, read::<T1p_M0_L0p>),
    ("T1p_M0_L0a", "xa.y", false, read::<T1p_M0_L0a>),
    ("T1p_M0_L1", "pt_t.m.ga_a", false, read::<T1p_M0_L1>),
    ("T1p_M0_L1r", "pt_t.m.ga_ra", false, read::<T1p_M0_L1r>),
    ("T1p_M0_L1p", "pt_t.m.pa_a", false, read::<T1p_M0_L1p>),
    ("T1p_M0_L1a", "xa.y", false, read::<T1p_M0_L1a>),
    ("T1p_M0r_L0", "pt_t.rm.a", false, read::<T1p_M0r_L0>),
    ("T1p_M0r_L0r", "pt_t.rm.ra", false, read::<T1p_M0r_L0r>),
    ("T1p_M0r_L0p", "pt_t.rm.pa_a", false, read::<T1p_M0r_L0p>),
    ("T1p_M0r_L0a", "xa.y", false, read::<T1p_M0r_L0a>),
    ("T1p_M0r_L1", "pt_t.rm.ga_a", false, read::<T1p_M0r_L1>),
    ("T1p_M0r_L1r", "pt_t.rm.ga_ra", false, read::<T1p_M0r_L1r>),
    ("T1p_M0r_L1p", "pt_t.rm.pa_a", false, read::<T1p_M0r_L1p>),
    ("T1p_M0r_L1a", "xa.y", false, read::<T1p_M0r_L1a>),
    ("T1p_M0p_L0", "pt_t.pm_m.a", false, read::<T1p_M0p_L0>),
    ("T1p_M0p_L0r", "pt_t.pm_m.ra", false, read::<T1p_M0p_L0r>),
    ("T1p_M0p_L0p", "pt_t.pm_m.pa_a", false, read::<T1p_M0p_L0p>),
    ("T1p_M0p_L0a", "xa.y", false, read::<T1p_M0p_L0a>),
    ("T1p_M0p_L1", "pt_t.pm_m.ga_a", false, read::<T1p_M0p_L1>),
    ("T1p_M0p_L1r", "pt_t.pm_m.ga_ra", false, read::<T1p_M0p_L1r>),
    ("T1p_M0p_L1p", "pt_t.pm_m.pa_a", false, read::<T1p_M0p_L1p>),
    ("T1p_M0p_L1a", "xa.y", false, read::<T1p_M0p_L1a>),
    ("T1p_M0a_L0", "xm.a", false, read::<T1p_M0a_L0>),
    ("T1p_M0a_L0r", "xm.ra", false, read::<T1p_M0a_L0r>),
    ("T1p_M0a_L0p", "xm.pa_a", false, read::<T1p_M0a_L0p>),
    ("T1p_M0a_L0a", "xa.y", false, read::<T1p_M0a_L0a>),
    ("T1p_M0a_L1", "xm.ga_a", false, read::<T1p_M0a_L1>),
    ("T1p_M0a_L1r", "xm.ga_ra", false, read::<T1p_M0a_L1r>),
    ("T1p_M0a_L1p", "xm.pa_a", false, read::<T1p_M0a_L1p>),
    ("T1p_M0a_L1a", "xa.y", false, read::<T1p_M0a_L1a>),
    ("T1p_M1_L0", "pt_t.gm_m.a", false, read::<T1p_M1_L0>),
    ("T1p_M1_L0r", "pt_t.gm_m.ra", false, read::<T1p_M1_L0r>),
    ("T1p_M1_L0p", "pt_t.gm_m.pa_a", false, read::<T1p_M1_L0p>),
    ("T1p_M1_L0a", "xa.y", false, read::<T1p_M1_L0a>),
    ("T1p_M1_L1", "pt_t.gm_m.ga_a", false, read::<T1p_M1_L1>),
    ("T1p_M1_L1r", "pt_t.gm_m.ga_ra", false, read::<T1p_M1_L1r>),
    ("T1p_M1_L1p", "pt_t.gm_m.pa_a", false, read::<T1p_M1_L1p>),
    ("T1p_M1_L1a", "xa.y", false, read::<T1p_M1_L1a>),
    ("T1p_M1r_L0", "pt_t.gm_rm.a", false, read::<T1p_M1r_L0>),
    ("T1p_M1r_L0r", "pt_t.gm_rm.ra", false, read::<T1p_M1r_L0r>),
    ("T1p_M1r_L0p", "pt_t.gm_rm.pa_a", false, read::<T1p_M1r_L0p>),
    ("T1p_M1r_L0a", "xa.y", false, read::<T1p_M1r_L0a>),
    ("T1p_M1r_L1", "pt_t.gm_rm.ga_a", false, read::<T1p_M1r_L1>),
    ("T1p_M1r_L1r", "pt_t.gm_rm.ga_ra", false, read::<T1p_M1r_L1r>),
    ("T1p_M1r_L1p", "pt_t.gm_rm.pa_a", false, read::<T1p_M1r_L1p>),
    ("T1p_M1r_L1a", "xa.y", false, read::<T1p_M1r_L1a>),
    ("T1p_M1p_L0", "pt_t.pm_m.a", false, read::<T1p_M1p_L0>),
    ("T1p_M1p_L0r", "pt_t.pm_m.ra", false, read::<T1p_M1p_L0r>),
    ("T1p_M1p_L0p", "pt_t.pm_m.pa_a", false, read::<T1p_M1p_L0p>),
    ("T1p_M1p_L0a", "xa.y", false, read::<T1p_M1p_L0a>),
    ("T1p_M1p_L1", "pt_t.pm_m.ga_a", false, read::<T1p_M1p_L1>),
    ("T1p_M1p_L1r", "pt_t.pm_m.ga_ra", false, read::<T1p_M1p_L1r>),
    ("T1p_M1p_L1p", "pt_t.pm_m.pa_a", false, read::<T1p_M1p_L1p>),
    ("T1p_M1p_L1a", "xa.y", false, read::<T1p_M1p_L1a>),
    ("T1p_M1a_L0", "xm.a", false, read::<T1p_M1a_L0>),
    ("T1p_M1a_L0r", "xm.ra", false, read::<T1p_M1a_L0r>),
    ("T1p_M1a_L0p", "xm.pa_a", false, read::<T1p_M1a_L0p>),
    ("T1p_M1a_L0a", "xa.y", false, read::<T1p_M1a_L0a>),
    ("T1p_M1a_L1", "xm.ga_a", false, read::<T1p_M1a_L1>),
    ("T1p_M1a_L1r", "xm.ga_ra", false, read::<T1p_M1a_L1r>),
    ("T1p_M1a_L1p", "xm.pa_a", false, read::<T1p_M1a_L1p>),
    ("T1p_M1a_L1a", "xa.y", false, read::<T1p_M1a_L1a>),
    ("T1a_M0_L0", "xt.m.a", false, read::<T1a_M0_L0>),
    ("T1a_M0_L0r", "xt.m.ra", false, read::<T1a_M0_L0r>),
    ("T1a_M0_L0p", "xt.m.pa_a", false, read::<T1a_M0_L0p>),
    ("T1a_M0_L0a", "xa.y", false, read::<T1a_M0_L0a>),
    ("T1a_M0_L1", "xt.m.ga_a", false, read::<T1a_M0_L1>),
    ("T1a_M0_L1r", "xt.m.ga_ra", false, read::<T1a_M0_L1r>),
    ("T1a_M0_L1p", "xt.m.pa_a", false, read::<T1a_M0_L1p>),
    ("T1a_M0_L1a", "xa.y", false, read::<T1a_M0_L1a>),
    ("T1a_M0r_L0", "xt.rm.a", false, read::<T1a_M0r_L0>),
    ("T1a_M0r_L0r", "xt.rm.ra", false, read::<T1a_M0r_L0r>),
    ("T1a_M0r_L0p", "xt.rm.pa_a", false, read::<T1a_M0r_L0p>),
    ("T1a_M0r_L0a", "xa.y", false, read::<T1a_M0r_L0a>),
    ("T1a_M0r_L1", "xt.rm.ga_a", false, read::<T1a_M0r_L1>),
    ("T1a_M0r_L1r", "xt.rm.ga_ra", false, read::<T1a_M0r_L1r>),
    ("T1a_M0r_L1p", "xt.rm.pa_a", false, read::<T1a_M0r_L1p>),
    ("T1a_M0r_L1a", "xa.y", false, read::<T1a_M0r_L1a>),
    ("T1a_M0p_L0", "xt.pm_m.a", false, read::<T1a_M0p_L0>),
    ("T1a_M0p_L0r", "xt.pm_m.ra", false, read::<T1a_M0p_L0r>),
    ("T1a_M0p_L0p", "xt.pm_m.pa_a", false, read::<T1a_M0p_L0p>),
    ("T1a_M0p_L0a", "xa.y", false, read::<T1a_M0p_L0a>),
    ("T1a_M0p_L1", "xt.pm_m.ga_a", false, read::<T1a_M0p_L1>),
    ("T1a_M0p_L1r", "xt.pm_m.ga_ra", false, read::<T1a_M0p_L1r>),
    ("T1a_M0p_L1p", "xt.pm_m.pa_a", false, read::<T1a_M0p_L1p>),
    ("T1a_M0p_L1a", "xa.y", false, read::<T1a_M0p_L1a>),
    ("T1a_M0a_L0", "xm.a", false, read::<T1a_M0a_L0>),
    ("T1a_M0a_L0r", "xm.ra", false, read::<T1a_M0a_L0r>),
    ("T1a_M0a_L0p", "xm.pa_a", false, read::<T1a_M0a_L0p>),
    ("T1a_M0a_L0a", "xa.y", false, read::<T1a_M0a_L0a>),
    ("T1a_M0a_L1", "xm.ga_a", false, read::<T1a_M0a_L1>),
    ("T1a_M0a_L1r", "xm.ga_ra", false, read::<T1a_M0a_L1r>),
    ("T1a_M0a_L1p", "xm.pa_a", false, read::<T1a_M0a_L1p>),
    ("T1a_M0a_L1a", "xa.y", false, read::<T1a_M0a_L1a>),
    ("T1a_M1_L0", "xt.gm_m.a", false, read::<T1a_M1_L0>),
    ("T1a_M1_L0r", "xt.gm_m.ra", false, read::<T1a_M1_L0r>),
    ("T1a_M1_L0p", "xt.gm_m.pa_a", false, read::<T1a_M1_L0p>),
    ("T1a_M1_L0a", "xa.y", false, read::<T1a_M1_L0a>),
    ("T1a_M1_L1", "xt.gm_m.ga_a", false, read::<T1a_M1_L1>),
    ("T1a_M1_L1r", "xt.gm_m.ga_ra", false, read::<T1a_M1_L1r>),
    ("T1a_M1_L1p", "xt.gm_m.pa_a", false, read::<T1a_M1_L1p>),
    ("T1a_M1_L1a", "xa.y", false, read::<T1a_M1_L1a>),
    ("T1a_M1r_L0", "xt.gm_rm.a", false, read::<T1a_M1r_L0>),
    ("T1a_M1r_L0r", "xt.gm_rm.ra", false, read::<T1a_M1r_L0r>),
    ("T1a_M1r_L0p", "xt.gm_rm.pa_a", false, read::<T1a_M1r_L0p>),
    ("T1a_M1r_L0a", "xa.y", false, read::<T1a_M1r_L0a>),
    ("T1a_M1r_L1", "xt.gm_rm.ga_a", false, read::<T1a_M1r_L1>),
    ("T1a_M1r_L1r", "xt.gm_rm.ga_ra", false, read::<T1a_M1r_L1r>),
    ("T1a_M1r_L1p", "xt.gm_rm.pa_a", false, read::<T1a_M1r_L1p>),
    ("T1a_M1r_L1a", "xa.y", false, read::<T1a_M1r_L1a>),
    ("T1a_M1p_L0", "xt.pm_m.a", false, read::<T1a_M1p_L0>),
    ("T1a_M1p_L0r", "xt.pm_m.ra", false, read::<T1a_M1p_L0r>),
    ("T1a_M1p_L0p", "xt.pm_m.pa_a", false, read::<T1a_M1p_L0p>),
    ("T1a_M1p_L0a", "xa.y", false, read::<T1a_M1p_L0a>),
    ("T1a_M1p_L1", "xt.pm_m.ga_a", false, read::<T1a_M1p_L1>),
    ("T1a_M1p_L1r", "xt.pm_m.ga_ra", false, read::<T1a_M1p_L1r>),
    ("T1a_M1p_L1p", "xt.pm_m.pa_a", false, read::<T1a_M1p_L1p>),
    ("T1a_M1p_L1a", "xa.y", false, read::<T1a_M1p_L1a>),
    ("T1a_M1a_L0", "xm.a", false, read::<T1a_M1a_L0>),
    ("T1a_M1a_L0r", "xm.ra", false, read::<T1a_M1a_L0r>),
    ("T1a_M1a_L0p", "xm.pa_a", false, read::<T1a_M1a_L0p>),
    ("T1a_M1a_L0a", "xa.y", false, read::<T1a_M1a_L0a>),
    ("T1a_M1a_L1", "xm.ga_a", false, read::<T1a_M1a_L1>),
    ("T1a_M1a_L1r", "xm.ga_ra", false, read::<T1a_M1a_L1r>),
    ("T1a_M1a_L1p", "xm.pa_a", false, read::<T1a_M1a_L1p>),
    ("T1a_M1a_L1a", "xa.y", false, read::<T1a_M1a_L1a>),
];
#[derive(ReadFromTree)]
pub struct M2 { a: i32, b: String }
impl Row for M2 { fn row(self, o: &mut Vec<V>) { self.a.row(o); self.b.row(o); } }
#[derive(ReadFromTree)]
pub struct M2n { b: String, a: i32 }
impl Row for M2n { fn row(self, o: &mut Vec<V>) { self.b.row(o); self.a.row(o); } }
#[derive(ReadFromTree)]
pub struct M3 { a: i32, b: String, c: Vec<f64> }
impl Row for M3 { fn row(self, o: &mut Vec<V>) { self.a.row(o); self.b.row(o); self.c.row(o); } }
#[derive(ReadFromTree)]
pub struct M3r { c: Vec<f64>, a: i32, b: String }
impl Row for M3r { fn row(self, o: &mut Vec<V>) { self.c.row(o); self.a.row(o); self.b.row(o); } }
#[derive(ReadFromTree)]
pub struct M4 { a: i32, b: String, c: Vec<f64>, d: [i16; 3] }
impl Row for M4 { fn row(self, o: &mut Vec<V>) { self.a.row(o); self.b.row(o); self.c.row(o); self.d.row(o); } }
#[derive(ReadFromTree)]
pub struct M3s { a: i32, e: i32, f: i32 }
impl Row for M3s { fn row(self, o: &mut Vec<V>) { self.a.row(o); self.e.row(o); self.f.row(o); } }
#[derive(ReadFromTree)]
pub struct N1 { a: i32, s: M2, c: Vec<f64> }
impl Row for N1 { fn row(self, o: &mut Vec<V>) { self.a.row(o); self.s.row(o); self.c.row(o); } }
#[derive(ReadFromTree)]
pub struct N2 { s: M2, u: M2 }
impl Row for N2 { fn row(self, o: &mut Vec<V>) { self.s.row(o); self.u.row(o); } }
#[derive(ReadFromTree)]
pub struct N3 { u: M2n, a: i32, s: M2 }
impl Row for N3 { fn row(self, o: &mut Vec<V>) { self.u.row(o); self.a.row(o); self.s.row(o); } }
#[derive(ReadFromTree)]
pub struct N4 { z: N1, a: i32, s: M2 }
impl Row for N4 { fn row(self, o: &mut Vec<V>) { self.z.row(o); self.a.row(o); self.s.row(o); } }
pub const ROWS: &[(&str, &[(&str, &str)], ReadFn)] = &[
    ("M2", &[("a", "i32"), ("b", "String")], read::<M2>),
    ("M2n", &[("b", "String"), ("a", "i32")], read::<M2n>),
    ("M3", &[("a", "i32"), ("b", "String"), ("c", "Vec<f64>")], read::<M3>),
    ("M3r", &[("c", "Vec<f64>"), ("a", "i32"), ("b", "String")], read::<M3r>),
    ("M4", &[("a", "i32"), ("b", "String"), ("c", "Vec<f64>"), ("d", "[i16; 3]")], read::<M4>),
    ("M3s", &[("a", "i32"), ("e", "i32"), ("f", "i32")], read::<M3s>),
    ("N1", &[("a", "i32"), ("s.a", "i32"), ("s.b", "String"), ("c", "Vec<f64>")], read::<N1>),
    ("N2", &[("s.a", "i32"), ("s.b", "String"), ("u.a", "i32"), ("u.b", "String")], read::<N2>),
    ("N3", &[("u.b", "String"), ("u.a", "i32"), ("a", "i32"), ("s.a", "i32"), ("s.b", "String")], read::<N3>),
    ("N4", &[("z.a", "i32"), ("z.s.a", "i32"), ("z.s.b", "String"), ("z.c", "Vec<f64>"), ("a", "i32"), ("s.a", "i32"), ("s.b", "String")], read::<N4>),
];
#[derive(ReadFromTree)]
#[oxyroot(slicable)]
pub struct Pt { x: i32, y: f64, z: i16 }
impl Row for Pt { fn row(self, o: &mut Vec<V>) { self.x.row(o); self.y.row(o); self.z.row(o); } }
#[derive(ReadFromTree)]
pub struct Pts { #[oxyroot(slicable = "Pt")] p: Vec<Pt> }
impl Row for Pts { fn row(self, o: &mut Vec<V>) { slice_row(self.p, o) } }
#[derive(ReadFromTree)]
pub struct Pts2 { a: i32, #[oxyroot(slicable = "Pt")] p: Vec<Pt>, #[oxyroot(slicable = "Pt", rename = "q")] r: Vec<Pt>, b: String }
impl Row for Pts2 { fn row(self, o: &mut Vec<V>) { self.a.row(o); slice_row(self.p, o); slice_row(self.r, o); self.b.row(o) } }
#[derive(ReadFromTree)]
pub struct Pts3 { s: Pts, a: i32 }
impl Row for Pts3 { fn row(self, o: &mut Vec<V>) { self.s.row(o); self.a.row(o) } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W1x0 { fa: i8 }
impl Row for W1x0 { fn row(self, o: &mut Vec<V>) { self.fa.row(o); } }
impl Mk for W1x0 { fn mk(i: u64) -> Self { W1x0 { fa: Mk::mk(i * 13 + 0) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W1x1 { fa: u8 }
impl Row for W1x1 { fn row(self, o: &mut Vec<V>) { self.fa.row(o); } }
impl Mk for W1x1 { fn mk(i: u64) -> Self { W1x1 { fa: Mk::mk(i * 13 + 0) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W1x2 { fa: i16 }
impl Row for W1x2 { fn row(self, o: &mut Vec<V>) { self.fa.row(o); } }
impl Mk for W1x2 { fn mk(i: u64) -> Self { W1x2 { fa: Mk::mk(i * 13 + 0) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W1x3 { fa: u16 }
impl Row for W1x3 { fn row(self, o: &mut Vec<V>) { self.fa.row(o); } }
impl Mk for W1x3 { fn mk(i: u64) -> Self { W1x3 { fa: Mk::mk(i * 13 + 0) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W1x4 { fa: i32 }
impl Row for W1x4 { fn row(self, o: &mut Vec<V>) { self.fa.row(o); } }
impl Mk for W1x4 { fn mk(i: u64) -> Self { W1x4 { fa: Mk::mk(i * 13 + 0) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W1x5 { fa: u32 }
impl Row for W1x5 { fn row(self, o: &mut Vec<V>) { self.fa.row(o); } }
impl Mk for W1x5 { fn mk(i: u64) -> Self { W1x5 { fa: Mk::mk(i * 13 + 0) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W1x6 { fa: i64 }
impl Row for W1x6 { fn row(self, o: &mut Vec<V>) { self.fa.row(o); } }
impl Mk for W1x6 { fn mk(i: u64) -> Self { W1x6 { fa: Mk::mk(i * 13 + 0) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W1x7 { fa: u64 }
impl Row for W1x7 { fn row(self, o: &mut Vec<V>) { self.fa.row(o); } }
impl Mk for W1x7 { fn mk(i: u64) -> Self { W1x7 { fa: Mk::mk(i * 13 + 0) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W1x8 { fa: f32 }
impl Row for W1x8 { fn row(self, o: &mut Vec<V>) { self.fa.row(o); } }
impl Mk for W1x8 { fn mk(i: u64) -> Self { W1x8 { fa: Mk::mk(i * 13 + 0) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W1x9 { fa: f64 }
impl Row for W1x9 { fn row(self, o: &mut Vec<V>) { self.fa.row(o); } }
impl Mk for W1x9 { fn mk(i: u64) -> Self { W1x9 { fa: Mk::mk(i * 13 + 0) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W1x10 { fa: bool }
impl Row for W1x10 { fn row(self, o: &mut Vec<V>) { self.fa.row(o); } }
impl Mk for W1x10 { fn mk(i: u64) -> Self { W1x10 { fa: Mk::mk(i * 13 + 0) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W1x11 { fa: String }
impl Row for W1x11 { fn row(self, o: &mut Vec<V>) { self.fa.row(o); } }
impl Mk for W1x11 { fn mk(i: u64) -> Self { W1x11 { fa: Mk::mk(i * 13 + 0) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W1x12 { fa: Vec<i32> }
impl Row for W1x12 { fn row(self, o: &mut Vec<V>) { self.fa.row(o); } }
impl Mk for W1x12 { fn mk(i: u64) -> Self { W1x12 { fa: Mk::mk(i * 13 + 0) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W1x13 { fa: Vec<f64> }
impl Row for W1x13 { fn row(self, o: &mut Vec<V>) { self.fa.row(o); } }
impl Mk for W1x13 { fn mk(i: u64) -> Self { W1x13 { fa: Mk::mk(i * 13 + 0) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W1x14 { fa: Vec<bool> }
impl Row for W1x14 { fn row(self, o: &mut Vec<V>) { self.fa.row(o); } }
impl Mk for W1x14 { fn mk(i: u64) -> Self { W1x14 { fa: Mk::mk(i * 13 + 0) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W1x15 { fa: Vec<u16> }
impl Row for W1x15 { fn row(self, o: &mut Vec<V>) { self.fa.row(o); } }
impl Mk for W1x15 { fn mk(i: u64) -> Self { W1x15 { fa: Mk::mk(i * 13 + 0) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W1x16 { fa: [i32; 3] }
impl Row for W1x16 { fn row(self, o: &mut Vec<V>) { self.fa.row(o); } }
impl Mk for W1x16 { fn mk(i: u64) -> Self { W1x16 { fa: Mk::mk(i * 13 + 0) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W1x17 { fa: [f64; 2] }
impl Row for W1x17 { fn row(self, o: &mut Vec<V>) { self.fa.row(o); } }
impl Mk for W1x17 { fn mk(i: u64) -> Self { W1x17 { fa: Mk::mk(i * 13 + 0) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W1x18 { fa: [u8; 4] }
impl Row for W1x18 { fn row(self, o: &mut Vec<V>) { self.fa.row(o); } }
impl Mk for W1x18 { fn mk(i: u64) -> Self { W1x18 { fa: Mk::mk(i * 13 + 0) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x00 { ga: i32, gb: i32 }
impl Row for W2x00 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x00 { fn mk(i: u64) -> Self { W2x00 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x01 { ga: i32, gb: u8 }
impl Row for W2x01 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x01 { fn mk(i: u64) -> Self { W2x01 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x02 { ga: i32, gb: f64 }
impl Row for W2x02 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x02 { fn mk(i: u64) -> Self { W2x02 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x03 { ga: i32, gb: bool }
impl Row for W2x03 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x03 { fn mk(i: u64) -> Self { W2x03 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x04 { ga: i32, gb: String }
impl Row for W2x04 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x04 { fn mk(i: u64) -> Self { W2x04 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x05 { ga: i32, gb: Vec<i32> }
impl Row for W2x05 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x05 { fn mk(i: u64) -> Self { W2x05 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x06 { ga: i32, gb: Vec<f64> }
impl Row for W2x06 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x06 { fn mk(i: u64) -> Self { W2x06 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x07 { ga: i32, gb: [i16; 3] }
impl Row for W2x07 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x07 { fn mk(i: u64) -> Self { W2x07 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x10 { ga: u8, gb: i32 }
impl Row for W2x10 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x10 { fn mk(i: u64) -> Self { W2x10 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x11 { ga: u8, gb: u8 }
impl Row for W2x11 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x11 { fn mk(i: u64) -> Self { W2x11 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x12 { ga: u8, gb: f64 }
impl Row for W2x12 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x12 { fn mk(i: u64) -> Self { W2x12 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x13 { ga: u8, gb: bool }
impl Row for W2x13 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x13 { fn mk(i: u64) -> Self { W2x13 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x14 { ga: u8, gb: String }
impl Row for W2x14 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x14 { fn mk(i: u64) -> Self { W2x14 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x15 { ga: u8, gb: Vec<i32> }
impl Row for W2x15 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x15 { fn mk(i: u64) -> Self { W2x15 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x16 { ga: u8, gb: Vec<f64> }
impl Row for W2x16 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x16 { fn mk(i: u64) -> Self { W2x16 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x17 { ga: u8, gb: [i16; 3] }
impl Row for W2x17 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x17 { fn mk(i: u64) -> Self { W2x17 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x20 { ga: f64, gb: i32 }
impl Row for W2x20 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x20 { fn mk(i: u64) -> Self { W2x20 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x21 { ga: f64, gb: u8 }
impl Row for W2x21 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x21 { fn mk(i: u64) -> Self { W2x21 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x22 { ga: f64, gb: f64 }
impl Row for W2x22 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x22 { fn mk(i: u64) -> Self { W2x22 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x23 { ga: f64, gb: bool }
impl Row for W2x23 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x23 { fn mk(i: u64) -> Self { W2x23 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x24 { ga: f64, gb: String }
impl Row for W2x24 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x24 { fn mk(i: u64) -> Self { W2x24 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x25 { ga: f64, gb: Vec<i32> }
impl Row for W2x25 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x25 { fn mk(i: u64) -> Self { W2x25 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x26 { ga: f64, gb: Vec<f64> }
impl Row for W2x26 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x26 { fn mk(i: u64) -> Self { W2x26 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x27 { ga: f64, gb: [i16; 3] }
impl Row for W2x27 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x27 { fn mk(i: u64) -> Self { W2x27 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x30 { ga: bool, gb: i32 }
impl Row for W2x30 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x30 { fn mk(i: u64) -> Self { W2x30 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x31 { ga: bool, gb: u8 }
impl Row for W2x31 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x31 { fn mk(i: u64) -> Self { W2x31 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x32 { ga: bool, gb: f64 }
impl Row for W2x32 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x32 { fn mk(i: u64) -> Self { W2x32 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x33 { ga: bool, gb: bool }
impl Row for W2x33 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x33 { fn mk(i: u64) -> Self { W2x33 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x34 { ga: bool, gb: String }
impl Row for W2x34 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x34 { fn mk(i: u64) -> Self { W2x34 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x35 { ga: bool, gb: Vec<i32> }
impl Row for W2x35 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x35 { fn mk(i: u64) -> Self { W2x35 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x36 { ga: bool, gb: Vec<f64> }
impl Row for W2x36 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x36 { fn mk(i: u64) -> Self { W2x36 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x37 { ga: bool, gb: [i16; 3] }
impl Row for W2x37 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x37 { fn mk(i: u64) -> Self { W2x37 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x40 { ga: String, gb: i32 }
impl Row for W2x40 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x40 { fn mk(i: u64) -> Self { W2x40 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x41 { ga: String, gb: u8 }
impl Row for W2x41 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x41 { fn mk(i: u64) -> Self { W2x41 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x42 { ga: String, gb: f64 }
impl Row for W2x42 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x42 { fn mk(i: u64) -> Self { W2x42 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x43 { ga: String, gb: bool }
impl Row for W2x43 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x43 { fn mk(i: u64) -> Self { W2x43 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x44 { ga: String, gb: String }
impl Row for W2x44 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x44 { fn mk(i: u64) -> Self { W2x44 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x45 { ga: String, gb: Vec<i32> }
impl Row for W2x45 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x45 { fn mk(i: u64) -> Self { W2x45 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x46 { ga: String, gb: Vec<f64> }
impl Row for W2x46 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x46 { fn mk(i: u64) -> Self { W2x46 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x47 { ga: String, gb: [i16; 3] }
impl Row for W2x47 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x47 { fn mk(i: u64) -> Self { W2x47 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x50 { ga: Vec<i32>, gb: i32 }
impl Row for W2x50 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x50 { fn mk(i: u64) -> Self { W2x50 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x51 { ga: Vec<i32>, gb: u8 }
impl Row for W2x51 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x51 { fn mk(i: u64) -> Self { W2x51 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x52 { ga: Vec<i32>, gb: f64 }
impl Row for W2x52 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x52 { fn mk(i: u64) -> Self { W2x52 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x53 { ga: Vec<i32>, gb: bool }
impl Row for W2x53 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x53 { fn mk(i: u64) -> Self { W2x53 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x54 { ga: Vec<i32>, gb: String }
impl Row for W2x54 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x54 { fn mk(i: u64) -> Self { W2x54 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x55 { ga: Vec<i32>, gb: Vec<i32> }
impl Row for W2x55 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x55 { fn mk(i: u64) -> Self { W2x55 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x56 { ga: Vec<i32>, gb: Vec<f64> }
impl Row for W2x56 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x56 { fn mk(i: u64) -> Self { W2x56 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x57 { ga: Vec<i32>, gb: [i16; 3] }
impl Row for W2x57 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x57 { fn mk(i: u64) -> Self { W2x57 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x60 { ga: Vec<f64>, gb: i32 }
impl Row for W2x60 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x60 { fn mk(i: u64) -> Self { W2x60 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x61 { ga: Vec<f64>, gb: u8 }
impl Row for W2x61 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x61 { fn mk(i: u64) -> Self { W2x61 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x62 { ga: Vec<f64>, gb: f64 }
impl Row for W2x62 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x62 { fn mk(i: u64) -> Self { W2x62 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x63 { ga: Vec<f64>, gb: bool }
impl Row for W2x63 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x63 { fn mk(i: u64) -> Self { W2x63 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x64 { ga: Vec<f64>, gb: String }
impl Row for W2x64 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x64 { fn mk(i: u64) -> Self { W2x64 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x65 { ga: Vec<f64>, gb: Vec<i32> }
impl Row for W2x65 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x65 { fn mk(i: u64) -> Self { W2x65 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x66 { ga: Vec<f64>, gb: Vec<f64> }
impl Row for W2x66 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x66 { fn mk(i: u64) -> Self { W2x66 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x67 { ga: Vec<f64>, gb: [i16; 3] }
impl Row for W2x67 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x67 { fn mk(i: u64) -> Self { W2x67 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x70 { ga: [i16; 3], gb: i32 }
impl Row for W2x70 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x70 { fn mk(i: u64) -> Self { W2x70 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x71 { ga: [i16; 3], gb: u8 }
impl Row for W2x71 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x71 { fn mk(i: u64) -> Self { W2x71 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x72 { ga: [i16; 3], gb: f64 }
impl Row for W2x72 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x72 { fn mk(i: u64) -> Self { W2x72 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x73 { ga: [i16; 3], gb: bool }
impl Row for W2x73 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x73 { fn mk(i: u64) -> Self { W2x73 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x74 { ga: [i16; 3], gb: String }
impl Row for W2x74 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x74 { fn mk(i: u64) -> Self { W2x74 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x75 { ga: [i16; 3], gb: Vec<i32> }
impl Row for W2x75 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x75 { fn mk(i: u64) -> Self { W2x75 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x76 { ga: [i16; 3], gb: Vec<f64> }
impl Row for W2x76 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x76 { fn mk(i: u64) -> Self { W2x76 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W2x77 { ga: [i16; 3], gb: [i16; 3] }
impl Row for W2x77 { fn row(self, o: &mut Vec<V>) { self.ga.row(o); self.gb.row(o); } }
impl Mk for W2x77 { fn mk(i: u64) -> Self { W2x77 { ga: Mk::mk(i * 13 + 0), gb: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x000 { ha: i32, hb: i32, hc: i32 }
impl Row for W3x000 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x000 { fn mk(i: u64) -> Self { W3x000 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x001 { ha: i32, hb: i32, hc: String }
impl Row for W3x001 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x001 { fn mk(i: u64) -> Self { W3x001 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x002 { ha: i32, hb: i32, hc: Vec<f64> }
impl Row for W3x002 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x002 { fn mk(i: u64) -> Self { W3x002 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x003 { ha: i32, hb: i32, hc: [i16; 3] }
impl Row for W3x003 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x003 { fn mk(i: u64) -> Self { W3x003 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x010 { ha: i32, hb: String, hc: i32 }
impl Row for W3x010 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x010 { fn mk(i: u64) -> Self { W3x010 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x011 { ha: i32, hb: String, hc: String }
impl Row for W3x011 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x011 { fn mk(i: u64) -> Self { W3x011 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x012 { ha: i32, hb: String, hc: Vec<f64> }
impl Row for W3x012 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x012 { fn mk(i: u64) -> Self { W3x012 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x013 { ha: i32, hb: String, hc: [i16; 3] }
impl Row for W3x013 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x013 { fn mk(i: u64) -> Self { W3x013 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x020 { ha: i32, hb: Vec<f64>, hc: i32 }
impl Row for W3x020 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x020 { fn mk(i: u64) -> Self { W3x020 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x021 { ha: i32, hb: Vec<f64>, hc: String }
impl Row for W3x021 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x021 { fn mk(i: u64) -> Self { W3x021 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x022 { ha: i32, hb: Vec<f64>, hc: Vec<f64> }
impl Row for W3x022 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x022 { fn mk(i: u64) -> Self { W3x022 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x023 { ha: i32, hb: Vec<f64>, hc: [i16; 3] }
impl Row for W3x023 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x023 { fn mk(i: u64) -> Self { W3x023 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x030 { ha: i32, hb: [i16; 3], hc: i32 }
impl Row for W3x030 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x030 { fn mk(i: u64) -> Self { W3x030 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x031 { ha: i32, hb: [i16; 3], hc: String }
impl Row for W3x031 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x031 { fn mk(i: u64) -> Self { W3x031 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x032 { ha: i32, hb: [i16; 3], hc: Vec<f64> }
impl Row for W3x032 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x032 { fn mk(i: u64) -> Self { W3x032 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x033 { ha: i32, hb: [i16; 3], hc: [i16; 3] }
impl Row for W3x033 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x033 { fn mk(i: u64) -> Self { W3x033 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x100 { ha: String, hb: i32, hc: i32 }
impl Row for W3x100 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x100 { fn mk(i: u64) -> Self { W3x100 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x101 { ha: String, hb: i32, hc: String }
impl Row for W3x101 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x101 { fn mk(i: u64) -> Self { W3x101 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x102 { ha: String, hb: i32, hc: Vec<f64> }
impl Row for W3x102 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x102 { fn mk(i: u64) -> Self { W3x102 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x103 { ha: String, hb: i32, hc: [i16; 3] }
impl Row for W3x103 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x103 { fn mk(i: u64) -> Self { W3x103 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x110 { ha: String, hb: String, hc: i32 }
impl Row for W3x110 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x110 { fn mk(i: u64) -> Self { W3x110 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x111 { ha: String, hb: String, hc: String }
impl Row for W3x111 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x111 { fn mk(i: u64) -> Self { W3x111 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x112 { ha: String, hb: String, hc: Vec<f64> }
impl Row for W3x112 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x112 { fn mk(i: u64) -> Self { W3x112 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x113 { ha: String, hb: String, hc: [i16; 3] }
impl Row for W3x113 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x113 { fn mk(i: u64) -> Self { W3x113 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x120 { ha: String, hb: Vec<f64>, hc: i32 }
impl Row for W3x120 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x120 { fn mk(i: u64) -> Self { W3x120 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x121 { ha: String, hb: Vec<f64>, hc: String }
impl Row for W3x121 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x121 { fn mk(i: u64) -> Self { W3x121 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x122 { ha: String, hb: Vec<f64>, hc: Vec<f64> }
impl Row for W3x122 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x122 { fn mk(i: u64) -> Self { W3x122 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x123 { ha: String, hb: Vec<f64>, hc: [i16; 3] }
impl Row for W3x123 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x123 { fn mk(i: u64) -> Self { W3x123 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x130 { ha: String, hb: [i16; 3], hc: i32 }
impl Row for W3x130 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x130 { fn mk(i: u64) -> Self { W3x130 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x131 { ha: String, hb: [i16; 3], hc: String }
impl Row for W3x131 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x131 { fn mk(i: u64) -> Self { W3x131 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x132 { ha: String, hb: [i16; 3], hc: Vec<f64> }
impl Row for W3x132 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x132 { fn mk(i: u64) -> Self { W3x132 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x133 { ha: String, hb: [i16; 3], hc: [i16; 3] }
impl Row for W3x133 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x133 { fn mk(i: u64) -> Self { W3x133 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x200 { ha: Vec<f64>, hb: i32, hc: i32 }
impl Row for W3x200 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x200 { fn mk(i: u64) -> Self { W3x200 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x201 { ha: Vec<f64>, hb: i32, hc: String }
impl Row for W3x201 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x201 { fn mk(i: u64) -> Self { W3x201 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x202 { ha: Vec<f64>, hb: i32, hc: Vec<f64> }
impl Row for W3x202 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x202 { fn mk(i: u64) -> Self { W3x202 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x203 { ha: Vec<f64>, hb: i32, hc: [i16; 3] }
impl Row for W3x203 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x203 { fn mk(i: u64) -> Self { W3x203 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x210 { ha: Vec<f64>, hb: String, hc: i32 }
impl Row for W3x210 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x210 { fn mk(i: u64) -> Self { W3x210 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x211 { ha: Vec<f64>, hb: String, hc: String }
impl Row for W3x211 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x211 { fn mk(i: u64) -> Self { W3x211 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x212 { ha: Vec<f64>, hb: String, hc: Vec<f64> }
impl Row for W3x212 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x212 { fn mk(i: u64) -> Self { W3x212 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x213 { ha: Vec<f64>, hb: String, hc: [i16; 3] }
impl Row for W3x213 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x213 { fn mk(i: u64) -> Self { W3x213 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x220 { ha: Vec<f64>, hb: Vec<f64>, hc: i32 }
impl Row for W3x220 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x220 { fn mk(i: u64) -> Self { W3x220 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x221 { ha: Vec<f64>, hb: Vec<f64>, hc: String }
impl Row for W3x221 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x221 { fn mk(i: u64) -> Self { W3x221 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x222 { ha: Vec<f64>, hb: Vec<f64>, hc: Vec<f64> }
impl Row for W3x222 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x222 { fn mk(i: u64) -> Self { W3x222 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x223 { ha: Vec<f64>, hb: Vec<f64>, hc: [i16; 3] }
impl Row for W3x223 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x223 { fn mk(i: u64) -> Self { W3x223 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x230 { ha: Vec<f64>, hb: [i16; 3], hc: i32 }
impl Row for W3x230 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x230 { fn mk(i: u64) -> Self { W3x230 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x231 { ha: Vec<f64>, hb: [i16; 3], hc: String }
impl Row for W3x231 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x231 { fn mk(i: u64) -> Self { W3x231 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x232 { ha: Vec<f64>, hb: [i16; 3], hc: Vec<f64> }
impl Row for W3x232 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x232 { fn mk(i: u64) -> Self { W3x232 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x233 { ha: Vec<f64>, hb: [i16; 3], hc: [i16; 3] }
impl Row for W3x233 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x233 { fn mk(i: u64) -> Self { W3x233 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x300 { ha: [i16; 3], hb: i32, hc: i32 }
impl Row for W3x300 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x300 { fn mk(i: u64) -> Self { W3x300 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x301 { ha: [i16; 3], hb: i32, hc: String }
impl Row for W3x301 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x301 { fn mk(i: u64) -> Self { W3x301 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x302 { ha: [i16; 3], hb: i32, hc: Vec<f64> }
impl Row for W3x302 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x302 { fn mk(i: u64) -> Self { W3x302 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x303 { ha: [i16; 3], hb: i32, hc: [i16; 3] }
impl Row for W3x303 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x303 { fn mk(i: u64) -> Self { W3x303 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x310 { ha: [i16; 3], hb: String, hc: i32 }
impl Row for W3x310 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x310 { fn mk(i: u64) -> Self { W3x310 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x311 { ha: [i16; 3], hb: String, hc: String }
impl Row for W3x311 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x311 { fn mk(i: u64) -> Self { W3x311 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x312 { ha: [i16; 3], hb: String, hc: Vec<f64> }
impl Row for W3x312 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x312 { fn mk(i: u64) -> Self { W3x312 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x313 { ha: [i16; 3], hb: String, hc: [i16; 3] }
impl Row for W3x313 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x313 { fn mk(i: u64) -> Self { W3x313 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x320 { ha: [i16; 3], hb: Vec<f64>, hc: i32 }
impl Row for W3x320 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x320 { fn mk(i: u64) -> Self { W3x320 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x321 { ha: [i16; 3], hb: Vec<f64>, hc: String }
impl Row for W3x321 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x321 { fn mk(i: u64) -> Self { W3x321 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x322 { ha: [i16; 3], hb: Vec<f64>, hc: Vec<f64> }
impl Row for W3x322 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x322 { fn mk(i: u64) -> Self { W3x322 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x323 { ha: [i16; 3], hb: Vec<f64>, hc: [i16; 3] }
impl Row for W3x323 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x323 { fn mk(i: u64) -> Self { W3x323 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x330 { ha: [i16; 3], hb: [i16; 3], hc: i32 }
impl Row for W3x330 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x330 { fn mk(i: u64) -> Self { W3x330 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x331 { ha: [i16; 3], hb: [i16; 3], hc: String }
impl Row for W3x331 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x331 { fn mk(i: u64) -> Self { W3x331 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x332 { ha: [i16; 3], hb: [i16; 3], hc: Vec<f64> }
impl Row for W3x332 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x332 { fn mk(i: u64) -> Self { W3x332 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W3x333 { ha: [i16; 3], hb: [i16; 3], hc: [i16; 3] }
impl Row for W3x333 { fn row(self, o: &mut Vec<V>) { self.ha.row(o); self.hb.row(o); self.hc.row(o); } }
impl Mk for W3x333 { fn mk(i: u64) -> Self { W3x333 { ha: Mk::mk(i * 13 + 0), hb: Mk::mk(i * 13 + 1), hc: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct W8 { ka: i32, kb: String, kc: Vec<f64>, kd: [i16; 3], ke: bool, kf: u64, kg: f32, kh: Vec<u16> }
impl Row for W8 { fn row(self, o: &mut Vec<V>) { self.ka.row(o); self.kb.row(o); self.kc.row(o); self.kd.row(o); self.ke.row(o); self.kf.row(o); self.kg.row(o); self.kh.row(o); } }
impl Mk for W8 { fn mk(i: u64) -> Self { W8 { ka: Mk::mk(i * 13 + 0), kb: Mk::mk(i * 13 + 1), kc: Mk::mk(i * 13 + 2), kd: Mk::mk(i * 13 + 3), ke: Mk::mk(i * 13 + 4), kf: Mk::mk(i * 13 + 5), kg: Mk::mk(i * 13 + 6), kh: Mk::mk(i * 13 + 7) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct X1 { s: W1x4 }
impl Row for X1 { fn row(self, o: &mut Vec<V>) { self.s.row(o); } }
impl Mk for X1 { fn mk(i: u64) -> Self { X1 { s: Mk::mk(i * 13 + 0) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct X2 { s: W2x04, u: W2x04 }
impl Row for X2 { fn row(self, o: &mut Vec<V>) { self.s.row(o); self.u.row(o); } }
impl Mk for X2 { fn mk(i: u64) -> Self { X2 { s: Mk::mk(i * 13 + 0), u: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct X3 { a: i32, s: W2x50, b: String }
impl Row for X3 { fn row(self, o: &mut Vec<V>) { self.a.row(o); self.s.row(o); self.b.row(o); } }
impl Mk for X3 { fn mk(i: u64) -> Self { X3 { a: Mk::mk(i * 13 + 0), s: Mk::mk(i * 13 + 1), b: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct X4 { s: W3x123, a: f64 }
impl Row for X4 { fn row(self, o: &mut Vec<V>) { self.s.row(o); self.a.row(o); } }
impl Mk for X4 { fn mk(i: u64) -> Self { X4 { s: Mk::mk(i * 13 + 0), a: Mk::mk(i * 13 + 1) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct X5 { p: X2, q: X1, a: i32 }
impl Row for X5 { fn row(self, o: &mut Vec<V>) { self.p.row(o); self.q.row(o); self.a.row(o); } }
impl Mk for X5 { fn mk(i: u64) -> Self { X5 { p: Mk::mk(i * 13 + 0), q: Mk::mk(i * 13 + 1), a: Mk::mk(i * 13 + 2) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct X6 { p: X1 }
impl Row for X6 { fn row(self, o: &mut Vec<V>) { self.p.row(o); } }
impl Mk for X6 { fn mk(i: u64) -> Self { X6 { p: Mk::mk(i * 13 + 0) } } }
#[derive(ReadFromTree, WriteToTree)]
pub struct X7 { o: X5, c: Vec<f64>, n: X6 }
impl Row for X7 { fn row(self, o: &mut Vec<V>) { self.o.row(o); self.c.row(o); self.n.row(o); } }
impl Mk for X7 { fn mk(i: u64) -> Self { X7 { o: Mk::mk(i * 13 + 0), c: Mk::mk(i * 13 + 1), n: Mk::mk(i * 13 + 2) } } }
pub const SHAPES: &[(&str, &[(&str, &str)], AddFn, ReadFn, RowFn)] = &[
    ("W1x0", &[("fa", "i8")], add::<W1x0>, read::<W1x0>, mkrow::<W1x0>),
    ("W1x1", &[("fa", "u8")], add::<W1x1>, read::<W1x1>, mkrow::<W1x1>),
    ("W1x2", &[("fa", "i16")], add::<W1x2>, read::<W1x2>, mkrow::<W1x2>),
    ("W1x3", &[("fa", "u16")], add::<W1x3>, read::<W1x3>, mkrow::<W1x3>),
    ("W1x4", &[("fa", "i32")], add::<W1x4>, read::<W1x4>, mkrow::<W1x4>),
    ("W1x5", &[("fa", "u32")], add::<W1x5>, read::<W1x5>, mkrow::<W1x5>),
    ("W1x6", &[("fa", "i64")], add::<W1x6>, read::<W1x6>, mkrow::<W1x6>),
    ("W1x7", &[("fa", "u64")], add::<W1x7>, read::<W1x7>, mkrow::<W1x7>),
    ("W1x8", &[("fa", "f32")], add::<W1x8>, read::<W1x8>, mkrow::<W1x8>),
    ("W1x9", &[("fa", "f64")], add::<W1x9>, read::<W1x9>, mkrow::<W1x9>),
    ("W1x10", &[("fa", "bool")], add::<W1x10>, read::<W1x10>, mkrow::<W1x10>),
    ("W1x11", &[("fa", "String")], add::<W1x11>, read::<W1x11>, mkrow::<W1x11>),
    ("W1x12", &[("fa", "Vec<i32>")], add::<W1x12>, read::<W1x12>, mkrow::<W1x12>),
    ("W1x13", &[("fa", "Vec<f64>")], add::<W1x13>, read::<W1x13>, mkrow::<W1x13>),
    ("W1x14", &[("fa", "Vec<bool>")], add::<W1x14>, read::<W1x14>, mkrow::<W1x14>),
    ("W1x15", &[("fa", "Vec<u16>")], add::<W1x15>, read::<W1x15>, mkrow::<W1x15>),
    ("W1x16", &[("fa", "[i32; 3]")], add::<W1x16>, read::<W1x16>, mkrow::<W1x16>),
    ("W1x17", &[("fa", "[f64; 2]")], add::<W1x17>, read::<W1x17>, mkrow::<W1x17>),
    ("W1x18", &[("fa", "[u8; 4]")], add::<W1x18>, read::<W1x18>, mkrow::<W1x18>),
    ("W2x00", &[("ga", "i32"), ("gb", "i32")], add::<W2x00>, read::<W2x00>, mkrow::<W2x00>),
    ("W2x01", &[("ga", "i32"), ("gb", "u8")], add::<W2x01>, read::<W2x01>, mkrow::<W2x01>),
    ("W2x02", &[("ga", "i32"), ("gb", "f64")], add::<W2x02>, read::<W2x02>, mkrow::<W2x02>),
    ("W2x03", &[("ga", "i32"), ("gb", "bool")], add::<W2x03>, read::<W2x03>, mkrow::<W2x03>),
    ("W2x04", &[("ga", "i32"), ("gb", "String")], add::<W2x04>, read::<W2x04>, mkrow::<W2x04>),
    ("W2x05", &[("ga", "i32"), ("gb", "Vec<i32>")], add::<W2x05>, read::<W2x05>, mkrow::<W2x05>),
    ("W2x06", &[("ga", "i32"), ("gb", "Vec<f64>")], add::<W2x06>, read::<W2x06>, mkrow::<W2x06>),
    ("W2x07", &[("ga", "i32"), ("gb", "[i16; 3]")], add::<W2x07>, read::<W2x07>, mkrow::<W2x07>),
    ("W2x10", &[("ga", "u8"), ("gb", "i32")], add::<W2x10>, read::<W2x10>, mkrow::<W2x10>),
    ("W2x11", &[("ga", "u8"), ("gb", "u8")], add::<W2x11>, read::<W2x11>, mkrow::<W2x11>),
    ("W2x12", &[("ga", "u8"), ("gb", "f64")], add::<W2x12>, read::<W2x12>, mkrow::<W2x12>),
    ("W2x13", &[("ga", "u8"), ("gb", "bool")], add::<W2x13>, read::<W2x13>, mkrow::<W2x13>),
    ("W2x14", &[("ga", "u8"), ("gb", "String")], add::<W2x14>, read::<W2x14>, mkrow::<W2x14>),
    ("W2x15", &[("ga", "u8"), ("gb", "Vec<i32>")], add::<W2x15>, read::<W2x15>, mkrow::<W2x15>),
    ("W2x16", &[("ga", "u8"), ("gb", "Vec<f64>")], add::<W2x16>, read::<W2x16>, mkrow::<W2x16>),
    ("W2x17", &[("ga", "u8"), ("gb", "[i16; 3]")], add::<W2x17>, read::<W2x17>, mkrow::<W2x17>),
    ("W2x20", &[("ga", "f64"), ("gb", "i32")], add::<W2x20>, read::<W2x20>, mkrow::<W2x20>),
    ("W2x21", &[("ga", "f64"), ("gb", "u8")], add::<W2x21>, read::<W2x21>, mkrow::<W2x21>),
    ("W2x22", &[("ga", "f64"), ("gb", "f64")], add::<W2x22>, read::<W2x22>, mkrow::<W2x22>),
    ("W2x23", &[("ga", "f64"), ("gb", "bool")], add::<W2x23>, read::<W2x23>, mkrow::<W2x23>),
    ("W2x24", &[("ga", "f64"), ("gb", "String")], add::<W2x24>, read::<W2x24>, mkrow::<W2x24>),
    ("W2x25", &[("ga", "f64"), ("gb", "Vec<i32>")], add::<W2x25>, read::<W2x25>, mkrow::<W2x25>),
    ("W2x26", &[("ga", "f64"), ("gb", "Vec<f64>")], add::<W2x26>, read::<W2x26>, mkrow::<W2x26>),
    ("W2x27", &[("ga", "f64"), ("gb", "[i16; 3]")], add::<W2x27>, read::<W2x27>, mkrow::<W2x27>),
    ("W2x30", &[("ga", "bool"), ("gb", "i32")], add::<W2x30>, read::<W2x30>, mkrow::<W2x30>),
    ("W2x31", &[("ga", "bool"), ("gb", "u8")], add::<W2x31>, read::<W2x31>, mkrow::<W2x31>),
    ("W2x32", &[("ga", "bool"), ("gb", "f64")], add::<W2x32>, read::<W2x32>, mkrow::<W2x32>),
    ("W2x33", &[("ga", "bool"), ("gb", "bool")], add::<W2x33>, read::<W2x33>, mkrow::<W2x33>),
    ("W2x34", &[("ga", "bool"), ("gb", "String")], add::<W2x34>, read::<W2x34>, mkrow::<W2x34>),
    ("W2x35", &[("ga", "bool"), ("gb", "Vec<i32>")], add::<W2x35>, read::<W2x35>, mkrow::<W2x35>),
    ("W2x36", &[("ga", "bool"), ("gb", "Vec<f64>")], add::<W2x36>, read::<W2x36>, mkrow::<W2x36>),
    ("W2x37", &[("ga", "bool"), ("gb", "[i16; 3]")], add::<W2x37>, read::<W2x37>, mkrow::<W2x37>),
    ("W2x40", &[("ga", "String"), ("gb", "i32")], add::<W2x40>, read::<W2x40>, mkrow::<W2x40>),
    ("W2x41", &[("ga", "String"), ("gb", "u8")], add::<W2x41>, read::<W2x41>, mkrow::<W2x41>),
    ("W2x42", &[("ga", "String"), ("gb", "f64")], add::<W2x42>, read::<W2x42>, mkrow::<W2x42>),
    ("W2x43", &[("ga", "String"), ("gb", "bool")], add::<W2x43>, read::<W2x43>, mkrow::<W2x43>),
    ("W2x44", &[("ga", "String"), ("gb", "String")], add::<W2x44>, read::<W2x44>, mkrow::<W2x44>),
    ("W2x45", &[("ga", "String"), ("gb", "Vec<i32>")], add::<W2x45>, read::<W2x45>, mkrow::<W2x45>),
    ("W2x46", &[("ga", "String"), ("gb", "Vec<f64>")], add::<W2x46>, read::<W2x46>, mkrow::<W2x46>),
    ("W2x47", &[("ga", "String"), ("gb", "[i16; 3]")], add::<W2x47>, read::<W2x47>, mkrow::<W2x47>),
    ("W2x50", &[("ga", "Vec<i32>"), ("gb", "i32")], add::<W2x50>, read::<W2x50>, mkrow::<W2x50>),
    ("W2x51", &[("ga", "Vec<i32>"), ("gb", "u8")], add::<W2x51>, read::<W2x51>, mkrow::<W2x51>),
    ("W2x52", &[("ga", "Vec<i32>"), ("gb", "f64")], add::<W2x52>, read::<W2x52>, mkrow::<W2x52>),
    ("W2x53", &[("ga", "Vec<i32>"), ("gb", "bool")], add::<W2x53>, read::<W2x53>, mkrow::<W2x53>),
    ("W2x54", &[("ga", "Vec<i32>"), ("gb", "String")], add::<W2x54>, read::<W2x54>, mkrow::<W2x54>),
    ("W2x55", &[("ga", "Vec<i32>"), ("gb", "Vec<i32>")], add::<W2x55>, read::<W2x55>, mkrow::<W2x55>),
    ("W2x56", &[("ga", "Vec<i32>"), ("gb", "Vec<f64>")], add::<W2x56>, read::<W2x56>, mkrow::<W2x56>),
    ("W2x57", &[("ga", "Vec<i32>"), ("gb", "[i16; 3]")], add::<W2x57>, read::<W2x57>, mkrow::<W2x57>),
    ("W2x60", &[("ga", "Vec<f64>"), ("gb", "i32")], add::<W2x60>, read::<W2x60>, mkrow::<W2x60>),
    ("W2x61", &[("ga", "Vec<f64>"), ("gb", "u8")], add::<W2x61>, read::<W2x61>, mkrow::<W2x61>),
    ("W2x62", &[("ga", "Vec<f64>"), ("gb", "f64")], add::<W2x62>, read::<W2x62>, mkrow::<W2x62>),
    ("W2x63", &[("ga", "Vec<f64>"), ("gb", "bool")], add::<W2x63>, read::<W2x63>, mkrow::<W2x63>),
    ("W2x64", &[("ga", "Vec<f64>"), ("gb", "String")], add::<W2x64>, read::<W2x64>, mkrow::<W2x64>),
    ("W2x65", &[("ga", "Vec<f64>"), ("gb", "Vec<i32>")], add::<W2x65>, read::<W2x65>, mkrow::<W2x65>),
    ("W2x66", &[("ga", "Vec<f64>"), ("gb", "Vec<f64>")], add::<W2x66>, read::<W2x66>, mkrow::<W2x66>),
    ("W2x67", &[("ga", "Vec<f64>"), ("gb", "[i16; 3]")], add::<W2x67>, read::<W2x67>, mkrow::<W2x67>),
    ("W2x70", &[("ga", "[i16; 3]"), ("gb", "i32")], add::<W2x70>, read::<W2x70>, mkrow::<W2x70>),
    ("W2x71", &[("ga", "[i16; 3]"), ("gb", "u8")], add::<W2x71>, read::<W2x71>, mkrow::<W2x71>),
    ("W2x72", &[("ga", "[i16; 3]"), ("gb", "f64")], add::<W2x72>, read::<W2x72>, mkrow::<W2x72>),
    ("W2x73", &[("ga", "[i16; 3]"), ("gb", "bool")], add::<W2x73>, read::<W2x73>, mkrow::<W2x73>),
    ("W2x74", &[("ga", "[i16; 3]"), ("gb", "String")], add::<W2x74>, read::<W2x74>, mkrow::<W2x74>),
    ("W2x75", &[("ga", "[i16; 3]"), ("gb", "Vec<i32>")], add::<W2x75>, read::<W2x75>, mkrow::<W2x75>),
    ("W2x76", &[("ga", "[i16; 3]"), ("gb", "Vec<f64>")], add::<W2x76>, read::<W2x76>, mkrow::<W2x76>),
    ("W2x77", &[("ga", "[i16; 3]"), ("gb", "[i16; 3]")], add::<W2x77>, read::<W2x77>, mkrow::<W2x77>),
    ("W3x000", &[("ha", "i32"), ("hb", "i32"), ("hc", "i32")], add::<W3x000>, read::<W3x000>, mkrow::<W3x000>),
    ("W3x001", &[("ha", "i32"), ("hb", "i32"), ("hc", "String")], add::<W3x001>, read::<W3x001>, mkrow::<W3x001>),
    ("W3x002", &[("ha", "i32"), ("hb", "i32"), ("hc", "Vec<f64>")], add::<W3x002>, read::<W3x002>, mkrow::<W3x002>),
    ("W3x003", &[("ha", "i32"), ("hb", "i32"), ("hc", "[i16; 3]")], add::<W3x003>, read::<W3x003>, mkrow::<W3x003>),
    ("W3x010", &[("ha", "i32"), ("hb", "String"), ("hc", "i32")], add::<W3x010>, read::<W3x010>, mkrow::<W3x010>),
    ("W3x011", &[("ha", "i32"), ("hb", "String"), ("hc", "String")], add::<W3x011>, read::<W3x011>, mkrow::<W3x011>),
    ("W3x012", &[("ha", "i32"), ("hb", "String"), ("hc", "Vec<f64>")], add::<W3x012>, read::<W3x012>, mkrow::<W3x012>),
    ("W3x013", &[("ha", "i32"), ("hb", "String"), ("hc", "[i16; 3]")], add::<W3x013>, read::<W3x013>, mkrow::<W3x013>),
    ("W3x020", &[("ha", "i32"), ("hb", "Vec<f64>"), ("hc", "i32")], add::<W3x020>, read::<W3x020>, mkrow::<W3x020>),
    ("W3x021", &[("ha", "i32"), ("hb", "Vec<f64>"), ("hc", "String")], add::<W3x021>, read::<W3x021>, mkrow::<W3x021>),
    ("W3x022", &[("ha", "i32"), ("hb", "Vec<f64>"), ("hc", "Vec<f64>")], add::<W3x022>, read::<W3x022>, mkrow::<W3x022>),
    ("W3x023", &[("ha", "i32"), ("hb", "Vec<f64>"), ("hc", "[i16; 3]")], add::<W3x023>, read::<W3x023>, mkrow::<W3x023>),
    ("W3x030", &[("ha", "i32"), ("hb", "[i16; 3]"), ("hc", "i32")], add::<W3x030>, read::<W3x030>, mkrow::<W3x030>),
    ("W3x031", &[("ha", "i32"), ("hb", "[i16; 3]"), ("hc", "String")], add::<W3x031>, read::<W3x031>, mkrow::<W3x031>),
    ("W3x032", &[("ha", "i32"), ("hb", "[i16; 3]"), ("hc", "Vec<f64>")], add::<W3x032>, read::<W3x032>, mkrow::<W3x032>),
    ("W3x033", &[("ha", "i32"), ("hb", "[i16; 3]"), ("hc", "[i16; 3]")], add::<W3x033>, read::<W3x033>, mkrow::<W3x033>),
    ("W3x100", &[("ha", "String"), ("hb", "i32"), ("hc", "i32")], add::<W3x100>, read::<W3x100>, mkrow::<W3x100>),
    ("W3x101", &[("ha", "String"), ("hb", "i32"), ("hc", "String")], add::<W3x101>, read::<W3x101>, mkrow::<W3x101>),
    ("W3x102", &[("ha", "String"), ("hb", "i32"), ("hc", "Vec<f64>")], add::<W3x102>, read::<W3x102>, mkrow::<W3x102>),
    ("W3x103", &[("ha", "String"), ("hb", "i32"), ("hc", "[i16; 3]")], add::<W3x103>, read::<W3x103>, mkrow::<W3x103>),
    ("W3x110", &[("ha", "String"), ("hb", "String"), ("hc", "i32")], add::<W3x110>, read::<W3x110>, mkrow::<W3x110>),
    ("W3x111", &[("ha", "String"), ("hb", "String"), ("hc", "String")], add::<W3x111>, read::<W3x111>, mkrow::<W3x111>),
    ("W3x112", &[("ha", "String"), ("hb", "String"), ("hc", "Vec<f64>")], add::<W3x112>, read::<W3x112>, mkrow::<W3x112>),
    ("W3x113", &[("ha", "String"), ("hb", "String"), ("hc", "[i16; 3]")], add::<W3x113>, read::<W3x113>, mkrow::<W3x113>),
    ("W3x120", &[("ha", "String"), ("hb", "Vec<f64>"), ("hc", "i32")], add::<W3x120>, read::<W3x120>, mkrow::<W3x120>),
    ("W3x121", &[("ha", "String"), ("hb", "Vec<f64>"), ("hc", "String")], add::<W3x121>, read::<W3x121>, mkrow::<W3x121>),
    ("W3x122", &[("ha", "String"), ("hb", "Vec<f64>"), ("hc", "Vec<f64>")], add::<W3x122>, read::<W3x122>, mkrow::<W3x122>),
    ("W3x123", &[("ha", "String"), ("hb", "Vec<f64>"), ("hc", "[i16; 3]")], add::<W3x123>, read::<W3x123>, mkrow::<W3x123>),
    ("W3x130", &[("ha", "String"), ("hb", "[i16; 3]"), ("hc", "i32")], add::<W3x130>, read::<W3x130>, mkrow::<W3x130>),
    ("W3x131", &[("ha", "String"), ("hb", "[i16; 3]"), ("hc", "String")], add::<W3x131>, read::<W3x131>, mkrow::<W3x131>),
    ("W3x132", &[("ha", "String"), ("hb", "[i16; 3]"), ("hc", "Vec<f64>")], add::<W3x132>, read::<W3x132>, mkrow::<W3x132>),
    ("W3x133", &[("ha", "String"), ("hb", "[i16; 3]"), ("hc", "[i16; 3]")], add::<W3x133>, read::<W3x133>, mkrow::<W3x133>),
    ("W3x200", &[("ha", "Vec<f64>"), ("hb", "i32"), ("hc", "i32")], add::<W3x200>, read::<W3x200>, mkrow::<W3x200>),
    ("W3x201", &[("ha", "Vec<f64>"), ("hb", "i32"), ("hc", "String")], add::<W3x201>, read::<W3x201>, mkrow::<W3x201>),
    ("W3x202", &[("ha", "Vec<f64>"), ("hb", "i32"), ("hc", "Vec<f64>")], add::<W3x202>, read::<W3x202>, mkrow::<W3x202>),
    ("W3x203", &[("ha", "Vec<f64>"), ("hb", "i32"), ("hc", "[i16; 3]")], add::<W3x203>, read::<W3x203>, mkrow::<W3x203>),
    ("W3x210", &[("ha", "Vec<f64>"), ("hb", "String"), ("hc", "i32")], add::<W3x210>, read::<W3x210>, mkrow::<W3x210>),
    ("W3x211", &[("ha", "Vec<f64>"), ("hb", "String"), ("hc", "String")], add::<W3x211>, read::<W3x211>, mkrow::<W3x211>),
    ("W3x212", &[("ha", "Vec<f64>"), ("hb", "String"), ("hc", "Vec<f64>")], add::<W3x212>, read::<W3x212>, mkrow::<W3x212>),
    ("W3x213", &[("ha", "Vec<f64>"), ("hb", "String"), ("hc", "[i16; 3]")], add::<W3x213>, read::<W3x213>, mkrow::<W3x213>),
    ("W3x220", &[("ha", "Vec<f64>"), ("hb", "Vec<f64>"), ("hc", "i32")], add::<W3x220>, read::<W3x220>, mkrow::<W3x220>),
    ("W3x221", &[("ha", "Vec<f64>"), ("hb", "Vec<f64>"), ("hc", "String")], add::<W3x221>, read::<W3x221>, mkrow::<W3x221>),
    ("W3x222", &[("ha", "Vec<f64>"), ("hb", "Vec<f64>"), ("hc", "Vec<f64>")], add::<W3x222>, read::<W3x222>, mkrow::<W3x222>),
    ("W3x223", &[("ha", "Vec<f64>"), ("hb", "Vec<f64>"), ("hc", "[i16; 3]")], add::<W3x223>, read::<W3x223>, mkrow::<W3x223>),
    ("W3x230", &[("ha", "Vec<f64>"), ("hb", "[i16; 3]"), ("hc", "i32")], add::<W3x230>, read::<W3x230>, mkrow::<W3x230>),
    ("W3x231", &[("ha", "Vec<f64>"), ("hb", "[i16; 3]"), ("hc", "String")], add::<W3x231>, read::<W3x231>, mkrow::<W3x231>),
    ("W3x232", &[("ha", "Vec<f64>"), ("hb", "[i16; 3]"), ("hc", "Vec<f64>")], add::<W3x232>, read::<W3x232>, mkrow::<W3x232>),
    ("W3x233", &[("ha", "Vec<f64>"), ("hb", "[i16; 3]"), ("hc", "[i16; 3]")], add::<W3x233>, read::<W3x233>, mkrow::<W3x233>),
    ("W3x300", &[("ha", "[i16; 3]"), ("hb", "i32"), ("hc", "i32")], add::<W3x300>, read::<W3x300>, mkrow::<W3x300>),
    ("W3x301", &[("ha", "[i16; 3]"), ("hb", "i32"), ("hc", "String")], add::<W3x301>, read::<W3x301>, mkrow::<W3x301>),
    ("W3x302", &[("ha", "[i16; 3]"), ("hb", "i32"), ("hc", "Vec<f64>")], add::<W3x302>, read::<W3x302>, mkrow::<W3x302>),
    ("W3x303", &[("ha", "[i16; 3]"), ("hb", "i32"), ("hc", "[i16; 3]")], add::<W3x303>, read::<W3x303>, mkrow::<W3x303>),
    ("W3x310", &[("ha", "[i16; 3]"), ("hb", "String"), ("hc", "i32")], add::<W3x310>, read::<W3x310>, mkrow::<W3x310>),
    ("W3x311", &[("ha", "[i16; 3]"), ("hb", "String"), ("hc", "String")], add::<W3x311>, read::<W3x311>, mkrow::<W3x311>),
    ("W3x312", &[("ha", "[i16; 3]"), ("hb", "String"), ("hc", "Vec<f64>")], add::<W3x312>, read::<W3x312>, mkrow::<W3x312>),
    ("W3x313", &[("ha", "[i16; 3]"), ("hb", "String"), ("hc", "[i16; 3]")], add::<W3x313>, read::<W3x313>, mkrow::<W3x313>),
    ("W3x320", &[("ha", "[i16; 3]"), ("hb", "Vec<f64>"), ("hc", "i32")], add::<W3x320>, read::<W3x320>, mkrow::<W3x320>),
    ("W3x321", &[("ha", "[i16; 3]"), ("hb", "Vec<f64>"), ("hc", "String")], add::<W3x321>, read::<W3x321>, mkrow::<W3x321>),
    ("W3x322", &[("ha", "[i16; 3]"), ("hb", "Vec<f64>"), ("hc", "Vec<f64>")], add::<W3x322>, read::<W3x322>, mkrow::<W3x322>),
    ("W3x323", &[("ha", "[i16; 3]"), ("hb", "Vec<f64>"), ("hc", "[i16; 3]")], add::<W3x323>, read::<W3x323>, mkrow::<W3x323>),
    ("W3x330", &[("ha", "[i16; 3]"), ("hb", "[i16; 3]"), ("hc", "i32")], add::<W3x330>, read::<W3x330>, mkrow::<W3x330>),
    ("W3x331", &[("ha", "[i16; 3]"), ("hb", "[i16; 3]"), ("hc", "String")], add::<W3x331>, read::<W3x331>, mkrow::<W3x331>),
    ("W3x332", &[("ha", "[i16; 3]"), ("hb", "[i16; 3]"), ("hc", "Vec<f64>")], add::<W3x332>, read::<W3x332>, mkrow::<W3x332>),
    ("W3x333", &[("ha", "[i16; 3]"), ("hb", "[i16; 3]"), ("hc", "[i16; 3]")], add::<W3x333>, read::<W3x333>, mkrow::<W3x333>),
    ("W8", &[("ka", "i32"), ("kb", "String"), ("kc", "Vec<f64>"), ("kd", "[i16; 3]"), ("ke", "bool"), ("kf", "u64"), ("kg", "f32"), ("kh", "Vec<u16>")], add::<W8>, read::<W8>, mkrow::<W8>),
    ("X1", &[("s.fa", "i32")], add::<X1>, read::<X1>, mkrow::<X1>),
    ("X2", &[("s.ga", "i32"), ("s.gb", "String"), ("u.ga", "i32"), ("u.gb", "String")], add::<X2>, read::<X2>, mkrow::<X2>),
    ("X3", &[("a", "i32"), ("s.ga", "Vec<i32>"), ("s.gb", "i32"), ("b", "String")], add::<X3>, read::<X3>, mkrow::<X3>),
    ("X4", &[("s.ha", "String"), ("s.hb", "Vec<f64>"), ("s.hc", "[i16; 3]"), ("a", "f64")], add::<X4>, read::<X4>, mkrow::<X4>),
    ("X5", &[("p.s.ga", "i32"), ("p.s.gb", "String"), ("p.u.ga", "i32"), ("p.u.gb", "String"), ("q.s.fa", "i32"), ("a", "i32")], add::<X5>, read::<X5>, mkrow::<X5>),
    ("X6", &[("p.s.fa", "i32")], add::<X6>, read::<X6>, mkrow::<X6>),
    ("X7", &[("o.p.s.ga", "i32"), ("o.p.s.gb", "String"), ("o.p.u.ga", "i32"), ("o.p.u.gb", "String"), ("o.q.s.fa", "i32"), ("o.a", "i32"), ("c", "Vec<f64>"), ("n.p.s.fa", "i32")], add::<X7>, read::<X7>, mkrow::<X7>),
];
