#!/usr/bin/env python3
"""Writes harness/src/gen_progs.rs: every struct program of the C12/C13 grammars with the column names the rule gives."""
import itertools, os
out=[]
w=out.append
w("// Written by gen_progs.py.\nuse super::*;\n")
# --- C12: naming attributes -------------------------------------------------
ATTRS=[frozenset(x) for n in range(4) for x in itertools.combinations(("rename","prefix","abs"),n)]
SINGLE=[a for a in ATTRS if len(a)<=1]
TOK={0:dict(field="a",rename="ra",prefix="pa_",abs="xa.y",glob="ga_"),
     1:dict(field="m",rename="rm",prefix="pm_",abs="xm",glob="gm_"),
     2:dict(field="t",rename="rt",prefix="pt_",abs="xt",glob="gt_")}
def sname(lv,g,a): return f"{'LMT'[lv]}{int(g)}{''.join(x[0] for x in sorted(a))}"
def name(parent,lv,g,a):
    """The documented rule: parent '.' prefix+name; an absolute name forgets parents and the struct's prefix."""
    t=TOK[lv]
    if "abs" in a: return (t["prefix"] if "prefix" in a else "")+t["abs"]
    p=t["prefix"] if "prefix" in a else (t["glob"] if g else "")
    b=t["rename"] if "rename" in a else t["field"]
    return (parent+"." if parent else "")+p+b
def struct(id,lv,g,a,ty,sl_struct=False,sl_field=None,body=None):
    t=TOK[lv]
    o=[]
    if g: o.append(f'branch_prefix = "{t["glob"]}"')
    if sl_struct: o.append("slicable")
    f=[]
    if "rename" in a: f.append(f'rename = "{t["rename"]}"')
    if "prefix" in a: f.append(f'branch_prefix = "{t["prefix"]}"')
    if "abs" in a: f.append(f'absolute_name = "{t["abs"]}"')
    if sl_field: f.append(f'slicable = "{sl_field}"')
    w("#[derive(ReadFromTree)]")
    if o: w(f"#[oxyroot({', '.join(o)})]")
    w(f"pub struct {id} {{")
    if f: w(f"    #[oxyroot({', '.join(f)})]")
    w(f"    {t['field']}: {ty},\n}}")
    w(f"impl Row for {id} {{ fn row(self, o: &mut Vec<V>) {{ {body or 'self.'+t['field']+'.row(o)'} }} }}")
progs=[]
leafs=[]
for s in (0,1):
    for g in (0,1):
        for a in ATTRS:
            id=sname(0,g,a)+("S" if s else "")
            struct(id,0,g,a,"i32",sl_struct=bool(s))
            leafs.append((id,g,a,s))
            progs.append((id,name("",0,g,a),"one"))
mids=[]
for g in (0,1):
    for a in ATTRS:
        for (lid,lg,la,s) in leafs:
            if s and len(la)>1 and len(a)>1: continue
            if not s:
                id=sname(1,g,a)+"_"+lid
                struct(id,1,g,a,lid)
                mids.append((id,g,a,lg,la))
                progs.append((id,name(name("",1,g,a),0,lg,la),"one"))
            else:
                id=sname(1,g,a)+"_"+lid+"v"
                struct(id,1,g,a,f"Vec<{lid}>",sl_field=lid,body="let mut v = vec![]; for x in self.m { x.row(&mut v) } o.push(V::L(v))")
                progs.append((id,name(name("",1,g,a),0,lg,la),"slice"))
                if g==0 and len(a)==0:
                    id=sname(1,g,a)+"_"+lid
                    struct(id,1,g,a,lid)
                    progs.append((id,name(name("",1,g,a),0,lg,la),"one"))
for g in (0,1):
    for a in SINGLE:
        for (mid,mg,ma,lg,la) in mids:
            if len(ma)>1 or len(la)>1: continue
            id=sname(2,g,a)+"_"+mid
            struct(id,2,g,a,mid)
            progs.append((id,name(name(name("",2,g,a),1,mg,ma),0,lg,la),"one"))
w("pub const READ: &[(&str, &str, bool, ReadFn)] = &[")
for (id,n,k) in progs:
    w(f'    ("{id}", "{n}", {"true" if k=="slice" else "false"}, read::<{id}>),')
w("];")
# --- C12: several fields, each its own column, every order of lengths ---------
MULTI={
 "M2":[("a","i32"),("b","String")],
 "M2n":[("b","String"),("a","i32")],
 "M3":[("a","i32"),("b","String"),("c","Vec<f64>")],
 "M3r":[("c","Vec<f64>"),("a","i32"),("b","String")],
 "M4":[("a","i32"),("b","String"),("c","Vec<f64>"),("d","[i16; 3]")],
 "M3s":[("a","i32"),("e","i32"),("f","i32")],
}
def fields(id,fs,der,attrs=""):
    w(f"#[derive({der})]")
    w(f"pub struct {id} {{ "+", ".join(f"{n}: {t}" for n,t in fs)+" }")
    w(f"impl Row for {id} {{ fn row(self, o: &mut Vec<V>) {{ "+" ".join(f"self.{n}.row(o);" for n,_ in fs)+" } }")
for id,fs in MULTI.items(): fields(id,fs,"ReadFromTree")
# nested: a struct between plain fields, twice the same struct, two levels
fields("N1",[("a","i32"),("s","M2"),("c","Vec<f64>")],"ReadFromTree")
fields("N2",[("s","M2"),("u","M2")],"ReadFromTree")
fields("N3",[("u","M2n"),("a","i32"),("s","M2")],"ReadFromTree")
fields("N4",[("z","N1"),("a","i32"),("s","M2")],"ReadFromTree")
def cols(fs,pre=""):
    o=[]
    for n,t in fs:
        sub={"M2":MULTI["M2"],"M2n":MULTI["M2n"],"N1":[("a","i32"),("s","M2"),("c","Vec<f64>")]}.get(t)
        o+= cols(sub,pre+n+".") if sub else [(pre+n,t)]
    return o
NEST={"N1":[("a","i32"),("s","M2"),("c","Vec<f64>")],"N2":[("s","M2"),("u","M2")],"N3":[("u","M2n"),("a","i32"),("s","M2")],"N4":[("z","N1"),("a","i32"),("s","M2")]}
w("pub const ROWS: &[(&str, &[(&str, &str)], ReadFn)] = &[")
for id,fs in {**MULTI,**NEST}.items():
    w(f'    ("{id}", &['+", ".join(f'("{n}", "{t}")' for n,t in cols(fs))+f"], read::<{id}>),")
w("];")
# slicable with several fields beside plain ones
w('''#[derive(ReadFromTree)]
#[oxyroot(slicable)]
pub struct Pt { x: i32, y: f64, z: i16 }
impl Row for Pt { fn row(self, o: &mut Vec<V>) { self.x.row(o); self.y.row(o); self.z.row(o); } }
#[derive(ReadFromTree)]
pub struct Pts { #[oxyroot(slicable = "Pt")] p: Vec<Pt> }
impl Row for Pts { fn row(self, o: &mut Vec<V>) { slice_row(self.p, o) } }
#[derive(ReadFromTree)]
pub struct Pts2 { a: i32, #[oxyroot(slicable = "Pt")] p: Vec<Pt>, #[oxyroot(slicable = "Pt", rename = "q")] r: Vec<Pt>, b: String }
impl Row for Pts2 { fn row(self, o: &mut Vec<V>) { self.a.row(o); slice_row(self.p, o); slice_row(self.r, o); self.b.row(o) } }
#[derive(ReadFromTree)]
pub struct Pts3 { s: Pts, a: i32 }
impl Row for Pts3 { fn row(self, o: &mut Vec<V>) { self.s.row(o); self.a.row(o) } }''')
# --- C13: writer shapes ---------------------------------------------------------
T1=["i8","u8","i16","u16","i32","u32","i64","u64","f32","f64","bool","String","Vec<i32>","Vec<f64>","Vec<bool>","Vec<u16>","[i32; 3]","[f64; 2]","[u8; 4]"]
T2=["i32","u8","f64","bool","String","Vec<i32>","Vec<f64>","[i16; 3]"]
T3=["i32","String","Vec<f64>","[i16; 3]"]
shapes=[]
def wshape(id,fs,flat):
    w("#[derive(ReadFromTree, WriteToTree)]")
    w(f"pub struct {id} {{ "+", ".join(f"{n}: {t}" for n,t in fs)+" }")
    w(f"impl Row for {id} {{ fn row(self, o: &mut Vec<V>) {{ "+" ".join(f"self.{n}.row(o);" for n,_ in fs)+" } }")
    w(f"impl Mk for {id} {{ fn mk(i: u64) -> Self {{ {id} {{ "+", ".join(f"{n}: Mk::mk(i * 13 + {k})" for k,(n,_) in enumerate(fs))+" } } }")
    shapes.append((id,flat))
W={}
def plain(id,ts,pre):
    fs=[(f"{pre}{c}",t) for c,t in zip("abcdefgh",ts)]
    W[id]=fs
    wshape(id,fs,fs)
for k,t in enumerate(T1): plain(f"W1x{k}",[t],"f")
for i,j in itertools.product(range(len(T2)),repeat=2): plain(f"W2x{i}{j}",[T2[i],T2[j]],"g")
for i,j,k in itertools.product(range(len(T3)),repeat=3): plain(f"W3x{i}{j}{k}",[T3[i],T3[j],T3[k]],"h")
plain("W8",["i32","String","Vec<f64>","[i16; 3]","bool","u64","f32","Vec<u16>"],"k")
def flat(fs,pre=""):
    o=[]
    for n,t in fs: o+= flat(W[t],pre+n+".") if t in W else [(pre+n,t)]
    return o
def nested(id,fs):
    W[id]=fs
    wshape(id,fs,flat(fs))
nested("X1",[("s","W1x4")])
nested("X2",[("s","W2x04"),("u","W2x04")])
nested("X3",[("a","i32"),("s","W2x50"),("b","String")])
nested("X4",[("s","W3x123"),("a","f64")])
nested("X5",[("p","X2"),("q","X1"),("a","i32")])
nested("X6",[("p","X1")])
nested("X7",[("o","X5"),("c","Vec<f64>"),("n","X6")])
w("pub const SHAPES: &[(&str, &[(&str, &str)], AddFn, ReadFn, RowFn)] = &[")
for id,fl in shapes:
    w(f'    ("{id}", &['+", ".join(f'("{n}", "{t}")' for n,t in fl)+f"], add::<{id}>, read::<{id}>, mkrow::<{id}>),")
w("];")
here=os.path.dirname(os.path.abspath(__file__))
open(os.path.join(here,"harness/src/eng2/gen_progs.rs"),"w").write("\n".join(out)+"\n")
print(len(progs),len(shapes))
