//! C21: composition of column names against a reference made of three strings.
use crate::core::*;
use oxyroot::BranchName;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Model {
    /// what stands before the last part, its dot included
    front: String,
    prefix: Option<String>,
    name: Option<String>,
}
impl Model {
    fn new() -> Model {
        Model { front: String::new(), prefix: None, name: None }
    }
    fn text(&self) -> String {
        format!("{}{}{}", self.front, self.prefix.as_deref().unwrap_or(""), self.name.as_deref().unwrap_or(""))
    }
    fn apply(&self, op: Op) -> Model {
        match op {
            Op::Prefix(p) => Model { prefix: Some(p.into()), ..self.clone() },
            Op::Name(n) => Model { name: Some(n.into()), ..self.clone() },
            Op::Absolute(n) => Model { front: String::new(), prefix: None, name: Some(n.into()) },
            // an unnamed parent adds nothing
            Op::Child(n) => Model { front: if self.name.is_some() { self.text() + "." } else { String::new() }, prefix: None, name: Some(n.into()) },
            Op::Same => self.clone(),
            Op::New => Model::new(),
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Prefix(&'static str),
    Name(&'static str),
    Absolute(&'static str),
    Child(&'static str),
    Same,
    New,
}
/// `k` chooses how the argument is passed
fn apply(b: &BranchName, op: Op, k: usize) -> BranchName {
    match (op, k % 3) {
        (Op::Prefix(p), 0) => b.clone().with_prefix(p),
        (Op::Prefix(p), 1) => b.clone().with_prefix(p.to_string()),
        (Op::Prefix(p), _) => b.clone().with_prefix(&p.to_string()),
        (Op::Name(p), 0) => b.clone().with_name(p),
        (Op::Name(p), 1) => b.clone().with_name(p.to_string()),
        (Op::Name(p), _) => b.clone().with_name(&p.to_string()),
        (Op::Absolute(p), 0) => b.make_absolute(p),
        (Op::Absolute(p), 1) => b.make_absolute(p.to_string()),
        (Op::Absolute(p), _) => b.make_absolute(&p.to_string()),
        (Op::Child(p), 0) => b.make_child(p),
        (Op::Child(p), 1) => b.make_child(p.to_string()),
        (Op::Child(p), _) => b.make_child(&p.to_string()),
        (Op::Same, _) => b.clone(),
        (Op::New, 0) => BranchName::default(),
        (Op::New, _) => BranchName::new(),
    }
}
const OPS: [Op; 12] = [
    Op::Prefix("p_"),
    Op::Prefix("q."),
    Op::Prefix(""),
    Op::Name("a"),
    Op::Name("b.c"),
    Op::Name(""),
    Op::Absolute("z"),
    Op::Absolute("y.x"),
    Op::Child("k"),
    Op::Child("a"),
    Op::Child(""),
    Op::Child("m.n"),
];
fn differs(b: &BranchName, m: &Model, how: &dyn Fn() -> String) -> Result<(), String> {
    let got = b.final_name();
    if got != m.text() {
        return Err(format!("{}: {got:?} instead of {:?}", how(), m.text()));
    }
    Ok(())
}
/// every continuation of `path` to the depth; every value on the way is checked again afterwards
fn chain(c: &mut Case, path: &mut Vec<Op>, b: &BranchName, m: &Model, left: usize) -> Result<(), String> {
    differs(b, m, &|| format!("{path:?}"))?;
    c.state(m);
    for (k, op) in OPS.iter().enumerate().take(if left == 0 { 0 } else { OPS.len() }) {
        path.push(*op);
        let r = chain(c, path, &apply(b, *op, k + left), &m.apply(*op), left - 1);
        path.pop();
        r?;
        c.steps(1);
        differs(b, m, &|| format!("{path:?} after it was used for {op:?}"))?;
    }
    Ok(())
}
/// every way to derive `left` more values from those there are
fn pool(c: &mut Case, path: &mut Vec<(usize, Op)>, vals: &mut Vec<(BranchName, Model)>, ops: &[Op], left: usize) -> Result<(), String> {
    for (i, (b, m)) in vals.iter().enumerate() {
        differs(b, m, &|| format!("value {i} of {path:?}"))?;
    }
    c.state(vals.iter().map(|v| v.1.clone()).collect::<Vec<_>>());
    if left == 0 {
        return Ok(());
    }
    for i in 0..vals.len() {
        for (k, op) in ops.iter().enumerate() {
            let v = (apply(&vals[i].0, *op, k), vals[i].1.apply(*op));
            vals.push(v);
            path.push((i, *op));
            let r = pool(c, path, vals, ops, left - 1);
            path.pop();
            vals.pop();
            r?;
            c.steps(1);
        }
    }
    Ok(())
}
pub fn run(cx: &mut Ctx) {
    let tier = cx.tier;
    for a in OPS {
        for b in OPS {
            cx.case(
                || format!("chains beginning with {a:?}, {b:?}"),
                |c| {
                    let (x, m) = (apply(&BranchName::new(), a, 0), Model::new().apply(a));
                    let (y, n) = (apply(&x, b, 1), m.apply(b));
                    chain(c, &mut vec![a, b], &y, &n, tier.pick(4, 5))?;
                    differs(&x, &m, &|| format!("[{a:?}]"))
                },
            );
        }
    }
    let small = [Op::Prefix("p"), Op::Name("n"), Op::Absolute("z"), Op::Child("k"), Op::Same];
    for a in small {
        for b in small {
            cx.case(
                || format!("values derived from one another, beginning with {a:?} and {b:?}"),
                |c| {
                    let mut vals = vec![(BranchName::new(), Model::new())];
                    for o in [a, b] {
                        let v = vals.last().unwrap();
                        vals.push((apply(&v.0, o, 2), v.1.apply(o)));
                    }
                    pool(c, &mut vec![], &mut vals, &small, tier.pick(3, 4))
                },
            );
        }
    }
    let rich = [Op::Prefix("p"), Op::Prefix("."), Op::Name("n"), Op::Name(""), Op::Absolute("z"), Op::Child("k"), Op::Child(""), Op::New];
    for a in rich {
        cx.case(|| format!("pairs of values, beginning with {a:?}"), |c| pool(c, &mut vec![], &mut vec![(apply(&BranchName::default(), a, 0), Model::new().apply(a))], &rich, tier.pick(4, 5)));
    }
    // deep nesting, periodic in every word of up to three operations
    let mut words: Vec<Vec<Op>> = vec![];
    for a in OPS {
        words.push(vec![a]);
        for b in OPS {
            words.push(vec![a, b]);
            if !tier.quick() {
                words.extend(OPS.iter().map(|x| vec![a, b, *x]));
            }
        }
    }
    for part in 0..16 {
        cx.case(|| format!("long periodic chains, part {part}"), |c| {
            for w in words.iter().skip(part).step_by(16) {
                let (mut b, mut m) = (BranchName::new(), Model::new());
                for k in 0..tier.pick(60, 200) {
                    let op = w[k % w.len()];
                    (b, m) = (apply(&b, op, k), m.apply(op));
                    c.steps(1);
                    if k < 20 || k % 7 == 0 {
                        differs(&b, &m, &|| format!("{} operations {w:?}", k + 1))?;
                    }
                }
                c.state(&m);
            }
            Ok(())
        });
    }
}
