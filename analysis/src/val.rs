//! Hash-consed abstract values.
use crate::ir::{Prog, Ty, NOTY};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub type V = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Proj {
    Field(u32),
    Down(u32),
    /// the byte at a symbolic position
    At(V),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    /// field i of variant v
    Fld(u32, u32),
    Disc,
    /// lin == 0
    EqZ,
    /// lin < 0
    LtZ,
    Not,
    And,
    Or,
    Eq,
    Bin(String),
    Call(String),
}

/// Item kinds of abstract lists.
pub const ONE: u8 = 0; // exactly one element
pub const RUN: u8 = 1; // one or more elements described by a summary
pub const LAZY: u8 = 2; // expanded by the harness on demand

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Val {
    Undef,
    Top,
    Int(i128),
    Bytes(Vec<u8>),
    Adt(Ty, u32, Box<[V]>),
    Tup(Box<[V]>),
    Clo(u32, Box<[V]>),
    Ref(u32, Box<[Proj]>),
    Fn(u32),
    Sym { class: u32, idx: u32, ty: Ty },
    App { op: Op, args: Box<[V]>, ty: Ty },
    Lin(Box<[(V, i128)]>, i128),
    List(Box<[(u8, V)]>),
    Ext(u32, Box<[V]>),
}

#[derive(Default)]
struct Arena {
    vals: Vec<Rc<Val>>,
    ix: HashMap<Rc<Val>, V>,
    names: Vec<String>,
    name_ix: HashMap<String, u32>,
}
thread_local! { static A: RefCell<Arena> = RefCell::new(Arena::default()); }

pub fn mk(v: Val) -> V {
    A.with(|a| {
        let mut a = a.borrow_mut();
        if let Some(i) = a.ix.get(&v) {
            return *i;
        }
        let r = Rc::new(v);
        let i = a.vals.len() as V;
        a.vals.push(r.clone());
        a.ix.insert(r, i);
        i
    })
}
pub fn g(v: V) -> Rc<Val> {
    A.with(|a| a.borrow().vals[v as usize].clone())
}
/// Interned names (symbol classes, Ext kinds).
pub fn nm(s: &str) -> u32 {
    A.with(|a| {
        let mut a = a.borrow_mut();
        if let Some(i) = a.name_ix.get(s) {
            return *i;
        }
        let i = a.names.len() as u32;
        a.names.push(s.to_string());
        a.name_ix.insert(s.to_string(), i);
        i
    })
}
pub fn nm_s(i: u32) -> String {
    A.with(|a| a.borrow().names[i as usize].clone())
}

pub fn undef() -> V {
    mk(Val::Undef)
}
pub fn top() -> V {
    mk(Val::Top)
}
pub fn int(i: i128) -> V {
    mk(Val::Int(i))
}
pub fn unit() -> V {
    mk(Val::Tup(Box::new([])))
}
pub fn tup(v: Vec<V>) -> V {
    mk(Val::Tup(v.into()))
}
pub fn list(v: Vec<(u8, V)>) -> V {
    mk(Val::List(v.into()))
}
pub fn ext(k: &str, v: Vec<V>) -> V {
    mk(Val::Ext(nm(k), v.into()))
}
pub fn app(op: Op, args: Vec<V>, ty: Ty) -> V {
    mk(Val::App { op, args: args.into(), ty })
}
pub fn call(n: &str, args: Vec<V>, ty: Ty) -> V {
    app(Op::Call(n.to_string()), args, ty)
}
/// A fixed symbol (never renamed).
pub fn fixed(class: &str, ty: Ty) -> V {
    mk(Val::Sym { class: nm(class), idx: 0, ty })
}
pub fn is_int(v: V) -> Option<i128> {
    match &*g(v) {
        Val::Int(i) => Some(*i),
        _ => None,
    }
}
pub fn is_sym(v: V, class: &str) -> bool {
    match &*g(v) {
        Val::Sym { class: c, .. } => *c == nm(class),
        _ => false,
    }
}
pub fn opaque(v: V) -> bool {
    matches!(&*g(v), Val::Sym { .. } | Val::App { .. })
}
pub fn vty(v: V) -> Ty {
    match &*g(v) {
        Val::Sym { ty, .. } | Val::App { ty, .. } | Val::Adt(ty, ..) => *ty,
        _ => NOTY,
    }
}

// ---------- linear expressions ----------
pub fn lin_parts(v: V) -> Option<(BTreeMap<V, i128>, i128)> {
    match &*g(v) {
        Val::Int(i) => Some((BTreeMap::new(), *i)),
        Val::Lin(t, c) => Some((t.iter().copied().collect(), *c)),
        Val::Sym { .. } | Val::App { .. } => Some((BTreeMap::from([(v, 1)]), 0)),
        _ => None,
    }
}
pub fn mk_lin(t: BTreeMap<V, i128>, c: i128) -> V {
    let t: Vec<(V, i128)> = t.into_iter().filter(|x| x.1 != 0).collect();
    if t.is_empty() {
        return int(c);
    }
    if t.len() == 1 && t[0].1 == 1 && c == 0 {
        return t[0].0;
    }
    mk(Val::Lin(t.into(), c))
}
pub fn lin_add(a: V, b: V, k: i128) -> V {
    match (lin_parts(a), lin_parts(b)) {
        (Some((mut x, c)), Some((y, d))) => {
            for (v, q) in y {
                *x.entry(v).or_insert(0) += k * q;
            }
            mk_lin(x, c + k * d)
        }
        _ => top(),
    }
}
pub fn lin_neg(a: V, extra: i128) -> V {
    match lin_parts(a) {
        Some((x, c)) => mk_lin(x.into_iter().map(|(v, q)| (v, -q)).collect(), -c + extra),
        None => top(),
    }
}
fn lead_neg(v: V) -> bool {
    match &*g(v) {
        Val::Lin(t, _) => t[0].1 < 0,
        _ => false,
    }
}
pub fn not(v: V) -> V {
    match &*g(v) {
        Val::Int(i) => int(if *i == 0 { 1 } else { 0 }),
        Val::App { op: Op::Not, args, .. } => args[0],
        Val::Top | Val::Undef => top(),
        _ => app(Op::Not, vec![v], NOTY),
    }
}
/// a < b over the integers
pub fn lt(a: V, b: V) -> V {
    let d = lin_add(a, b, -1);
    match &*g(d) {
        Val::Int(i) => int((*i < 0) as i128),
        Val::Top => top(),
        _ => {
            if lead_neg(d) {
                // -(d)-1 < 0 negated
                not(app(Op::LtZ, vec![lin_neg(d, -1)], NOTY))
            } else {
                app(Op::LtZ, vec![d], NOTY)
            }
        }
    }
}
pub fn eq_int(a: V, b: V) -> V {
    let d = lin_add(a, b, -1);
    match &*g(d) {
        Val::Int(i) => int((*i == 0) as i128),
        Val::Top => top(),
        _ => app(Op::EqZ, vec![if lead_neg(d) { lin_neg(d, 0) } else { d }], NOTY),
    }
}

// ---------- traversal ----------
pub fn children(v: V, f: &mut dyn FnMut(V)) {
    match &*g(v) {
        Val::Adt(_, _, a) | Val::Tup(a) | Val::Clo(_, a) | Val::Ext(_, a) => a.iter().for_each(|x| f(*x)),
        Val::App { args, .. } => args.iter().for_each(|x| f(*x)),
        Val::Lin(t, _) => t.iter().for_each(|x| f(x.0)),
        Val::List(t) => t.iter().for_each(|x| f(x.1)),
        _ => {}
    }
}
/// Rebuilds a value bottom-up; `leaf` may replace any (sub)value before descending.
pub fn map_val(v: V, memo: &mut HashMap<V, V>, leaf: &mut dyn FnMut(V) -> Option<V>) -> V {
    if let Some(r) = memo.get(&v) {
        return *r;
    }
    let r = if let Some(r) = leaf(v) {
        r
    } else {
        match &*g(v) {
            Val::Adt(t, x, a) => {
                let n: Vec<V> = a.iter().map(|y| map_val(*y, memo, leaf)).collect();
                mk(Val::Adt(*t, *x, n.into()))
            }
            Val::Tup(a) => tup(a.iter().map(|y| map_val(*y, memo, leaf)).collect()),
            Val::Clo(k, a) => {
                let n: Vec<V> = a.iter().map(|y| map_val(*y, memo, leaf)).collect();
                mk(Val::Clo(*k, n.into()))
            }
            Val::Ext(k, a) => {
                let n: Vec<V> = a.iter().map(|y| map_val(*y, memo, leaf)).collect();
                mk(Val::Ext(*k, n.into()))
            }
            Val::App { op, args, ty } => {
                let n: Vec<V> = args.iter().map(|y| map_val(*y, memo, leaf)).collect();
                mk_app(op.clone(), n, *ty)
            }
            Val::Lin(t, c) => {
                let mut acc = int(*c);
                for (x, q) in t.iter() {
                    let y = map_val(*x, memo, leaf);
                    acc = lin_add(acc, y, *q);
                }
                acc
            }
            Val::List(t) => list(t.iter().map(|(k, y)| (*k, map_val(*y, memo, leaf))).collect()),
            _ => v,
        }
    };
    memo.insert(v, r);
    r
}
/// Re-normalising application constructor.
pub fn mk_app(op: Op, a: Vec<V>, ty: Ty) -> V {
    match op {
        Op::Not => not(a[0]),
        Op::EqZ => eq_int(a[0], int(0)),
        Op::LtZ => lt(a[0], int(0)),
        Op::Eq => mk_eq(a[0], a[1]),
        Op::Fld(v, i) => match &*g(a[0]) {
            Val::Adt(_, w, f) if *w == v && (i as usize) < f.len() => f[i as usize],
            _ => app(Op::Fld(v, i), a, ty),
        },
        _ => app(op, a, ty),
    }
}
pub fn mk_eq(a: V, b: V) -> V {
    if a == b && !matches!(&*g(a), Val::Top | Val::Undef) {
        return int(1);
    }
    match (&*g(a), &*g(b)) {
        (Val::Int(x), Val::Int(y)) => return int((x == y) as i128),
        (Val::Bytes(x), Val::Bytes(y)) => return int((x == y) as i128),
        (Val::Adt(t, v, f), Val::Adt(u, w, h)) if t == u && (v != w || f.is_empty() && h.is_empty()) => return int((v == w) as i128),
        (Val::Top, _) | (_, Val::Top) | (Val::Undef, _) | (_, Val::Undef) => return top(),
        _ => {}
    }
    let hash = |v: V| matches!(&*g(v), Val::Sym { class, .. } if nm_s(*class).starts_with('#'));
    let num = |v: V| matches!(&*g(v), Val::Int(_) | Val::Lin(..)) || hash(v);
    if num(a) && num(b) && (hash(a) || hash(b) || matches!(&*g(a), Val::Lin(..)) || matches!(&*g(b), Val::Lin(..))) {
        return eq_int(a, b);
    }
    let (x, y) = if a <= b { (a, b) } else { (b, a) };
    app(Op::Eq, vec![x, y], NOTY)
}
pub fn syms(v: V, out: &mut std::collections::BTreeSet<V>, memo: &mut std::collections::HashSet<V>) {
    if !memo.insert(v) {
        return;
    }
    if let Val::Sym { .. } = &*g(v) {
        out.insert(v);
    }
    children(v, &mut |x| syms(x, out, memo));
}
/// Does `pred` hold for any sub-value?
pub fn any_sub(v: V, pred: &mut dyn FnMut(V) -> bool) -> bool {
    fn go(v: V, pred: &mut dyn FnMut(V) -> bool, memo: &mut std::collections::HashSet<V>) -> bool {
        if !memo.insert(v) {
            return false;
        }
        if pred(v) {
            return true;
        }
        let mut r = false;
        let mut ch = vec![];
        children(v, &mut |x| ch.push(x));
        for x in ch {
            r = r || go(x, pred, memo);
        }
        r
    }
    go(v, pred, &mut Default::default())
}

// ---------- typing ----------
pub fn field_ty(p: &Prog, t: Ty, var: u32, i: u32) -> Ty {
    let Some(ti) = p.types.get(t as usize) else { return NOTY };
    match ti.k.as_str() {
        "adt" => ti
            .variants
            .get(var as usize)
            .and_then(|v| v.fields.get(i as usize))
            .map(|x| x.1)
            .unwrap_or(NOTY),
        "tuple" | "closure" | "coroutine" => ti.args.get(i as usize).copied().unwrap_or(NOTY),
        _ => NOTY,
    }
}
pub fn deref_ty(p: &Prog, t: Ty) -> Ty {
    let Some(ti) = p.types.get(t as usize) else { return NOTY };
    if ti.k == "ref" || ti.k == "ptr" || (ti.k == "adt" && ti.path.ends_with("boxed::Box")) {
        ti.args.first().copied().unwrap_or(NOTY)
    } else {
        NOTY
    }
}
pub fn is_box(p: &Prog, t: Ty) -> bool {
    p.types.get(t as usize).map(|x| x.k == "adt" && x.path.ends_with("boxed::Box")).unwrap_or(false)
}
pub fn peel(p: &Prog, mut t: Ty) -> Ty {
    loop {
        let d = deref_ty(p, t);
        if d == NOTY {
            return t;
        }
        t = d;
    }
}
/// Number of fields of a variant, if known.
pub fn arity(p: &Prog, t: Ty, var: u32) -> Option<usize> {
    let ti = p.types.get(t as usize)?;
    match ti.k.as_str() {
        "adt" => ti.variants.get(var as usize).map(|v| v.fields.len()).filter(|n| *n > 0 || ti.is_enum),
        "tuple" | "closure" | "coroutine" => Some(ti.args.len()),
        _ => None,
    }
}

pub fn show(p: &Prog, v: V) -> String {
    fn tn(p: &Prog, t: Ty) -> String {
        p.types
            .get(t as usize)
            .map(|x| if x.path.is_empty() { x.s.clone() } else { x.path.rsplit("::").next().unwrap().to_string() })
            .unwrap_or("_".into())
    }
    let a = |x: &[V]| x.iter().map(|y| show(p, *y)).collect::<Vec<_>>().join(", ");
    match &*g(v) {
        Val::Undef => "∅".into(),
        Val::Top => "⊤".into(),
        Val::Int(i) => i.to_string(),
        Val::Bytes(b) => format!("{:?}", String::from_utf8_lossy(b)),
        Val::Adt(t, x, f) => {
            let vn = p
                .types
                .get(*t as usize)
                .filter(|i| i.is_enum)
                .and_then(|i| i.variants.get(*x as usize))
                .map(|v| format!("::{}", v.name))
                .unwrap_or_default();
            format!("{}{}({})", tn(p, *t), vn, a(f))
        }
        Val::Tup(f) => format!("({})", a(f)),
        Val::Clo(k, f) => format!("closure#{}({})", p.funcs.get(*k as usize).map(|f| f.path.clone()).unwrap_or_default(), a(f)),
        Val::Ref(l, pr) => format!("&m{}{:?}", l, pr.iter().map(|x| match x { Proj::Field(i) => format!(".{i}"), Proj::At(_) => "[..]".to_string(), Proj::Down(i) => format!("@{i}") }).collect::<String>()),
        Val::Fn(c) => format!("fn {}", p.callees[*c as usize].path),
        Val::Sym { class, idx, .. } => format!("{}#{}", nm_s(*class), idx),
        Val::App { op, args, .. } => match op {
            Op::Fld(v, i) => format!("{}@{}.{}", show(p, args[0]), v, i),
            Op::Call(n) => format!("{}({})", n, a(args)),
            o => format!("{:?}({})", o, a(args)),
        },
        Val::Lin(t, c) => {
            let mut s = t.iter().map(|(x, q)| if *q == 1 { show(p, *x) } else { format!("{}*{}", q, show(p, *x)) }).collect::<Vec<_>>().join("+");
            if *c != 0 {
                s += &format!("{:+}", c);
            }
            format!("({s})")
        }
        Val::List(t) => format!(
            "[{}]",
            t.iter().map(|(k, x)| format!("{}{}", show(p, *x), ["", "+", "~"][*k as usize])).collect::<Vec<_>>().join(", ")
        ),
        Val::Ext(k, f) => format!("<{} {}>", nm_s(*k), a(f)),
    }
}
