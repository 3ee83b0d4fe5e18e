//! Handles: every one is different (H01), and they can be told apart (H02).
use crate::common::*;
use crate::eng::*;
use crate::ir::*;
use crate::models::*;
use crate::val::*;
use std::collections::BTreeMap;
use std::rc::Rc;

fn width(e: &Eng, t: Ty) -> u32 {
    match e.p.types.get(t as usize).map(|x| x.s.as_str()).unwrap_or("") {
        "u64" | "usize" | "i64" | "isize" => 64,
        "u128" | "i128" => 128,
        "u32" | "i32" => 32,
        "u16" | "i16" => 16,
        "u8" | "i8" => 8,
        _ => 0,
    }
}
/// Is the value derived from another one in a way that loses information?
pub fn lossy(v: V) -> Option<String> {
    let mut what = None;
    any_sub(v, &mut |x| {
        match &*g(x) {
            Val::App { op: Op::Call(n), .. } if ["trunc", "min", "max", "clamp", "wrapping_rem", "rem_euclid", "checked_rem", "isqrt", "count_ones"].iter().any(|k| n == k || n.ends_with(&format!("::{k}"))) => {
                what = Some(if n == "trunc" { "a narrowing conversion".into() } else { n.clone() })
            }
            Val::App { op: Op::Bin(n), .. } if ["Rem", "BitAnd", "BitOr", "Shr", "Shl", "Div", "Mul"].contains(&n.as_str()) => what = Some(n.clone()),
            _ => {}
        }
        what.is_some()
    });
    what
}
fn loc(e: &Eng, st: &State, r: V) -> String {
    let v = e.freeze(st, r);
    let mut name = String::new();
    any_sub(v, &mut |x| match &*g(x) {
        Val::Sym { class, idx: 0, .. } if nm_s(*class).starts_with("static:") => {
            name = nm_s(*class);
            true
        }
        _ => false,
    });
    if name.is_empty() {
        "no static".into()
    } else {
        name
    }
}
/// Atomic integers: what is read may be anything; what a read-modify-write returns is never returned again.
pub fn atomics(e: &mut Eng, st: &State, c: &Callee, a: &[V], dty: Ty, sp: u32) -> Option<Res> {
    let n = &c.name;
    if !(n.ty == "Atomic" || n.ty.starts_with("AtomicU") || n.ty.starts_with("AtomicI")) {
        return None;
    }
    let mut s = st.clone();
    let l = if a.is_empty() { String::new() } else { loc(e, st, a[0]) };
    let w = match width(e, dty) {
        0 => e.p.types.get(dty as usize).and_then(|t| t.args.first().copied()).map(|t| width(e, t)).unwrap_or(0),
        w => w,
    };
    let unit_of = |k: Option<i128>| -> String {
        match k {
            Some(0) => "read".into(),
            Some(_) if w > 0 && w < 64 => format!("narrow {w}"),
            Some(_) => "rmw".into(),
            None => "rmw?".into(),
        }
    };
    let sym = |e: &Eng, s: &mut State, k: &str| e.fresh(s, &format!("atomic {k} {l}"), dty);
    match n.m.as_str() {
        "new" | "from" => return Some(ret(s, call("atomic", vec![a[0]], dty))),
        "fetch_add" | "fetch_sub" => {
            let k = unit_of(is_int(e.deref(st, a[1])));
            let v = sym(e, &mut s, &k);
            return Some(ret(s, v));
        }
        "load" | "swap" | "fetch_or" | "fetch_and" | "fetch_xor" | "fetch_max" | "fetch_min" | "fetch_nand" => {
            if n.m != "load" {
                e.bump(&format!("overwritten {l}"));
            }
            let v = sym(e, &mut s, "read");
            return Some(ret(s, v));
        }
        "store" => {
            e.bump(&format!("overwritten {l}"));
            return Some(ret(s, unit()));
        }
        "compare_exchange" | "compare_exchange_weak" => {
            let old = e.deref(st, a[1]);
            let new = e.deref(st, a[2]);
            let d = lin_add(new, old, -1);
            let mut out = vec![];
            let mut s1 = s.clone();
            let k = unit_of(is_int(d).filter(|x| *x != 0));
            if is_int(d) == Some(0) || is_int(d).is_none() {
                e.bump(&format!("overwritten {l}"));
            }
            let it = e.p.types.get(dty as usize).and_then(|t| t.args.first().copied()).unwrap_or(NOTY);
            let v = e.fresh(&mut s1, &format!("atomic {k} {l}"), it);
            if matches!(&*g(old), Val::Sym { .. }) {
                e.subst(&mut s1, old, v);
            }
            out.push((s1, Out::Ret(ok(dty, v))));
            let v = e.fresh(&mut s, &format!("atomic read {l}"), it);
            out.push((s, Out::Ret(err(dty, v))));
            return Some(out);
        }
        "fetch_update" | "try_update" | "update" => {
            let total = n.m == "update";
            let it = if total { dty } else { e.p.types.get(dty as usize).and_then(|t| t.args.first().copied()).unwrap_or(NOTY) };
            let x = e.fresh(&mut s, &format!("atomic read {l}"), it);
            let f = *a.last()?;
            let mut out = vec![];
            for (s, o) in e.call_value(s, f, tup(vec![x]), NOTY, sp) {
                let Out::Ret(r) = o else {
                    out.push((s, o));
                    continue;
                };
                let alts: Vec<(State, Option<V>)> = if total {
                    vec![(s, Some(r))]
                } else {
                    e.variants(&s, r, NOTY).into_iter().map(|(s, i)| { let y = e.field(&s, r, 1, 0); (s, if i == 1 { Some(y) } else { None }) }).collect()
                };
                for (mut s, y) in alts {
                    match y {
                        Some(y) => {
                            let d = is_int(lin_add(y, x, -1)).filter(|x| *x != 0);
                            if d.is_none() {
                                e.bump(&format!("overwritten {l}"));
                            }
                            let k = if d.is_none() && (lossy(y).is_some() || is_int(y).is_some()) { "cut".into() } else { unit_of(d) };
                            let v = e.fresh(&mut s, &format!("atomic {k} {l}"), it);
                            out.push((s, Out::Ret(if total { v } else { ok(dty, v) })));
                        }
                        None => out.push((s, Out::Ret(err(dty, x)))),
                    }
                }
            }
            return Some(out);
        }
        _ => {}
    }
    None
}

fn is_gen(p: &Prog, t: Ty) -> bool {
    p.types.get(t as usize).map(|t| t.path.ends_with("::HandleGenerator")).unwrap_or(false)
}
/// The numbers a value consists of.
pub fn leaves(v: V, out: &mut Vec<V>) {
    match &*g(v) {
        Val::Adt(_, _, f) | Val::Tup(f) => f.iter().for_each(|x| leaves(*x, out)),
        _ => out.push(v),
    }
}
fn generators(p: &Prog, v: V, out: &mut Vec<V>) {
    any_sub(v, &mut |x| {
        if is_gen(p, vty(x)) {
            out.push(x);
        }
        false
    });
}
/// The fields of a generator, before: projections of the abstracted one; each with its type.
fn before(e: &Eng, t: Ty) -> Vec<(V, Ty)> {
    let n = arity(&e.p, t, 0).unwrap_or(0) as u32;
    let st = State::new(0);
    (0..n).map(|i| (e.field(&st, fixed("handles", t), 0, i), field_ty(&e.p, t, 0, i))).collect()
}
fn mark(e: &mut Eng, k: &str, v: &str) {
    e.notes.entry(k.into()).or_default().insert(v.into());
}

/// After construction: the generator has a number that no other one gets.
pub fn created(e: &mut Eng, s: &State, obj: V, who: &str) {
    let p = e.p.clone();
    let mut gs = vec![];
    generators(&p, obj, &mut gs);
    if gs.len() != 1 {
        mark(e, "floor", &format!("{who}: {} handle generators", gs.len()));
    }
    for gv in gs {
        let Val::Adt(t, _, f) = &*g(gv) else {
            e.undecided(s, "H01", format!("{who}: the handle generator is {}", show(&p, gv)));
            continue;
        };
        let mut ids = 0;
        let mut bad = None;
        for (i, x) in f.iter().enumerate() {
            let mut class = String::new();
            any_sub(*x, &mut |y| {
                if let Val::Sym { class: c, .. } = &*g(y) {
                    if nm_s(*c).starts_with("atomic ") {
                        class = nm_s(*c);
                        return true;
                    }
                }
                false
            });
            if class.is_empty() {
                continue;
            }
            let w = width(e, field_ty(&p, *t, 0, i as u32));
            if let Some(what) = lossy(*x) {
                bad = Some(format!("the number of a generator is cut by {what}, so that generators come to share numbers"));
                continue;
            }
            if w != 0 && w < 64 {
                bad = Some(format!("the number of a generator has only {w} bits"));
                continue;
            }
            let k = class.trim_start_matches("atomic ").to_string();
            if let Some(l) = k.strip_prefix("rmw ") {
                if l == "no static" {
                    bad = Some("the counter of generators is not shared by all of them: it is not in a static".into());
                } else if e.stats.contains_key(&format!("overwritten {l}")) {
                    bad = Some("the counter of generators is overwritten outside of the atomic step that reads it".into());
                } else if matches!(&*g(*x), Val::Sym { .. }) || matches!(&*g(*x), Val::Lin(t, _) if t.len() == 1 && t[0].1.abs() == 1) {
                    ids += 1;
                    mark(e, &format!("id {who}"), &i.to_string());
                } else {
                    e.undecided(s, "H01", format!("the number of a generator is {}", show(&p, *x)));
                    return;
                }
            } else if k.starts_with("read ") {
                bad = Some("the number of a generator is read from the counter without advancing the counter in the same atomic step".into());
            } else if k.starts_with("cut ") {
                bad = Some("the counter of generators is set back while it advances".into());
            } else if k.starts_with("narrow ") {
                bad = Some("the counter of generators is narrower than 64 bits".into());
            } else {
                e.undecided(s, "H01", format!("the counter of generators advances by an unknown amount: {k}"));
                return;
            }
        }
        e.bump("generators created");
        if ids > 0 {
            continue;
        }
        match bad {
            Some(b) => e.violation(s, "H01", format!("{who}: {b}")),
            None => {
                let consts = f.iter().all(|x| is_int(*x).is_some() || arity(&p, vty(*x), 0) == Some(0) || matches!(&*g(*x), Val::Adt(_, _, f) if f.is_empty()));
                let tl = f.iter().any(|x| any_sub(*x, &mut |y| matches!(&*g(y), Val::App { op: Op::Call(n), .. } if n.contains("LocalKey")) || matches!(&*g(y), Val::Sym { class, .. } if nm_s(*class) == "thread local")));
                if consts {
                    e.violation(s, "H01", format!("{who}: all generators have the same number"));
                } else if tl {
                    e.violation(s, "H01", format!("{who}: the number of a generator comes from a counter of the thread, so that generators of different threads share numbers"));
                } else {
                    e.undecided(s, "H01", format!("{who}: the number of a generator comes from {}", f.iter().map(|x| show(&p, *x)).collect::<Vec<_>>().join(", ")));
                }
            }
        }
    }
}
/// After an operation: the generator advanced (or is unchanged), and the handle it returned is the next one.
pub fn operated(e: &mut Eng, s: &State, obj: V, handle: Option<V>, who: &str, op: &str) {
    let p = e.p.clone();
    let mut gs = vec![];
    generators(&p, obj, &mut gs);
    gs.retain(|x| !matches!(&*g(*x), Val::App { .. }));
    let Some(gv) = gs.first().copied() else { return };
    let t = vty(gv);
    let bs = before(e, t);
    let after: Vec<V> = match &*g(gv) {
        Val::Adt(_, _, f) => f.to_vec(),
        _ => bs.iter().map(|x| x.0).collect(),
    };
    let mut counters: BTreeMap<usize, i128> = BTreeMap::new();
    let ids: Vec<usize> = e.notes.get(&format!("id {who}")).map(|x| x.iter().filter_map(|i| i.parse().ok()).collect()).unwrap_or_default();
    for (i, (b, ft)) in bs.iter().enumerate() {
        if after[i] == *b || arity(&p, *ft, 0) == Some(0) || matches!(&*g(after[i]), Val::Adt(_, _, f) if f.is_empty()) {
            continue;
        }
        if ids.contains(&i) {
            e.violation(s, "H01", format!("{op} changes the number of the generator"));
            return;
        }
        let w = width(e, *ft);
        if w != 0 && w < 64 {
            e.violation(s, "H01", format!("the number of the next handle has only {w} bits"));
            return;
        }
        let d = lin_add(after[i], *b, -1);
        let dk = e.known(s, d);
        match dk {
            Some(k) if k > 0 => {
                counters.insert(i, k);
            }
            Some(k) => {
                e.violation(s, "H01", if k == 0 { format!("{op} does not advance the number of the next handle") } else { format!("{op} sets the number of the next handle back") });
                return;
            }
            None => {
                if is_int(after[i]).is_some() {
                    e.violation(s, "H01", format!("{op} sets the number of the next handle to a constant"));
                } else if let Some(l) = lossy(after[i]) {
                    e.violation(s, "H01", format!("{op} cuts the number of the next handle by {l}"));
                } else {
                    e.undecided(s, "H01", format!("{op} sets the number of the next handle to {}", show(&p, after[i])));
                }
                return;
            }
        }
    }
    let Some(h) = handle else { return };
    e.bump("handles generated");
    let mut hl = vec![];
    leaves(h, &mut hl);
    if counters.is_empty() {
        e.violation(s, "H01", format!("{op} returns a handle without advancing the number of the next handle"));
        return;
    }
    let mut off = None;
    for x in &hl {
        for (i, k) in &counters {
            if let Some(c) = is_int(lin_add(*x, bs[*i].0, -1)) {
                off = Some((c, *k));
            }
        }
    }
    match off {
        None => {
            let l = hl.iter().find_map(|x| lossy(*x));
            let dep = |x: &V| counters.keys().any(|i| any_sub(*x, &mut |y| y == bs[*i].0));
            if let Some(l) = l {
                e.violation(s, "H01", format!("{op}: the number in the handle is cut by {l}"));
            } else if !hl.iter().any(dep) && hl.iter().all(|x| is_int(*x).is_some() || matches!(&*g(*x), Val::App { op: Op::Fld(..), .. })) {
                e.violation(s, "H01", format!("{op}: the handle does not contain the number that is advanced"));
            } else {
                e.undecided(s, "H01", format!("{op} returns the handle {}", show(&p, h)));
            }
            return;
        }
        Some((c, _)) => {
            mark(e, &format!("offset {who}"), &c.to_string());
            if e.notes[&format!("offset {who}")].len() > 1 {
                e.violation(s, "H01", format!("{op} numbers handles differently from other calls, so that numbers are used twice"));
            }
        }
    }
    for i in ids {
        if !hl.contains(&bs[i].0) {
            let dep = hl.iter().find(|x| any_sub(**x, &mut |y| y == bs[i].0));
            match dep {
                Some(x) if lossy(*x).is_some() => e.violation(s, "H01", format!("{op}: the number of the generator is cut by {} in the handle", lossy(*x).unwrap())),
                Some(x) if !matches!(&*g(*x), Val::Lin(..)) => e.undecided(s, "H01", format!("{op} returns the handle {}", show(&p, h))),
                Some(_) => {}
                None => e.violation(s, "H01", format!("{op}: the handle does not contain the number of its generator")),
            }
        }
    }
}

struct HEnv;
impl Env for HEnv {
    fn call(&self, e: &mut Eng, st: &State, c: &Callee, a: &[V], dty: Ty, _sp: u32) -> Option<Res> {
        // what is given to the formatting machinery
        let shown = |e: &Eng, s: &mut State, v: V| {
            let v = e.freeze(s, v);
            let mut l = vec![];
            leaves(v, &mut l);
            let mut o = match &*g(s.mon[0]) {
                Val::Tup(f) => f.to_vec(),
                _ => vec![],
            };
            o.extend(l);
            s.mon[0] = tup(o);
        };
        let m = c.name.m.as_str();
        let dbg = matches!(c.name.ty.as_str(), "DebugTuple" | "DebugStruct" | "DebugList" | "DebugSet" | "DebugInner" | "Formatter" | "Argument") || c.name.tr == "Hasher" ;
        if dbg {
            let mut s = st.clone();
            for x in a.iter().skip(if c.name.ty == "Argument" { 0 } else { 1 }) {
                shown(e, &mut s, *x);
            }
            let v = e.fresh(&mut s, "fmt", dty);
            return Some(ret(s, v));
        }
        if (c.name.tr == "Debug" || c.name.tr == "Display" || c.path.starts_with("std::fmt::Debug") || c.path.starts_with("std::fmt::Display")) && m == "fmt" && c.key.is_none() {
            let mut s = st.clone();
            shown(e, &mut s, a[0]);
            let v = e.fresh(&mut s, "fmt", dty);
            return Some(ret(s, v));
        }
        None
    }
}

/// Is one of the numbers bounded from one side at most, so that it can be another one?
fn one_sided(s: &State, a: V, b: V) -> bool {
    [a, b].iter().any(|x| {
        let (mut up, mut down) = (false, false);
        for (k, f) in &s.facts {
            if !any_sub(*k, &mut |z| z == *x) {
                continue;
            }
            let (Val::App { op: Op::LtZ, args, .. }, Fact::Eq(t)) = (&*g(*k), f) else { return false };
            let Some((c, _)) = lin_parts(args[0]) else { return false };
            let Some(n) = c.get(x) else { return false };
            if (*n > 0) == (*t == 1) {
                up = true
            } else {
                down = true
            }
        }
        !(up && down)
    })
}
/// H02: equality, accessors, copies and the debug representation of handles.
pub fn run(p: Rc<Prog>, cfg: &Cfg) -> Result<RunOut, String> {
    let mut e = Eng::new(p.clone(), Rc::new(HEnv));
    cfg.apply(&mut e);
    let mut floors = vec![];
    let raw = ty_by_path(&p, "handle::RawHandle").ok_or("no handle::RawHandle")?;
    let flds: Vec<(V, V, String)> = {
        let s = State::new(1);
        (0..arity(&p, raw, 0).unwrap_or(0) as u32)
            .map(|i| (e.field(&s, fixed("a", raw), 0, i), e.field(&s, fixed("b", raw), 0, i), p.types[raw as usize].variants[0].fields[i as usize].0.clone()))
            .collect()
    };
    if flds.len() < 2 {
        floors.push("a handle has fewer than two numbers".into());
    }
    let mut n = 0;
    for tn in ["handle::RawHandle", "client::CommandHandle", "server::ResponseHandle"] {
        let Some(t) = ty_by_path(&p, tn) else {
            floors.push(format!("no {tn}"));
            continue;
        };
        let short = tn.rsplit("::").next().unwrap();
        // the two handles
        let wrap = |x: V| -> V {
            if t == raw {
                x
            } else {
                mk(Val::Adt(t, 0, vec![x].into()))
            }
        };
        let (a, b) = (wrap(fixed("a", raw)), wrap(fixed("b", raw)));
        // --- equality
        for m in ["eq", "ne"] {
            let Some(f) = p.by_key.get(&format!("<{tn} as std::cmp::PartialEq>::{m}")).copied() else {
                if m == "eq" {
                    floors.push(format!("{tn} has no equality"));
                }
                continue;
            };
            n += 1;
            let mut s = State::new(1);
            let (x, y) = (s.push(a), s.push(b));
            let r = |i: u32| mk(Val::Ref(i, Box::new([])));
            for (s, o) in e.exec(s, f, vec![r(x), r(y)]) {
                let Out::Ret(v) = o else {
                    e.violation(&s, "H02", format!("comparing {short}s may panic"));
                    continue;
                };
                for (s, t) in e.branch(&s, v) {
                    let eq = t == (m == "eq");
                    e.bump("paths of comparisons");
                    let mut differ = false;
                    let mut open = vec![];
                    for (fa, fb, name) in &flds {
                        match e.known(&s, eq_int(*fa, *fb)) {
                            Some(0) => differ = true,
                            Some(_) => {}
                            None => open.push((fa, fb, name)),
                        }
                    }
                    if eq {
                        for (fa, fb, name) in &open {
                            let used = s.facts.keys().any(|k| any_sub(*k, &mut |z| z == **fa || z == **fb) || any_sub(*k, &mut |z| is_class(z, "a") || is_class(z, "b")) && matches!(&*g(*k), Val::App { op: Op::Eq, .. }));
                            let whole = s.facts.iter().any(|(k, f)| matches!(f, Fact::Eq(1)) && *k == mk_eq(fixed("a", raw), fixed("b", raw)));
                            if whole {
                                continue;
                            }
                            let cut = s.facts.keys().find(|k| any_sub(**k, &mut |z| z == **fa || z == **fb)).and_then(|k| lossy(*k));
                            // one comparison of words cannot tell apart what takes several words
                            let facts: Vec<V> = s.facts.iter().filter(|(k, f)| matches!(f, Fact::Eq(_)) && any_sub(**k, &mut |z| flds.iter().any(|x| z == x.0 || z == x.1))).map(|x| *x.0).collect();
                            let wide = facts.iter().any(|k| {
                                any_sub(*k, &mut |z| {
                                    let big = |x: V| is_int(x).map(|i| i >= 64).unwrap_or(false);
                                    width(&e, vty(z)) == 128 || matches!(&*g(z), Val::App { op: Op::Bin(o), args, .. } if (o == "Shl" || o == "Mul" || o == "ShlUnchecked") && args.iter().any(|x| big(*x)))
                                })
                            });
                            let words = !facts.is_empty() && facts.iter().all(|k| matches!(&*g(*k), Val::App { op: Op::EqZ, .. }));
                            if wide {
                                e.undecided(&s, "H02", format!("comparison of the {name}s of two {short}s"));
                            } else if words && facts.len() < flds.len() {
                                e.violation(&s, "H02", format!("two different {short}s are equal: {} comparison of words for {} numbers", facts.len(), flds.len()));
                            } else if used && one_sided(&s, **fa, **fb) {
                                e.violation(&s, "H02", format!("two different {short}s are equal: their {name}s are only compared by size"));
                            } else if !used {
                                e.violation(&s, "H02", format!("two {short}s are equal whatever their {name}s are"));
                            } else if let Some(c) = cut {
                                e.violation(&s, "H02", format!("two {short}s are equal although their {name}s are compared only after {c}"));
                            } else {
                                e.undecided(&s, "H02", format!("comparison of the {name}s of two {short}s"));
                            }
                        }
                        if differ {
                            e.violation(&s, "H02", format!("two different {short}s are equal"));
                        }
                    } else if !differ && open.is_empty() {
                        e.violation(&s, "H02", format!("two equal {short}s compare as different"));
                    }
                }
            }
        }
        // --- copies
        if let Some(f) = p.by_key.get(&format!("<{tn} as std::clone::Clone>::clone")).copied() {
            n += 1;
            let mut s = State::new(1);
            let x = s.push(a);
            for (s, o) in e.exec(s, f, vec![mk(Val::Ref(x, Box::new([])))]) {
                if let Out::Ret(v) = o {
                    if e.freeze(&s, v) != a {
                        let v = e.freeze(&s, v);
                        e.violation(&s, "H02", format!("a copy of a {short} is {}", show(&p, v)));
                    }
                }
            }
        }
        // --- debug representation
        if let Some(f) = p.by_key.get(&format!("<{tn} as std::fmt::Debug>::fmt")).copied() {
            n += 1;
            let mut s = State::new(1);
            let x = s.push(a);
            for (s, o) in e.exec(s, f, vec![mk(Val::Ref(x, Box::new([]))), fixed("fmt", NOTY)]) {
                if let Out::Ret(_) = o {
                    let out: Vec<V> = match &*g(s.mon[0]) {
                        Val::Tup(f) => f.to_vec(),
                        _ => vec![],
                    };
                    let whole = out.iter().any(|x| *x == a || *x == fixed("a", raw));
                    for (fa, _, name) in &flds {
                        if !whole && !out.iter().any(|x| any_sub(*x, &mut |z| z == *fa)) {
                            e.violation(&s, "H02", format!("the debug representation of a {short} lacks its {name}"));
                        }
                    }
                }
            }
        }
        // --- from_raw
        if let Some(f) = p.by_key.get(&format!("<{tn} as handle::Handle>::from_raw")).copied() {
            n += 1;
            for (s, o) in e.exec(State::new(1), f, vec![fixed("a", raw)]) {
                if let Out::Ret(v) = o {
                    let v = e.freeze(&s, v);
                    if v != a {
                        e.violation(&s, "H02", format!("a {short} made of a raw handle is {}", show(&p, v)));
                    }
                }
            }
        } else if t != raw {
            floors.push(format!("{tn} is not made of a raw handle"));
        }
    }
    // --- accessors
    for m in ["generator_id", "handle_id"] {
        let Some(f) = p.by_key.get(&format!("handle::RawHandle::{m}")).copied() else {
            floors.push(format!("no RawHandle::{m}"));
            continue;
        };
        n += 1;
        let mut s = State::new(1);
        // the raw handle as the generator makes it
        let Some(gf) = p.funcs.iter().position(|f| f.path == "handle::HandleGenerator::<H>::generate" && !f.generic) else {
            floors.push("no HandleGenerator::generate".into());
            break;
        };
        let gt = deref_ty(&p, p.funcs[gf].body.locals[1]);
        let gi = s.push(fixed("gen", gt));
        for (mut s, o) in e.exec(s, gf as u32, vec![mk(Val::Ref(gi, Box::new([])))]) {
            let Out::Ret(h) = o else { continue };
            let h = e.freeze(&s, h);
            let Val::Adt(_, _, hf) = &*g(h) else { continue };
            let x = s.push(hf[0]);
            let after = s.mem[gi as usize];
            for (s, o) in e.exec(s, f, vec![mk(Val::Ref(x, Box::new([])))]) {
                let Out::Ret(v) = o else { continue };
                let v = e.freeze(&s, v);
                e.bump("accessors");
                // which of the generator's fields does it depend on, and was that one advanced?
                let Val::Adt(_, _, af) = &*g(after) else { continue };
                let mut adv = None;
                for (i, y) in af.iter().enumerate() {
                    let b = e.field(&s, fixed("gen", gt), 0, i as u32);
                    if any_sub(v, &mut |z| z == b) {
                        adv = Some(*y != b);
                    }
                }
                match (m, adv) {
                    ("generator_id", Some(true)) => e.violation(&s, "H02", "the generator number of a handle is its own number"),
                    ("handle_id", Some(false)) => e.violation(&s, "H02", "the number of a handle is that of its generator"),
                    (_, None) => e.violation(&s, "H02", format!("{m} of a handle is {}", show(&p, v))),
                    _ => {
                        if let Some(l) = lossy(v) {
                            e.violation(&s, "H02", format!("{m} of a handle is cut by {l}"));
                        }
                    }
                }
            }
        }
    }
    if n < 10 {
        floors.push(format!("only {n} functions of handles analysed"));
    }
    let viol = e.viol.clone();
    Ok(RunOut { viol, states: 0, transitions: n, tainted: 0, eng: e, floors, samples: vec![] })
}
