//! Models of library functions.
use crate::common::{call_parts, join_chunk};
use crate::eng::*;
use crate::ir::*;
use crate::val::*;
use std::collections::{HashMap, HashSet};

/// Equality as derived for data types.
fn deep_eq(e: &mut Eng, st: &State, x: V, y: V, depth: usize) -> V {
    let (x, y) = (e.deref(st, x), e.deref(st, y));
    if x == y && !matches!(&*g(x), Val::Top | Val::Undef) {
        return int(1);
    }
    if depth < 6 {
        match (&*g(x), &*g(y)) {
            (Val::Adt(t, v, f), Val::Adt(u, w, h)) if t == u && f.len() == h.len() => {
                if v != w {
                    return int(0);
                }
                let mut r = int(1);
                for (a, b) in f.iter().zip(h.iter()) {
                    let q = deep_eq(e, st, *a, *b, depth + 1);
                    r = e.and(r, q);
                }
                return r;
            }
            (Val::Adt(t, v, f), _) | (_, Val::Adt(t, v, f)) => {
                let o = if matches!(&*g(x), Val::Adt(..)) { y } else { x };
                let ti = e.p.types.get(*t as usize).filter(|t| t.is_enum).and_then(|t| t.variants.get(*v as usize).cloned());
                if let (true, Some(vv)) = (opaque(o), ti) {
                    let mut r = eq_int(e.disc_of(o, *t), int(vv.disc));
                    for (i, a) in f.iter().enumerate() {
                        let b = e.field(st, o, *v, i as u32);
                        let q = deep_eq(e, st, *a, b, depth + 1);
                        r = e.and(r, q);
                    }
                    return r;
                }
            }
            _ => {}
        }
    }
    let (x, y) = (e.freeze(st, x), e.freeze(st, y));
    mk_eq(x, y)
}

pub fn ret(st: State, v: V) -> Res {
    vec![(st, Out::Ret(v))]
}
pub fn none(dty: Ty) -> V {
    mk(Val::Adt(dty, 0, Box::new([])))
}
pub fn some(dty: Ty, v: V) -> V {
    mk(Val::Adt(dty, 1, vec![v].into()))
}
pub fn ok(dty: Ty, v: V) -> V {
    mk(Val::Adt(dty, 0, vec![v].into()))
}
pub fn err(dty: Ty, v: V) -> V {
    mk(Val::Adt(dty, 1, vec![v].into()))
}
pub fn inner_ty(e: &Eng, t: Ty) -> Ty {
    e.p.types.get(t as usize).and_then(|x| x.args.first().copied()).unwrap_or(NOTY)
}

/// An instance of the objects described by a summary.
pub fn materialise(st: &mut State, v: V) -> V {
    let mut ren: HashMap<V, V> = HashMap::new();
    let mut memo = HashMap::new();
    let mut fresh = st.fresh;
    let mut leaf = |x: V| match &*g(x) {
        Val::Sym { class, ty, .. } => {
            let n = nm_s(*class);
            if let Some(n) = n.strip_prefix('Σ') {
                Some(*ren.entry(x).or_insert_with(|| {
                    fresh += 1;
                    mk(Val::Sym { class: nm(n), idx: fresh, ty: *ty })
                }))
            } else {
                None
            }
        }
        _ => None,
    };
    let r = map_val(v, &mut memo, &mut leaf);
    st.fresh = fresh;
    r
}

pub fn items(v: V) -> Option<Vec<(u8, V)>> {
    match &*g(v) {
        Val::List(l) => Some(l.to_vec()),
        Val::Ext(k, a) if nm_s(*k) == "Bytes" => Some(vec![(ONE, a[0])]),
        _ => None,
    }
}
pub fn push_item(e: &Eng, l: &mut Vec<(u8, V)>, it: (u8, V)) {
    let it = if it.0 == ONE && is_summary(it.1) { (RUN, it.1) } else { it };
    if it.0 != LAZY {
        if let Some(last) = l.last_mut() {
            if let Some(x) = join_chunk(last.1, it.1) {
                *last = (ONE, x);
                return;
            }
            if last.0 != LAZY {
                if let Some(m) = e.env.clone().merge(last.1, it.1) {
                    *last = (RUN, m);
                    return;
                }
            }
        }
    }
    l.push(it);
}
/// Removes the first element.
pub fn front(e: &mut Eng, st: State, l: Vec<(u8, V)>, ety: Ty) -> Vec<(State, Option<(V, Vec<(u8, V)>)>)> {
    let Some((k, v)) = l.first().copied() else { return vec![(st, None)] };
    let rest = l[1..].to_vec();
    match k {
        ONE => vec![(st, Some((v, rest)))],
        RUN => {
            let mut st = st;
            let m = materialise(&mut st, v);
            vec![(st.clone(), Some((m, l))), (st, Some((m, rest)))]
        }
        _ => {
            let env = e.env.clone();
            let mut out = vec![];
            for (s, mut alt) in env.lazy(e, &st, v, ety) {
                let first_lazy = alt.first().map(|x| x.0 == LAZY).unwrap_or(false);
                alt.extend(rest.iter().copied());
                if first_lazy {
                    e.incomplete.get_or_insert("lazy list does not expand".into());
                    continue;
                }
                out.extend(front(e, s, alt, ety));
            }
            out
        }
    }
}
pub fn back(e: &mut Eng, st: State, l: Vec<(u8, V)>, ety: Ty) -> Option<Vec<(State, Option<(V, Vec<(u8, V)>)>)>> {
    back_n(e, st, l, ety, 4)
}
fn back_n(e: &mut Eng, st: State, l: Vec<(u8, V)>, ety: Ty, n: u32) -> Option<Vec<(State, Option<(V, Vec<(u8, V)>)>)>> {
    let Some((k, v)) = l.last().copied() else { return Some(vec![(st, None)]) };
    let rest = l[..l.len() - 1].to_vec();
    match k {
        ONE => Some(vec![(st, Some((v, rest)))]),
        RUN => {
            let mut st = st;
            let m = materialise(&mut st, v);
            Some(vec![(st.clone(), Some((m, l))), (st, Some((m, rest)))])
        }
        _ => {
            // Only some of the lists: those that are complete after a few steps.
            let env = e.env.clone();
            let mut out = vec![];
            for (s, alt) in env.lazy(e, &st, v, ety) {
                if alt.last().map(|x| x.0 == LAZY).unwrap_or(false) && n == 0 {
                    e.incomplete.get_or_insert("the end of a lazy list is too far".into());
                    continue;
                }
                let mut l = rest.clone();
                l.extend(alt);
                out.extend(back_n(e, s, l, ety, n.saturating_sub(1))?);
            }
            Some(out)
        }
    }
}

/// The ways to divide a list of unknown length after `k` elements (as many as possible, if the list is shorter).
/// `None` if `k` is not known well enough.
pub fn cuts(e: &mut Eng, st: &State, l: &[(u8, V)], k: V) -> Option<Vec<(State, Vec<(u8, V)>, Vec<(u8, V)>)>> {
    if let Some(a) = call_parts(k, "qlen") {
        return (a[1] == list(l.to_vec())).then(|| vec![(st.clone(), l.to_vec(), vec![])]);
    }
    let k = is_int(k)?.max(0) as usize;
    let mut out = vec![];
    let mut n = 0;
    let mut any = false;
    for (i, (m, v)) in l.iter().enumerate() {
        if n == k || any && n < k {
            out.push((st.clone(), l[..i].to_vec(), l[i..].to_vec()));
        }
        if n >= k {
            return Some(out);
        }
        match *m {
            ONE => {}
            RUN => {
                any = true;
                out.push((st.clone(), l[..=i].to_vec(), l[i..].to_vec()));
            }
            _ => {
                if i + 1 < l.len() {
                    return None;
                }
                // what is left of a list that is produced on demand cannot be told from what it was
                let env = e.env.clone();
                for (s, alt) in env.lazy(e, st, *v, NOTY) {
                    let mut pre = l[..i].to_vec();
                    let (mut a, lz): (Vec<_>, Vec<_>) = alt.into_iter().partition(|x| x.0 != LAZY);
                    if !lz.is_empty() && n + a.len() <= k {
                        pre.append(&mut a);
                        out.push((s, pre, vec![(RUN, top())]));
                    }
                }
                out.push((st.clone(), l.to_vec(), vec![]));
                return Some(out);
            }
        }
        n += 1;
    }
    out.push((st.clone(), l.to_vec(), vec![]));
    Some(out)
}

/// Makes sure that the list behind a reference is an explicit one.
fn open(e: &mut Eng, st: &State, r: V) -> Option<Vec<State>> {
    let v = e.deref(st, r);
    if items(v).is_some() {
        return Some(vec![st.clone()]);
    }
    if !opaque(v) {
        return None;
    }
    let env = e.env.clone();
    let alts = env.open_list(e, st, v)?;
    let mut out = vec![];
    for (mut s, l) in alts {
        if !e.store_ref(&mut s, r, l) {
            return None;
        }
        out.push(s);
    }
    Some(out)
}

/// One step of an iterator stored behind the reference `r`.
pub fn iter_next(e: &mut Eng, st: State, r: V, ety: Ty, sp: u32) -> Option<Vec<(State, Option<V>)>> {
    let v = e.deref(&st, r);
    if let Some(l) = items(v) {
        let mut out = vec![];
        for (mut s, x) in front(e, st, l, ety) {
            match x {
                None => out.push((s, None)),
                Some((x, rest)) => {
                    e.store_ref(&mut s, r, list(rest));
                    out.push((s, Some(x)));
                }
            }
        }
        return Some(out);
    }
    let sub = |e: &Eng, st: &State, i: u32| -> Option<V> {
        let mut l = e.ref_loc(st, r)?;
        l.path.push(Proj::Field(i));
        Some(mk(Val::Ref(l.alloc, l.path.into())))
    };
    let Val::Ext(k, a) = &*g(v) else {
        if opaque(v) {
            let env = e.env.clone();
            if let Some(alts) = env.open_list(e, &st, v) {
                let mut out = vec![];
                for (mut s, l) in alts {
                    if !e.store_ref(&mut s, r, l) {
                        return None;
                    }
                    out.extend(iter_next(e, s, r, ety, sp)?);
                }
                return Some(out);
            }
        }
        return None;
    };
    match nm_s(*k).as_str() {
        "map" | "filter" | "filter_map" | "inspect" | "take_while" => {
            let kind = nm_s(*k);
            let fref = sub(e, &st, 1)?;
            let inner = sub(e, &st, 0)?;
            let _ = a;
            let mut out = vec![];
            let mut work = vec![st];
            let mut seen = HashSet::new();
            while let Some(s) = work.pop() {
                if !seen.insert(s.fp()) {
                    continue;
                }
                for (mut s, x) in iter_next(e, s, inner, NOTY, sp)? {
                    let Some(x) = x else {
                        out.push((s, None));
                        continue;
                    };
                    let tmp = s.push(x);
                    let arg = if kind == "map" || kind == "filter_map" {
                        x
                    } else {
                        mk(Val::Ref(tmp, Box::new([])))
                    };
                    for (mut s, o) in e.call_value(s, fref, tup(vec![arg]), NOTY, sp) {
                        let Out::Ret(b) = o else { continue };
                        let x = s.mem[tmp as usize];
                        s.mem.truncate(tmp as usize);
                        match kind.as_str() {
                            "map" => out.push((s, Some(b))),
                            "inspect" => out.push((s, Some(x))),
                            "filter" | "take_while" => {
                                let b = e.deref(&s, b);
                                for (s, t) in e.branch(&s, b) {
                                    if t {
                                        out.push((s, Some(x)));
                                    } else if kind == "filter" {
                                        work.push(s);
                                    } else {
                                        out.push((s, None));
                                    }
                                }
                            }
                            _ => {
                                for (s, vx) in e.variants(&s, b, NOTY) {
                                    if vx == 1 {
                                        let y = e.field(&s, b, 1, 0);
                                        out.push((s, Some(y)));
                                    } else {
                                        work.push(s);
                                    }
                                }
                            }
                        }
                    }
                }
            }
            Some(out)
        }
        "chain" => {
            let (x, y) = (sub(e, &st, 0)?, sub(e, &st, 1)?);
            let mut out = vec![];
            for (s, v) in iter_next(e, st, x, ety, sp)? {
                match v {
                    Some(v) => out.push((s, Some(v))),
                    None => out.extend(iter_next(e, s, y, ety, sp)?),
                }
            }
            Some(out)
        }
        "enumerate" => {
            let x = sub(e, &st, 0)?;
            let mut out = vec![];
            for (mut s, v) in iter_next(e, st, x, NOTY, sp)? {
                let i = e.fresh(&mut s, "ix", NOTY);
                out.push((s, v.map(|v| tup(vec![i, v]))));
            }
            Some(out)
        }
        _ => None,
    }
}

/// Runs an iterator to its end: `step` folds the items into the accumulator.
pub fn drain(
    e: &mut Eng,
    mut st: State,
    it: V,
    init: V,
    ety: Ty,
    sp: u32,
    step: &mut dyn FnMut(&mut Eng, State, u32, V) -> Vec<(State, bool)>,
) -> Option<Vec<(State, V)>> {
    let ia = st.push(it);
    let acc = st.push(init);
    let r = mk(Val::Ref(ia, Box::new([])));
    let mut out = vec![];
    let mut work = vec![st];
    let mut seen = HashSet::new();
    while let Some(mut s) = work.pop() {
        e.steps += 1;
        if e.steps > e.max_steps {
            e.incomplete.get_or_insert("step budget exhausted".into());
            return None;
        }
        e.canon(&mut s);
        if !seen.insert(s.fp()) {
            continue;
        }
        for (mut s, x) in iter_next(e, s, r, ety, sp)? {
            match x {
                None => {
                    let v = s.mem[acc as usize];
                    s.mem.truncate(ia as usize);
                    out.push((s, v));
                }
                Some(x) => {
                    for (mut s, stop) in step(e, s, acc, x) {
                        if stop {
                            let v = s.mem[acc as usize];
                            s.mem.truncate(ia as usize);
                            out.push((s, v));
                        } else {
                            work.push(s);
                        }
                    }
                }
            }
        }
    }
    Some(out)
}

/// Items appended by extending a collection with `src`.
fn chunk(e: &Eng, st: &State, src: V, bytes: bool) -> Option<Vec<(u8, V)>> {
    let v = e.deref(st, src);
    match &*g(v) {
        Val::List(l) => Some(l.to_vec()),
        Val::Bytes(b) if b.is_empty() => Some(vec![]),
        Val::Bytes(_) => Some(vec![(ONE, v)]),
        Val::Sym { .. } | Val::App { .. } if bytes => Some(vec![(ONE, v)]),
        Val::Ext(k, a) if nm_s(*k) == "Bytes" => Some(vec![(ONE, a[0])]),
        _ => {
            if std::env::var("DBG").is_ok() { println!("chunk? {} {bytes}", show(&e.p, v)); }
            None
        }
    }
}

const IDENT: &[&str] = &[
    "clone", "to_static", "into_static", "to_owned", "into_owned", "as_ref", "as_mut", "borrow", "borrow_mut", "deref", "deref_mut",
    "as_slice", "as_mut_slice", "as_str", "into_boxed_slice", "to_vec", "into_vec", "into_future", "by_ref", "cloned", "copied",
    "into_iter", "iter", "iter_mut", "into_inner", "must_use", "black_box", "make_contiguous", "as_bytes", "into_bytes", "peekable",
    "fuse", "as_deref", "freeze",
];
const LISTS: &[&str] = &["Vec", "VecDeque", "slice", "LinkedList", "Vec1", "NonEmptyVec"];

pub fn int_ty(e: &Eng, t: Ty) -> bool {
    e.p.types.get(t as usize).map(|t| matches!(t.s.as_str(), "u8" | "u16" | "u32" | "u64" | "u128" | "usize" | "i8" | "i16" | "i32" | "i64" | "i128" | "isize")).unwrap_or(false)
}
pub fn is_panic(c: &Callee) -> bool {
    c.rpath.starts_with("core::panicking::")
        || c.rpath.starts_with("std::rt::begin_panic")
        || c.rpath.starts_with("std::rt::panic")
        || c.rpath.ends_with("::unwrap_failed")
        || c.rpath.ends_with("::expect_failed")
        || c.rpath.contains("::panicking::")
}

pub fn model(e: &mut Eng, st: &State, c: &Callee, a: &[V], atys: &[Ty], dty: Ty, sp: u32) -> Option<Res> {
    let n = &c.name;
    let m = n.m.as_str();
    let t = n.ty.as_str();
    let std = matches!(c.rpath.as_str(), p if p.starts_with("std::") || p.starts_with("core::") || p.starts_with("alloc::") || p.starts_with('<'));
    if is_panic(c) {
        let span = e.p.spans[sp as usize].clone();
        let mut s = st.clone();
        s.note(format!("panic at {span}"));
        return Some(vec![(s, Out::Panic(format!("{} at {}", m, span)))]);
    }
    if c.rpath.starts_with("tracing::") {
        if m == "__enabled" {
            return Some(ret(st.clone(), int(0)));
        }
        return Some(ret(st.clone(), unit()));
    }
    let st0 = st;
    let mut st = st.clone();
    match (t, m) {
        ("mem", "replace") => {
            let old = e.deref(&st, a[0]);
            let mut s = st;
            if !e.store_ref(&mut s, a[0], a[1]) {
                return None;
            }
            return Some(ret(s, old));
        }
        ("mem", "swap") => {
            let (x, y) = (e.deref(&st, a[0]), e.deref(&st, a[1]));
            let mut s = st;
            if e.store_ref(&mut s, a[0], y) && e.store_ref(&mut s, a[1], x) {
                return Some(ret(s, unit()));
            }
            return None;
        }
        ("mem", "take") => {
            let old = e.deref(&st, a[0]);
            let mut s = st;
            let tn = e.p.types.get(dty as usize).map(|t| (t.k.clone(), t.path.clone(), t.s.clone())).unwrap_or_default();
            let d = if tn.1.ends_with("Vec") || tn.1.ends_with("VecDeque") || tn.1.ends_with("String") || tn.1.ends_with("BytesMut") {
                list(vec![])
            } else if tn.1.ends_with("option::Option") || tn.1.ends_with("::Option") {
                none(dty)
            } else if tn.2 == "bool" || tn.0 == "prim" {
                int(0)
            } else {
                call("default", vec![], dty)
            };
            if !e.store_ref(&mut s, a[0], d) {
                return None;
            }
            return Some(ret(s, old));
        }
        ("mem", "drop" | "forget") => return Some(ret(st, unit())),
        ("ManuallyDrop" | "Box" | "Arc" | "Rc" | "Pin" | "Cow", "new" | "new_unchecked" | "pin" | "get_mut" | "as_mut" | "get_unchecked_mut" | "into_pin" | "from") if a.len() == 1 => {
            return Some(ret(st, a[0]));
        }
        ("future", "get_context") | ("", "get_context") => return Some(ret(st, a[0])),
        ("intrinsics", "discriminant_value") => {
            let v = e.deref(&st, a[0]);
            let d = e.disc_of(v, NOTY);
            return Some(ret(st, d));
        }
        ("intrinsics", "unlikely" | "likely") => return Some(ret(st, a[0])),
        ("mem", "discriminant") => {
            let v = e.deref(&st, a[0]);
            let d = e.disc_of(v, NOTY);
            return Some(ret(st, d));
        }
        ("num", "saturating_sub") | ("", "saturating_sub") => {
            let d = lin_add(a[0], a[1], -1);
            let neg = lt(d, int(0));
            return Some(
                e.branch(&st, neg).into_iter().map(|(s, b)| (s, Out::Ret(if b { int(0) } else { d }))).collect(),
            );
        }
        ("intrinsics", "integer_min" | "integer_max") | ("cmp", "min" | "max") if int_ty(e, dty) => {
            let (x, y) = (e.deref(&st, a[0]), e.deref(&st, a[1]));
            let less = lt(x, y);
            let min = m.ends_with("min");
            return Some(e.branch(&st, less).into_iter().map(|(s, b)| (s, Out::Ret(if b == min { x } else { y }))).collect());
        }
        ("num", "checked_add" | "checked_sub") if int_ty(e, inner_ty(e, dty)) => {
            let d = lin_add(e.deref(&st, a[0]), e.deref(&st, a[1]), if m == "checked_add" { 1 } else { -1 });
            // a sum of 64 bits does not overflow in practice; narrower ones may
            let wide = ["u64", "usize", "i64", "isize", "u128", "i128"].contains(&e.p.types[inner_ty(e, dty) as usize].s.as_str());
            if m == "checked_sub" {
                let neg = lt(d, int(0));
                return Some(e.branch(&st, neg).into_iter().map(|(s, b)| (s, Out::Ret(if b { none(dty) } else { some(dty, d) }))).collect());
            }
            let mut out = vec![(st.clone(), Out::Ret(some(dty, d)))];
            if !wide {
                out.push((st, Out::Ret(none(dty))));
            }
            return Some(out);
        }
        ("num", "wrapping_add" | "saturating_add") => {
            let v = lin_add(a[0], a[1], 1);
            return Some(ret(st, v));
        }
        ("num", "wrapping_sub") => {
            let v = lin_add(a[0], a[1], -1);
            return Some(ret(st, v));
        }
        _ => {}
    }
    if n.tr == "Clone" && m == "clone" || c.shim.as_deref() == Some("clone") {
        let v = e.deref(&st, a[0]);
        return Some(ret(st, v));
    }
    if (n.tr == "PartialEq" || c.path.starts_with("std::cmp::PartialEq")) && (m == "eq" || m == "ne") && a.len() == 2 {
        let x = e.deref(&st, a[0]);
        let y = e.deref(&st, a[1]);
        let x = unit_variant(e, &st, x);
        let y = unit_variant(e, &st, y);
        if x == y && !matches!(&*g(x), Val::Top | Val::Undef) {
            return Some(ret(st, int((m == "eq") as i128)));
        }
        let plain = |v: V| opaque(v) || matches!(&*g(v), Val::Int(_) | Val::Bytes(_) | Val::Lin(..));
        if let (Val::List(f), Val::List(h)) = (&*g(x), &*g(y)) {
            if f.iter().chain(h.iter()).all(|v| v.0 == ONE) {
                let mut r = int((f.len() == h.len()) as i128);
                if f.len() == h.len() {
                    for (v, w) in f.iter().zip(h.iter()) {
                        let q = deep_eq(e, &st, v.1, w.1, 0);
                        r = e.and(r, q);
                    }
                }
                return Some(ret(st, if m == "eq" { r } else { not(r) }));
            }
        }
        // an opaque value against a variant without fields
        for (p, q) in [(x, y), (y, x)] {
            if let Val::Adt(t, v, f) = &*g(q) {
                if f.is_empty() && opaque(p) {
                    if let Some(vv) = e.p.types.get(*t as usize).filter(|t| t.is_enum).and_then(|t| t.variants.get(*v as usize)) {
                        let r = eq_int(e.disc_of(p, *t), int(vv.disc));
                        return Some(ret(st, if m == "eq" { r } else { not(r) }));
                    }
                }
            }
        }
        if let (Val::Tup(f), Val::Tup(h)) = (&*g(x), &*g(y)) {
            if f.len() == h.len() && f.iter().chain(h.iter()).all(|v| plain(e.deref(&st, *v))) {
                let mut r = int(1);
                for (v, w) in f.iter().zip(h.iter()) {
                    let (v, w) = (e.deref(&st, *v), e.deref(&st, *w));
                    let num = |v: V| matches!(&*g(v), Val::Int(_) | Val::Lin(..)) || int_ty(e, vty(v));
                    let x = if num(v) || num(w) { eq_int(v, w) } else { mk_eq(v, w) };
                    r = e.and(r, x);
                }
                return Some(ret(st, if m == "eq" { r } else { not(r) }));
            }
        }
        if plain(x) && plain(y) {
            let num = |v: V| matches!(&*g(v), Val::Int(_) | Val::Lin(..)) || int_ty(e, vty(v));
            let r = if num(x) || num(y) { eq_int(x, y) } else { mk_eq(x, y) };
            return Some(ret(st, if m == "eq" { r } else { not(r) }));
        }
        if c.key.is_none() {
            let (x, y) = (e.freeze(&st, x), e.freeze(&st, y));
            let r = mk_eq(x, y);
            return Some(ret(st, if m == "eq" { r } else { not(r) }));
        }
        return None;
    }
    if (n.tr == "Ord" && m == "cmp" || n.tr == "PartialOrd" && m == "partial_cmp") && a.len() == 2 {
        let (x, y) = (e.deref(&st, a[0]), e.deref(&st, a[1]));
        if [x, y].iter().all(|v| matches!(&*g(*v), Val::Int(_) | Val::Lin(..)) || int_ty(e, vty(*v))) {
            let ot = if m == "cmp" { dty } else { inner_ty(e, dty) };
            let mut out = vec![];
            for (s, b) in e.branch(&st, lt(x, y)) {
                if b {
                    out.push((s, 0));
                } else {
                    out.extend(e.branch(&s, eq_int(x, y)).into_iter().map(|(s, b)| (s, if b { 1 } else { 2 })));
                }
            }
            return Some(
                out.into_iter()
                    .map(|(s, i)| {
                        let o = mk(Val::Adt(ot, i, Box::new([])));
                        (s, Out::Ret(if m == "cmp" { o } else { some(dty, o) }))
                    })
                    .collect(),
            );
        }
    }
    // text as it is
    if m == "to_string" && a.len() == 1 && c.key.is_none() {
        let t = peel(&e.p, atys.first().copied().unwrap_or(NOTY));
        if e.p.types.get(t as usize).is_some_and(|t| t.s == "str" || t.path.ends_with("string::String") || t.s == "alloc::string::String") {
            let v = e.deref(&st, a[0]);
            if opaque(v) || matches!(&*g(v), Val::Bytes(_)) {
                return Some(ret(st, v));
            }
        }
    }
    // is a number in a range?
    if m == "contains" && a.len() == 2 && int_ty(e, peel(&e.p, atys.get(1).copied().unwrap_or(NOTY))) {
        let r = e.deref(&st, a[0]);
        let x = e.deref(&st, a[1]);
        if let Val::Adt(t, _, f) = &*g(r) {
            let p = e.p.types.get(*t as usize).map(|t| t.path.clone()).unwrap_or_default();
            let p = p.rsplit("::").next().unwrap_or("");
            let unsigned = e.p.types[peel(&e.p, atys[1]) as usize].s.starts_with('u');
            let ge = |a: V| if unsigned && is_int(e.deref(&st, a)) == Some(0) { int(1) } else { not(lt(x, e.deref(&st, a))) };
            let below = |a: V| lt(x, e.deref(&st, a));
            let le = |a: V| not(lt(e.deref(&st, a), x));
            let conds = match (p, f.len()) {
                ("Range", 2) => vec![ge(f[0]), below(f[1])],
                ("RangeInclusive", 3) if is_int(f[2]) == Some(0) => vec![ge(f[0]), le(f[1])],
                ("RangeFrom", 1) => vec![ge(f[0])],
                ("RangeTo", 1) => vec![below(f[0])],
                ("RangeToInclusive", 1) => vec![le(f[0])],
                _ => return None,
            };
            let mut out = vec![];
            let mut yes = vec![st];
            for c in conds {
                let mut n = vec![];
                for s in yes {
                    for (s, b) in e.branch(&s, c) {
                        if b {
                            n.push(s);
                        } else {
                            out.push((s, Out::Ret(int(0))));
                        }
                    }
                }
                yes = n;
            }
            out.extend(yes.into_iter().map(|s| (s, Out::Ret(int(1)))));
            return Some(out);
        }
    }
    // identity-like conversions
    if c.key.is_none() && a.len() == 1 && IDENT.contains(&m) && (std || c.krate != e.p.krate) {
        let by_ref = matches!(m, "as_ref" | "as_mut" | "borrow" | "borrow_mut" | "deref" | "deref_mut" | "by_ref" | "as_slice" | "as_mut_slice" | "as_str" | "as_bytes" | "iter_mut" | "into_inner" | "into_future" | "must_use" | "as_deref");
        if by_ref {
            return Some(ret(st, a[0]));
        }
        if m == "into_iter" || m == "iter" {
            let v = e.deref(&st, a[0]);
            // a mutable reference is iterated in place
            return Some(ret(st, v));
        }
        let v = e.deref(&st, a[0]);
        return Some(ret(st, v));
    }
    if (n.tr == "TryInto" && m == "try_into" || n.tr == "TryFrom" && m == "try_from") && c.key.is_none() && a.len() == 1 {
        let ti = e.p.types.get(dty as usize)?;
        let (ot, et) = (*ti.args.first()?, *ti.args.get(1)?);
        let v = e.deref(&st, a[0]);
        let inf = e.p.types.get(et as usize).map(|t| t.path.ends_with("Infallible") || t.s == "!").unwrap_or(false);
        let pt = |t: Ty| e.p.types.get(peel(&e.p, t) as usize).map(|t| t.path.clone()).unwrap_or_default();
        let same = !pt(ot).is_empty() && pt(ot) == pt(vty(v));
        if (inf || same) && !matches!(&*g(v), Val::Top | Val::Undef | Val::Int(_) | Val::Lin(..)) {
            return Some(ret(st, mk(Val::Adt(dty, 0, vec![v].into()))));
        }
    }
    if matches!(m, "into_static" | "to_static") && a.len() == 1 {
        let v = e.deref(&st, a[0]);
        return Some(ret(st, v));
    }
    if m == "default" && a.is_empty() && c.key.is_none() {
        let ti = e.p.types.get(dty as usize);
        let path = ti.map(|t| t.path.clone()).unwrap_or_default();
        if path.ends_with("Vec") || path.ends_with("VecDeque") || path.ends_with("String") || path.ends_with("BytesMut") {
            return Some(ret(st, list(vec![])));
        }
        if ti.map(|t| t.k == "prim").unwrap_or(false) {
            return Some(ret(st, int(0)));
        }
        if ti.map(|t| t.s == "()").unwrap_or(false) {
            return Some(ret(st, unit()));
        }
        return Some(ret(st, call("default", vec![], dty)));
    }
    let _ = st0;
    let _ = atys;

    // Bytes of which some are left out, or that are in another order, are other bytes.
    if !e.numeric && std && c.key.is_none() && !a.is_empty() {
        let opaque = |v: V| matches!(&*g(v), Val::App { .. } | Val::Sym { .. });
        let of_bytes = |t: Ty| e.p.types.get(t as usize).map(|t| t.s.contains("u8>") || t.s.contains("u8,")).unwrap_or(false);
        if (t == "Iterator" || n.tr == "Iterator") && matches!(m, "take" | "skip" | "step_by" | "filter" | "take_while" | "skip_while" | "rev" | "filter_map") && of_bytes(dty) {
            let v = e.deref(&st, a[0]);
            // two parts may be put together again
            let both = matches!(m, "take" | "skip" | "take_while" | "skip_while") && {
                let has = |k: &[&str]| e.p.callees.iter().any(|c| (c.name.ty == "Iterator" || c.name.tr == "Iterator") && k.contains(&c.name.m.as_str()));
                has(&["take", "take_while"]) && has(&["skip", "skip_while"])
            };
            if opaque(v) && !both {
                return Some(ret(st, call(&c.rpath, vec![v], dty)));
            }
        }
        if matches!(m, "retain" | "dedup" | "dedup_by" | "dedup_by_key" | "reverse" | "sort" | "sort_unstable" | "fill" | "make_ascii_lowercase" | "make_ascii_uppercase") {
            let v = e.deref(&st, a[0]);
            let t = peel(&e.p, atys.first().copied().unwrap_or(NOTY));
            let by = e.p.types.get(t as usize).map(|t| t.s.contains("u8>") || t.s == "[u8]").unwrap_or(false);
            if opaque(v) && by {
                let mut s = st;
                let w = call(&c.rpath, vec![v], NOTY);
                if !e.store_ref(&mut s, a[0], w) {
                    return None;
                }
                return Some(ret(s, unit()));
            }
        }
    }

    // ----- lists -----
    let listy = LISTS.contains(&t) || (t == "BytesMut" || t == "String");
    let bytes = {
        let mut et = c.args.first().copied().unwrap_or(NOTY);
        if let Some(ti) = e.p.types.get(et as usize) {
            if ti.k == "adt" && (ti.path.ends_with("::Vec") || ti.path.ends_with("::VecDeque")) {
                et = ti.args.first().copied().unwrap_or(NOTY);
            }
        }
        t == "BytesMut" || t == "String" || e.p.types.get(et as usize).map(|x| x.s == "u8" || x.s == "&u8").unwrap_or(false)
    };
    if listy {
        match m {
            "new" | "with_capacity" => return Some(ret(st, list(vec![]))),
            "reserve" | "shrink_to_fit" | "reserve_exact" | "capacity" => {
                let mut s = st;
                let v = if m == "capacity" { e.fresh(&mut s, "cap", dty) } else { unit() };
                return Some(ret(s, v));
            }
            "push" | "push_back" | "push_front" | "push_str" | "extend" | "extend_from_slice" | "put_slice" | "append" | "insert" => {
                let mut out = vec![];
                for mut s in open(e, &st, a[0])? {
                    let mut l = items(e.deref(&s, a[0]))?;
                    match m {
                        "push" | "push_back" => push_item(e, &mut l, (ONE, a[1])),
                        "push_front" => l.insert(0, (ONE, a[1])),
                        "insert" if is_int(a[1]) == Some(0) => l.insert(0, (ONE, a[2])),
                        "insert" if bytes => return None,
                        "insert" => {
                            for (mut s, mut p, q) in cuts(e, &s, &l, a[1])? {
                                let full = q.is_empty();
                                p.push((ONE, a[2]));
                                p.extend(q);
                                let run = l.iter().any(|x| x.0 != ONE);
                                if full && !run && is_int(a[1]).is_some_and(|k| k as usize > l.len()) {
                                    out.push((s, Out::Panic(format!("insertion behind the end at {}", e.p.spans[sp as usize]))));
                                } else if e.store_ref(&mut s, a[0], list(p)) {
                                    out.push((s, Out::Ret(unit())));
                                } else {
                                    return None;
                                }
                            }
                            continue;
                        }
                        _ => {
                            let src = if m == "append" || m != "append" { a[1] } else { a[1] };
                            let add = chunk(e, &s, src, bytes)?;
                            for it in add {
                                push_item(e, &mut l, it);
                            }
                            if m == "append" {
                                e.store_ref(&mut s, a[1], list(vec![]));
                            }
                        }
                    }
                    if l.len() > e.max_list {
                        e.incomplete.get_or_insert(format!("list grows without bound at {}", e.p.spans[sp as usize]));
                        s.taint = true;
                        let v = e.fresh(&mut s, "biglist", NOTY);
                        e.store_ref(&mut s, a[0], v);
                    } else if !e.store_ref(&mut s, a[0], list(l)) {
                        return None;
                    }
                    out.push((s, Out::Ret(unit())));
                }
                return Some(out);
            }
            "sort" | "sort_unstable" | "dedup" | "reverse" if a.len() == 1 => {
                let mut out = vec![];
                for mut s in open(e, &st, a[0])? {
                    let l = items(e.deref(&s, a[0]))?;
                    if l.iter().any(|x| x.0 != ONE) {
                        return None;
                    }
                    let mut l: Vec<V> = l.into_iter().map(|x| x.1).collect();
                    let mut ls = vec![];
                    match m {
                        "reverse" => {
                            l.reverse();
                            ls.push(l);
                        }
                        _ if l.len() < 2 => ls.push(l),
                        _ if l.iter().all(|x| matches!(&*g(*x), Val::Adt(_, _, f) if f.is_empty())) => {
                            if m == "dedup" {
                                l.dedup();
                            } else {
                                l.sort_by_key(|x| match &*g(*x) {
                                    Val::Adt(_, v, _) => *v,
                                    _ => 0,
                                });
                            }
                            ls.push(l);
                        }
                        _ if l.len() > 3 => return None,
                        // values that can only be compared at run time: any result
                        "dedup" => {
                            for bits in 0..1u32 << (l.len() - 1) {
                                ls.push(l.iter().enumerate().filter(|(i, _)| *i == 0 || bits >> (i - 1) & 1 == 0).map(|(_, x)| *x).collect());
                            }
                        }
                        _ => {
                            ls.push(vec![]);
                            for x in l {
                                ls = ls
                                    .into_iter()
                                    .flat_map(|p: Vec<V>| {
                                        (0..=p.len()).map(move |i| {
                                            let mut q = p.clone();
                                            q.insert(i, x);
                                            q
                                        })
                                    })
                                    .collect();
                            }
                        }
                    }
                    for l in ls {
                        let mut s = s.clone();
                        if !e.store_ref(&mut s, a[0], list(l.into_iter().map(|x| (ONE, x)).collect())) {
                            return None;
                        }
                        out.push((s, Out::Ret(unit())));
                    }
                }
                return Some(out);
            }
            "clear" => {
                let mut s = st;
                if !e.store_ref(&mut s, a[0], list(vec![])) {
                    return None;
                }
                return Some(ret(s, unit()));
            }
            "truncate" if is_int(a[1]) == Some(0) => {
                let mut s = st;
                e.store_ref(&mut s, a[0], list(vec![]));
                return Some(ret(s, unit()));
            }
            "truncate" | "split_off" | "rotate_left" | "rotate_right" if !bytes => {
                let mut out = vec![];
                for s in open(e, &st, a[0])? {
                    let l = items(e.deref(&s, a[0]))?;
                    if m == "rotate_right" && (is_int(a[1]) != Some(1) || l.last().map(|x| x.0) != Some(ONE)) {
                        return None;
                    }
                    if m == "rotate_right" {
                        let mut l = l;
                        let x = l.pop()?;
                        l.insert(0, x);
                        let mut s = s;
                        e.store_ref(&mut s, a[0], list(l));
                        out.push((s, Out::Ret(unit())));
                        continue;
                    }
                    for (mut s, mut p, q) in cuts(e, &s, &l, a[1])? {
                        if q.iter().any(|x| x.1 == top()) && m != "truncate" {
                            return None;
                        }
                        let r = match m {
                            "truncate" => unit(),
                            "split_off" => list(q),
                            _ => {
                                let mut q = q;
                                q.append(&mut p);
                                p = q;
                                unit()
                            }
                        };
                        if !e.store_ref(&mut s, a[0], list(p)) {
                            return None;
                        }
                        out.push((s, Out::Ret(r)));
                    }
                }
                return Some(out);
            }
            "truncate" | "split_off" if is_int(a[1]).is_some() => {
                let mut out = vec![];
                let zero = is_int(a[1]) == Some(0);
                let v = e.deref(&st, a[0]);
                let ss = if matches!(&*g(v), Val::App { .. }) { vec![st] } else { open(e, &st, a[0])? };
                for s in ss {
                    let v = e.deref(&s, a[0]);
                    let l = items(v).unwrap_or_else(|| vec![(ONE, v)]);
                    let env = e.env.clone();
                    // dividing behind the end would panic, so the code has to make sure that it is not
                    let mut alts = if m == "truncate" { vec![(s.clone(), l.clone(), vec![])] } else { vec![] };
                    if zero {
                        alts = vec![(s.clone(), vec![], l.clone())];
                    }
                    for i in (0..l.len()).filter(|_| !zero) {
                        let (x, y) = env.cut(e, l[i].1)?;
                        let mut p = l[..i].to_vec();
                        p.push((ONE, x));
                        let mut q = vec![(ONE, y)];
                        q.extend(l[i + 1..].iter().copied());
                        alts.push((s.clone(), p, q));
                    }
                    for (mut s, p, q) in alts {
                        if let (Some(x), Some(y)) = (p.last(), q.first()) {
                            // divided within this chunk
                            for x in [x.1, y.1] {
                                e.assume_eq(&mut s, call("isempty", vec![x], NOTY), 0);
                            }
                        }
                        if !e.store_ref(&mut s, a[0], list(p)) {
                            return None;
                        }
                        out.push((s, Out::Ret(if m == "truncate" { unit() } else { list(q) })));
                    }
                }
                return Some(out);
            }
            "drain" => {
                // only a complete drain is understood
                let full = match &*g(e.deref(&st, a[1])) {
                    Val::Adt(t, _, f) => {
                        let p = e.p.types.get(*t as usize).map(|t| t.path.clone()).unwrap_or_default();
                        p.ends_with("RangeFull") || (p.ends_with("RangeFrom") && f.first().and_then(|x| is_int(*x)) == Some(0))
                    }
                    Val::App { op: Op::Call(n), .. } => n.contains("RangeFull"),
                    _ => false,
                };
                if !full {
                    return None;
                }
                let mut out = vec![];
                for mut s in open(e, &st, a[0])? {
                    let v = e.deref(&s, a[0]);
                    e.store_ref(&mut s, a[0], list(vec![]));
                    out.push((s, Out::Ret(v)));
                }
                return Some(out);
            }
            "pop_front" | "pop_back" | "pop" | "remove" | "swap_remove" => {
                let mut out = vec![];
                for s in open(e, &st, a[0])? {
                    let l = items(e.deref(&s, a[0]))?;
                    let ety = if m.starts_with("pop") { inner_ty(e, dty) } else { dty };
                    let alts = if m == "pop_front" || ((m == "remove" || m == "swap_remove") && is_int(a[1]) == Some(0)) {
                        if m == "swap_remove" && l.len() > 1 {
                            return None;
                        }
                        front(e, s, l, ety)
                    } else if m == "pop" || m == "pop_back" {
                        back(e, s, l, ety)?
                    } else if let (true, Some(k), true) = (m == "remove", is_int(a[1]), l.iter().all(|x| x.0 == ONE)) {
                        let k = k as usize;
                        if k < l.len() {
                            let mut l = l;
                            let x = l.remove(k);
                            vec![(s, Some((x.1, l)))]
                        } else {
                            vec![(s, None)]
                        }
                    } else {
                        return None;
                    };
                    for (mut s, x) in alts {
                        match x {
                            Some((x, rest)) => {
                                if !e.store_ref(&mut s, a[0], list(rest)) {
                                    return None;
                                }
                                let v = if m == "remove" && t != "VecDeque" || m == "swap_remove" { x } else { some(dty, x) };
                                out.push((s, Out::Ret(v)));
                            }
                            None => {
                                if (m == "remove" && t != "VecDeque") || m == "swap_remove" {
                                    out.push((s, Out::Panic(format!("index out of bounds at {}", e.p.spans[sp as usize]))));
                                } else {
                                    out.push((s, Out::Ret(none(dty))));
                                }
                            }
                        }
                    }
                }
                return Some(out);
            }
            "front" | "first" | "front_mut" | "first_mut" | "back" | "last" | "back_mut" | "last_mut" => {
                let mut out = vec![];
                let fr = m.starts_with('f');
                for s in open(e, &st, a[0])? {
                    let l = items(e.deref(&s, a[0]))?;
                    let ety = peel(&e.p, inner_ty(e, dty));
                    let alts = if fr { front(e, s, l, ety) } else { back(e, s, l, ety)? };
                    for (mut s, x) in alts {
                        match x {
                            None => out.push((s, Out::Ret(none(dty)))),
                            Some((x, mut rest)) => {
                                let ix = if fr {
                                    rest.insert(0, (ONE, x));
                                    0
                                } else {
                                    rest.push((ONE, x));
                                    rest.len() - 1
                                };
                                if let Some(mut lo) = e.ref_loc(&s, a[0]) {
                                    e.store_ref(&mut s, a[0], list(rest));
                                    lo.path.push(Proj::Field(ix as u32));
                                    let r = mk(Val::Ref(lo.alloc, lo.path.into()));
                                    out.push((s, Out::Ret(some(dty, r))));
                                } else {
                                    out.push((s, Out::Ret(some(dty, x))));
                                }
                            }
                        }
                    }
                }
                return Some(out);
            }
            "is_empty" | "len" => {
                let v0 = e.deref(&st, a[0]);
                if let Val::Bytes(b) = &*g(v0) {
                    return Some(ret(st, int(if m == "len" { b.len() as i128 } else { b.is_empty() as i128 })));
                }
                let opened = open(e, &st, a[0]);
                let Some(opened) = opened else {
                    let v = e.freeze(&st, v0);
                    if matches!(&*g(v), Val::Top | Val::Undef) {
                        return None;
                    }
                    if let Some((empty, marked)) = e.env.clone().piece(v) {
                        let mut ways = vec![];
                        if !empty {
                            ways.push((st, false));
                        } else if marked {
                            for (s, t) in e.branch(&st, call("isempty", vec![v], NOTY)) {
                                ways.push((s, t));
                            }
                        } else {
                            // one of many
                            ways.push((st.clone(), true));
                            ways.push((st, false));
                        }
                        let mut out = vec![];
                        for (mut s, t) in ways {
                            let r = if m == "is_empty" {
                                int(t as i128)
                            } else if t {
                                int(0)
                            } else {
                                let l = e.fresh(&mut s, "len", NOTY);
                                e.assume_ne(&mut s, l, 0);
                                e.assume_eq(&mut s, lt(int(0), l), 1);
                                e.assume_eq(&mut s, lt(l, int(1)), 0);
                                l
                            };
                            out.push((s, Out::Ret(r)));
                        }
                        return Some(out);
                    }
                    let l = call("len", vec![v], NOTY);
                    return Some(ret(st, if m == "len" { l } else { eq_int(l, int(0)) }));
                };
                let mut out = vec![];
                for s in opened {
                    let l = items(e.deref(&s, a[0]))?;
                    if bytes {
                        let env = e.env.clone();
                        if l.is_empty() {
                            out.push((s, Out::Ret(int(if m == "len" { 0 } else { 1 }))));
                        } else if m == "is_empty" {
                            if l.iter().all(|x| env.maybe_empty(x.1) && e.known(&s, call("isempty", vec![x.1], NOTY)) != Some(0)) {
                                let b = call("isempty", l.iter().map(|x| x.1).collect(), NOTY);
                                for (s, t) in e.branch(&s, b) {
                                    out.push((s, Out::Ret(int(t as i128))));
                                }
                            } else {
                                out.push((s, Out::Ret(int(0))));
                            }
                        } else {
                            let mut s = s;
                            let v = e.fresh(&mut s, "len", NOTY);
                            if !l.iter().all(|x| env.maybe_empty(x.1)) {
                                e.assume_ne(&mut s, v, 0);
                            }
                            out.push((s, Out::Ret(v)));
                        }
                        continue;
                    }
                    // expand a lazy head
                    let alts = if l.first().map(|x| x.0 == LAZY).unwrap_or(false) {
                        let mut o = vec![];
                        for (mut s, x) in front(e, s, l, NOTY) {
                            let nl = match x {
                                None => vec![],
                                Some((x, mut r)) => {
                                    r.insert(0, (ONE, x));
                                    r
                                }
                            };
                            e.store_ref(&mut s, a[0], list(nl.clone()));
                            o.push((s, nl));
                        }
                        o
                    } else {
                        vec![(s, l)]
                    };
                    for (mut s, l) in alts {
                        let v = if m == "is_empty" {
                            int(l.is_empty() as i128)
                        } else if l.iter().all(|x| x.0 == ONE) {
                            int(l.len() as i128)
                        } else {
                            let v = e.fresh(&mut s, "len", NOTY);
                            let v = call("qlen", vec![v, list(l.clone())], NOTY);
                            for k in 0..l.iter().filter(|x| x.0 != LAZY).count() {
                                e.assume_ne(&mut s, v, k as i128);
                            }
                            v
                        };
                        out.push((s, Out::Ret(v)));
                    }
                }
                return Some(out);
            }
            "retain" | "retain_mut" => {
                let mut out = vec![];
                for s in open(e, &st, a[0])? {
                    let l = e.deref(&s, a[0]);
                    let it = ext("filter", vec![l, a[1]]);
                    let rs = drain(e, s, it, list(vec![]), NOTY, sp, &mut |e, mut s, acc, x| {
                        let mut l = items(s.mem[acc as usize]).unwrap();
                        push_item(e, &mut l, (ONE, x));
                        s.mem[acc as usize] = list(l);
                        vec![(s, false)]
                    })?;
                    for (mut s, v) in rs {
                        e.store_ref(&mut s, a[0], v);
                        out.push((s, Out::Ret(unit())));
                    }
                }
                return Some(out);
            }
            "contains" => {
                let y = e.deref(&st, a[1]);
                let mut out = vec![];
                for s in open(e, &st, a[0])? {
                    let l = items(e.deref(&s, a[0]))?;
                    // existential: split per element
                    let mut work = vec![(s, 0usize)];
                    while let Some((s, i)) = work.pop() {
                        if i == l.len() {
                            out.push((s, Out::Ret(int(0))));
                            continue;
                        }
                        let x = unit_variant(e, &s, l[i].1);
                        let y = unit_variant(e, &s, y);
                        // one side is a variant without fields: the question is the discriminant
                        let (x, y) = if opaque(y) && !opaque(x) { (y, x) } else { (x, y) };
                        let b = match &*g(y) {
                            Val::Adt(t, v, f) if f.is_empty() && opaque(x) => match e.p.types.get(*t as usize).and_then(|t| t.variants.get(*v as usize)) {
                                Some(vv) => eq_int(e.disc_of(x, *t), int(vv.disc)),
                                None => mk_eq(x, y),
                            },
                            _ => mk_eq(x, y),
                        };
                        for (s, t) in e.branch(&s, b) {
                            if t {
                                out.push((s, Out::Ret(int(1))));
                            } else {
                                work.push((s, i + 1));
                            }
                        }
                    }
                }
                return Some(out);
            }
            _ => {}
        }
    }
    if c.rpath.ends_with("boxed::Box::<T>::new_uninit") {
        let i = st.push(undef());
        return Some(ret(st, mk(Val::Ref(i, Box::new([])))));
    }
    // `new_uninit` + `box_assume_init_into_vec_unsafe` is what `vec![..]` expands to
    if m == "box_assume_init_into_vec_unsafe" || (t == "slice" && m == "into_vec") {
        let v = e.deref(&st, a[0]);
        return Some(ret(st, v));
    }
    if m == "from" && a.len() == 1 && c.key.is_none() && (n.tr == "From" || n.tr == "Into") && items(e.deref(&st, a[0])).is_some() && LISTS.contains(&t) {
        let v = e.deref(&st, a[0]);
        return Some(ret(st, v));
    }

    // ----- iterators -----
    if t == "Iterator" || n.tr == "Iterator" || n.tr == "DoubleEndedIterator" {
        match m {
            "next" => {
                let r = iter_next(e, st, a[0], inner_ty(e, dty), sp)?;
                return Some(
                    r.into_iter()
                        .map(|(s, x)| {
                            let v = match x {
                                Some(x) => some(dty, x),
                                None => none(dty),
                            };
                            (s, Out::Ret(v))
                        })
                        .collect(),
                );
            }
            "map" | "filter" | "filter_map" | "inspect" | "chain" | "take_while" => {
                if items(a[0]).is_some() || matches!(&*g(a[0]), Val::Ext(..)) || opaque(a[0]) {
                    let mut f = a[1];
                    if m == "chain" {
                        f = e.deref(&st, f);
                    }
                    return Some(ret(st, ext(m, vec![a[0], f])));
                }
                return None;
            }
            "enumerate" => return Some(ret(st, ext("enumerate", vec![a[0]]))),
            "rev" | "take" | "skip" => {
                let k = a.get(1).and_then(|k| is_int(*k));
                if m != "rev" && k.is_none() {
                    return None;
                }
                if let (true, Some(l)) = (m == "take", items(e.deref(&st, a[0]))) {
                    if l.iter().any(|x| x.0 != ONE) {
                        let cs = cuts(e, &st, &l, a[1])?;
                        return Some(cs.into_iter().map(|(s, p, _)| (s, Out::Ret(list(p)))).collect());
                    }
                }
                let k = k.unwrap_or(0).max(0) as usize;
                if let Some(v) = part(e, &st, e.deref(&st, a[0]), m, k) {
                    return Some(ret(st, v));
                }
                let mm = m.to_string();
                let rs = drain(e, st, a[0], list(vec![]), NOTY, sp, &mut |e, mut s, acc, x| {
                    let mut l = items(s.mem[acc as usize]).unwrap();
                    push_item(e, &mut l, (ONE, x));
                    let stop = mm == "take" && l.len() >= k;
                    s.mem[acc as usize] = list(l);
                    vec![(s, stop)]
                })?;
                let mut out = vec![];
                for (s, v) in rs {
                    let v = part(e, &s, v, m, k)?;
                    out.push((s, Out::Ret(v)));
                }
                return Some(out);
            }
            "fold" | "count" | "last" => {
                let it = e.deref(&st, a[0]);
                let mut st = st;
                let fr = st.push(*a.get(2).unwrap_or(&unit()));
                let init = match m {
                    "fold" => a[1],
                    "count" => int(0),
                    _ => none(dty),
                };
                let mm = m.to_string();
                let rs = drain(e, st, it, init, NOTY, sp, &mut |e, mut s, acc, x| match mm.as_str() {
                    "count" => {
                        let n = s.mem[acc as usize];
                        s.mem[acc as usize] = lin_add(n, int(1), 1);
                        vec![(s, false)]
                    }
                    "last" => {
                        s.mem[acc as usize] = some(dty, x);
                        vec![(s, false)]
                    }
                    _ => {
                        let cur = s.mem[acc as usize];
                        let mut out = vec![];
                        for (mut s, o) in e.call_value(s, mk(Val::Ref(fr, Box::new([]))), tup(vec![cur, x]), NOTY, sp) {
                            if let Out::Ret(v) = o {
                                s.mem[acc as usize] = v;
                                out.push((s, false));
                            }
                        }
                        out
                    }
                })?;
                return Some(
                    rs.into_iter()
                        .map(|(mut s, v)| {
                            s.mem.truncate(fr as usize);
                            (s, Out::Ret(v))
                        })
                        .collect(),
                );
            }
            "collect" | "from_iter" => {
                let dt = e.p.types.get(dty as usize).map(|t| t.path.clone()).unwrap_or_default();
                if dt.ends_with("result::Result") || dt.ends_with("option::Option") {
                    let lt = e.p.types.get(inner_ty(e, dty) as usize).map(|t| t.path.clone()).unwrap_or_default();
                    if !(lt.ends_with("Vec") || lt.ends_with("VecDeque")) {
                        return None;
                    }
                    // the first failure ends it
                    let (good, bad) = if dt.ends_with("Result") { (0, 1) } else { (1, 0) };
                    let first = mk(Val::Adt(dty, good, vec![list(vec![])].into()));
                    let rs = drain(e, st, a[0], first, NOTY, sp, &mut |e, s, acc, x| {
                        let mut out = vec![];
                        let x = e.deref(&s, x);
                        for (mut s, v) in e.variants(&s, x, NOTY) {
                            if v == good {
                                let cur = s.mem[acc as usize];
                                let mut l = items(e.field(&s, cur, good, 0)).unwrap_or_default();
                                let y = e.field(&s, x, v, 0);
                                push_item(e, &mut l, (ONE, y));
                                s.mem[acc as usize] = mk(Val::Adt(dty, good, vec![list(l)].into()));
                            } else if bad == 1 {
                                let y = e.field(&s, x, v, 0);
                                s.mem[acc as usize] = mk(Val::Adt(dty, bad, vec![y].into()));
                            } else {
                                s.mem[acc as usize] = none(dty);
                            }
                            out.push((s, v != good));
                        }
                        out
                    })?;
                    return Some(rs.into_iter().map(|(s, v)| (s, Out::Ret(v))).collect());
                }
                if items(a[0]).is_some() {
                    return Some(ret(st, a[0]));
                }
                if !(dt.ends_with("Vec") || dt.ends_with("VecDeque")) {
                    return None;
                }
                let rs = drain(e, st, a[0], list(vec![]), NOTY, sp, &mut |e, mut s, acc, x| {
                    let mut l = items(s.mem[acc as usize]).unwrap();
                    push_item(e, &mut l, (ONE, x));
                    s.mem[acc as usize] = list(l);
                    vec![(s, false)]
                })?;
                return Some(rs.into_iter().map(|(s, v)| (s, Out::Ret(v))).collect());
            }
            "for_each" => {
                let mut st = st;
                let fa = st.push(a[1]);
                let fr = mk(Val::Ref(fa, Box::new([])));
                let rs = drain(e, st, a[0], unit(), NOTY, sp, &mut |e, s, _acc, x| {
                    e.call_value(s, fr, tup(vec![x]), NOTY, sp).into_iter().map(|(s, _)| (s, false)).collect()
                })?;
                return Some(
                    rs.into_iter()
                        .map(|(mut s, _)| {
                            s.mem.truncate(fa as usize);
                            (s, Out::Ret(unit()))
                        })
                        .collect(),
                );
            }
            "any" | "all" | "find" | "find_map" | "position" => {
                // by reference to the iterator
                let it = e.deref(&st, a[0]);
                let mut st = st;
                let fa = st.push(a[1]);
                let fr = mk(Val::Ref(fa, Box::new([])));
                let init = match m {
                    "any" => int(0),
                    "all" => int(1),
                    _ => none(dty),
                };
                let mm = m.to_string();
                let rs = drain(e, st, it, init, NOTY, sp, &mut |e, mut s, acc, x| {
                    let xa = s.push(x);
                    let arg = if mm == "find" { mk(Val::Ref(xa, Box::new([]))) } else { x };
                    let mut out = vec![];
                    for (mut s, o) in e.call_value(s, fr, tup(vec![arg]), NOTY, sp) {
                        let Out::Ret(b) = o else { continue };
                        let x = s.mem[xa as usize];
                        s.mem.truncate(xa as usize);
                        if mm == "find_map" {
                            for (mut s, v) in e.variants(&s, b, NOTY) {
                                if v == 1 {
                                    s.mem[acc as usize] = b;
                                }
                                out.push((s, v == 1));
                            }
                            continue;
                        }
                        for (mut s, t) in e.branch(&s, b) {
                            let stop = match mm.as_str() {
                                "any" if t => {
                                    s.mem[acc as usize] = int(1);
                                    true
                                }
                                "all" if !t => {
                                    s.mem[acc as usize] = int(0);
                                    true
                                }
                                "find" if t => {
                                    s.mem[acc as usize] = some(dty, x);
                                    true
                                }
                                "position" if t => {
                                    let i = e.fresh(&mut s, "pos", NOTY);
                                    s.mem[acc as usize] = some(dty, i);
                                    true
                                }
                                _ => false,
                            };
                            out.push((s, stop));
                        }
                    }
                    out
                })?;
                return Some(
                    rs.into_iter()
                        .map(|(mut s, v)| {
                            s.mem.truncate(fa as usize);
                            (s, Out::Ret(v))
                        })
                        .collect(),
                );
            }
            _ => {}
        }
    }
    None
}

/// A part of what an iterator over a list of known shape gives.
fn part(e: &Eng, st: &State, v: V, m: &str, k: usize) -> Option<V> {
    let v = e.deref(st, v);
    match &*g(v) {
        Val::List(l) if l.iter().all(|x| x.0 == ONE) => {
            let mut l = l.to_vec();
            match m {
                "rev" => l.reverse(),
                "take" => l.truncate(k),
                _ => l = l.into_iter().skip(k).collect(),
            }
            Some(list(l))
        }
        Val::Ext(n, f) if nm_s(*n) == "map" => Some(ext("map", vec![part(e, st, f[0], m, k)?, f[1]])),
        _ => None,
    }
}

/// An opaque value known to be a variant without fields is that variant.
pub fn unit_variant(e: &Eng, st: &State, v: V) -> V {
    if !opaque(v) {
        return v;
    }
    let t = peel(&e.p, vty(v));
    let Some(ti) = e.p.types.get(t as usize) else { return v };
    if !ti.is_enum {
        return v;
    }
    if let Some(d) = e.known(st, app(Op::Disc, vec![v], NOTY)) {
        if let Some(i) = ti.variants.iter().position(|x| x.disc == d) {
            if ti.variants[i].fields.is_empty() {
                return mk(Val::Adt(t, i as u32, Box::new([])));
            }
        }
    }
    v
}
