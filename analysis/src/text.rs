//! Strings as lists of parts: constant bytes, opaque strings, and displayed values.
use crate::eng::*;
use crate::ir::*;
use crate::models::*;
use crate::val::*;

pub fn lit(s: &str) -> V {
    mk(Val::Bytes(s.as_bytes().to_vec()))
}
/// The parts a string consists of; adjacent constants are one part.
pub fn parts(e: &Eng, st: &State, v: V) -> Vec<V> {
    let mut out = vec![];
    raw(e, st, v, &mut out, 0);
    let mut res: Vec<V> = vec![];
    for x in out {
        if let Val::Bytes(b) = &*g(x) {
            if b.is_empty() {
                continue;
            }
            if let Some(l) = res.last_mut() {
                if let Val::Bytes(a) = &*g(*l) {
                    let mut a = a.clone();
                    a.extend(b);
                    *l = mk(Val::Bytes(a));
                    continue;
                }
            }
        }
        res.push(x);
    }
    res
}
fn raw(e: &Eng, st: &State, v: V, out: &mut Vec<V>, depth: usize) {
    let v = e.deref(st, v);
    match &*g(v) {
        _ if depth > 20 => out.push(v),
        Val::List(l) => l.iter().for_each(|x| raw(e, st, x.1, out, depth + 1)),
        Val::Ext(k, a) if nm_s(*k) == "text" => a.iter().for_each(|x| raw(e, st, *x, out, depth + 1)),
        Val::Ext(k, a) if nm_s(*k) == "Bytes" => raw(e, st, a[0], out, depth + 1),
        // a character
        Val::Int(i) if *i < 0x11_0000 => {
            let mut b = [0; 4];
            match char::from_u32(*i as u32) {
                Some(c) => out.push(lit(c.encode_utf8(&mut b))),
                None => out.push(v),
            }
        }
        _ => out.push(e.freeze(st, v)),
    }
}
pub fn text(p: Vec<V>) -> V {
    ext("text", p)
}
/// What a value of this type looks like when it is displayed.
pub fn display(e: &mut Eng, st: State, how: &str, x: V, t: Ty, sp: u32) -> Vec<(State, Vec<V>)> {
    let t = peel(&e.p, t);
    let v = e.deref(&st, x);
    let Some(ti) = e.p.types.get(t as usize).cloned() else { return vec![(st.clone(), vec![call(how, vec![e.freeze(&st, v)], NOTY)])] };
    let tr = if how == "debug" { "Debug" } else { "Display" };
    let stringy = ti.k == "str" || ti.path.ends_with("::String");
    if how == "display" && stringy {
        let p = parts(e, &st, v);
        return vec![(st, p)];
    }
    if how == "display" {
        if let Some(i) = is_int(v) {
            if ti.s == "char" {
                let p = parts(e, &st, v);
                return vec![(st, p)];
            }
            return vec![(st, vec![lit(&i.to_string())])];
        }
    }
    if let Some(f) = e.p.by_key.get(&format!("<{} as std::fmt::{tr}>::fmt", ti.s)).copied() {
        if e.p.funcs[f as usize].local {
            let mut st = st;
            let xa = st.push(v);
            let fa = st.push(list(vec![]));
            let r = |i: u32| mk(Val::Ref(i, Box::new([])));
            let mut out = vec![];
            for (mut s, o) in e.exec(st, f, vec![r(xa), r(fa)]) {
                if let Out::Ret(_) = o {
                    let p = parts(e, &s, r(fa));
                    s.mem.truncate(xa as usize);
                    out.push((s, p));
                }
            }
            let _ = sp;
            return out;
        }
    }
    let v = e.freeze(&st, v);
    vec![(st, vec![call(how, vec![v], NOTY)])]
}
/// The text of `fmt::Arguments::new(template, args)`.
fn template(e: &mut Eng, st: State, t: V, args: V, sp: u32) -> Option<Vec<(State, V)>> {
    let tv = e.deref(&st, t);
    let b: Vec<u8> = match &*g(tv) {
        Val::Bytes(b) => b.clone(),
        Val::List(l) => l.iter().map(|x| is_int(x.1).map(|i| i as u8)).collect::<Option<Vec<_>>>()?,
        _ => return None,
    };
    let al: Vec<V> = match &*g(e.deref(&st, args)) {
        Val::List(l) if l.iter().all(|x| x.0 == ONE) => l.iter().map(|x| x.1).collect(),
        Val::Tup(l) => l.to_vec(),
        _ => return None,
    };
    let mut states: Vec<(State, Vec<V>)> = vec![(st, vec![])];
    let (mut i, mut ai) = (0, 0);
    let u16_ = |i: usize| -> Option<usize> { Some(*b.get(i)? as usize | (*b.get(i + 1)? as usize) << 8) };
    loop {
        let n = *b.get(i)?;
        i += 1;
        match n {
            0 => break,
            1..=0x80 => {
                let len = if n == 0x80 {
                    i += 2;
                    u16_(i - 2)?
                } else {
                    n as usize
                };
                let l = mk(Val::Bytes(b.get(i..i + len)?.to_vec()));
                i += len;
                states.iter_mut().for_each(|x| x.1.push(l));
            }
            _ => {
                let mut plain = true;
                if n & 1 != 0 {
                    // alternate or other flags; the default has only the fill character
                    plain = u16_(i)? == 0x20 && u16_(i + 2)? & 0x1fff == 0;
                    i += 4;
                }
                if n & 2 != 0 {
                    plain &= u16_(i)? == 0;
                    i += 2;
                }
                if n & 4 != 0 {
                    plain = false;
                    i += 2;
                }
                if n & 8 != 0 {
                    ai = u16_(i)?;
                    i += 2;
                }
                plain &= n & 48 == 0;
                let Val::Ext(k, a) = &*g(*al.get(ai)?) else { return None };
                if nm_s(*k) != "fmtarg" {
                    return None;
                }
                ai += 1;
                let Val::Bytes(how) = &*g(a[0]) else { return None };
                let how = String::from_utf8_lossy(how).to_string();
                let ty = is_int(a[2])? as Ty;
                let mut next = vec![];
                for (s, p) in states {
                    for (s, q) in display(e, s, &how, a[1], ty, sp) {
                        let mut p = p.clone();
                        if plain {
                            p.extend(q);
                        } else {
                            p.push(call("formatted", q, NOTY));
                        }
                        next.push((s, p));
                    }
                }
                states = next;
            }
        }
    }
    Some(states.into_iter().map(|(s, p)| (s, text(p))).collect())
}
/// Library functions on strings.
pub fn strings(e: &mut Eng, st: &State, c: &Callee, a: &[V], dty: Ty, sp: u32) -> Option<Res> {
    let n = &c.name;
    let m = n.m.as_str();
    fn one(s: State, v: V) -> Option<Res> {
        Some(vec![(s, Out::Ret(v))])
    }
    let fmt = c.rpath.contains("fmt::");
    if c.rpath.contains("fmt::rt::Argument") && m.starts_with("new_") {
        let t = c.args.first().copied().unwrap_or(NOTY);
        return one(st.clone(), ext("fmtarg", vec![lit(&m[4..]), a[0], int(t as i128)]));
    }
    if fmt && n.ty == "Arguments" {
        match m {
            "new" if a.len() == 2 => {
                let r = template(e, st.clone(), a[0], a[1], sp)?;
                return Some(r.into_iter().map(|(s, v)| (s, Out::Ret(v))).collect());
            }
            "from_str" | "new_const" => {
                let p = parts(e, st, a[0]);
                return one(st.clone(), text(p));
            }
            _ => {}
        }
    }
    if m == "format" && fmt && a.len() == 1 || m == "must_use" && a.len() == 1 {
        let v = e.deref(st, a[0]);
        return one(st.clone(), v);
    }
    let acc = |v: V| matches!(&*g(v), Val::List(_));
    if matches!(m, "write_fmt" | "write_str" | "write_char" | "pad") && a.len() == 2 {
        let v = e.deref(st, a[0]);
        let mut s = st.clone();
        if acc(v) {
            let mut l = items(v)?;
            for x in parts(e, st, a[1]) {
                l.push((ONE, x));
            }
            if !e.store_ref(&mut s, a[0], list(l)) {
                return None;
            }
            return one(s, ok(dty, unit()));
        }
    }
    if m == "fmt" && a.len() == 2 && (n.tr == "Display" || c.path.ends_with("Display::fmt")) && c.key.is_none() && acc(e.deref(st, a[1])) {
        let t = c.args.first().copied().unwrap_or(NOTY);
        let mut out = vec![];
        for (mut s, p) in display(e, st.clone(), "display", a[0], t, sp) {
            let mut l = items(e.deref(&s, a[1]))?;
            l.extend(p.into_iter().map(|x| (ONE, x)));
            if !e.store_ref(&mut s, a[1], list(l)) {
                return None;
            }
            out.push((s, Out::Ret(ok(dty, unit()))));
        }
        return Some(out);
    }
    if m == "to_string" && a.len() == 1 {
        let t = c.args.first().copied().unwrap_or(NOTY);
        return Some(display(e, st.clone(), "display", a[0], t, sp).into_iter().map(|(s, p)| (s, Out::Ret(text(p)))).collect());
    }
    let is_string = |t: Ty| e.p.types.get(t as usize).map(|t| t.path.ends_with("::String")).unwrap_or(false);
    if is_string(dty) {
        match m {
            "new" | "with_capacity" | "default" => return one(st.clone(), list(vec![])),
            "from" | "into" | "to_owned" | "clone" | "into_string" | "into_owned" | "from_utf8_lossy" if a.len() == 1 && c.key.is_none() => {
                let v = e.deref(st, a[0]);
                return one(st.clone(), if acc(v) { v } else { text(parts(e, st, v)) });
            }
            "add" if a.len() == 2 => {
                let mut p = parts(e, st, a[0]);
                p.extend(parts(e, st, a[1]));
                return one(st.clone(), text(p));
            }
            "concat" | "join" => {
                let l = match &*g(e.deref(st, a[0])) {
                    Val::List(l) if l.iter().all(|x| x.0 == ONE) => l.iter().map(|x| x.1).collect::<Vec<_>>(),
                    Val::Tup(l) => l.to_vec(),
                    _ => return None,
                };
                let mut p = vec![];
                for (i, x) in l.iter().enumerate() {
                    if i > 0 && m == "join" {
                        p.extend(parts(e, st, a[1]));
                    }
                    p.extend(parts(e, st, *x));
                }
                return one(st.clone(), text(p));
            }
            _ => {}
        }
    }
    if n.ty == "String" && matches!(m, "push" | "push_str" | "add_assign" | "extend" | "insert_str" | "insert") || m == "add_assign" {
        let v = e.deref(st, a[0]);
        let cur = parts(e, st, v);
        let mut s = st.clone();
        let new = match m {
            "insert" | "insert_str" => {
                if is_int(a[1]) != Some(0) {
                    return None;
                }
                let mut p = parts(e, st, a[2]);
                p.extend(cur);
                p
            }
            _ => {
                let mut p = cur;
                p.extend(parts(e, st, a[1]));
                p
            }
        };
        if !e.store_ref(&mut s, a[0], list(new.into_iter().map(|x| (ONE, x)).collect())) {
            return None;
        }
        return one(s, unit());
    }
    None
}
