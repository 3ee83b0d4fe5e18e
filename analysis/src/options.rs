//! Options (O01): they start out safe, and change only as asked.
use crate::common::*;
use crate::eng::*;
use crate::ir::*;
use crate::models::*;
use crate::text;
use crate::val::*;
use std::rc::Rc;

struct OEnv;
fn fine(b: &[u8]) -> bool {
    !b.is_empty() && b.iter().all(|c| *c != 0 && *c < 128 && *c != b'\r' && *c != b'\n')
}
fn valid(e: &Eng, t: V) -> V {
    call("valid", vec![t], e.p.types.iter().position(|t| t.s == "bool").unwrap_or(0) as Ty)
}
/// The text that a term stands for.
fn words(e: &Eng, st: &State, v: V) -> V {
    let v = e.freeze(st, v);
    let l = text::parts(e, st, v);
    if l.len() == 1 { l[0] } else { v }
}
impl Env for OEnv {
    fn hang(&self) -> Option<&'static str> {
        Some("O01")
    }
    fn call(&self, e: &mut Eng, st: &State, c: &Callee, a: &[V], dty: Ty, sp: u32) -> Option<Res> {
        if c.name.ty == "CommandContinuationRequestBasic" && c.name.m == "new" && a.len() == 2 {
            let t = words(e, st, a[1]);
            let code = e.freeze(st, a[0]);
            let ti = e.p.types.get(dty as usize)?;
            let (ot, et) = (*ti.args.first()?, *ti.args.get(1)?);
            let cond = match &*g(t) {
                Val::Bytes(b) => int(fine(b) as i128),
                _ => valid(e, t),
            };
            let mut out = vec![];
            for (mut s, b) in e.branch(st, cond) {
                if b {
                    let p = e.p.clone();
                    let f = p.types[ot as usize].variants[0].fields.iter().map(|n| if n.0 == "code" { code } else { t }).collect();
                    let v = e.adt(ot, 0, f);
                    out.push((s, Out::Ret(ok(dty, v))));
                } else {
                    let v = e.fresh(&mut s, "verr", et);
                    out.push((s, Out::Ret(err(dty, v))));
                }
            }
            return Some(out);
        }
        let et = e.p.types.get(inner_ty(e, dty) as usize).map(|t| t.path.clone()).unwrap_or_default();
        if (et.ends_with("core::Text") && matches!(c.name.m.as_str(), "try_from" | "try_into") || c.name.ty == "Text" && c.name.m == "validate") && a.len() == 1 {
            let t = words(e, st, a[0]);
            let cond = match &*g(t) {
                Val::Bytes(b) => int(fine(b) as i128),
                _ => valid(e, t),
            };
            let mut out = vec![];
            for (mut s, b) in e.branch(st, cond) {
                let r = if b {
                    ok(dty, if c.name.m == "validate" { unit() } else { t })
                } else {
                    let et = e.p.types.get(dty as usize).and_then(|t| t.args.get(1).copied()).unwrap_or(NOTY);
                    err(dty, e.fresh(&mut s, "verr", et))
                };
                out.push((s, Out::Ret(r)));
            }
            return Some(out);
        }
        if c.name.ty == "Text" && matches!(c.name.m.as_str(), "unvalidated" | "as_ref" | "inner" | "into_inner") && a.len() == 1 {
            return Some(ret(st.clone(), words(e, st, a[0])));
        }
        // other texts
        let m = c.name.m.as_str();
        if (m.starts_with("trim") || m.starts_with("to_lower") || m.starts_with("to_upper") || m.starts_with("to_ascii") || m.starts_with("replace")) && !a.is_empty() {
            let mut f = vec![words(e, st, a[0])];
            f.extend(a[1..].iter().map(|x| e.freeze(st, *x)));
            return Some(ret(st.clone(), call(m, f, dty)));
        }
        text::strings(e, st, c, a, dty, sp)
    }
}
fn fields(e: &Eng, v: V) -> Option<std::collections::BTreeMap<String, V>> {
    view(&e.p, v).map(|x| x.1)
}
/// Is it known what this is?
fn sure(v: V) -> bool {
    !any_sub(v, &mut |x| matches!(&*g(x), Val::Top | Val::Undef) || matches!(&*g(x), Val::Sym { class, .. } if !nm_s(*class).starts_with("text")))
}
fn equal(e: &Eng, st: &State, a: V, b: V) -> bool {
    e.freeze(st, a) == e.freeze(st, b)
}
pub fn run(p: Rc<Prog>, cfg: &Cfg) -> Result<RunOut, String> {
    let env = Rc::new(OEnv);
    let mut e = Eng::new(p.clone(), env);
    cfg.apply(&mut e);
    let me = mk(Val::Ref(0, Box::new([])));
    let (mut states, mut transitions, mut tainted) = (0u64, 0u64, 0u64);
    let def = |who: &str| {
        p.by_key
            .iter()
            .find(|(k, _)| k.starts_with(&format!("<{who}::Options as")) && k.ends_with("::default"))
            .map(|x| *x.1)
            .ok_or(format!("the defaults of the {who}'s options were not found"))
    };
    let mut start: Vec<State> = vec![];
    for who in ["client", "server"] {
        for (mut s, o) in e.exec(State::new(0), def(who)?, vec![]) {
            transitions += 1;
            if s.taint {
                tainted += 1;
                continue;
            }
            let v = match o {
                Out::Ret(v) => e.freeze(&s, v),
                Out::Panic(m) => {
                    e.violation(&s, "O01", format!("the default options of the {who} panic: {m}"));
                    continue;
                }
                _ => continue,
            };
            let Some(f) = fields(&e, v) else {
                e.undecided(&s, "O01", format!("the default options of the {who} are unknown"));
                continue;
            };
            e.bump("defaults");
            let num = |n: &str| f.get(n).and_then(|x| is_int(*x));
            match num("crlf_relaxed") {
                Some(0) => {}
                Some(_) => e.violation(&s, "O01", format!("the {who} accepts lines without CRLF although nobody asked for it")),
                None => e.undecided(&s, "O01", format!("it is unknown what ends of line the {who} accepts")),
            }
            if who == "server" {
                match (num("max_literal_size"), num("max_command_size")) {
                    (Some(l), Some(c)) if 0 < l && l < c => {}
                    (Some(l), Some(c)) => e.violation(&s, "O01", format!("the default limits contradict each other: literals of {l} octets, commands of {c}")),
                    _ => e.undecided(&s, "O01", "the default limits are unknown"),
                }
                // the limits and the ends of line may be set by the user, too
                s.mem.clear();
                let Val::Adt(t, x, f) = &*g(v) else { continue };
                let f = f.iter().zip(p.types[*t as usize].variants[0].fields.iter()).map(|(v, fd)| if is_int(*v).is_some() { fixed(&format!("text of {}", fd.0), fd.1) } else { *v }).collect::<Vec<_>>();
                s.push(mk(Val::Adt(*t, *x, f.into())));
                start.push(s);
            }
        }
    }
    // --- texts
    let names = ["accept", "reject"];
    let get = |e: &mut Eng, s: &State, n: &str| -> Result<Vec<(State, Result<V, String>)>, String> {
        let f = *p.by_key.get(&format!("server::Options::literal_{n}_text")).ok_or(format!("the text for {n}ed literals cannot be read"))?;
        Ok(e.exec(s.clone(), f, vec![me])
            .into_iter()
            .filter_map(|(s, o)| match o {
                Out::Ret(v) => {
                    let v = words(e, &s, v);
                    Some((s, Ok(v)))
                }
                Out::Panic(m) => Some((s, Err(m))),
                _ => None,
            })
            .collect())
    };
    // every order of setting the texts, valid or not
    let mut work: Vec<(State, Vec<V>, usize)> = vec![];
    for s in start {
        let mut now = vec![];
        for n in names {
            for (s, t) in get(&mut e, &s, n)? {
                match t {
                    Ok(t) => {
                        match &*g(t) {
                            Val::Bytes(b) if fine(b) => {}
                            Val::Bytes(_) => e.violation(&s, "O01", format!("the default text for {n}ed literals is not valid")),
                            _ => e.undecided(&s, "O01", format!("the default text for {n}ed literals is unknown")),
                        }
                        now.push(t);
                    }
                    Err(m) => e.violation(&s, "O01", format!("the text for {n}ed literals cannot be read: {m}")),
                }
            }
        }
        if now.len() == 2 {
            work.push((s, now, 0));
        }
    }
    while let Some((s0, now, depth)) = work.pop() {
        states += 1;
        if depth == 3 {
            continue;
        }
        for (i, n) in names.iter().enumerate() {
            let f = *p.by_key.get(&format!("server::Options::set_literal_{n}_text")).ok_or(format!("the text for {n}ed literals cannot be set"))?;
            let t = fixed(&format!("text{depth}"), NOTY);
            let (mut taken, mut refused) = (false, false);
            for (mut s, o) in e.exec(s0.clone(), f, vec![me, t]) {
                transitions += 1;
                if s.taint {
                    tainted += 1;
                    continue;
                }
                let v = match o {
                    Out::Ret(v) => e.freeze(&s, v),
                    Out::Panic(m) => {
                        e.violation(&s, "O01", format!("setting the text for {n}ed literals panics: {m}"));
                        continue;
                    }
                    _ => continue,
                };
                let Some((k, r)) = view(&p, v) else {
                    e.undecided(&s, "O01", "the result is unknown");
                    continue;
                };
                e.bump("texts set");
                s.mem.truncate(1);
                let is = e.known(&s, valid(&e, t));
                let mut want = now.clone();
                if k == "Ok" {
                    taken = true;
                    want[i] = t;
                    let mut other = false;
                    for (s, t) in get(&mut e, &s, n)? {
                        if let Ok(t) = t {
                            if t != want[i] && sure(t) {
                                e.violation(&s, "O01", format!("another text for {n}ed literals is in use than the one that was set"));
                                other = true;
                            }
                        }
                    }
                    if other {
                        continue;
                    }
                    if is != Some(1) {
                        if is.is_none() && s.facts.keys().any(|x| any_sub(*x, &mut |y| y == t)) {
                            e.undecided(&s, "O01", format!("it is unknown whether a text for {n}ed literals was checked"));
                            continue;
                        }
                        e.violation(&s, "O01", format!("a text for {n}ed literals is taken without being checked"));
                        continue;
                    }
                    let (Some(a), Some(b)) = (fields(&e, s0.mem[0]), fields(&e, s.mem[0])) else { continue };
                    for (k, x) in a {
                        let number = matches!(&*g(x), Val::Sym { class, .. } if nm_s(*class).starts_with("text of"));
                        if number && b.get(&k).map(|y| !equal(&e, &s, x, *y)).unwrap_or(true) {
                            e.violation(&s, "O01", format!("setting the text for {n}ed literals changes {k}"));
                        }
                    }
                } else {
                    refused = true;
                    let r0 = words(&e, &s, r["0"]);
                    if r0 != t && sure(r0) {
                        e.violation(&s, "O01", format!("a refused text for {n}ed literals is not handed back"));
                        continue;
                    }
                    if is.is_none() && s.facts.keys().any(|x| any_sub(*x, &mut |y| y == t)) {
                        e.undecided(&s, "O01", format!("it is unknown why a text for {n}ed literals is refused"));
                    }
                    if is == Some(1) {
                        e.violation(&s, "O01", format!("a valid text for {n}ed literals is refused"));
                        continue;
                    }
                    if r0 != t {
                        e.undecided(&s, "O01", format!("a refused text for {n}ed literals is not handed back"));
                    }
                    if !equal(&e, &s, s0.mem[0], s.mem[0]) {
                        e.violation(&s, "O01", format!("a refused text for {n}ed literals changes the options"));
                        continue;
                    }
                }
                for (j, m) in names.iter().enumerate() {
                    for (s, t) in get(&mut e, &s, m)? {
                        match t {
                            Ok(t) if t == want[j] => {}
                            Ok(t) if !sure(t) => e.undecided(&s, "O01", "the text in use is unknown"),
                            Ok(_) => e.violation(&s, "O01", format!("after setting the text for {n}ed literals another text for {m}ed ones is in use than the one set last")),
                            Err(x) => e.violation(&s, "O01", format!("the text for {m}ed literals cannot be read: {x}")),
                        }
                    }
                }
                work.push((s, want, depth + 1));
            }
            if !taken && tainted == 0 {
                e.violation(&s0, "O01", format!("no text for {n}ed literals is ever taken"));
            }
            if refused {
                e.bump("texts refused");
            }
        }
    }
    let mut floors = vec![];
    for (k, n) in [("defaults", 2), ("texts set", 8), ("texts refused", 2)] {
        if e.stats.get(k).copied().unwrap_or(0) < n {
            floors.push(format!("{k} < {n}"));
        }
    }
    Ok(RunOut { viol: e.viol.clone(), states, transitions, tainted, eng: e, floors, samples: vec![] })
}
