//! The proxy (X01..X06, X08..X10, X13..X16): what its tasks do with connections, messages and the
//! configuration. Every task is executed for every outcome of every operation of its environment.
use crate::common::*;
use crate::eng::*;
use crate::ir::*;
use crate::models::*;
use crate::text;
use crate::val::*;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::rc::Rc;

// monitor slots
const ROLE: usize = 0; // 0 main, 1 service, 2 session
const SVC: usize = 1; // the service that the task belongs to
const EV: usize = 2; // the event that is being handled
const OPS: usize = 3; // what was done with the client/server since
const END: usize = 4; // why the session may end
const SRV: usize = 5; // the server side exists
const POLL: usize = 6; // what the session waits for: 1 the server, 2 the client
const ACC: usize = 7; // an accepted client that nothing was done with
const STARTED: usize = 8; // services that were started
const JOINED: usize = 9; // main waited for all tasks
const BOUND: usize = 10; // the service listens
const LOADED: usize = 11; // the services of the configuration
const FILES: usize = 12; // what the identity files contain
const NMON: usize = 13;

struct PEnv {
    spawned: RefCell<Vec<State>>,
    racing: Cell<u32>,
    kinds: RefCell<BTreeSet<String>>,
    waits: RefCell<HashSet<(u128, Vec<u32>)>>,
    roots: RefCell<BTreeMap<String, Option<bool>>>,
    /// how long the lists of capabilities are at most, without TLS and with TLS
    lens: [usize; 2],
    /// how long the one long list is
    long: usize,
    caps: Cell<usize>,
}

fn is_ext(v: V, k: &str) -> bool {
    matches!(&*g(v), Val::Ext(n, _) if *n == nm(k))
}
fn ext_args(v: V, k: &str) -> Option<Vec<V>> {
    match &*g(v) {
        Val::Ext(n, f) if *n == nm(k) => Some(f.to_vec()),
        _ => None,
    }
}
fn has(v: V, k: &str) -> bool {
    any_sub(v, &mut |x| is_ext(x, k))
}
fn find_ext(v: V, k: &str) -> Vec<V> {
    let mut out = vec![];
    any_sub(v, &mut |x| {
        if is_ext(x, k) && !out.contains(&x) {
            out.push(x);
        }
        false
    });
    out
}
fn seq(v: V) -> Vec<V> {
    match &*g(v) {
        Val::Tup(f) => f.to_vec(),
        _ => vec![],
    }
}
fn bytes(v: V) -> Option<String> {
    match &*g(v) {
        Val::Bytes(b) => Some(String::from_utf8_lossy(b).to_string()),
        _ => None,
    }
}
fn path(e: &Eng, t: Ty) -> String {
    e.p.types.get(t as usize).map(|t| t.path.clone()).unwrap_or_default()
}
fn targ(e: &Eng, t: Ty, i: usize) -> Ty {
    e.p.types.get(t as usize).and_then(|t| t.args.get(i).copied()).unwrap_or(NOTY)
}
const MECHS: &[&str] = &["Plain", "Login", "XOAuth2", "ScramSha1", "ScramSha256"];
const CAPS: &[&str] = &["Imap4Rev1", "SaslIr", "Quota", "QuotaRes", "QuotaSet", "Move", "LiteralPlus", "LiteralMinus", "Unselect", "Id", "Idle"];
/// What the variant of a value may be.
fn names(e: &Eng, st: &State, v: V) -> Vec<String> {
    let t = peel(&e.p, vty(v));
    let Some(ti) = e.p.types.get(t as usize) else { return vec![] };
    if let Val::Adt(_, x, _) = &*g(v) {
        return ti.variants.get(*x as usize).map(|x| vec![x.name.clone()]).unwrap_or_default();
    }
    ti.variants.iter().filter(|x| is_variant(e, st, v, &x.name) != Some(false)).filter(|x| e.known(st, app(Op::Disc, vec![v], NOTY)).map(|d| d == x.disc).unwrap_or(true)).map(|x| x.name.clone()).collect()
}
/// Is it known that the proxy may (not) pass this capability on?
fn allowed(e: &Eng, st: &State, c: V) -> Option<bool> {
    let n = names(e, st, c);
    if n.is_empty() {
        return None;
    }
    let mut r: Vec<bool> = vec![];
    for k in &n {
        if k == "Auth" {
            let m = match &*g(c) {
                Val::Adt(_, _, f) => f[0],
                _ => vfield(e, st, c, NOTY, "Auth", "0")?,
            };
            let m = e.deref(st, m);
            let ms = names(e, st, m);
            if ms.is_empty() {
                return None;
            }
            r.extend(ms.iter().map(|k| MECHS.contains(&k.as_str())));
        } else {
            r.push(CAPS.contains(&k.as_str()));
        }
    }
    r.dedup();
    match r[..] {
        [b] => Some(b),
        _ => None,
    }
}
/// Is it a list of capabilities?
fn is_caps(e: &Eng, t: Ty) -> bool {
    let Some(ti) = e.p.types.get(t as usize) else { return false };
    ti.path.ends_with("core::Vec1") && ti.args.first().map(|t| path(e, *t).ends_with("::Capability")).unwrap_or(false)
}
fn caps_of(v: V) -> Option<Vec<V>> {
    let l = match &*g(v) {
        Val::Adt(_, _, f) if f.len() == 1 => items(f[0])?,
        Val::List(l) => l.to_vec(),
        _ => return None,
    };
    if l.iter().any(|x| x.0 != ONE) {
        return None;
    }
    Some(l.into_iter().map(|x| x.1).collect())
}
/// Does the type contain capabilities?
fn hascap(e: &Eng, t: Ty, memo: &mut BTreeMap<Ty, bool>) -> bool {
    if is_caps(e, t) {
        return true;
    }
    if let Some(b) = memo.get(&t) {
        return *b;
    }
    memo.insert(t, false);
    let Some(ti) = e.p.types.get(t as usize).cloned() else { return false };
    let r = ti.variants.iter().flat_map(|v| v.fields.iter()).any(|f| hascap(e, f.1, memo)) || ti.k == "tuple" && ti.args.iter().any(|t| hascap(e, *t, memo));
    memo.insert(t, r);
    r
}

impl PEnv {
    /// Every value of a type, as far as the capabilities in it are concerned.
    fn gen(&self, e: &mut Eng, st: &State, t: Ty, name: &str, depth: usize) -> Vec<(State, V)> {
        let mut memo = BTreeMap::new();
        if is_caps(e, t) {
            let et = targ(e, t, 0);
            let mut out = vec![];
            for n in 1..=self.caps.get() {
                let mut s = st.clone();
                let l = (0..n).map(|_| (ONE, e.fresh(&mut s, "capability", et))).collect();
                out.push((s, mk(Val::Adt(t, 0, vec![list(l)].into()))));
            }
            // a long one, in an order of its own and with repetitions
            let ti = e.p.types.get(peel(&e.p, et) as usize).cloned();
            let flat: Vec<u32> = ti.iter().flat_map(|t| t.variants.iter().enumerate()).filter(|(_, v)| v.fields.is_empty()).map(|(i, _)| i as u32).rev().collect();
            if flat.len() > 1 {
                let l = (0..self.long).map(|i| (ONE, mk(Val::Adt(et, flat[i / 2 % flat.len()], Box::new([]))))).collect();
                out.push((st.clone(), mk(Val::Adt(t, 0, vec![list(l)].into()))));
            }
            return out;
        }
        let one = |mut s: State| {
            let v = e.fresh(&mut s, name, t);
            vec![(s, v)]
        };
        if depth > 8 || !hascap(e, t, &mut memo) {
            return one(st.clone());
        }
        let ti = e.p.types[t as usize].clone();
        let mut out = vec![];
        let mut rest = vec![];
        for (i, v) in ti.variants.iter().enumerate() {
            if v.fields.iter().any(|f| hascap(e, f.1, &mut memo)) {
                out.extend(self.gen_variant(e, st, t, i as u32, depth));
            } else {
                rest.push(i);
            }
        }
        if rest.len() == 1 {
            out.extend(self.gen_variant(e, st, t, rest[0] as u32, depth));
        } else if rest.len() > 1 {
            let mut s = st.clone();
            let v = e.fresh(&mut s, name, t);
            let d = app(Op::Disc, vec![v], NOTY);
            for (i, w) in ti.variants.iter().enumerate() {
                if !rest.contains(&i) {
                    e.assume_ne(&mut s, d, w.disc);
                }
            }
            out.push((s, v));
        }
        out
    }
    fn gen_variant(&self, e: &mut Eng, st: &State, t: Ty, i: u32, depth: usize) -> Vec<(State, V)> {
        let fs = e.p.types[t as usize].variants[i as usize].fields.clone();
        let mut cur: Vec<(State, Vec<V>)> = vec![(st.clone(), vec![])];
        for (n, ft) in &fs {
            let mut next = vec![];
            for (s, f) in cur {
                for (s, v) in self.gen(e, &s, *ft, n, depth + 1) {
                    let mut f = f.clone();
                    f.push(v);
                    next.push((s, f));
                }
            }
            cur = next;
        }
        cur.into_iter().map(|(s, f)| (s, mk(Val::Adt(t, i, f.into())))).collect()
    }
    /// `y` says the same as `x`; what differs in lists of capabilities is collected.
    fn same(&self, e: &Eng, st: &State, x: V, y: V, t: Ty, caps: &mut Vec<(V, V)>) -> bool {
        let (x, y) = (e.deref(st, x), e.deref(st, y));
        if x == y && !matches!(&*g(x), Val::Top | Val::Undef) {
            return true;
        }
        let t = [vty(x), vty(y), t].into_iter().find(|t| *t != NOTY).unwrap_or(NOTY);
        if is_caps(e, t) {
            caps.push((x, y));
            return true;
        }
        match (&*g(x), &*g(y)) {
            (Val::Adt(t, v, f), Val::Adt(u, w, h)) => path(e, *t) == path(e, *u) && v == w && f.len() == h.len() && f.iter().zip(h.iter()).enumerate().all(|(i, (a, b))| self.same(e, st, *a, *b, field_ty(&e.p, *t, *v, i as u32), caps)),
            (Val::Adt(t, v, f), Val::Sym { .. } | Val::App { .. }) | (Val::Sym { .. } | Val::App { .. }, Val::Adt(t, v, f)) => {
                let o = if opaque(x) { x } else { y };
                let n = e.p.types.get(*t as usize).and_then(|t| t.variants.get(*v as usize)).map(|v| v.name.clone()).unwrap_or_default();
                if path(e, peel(&e.p, vty(o))) != path(e, *t) {
                    return false;
                }
                let en = e.p.types[*t as usize].is_enum;
                if en && names(e, st, o) != vec![n] {
                    return false;
                }
                f.iter().enumerate().all(|(i, a)| {
                    let b = e.field(st, o, *v, i as u32);
                    let ft = field_ty(&e.p, *t, *v, i as u32);
                    if o == x { self.same(e, st, b, *a, ft, caps) } else { self.same(e, st, *a, b, ft, caps) }
                })
            }
            (Val::List(f), Val::List(h)) => f.len() == h.len() && f.iter().zip(h.iter()).all(|(a, b)| a.0 == b.0 && self.same(e, st, a.1, b.1, NOTY, caps)),
            _ => {
                let tx = |v: V| is_ext(v, "text") || matches!(&*g(v), Val::Bytes(_));
                tx(x) && tx(y) && text::parts(e, st, x) == text::parts(e, st, y)
            }
        }
    }
    /// A violation unless it is due to what is not known.
    fn wrong(&self, e: &mut Eng, st: &State, prop: &str, msg: impl Into<String>, vs: &[V]) {
        if vs.iter().any(|v| e.guessed(*v)) {
            e.undecided(st, prop, msg.into());
        } else {
            e.violation(st, prop, msg.into());
        }
    }
    fn svc(&self, e: &Eng, st: &State, f: &str) -> Option<V> {
        vfield(e, st, st.mon[SVC], NOTY, "Service", f)
    }
    /// The states in which the service (does not) encrypt this side.
    fn sides(&self, e: &Eng, st: &State, f: &str) -> Vec<(State, String, V)> {
        let Some(v) = self.svc(e, st, f) else { return vec![] };
        let t = peel(&e.p, vty(v));
        e.variants(st, v, NOTY).into_iter().map(|(s, i)| (s, e.p.types[t as usize].variants[i as usize].name.clone(), v)).collect()
    }
    /// X04: is it the address of this side of the service?
    fn address(&self, e: &mut Eng, st: &State, addr: V, f: &str) -> Vec<State> {
        let mut out = vec![];
        let what = if f == "bind" { "the service listens on" } else { "the service connects to" };
        for (s, n, v) in self.sides(e, st, f) {
            let (h, p) = match (vfield(e, &s, v, NOTY, &n, "host"), vfield(e, &s, v, NOTY, &n, "port")) {
                (Some(h), Some(p)) => (h, p),
                _ => {
                    e.undecided(&s, "X04", format!("{f} has no host and port"));
                    continue;
                }
            };
            let a = e.deref(&s, addr);
            let good = match &*g(a) {
                Val::Tup(x) if x.len() == 2 => text::parts(e, &s, x[0]) == text::parts(e, &s, h) && e.deref(&s, x[1]) == p,
                _ => {
                    let mut want = text::parts(e, &s, h);
                    want.push(text::lit(":"));
                    want.push(call("display", vec![p], NOTY));
                    let got = text::parts(e, &s, a);
                    if got != want && got.iter().any(|x| opaque(*x) && !any_sub(*x, &mut |y| y == s.mon[SVC])) {
                        e.undecided(&s, "X04", format!("{what} {}", show(&e.p, a)));
                        continue;
                    }
                    got == want
                }
            };
            if good {
                out.push(s);
            } else {
                self.wrong(e, &s, "X04", format!("{what} another address than the configured one ({})", show(&e.p, a)), &[a]);
            }
        }
        out
    }
    fn fails(&self, e: &Eng, st: &State, rty: Ty, what: &str) -> (State, Out) {
        let mut s = st.clone();
        let et = targ(e, rty, 1);
        let v = e.fresh(&mut s, "error", et);
        s.set(END, 1);
        s.note(format!("{what} fails"));
        (s, Out::Ret(err(rty, v)))
    }
    // ---------- futures ----------
    fn run_future(&self, e: &mut Eng, st: &State, fut: V, rty: Ty, sp: u32) -> Option<Res> {
        let v = e.deref(st, fut);
        match &*g(v) {
            Val::Clo(k, _) if *k != u32::MAX => Some(e.exec(st.clone(), *k, vec![v, fixed("cx", NOTY)])),
            Val::Ext(k, f) => {
                let k = nm_s(*k);
                if let Some(l) = k.strip_prefix("leaf:") {
                    self.kinds.borrow_mut().insert(l.to_string());
                    return self.leaf(e, st, l, f, rty);
                }
                if let Some(r) = k.strip_prefix("race:") {
                    self.racing.set(self.racing.get() + 1);
                    let r = race(e, st, r, f, rty, &mut |e, s, f, t| self.run_future(e, s, f, t, sp), &|_, _| {});
                    self.racing.set(self.racing.get() - 1);
                    return r;
                }
                match k.as_str() {
                    "cond" => {
                        let mut out = vec![];
                        for (s, on) in e.branch(st, f[0]) {
                            if on {
                                out.extend(self.run_future(e, &s, f[1], rty, sp)?);
                            } else {
                                out.push((s, Out::Cancel));
                            }
                        }
                        Some(out)
                    }
                    "timeout" => {
                        self.racing.set(self.racing.get() + 1);
                        let r = self.run_future(e, st, f[0], targ(e, rty, 0), sp);
                        self.racing.set(self.racing.get() - 1);
                        let mut out = vec![];
                        for (s, o) in r? {
                            match o {
                                Out::Ret(v) => out.push((s, Out::Ret(ok(rty, v)))),
                                Out::Cancel => out.push(self.fails(e, &s, rty, "waiting any longer")),
                                o => out.push((s, o)),
                            }
                        }
                        Some(out)
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }
    fn leaf(&self, e: &mut Eng, st: &State, kind: &str, f: &[V], rty: Ty) -> Option<Res> {
        e.bump(&format!("await {kind}"));
        let good = |mut s: State, v: V| {
            s.note(format!("{kind} succeeds"));
            (s, Out::Ret(ok(rty, v)))
        };
        let mut out: Res = vec![(st.clone(), Out::Cancel)];
        match kind {
            "bind" => {
                for s in self.address(e, st, f[0], "bind") {
                    out.push(good(s, ext("listener", vec![])));
                }
                out.push(self.fails(e, st, rty, kind));
            }
            "accept" => {
                let mut s = st.clone();
                s.set(BOUND, 1);
                if s.m(ROLE) == 1 && s.m(ACC) == 1 {
                    e.violation(&s, "X10", "a client that was accepted is dropped");
                    return Some(vec![]);
                }
                s.set(ACC, 1);
                e.bump("clients accepted");
                let t = targ(e, targ(e, rty, 0), 1);
                let a = e.fresh(&mut s, "peer", t);
                out.push(good(s.clone(), tup(vec![ext("tcp", vec![text::lit("accepted")]), a])));
                s.set(ACC, st.m(ACC));
                out.push(self.fails(e, &s, rty, kind));
            }
            "connect" => {
                for s in self.address(e, st, f[0], "connect") {
                    out.push(good(s, ext("tcp", vec![text::lit("connected")])));
                }
                out.push(self.fails(e, st, rty, kind));
            }
            "tls-accept" => {
                e.bump("TLS handshakes with clients");
                if !has(f[1], "tcp") || !has(f[0], "sconf") {
                    e.undecided(st, "X04", "a TLS handshake over something else than a connection");
                    return Some(vec![]);
                }
                if !self.negotiated(e, st, f[0]) {
                    return Some(vec![]);
                }
                out.push(good(st.clone(), ext("tlsconn", vec![text::lit("server"), f[1]])));
                out.push(self.fails(e, st, rty, kind));
            }
            "tls-connect" => {
                e.bump("TLS handshakes with servers");
                if !has(f[2], "tcp") {
                    e.undecided(st, "X04", "a TLS handshake over something else than a connection");
                    return Some(vec![]);
                }
                if !self.negotiated(e, st, f[0]) {
                    return Some(vec![]);
                }
                for s in self.verified(e, st, f[0], f[1]) {
                    out.push(good(s, ext("tlsconn", vec![text::lit("client"), f[2]])));
                }
                out.push(self.fails(e, st, rty, kind));
            }
            "flush" => {
                let mut s = st.clone();
                s.set(POLL, st.m(POLL) | 4);
                out = vec![(s, Out::Cancel)];
                out.push(good(st.clone(), unit()));
                out.push(self.fails(e, st, rty, kind));
            }
            "readiness of a client" => {
                let t = targ(e, rty, 0);
                let mut s = st.clone();
                let v = if e.p.types.get(t as usize).map(|t| t.s == "()").unwrap_or(false) { unit() } else { e.fresh(&mut s, "ready", t) };
                out.push(good(s, v));
                out.push(self.fails(e, st, rty, kind));
            }
            "sleep" => out.push((st.clone(), Out::Ret(unit()))),
            "join-next" => {
                // Option<Result<T, JoinError>>
                let r = targ(e, rty, 0);
                let mut s = st.clone();
                s.set(JOINED, 1);
                s.note("all tasks are done");
                out.push((s, Out::Ret(none(rty))));
                if !seq(st.mon[STARTED]).is_empty() {
                    let t = targ(e, r, 0);
                    let mut s = st.clone();
                    let v = if e.p.types.get(t as usize).map(|t| t.s == "()").unwrap_or(true) { unit() } else { e.fresh(&mut s, "result", t) };
                    out.push((s, Out::Ret(some(rty, ok(r, v)))));
                    let (s, o) = self.fails(e, st, r, "a task");
                    if let Out::Ret(v) = o {
                        out.push((s, Out::Ret(some(rty, v))));
                    }
                }
            }
            "join-all" => {
                let mut s = st.clone();
                s.set(JOINED, 1);
                let v = e.fresh(&mut s, "results", rty);
                out.push((s, Out::Ret(v)));
            }
            "next" => return self.next(e, st, f, rty),
            _ => return None,
        }
        Some(out)
    }
    /// The configuration of TLS as the library makes it.
    fn conf(&self, e: &Eng, dty: Ty, v: V) -> V {
        let t = if path(e, dty).ends_with("result::Result") { inner_ty(e, dty) } else { dty };
        let Some(ti) = e.p.types.get(t as usize) else { return v };
        if !ti.path.ends_with("ServerConfig") && !ti.path.ends_with("ClientConfig") {
            return v;
        }
        let Some(k) = ti.variants.first() else { return v };
        let mut made = false;
        let f: Vec<V> = k
            .fields
            .iter()
            .map(|(n, _)| match n.as_str() {
                "alpn_protocols" => list(vec![]),
                _ if !made => {
                    made = true;
                    v
                }
                n => call("default", vec![text::lit(n)], NOTY),
            })
            .collect();
        if made { mk(Val::Adt(t, 0, f.into())) } else { v }
    }
    /// X17: TLS is for IMAP only, and its secrets stay secret.
    fn negotiated(&self, e: &mut Eng, st: &State, conf: V) -> bool {
        let conf = e.freeze(st, conf);
        let mut found = vec![];
        any_sub(conf, &mut |x| {
            if let Val::Adt(t, ..) = &*g(x) {
                let p = path(e, *t);
                if p.ends_with("rustls::ServerConfig") || p.ends_with("rustls::ClientConfig") {
                    found.push(x);
                }
            }
            false
        });
        let [c] = found[..] else {
            e.undecided(st, "X17", "the configuration of TLS is unknown");
            return true;
        };
        let Some((_, f)) = view(&e.p, c) else { return true };
        e.bump("configurations of TLS");
        for (n, v) in &f {
            let same = *v == call("default", vec![text::lit(n)], NOTY);
            match n.as_str() {
                "alpn_protocols" => {
                    let l = items(*v).filter(|l| l.iter().all(|x| x.0 == ONE)).map(|l| l.iter().map(|x| self.plain(e, st, x.1)).collect::<Option<Vec<_>>>());
                    match l {
                        Some(Some(l)) if l == vec![b"imap".to_vec()] => {}
                        Some(Some(_)) => {
                            e.violation(st, "X17", "TLS is not negotiated for the protocol imap alone");
                            return false;
                        }
                        _ => {
                            e.undecided(st, "X17", format!("the protocols that TLS is negotiated for are unknown: {}", show(&e.p, *v)));
                        }
                    }
                }
                "key_log" | "enable_secret_extraction" | "max_early_data_size" | "enable_early_data" if !same && !is_ext(*v, "sconf") && !is_ext(*v, "rustls") => {
                    if is_int(*v) == Some(0) {
                        continue;
                    }
                    e.violation(st, "X17", if n.contains("early") { "data is accepted that can be replayed" } else { "the secrets of TLS sessions can be read" });
                    return false;
                }
                _ => {}
            }
        }
        true
    }
    /// The bytes of a constant.
    fn plain(&self, e: &Eng, st: &State, v: V) -> Option<Vec<u8>> {
        let v = e.deref(st, v);
        match &*g(v) {
            Val::Bytes(b) => Some(b.clone()),
            Val::List(l) => {
                let mut out = vec![];
                for x in l.iter() {
                    match (x.0, &*g(x.1)) {
                        (ONE, Val::Int(i)) => out.push(*i as u8),
                        (ONE, Val::Bytes(b)) => out.extend(b.iter()),
                        _ => return None,
                    }
                }
                Some(out)
            }
            Val::App { op: Op::Call(n), args, .. } if n.contains("to_vec") || n.contains("to_owned") => self.plain(e, st, *args.first()?),
            _ => match text::parts(e, st, v)[..] {
                [x] if x != v => self.plain(e, st, x),
                _ => None,
            },
        }
    }
    /// X15: the server is who it is supposed to be.
    fn verified(&self, e: &mut Eng, st: &State, conf: V, name: V) -> Vec<State> {
        let mut out = vec![];
        for (s, n, v) in self.sides(e, st, "connect") {
            if n != "Tls" {
                e.violation(&s, "X04", "TLS is used with a server although the service does not say so");
                continue;
            }
            let h = vfield(e, &s, v, NOTY, &n, "host").unwrap_or(top());
            let sn = find_ext(name, "servername");
            match sn[..] {
                [x] => {
                    let x = ext_args(x, "servername").unwrap()[0];
                    if text::parts(e, &s, x) != text::parts(e, &s, h) {
                        self.wrong(e, &s, "X15", format!("the server's certificate is verified for another name than the configured host ({})", show(&e.p, x)), &[x]);
                        continue;
                    }
                }
                _ => {
                    e.violation(&s, "X15", "the server's certificate is not verified for the configured host");
                    continue;
                }
            }
            let mut calls = BTreeSet::new();
            let mut roots = vec![];
            for x in find_ext(conf, "rustls") {
                let f = ext_args(x, "rustls").unwrap();
                let m = bytes(f[0]).unwrap_or_default();
                if m == "with_root_certificates" {
                    roots.push(f[2]);
                }
                calls.insert(m);
            }
            if calls.iter().any(|c| c.contains("dangerous") || c.contains("custom_certificate_verifier")) {
                e.violation(&s, "X15", "the server's certificate is not verified as usual");
                continue;
            }
            let [r] = roots[..] else {
                e.undecided(&s, "X15", "it is unknown how the server's certificate is verified");
                continue;
            };
            // the system's certificates, and nothing else
            let of = |x: V| {
                let mut ok = None;
                any_sub(x, &mut |x| {
                    if let Val::Sym { class, .. } = &*g(x) {
                        if let Some(n) = nm_s(*class).strip_prefix("static:") {
                            if let Some(b) = self.roots.borrow().get(n) {
                                ok = *b;
                            }
                        }
                    }
                    false
                });
                ok
            };
            let ok = match ext_args(r, "roots") {
                None => of(r),
                Some(f) => {
                    let native: Vec<bool> = f.iter().map(|x| any_sub(*x, &mut |x| call_parts(x, "native").is_some())).collect();
                    let stat: Vec<Option<bool>> = f.iter().map(|x| of(*x)).collect();
                    let other = (0..f.len()).find(|i| !native[*i] && stat[*i].is_none());
                    if let Some(i) = other {
                        self.wrong(e, &s, "X15", format!("the certificates that are trusted are not those of the system ({})", show(&e.p, f[i])), &[f[i]]);
                        continue;
                    }
                    if stat.contains(&Some(true)) || native.contains(&true) { Some(!stat.contains(&Some(false))) } else { Some(false) }
                }
            };
            match ok {
                Some(true) => out.push(s),
                Some(false) => e.violation(&s, "X15", "the certificates that are trusted are not those of the system"),
                None => e.undecided(&s, "X15", format!("it is unknown which certificates are trusted: {}", show(&e.p, r))),
            }
        }
        out
    }
    /// `stream.next(machine)`
    fn next(&self, e: &mut Eng, st: &State, f: &[V], rty: Ty) -> Option<Res> {
        let (stream, machine) = (e.deref(st, f[0]), e.deref(st, f[1]));
        let server = is_ext(machine, "server");
        if !server && !is_ext(machine, "client") {
            e.undecided(st, "X04", "the state of a connection is unknown");
            return Some(vec![]);
        }
        let mut s = st.clone();
        if !self.settle(e, &mut s, false) {
            return Some(vec![]);
        }
        s.set(POLL, st.m(POLL) | if server { 2 } else { 1 });
        // the stream belongs to this side and is encrypted as configured
        let tcp = find_ext(stream, "tcp");
        let [t] = tcp[..] else {
            e.undecided(&s, "X04", "a stream is not over one connection");
            return Some(vec![]);
        };
        let want = if server { "accepted" } else { "connected" };
        if bytes(ext_args(t, "tcp").unwrap()[0]).as_deref() != Some(want) {
            e.violation(&s, "X04", "the connections to the client and to the server are mixed up");
            return Some(vec![]);
        }
        let tls = ext_args(stream, "stream").and_then(|f| bytes(f[0])).as_deref() == Some("tls");
        let conn = find_ext(stream, "tlsconn");
        if tls != (conn.len() == 1) {
            e.undecided(&s, "X04", "a stream is made of something unexpected");
            return Some(vec![]);
        }
        let side = if server { "bind" } else { "connect" };
        let who = if server { "clients" } else { "the server" };
        let mut out = vec![];
        for (s, n, _) in self.sides(e, &s, side) {
            if (n == "Tls") != tls {
                e.violation(&s, "X04", if tls { format!("TLS is used with {who} although the service does not say so") } else { format!("TLS is not used with {who} although the service says so") });
                continue;
            }
            let other = self.svc(e, &s, if server { "connect" } else { "bind" }).map(|v| names(e, &s, v) == vec!["Insecure".to_string()]).unwrap_or(false);
            self.caps.set(self.lens[(tls || !other) as usize]);
            e.bump(&format!("{} with {}", if tls { "TLS" } else { "no TLS" }, who));
            out.push((s.clone(), Out::Cancel));
            let (evt, ert) = (targ(e, rty, 0), targ(e, rty, 1));
            let n = e.p.types.get(evt as usize).map(|t| t.variants.len()).unwrap_or(0);
            for i in 0..n {
                let name = e.p.types[evt as usize].variants[i].name.clone();
                for (s, v) in self.gen_variant(e, &s, evt, i as u32, 0) {
                    out.push(self.event(e, s, ok(rty, v), server, &name));
                }
            }
            let errs = e.p.types.get(ert as usize).cloned().unwrap_or_default();
            for (i, v) in errs.variants.iter().enumerate() {
                let inner = v.fields.first().map(|f| f.1).unwrap_or(NOTY);
                let it = e.p.types.get(inner as usize).cloned().unwrap_or_default();
                if v.name == "State" && it.is_enum {
                    for j in 0..it.variants.len() {
                        for (s, x) in self.gen_variant(e, &s, inner, j as u32, 0) {
                            let x = err(rty, mk(Val::Adt(ert, i as u32, vec![x].into())));
                            let mut r = self.event(e, s, x, server, "State");
                            if !server && r.0.m(SRV) == 0 {
                                r.0.set(END, 1);
                            }
                            out.push(r);
                        }
                    }
                } else {
                    for (s, x) in self.gen_variant(e, &s, ert, i as u32, 0) {
                        let mut r = self.event(e, s, err(rty, x), server, &v.name);
                        r.0.set(END, 1);
                        out.push(r);
                    }
                }
            }
        }
        Some(out)
    }
    fn event(&self, e: &mut Eng, s: State, v: V, server: bool, name: &str) -> (State, Out) {
        let mut s = s;
        e.bump(&format!("event {} {name}", if server { "client" } else { "server" }));
        s.note(format!("{name} from the {}", if server { "client" } else { "server" }));
        s.mon[EV] = tup(vec![text::lit(name), int(server as i128), v, int(s.m(SRV))]);
        s.mon[OPS] = tup(vec![]);
        if !server && s.m(SRV) == 0 && name != "GreetingReceived" {
            s.set(END, 1);
        }
        (s, Out::Ret(v))
    }
    /// What was done about the last event? False ends the path.
    fn settle(&self, e: &mut Eng, s: &mut State, end: bool) -> bool {
        let ev = seq(s.mon[EV]);
        let ops: Vec<(String, bool, Vec<V>)> = seq(s.mon[OPS]).iter().map(|o| seq(*o)).map(|o| (bytes(o[0]).unwrap_or_default(), is_int(o[1]) == Some(1), o[2..].to_vec())).collect();
        s.mon[EV] = int(0);
        s.mon[OPS] = tup(vec![]);
        let prop = |server: bool| if server { "X14" } else { "X01" };
        // no capability gets to the client that the proxy cannot stand for
        for (n, server, args) in &ops {
            if !*server {
                continue;
            }
            for a in args {
                let mut lists = vec![];
                any_sub(*a, &mut |x| {
                    if is_caps(e, vty(x)) {
                        lists.push(x);
                    }
                    false
                });
                for l in lists {
                    let Some(l) = caps_of(l) else {
                        if std::env::var("DBGP").is_ok() {
                            eprintln!("{n}: {}", show(&e.p, *a));
                        }
                        e.undecided(s, "X02", format!("{n}: unknown capabilities are sent to the client"));
                        return false;
                    };
                    for c in &l {
                        e.bump("capabilities to the client");
                        if allowed(e, s, *c) != Some(true) {
                            if std::env::var("DBGP").is_ok() {
                                eprintln!("{n}: {} {:?} {} taint {}", show(&e.p, *a), names(e, s, *c), show(&e.p, *c), s.taint);
                            }
                            self.wrong(e, s, "X02", format!("{n}: a capability gets to the client that the proxy does not support"), &[*c]);
                            return false;
                        }
                    }
                    if l.is_empty() {
                        if std::env::var("DBGP").is_ok() {
                            eprintln!("{n}: {}", show(&e.p, *a));
                        }
                        e.violation(s, "X03", format!("{n}: an empty list of capabilities is sent to the client"));
                        return false;
                    }
                }
            }
        }
        if ev.is_empty() {
            for (n, server, _) in &ops {
                e.violation(s, prop(*server), format!("{n} without an event"));
                return false;
            }
            return true;
        }
        let (name, from_client, v, srv) = (bytes(ev[0]).unwrap_or_default(), is_int(ev[1]) == Some(1), ev[2], is_int(ev[3]) == Some(1));
        e.bump("events settled");
        let dir = prop(!from_client);
        let Some((rv, rf)) = view(&e.p, v) else { return false };
        if rv == "Err" {
            if let Some(o) = ops.first() {
                e.violation(s, prop(o.1), format!("{} after an error", o.0));
                return false;
            }
            if name != "State" && !end {
                e.violation(s, "X05", format!("the session goes on although the connection to the {} is lost ({name})", if from_client { "client" } else { "server" }));
                return false;
            }
            return true;
        }
        if s.m(END) == 2 && !end {
            let op = ops.iter().map(|o| o.0.as_str()).collect::<Vec<_>>().join(", ");
            e.violation(s, "X05", format!("{name}: the session goes on although what was received was not passed on: {op} was refused"));
            return false;
        }
        let fs = view(&e.p, rf["0"]).map(|x| x.1).unwrap_or_default();
        // what is to be done: the operation and what it is given
        let want: Option<(&str, Option<&str>)> = match name.as_str() {
            "CommandReceived" => Some(("enqueue_command", Some("command"))),
            "CommandAuthenticateReceived" => Some(("enqueue_command", None)),
            "IdleCommandReceived" => Some(("enqueue_command", None)),
            "AuthenticateDataReceived" => Some(("set_authenticate_data", Some("authenticate_data"))),
            "IdleDoneReceived" => Some(("set_idle_done", None)),
            "GreetingReceived" if !srv => Some(("greeting", Some("greeting"))),
            "AuthenticateContinuationRequestReceived" => Some(("authenticate_continue", Some("continuation_request"))),
            "AuthenticateStatusReceived" => Some(("authenticate_finish", Some("status"))),
            "DataReceived" => Some(("enqueue_data", Some("data"))),
            "StatusReceived" => Some(("enqueue_status", Some("status"))),
            "ContinuationRequestReceived" => Some(("enqueue_continuation_request", Some("continuation_request"))),
            "IdleAccepted" => Some(("idle_accept", Some("continuation_request"))),
            "IdleRejected" => Some(("idle_reject", Some("status"))),
            "CommandRejected" => Some(("enqueue_status", None)),
            "GreetingReceived" | "GreetingSent" | "ResponseSent" | "CommandSent" | "AuthenticateStarted" | "IdleCommandSent" | "IdleDoneSent" => None,
            x => {
                e.undecided(s, dir, format!("{x}: unknown event"));
                return true;
            }
        };
        // before the greeting, the session is given up for anything else
        if !srv && !from_client && name != "GreetingReceived" {
            if let Some(o) = ops.first() {
                e.violation(s, prop(o.1), format!("{} before the greeting", o.0));
                return false;
            }
            return true;
        }
        let dir = if name == "CommandRejected" { "X06" } else { dir };
        let Some((op, field)) = want else {
            if let Some(o) = ops.first() {
                e.violation(s, dir, format!("{name}: {} although there is nothing to be done", o.0));
                return false;
            }
            return true;
        };
        // the server's side gets what comes from the client and vice versa
        if ops.len() != 1 {
            let m = match ops.len() {
                0 => format!("{name} is not passed on"),
                _ => format!("{name} is passed on more than once"),
            };
            e.violation(s, dir, m);
            return false;
        }
        let (n, server, args) = &ops[0];
        if n != op || *server == from_client {
            e.violation(s, dir, format!("{name} is passed on with {n}"));
            return false;
        }
        e.bump(&format!("passed on: {name}"));
        let mut caps = vec![];
        let good = match name.as_str() {
            "IdleDoneReceived" => true,
            "IdleCommandReceived" => match view(&e.p, args[0]) {
                Some((_, c)) => c.get("tag").map(|t| self.same(e, s, fs["tag"], *t, NOTY, &mut caps)).unwrap_or(false) && c.get("body").map(|b| names(e, s, *b) == vec!["Idle".to_string()]).unwrap_or(false),
                None => false,
            },
            "CommandAuthenticateReceived" => {
                let ca = fs["command_authenticate"];
                match &*g(args[0]) {
                    // the library's conversion
                    Val::App { op: Op::Call(n), args: x, .. } if (n.ends_with("::into") || n.ends_with("::from")) && x.len() == 1 => x[0] == ca,
                    _ => (|| {
                        let (_, c) = view(&e.p, args[0])?;
                        let (b, bf) = view(&e.p, *c.get("body")?)?;
                        let mut q = true;
                        for (x, k) in [(*c.get("tag")?, "tag"), (*bf.get("mechanism")?, "mechanism"), (*bf.get("initial_response")?, "initial_response")] {
                            let y = vfield(e, s, ca, NOTY, "CommandAuthenticate", k)?;
                            q = q && self.same(e, s, y, x, NOTY, &mut caps);
                        }
                        Some(q && b == "Authenticate")
                    })()
                    .unwrap_or(false),
                }
            }
            "CommandRejected" => {
                let m = self.rejected(e, s, &fs, args[0]);
                if let Some(m) = &m {
                    self.wrong(e, s, "X06", m.clone(), &[args[0]]);
                }
                return m.is_none();
            }
            _ => self.same(e, s, fs[field.unwrap()], args[0], NOTY, &mut caps),
        };
        if !good {
            let args = args.clone();
            self.wrong(e, s, dir, format!("{name}: something else is passed on than what was received"), &args);
            return false;
        }
        for (x, y) in caps {
            let (Some(x), Some(y)) = (caps_of(x), caps_of(y)) else {
                e.undecided(s, "X03", format!("{name}: unknown capabilities are sent to the client"));
                return false;
            };
            e.bump("capability lists compared");
            let keep: Vec<V> = x.iter().copied().filter(|c| allowed(e, s, *c) == Some(true)).collect();
            let lost = x.iter().any(|c| allowed(e, s, *c).is_none() && !y.contains(c));
            let fine = if keep.is_empty() { y.len() == 1 && names(e, s, y[0]) == vec!["Imap4Rev1".to_string()] } else { y == keep };
            if lost || !fine {
                self.wrong(e, s, "X03", format!("{name}: the supported capabilities do not get to the client as they are"), &y);
                return false;
            }
        }
        true
    }
    /// X06: the response to a command that the server rejected.
    fn rejected(&self, e: &Eng, s: &State, fs: &BTreeMap<String, V>, out: V) -> Option<String> {
        let mut c = vec![];
        let Some((n, f)) = view(&e.p, out) else { return Some("the response to a rejected command is unknown".into()) };
        if n != "Tagged" {
            return Some("the response to a rejected command is not tagged".into());
        }
        let Some((_, t)) = f.get("0").and_then(|t| view(&e.p, *t)) else { return Some("the response to a rejected command is unknown".into()) };
        let Some(want) = vfield(e, s, fs["command"], NOTY, "Command", "tag") else { return Some("the response to a rejected command is unknown".into()) };
        if !self.same(e, s, want, t["tag"], NOTY, &mut c) {
            return Some("the response to a rejected command has another tag".into());
        }
        let Some((_, b)) = view(&e.p, t["body"]) else { return Some("the response to a rejected command is unknown".into()) };
        if names(e, s, b["kind"]) != vec!["Bad".to_string()] {
            return Some("the response to a rejected command is not BAD".into());
        }
        // what the server said
        let (sn, sf) = view(&e.p, fs["status"])?;
        let body = if sn == "Tagged" { view(&e.p, view(&e.p, sf["0"])?.1["body"])?.1 } else { view(&e.p, sf["0"])?.1 };
        let code = |v: V| -> Option<V> {
            match view(&e.p, v) {
                Some((n, f)) if n == "Some" => Some(e.deref(s, f["0"])),
                _ => None,
            }
        };
        let alert = |v: Option<V>| v.map(|c| names(e, s, c)).unwrap_or_default();
        let (x, y) = (alert(code(body["code"])), alert(code(b["code"])));
        if x.iter().any(|k| k == "Alert") {
            if y != vec!["Alert".to_string()] {
                return Some("an alert about a rejected command gets lost".into());
            }
            if x.len() == 1 && !self.same(e, s, body["text"], b["text"], NOTY, &mut c) {
                return Some("the text of an alert about a rejected command gets lost".into());
            }
        }
        if !x.iter().any(|k| k == "Alert") && y.iter().any(|k| k == "Alert") {
            return Some("the response to a rejected command is an alert without need".into());
        }
        None
    }
    /// X10: what the task that accepts clients waits for.
    fn may_wait(&self, e: &mut Eng, st: &State, kinds: &BTreeSet<String>) -> bool {
        if st.m(ROLE) != 1 {
            return true;
        }
        if st.m(ACC) == 1 {
            e.violation(st, "X10", "a client that was accepted is not served");
            return false;
        }
        if kinds.iter().any(|k| matches!(k.as_str(), "accept" | "bind" | "sleep")) {
            return true;
        }
        e.violation(st, "X10", format!("no client is accepted while it waits for {}", kinds.iter().cloned().collect::<Vec<_>>().join(", ")));
        false
    }
    fn spawn(&self, e: &mut Eng, st: &State, fut: V) -> State {
        let mut s = st.clone();
        let f = e.freeze(st, fut);
        let mut c = State::new(NMON);
        c.mem = vec![f];
        c.facts = st.facts.clone();
        c.fresh = st.fresh;
        c.trace = st.trace.clone();
        c.taint = st.taint;
        c.wide = st.wide;
        for i in [EV, OPS, STARTED, LOADED, FILES] {
            c.mon[i] = tup(vec![]);
        }
        match st.m(ROLE) {
            0 => {
                let mut svcs = vec![];
                any_sub(f, &mut |x| {
                    if matches!(&*g(x), Val::Sym { class, .. } if nm_s(*class).starts_with("svc")) && !svcs.contains(&x) {
                        svcs.push(x);
                    }
                    false
                });
                if svcs.len() != 1 {
                    e.undecided(st, "X13", "a task is started for no single service");
                    return s;
                }
                c.set(ROLE, 1);
                // all services are alike
                let x = fixed("svc", vty(svcs[0]));
                c.mon[SVC] = svcs[0];
                e.subst(&mut c, svcs[0], x);
                let mut l = seq(s.mon[STARTED]);
                l.push(svcs[0]);
                s.mon[STARTED] = tup(l);
                e.bump("services started");
            }
            1 if has(f, "tcp") => {
                c.set(ROLE, 2);
                c.mon[SVC] = st.mon[SVC];
                s.set(ACC, 0);
                e.bump("sessions started");
            }
            _ => {
                e.undecided(st, "X10", "a task is started for something else than a client");
                return s;
            }
        }
        e.canon(&mut c);
        self.spawned.borrow_mut().push(c);
        s
    }
    /// The certificates or keys in a file.
    fn pem(&self, e: &mut Eng, st: &State, rd: V, kind: &str, item: &str, dty: Ty) -> Option<Res> {
        let _ = dty;
        let p = e.p.clone();
        let fs = find_ext(e.freeze(st, rd), "file");
        let [file] = fs[..] else {
            e.undecided(st, "X08", "certificates or keys are not read from a file");
            return Some(vec![]);
        };
        let name = ext_args(file, "file").unwrap()[0];
        let rt = p.types.iter().position(|t| t.path.ends_with("result::Result") && t.args.first().map(|a| path(e, *a).ends_with(item)).unwrap_or(false) && t.args.get(1).map(|a| path(e, *a).ends_with("io::Error")).unwrap_or(false))? as Ty;
        let et = targ(e, rt, 1);
        let it = targ(e, rt, 0);
        let mut out = vec![];
        for shape in ["", "o", "oo", "e", "oe"] {
            let mut s = st.clone();
            let mut l = vec![];
            let mut oks = vec![];
            for (i, c) in shape.chars().enumerate() {
                if c == 'o' {
                    let v = call(kind, vec![name, num(i as i128)], it);
                    oks.push(v);
                    l.push((ONE, ok(rt, v)));
                } else {
                    let x = e.fresh(&mut s, "ioerr", et);
                    s.set(END, 1);
                    l.push((ONE, err(rt, x)));
                }
            }
            let mut m = seq(s.mon[FILES]);
            m.retain(|x| seq(*x)[0] != text::lit(kind));
            m.push(tup(vec![text::lit(kind), name, tup(oks.clone()), int(shape.contains('e') as i128)]));
            s.mon[FILES] = tup(m);
            // no identity can be made of this
            if kind == "cert" && oks.is_empty() || kind == "key" && oks.len() != 1 {
                s.set(END, 1);
            }
            s.note(format!("the file has {} of kind {kind}{}", shape.matches('o').count(), if shape.contains('e') { " and something unreadable" } else { "" }));
            out.push((s, Out::Ret(list(l))));
        }
        Some(out)
    }
    /// X08: the identity that clients are shown.
    fn identity(&self, e: &mut Eng, st: &State, chain: V, key: V) -> Vec<State> {
        let mut out = vec![];
        for (s, n, v) in self.sides(e, st, "bind") {
            if n != "Tls" {
                e.violation(&s, "X04", "TLS is used with clients although the service does not say so");
                continue;
            }
            let id = vfield(e, &s, v, NOTY, &n, "identity").unwrap_or(top());
            let f = |k: &str| vfield(e, &s, id, NOTY, "CertificateChainAndLeafKey", k).unwrap_or(top());
            let (cp, kp) = (f("certificate_chain_path"), f("leaf_key_path"));
            let files = seq(s.mon[FILES]);
            let get = |k: &str| files.iter().map(|x| seq(*x)).find(|x| x[0] == text::lit(k));
            let of = |v: V, k: &str| {
                let mut r = vec![];
                any_sub(v, &mut |x| {
                    if call_parts(x, k).is_some() && !r.contains(&x) {
                        r.push(x);
                    }
                    false
                });
                r
            };
            let (Some(c), Some(k)) = (get("cert"), get("key")) else {
                e.undecided(&s, "X08", "it is unknown where the certificates and the key come from");
                continue;
            };
            let cl = match items(chain) {
                Some(l) if l.iter().all(|x| x.0 == ONE) => l.iter().map(|x| of(x.1, "cert")).collect::<Vec<_>>(),
                _ => {
                    e.undecided(&s, "X08", format!("the certificate chain is unknown: {}", show(&e.p, chain)));
                    continue;
                }
            };
            if text::parts(e, &s, c[1]) != text::parts(e, &s, cp) || text::parts(e, &s, k[1]) != text::parts(e, &s, kp) {
                self.wrong(e, &s, "X08", "the identity is not read from the configured files", &[c[1], k[1]]);
                continue;
            }
            if cl.iter().any(|x| x.len() != 1) || cl.iter().map(|x| x[0]).collect::<Vec<_>>() != seq(c[2]) || is_int(c[3]) != Some(0) {
                self.wrong(e, &s, "X08", "the chain is not made of all certificates in the file", &[chain]);
                continue;
            }
            let ks = of(key, "key");
            if seq(k[2]).len() != 1 || is_int(k[3]) != Some(0) {
                e.violation(&s, "X08", "a key is used although there is not exactly one in the file");
                continue;
            }
            if ks != seq(k[2]) {
                self.wrong(e, &s, "X08", "another key is used than the one in the file", &[key]);
                continue;
            }
            e.bump("identities");
            out.push(s);
        }
        out
    }
}

impl Env for PEnv {
    fn hang(&self) -> Option<&'static str> {
        Some("X09")
    }
    fn tracked(&self, v: V) -> bool {
        match &*g(v) {
            Val::Ext(k, _) => matches!(nm_s(*k).as_str(), "client" | "server" | "stream" | "tcp" | "tlsconn" | "listener" | "joinset" | "roots"),
            _ => false,
        }
    }
    fn call(&self, e: &mut Eng, st: &State, c: &Callee, a: &[V], dty: Ty, sp: u32) -> Option<Res> {
        let n = &c.name;
        let m = n.m.as_str();
        let rp = c.rpath.as_str();
        let mut s = st.clone();
        let leaf = |s: State, k: &str, f: Vec<V>| Some(ret(s, ext(&format!("leaf:{k}"), f)));
        // --- futures
        if let Some(k) = ["__select", "__join", "__try_join"].iter().position(|k| m.starts_with(k)) {
            let f = if k == 0 { &a[1..] } else { a };
            return Some(ret(s, ext(["race:select", "race:join", "race:try_join"][k], f.to_vec())));
        }
        if m == "__cond" && a.len() == 2 {
            return Some(ret(s, ext("cond", a.to_vec())));
        }
        if (m == "poll" || m == "{closure#0}") && !a.is_empty() {
            let f = e.deref(st, a[0]);
            if let Val::Ext(k, _) = &*g(f) {
                let k = nm_s(*k);
                let rty = *e.p.types.get(dty as usize)?.args.first()?;
                let outer = self.racing.get() == 0;
                if outer {
                    let waits = k == "leaf:next" || has(f, "leaf:next");
                    if waits && !self.settle(e, &mut s, false) {
                        return Some(vec![]);
                    }
                    s.set(POLL, 0);
                    if st.m(ROLE) != 0 && matches!(&*g(a[0]), Val::Ref(..)) {
                        e.canon(&mut s);
                        if !self.waits.borrow_mut().insert((s.fp(), e.sites.clone())) {
                            return Some(vec![]);
                        }
                    }
                    self.kinds.borrow_mut().clear();
                }
                let f = e.deref(&s, a[0]);
                let s0 = s.clone();
                let r = self.run_future(e, &s, f, rty, sp)?;
                if outer {
                    let kinds = self.kinds.borrow().clone();
                    if !self.may_wait(e, &s0, &kinds) {
                        return Some(vec![]);
                    }
                    for (s, o) in &r {
                        if *o == Out::Cancel && s.m(ROLE) == 2 && s.m(SRV) == 1 && s.m(END) == 0 && s.m(POLL) & 3 != 3 {
                            e.violation(s, "X16", format!("the session waits without listening to {}", ["anyone", "the client", "the server"][(s.m(POLL) & 3) as usize]));
                        }
                    }
                }
                return Some(
                    r.into_iter()
                        .map(|(s, o)| {
                            (s, match o {
                                Out::Ret(v) => Out::Ret(mk(Val::Adt(dty, 0, vec![v].into()))),
                                o => o,
                            })
                        })
                        .collect(),
                );
            }
            if opaque(f) {
                s.taint = true;
                s.note(format!("an unknown future is awaited ({})", show(&e.p, f)));
                *e.unknown.entry(format!("await {rp}")).or_insert(0) += 1;
                let rty = *e.p.types.get(dty as usize)?.args.first()?;
                let v = e.fresh(&mut s, "awaited", rty);
                return Some(ret(s, mk(Val::Adt(dty, 0, vec![v].into()))));
            }
        }
        if matches!(m, "in_current_span" | "instrument" | "or_current" | "with_current_subscriber" | "with_subscriber") && !a.is_empty() {
            return Some(ret(s, a[0]));
        }
        if rp.contains("tokio::time") {
            match m {
                "sleep" | "sleep_until" => return leaf(s, "sleep", vec![]),
                "timeout" | "timeout_at" => return Some(ret(s, ext("timeout", vec![a[1]]))),
                _ => {}
            }
        }
        // --- tasks
        if rp.contains("runtime::Builder") && m == "build" {
            let v = e.fresh(&mut s, "runtime", inner_ty(e, dty));
            return Some(ret(s, ok(dty, v)));
        }
        if m == "block_on" {
            let f = *a.last()?;
            return self.run_future(e, st, f, dty, sp);
        }
        if n.ty == "JoinSet" {
            match m {
                "new" | "default" => return Some(ret(s, ext("joinset", vec![]))),
                "spawn" | "spawn_on" => {
                    let s = self.spawn(e, st, a[1]);
                    return Some(ret(s, ext("handle", vec![])));
                }
                "join_next" => return leaf(s, "join-next", vec![]),
                "join_all" => return leaf(s, "join-all", vec![]),
                "is_empty" | "len" => {
                    let l = seq(s.mon[STARTED]).len();
                    let v = if l == 0 { int((m == "is_empty") as i128) } else { e.fresh(&mut s, "tasks", dty) };
                    return Some(ret(s, v));
                }
                "detach_all" | "abort_all" | "shutdown" => {
                    e.undecided(st, "X13", "tasks are not waited for");
                    return Some(vec![]);
                }
                _ => {}
            }
        }
        if m == "spawn" && rp.starts_with("tokio::") && a.len() == 1 {
            let s = self.spawn(e, st, a[0]);
            return Some(ret(s, ext("handle", vec![])));
        }
        // --- sockets
        if n.ty == "TcpListener" && m == "bind" {
            let v = e.freeze(st, a[0]);
            return leaf(s, "bind", vec![v]);
        }
        if n.ty == "TcpStream" && m == "connect" {
            let v = e.freeze(st, a[0]);
            return leaf(s, "connect", vec![v]);
        }
        if n.tr == "From" && m == "from" && n.ty == "TlsAcceptor" {
            let v = e.freeze(st, a[0]);
            return Some(ret(s, ext("acceptor", vec![v])));
        }
        if n.tr == "From" && m == "from" && n.ty == "TlsConnector" {
            let v = e.freeze(st, a[0]);
            return Some(ret(s, ext("connector", vec![v])));
        }
        if !a.is_empty() {
            let r0 = e.deref(st, a[0]);
            if let Val::Ext(k, f) = &*g(r0) {
                let k = nm_s(*k);
                let tail = |e: &Eng| a[1..].iter().map(|x| e.freeze(st, *x)).collect::<Vec<_>>();
                match (k.as_str(), m) {
                    ("tcp", "readable" | "writable" | "ready" | "peek") => return leaf(s, "readiness of a client", vec![]),
                    ("listener", "accept") => return leaf(s, "accept", vec![]),
                    ("listener" | "tcp", "local_addr" | "peer_addr" | "set_nodelay" | "nodelay" | "set_ttl" | "ttl" | "set_linger") => {
                        let t = inner_ty(e, dty);
                        let v = if t != NOTY && e.p.types[t as usize].s == "()" { unit() } else { e.fresh(&mut s, "sockopt", t) };
                        let mut b = self.fails(e, st, dty, m);
                        b.0.set(END, st.m(END));
                        if st.m(ROLE) == 2 {
                            b.0.set(END, 1);
                        }
                        return Some(vec![(s, Out::Ret(ok(dty, v))), b]);
                    }
                    ("acceptor", "accept") => {
                        let mut v = vec![f[0]];
                        v.extend(tail(e));
                        return leaf(s, "tls-accept", v);
                    }
                    ("connector", "connect") => {
                        let mut v = vec![f[0]];
                        v.extend(tail(e));
                        return leaf(s, "tls-connect", v);
                    }
                    ("stream", "next") => return leaf(s, "next", vec![a[0], a[1]]),
                    ("stream", "flush") => return leaf(s, "flush", vec![a[0]]),
                    ("client" | "server", _) if ["enqueue_", "set_", "authenticate_", "idle_"].iter().any(|p| m.starts_with(p)) => {
                        let server = k == "server";
                        let mut o = vec![text::lit(m), int(server as i128)];
                        o.extend(tail(e));
                        let arg = o.get(2).copied().unwrap_or(unit());
                        let mut l = seq(s.mon[OPS]);
                        l.push(tup(o));
                        if l.len() > 4 {
                            e.undecided(st, if server { "X14" } else { "X01" }, "many operations at once");
                            return Some(vec![]);
                        }
                        s.mon[OPS] = tup(l);
                        s.note(format!("{m} on the side of the {}", if server { "client" } else { "server" }));
                        e.bump("operations");
                        let pt = path(e, dty);
                        if pt.ends_with("result::Result") {
                            let h = e.fresh(&mut s, "handle", inner_ty(e, dty));
                            let mut b = s.clone();
                            b.set(END, 2);
                            b.note("it is refused");
                            return Some(vec![(s, Out::Ret(ok(dty, h))), (b, Out::Ret(err(dty, arg)))]);
                        }
                        if pt.ends_with("option::Option") {
                            let h = e.fresh(&mut s, "handle", inner_ty(e, dty));
                            return Some(vec![(s.clone(), Out::Ret(some(dty, h))), (s, Out::Ret(none(dty)))]);
                        }
                        let h = e.fresh(&mut s, "handle", dty);
                        return Some(ret(s, h));
                    }
                    ("roots", "add") => {
                        let mut l = f.to_vec();
                        l.push(e.freeze(st, a[1]));
                        e.store_ref(&mut s, a[0], ext("roots", l));
                        let b = self.fails(e, st, dty, "adding a certificate");
                        return Some(vec![(s, Out::Ret(ok(dty, unit()))), b]);
                    }
                    ("roots", "add_parsable_certificates" | "extend") => {
                        let mut l = f.to_vec();
                        l.push(e.freeze(st, a[1]));
                        e.store_ref(&mut s, a[0], ext("roots", l));
                        let v = if dty != NOTY && e.p.types[dty as usize].s == "()" { unit() } else { e.fresh(&mut s, "added", dty) };
                        return Some(ret(s, v));
                    }
                    _ => {}
                }
            }
        }
        if matches!(m, "add" | "add_parsable_certificates" | "extend") && rp.contains("RootCertStore") && a.len() == 2 {
            let r0 = e.freeze(st, a[0]);
            let v = e.freeze(st, a[1]);
            if e.store_ref(&mut s, a[0], ext("roots", vec![r0, v])) {
                if m == "add" {
                    let b = self.fails(e, st, dty, "adding a certificate");
                    return Some(vec![(s, Out::Ret(ok(dty, unit()))), b]);
                }
                let v = if dty != NOTY && e.p.types[dty as usize].s == "()" { unit() } else { e.fresh(&mut s, "added", dty) };
                return Some(ret(s, v));
            }
        }
        // --- a part of some bytes that may be too short
        if n.tr == "Index" && m == "index" && a.len() == 2 {
            if let Val::Adt(t, _, r) = &*g(a[1]) {
                let rt = e.p.types.get(*t as usize).map(|t| t.path.clone()).unwrap_or_default();
                let k = |i: usize| r.get(i).and_then(|x| is_int(*x));
                let min = match rt.rsplit("::").next().unwrap_or("") {
                    "RangeTo" => k(0),
                    "RangeFrom" => k(0),
                    "Range" => k(1).filter(|_| k(0).is_some()),
                    _ => None,
                };
                let v = e.freeze(st, a[0]);
                let v = e.deref(st, v);
                if let (Some(min), true) = (min.filter(|x| *x > 0), matches!(&*g(v), Val::Sym { .. } | Val::App { .. })) {
                    let l = call("len", vec![v], NOTY);
                    let known = st.facts.keys().any(|x| any_sub(*x, &mut |y| y == v || y == l));
                    let part = call("part", vec![v, a[1]], dty);
                    if known {
                        // only if nothing is known about the length
                        return Some(ret(s, part));
                    }
                    let mut b = s.clone();
                    b.note("there are fewer bytes");
                    return Some(vec![(s, Out::Ret(part)), (b, Out::Panic(format!("a range ends at {min} although there may be fewer bytes at {}", e.p.spans[sp as usize])))]);
                }
            }
        }
        // --- errors of the environment
        if m == "kind" && c.path.contains("io::Error") && a.len() == 1 {
            let v = e.freeze(st, a[0]);
            return Some(ret(s, call("iokind", vec![v], dty)));
        }
        // --- the client and the server
        if m == "new" && rp.contains("client::Client::") && path(e, dty).ends_with("client::Client") {
            return Some(ret(s, ext("client", vec![])));
        }
        if m == "new" && rp.contains("server::Server::") && path(e, dty).ends_with("server::Server") && a.len() == 2 {
            let v = e.freeze(st, a[1]);
            let mut l = seq(s.mon[OPS]);
            l.push(tup(vec![text::lit("greeting"), int(1), v]));
            s.mon[OPS] = tup(l);
            s.set(SRV, 1);
            return Some(ret(s, ext("server", vec![])));
        }
        if rp.contains("imap_next::stream::Stream::") && matches!(m, "insecure" | "tls") && a.len() == 1 {
            let v = e.freeze(st, a[0]);
            return Some(ret(s, ext("stream", vec![text::lit(if m == "tls" { "tls" } else { "plain" }), v])));
        }
        if m.starts_with("set_literal_") && m.ends_with("_text") && rp.contains("Options") {
            // a text that is valid
            let t = text::parts(e, st, a[1]);
            let fine = matches!(&t[..], [x] if matches!(&*g(*x), Val::Bytes(b) if !b.is_empty() && b.iter().all(|c| *c != 0 && *c < 128 && *c != b'\r' && *c != b'\n')));
            if fine {
                return Some(ret(s, ok(dty, unit())));
            }
            let b = err(dty, text::text(t));
            return Some(vec![(s.clone(), Out::Ret(ok(dty, unit()))), (s, Out::Ret(err(dty, b)))]);
        }
        if (n.tr == "TryInto" || n.tr == "TryFrom") && path(e, inner_ty(e, dty)).ends_with("core::Text") {
            let t = text::parts(e, st, a[0]);
            if let [x] = &t[..] {
                if let Val::Bytes(b) = &*g(*x) {
                    if !b.is_empty() && b.iter().all(|c| *c != 0 && *c < 128 && *c != b'\r' && *c != b'\n') {
                        let v = call("text", vec![*x], inner_ty(e, dty));
                        return Some(ret(s, ok(dty, v)));
                    }
                }
            }
        }
        // --- TLS
        if matches!(m, "from" | "into") && path(e, dty).ends_with("tokio_rustls::TlsStream") && a.len() == 1 {
            return Some(ret(s, e.deref(st, a[0])));
        }
        if n.ty == "ServerName" && matches!(m, "try_from") || m == "try_into" && path(e, inner_ty(e, dty)).ends_with("ServerName") {
            let v = e.freeze(st, a[0]);
            let b = self.fails(e, st, dty, "the conversion to a server name");
            return Some(vec![(s, Out::Ret(ok(dty, ext("servername", vec![v])))), b]);
        }
        if rp.contains("RootCertStore::") && m == "empty" {
            return Some(ret(s, ext("roots", vec![])));
        }
        if m == "load_native_certs" {
            let lt = inner_ty(e, dty);
            let ct = targ(e, lt, 0);
            let mut out = vec![];
            for k in 0..3 {
                let l = (0..k).map(|i| (ONE, call("native", vec![num(i)], ct))).collect();
                let mut s = st.clone();
                s.mon[FILES] = num(k);
                out.push((s, Out::Ret(ok(dty, list(l)))));
            }
            out.push(self.fails(e, st, dty, m));
            return Some(out);
        }
        if rp.contains("rustls::") && !rp.contains("rustls_pemfile") && !n.tr.contains("Clone") {
            let t = e.p.types.get(dty as usize).map(|t| t.s.clone()).unwrap_or_default();
            if t.contains("ConfigBuilder") || t.contains("ServerConfig") || t.contains("ClientConfig") || m == "dangerous" {
                let mut f = vec![text::lit(m)];
                f.extend(a.iter().map(|x| e.freeze(st, *x)));
                if m == "with_single_cert" && a.len() == 3 {
                    let mut out = vec![self.fails(e, st, dty, m)];
                    for s in self.identity(e, st, f[2], f[3]) {
                        let v = self.conf(e, dty, ext("sconf", vec![]));
                        out.push((s, Out::Ret(ok(dty, v))));
                    }
                    return Some(out);
                }
                let v = self.conf(e, dty, ext("rustls", f));
                if path(e, dty).ends_with("result::Result") {
                    let b = self.fails(e, st, dty, m);
                    return Some(vec![(s, Out::Ret(ok(dty, v))), b]);
                }
                return Some(ret(s, v));
            }
        }
        // --- files
        if n.ty == "File" && m == "open" || rp.ends_with("fs::read") {
            let v = ext("file", vec![e.freeze(st, a[0])]);
            let b = self.fails(e, st, dty, "opening a file");
            return Some(vec![(s, Out::Ret(ok(dty, v))), b]);
        }
        if n.ty == "BufReader" && matches!(m, "new" | "with_capacity") {
            return Some(ret(s, *a.last()?));
        }
        if rp.contains("rustls_pemfile::") {
            match m {
                "certs" => return self.pem(e, st, a[0], "cert", "CertificateDer", dty),
                "pkcs8_private_keys" => return self.pem(e, st, a[0], "key", "PrivatePkcs8KeyDer", dty),
                _ => {}
            }
        }
        // --- the configuration
        if m == "from_env" && rp.starts_with("argh::") {
            let v = e.fresh(&mut s, "args", dty);
            return Some(ret(s, v));
        }
        if m == "read_to_string" || rp.ends_with("fs::read") {
            let v = e.fresh(&mut s, "file", inner_ty(e, dty));
            let b = self.fails(e, st, dty, m);
            return Some(vec![(s, Out::Ret(ok(dty, v))), b]);
        }
        if path(e, inner_ty(e, dty)).ends_with("config::Config") && rp.contains("toml") && m == "from_str" {
            let ct = inner_ty(e, dty);
            let vs = &e.p.types[ct as usize].variants[0].fields.clone();
            let i = vs.iter().position(|f| f.0 == "services")?;
            let stt = targ(e, vs[i].1, 0);
            let mut out = vec![self.fails(e, st, dty, m)];
            for k in 0..3 {
                let mut s = st.clone();
                let l: Vec<V> = (0..k).map(|i| fixed(["svcA", "svcB"][i], stt)).collect();
                s.mon[LOADED] = tup(l.clone());
                let mut f = vec![top(); vs.len()];
                for (j, x) in vs.iter().enumerate() {
                    f[j] = if i == j { list(l.iter().map(|x| (ONE, *x)).collect()) } else { e.fresh(&mut s, "setting", x.1) };
                }
                s.note(format!("{k} services are configured"));
                out.push((s, Out::Ret(ok(dty, mk(Val::Adt(ct, 0, f.into()))))));
            }
            return Some(out);
        }
        if rp.starts_with("anyhow::") && matches!(m, "context" | "with_context") {
            let v = e.deref(st, a[0]);
            let mut out = vec![];
            for (mut s, i) in e.variants(st, v, NOTY) {
                let x = e.field(&s, v, i, 0);
                if i == 0 {
                    out.push((s, Out::Ret(ok(dty, x))));
                } else {
                    let x = e.fresh(&mut s, "error", targ(e, dty, 1));
                    out.push((s, Out::Ret(err(dty, x))));
                }
            }
            return Some(out);
        }
        if m == "_print" || m == "_eprint" {
            return Some(ret(s, unit()));
        }
        text::strings(e, st, c, a, dty, sp)
    }
}

/// Which certificates does a static root store hold? (None: unknown)
fn roots(e: &mut Eng, f: u32) -> Option<bool> {
    let mut st = State::new(NMON);
    for i in [EV, OPS, STARTED, LOADED, FILES] {
        st.mon[i] = tup(vec![]);
    }
    let v = mk(Val::Clo(f, Box::new([])));
    let r = e.call_value(st, v, tup(vec![]), NOTY, 0);
    let mut any = false;
    for (s, o) in r {
        if s.taint {
            return None;
        }
        let Out::Ret(v) = o else { continue };
        any = true;
        let f = ext_args(v, "roots")?;
        let k = unnum(s.mon[FILES]);
        let native = |v: V| any_sub(v, &mut |x| call_parts(x, "native").is_some());
        if f.iter().any(|x| !native(*x)) {
            return Some(false);
        }
        // all of them unless some could not be used
        if s.m(END) == 0 {
            let mut all = BTreeSet::new();
            for x in &f {
                any_sub(*x, &mut |y| {
                    if call_parts(y, "native").is_some() {
                        all.insert(y);
                    }
                    false
                });
            }
            if k != Some(all.len() as i128) {
                return Some(false);
            }
        }
    }
    if any { Some(true) } else { None }
}

pub fn run(p: Rc<Prog>, cfg: &Cfg) -> Result<RunOut, String> {
    let env = Rc::new(PEnv {
        spawned: Default::default(),
        racing: Cell::new(0),
        kinds: Default::default(),
        waits: Default::default(),
        roots: Default::default(),
        lens: if cfg.thorough { [3, 2] } else { [2, 1] },
        long: 40,
        caps: Cell::new(2),
    });
    let mut e = Eng::new(p.clone(), env.clone());
    cfg.apply(&mut e);
    e.quiet_traces = true;
    e.max_list = 100;
    // the root certificates
    for (i, f) in p.funcs.iter().enumerate() {
        if let Some(n) = f.path.strip_suffix("::{closure#0}") {
            if f.local && p.types.get(f.body.locals[0] as usize).map(|t| t.path.ends_with("RootCertStore")).unwrap_or(false) {
                let r = roots(&mut e, i as u32);
                env.roots.borrow_mut().insert(n.to_string(), r);
            }
        }
    }
    if let Ok(k) = std::env::var("DBG_FN") {
        let f = *p.by_key.get(&k).ok_or("no such function")?;
        let st = State::new(NMON);
        let n = p.funcs[f as usize].body.argc;
        let s = st.clone();
        let mut cur = vec![(s, vec![])];
        for i in 0..n {
            let mut nx = vec![];
            for (s, a) in cur {
                let t = p.funcs[f as usize].body.locals[i + 1];
                for (mut s, mut v) in env.gen(&mut e, &s, peel(&p, t), "arg", 0) {
                    let mut b: Vec<V> = a.clone();
                    if t != peel(&p, t) {
                        v = mk(Val::Ref(s.push(v), Box::new([])));
                    }
                    b.push(v);
                    nx.push((s, b));
                }
            }
            cur = nx;
        }
        let mut r = vec![];
        for (s, a) in cur {
            r.extend(e.exec(s, f, a));
        }
        for (s, o) in r {
            eprintln!("{} facts {:?}", s.mem.iter().map(|x| show(&p, *x)).collect::<Vec<_>>().join(", "), s.facts.iter().map(|(k, f)| format!("{}:{f:?}", show(&p, *k))).collect::<Vec<_>>());
            match o {
                Out::Ret(v) => eprintln!("-> {} taint {}", show(&p, v), s.taint),
                Out::Panic(w) => eprintln!("panic {w}"),
                Out::Cancel => eprintln!("cancel"),
            }
        }
        return Err("debug".into());
    }
    let f = *p.by_key.get("main").ok_or("no main")?;
    let mut st = State::new(NMON);
    for i in [EV, OPS, STARTED, FILES] {
        st.mon[i] = tup(vec![]);
    }
    let (mut states, mut transitions, mut tainted) = (1u64, 0u64, 0u64);
    let mut seen = HashSet::new();
    for (s, o) in e.exec(st, f, vec![]) {
        transitions += 1;
        if s.taint {
            tainted += 1;
            continue;
        }
        let (want, got) = (seq(s.mon[LOADED]), seq(s.mon[STARTED]));
        match o {
            Out::Ret(v) => {
                e.bump("ends of main");
                if is_int(s.mon[LOADED]).is_some() {
                    if !got.is_empty() {
                        e.violation(&s, "X13", "services are started without a configuration");
                    }
                    if view(&p, v).map(|v| v.0 == "Ok").unwrap_or(false) {
                        e.violation(&s, "X13", "that the configuration cannot be loaded is not reported");
                    }
                    continue;
                }
                let mut sorted = got.clone();
                sorted.sort();
                if got.is_empty() && view(&p, v).map(|v| v.0 == "Err").unwrap_or(false) && !want.is_empty() {
                    e.violation(&s, "X13", "a configured service is not started");
                    continue;
                }
                for w in &want {
                    match got.iter().filter(|x| *x == w).count() {
                        1 => {}
                        0 => e.violation(&s, "X13", "a configured service is not started"),
                        _ => e.violation(&s, "X13", "a service is started more than once"),
                    }
                }
                if !want.is_empty() && s.m(JOINED) == 0 {
                    e.violation(&s, "X13", "the program ends while services are running");
                }
            }
            Out::Panic(w) => e.violation(&s, "X13", format!("the program panics: {w}")),
            Out::Cancel => {
                for w in &want {
                    if got.iter().filter(|x| *x == w).count() != 1 {
                        e.violation(&s, "X13", "the program waits before every configured service is started");
                    }
                }
            }
        }
    }
    loop {
        let Some(s) = env.spawned.borrow_mut().pop() else { break };
        if e.stop() || e.incomplete.is_some() || !seen.insert(s.fp()) {
            continue;
        }
        states += 1;
        let f = s.mem[0];
        let role = s.m(ROLE);
        let Val::Clo(k, _) = &*g(f) else {
            e.undecided(&s, "X10", "an unknown task");
            continue;
        };
        let base = e.sites.len();
        let r = e.exec(s, *k, vec![f, fixed("cx", NOTY)]);
        e.sites.truncate(base);
        for (mut s, o) in r {
            transitions += 1;
            if s.taint {
                tainted += 1;
                if std::env::var("DBGP").is_ok() {
                    let mut t = s.trace.clone();
                    let mut l = vec![];
                    while let Some(x) = t {
                        l.push(x.what.clone());
                        t = x.prev.clone();
                    }
                    eprintln!("TAINT {:?}", l);
                }
                continue;
            }
            match o {
                Out::Panic(w) => {
                    let w = w.rsplit_once(" at ").map(|x| format!("{} at {}", x.0, x.1)).unwrap_or(w);
                    e.violation(&s, "X09", format!("a {} panics: {w}", if role == 1 { "service" } else { "session" }));
                }
                Out::Ret(_) if role == 1 => {
                    e.bump("ends of services");
                    if s.m(BOUND) == 1 {
                        e.violation(&s, "X10", "a service stops accepting clients");
                    }
                }
                Out::Ret(_) => {
                    e.bump("ends of sessions");
                    if env.settle(&mut e, &mut s, true) && s.m(END) == 0 {
                        e.violation(&s, "X05", "a session ends without need");
                    }
                }
                Out::Cancel => e.bump("waits"),
            }
        }
    }
    states += env.waits.borrow().len() as u64;
    let mut floors = vec![];
    let mut floor = |e: &Eng, k: &str, n: u64| {
        if e.stats.get(k).copied().unwrap_or(0) < n {
            floors.push(format!("{k} < {n}"));
        }
    };
    for (k, n) in [("services started", 2), ("clients accepted", 2), ("sessions started", 2), ("ends of sessions", 4), ("operations", 20), ("events settled", 40), ("TLS with clients", 1), ("no TLS with clients", 1), ("TLS with the server", 1), ("no TLS with the server", 1), ("identities", 1), ("configurations of TLS", 2), ("ends of main", 2), ("capability lists compared", 20)] {
        floor(&e, k, n);
    }
    for k in ["CommandReceived", "CommandAuthenticateReceived", "IdleCommandReceived", "AuthenticateDataReceived", "IdleDoneReceived", "GreetingReceived", "AuthenticateContinuationRequestReceived", "AuthenticateStatusReceived", "DataReceived", "StatusReceived", "ContinuationRequestReceived", "IdleAccepted", "IdleRejected", "CommandRejected"] {
        floor(&e, &format!("passed on: {k}"), 1);
    }
    let viol = e.viol.clone();
    let samples = e.notes.iter().map(|(k, v)| format!("{k}: {}", v.iter().cloned().collect::<Vec<_>>().join(", "))).collect();
    Ok(RunOut { viol, states, transitions, tainted, eng: e, floors, samples })
}
