//! Most general user and most general client around `server::Server`.
//!
//! All API call sequences are explored over abstract states until nothing new is found. The queue
//! contains any number of responses enqueued before ("pre") and after ("post") one arbitrary marked
//! response A; the fragments of A contain one arbitrary marked fragment X.
use crate::common::*;
use crate::eng::*;
use crate::ir::*;
use crate::models::*;
use crate::val::*;
const WHO: &str = "Server::new";
use std::collections::BTreeMap;
use std::rc::Rc;

pub const GREET: usize = 0; // 0 queued, 1 sent, 2 reported
pub const AST: usize = 1; // 0 not enqueued, 1 queued, 2 started, 3 reported
pub const XOUT: usize = 2;
pub const MODE: usize = 3; // 0 Command, 1 Auth, 2 IdleAccept, 3 IdleDone
pub const PEND: usize = 4;
pub const OWED: usize = 5;
pub const POSTED: usize = 6;
pub const ANEW: usize = 7; // the kind of A
pub const TEXTS: usize = 8; // keeps what is known about the texts alive
pub const HALF: usize = 9;
pub const NMON: usize = 10;
const MAX_OWED: usize = 2;
const CODECS: [&str; 4] = ["CommandCodec", "AuthenticateDataCodec", "", "IdleDoneCodec"];
const MODES: [&str; 4] = ["waiting for a command", "waiting for authentication data", "waiting for a decision about IDLE", "waiting for DONE"];

pub struct ServerEnv {
    pub frag: Ty,
    pub mode: Ty,
    pub resp: Ty,
    pub handle: Ty,
    pub greeting: Ty,
    pub kinds: [(&'static str, Ty); 3],
}
const N: i128 = 0;
const R: i128 = 3;
const LINE: i128 = 1;
const LIT: i128 = 2;

fn tok(m: V, colour: i128) -> V {
    call("rfrag", vec![m, num(colour), num(LINE)], NOTY)
}
fn lit(m: V, colour: i128) -> V {
    call("rfrag", vec![m, num(colour), num(LIT)], NOTY)
}
fn tok_parts(v: V) -> Option<(V, i128)> {
    let a = call_parts(v, "rfrag")?;
    Some((a[0], unnum(a[1])?))
}
fn tok_mask(v: V) -> i128 {
    call_parts(v, "rfrag").and_then(|a| unnum(a[2])).unwrap_or(0)
}
fn masked(m: V, colour: i128, mask: i128) -> V {
    call("rfrag", vec![m, num(colour), num(mask)], NOTY)
}
fn frags(m: V, ph: i128) -> (u8, V) {
    (LAZY, ext("rfrags", vec![m, num(ph)]))
}
fn tail(m: V, ph: i128) -> (u8, V) {
    (LAZY, ext("rmore", vec![m, num(ph)]))
}
impl ServerEnv {
    fn a(&self, s: &State) -> V {
        fixed("A", self.kinds[s.m(ANEW) as usize].1)
    }
    fn ha(&self) -> V {
        fixed("hA", self.handle)
    }
    /// The content of a response, or the response itself if it is opaque.
    fn content(&self, e: &Eng, m: V) -> V {
        match &*g(m) {
            Val::Adt(t, v, f) if *t == self.resp => {
                let x = e.adt(*t, *v, f.to_vec());
                match &*g(x) {
                    Val::Adt(_, _, f) if f.len() == 1 => f[0],
                    _ => x,
                }
            }
            _ => m,
        }
    }
    fn user(&self, m: V) -> bool {
        matches!(class_of(m).as_str(), "A" | "pre" | "post" | "G")
    }
}

impl Env for ServerEnv {
    fn hang(&self) -> Option<&'static str> {
        Some("G01")
    }
    fn call(&self, e: &mut Eng, st: &State, c: &Callee, a: &[V], dty: Ty, sp: u32) -> Option<Res> {
        if is_decode(c) {
            let mut st = st.clone();
            self.settle(e, &mut st, None);
            let m = st.m(MODE) as usize;
            if m == 2 {
                e.violation(&st, "S04", "a message is decoded before IDLE was accepted or rejected");
            } else if !c.name.ty.contains(CODECS[m]) {
                let p = if m == 1 || c.name.ty.contains("AuthenticateData") { "S03" } else { "S04" };
                e.violation(&st, p, format!("{} is used while {}", c.name.ty, MODES[m]));
            }
            let ((mut s1, d, r1), (mut s2, r2)) = decode_outcomes(e, &st, dty)?;
            s1.mon[PEND] = d;
            s1.note("a message is decoded");
            let er = match &*g(r2) {
                Val::Adt(_, _, f) => f[0],
                _ => return None,
            };
            s2.mon[PEND] = er;
            s2.note("decoding fails or is incomplete");
            return Some(vec![(s1, Out::Ret(r1)), (s2, Out::Ret(r2))]);
        }
        if is_encode(c) {
            let m = e.freeze(st, a[1]);
            let m = self.content(e, m);
            if self.user(m) {
                return Some(ret(st.clone(), list(vec![frags(m, N)])));
            }
            return Some(ret(st.clone(), list(vec![(ONE, frag_line(&e.p, self.frag, tok(m, 8)))])));
        }
        if c.name.ty == "CommandContinuationRequestBasic" && c.name.m == "new" && a.len() == 2 {
            // valid or not: an arbitrary property of the text
            let t = e.freeze(st, a[1]);
            let mut s0 = st.clone();
            let code = e.freeze(st, a[0]);
            if is_class(t, "accept") || is_class(t, "reject") {
                let cond = call("valid", vec![fixed(&class_of(t), NOTY)], e.p.types.iter().position(|t| t.s == "bool").unwrap_or(0) as Ty);
                let mut out = vec![];
                let ti = e.p.types.get(dty as usize)?;
                let (ot, et) = (*ti.args.first()?, *ti.args.get(1)?);
                for (mut s, b) in e.branch(&s0, cond) {
                    if b {
                        let p = e.p.clone();
                        let names = p.types[ot as usize].variants[0].fields.clone();
                        let f = names.iter().map(|n| if n.0 == "code" { code } else { fixed(&class_of(t), n.1) }).collect();
                        let v = e.adt(ot, 0, f);
                        out.push((s, Out::Ret(mk(Val::Adt(dty, 0, vec![v].into())))));
                    } else {
                        let v = e.fresh(&mut s, "verr", et);
                        out.push((s, Out::Ret(mk(Val::Adt(dty, 1, vec![v].into())))));
                    }
                }
                return Some(out);
            }
            let v = e.fresh(&mut s0, "ccr", *e.p.types.get(dty as usize)?.args.first()?);
            return Some(ret(s0, mk(Val::Adt(dty, 0, vec![v].into()))));
        }
        if let Some(r) = crate::handle::atomics(e, st, c, a, dty, sp) {
            return Some(r);
        }
        opaque_buffers(e, st, c, a, dty)
    }
    fn lazy(&self, e: &mut Eng, st: &State, v: V, _d: Ty) -> Vec<(State, Vec<(u8, V)>)> {
        let Val::Ext(k, f) = &*g(v) else { return vec![] };
        let (m, ph) = (f[0], unnum(f[1]).unwrap());
        let p = e.p.clone();
        let line = |c: i128| (ONE, frag_line(&p, self.frag, tok(m, c)));
        let lits = |c: i128| [true, false].map(|y| (ONE, frag_lit(&p, self.frag, self.mode, lit(m, c), y)));
        let mut out = vec![];
        let mut alt = |v: Vec<(u8, V)>| out.push((st.clone(), v));
        if class_of(m) == "G" {
            alt(vec![line(1)]);
            return out;
        }
        let marked = class_of(m) == "A";
        if nm_s(*k) == "rmore" {
            // after a line: the end, or a literal followed by a line
            let c = if marked { 2 } else { 9 };
            alt(vec![]);
            for l in lits(c) {
                alt(vec![l, line(c), tail(m, R)]);
            }
            return out;
        }
        if !marked {
            alt(vec![line(9), tail(m, R)]);
            return out;
        }
        let _ = ph;
        // the marked fragment is the first or a later line, or a literal
        alt(vec![line(1), tail(m, R)]);
        for x in lits(1) {
            alt(vec![line(0), x, line(2), tail(m, R)]);
        }
        for x in lits(0) {
            alt(vec![line(0), x, frags(m, R)]);
        }
        out
    }
    fn tracked(&self, v: V) -> bool {
        if let Val::Sym { .. } = &*g(v) {
            return matches!(class_of(v).as_str(), "A" | "pre" | "post" | "G" | "hA" | "hpre" | "hpost" | "D" | "E" | "accept" | "reject");
        }
        call_parts(v, "rfrag").is_some()
    }
    fn cut(&self, _e: &Eng, v: V) -> Option<(V, V)> {
        match tok_parts(v) {
            Some((m, col)) if col != 1 && ["A", "pre", "post"].contains(&class_of(m).as_str()) => Some((v, v)),
            _ => Some(cut_chunk(v)),
        }
    }
    fn piece(&self, v: V) -> Option<(bool, bool)> {
        let (m, col) = tok_parts(v)?;
        Some((tok_mask(v) & LINE == 0, class_of(m) == "A" && col == 1))
    }
    fn merge(&self, a: V, b: V) -> Option<V> {
        if let (Some(x), Some(y)) = (tok_parts(a), tok_parts(b)) {
            let c = class_of(x.0);
            if (c == "pre" || c == "post") && c == class_of(y.0) && x.1 == 9 && y.1 == 9 {
                // several other responses of the same side
                let m = tok_mask(a) | tok_mask(b);
                return Some(if x.0 == y.0 { masked(x.0, 9, m) } else { masked(fixed(&format!("Σ{c}"), vty(x.0)), 9, m) });
            }
            return if x == y && x.1 != 1 && x.1 != 8 { Some(masked(x.0, x.1, tok_mask(a) | tok_mask(b))) } else { None };
        }
        if a == b && is_summary(a) {
            return Some(a);
        }
        None
    }
}

impl ServerEnv {
    fn whole(&self, e: &Eng, m: V) -> V {
        match &*g(m) {
            Val::Adt(t, v, f) => e.adt(*t, *v, f.to_vec()),
            _ => m,
        }
    }
    /// Accounts for the last decoded message or decoding error once its outcome is clear.
    fn settle(&self, e: &mut Eng, s: &mut State, r: Option<(&str, &BTreeMap<String, V>)>) {
        let d = std::mem::replace(&mut s.mon[PEND], int(0));
        let err = match r {
            Some((n, _)) if n.starts_with("error ") => Some(&n[6..]),
            _ => None,
        };
        let ev = match r {
            Some((n, f)) if !n.starts_with("error ") => Some((n, f)),
            _ => None,
        };
        let received = |n: &str| n.ends_with("Received");
        match class_of(d).as_str() {
            "D" => self.message(e, s, d, r),
            "E" => {
                if let Some((n, _)) = ev {
                    if received(n) {
                        e.violation(s, "S06", format!("event {n} although the message could not be decoded"));
                    }
                }
                let t = peel(&e.p, vty(d));
                let has = variant_ix(&e.p, t, "LiteralFound").is_some();
                let lit = if has { is_variant(e, s, d, "LiteralFound") } else { Some(false) };
                match lit {
                    Some(true) => self.literal(e, s, d, err),
                    Some(false) => {
                        if err != Some("MalformedMessage") {
                            let m = match r {
                                Some((n, _)) => format!("a message that cannot be decoded leads to {n}"),
                                None => "a message that cannot be decoded does not lead to an error".into(),
                            };
                            e.violation(s, "S06", m);
                        }
                    }
                    None => {
                        if !s.taint {
                            e.violation(s, "S02", "the announcement of a literal is not told apart from a malformed command");
                        }
                    }
                }
            }
            _ => {
                if let Some((n, _)) = ev {
                    if received(n) {
                        e.violation(s, "S06", format!("event {n} although no message was received"));
                    }
                }
                if let Some(n) = err {
                    if n == "LiteralTooLong" {
                        e.violation(s, "S02", "LiteralTooLong although no literal was announced");
                    }
                    if n == "MalformedMessage" {
                        e.violation(s, "S06", "MalformedMessage although nothing failed to decode");
                    }
                }
            }
        }
    }
    fn literal(&self, e: &mut Eng, s: &mut State, er: V, err: Option<&str>) {
        let st = s.clone();
        let f = |e: &Eng, n: &str| vfield(e, &st, er, NOTY, "LiteralFound", n);
        let (Some(len), Some(tag), Some(mode)) = (f(e, "length"), f(e, "tag"), f(e, "mode")) else { return };
        let max = fixed("max_literal", vty(len));
        let over = known_bool(e, s, lt(max, len));
        // The limit of literals is below the one of commands, by definition.
        let most = fixed("max_command", vty(len));
        let beyond = known_bool(e, s, lt(most, len)) == Some(true) || known_bool(e, s, lt(len, most)) == Some(false);
        if beyond && over == Some(false) {
            return;
        }
        let over = over.or(beyond.then_some(true));
        let sync = is_variant(e, s, mode, "Sync");
        let Some(over) = over else {
            if !s.taint {
                e.violation(s, "S02", "an announced literal is accepted or rejected without comparing its length to the limit");
            }
            return;
        };
        if over != (err == Some("LiteralTooLong")) {
            e.violation(s, "S02", if over { "a literal over the limit is not rejected" } else { "a literal within the limit is rejected" });
            return;
        }
        if !over && err == Some("MalformedMessage") {
            e.violation(s, "S02", format!("a literal within the limit leads to {}", err.unwrap()));
        }
        let Some(sync) = sync else {
            if !s.taint {
                e.violation(s, "S02", "synchronizing and non-synchronizing literals are not told apart");
            }
            return;
        };
        e.bump(match (over, sync) {
            (true, true) => "rejected synchronizing literals",
            (true, false) => "rejected non-synchronizing literals",
            (false, true) => "accepted synchronizing literals",
            (false, false) => "accepted non-synchronizing literals",
        });
        if sync {
            let late = num((s.m(AST) > 0) as i128);
            let x = if over { ext("bad", vec![late, tag]) } else { ext("go", vec![late]) };
            let mut o = self.owed(s);
            o.push(x);
            s.mon[OWED] = tup(o);
        }
    }
    /// Was this internal response created after the marked one was enqueued?
    fn late(&self, o: V) -> bool {
        match &*g(o) {
            Val::Ext(_, f) => f.first().and_then(|x| unnum(*x)) == Some(1),
            _ => false,
        }
    }
    fn owed(&self, s: &State) -> Vec<V> {
        match &*g(s.mon[OWED]) {
            Val::Tup(f) => f.to_vec(),
            _ => vec![],
        }
    }
    fn message(&self, e: &mut Eng, s: &mut State, d: V, r: Option<(&str, &BTreeMap<String, V>)>) {
        let m = s.m(MODE);
        let Some((ev, f)) = r else {
            e.violation(s, "S06", "a received message is dropped without an event");
            return;
        };
        if let Some(n) = ev.strip_prefix("error ") {
            e.violation(s, "S06", format!("a received message leads to {n}"));
            return;
        }
        let st = s.clone();
        let fz: BTreeMap<String, V> = f.iter().map(|(k, v)| (k.clone(), e.freeze(&st, *v))).collect();
        let get = |n: &str| fz.get(n).copied();
        let eq = |n: &str, want: Option<V>| get(n).is_some() && get(n) == want;
        match m {
            0 => {
                let body = vfield(e, &st, d, NOTY, "Command", "body");
                let tag = vfield(e, &st, d, NOTY, "Command", "tag");
                let Some(body) = body else { return };
                let auth = is_variant(e, &st, body, "Authenticate");
                let idle = is_variant(e, &st, body, "Idle");
                match ev {
                    "CommandReceived" => {
                        let c = get("command").map(|c| self.whole(e, c));
                        if c != Some(d) {
                            let m = format!("event CommandReceived reports something else than the received command: {}", c.map(|c| show(&e.p, c)).unwrap_or_default());
                            e.violation(s, "S06", m);
                        }
                        if auth != Some(false) {
                            e.violation(s, "S03", "AUTHENTICATE is reported as CommandReceived");
                        }
                        if idle != Some(false) {
                            e.violation(s, "S04", "IDLE is reported as CommandReceived");
                        }
                    }
                    "CommandAuthenticateReceived" => {
                        if auth != Some(true) {
                            e.violation(s, "S03", "CommandAuthenticateReceived for another command");
                        }
                        let ca = get("command_authenticate").unwrap_or(top());
                        for n in ["tag", "mechanism", "initial_response"] {
                            let got = vfield(e, &st, ca, vty(ca), "CommandAuthenticate", n);
                            let want = if n == "tag" { tag } else { vfield(e, &st, body, NOTY, "Authenticate", n) };
                            if got.is_none() || got != want {
                                e.violation(s, "S06", format!("CommandAuthenticateReceived reports another {n}"));
                            }
                        }
                        s.set(MODE, 1);
                    }
                    "IdleCommandReceived" => {
                        if idle != Some(true) {
                            e.violation(s, "S04", "IdleCommandReceived for another command");
                        }
                        if !eq("tag", tag) {
                            e.violation(s, "S06", "IdleCommandReceived reports another tag");
                        }
                        s.set(MODE, 2);
                    }
                    _ => e.violation(s, "S06", format!("a received command leads to {ev}")),
                }
            }
            1 => {
                if ev != "AuthenticateDataReceived" {
                    e.violation(s, "S06", format!("received authentication data leads to {ev}"));
                } else if !eq("authenticate_data", Some(d)) {
                    e.violation(s, "S06", "AuthenticateDataReceived reports something else than the received data");
                }
            }
            3 => {
                if ev != "IdleDoneReceived" {
                    e.violation(s, "S06", format!("received DONE leads to {ev}"));
                }
                s.set(MODE, 0);
            }
            _ => {}
        }
    }
    fn pending_of_a(&self, e: &Eng, s: &State) -> bool {
        let mut t = false;
        e.reach(s, s.mem[0], &mut |v| {
            if let Some((c, _)) = tok_parts(v) {
                t |= class_of(c) == "A";
            }
            if let Val::Ext(k, f) = &*g(v) {
                t |= matches!(nm_s(*k).as_str(), "rfrags" | "rmore") && class_of(f[0]) == "A";
            }
            false
        });
        t
    }
    fn output(&self, e: &mut Eng, s: &mut State, buf: V) {
        let buf = e.deref(s, buf);
        let Some(l) = items(buf) else {
            if !s.taint {
                let m = format!("bytes of unknown origin are sent: {}", show(&e.p, buf));
                e.violation(s, "S01", m);
            }
            return;
        };
        if l.is_empty() {
            e.violation(s, "S07", "an output without bytes is requested");
        }
        for (_, t) in l {
            let (x, w) = track_chunk(&mut s.mon[HALF], t);
            if let Some(w) = w {
                e.violation(s, "S01", w);
            }
            let Some(t) = x else { continue };
            let Some((m, col)) = tok_parts(t) else {
                if !s.taint {
                    let m = format!("bytes are sent that belong to no response: {}", show(&e.p, t));
                    e.violation(s, "S01", m);
                }
                continue;
            };
            let k = class_of(m);
            let mid = s.m(AST) == 2 && (s.m(XOUT) == 0 || self.pending_of_a(e, s));
            if k != "G" && s.m(GREET) == 0 {
                e.violation(s, "S01", "a response is sent before the greeting");
            }
            if k != "A" && mid {
                e.violation(s, "S01", "other bytes are sent in the middle of a response");
            }
            match k.as_str() {
                "G" => {
                    if s.m(GREET) != 0 {
                        e.violation(s, "S01", "the greeting is sent twice");
                    } else {
                        s.set(GREET, 1);
                    }
                }
                "pre" => {
                    if s.m(AST) >= 2 {
                        e.violation(s, "S01", "a response enqueued earlier is sent during or after a later one");
                    }
                }
                "post" => {
                    if s.m(AST) == 1 {
                        e.violation(s, "S01", "a response enqueued later is sent before an earlier one");
                    }
                    s.set(POSTED, 1);
                }
                "A" => {
                    if s.m(AST) == 1 && self.owed(s).iter().any(|o| !self.late(*o)) {
                        e.violation(s, "S01", "a response overtakes one which the server created earlier");
                    }
                    match s.m(AST) {
                        1 => s.set(AST, 2),
                        2 => {}
                        3 => e.violation(s, "S01", "bytes of a response are sent after it was reported as sent"),
                        _ => e.violation(s, "S01", "bytes of a response are sent that was not enqueued"),
                    }
                    if s.m(POSTED) == 1 {
                        e.violation(s, "S01", "bytes of a response are sent after a response enqueued later");
                    }
                    if col == 2 {
                        self.skipped(e, s);
                    }
                    match col {
                        0 if s.m(XOUT) == 1 => e.violation(s, "S01", "fragments of a response are sent in the wrong order"),
                        2 if s.m(XOUT) == 0 => e.violation(s, "S01", "fragments of a response are sent in the wrong order, or one is missing"),
                        1 => {
                            if s.m(XOUT) == 1 {
                                e.violation(s, "S01", "a fragment of a response is sent twice");
                            }
                            s.set(XOUT, 1);
                        }
                        _ => {}
                    }
                }
                _ => self.internal(e, s, m),
            }
        }
    }
    /// A response created by the server itself is sent.
    fn internal(&self, e: &mut Eng, s: &mut State, m: V) {
        e.bump("internal responses");
        let mut o = self.owed(s);
        // decoded just now
        let (kind, tag, text) = self.describe(e, s, m);
        let want = o.first().map(|o| match &*g(*o) {
            Val::Ext(k, f) => (nm_s(*k), f.get(1).copied()),
            _ => (String::new(), None),
        });
        if o.first().map(|o| self.late(*o)) == Some(true) && s.m(AST) == 1 {
            e.violation(s, "S01", "a response created by the server overtakes a response enqueued earlier");
        }
        match want {
            None => {
                if !s.taint {
                    e.violation(s, "S01", format!("a response ({kind}) is sent that nobody enqueued and no literal asked for"));
                    e.violation(s, "S02", format!("a response ({kind}) is sent that nobody enqueued and no literal asked for"));
                }
                return;
            }
            Some((k, t)) => {
                if k == "bad" {
                    if kind != "tagged BAD" {
                        e.violation(s, "S02", format!("a rejected literal is answered with {kind}"));
                    } else if tag != t {
                        e.violation(s, "S02", "a rejected literal is answered with the tag of something else");
                    } else if text.map(|t| is_class(t, "reject")) != Some(true) {
                        e.violation(s, "S02", "a rejected literal is answered with another text");
                    }
                } else if kind != "continuation request" {
                    e.violation(s, "S02", format!("an accepted literal is answered with {kind}"));
                } else if text.map(|t| is_class(t, "accept")) != Some(true) {
                    e.violation(s, "S02", "an accepted literal is answered with another text");
                }
            }
        }
        o.remove(0);
        s.mon[OWED] = if o.is_empty() { int(0) } else { tup(o) };
    }
    fn describe(&self, e: &Eng, s: &State, m: V) -> (String, Option<V>, Option<V>) {
        let Some((k, f)) = view(&e.p, m) else { return ("something unknown".into(), None, None) };
        let text = |v: V| -> Option<V> {
            let mut t = None;
            any_sub(v, &mut |x| {
                if is_class(x, "accept") || is_class(x, "reject") {
                    t = Some(x);
                }
                false
            });
            t
        };
        match k.as_str() {
            "Tagged" => {
                let Some((_, f)) = f.get("0").and_then(|v| view(&e.p, *v)) else { return ("a tagged status".into(), None, None) };
                let kind = f.get("body").and_then(|b| vfield(e, s, *b, vty(*b), "StatusBody", "kind"));
                let bad = kind.map(|k| is_variant(e, s, k, "Bad") == Some(true) || view(&e.p, k).map(|x| x.0 == "Bad").unwrap_or(false)).unwrap_or(false);
                (if bad { "tagged BAD".into() } else { "another tagged status".into() }, f.get("tag").copied(), f.get("body").and_then(|b| text(*b)))
            }
            "Untagged" => ("an untagged status".into(), None, None),
            "Basic" | "Base64" => ("continuation request".into(), None, text(m)),
            x => (x.to_string(), None, None),
        }
    }
    fn event(&self, e: &mut Eng, s: &mut State, v: V) {
        if s.mon[HALF] != int(0) {
            e.violation(s, "S01", "the rest of a fragment is not sent before the next event");
        }
        let v = e.freeze(s, v);
        let Some((ev, f)) = view(&e.p, v) else {
            if !s.taint {
                e.violation(s, "S06", "an event of unknown origin is reported");
            }
            return;
        };
        self.settle(e, s, Some((&ev, &f)));
        match ev.as_str() {
            "GreetingSent" => {
                match s.m(GREET) {
                    0 => e.violation(s, "S01", "GreetingSent before the greeting is sent"),
                    2 => e.violation(s, "S01", "GreetingSent twice"),
                    _ => {}
                }
                if f.get("greeting").map(|x| is_class(*x, "G")) != Some(true) {
                    e.violation(s, "S01", "GreetingSent reports another greeting");
                }
                s.set(GREET, 2);
            }
            "ResponseSent" => {
                let h = f.get("handle").copied().unwrap_or(top());
                let r = f.get("response").map(|r| self.content(e, *r)).unwrap_or(top());
                if s.m(GREET) != 2 {
                    e.violation(s, "S01", "ResponseSent before GreetingSent");
                }
                match class_of(h).as_str() {
                    "hA" => {
                        if class_of(r) != "A" || r != self.a(s) {
                            let m = format!("ResponseSent reports another response than the one its handle belongs to: {}", show(&e.p, r));
                            e.violation(s, "S01", m);
                        }
                        match s.m(AST) {
                            3 => e.violation(s, "S01", "ResponseSent twice for the same response"),
                            2 => {}
                            _ => e.violation(s, "S01", "ResponseSent for a response that was not sent yet"),
                        }
                        if s.m(XOUT) == 0 || self.pending_of_a(e, s) {
                            e.violation(s, "S01", "ResponseSent although a part of the response was not sent");
                        }
                        s.set(AST, 3);
                    }
                    k @ ("hpre" | "hpost") => {
                        if class_of(r) != k[1..] {
                            e.violation(s, "S01", "ResponseSent reports another response than the one its handle belongs to");
                        }
                        if k == "hpre" && s.m(AST) == 3 || k == "hpost" && matches!(s.m(AST), 1 | 2) {
                            e.violation(s, "S01", "ResponseSent events are reported in another order than the responses were enqueued");
                        }
                    }
                    _ => {
                        if !s.taint {
                            let m = format!("ResponseSent carries a handle that was never given out: {}", show(&e.p, h));
                            e.violation(s, "S01", m);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    fn need_input(&self, e: &mut Eng, s: &mut State) {
        if s.mon[HALF] != int(0) {
            e.violation(s, "S07", "input is requested in the middle of a fragment");
        }
        if s.m(GREET) == 0 {
            e.violation(s, "S07", "input is requested before the greeting is sent");
        }
        if s.m(GREET) == 1 {
            e.violation(s, "S07", "input is requested before the greeting is reported as sent");
        }
        match s.m(AST) {
            1 => e.violation(s, "S07", "input is requested although an enqueued response could be sent"),
            2 => e.violation(s, "S07", "input is requested although a sent response was not reported"),
            _ => {}
        }
        for o in self.owed(s) {
            let k = match &*g(o) {
                Val::Ext(k, _) => nm_s(*k),
                _ => String::new(),
            };
            let m = if k == "bad" { "a synchronizing literal over the limit is never answered with BAD" } else { "an accepted synchronizing literal is never answered with a continuation request" };
            e.violation(s, "S02", m);
        }
    }
    /// An empty literal may be left out, as if it were sent.
    fn skipped(&self, e: &mut Eng, s: &mut State) {
        if s.m(AST) == 2 && s.m(XOUT) == 0 && known_bool(e, s, call("isempty", vec![lit(self.a(s), 1)], NOTY)) == Some(true) {
            s.set(XOUT, 1);
        }
    }
    fn lost(&self, e: &mut Eng, s: &mut State) {
        if s.m(AST) == 1 || s.m(AST) == 2 {
            let ha = self.ha();
            if !e.reach(s, s.mem[0], &mut |v| v == ha) {
                e.violation(s, "S01", "a response is dropped without being reported as sent");
            }
            if s.m(XOUT) == 0 {
                let a = self.a(s);
                let found = e.reach(s, s.mem[0], &mut |v| v == a || tok_parts(v).map(|t| t.0 == a && t.1 == 1).unwrap_or(false));
                if !found {
                    self.skipped(e, s);
                }
                if !found && s.m(XOUT) == 0 {
                    e.violation(s, "S01", "a response is dropped without being sent");
                }
            }
        }
    }
}
fn want(p: &Prog, k: &str) -> Result<u32, String> {
    p.by_key.get(k).copied().ok_or(format!("function {k} not found"))
}
pub fn run(p: Rc<Prog>, cfg: &Cfg) -> Result<RunOut, String> {
    let ty = |n: &str| ty_by_path(&p, n).ok_or(format!("type {n} not found"));
    let env = Rc::new(ServerEnv {
        frag: ty("imap_codec::encode::Fragment")?,
        mode: ty("imap_types::core::LiteralMode")?,
        resp: ty("imap_types::response::Response")?,
        handle: ty("server::ResponseHandle")?,
        greeting: ty("imap_types::response::Greeting")?,
        kinds: [
            ("Data", ty("imap_types::response::Data")?),
            ("Status", ty("imap_types::response::Status")?),
            ("CommandContinuationRequest", ty("imap_types::response::CommandContinuationRequest")?),
        ],
    });
    let opts = ty("server::Options")?;
    let f_new = want(&p, "server::Server::new")?;
    let f_next = want(&p, "<server::Server as State>::next")?;
    let f_inp = want(&p, "<server::Server as State>::enqueue_input")?;
    let f_def = p
        .by_key
        .iter()
        .find(|(k, _)| k.starts_with("<server::Options as") && k.ends_with("::default"))
        .map(|x| *x.1)
        .ok_or("Options::default not found")?;
    // (name, kind of its argument, modes in which it must be accepted, mode afterwards)
    let ops: Vec<(&str, u32, usize, Option<(i128, i128)>)> = vec![
        ("enqueue_data", want(&p, "server::Server::enqueue_data")?, 0, None),
        ("enqueue_status", want(&p, "server::Server::enqueue_status")?, 1, None),
        ("enqueue_continuation_request", want(&p, "server::Server::enqueue_continuation_request")?, 2, None),
        ("authenticate_continue", want(&p, "server::Server::authenticate_continue")?, 2, Some((1, 1))),
        ("authenticate_finish", want(&p, "server::Server::authenticate_finish")?, 1, Some((1, 0))),
        ("idle_accept", want(&p, "server::Server::idle_accept")?, 2, Some((2, 3))),
        ("idle_reject", want(&p, "server::Server::idle_reject")?, 1, Some((2, 0))),
    ];
    let mut e = Eng::new(p.clone(), env.clone());
    cfg.apply(&mut e);
    let mut q = Queue::new();
    let mut samples = vec![];
    let me = mk(Val::Ref(0, Box::new([])));
    let panicked = |e: &mut Eng, s: &State, op: &str, m: &str| {
        *e.panics.entry(format!("{op}: {m}")).or_insert(0) += 1;
        e.violation(s, "G01", format!("{op} may panic: {m}"));
    };
    // --- options
    let mut inits: Vec<State> = vec![];
    {
        let mut s = State::new(NMON);
        s.mon[TEXTS] = tup(vec![fixed("accept", NOTY), fixed("reject", NOTY)]);
        s.push(undef());
        let mut cur: Vec<State> = vec![];
        for (mut s, o) in e.exec(s, f_def, vec![]) {
            match o {
                Out::Ret(v) => {
                    let v = e.freeze(&s, v);
                    let ti = &p.types[opts as usize];
                    let Val::Adt(t, x, f) = &*g(v) else { continue };
                    let f = f
                        .iter()
                        .zip(ti.variants[0].fields.iter())
                        .map(|(v, fd)| match fd.0.as_str() {
                            "crlf_relaxed" => fixed("crlf_relaxed", fd.1),
                            "max_literal_size" => fixed("max_literal", fd.1),
                            "max_command_size" => fixed("max_command", fd.1),
                            _ => *v,
                        })
                        .collect::<Vec<_>>();
                    s.mem[0] = mk(Val::Adt(*t, *x, f.into()));
                    s.mem.truncate(1);
                    cur.push(s);
                }
                Out::Panic(m) => panicked(&mut e, &s, "Options::default", &m),
                _ => {}
            }
        }
        for (m, sym) in [("set_literal_accept_text", "accept"), ("set_literal_reject_text", "reject")] {
            let f = want(&p, &format!("server::Options::{m}"))?;
            let mut nxt = vec![];
            for s in cur {
                for (mut s, o) in e.exec(s, f, vec![me, fixed(sym, NOTY)]) {
                    match o {
                        Out::Ret(v) => {
                            let v = e.freeze(&s, v);
                            match view(&p, v) {
                                Some((k, f)) => {
                                    let stored = e.reach(&s, s.mem[0], &mut |x| is_class(x, sym));
                                    if (k == "Ok") != stored {
                                        e.violation(&s, "S02", format!("{m} returns {k} but the text is{} stored", if stored { "" } else { " not" }));
                                    }
                                    if k == "Err" && !is_class(f["0"], sym) {
                                        e.violation(&s, "S02", format!("a refused {m} does not return the text"));
                                    }
                                    if k == "Ok" {
                                        s.mem.truncate(1);
                                        nxt.push(s);
                                    }
                                }
                                None => {}
                            }
                        }
                        Out::Panic(x) => panicked(&mut e, &s, m, &x),
                        _ => {}
                    }
                }
            }
            if nxt.is_empty() {
                e.violation(&State::new(NMON), "S02", format!("{m} takes no text"));
            }
            cur = nxt;
        }
        for s in cur {
            let o = s.mem[0];
            for (mut s, o) in e.exec(s, f_new, vec![o, fixed("G", env.greeting)]) {
                match o {
                    Out::Ret(v) => {
                        s.mem[0] = e.freeze(&s, v);
                        s.mem.truncate(1);
                        inits.push(s);
                    }
                    Out::Panic(m) => panicked(&mut e, &s, "Server::new", &m),
                    _ => {}
                }
            }
        }
    }
    if inits.is_empty() {
        if e.viol.iter().any(|v| !v.taint) {
            // nothing to go on from
            return Ok(RunOut { viol: e.viol.clone(), states: 0, transitions: 0, tainted: 0, eng: e, floors: vec![], samples });
        }
        return Err("Server::new cannot be analysed".into());
    }
    for s in inits {
        crate::handle::created(&mut e, &s, s.mem[0], WHO);
        q.push(&e, s, 1);
    }
    let mut limited = 0u64;
    while let Some(s0) = q.todo.pop_front() {
        e.bump("boundary states");
        if e.stop() || e.incomplete.is_some() && e.steps > e.max_steps {
            break;
        }
        if env.owed(&s0).len() > MAX_OWED {
            limited += 1;
            continue;
        }
        if samples.len() < 6 {
            samples.push(format!("state {}: {}", e.stats["boundary states"], show(&p, s0.mem[0])));
        }
        let before = s0.mem[0];
        // --- enqueue operations
        for (name, f, kind, guard) in &ops {
            let kt = env.kinds[*kind].1;
            let prop = if name.starts_with("auth") { "S03" } else { "S04" };
            let alts: &[&str] = if s0.m(AST) == 0 { &["pre", "A"] } else { &["post"] };
            for k in alts {
                let mut s = s0.clone();
                s.note(format!("{name}({k})"));
                let (cv, hv) = match *k {
                    "A" => {
                        s.set(ANEW, *kind as i128);
                        (fixed("A", kt), env.ha())
                    }
                    "pre" => (fixed("Σpre", kt), fixed("Σhpre", env.handle)),
                    _ => (fixed("Σpost", kt), fixed("Σhpost", env.handle)),
                };
                for (mut s, o) in e.exec(s, *f, vec![me, cv]) {
                    let v = match o {
                        Out::Ret(v) => e.freeze(&s, v),
                        Out::Panic(m) => {
                            panicked(&mut e, &s, &format!("Server::{name}"), &m);
                            continue;
                        }
                        _ => continue,
                    };
                    let mut h = v;
                    if let Some((m, after)) = guard {
                        let Some((r, fl)) = view(&p, v) else {
                            if !s.taint {
                                e.violation(&s, prop, format!("{name} returns something unknown"));
                            }
                            continue;
                        };
                        let expect = s.m(MODE) == *m;
                        if r == "Ok" {
                            if !expect {
                                e.violation(&s, prop, format!("{name} is accepted while {}", MODES[s.m(MODE) as usize]));
                                continue;
                            }
                            h = fl["0"];
                            s.set(MODE, *after);
                        } else {
                            if expect {
                                e.violation(&s, prop, format!("{name} is refused while {}", MODES[s.m(MODE) as usize]));
                            }
                            if fl["0"] != cv {
                                e.violation(&s, prop, format!("a refused {name} does not return its argument"));
                            }
                            if s.mem[0] != before {
                                e.violation(&s, prop, format!("a refused {name} changes the state of the server"));
                            }
                            s.mon = s0.mon.clone();
                            crate::handle::operated(&mut e, &s, s.mem[0], None, WHO, name);
                            q.push(&e, s, 1);
                            continue;
                        }
                    }
                    if *k == "A" {
                        s.set(AST, 1);
                    }
                    if opaque(h) && matches!(class_of(h).as_str(), "hA" | "hpre" | "hpost") {
                        e.violation(&s, "S01", format!("{name} returns the handle of another response"));
                    }
                    crate::handle::operated(&mut e, &s, s.mem[0], Some(h), WHO, name);
                    e.subst(&mut s, h, hv);
                    if *k != "A" {
                        let vi = variant_ix(&p, env.resp, env.kinds[*kind].0).unwrap_or(0);
                        let whole = mk(Val::Adt(env.resp, vi, vec![cv].into()));
                        e.subst(&mut s, whole, fixed(&format!("Σ{k}"), env.resp));
                    }
                    remerge(&e, &mut s);
                    env.lost(&mut e, &mut s);
                    q.push(&e, s, 1);
                }
            }
        }
        // --- enqueue_input
        {
            let mut s = s0.clone();
            s.note("enqueue_input");
            let b = e.fresh(&mut s, "bytes", NOTY);
            for (mut s, o) in e.exec(s, f_inp, vec![me, b]) {
                match o {
                    Out::Ret(_) => {
                        env.lost(&mut e, &mut s);
                        crate::handle::operated(&mut e, &s, s.mem[0], None, WHO, "enqueue_input");
                        q.push(&e, s, 1)
                    }
                    Out::Panic(m) => panicked(&mut e, &s, "Server::enqueue_input", &m),
                    _ => {}
                }
            }
        }
        // --- next
        let mut s = s0.clone();
        s.note("next");
        for (mut s, o) in e.exec(s, f_next, vec![me]) {
            let v = match o {
                Out::Ret(v) => e.freeze(&s, v),
                Out::Panic(m) => {
                    panicked(&mut e, &s, "Server::next", &m);
                    continue;
                }
                _ => continue,
            };
            let unknown = |e: &mut Eng, s: &State| {
                if !s.taint {
                    e.violation(s, "S06", "next returns something unknown");
                }
            };
            let Some((k, f)) = view(&p, v) else {
                unknown(&mut e, &s);
                continue;
            };
            if k == "Ok" {
                let ev = f["0"];
                s.note(format!("=> event {}", show(&p, ev)));
                e.bump("events");
                env.event(&mut e, &mut s, ev);
            } else {
                let i = f["0"];
                match view(&p, i) {
                    Some((k, f)) if k == "Io" => {
                        env.settle(&mut e, &mut s, None);
                        match view(&p, f["0"]) {
                            Some((k, f)) if k == "Output" => {
                                s.note(format!("=> output {}", show(&p, f["0"])));
                                e.bump("outputs");
                                env.output(&mut e, &mut s, f["0"]);
                            }
                            Some((k, _)) if k == "NeedMoreInput" => {
                                s.note("=> more input needed");
                                e.bump("input requests");
                                env.need_input(&mut e, &mut s);
                            }
                            _ => unknown(&mut e, &s),
                        }
                    }
                    Some((k, f)) if k == "Error" => {
                        let n = view(&p, f["0"]).map(|x| x.0).unwrap_or("unknown".into());
                        s.note(format!("=> error {n}"));
                        e.bump("errors");
                        env.settle(&mut e, &mut s, Some((&format!("error {n}"), &BTreeMap::new())));
                    }
                    _ => unknown(&mut e, &s),
                }
            }
            env.lost(&mut e, &mut s);
            crate::handle::operated(&mut e, &s, s.mem[0], None, WHO, "next");
            q.push(&e, s, 1);
        }
    }
    let mut floors = vec![];
    floors.extend(e.notes.get("floor").into_iter().flatten().cloned());
    for k in [
        "generators created",
        "handles generated",
        "events",
        "outputs",
        "input requests",
        "errors",
        "internal responses",
        "rejected synchronizing literals",
        "rejected non-synchronizing literals",
        "accepted synchronizing literals",
        "accepted non-synchronizing literals",
    ] {
        if e.stats.get(k).copied().unwrap_or(0) == 0 {
            floors.push(format!("no {k} explored"));
        }
    }
    e.stats.insert("states with too many unanswered literals (not continued)".into(), limited);
    Ok(RunOut { viol: e.viol.clone(), states: q.seen.len() as u64, transitions: q.transitions, tainted: q.tainted, eng: e, floors, samples })
}
