//! Most general user and most general server around `client::Client`.
//!
//! All API call sequences are explored over abstract states until nothing new is found. The queue
//! contains any number of commands enqueued before ("pre") and after ("post") one arbitrary marked
//! command A; the fragments of A contain one arbitrary marked fragment X.
use crate::common::*;
use crate::eng::*;
use crate::ir::*;
use crate::models::*;
use crate::val::*;
const WHO: &str = "Client::new";
use std::collections::BTreeSet;
use std::rc::Rc;

pub const GREET: usize = 0;
pub const AST: usize = 1; // 0 not enqueued, 1 queued, 2 started, 3 terminated
pub const XOUT: usize = 2;
pub const GRANT: usize = 3;
pub const AUTH: usize = 4;
pub const IDLE: usize = 5;
pub const PEND: usize = 6;
pub const DATA: usize = 7;
pub const POSTED: usize = 8;
pub const HALF: usize = 9;
pub const NMON: usize = 10;

pub struct ClientEnv {
    pub frag: Ty,
    pub mode: Ty,
    pub cmd: Ty,
    pub handle: Ty,
}
impl ClientEnv {
    pub fn a(&self) -> V {
        fixed("A", self.cmd)
    }
    pub fn ha(&self) -> V {
        fixed("hA", self.handle)
    }
}
const N: i128 = 0;
const M: i128 = 1;
const Q: i128 = 2;
const R: i128 = 3;
const LINE: i128 = 1;
const SYNC: i128 = 2;
const NONSYNC: i128 = 4;

fn tok(cmd: V, colour: i128, mask: i128) -> V {
    call("frag", vec![cmd, num(colour), num(mask)], NOTY)
}
fn tok_parts(v: V) -> Option<(V, i128, i128)> {
    let a = call_parts(v, "frag")?;
    Some((a[0], unnum(a[1])?, unnum(a[2])?))
}
fn frags(cmd: V, ph: i128) -> (u8, V) {
    (LAZY, ext("frags", vec![cmd, num(ph)]))
}
fn is_cmd(v: V) -> bool {
    matches!(class_of(v).as_str(), "A" | "pre" | "post")
}

impl Env for ClientEnv {
    fn hang(&self) -> Option<&'static str> {
        Some("G01")
    }
    fn call(&self, e: &mut Eng, st: &State, c: &Callee, a: &[V], dty: Ty, sp: u32) -> Option<Res> {
        if is_decode(c) {
            let ((mut s1, d, r1), (s2, r2)) = decode_outcomes(e, st, dty)?;
            let greeting = c.name.ty.contains("Greeting");
            if greeting != (s1.m(GREET) == 0) {
                e.violation(&s1, "C03", if greeting { "a second greeting is decoded after the first one" } else { "a response is decoded before the greeting" });
            }
            if greeting {
                s1.set(GREET, 1);
            }
            // messages decoded earlier during this call
            self.settle(e, &mut s1, None);
            let held_x = {
                let p = self.a();
                let mut x = false;
                let mut pre = false;
                let mut any = false;
                e.reach(&s1, s1.mem[0], &mut |v| {
                    if let Some((cmd, col, mask)) = tok_parts(v) {
                        any |= mask & SYNC != 0;
                        if cmd == p {
                            x |= col == 1 && mask & SYNC != 0;
                            pre |= col == 0;
                        }
                    }
                    false
                });
                // the command may be on its way through the call stack
                for i in 1..s1.mem.len() {
                    let v = s1.mem[i];
                    if !matches!(&*g(v), Val::Ref(..)) {
                        any_sub(v, &mut |v| {
                            if let Some((cmd, col, mask)) = tok_parts(v) {
                                any |= mask & SYNC != 0;
                                if cmd == p {
                                    x |= col == 1 && mask & SYNC != 0;
                                    pre |= col == 0;
                                }
                            }
                            false
                        });
                    }
                }
                (x && !pre, any)
            };
            s1.mon[PEND] = tup(vec![d, int(held_x.0 as i128), int(held_x.1 as i128)]);
            s1.note("a message is decoded");
            let mut s2 = s2;
            self.settle(e, &mut s2, None);
            if let Val::Adt(_, _, f) = &*g(r2) {
                s2.mon[PEND] = f[0];
            }
            s2.note("decoding fails or is incomplete");
            return Some(vec![(s1, Out::Ret(r1)), (s2, Out::Ret(r2))]);
        }
        if is_encode(c) {
            let m = e.freeze(st, a[1]);
            if c.name.ty.contains("IdleDone") {
                let d = frag_line(&e.p, self.frag, call("done", vec![], NOTY));
                return Some(ret(st.clone(), list(vec![(ONE, d)])));
            }
            if c.name.ty.contains("AuthenticateData") {
                let d = frag_line(&e.p, self.frag, call("authline", vec![m], NOTY));
                return Some(ret(st.clone(), list(vec![(ONE, d)])));
            }
            let m2 = self.whole_cmd(e, m);
            return Some(ret(st.clone(), list(vec![(LAZY, ext("frags", vec![m2, num(N)]))])));
        }
        if let Some(r) = crate::handle::atomics(e, st, c, a, dty, sp) {
            return Some(r);
        }
        opaque_buffers(e, st, c, a, dty)
    }
    fn lazy(&self, e: &mut Eng, st: &State, v: V, _d: Ty) -> Vec<(State, Vec<(u8, V)>)> {
        let Val::Ext(_, f) = &*g(v) else { return vec![] };
        let (cmd, ph) = (f[0], unnum(f[1]).unwrap());
        let mut out = vec![];
        let body = vfield(e, st, cmd, self.cmd, "Command", "body").unwrap_or(top());
        // AUTHENTICATE and IDLE are encoded as a single line
        let mut rest = st.clone();
        let mut feas = true;
        if ph == N {
            for k in ["Authenticate", "Idle"] {
                let mut s = rest.clone();
                if fix_variant(e, &mut s, body, k) {
                    let t = if cmd == self.a() { tok(cmd, 1, LINE) } else { tok(cmd, 9, LINE) };
                    out.push((s, vec![(ONE, frag_line(&e.p, self.frag, t))]));
                }
                let t = peel(&e.p, vty(body));
                if let Some(vi) = variant_ix(&e.p, t, k) {
                    let d = e.p.types[t as usize].variants[vi as usize].disc;
                    feas = feas && e.assume_ne(&mut rest, app(Op::Disc, vec![body], NOTY), d);
                }
            }
        }
        if !feas {
            return out;
        }
        let marked = cmd == self.a();
        let l = |c: i128| if marked { tok(cmd, c, LINE) } else { tok(cmd, 9, LINE) };
        let lit = |c: i128, s: bool| tok(cmd, if marked { c } else { 9 }, if s { SYNC } else { NONSYNC });
        let line = |p: &Prog, t: V| (ONE, frag_line(p, self.frag, t));
        let literal = |p: &Prog, t: V, s: bool| (ONE, frag_lit(p, self.frag, self.mode, t, s));
        let p = e.p.clone();
        let s = rest;
        let mut alt = |v: Vec<(u8, V)>| out.push((s.clone(), v));
        if marked {
            match ph {
                N => {
                    alt(vec![line(&p, l(0)), frags(cmd, M)]);
                    alt(vec![line(&p, l(1)), frags(cmd, R)]);
                }
                M => {
                    for y in [true, false] {
                        alt(vec![literal(&p, lit(0, y), y), frags(cmd, N)]);
                        alt(vec![literal(&p, lit(1, y), y), frags(cmd, Q)]);
                    }
                }
                Q => alt(vec![line(&p, l(2)), frags(cmd, R)]),
                _ => {
                    alt(vec![]);
                    for y in [true, false] {
                        alt(vec![literal(&p, lit(2, y), y), frags(cmd, Q)]);
                    }
                }
            }
        } else {
            match ph {
                N | Q => alt(vec![line(&p, l(9)), frags(cmd, R)]),
                _ => {
                    alt(vec![]);
                    for y in [true, false] {
                        alt(vec![literal(&p, lit(9, y), y), frags(cmd, Q)]);
                    }
                }
            }
        }
        out
    }
    fn tracked(&self, v: V) -> bool {
        if let Val::Sym { .. } = &*g(v) {
            return matches!(class_of(v).as_str(), "A" | "pre" | "post" | "hA" | "hpre" | "hpost" | "D" | "data");
        }
        call_parts(v, "frag").is_some()
    }
    fn merge(&self, a: V, b: V) -> Option<V> {
        if let (Some(x), Some(y)) = (tok_parts(a), tok_parts(b)) {
            if x.0 == y.0 && x.1 == y.1 && x.1 != 1 {
                return Some(tok(x.0, x.1, x.2 | y.2));
            }
            // several other commands of the same side
            let c = class_of(x.0);
            if (c == "pre" || c == "post") && c == class_of(y.0) && x.1 == y.1 && x.1 != 1 {
                return Some(tok(fixed(&format!("Σ{c}"), vty(x.0)), x.1, x.2 | y.2));
            }
            return None;
        }
        if a == b && is_summary(a) {
            return Some(a);
        }
        None
    }
    fn cut(&self, _e: &Eng, v: V) -> Option<(V, V)> {
        match tok_parts(v) {
            Some((c, col, _)) if !(c == self.a() && col == 1) => Some((v, v)),
            _ => Some(cut_chunk(v)),
        }
    }
    fn piece(&self, v: V) -> Option<(bool, bool)> {
        let (c, col, mask) = tok_parts(v)?;
        Some((mask & LINE == 0, c == self.a() && col == 1))
    }
    fn maybe_empty(&self, v: V) -> bool {
        match tok_parts(v) {
            Some((_, _, m)) => m & LINE == 0,
            None => false,
        }
    }
}

impl ClientEnv {
    /// `Command { tag: c.tag, body: c.body }` is `c`.
    fn whole_cmd(&self, e: &Eng, m: V) -> V {
        match &*g(m) {
            Val::Adt(t, v, f) => e.adt(*t, *v, f.to_vec()),
            _ => m,
        }
    }
    fn events_of(&self, e: &Eng, st: &State, d: V) -> Option<(&'static str, V)> {
        let t = peel(&e.p, vty(d));
        let ti = e.p.types.get(t as usize)?;
        if ti.path.ends_with("Greeting") {
            return Some(("Greeting", d));
        }
        for k in ["Status", "Data", "CommandContinuationRequest"] {
            if is_variant(e, st, d, k) == Some(true) {
                let vi = variant_ix(&e.p, t, k)?;
                return Some((k, e.field(st, d, vi, 0)));
            }
        }
        None
    }
    /// Accounts for the decoded message `PEND` once it is clear whether it led to an event.
    pub fn settle(&self, e: &mut Eng, s: &mut State, event: Option<(&str, &std::collections::BTreeMap<String, V>)>) {
        let (err, event) = match event {
            Some((n, _)) if n.starts_with("error ") => (Some(&n[6..]), None),
            _ => (None, event),
        };
        if class_of(s.mon[PEND]) == "E" {
            // a message that could not be decoded, or the announcement of a literal
            let er = std::mem::replace(&mut s.mon[PEND], int(0));
            if let Some((ev, _)) = event {
                if !matches!(ev, "CommandSent" | "AuthenticateStarted" | "IdleCommandSent" | "IdleDoneSent") {
                    e.violation(s, "C08", format!("event {ev} although the message could not be decoded"));
                }
            }
            let t = peel(&e.p, vty(er));
            let lit = variant_ix(&e.p, t, "LiteralFound").is_some() && is_variant(e, s, er, "LiteralFound") != Some(false);
            if !lit && err != Some("MalformedMessage") {
                e.violation(s, "C08", match err {
                    Some(n) => format!("a message that cannot be decoded leads to {n}"),
                    None => "a message that cannot be decoded does not lead to an error".into(),
                });
            }
            if lit && err == Some("MalformedMessage") && is_variant(e, s, er, "LiteralFound") == Some(true) {
                e.violation(s, "C08", "the announcement of a literal is taken for a malformed message");
            }
            return;
        }
        let Val::Tup(f) = &*g(s.mon[PEND]) else {
            if err == Some("MalformedMessage") {
                e.violation(s, "C08", "MalformedMessage although nothing failed to decode");
            }
            if let Some((ev, _)) = event {
                if !matches!(ev, "CommandSent" | "AuthenticateStarted" | "IdleCommandSent" | "IdleDoneSent") {
                    e.violation(s, "C08", format!("event {ev} although no message has been received"));
                }
            }
            return;
        };
        let (d, held_x, held_any) = (f[0], f[1] == int(1), f[2] == int(1));
        s.mon[PEND] = int(0);
        if let Some(n) = err {
            e.violation(s, "C08", format!("a received message leads to {n}"));
            return;
        }
        let kind = self.events_of(e, s, d);
        let Some((ev, fields)) = event else {
            match kind {
                Some(("CommandContinuationRequest", _)) if held_any => {
                    if held_x {
                        s.set(GRANT, 1);
                    }
                }
                Some((k, _)) => e.violation(s, "C08", format!("a received message of kind {k} is dropped without an event")),
                None => e.violation(s, "C08", "a received message is dropped without an event"),
            }
            return;
        };
        let ok: (&[&str], &str) = match kind {
            Some(("Greeting", _)) => (&["GreetingReceived"], "greeting"),
            Some(("Data", _)) => (&["DataReceived"], "data"),
            Some(("Status", _)) => (&["StatusReceived", "CommandRejected", "AuthenticateStatusReceived", "IdleRejected"], "status"),
            Some(_) => (
                &["ContinuationRequestReceived", "AuthenticateContinuationRequestReceived", "IdleAccepted"],
                "continuation_request",
            ),
            None => (&[], ""),
        };
        let kn = kind.map(|x| x.0).unwrap_or("unknown");
        if !ok.0.contains(&ev) {
            e.violation(s, "C08", format!("a received message of kind {kn} is reported as {ev}"));
            return;
        }
        let payload = kind.unwrap().1;
        match fields.get(ok.1) {
            Some(v) if e.freeze(s, *v) == payload => {}
            Some(v) => {
                let m = format!("event {ev} reports something else than the received message: {}", show(&e.p, *v));
                e.violation(s, "C08", m)
            }
            None => e.violation(s, "C08", format!("event {ev} does not carry the received message")),
        }
        // what the message means for A
        let h = fields.get("handle").copied();
        let mine = h.map(|h| e.freeze(s, h) == self.ha()).unwrap_or(false);
        match kn {
            "CommandContinuationRequest" => {
                if held_x {
                    e.violation(s, "C02", format!("the continuation request a literal waits for is reported as {ev} instead"));
                }
                if s.m(AST) == 2 && s.m(AUTH) == 2 && !(ev == "AuthenticateContinuationRequestReceived" && mine) {
                    e.violation(s, "C06", format!("continuation request during AUTHENTICATE is reported as {ev}"));
                }
                if s.m(AST) == 2 && s.m(IDLE) == 2 && !(ev == "IdleAccepted" && mine) {
                    e.violation(s, "C07", format!("the continuation request accepting IDLE is reported as {ev}"));
                }
            }
            "Status" => self.status(e, s, ev, payload, mine, held_x),
            _ => {}
        }
    }
    fn status(&self, e: &mut Eng, s: &mut State, ev: &str, status: V, mine: bool, held_x: bool) {
        let tagged = is_variant(e, s, status, "Tagged");
        let st2 = s.clone();
        let tg = vfield(e, &st2, status, NOTY, "Tagged", "0");
        let get = |e: &Eng, v: Option<V>, f: &str, n: &str| v.and_then(|v| vfield(e, &st2, v, NOTY, n, f));
        let tag = get(e, tg, "tag", "Tagged");
        let body = get(e, tg, "body", "Tagged");
        let kind = get(e, body, "kind", "StatusBody");
        let atag = vfield(e, &st2, self.a(), self.cmd, "Command", "tag");
        let eq = match (tag, atag) {
            (Some(x), Some(y)) => same(e, s, x, y),
            _ => None,
        };
        let bad = kind.and_then(|k| is_variant(e, s, k, "Bad"));
        let prop = if s.m(AUTH) > 0 {
            "C06"
        } else if s.m(IDLE) > 0 {
            "C07"
        } else {
            "C05"
        };
        let props: Vec<&str> = if prop == "C05" { vec!["C05"] } else { vec!["C05", prop] };
        if mine {
            let need_bad = ev == "CommandRejected";
            for p in props {
                if tagged != Some(true) {
                    e.violation(s, p, format!("{ev} for a status that need not be a tagged one"));
                } else if eq != Some(true) {
                    e.violation(s, p, format!("{ev} for a status whose tag need not be the tag of the command"));
                } else if need_bad && bad != Some(true) {
                    e.violation(s, p, format!("{ev} for a tagged status that need not be BAD"));
                }
            }
        } else if s.m(AST) == 2 {
            // it must be known that the status does not end A
            let no_match = tagged == Some(false) || eq == Some(false);
            let active = s.m(AUTH) > 0 || s.m(IDLE) > 0 && s.m(IDLE) < 5 || held_x;
            if active && !no_match && !(held_x && bad == Some(false)) {
                for p in props {
                    let what = if held_x { "a command waiting for its literal" } else { "the command in progress" };
                    e.violation(s, p, format!("a status that may complete {what} is reported as {ev}"));
                }
            }
        }
    }
    fn pending_of_a(&self, e: &Eng, s: &State) -> (bool, bool) {
        // (any part of A's text still to be sent, handle known)
        let (mut t, mut h) = (false, false);
        let a = self.a();
        let ha = self.ha();
        e.reach(s, s.mem[0], &mut |v| {
            if let Some((c, _, _)) = tok_parts(v) {
                t |= c == a;
            }
            if let Val::Ext(k, f) = &*g(v) {
                t |= nm_s(*k) == "frags" && f[0] == a;
            }
            h |= v == ha;
            false
        });
        (t, h)
    }
    fn output(&self, e: &mut Eng, s: &mut State, buf: V) {
        let buf = e.deref(s, buf);
        let Some(l) = items(buf) else {
            if !s.taint {
                let m = format!("bytes of unknown origin are sent: {}", show(&e.p, buf));
                e.violation(s, "C01", m);
            }
            return;
        };
        if l.is_empty() {
            e.violation(s, "C10", "an output without bytes is requested");
        }
        if s.m(GREET) == 0 && !l.is_empty() {
            e.violation(s, "C03", "bytes are sent before the greeting was received");
        }
        for (_, t) in l {
            let (x, w) = track_chunk(&mut s.mon[HALF], t);
            if let Some(w) = w {
                e.violation(s, "C02", w);
            }
            let Some(t) = x else { continue };
            if call_parts(t, "done").is_some() {
                if s.m(AST) == 2 && s.m(AUTH) == 0 {
                    match s.m(IDLE) {
                        4 => s.set(IDLE, 5),
                        0 => e.violation(s, "C01", "DONE is sent in the middle of another command"),
                        x => {
                            e.violation(s, "C07", format!("DONE is sent in state {x} of IDLE"));
                        }
                    }
                } else if s.m(AST) == 2 {
                    e.violation(s, "C06", "DONE is sent during AUTHENTICATE");
                }
                continue;
            }
            if let Some(d) = call_parts(t, "authline") {
                if s.m(AST) == 2 && s.m(IDLE) == 0 {
                    match s.m(AUTH) {
                        4 => {
                            if d[0] != s.mon[DATA] {
                                e.violation(s, "C06", "other authentication data is sent than the user provided");
                            }
                            s.set(AUTH, 2);
                            s.mon[DATA] = int(0);
                        }
                        0 => e.violation(s, "C01", "authentication data is sent in the middle of another command"),
                        x => e.violation(s, "C06", format!("authentication data is sent in state {x} of AUTHENTICATE")),
                    }
                } else if s.m(AST) == 2 {
                    e.violation(s, "C07", "authentication data is sent during IDLE");
                }
                continue;
            }
            let Some((cmd, col, mask)) = tok_parts(t) else {
                if !s.taint {
                    let m = format!("bytes are sent that belong to no command: {}", show(&e.p, t));
                    e.violation(s, "C01", m);
                }
                continue;
            };
            match class_of(cmd).as_str() {
                "pre" => {
                    if s.m(AST) >= 2 {
                        e.violation(s, "C01", "a command enqueued earlier is sent during or after a later one");
                    }
                }
                "post" => {
                    if s.m(AST) == 1 {
                        e.violation(s, "C01", "a command enqueued later is sent before an earlier one");
                    }
                    if s.m(AST) == 2 && (s.m(XOUT) == 0 || self.pending_of_a(e, s).0 || s.m(AUTH) > 0 || (s.m(IDLE) > 0 && s.m(IDLE) < 5)) {
                        e.violation(s, "C01", "a command enqueued later is sent before the earlier one is complete");
                    }
                    s.set(POSTED, 1);
                }
                "A" => {
                    match s.m(AST) {
                        1 => s.set(AST, 2),
                        2 => {}
                        3 => e.violation(s, "C01", "bytes of a command are sent after its end was reported"),
                        _ => e.violation(s, "C01", "bytes of a command are sent that was not enqueued"),
                    }
                    if s.m(POSTED) == 1 {
                        e.violation(s, "C01", "bytes of a command are sent after a command enqueued later");
                    }
                    if col == 2 {
                        self.skipped(e, s);
                    }
                    match col {
                        0 if s.m(XOUT) == 1 => e.violation(s, "C02", "fragments of a command are sent in the wrong order"),
                        2 if s.m(XOUT) == 0 => e.violation(s, "C02", "fragments of a command are sent in the wrong order, or one is missing"),
                        1 => {
                            if s.m(XOUT) == 1 {
                                e.violation(s, "C02", "a fragment of a command is sent twice");
                            }
                            if mask & SYNC != 0 && s.m(GRANT) == 0 {
                                e.violation(s, "C02", "a synchronizing literal is sent without a continuation request for it");
                            }
                            s.set(XOUT, 1);
                            s.set(GRANT, 0);
                            // the line that starts AUTHENTICATE or IDLE
                            let body = vfield(e, s, self.a(), self.cmd, "Command", "body").unwrap_or(top());
                            if is_variant(e, s, body, "Authenticate") == Some(true) {
                                s.set(AUTH, 1);
                            }
                            if is_variant(e, s, body, "Idle") == Some(true) {
                                s.set(IDLE, 1);
                            }
                        }
                        _ => {}
                    }
                }
                _ => {}
            }
        }
    }
    fn event(&self, e: &mut Eng, s: &mut State, v: V) {
        if s.mon[HALF] != int(0) {
            e.violation(s, "C02", "the rest of a fragment is not sent before the next event");
        }
        let v = e.freeze(s, v);
        let Some((ev, f)) = view(&e.p, v) else {
            e.violation(s, "C08", "an event of unknown origin is reported");
            return;
        };
        self.settle(e, s, Some((&ev, &f)));
        let Some(h) = f.get("handle").copied() else {
            return;
        };
        let cl = class_of(h);
        if !matches!(cl.as_str(), "hA" | "hpre" | "hpost") {
            let m = format!("event {ev} carries a handle that was never given out: {}", show(&e.p, h));
            e.violation(s, "C04", m);
            return;
        }
        if h != self.ha() {
            // A's content must not be reported for another command
            if let Some(c) = f.get("command").or(f.get("command_authenticate")) {
                if any_sub(*c, &mut |x| x == self.a()) {
                    e.violation(s, "C04", format!("event {ev} reports a command with the handle of another one"));
                }
            }
            return;
        }
        let term = matches!(
            ev.as_str(),
            "CommandSent" | "CommandRejected" | "AuthenticateStatusReceived" | "IdleRejected" | "IdleDoneSent"
        );
        if s.m(AST) == 3 {
            e.violation(s, "C04", format!("event {ev} for a command whose end was already reported"));
        }
        if s.m(AST) < 2 {
            e.violation(s, "C04", format!("event {ev} for a command that was not sent yet"));
        }
        let body = vfield(e, s, self.a(), self.cmd, "Command", "body").unwrap_or(top());
        let is = |e: &Eng, s: &State, k: &str| is_variant(e, s, body, k);
        match ev.as_str() {
            "CommandSent" | "CommandRejected" => {
                let c = self.whole_cmd(e, f["command"]);
                if c != self.a() {
                    let m = format!("event {ev} reports another command: {}", show(&e.p, c));
                    e.violation(s, "C04", m);
                }
                if is(e, s, "Authenticate") != Some(false) || is(e, s, "Idle") != Some(false) {
                    e.violation(s, "C04", format!("event {ev} for AUTHENTICATE or IDLE"));
                }
                if ev == "CommandSent" && (s.m(XOUT) == 0 || self.pending_of_a(e, s).0) {
                    e.violation(s, "C04", "CommandSent although a fragment was not sent");
                    e.violation(s, "C02", "CommandSent although a fragment was not sent");
                }
            }
            "AuthenticateStarted" => {
                if s.m(AUTH) != 1 {
                    let m = format!("AuthenticateStarted in state {} of AUTHENTICATE", s.m(AUTH));
                    e.violation(s, "C06", m);
                }
                s.set(AUTH, 2);
            }
            "AuthenticateContinuationRequestReceived" => {
                if s.m(AUTH) != 2 {
                    let m = format!("authentication data is requested in state {} of AUTHENTICATE", s.m(AUTH));
                    e.violation(s, "C06", m);
                }
                s.set(AUTH, 3);
            }
            "AuthenticateStatusReceived" => {
                if s.m(AUTH) < 1 {
                    e.violation(s, "C06", "AuthenticateStatusReceived without AUTHENTICATE");
                }
                let ca = f["command_authenticate"];
                let t = vty(ca);
                let exp = |n: &str| -> Option<V> {
                    if n == "tag" {
                        vfield(e, s, self.a(), self.cmd, "Command", "tag")
                    } else {
                        vfield(e, s, body, NOTY, "Authenticate", n)
                    }
                };
                for n in ["tag", "mechanism", "initial_response"] {
                    let got = vfield(e, s, ca, t, "CommandAuthenticate", n);
                    if got.is_none() || got != exp(n) {
                        e.violation(s, "C06", format!("AuthenticateStatusReceived reports another {n}"));
                        e.violation(s, "C04", format!("AuthenticateStatusReceived reports another {n}"));
                        break;
                    }
                }
            }
            "IdleCommandSent" => {
                if s.m(IDLE) != 1 {
                    let m = format!("IdleCommandSent in state {} of IDLE", s.m(IDLE));
                    e.violation(s, "C07", m);
                }
                s.set(IDLE, 2);
            }
            "IdleAccepted" => {
                if s.m(IDLE) != 2 {
                    let m = format!("IdleAccepted in state {} of IDLE", s.m(IDLE));
                    e.violation(s, "C07", m);
                }
                s.set(IDLE, 3);
            }
            "IdleRejected" => {
                if s.m(IDLE) < 1 {
                    e.violation(s, "C07", "IdleRejected without IDLE");
                }
            }
            "IdleDoneSent" => {
                if s.m(IDLE) != 5 {
                    let m = format!("IdleDoneSent in state {} of IDLE", s.m(IDLE));
                    e.violation(s, "C07", m);
                }
            }
            _ => {}
        }
        if term {
            s.set(AST, 3);
            s.set(GRANT, 0);
            s.set(AUTH, 0);
            s.set(IDLE, 0);
            s.mon[DATA] = int(0);
        }
    }
    fn need_input(&self, e: &mut Eng, s: &mut State) {
        if s.mon[HALF] != int(0) {
            e.violation(s, "C10", "input is requested in the middle of a fragment");
            e.violation(s, "C02", "the rest of a fragment waits for the server");
        }
        if s.m(GREET) == 0 {
            return;
        }
        let (text, _) = self.pending_of_a(e, s);
        match s.m(AST) {
            1 => {
                // A may only wait behind a command enqueued earlier
                let blocked = e.reach(s, s.mem[0], &mut |v| is_cmd(v) && class_of(v) == "pre");
                if !blocked {
                    e.violation(s, "C10", "more input is requested although a queued command could be sent");
                }
            }
            2 => {
                let waits_for_server = matches!(s.m(AUTH), 2 | 3) || matches!(s.m(IDLE), 2 | 3);
                if waits_for_server {
                    return;
                }
                if s.m(AUTH) > 0 {
                    let m = format!("more input is requested in state {} of AUTHENTICATE although there is something to do", s.m(AUTH));
                    e.violation(s, "C10", m);
                    return;
                }
                if s.m(IDLE) > 0 {
                    let m = format!("more input is requested in state {} of IDLE although there is something to do", s.m(IDLE));
                    e.violation(s, "C10", m);
                    return;
                }
                if s.m(GRANT) == 1 {
                    e.violation(s, "C10", "more input is requested although an accepted literal could be sent");
                    e.violation(s, "C02", "the continuation request for a literal does not lead to the literal being sent");
                    return;
                }
                // the next fragment to be sent must be a synchronizing literal
                let a = self.a();
                let mut fr: BTreeSet<(i128, i128)> = BTreeSet::new();
                e.reach(s, s.mem[0], &mut |v| {
                    if let Some((c, col, m)) = tok_parts(v) {
                        if c == a {
                            fr.insert((col, m));
                        }
                    }
                    false
                });
                let waiting = fr.iter().any(|x| x.1 & SYNC != 0);
                if !waiting {
                    let m = if text { "more input is requested although more of a command could be sent" } else { "more input is requested although the end of a sent command was not reported" };
                    e.violation(s, "C10", m);
                }
            }
            _ => {
                let blocked = e.reach(s, s.mem[0], &mut |v| is_cmd(v));
                let _ = blocked;
            }
        }
    }
    /// An empty literal may be left out, as if it were sent.
    fn skipped(&self, e: &mut Eng, s: &mut State) {
        if s.m(AST) != 2 || s.m(XOUT) != 0 {
            return;
        }
        for mask in [SYNC, NONSYNC] {
            if known_bool(e, s, call("isempty", vec![tok(self.a(), 1, mask)], NOTY)) == Some(true) {
                if mask == SYNC && s.m(GRANT) == 0 {
                    e.violation(s, "C02", "what follows a synchronizing literal is sent without a continuation request for it");
                }
                s.set(XOUT, 1);
                s.set(GRANT, 0);
            }
        }
    }
    fn lost(&self, e: &mut Eng, s: &mut State) {
        if s.m(AST) == 1 || s.m(AST) == 2 {
            let (_, h) = self.pending_of_a(e, s);
            if !h {
                e.violation(s, "C04", "a command is dropped without its end being reported");
            }
            if s.m(XOUT) == 0 {
                let a = self.a();
                let mut x = false;
                e.reach(s, s.mem[0], &mut |v| {
                    if let Some((c, col, _)) = tok_parts(v) {
                        x |= c == a && col == 1;
                    }
                    if let Val::Ext(k, f) = &*g(v) {
                        x |= nm_s(*k) == "frags" && f[0] == a && (f[1] == num(N) || f[1] == num(M));
                    }
                    x |= s.m(AST) == 1 && v == a;
                    false
                });
                if !x {
                    self.skipped(e, s);
                }
                if !x && s.m(XOUT) == 0 {
                    e.violation(s, "C02", "a fragment of a command is dropped");
                }
            }
        }
    }
}

fn want(p: &Prog, k: &str) -> Result<u32, String> {
    p.by_key.get(k).copied().ok_or(format!("function {k} not found"))
}

pub fn run(p: Rc<Prog>, cfg: &Cfg) -> Result<RunOut, String> {
    let ty = |n: &str| ty_by_path(&p, n).ok_or(format!("type {n} not found"));
    let env = Rc::new(ClientEnv {
        frag: ty("imap_codec::encode::Fragment")?,
        mode: ty("imap_types::core::LiteralMode")?,
        cmd: ty("imap_types::command::Command")?,
        handle: ty("client::CommandHandle")?,
    });
    let opts = ty("client::Options")?;
    let f_new = want(&p, "client::Client::new")?;
    let f_enq = want(&p, "client::Client::enqueue_command")?;
    let f_next = want(&p, "<client::Client as State>::next")?;
    let f_inp = want(&p, "<client::Client as State>::enqueue_input")?;
    let f_auth = want(&p, "client::Client::set_authenticate_data")?;
    let f_idle = want(&p, "client::Client::set_idle_done")?;
    let mut e = Eng::new(p.clone(), env.clone());
    cfg.apply(&mut e);
    let mut q = Queue::new();
    let mut samples = vec![];
    let st = State::new(NMON);
    let me = mk(Val::Ref(0, Box::new([])));
    let panicked = |e: &mut Eng, s: &State, op: &str, m: &str| {
        *e.panics.entry(format!("{op}: {m}")).or_insert(0) += 1;
        e.violation(s, "G01", format!("{op} may panic: {m}"));
    };
    {
        let mut s = st;
        s.push(undef());
        for (mut s, o) in e.exec(s, f_new, vec![fixed("options", opts)]) {
            match o {
                Out::Ret(v) => {
                    s.mem[0] = e.freeze(&s, v);
                    crate::handle::created(&mut e, &s, s.mem[0], WHO);
                    q.push(&e, s, 1);
                }
                Out::Panic(m) => panicked(&mut e, &s, "Client::new", &m),
                _ => {}
            }
        }
    }
    while let Some(s0) = q.todo.pop_front() {
        e.bump("boundary states");
        if e.stop() || e.incomplete.is_some() && e.steps > e.max_steps {
            break;
        }
        if samples.len() < 6 {
            samples.push(format!("state {}: {}", e.stats["boundary states"], show(&p, s0.mem[0])));
        }
        let before = s0.mem[0];
        // --- enqueue_command
        let mut alts: Vec<&str> = vec![];
        if s0.m(AST) == 0 {
            alts.push("pre");
            alts.push("A");
        } else {
            alts.push("post");
        }
        for k in alts {
            let (cv, hv) = match k {
                "A" => (env.a(), env.ha()),
                "pre" => (fixed("Σpre", env.cmd), fixed("Σhpre", env.handle)),
                _ => (fixed("Σpost", env.cmd), fixed("Σhpost", env.handle)),
            };
            let mut s = s0.clone();
            s.note(format!("enqueue_command({k})"));
            for (mut s, o) in e.exec(s, f_enq, vec![me, cv]) {
                match o {
                    Out::Ret(v) => {
                        let v = e.freeze(&s, v);
                        if k == "A" {
                            s.set(AST, 1);
                        }
                        if opaque(v) && matches!(class_of(v).as_str(), "hA" | "hpre" | "hpost") {
                            e.violation(&s, "C04", "enqueue_command returns the handle of another command");
                        }
                        crate::handle::operated(&mut e, &s, s.mem[0], Some(v), WHO, "enqueue_command");
                        e.subst(&mut s, v, hv);
                        remerge(&e, &mut s);
                        env.lost(&mut e, &mut s);
                        q.push(&e, s, 1);
                    }
                    Out::Panic(m) => panicked(&mut e, &s, "Client::enqueue_command", &m),
                    _ => {}
                }
            }
        }
        // --- enqueue_input
        {
            let mut s = s0.clone();
            s.note("enqueue_input");
            let b = e.fresh(&mut s, "bytes", NOTY);
            for (mut s, o) in e.exec(s, f_inp, vec![me, b]) {
                match o {
                    Out::Ret(_) => {
                        env.lost(&mut e, &mut s);
                        crate::handle::operated(&mut e, &s, s.mem[0], None, WHO, "enqueue_input");
                        q.push(&e, s, 1)
                    }
                    Out::Panic(m) => panicked(&mut e, &s, "Client::enqueue_input", &m),
                    _ => {}
                }
            }
        }
        // --- set_authenticate_data
        {
            let mut s = s0.clone();
            s.note("set_authenticate_data");
            let d = e.fresh(&mut s, "data", NOTY);
            for (mut s, o) in e.exec(s, f_auth, vec![me, d]) {
                match o {
                    Out::Ret(v) => {
                        let v = e.freeze(&s, v);
                        let Some((k, f)) = view(&p, v) else {
                            if !s.taint {
                                e.violation(&s, "C09", "set_authenticate_data returns something unknown");
                            }
                            continue;
                        };
                        let x = f["0"];
                        let want = s.m(AST) == 2 && s.m(AUTH) == 3;
                        if k == "Ok" {
                            if s.m(AST) == 2 {
                                if !want {
                                    e.violation(&s, "C06", "set_authenticate_data is accepted although no data is requested");
                                } else if x != env.ha() {
                                    e.violation(&s, "C06", "set_authenticate_data returns the handle of another command");
                                }
                                if want {
                                    s.set(AUTH, 4);
                                    s.mon[DATA] = d;
                                }
                            } else if !matches!(class_of(x).as_str(), "hpre" | "hpost") {
                                e.violation(&s, "C09", "set_authenticate_data returns a handle that was never given out");
                            }
                        } else {
                            if want {
                                e.violation(&s, "C06", "set_authenticate_data is refused although data is requested");
                            }
                            if x != d {
                                e.violation(&s, "C09", "a refused set_authenticate_data does not return the data");
                            }
                            if s.mem[0] != before {
                                e.violation(&s, "C09", "a refused set_authenticate_data changes the state of the client");
                            }
                        }
                        env.lost(&mut e, &mut s);
                        crate::handle::operated(&mut e, &s, s.mem[0], None, WHO, "set_authenticate_data");
                        q.push(&e, s, 1);
                    }
                    Out::Panic(m) => panicked(&mut e, &s, "Client::set_authenticate_data", &m),
                    _ => {}
                }
            }
        }
        // --- set_idle_done
        {
            let mut s = s0.clone();
            s.note("set_idle_done");
            for (mut s, o) in e.exec(s, f_idle, vec![me]) {
                match o {
                    Out::Ret(v) => {
                        let v = e.freeze(&s, v);
                        let Some((k, f)) = view(&p, v) else {
                            if !s.taint {
                                e.violation(&s, "C09", "set_idle_done returns something unknown");
                            }
                            continue;
                        };
                        let want = s.m(AST) == 2 && s.m(IDLE) == 3;
                        if k == "Some" {
                            let x = f["0"];
                            if s.m(AST) == 2 {
                                if !want {
                                    e.violation(&s, "C07", "set_idle_done is accepted although IDLE was not accepted");
                                } else if x != env.ha() {
                                    e.violation(&s, "C07", "set_idle_done returns the handle of another command");
                                }
                                if want {
                                    s.set(IDLE, 4);
                                }
                            } else if !matches!(class_of(x).as_str(), "hpre" | "hpost") {
                                e.violation(&s, "C09", "set_idle_done returns a handle that was never given out");
                            }
                        } else {
                            if want {
                                e.violation(&s, "C07", "set_idle_done is refused although IDLE was accepted");
                            }
                            if s.mem[0] != before {
                                e.violation(&s, "C09", "a refused set_idle_done changes the state of the client");
                            }
                        }
                        env.lost(&mut e, &mut s);
                        crate::handle::operated(&mut e, &s, s.mem[0], None, WHO, "set_idle_done");
                        q.push(&e, s, 1);
                    }
                    Out::Panic(m) => panicked(&mut e, &s, "Client::set_idle_done", &m),
                    _ => {}
                }
            }
        }
        // --- next
        let mut s = s0.clone();
        s.note("next");
        for (mut s, o) in e.exec(s, f_next, vec![me]) {
            let v = match o {
                Out::Ret(v) => e.freeze(&s, v),
                Out::Panic(m) => {
                    panicked(&mut e, &s, "Client::next", &m);
                    continue;
                }
                _ => continue,
            };
            let Some((k, f)) = view(&p, v) else {
                if !s.taint {
                    e.violation(&s, "C08", "next returns something unknown");
                }
                continue;
            };
            if k == "Ok" {
                let ev = f["0"];
                s.note(format!("=> event {}", show(&p, ev)));
                e.bump("events");
                env.event(&mut e, &mut s, ev);
            } else {
                let i = f["0"];
                let er = match view(&p, i) {
                    Some((k, f)) if k == "Error" => Some(view(&p, f["0"]).map(|x| x.0).unwrap_or_default()),
                    _ => None,
                };
                let none = Default::default();
                match &er {
                    Some(n) => env.settle(&mut e, &mut s, Some((&format!("error {n}"), &none))),
                    None => env.settle(&mut e, &mut s, None),
                }
                match view(&p, i) {
                    Some((k, f)) if k == "Io" => match view(&p, f["0"]) {
                        Some((k, f)) if k == "Output" => {
                            s.note(format!("=> output {}", show(&p, f["0"])));
                            e.bump("outputs");
                            env.output(&mut e, &mut s, f["0"]);
                        }
                        Some((k, _)) if k == "NeedMoreInput" => {
                            s.note("=> more input needed");
                            e.bump("input requests");
                            env.need_input(&mut e, &mut s);
                        }
                        _ => {
                            if !s.taint {
                                e.violation(&s, "C08", "next returns something unknown");
                            }
                        }
                    },
                    Some((k, _)) if k == "Error" => {
                        s.note("=> error");
                        e.bump("errors");
                    }
                    _ => {
                        if !s.taint {
                            e.violation(&s, "C08", "next returns something unknown");
                        }
                    }
                }
            }
            env.lost(&mut e, &mut s);
            crate::handle::operated(&mut e, &s, s.mem[0], None, WHO, "next");
            q.push(&e, s, 1);
        }
    }
    let mut floors = vec![];
    floors.extend(e.notes.get("floor").into_iter().flatten().cloned());
    for k in ["events", "outputs", "input requests", "errors", "generators created", "handles generated"] {
        if e.stats.get(k).copied().unwrap_or(0) == 0 {
            floors.push(format!("no {k} explored"));
        }
    }
    Ok(RunOut { viol: e.viol.clone(), states: q.seen.len() as u64, transitions: q.transitions, tainted: q.tainted, eng: e, floors, samples })
}
