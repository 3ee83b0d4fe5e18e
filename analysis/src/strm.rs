//! The stream: every byte of the peer to the client/server and back, over TCP and TLS.
//!
//! The bytes of each direction are numbered: raw bytes received and sent, and with TLS also the
//! decrypted and the encrypted ones. Every sequence of calls of `next` and `flush` is explored, where
//! every operation of the socket completes with any number of bytes, fails, or stays pending, and a
//! pending call may be dropped and repeated.
use crate::common::*;
use crate::eng::*;
use crate::ir::*;
use crate::models::*;
use crate::num;
use crate::recv::*;
use crate::val::*;
use std::collections::{BTreeSet, VecDeque};
use std::rc::Rc;

// 0 is recv::GAP
const TIN: usize = 1; // received from the socket up to
const TOUT: usize = 2; // written to the socket up to
const AIN: usize = 3; // given to the client/server up to
const AOUT: usize = 4; // output by the client/server up to
const CIN: usize = 5; // TLS: consumed up to
const PDEC: usize = 6; // TLS: decrypted up to
const PREAD: usize = 7; // TLS: taken out up to
const PW: usize = 8; // TLS: accepted for encryption up to
const CGEN: usize = 9; // TLS: encrypted up to
const CW: usize = 10; // TLS: taken out up to
const LAST: usize = 11; // the client/server: 0 not called, 1 output, 2 needs input, 3 event, 4 error
const LASTV: usize = 12;
const FIN: usize = 13; // 1 end of input, 2 error, 3 nothing can be written, 4 TLS error
const ERRV: usize = 14;
const BLOCK: usize = 15; // 1 reading, 2 writing
const TLS: usize = 16;
const OP: usize = 17; // 0 next, 1 flush
const SPIN: usize = 18;
const IDLE: usize = 19;
const CNF: usize = 20; // TLS: the peer closed the connection
const SEOF: usize = 21; // TLS: an empty input was taken for the end of the stream
const DIRTY: usize = 22; // TLS: there may be as many encrypted bytes as the library keeps
const RAW: usize = 23; // TLS: the library was given bytes that it was not asked to process
const NMON: usize = 24;

const R: i128 = 1;
const W: i128 = 2;

struct StrmEnv {
    b: RecvEnv,
    kind_ty: Ty,
    errno_ty: Ty,
    /// The numbers of bytes that are of interest.
    sizes: Vec<i128>,
}
fn le(a: V, b: V) -> V {
    not(lt(b, a))
}
/// What is behind references and wrappers around references.
fn behind(e: &Eng, st: &State, v: V) -> V {
    let mut v = e.deref(st, v);
    for _ in 0..8 {
        match &*g(v) {
            Val::Ext(k, f) if matches!(nm_s(*k).as_str(), "bufreader" | "bufwriter") => v = e.deref(st, f[0]),
            _ => break,
        }
    }
    v
}
fn all_of(e: &Eng, v: V, want: &str) -> bool {
    let _ = e;
    is_kind(v, want)
}
impl StrmEnv {
    fn props(&self, s: &State, main: &str) -> Vec<String> {
        let mut p = vec![main.to_string()];
        let mut t = &s.trace;
        while let Some(x) = t {
            if x.what.ends_with("is dropped") && main != "T03" {
                p.push("T02".into());
                break;
            }
            t = &x.prev;
        }
        if s.m(TLS) == 1 && main != "T06" {
            p.push("T06".into());
        }
        p
    }
    fn bad(&self, e: &mut Eng, s: &State, main: &str, msg: &str) {
        for p in self.props(s, main) {
            e.violation(s, &p, msg);
        }
    }
    fn must(&self, e: &mut Eng, s: &State, cond: V, main: &str, msg: &str) -> bool {
        if e.known(s, cond) == Some(1) {
            return true;
        }
        let mut t = s.clone();
        if !e.assume_eq(&mut t, cond, 0) {
            return true;
        }
        let x = example(e, &t);
        t.note(format!("required: {}{x}", show(&e.p, cond)));
        self.bad(e, &t, main, msg);
        false
    }
    fn must_eq(&self, e: &mut Eng, s: &State, a: V, b: V, main: &str, msg: &str) -> bool {
        if e.same(s, a, b) {
            return true;
        }
        let c = eq_int(a, b);
        self.must(e, s, c, main, msg)
    }
    fn progress(&self, s: &mut State) {
        s.set(SPIN, 0);
    }
    /// Something happened that does not get anything done.
    fn spin(&self, e: &mut Eng, s: &mut State) -> bool {
        let n = s.m(SPIN) + 1;
        s.set(SPIN, n);
        if n >= 4 {
            self.bad(e, s, "T03", "the same is done again and again although nothing happens");
            return false;
        }
        true
    }
    fn ioerr(&self, e: &Eng, s: &mut State, kind: Option<&str>) -> V {
        let k = match kind.and_then(|k| variant_ix(&e.p, self.kind_ty, k)) {
            Some(i) => mk(Val::Adt(self.kind_ty, i, vec![].into())),
            None => {
                let k = e.fresh(s, "errkind", self.kind_ty);
                let no: BTreeSet<i128> = ["WouldBlock", "Interrupted", "WriteZero", "UnexpectedEof"]
                    .iter()
                    .filter_map(|n| e.p.types.get(self.kind_ty as usize)?.variants.iter().find(|v| v.name == *n).map(|v| v.disc))
                    .collect();
                let d = e.disc_of(k, self.kind_ty);
                for x in no {
                    e.assume_ne(s, d, x);
                }
                k
            }
        };
        let id = e.fresh(s, "ioerr", NOTY);
        ext("ioerr", vec![k, id])
    }
    /// No operation of the socket may follow the end of the stream or a final result.
    fn may_poll(&self, e: &mut Eng, s: &State, what: &str) -> bool {
        if s.m(FIN) != 0 {
            self.bad(e, s, "T03", &format!("{what} although the stream ended or failed"));
            return false;
        }
        if matches!(s.m(LAST), 3 | 4) {
            self.bad(e, s, "T05", &format!("{what} although an event or error is to be returned"));
            return false;
        }
        true
    }
    /// Room for `n` bytes is made by giving it a name.
    fn some_count(&self, e: &Eng, s: &mut State, what: &str, max: V) -> V {
        let n = e.number(s, what);
        s.cons.push(e.numcon(plus(n, -1), false).unwrap());
        if !matches!(&*g(max), Val::Top) {
            s.cons.push(e.numcon(sub(max, n), false).unwrap());
        }
        n
    }
    /// One poll of an operation of the socket: (state, result) or pending.
    fn leaf(&self, e: &mut Eng, st: &State, leaf: V, rty: Ty) -> Option<Res> {
        let Val::Ext(k, f) = &*g(leaf) else { return None };
        let k = nm_s(*k);
        let op = k.strip_prefix("leaf:")?.to_string();
        let read = op.starts_with("read");
        let mut s = st.clone();
        e.bump(if read { "reads" } else { "writes" });
        if !self.may_poll(e, &s, if read { "the socket is read" } else { "the socket is written" }) {
            return Some(vec![]);
        }
        let side = behind(e, &s, f[0]);
        if !(is_kind(side, "tcp") || is_kind(side, if read { "rhalf" } else { "whalf" })) {
            e.undecided(&s, "T01", "an operation of an unknown stream");
            s.taint = true;
            return None;
        }
        let mut out = vec![];
        // pending
        let pending = |mut s: State, out: &mut Res| {
            let b = s.m(BLOCK) | if read { R } else { W };
            s.set(BLOCK, b);
            out.push((s, Out::Cancel));
        };
        let done = |s: &mut State| {
            let b = s.m(BLOCK) & !(if read { R } else { W });
            s.set(BLOCK, b);
            s.set(IDLE, 0);
        };
        // failed
        let fail = |e: &mut Eng, mut s: State, out: &mut Res| {
            done(&mut s);
            s.note(if read { "reading fails" } else { "writing fails" });
            let v = self.ioerr(e, &mut s, None);
            s.set(FIN, 2);
            s.mon[ERRV] = v;
            e.bump("failures");
            out.push((s, Out::Ret(err(rty, v))));
        };
        if matches!(op.as_str(), "flush" | "shutdown") {
            let mut t = s.clone();
            done(&mut t);
            out.push((t, Out::Ret(ok(rty, unit()))));
            pending(s.clone(), &mut out);
            fail(e, s, &mut out);
            return Some(out);
        }
        if read {
            let target = behind(e, &s, f[1]);
            // end of input
            let full = match op.as_str() {
                "read" => {
                    let n = self.room(e, &s, f[1])?;
                    Some(n)
                }
                _ => {
                    if range(target).is_none() && !matches!(&*g(target), Val::List(l) if l.is_empty()) {
                        return None;
                    }
                    None
                }
            };
            pending(s.clone(), &mut out);
            fail(e, s.clone(), &mut out);
            let mut t = s.clone();
            done(&mut t);
            t.note("the socket is at its end");
            e.bump("ends of input");
            t.set(FIN, 1);
            out.push((t, Out::Ret(ok(rty, int(0)))));
            // bytes
            done(&mut s);
            self.progress(&mut s);
            let max = full.unwrap_or(top());
            let n = self.some_count(e, &mut s, "k", max);
            let (p, q) = (s.mon[TIN], lin_add(s.mon[TIN], n, 1));
            s.mon[TIN] = q;
            s.note("bytes arrive");
            let r = ok(rty, n);
            for (s, o) in self.put(e, &s, f[1], p, q, full)? {
                out.push((s, match o { Out::Ret(_) => Out::Ret(r), o => o }));
            }
            return Some(out);
        }
        // writing
        let src = behind(e, &s, f[1]);
        let (x, y) = match range(src) {
            Some(r) => r,
            None if matches!(&*g(src), Val::List(l) if l.is_empty()) => (int(0), int(0)),
            None => {
                e.undecided(&s, "T01", format!("what is written is {}", show(&e.p, src)));
                return None;
            }
        };
        let all = op.contains("all");
        for (mut s, empty) in e.branch(&s, eq_int(x, y)) {
            if empty {
                // nothing happens
                done(&mut s);
                let v = if all { unit() } else { int(0) };
                out.push((s, Out::Ret(ok(rty, v))));
                continue;
            }
            if s.m(TLS) == 1 {
                let c = s.mon[CW];
                let lo = s.mon[TOUT];
                let _ = (c, lo);
            }
            let at = s.mon[TOUT];
            if !self.must_eq(e, &s, x, at, "T01", "the bytes written to the socket do not follow those written before") {
                continue;
            }
            let lim = if s.m(TLS) == 1 { s.mon[CW] } else { s.mon[AOUT] };
            if !self.must(e, &s, le(y, lim), "T01", "bytes are written to the socket that are not output") {
                continue;
            }
            pending(s.clone(), &mut out);
            fail(e, s.clone(), &mut out);
            // nothing accepted
            let mut t = s.clone();
            done(&mut t);
            t.note("the socket accepts nothing");
            e.bump("writes that accept nothing");
            t.set(FIN, 3);
            if all {
                let v = self.ioerr(e, &mut t, Some("WriteZero"));
                t.mon[ERRV] = v;
                out.push((t, Out::Ret(err(rty, v))));
            } else {
                out.push((t, Out::Ret(ok(rty, int(0)))));
            }
            let len = sub(y, x);
            if all {
                // part of it, then pending or failed
                let mut t = s.clone();
                let n = self.some_count(e, &mut t, "w", len);
                t.mon[TOUT] = lin_add(x, n, 1);
                let mut adv = vec![];
                if op.ends_with("buf") {
                    adv = self.advance(e, &t, f[1], n)?;
                } else {
                    adv.push(t);
                }
                for t in adv {
                    t.clone().note("part of it is written");
                    pending(t.clone(), &mut out);
                    fail(e, t, &mut out);
                }
                let mut t = s;
                done(&mut t);
                self.progress(&mut t);
                t.mon[TOUT] = y;
                if op.ends_with("buf") {
                    for t in self.advance(e, &t, f[1], len)? {
                        out.push((t, Out::Ret(ok(rty, unit()))));
                    }
                } else {
                    out.push((t, Out::Ret(ok(rty, unit()))));
                }
            } else {
                let mut t = s;
                done(&mut t);
                self.progress(&mut t);
                let n = self.some_count(e, &mut t, "w", len);
                t.mon[TOUT] = lin_add(x, n, 1);
                t.note("bytes are written");
                if op.ends_with("buf") {
                    for t in self.advance(e, &t, f[1], n)? {
                        out.push((t, Out::Ret(ok(rty, n))));
                    }
                } else {
                    out.push((t, Out::Ret(ok(rty, n))));
                }
            }
        }
        Some(out)
    }
    /// Drops the first bytes of what a reader or buffer holds.
    fn advance(&self, e: &mut Eng, st: &State, r: V, n: V) -> Option<Vec<State>> {
        let mut s = st.clone();
        let v = e.deref(st, r);
        let (x, y) = range(behind(e, st, r))?;
        let k = lin_add(x, n, 1);
        match &*g(v) {
            Val::Ext(kk, f) if nm_s(*kk) == "bufreader" => {
                if range(f[0]).is_some() {
                    e.store_ref(&mut s, r, ext("bufreader", vec![slice(k, y)]));
                } else {
                    return self.advance(e, st, f[0], n);
                }
            }
            _ => {
                let nv = if is_kind(v, "buf") { buf(k, y) } else { slice(k, y) };
                if !e.store_ref(&mut s, r, nv) {
                    return None;
                }
            }
        }
        Some(vec![s])
    }
    /// The length of an array of bytes (or of what was read into it before).
    fn room(&self, e: &Eng, st: &State, r: V) -> Option<V> {
        let v = e.deref(st, r);
        if is_kind(v, "arr") {
            let Val::Ext(_, f) = &*g(v) else { return None };
            return Some(f[2]);
        }
        if let Some(f) = call_parts(v, "repeat") {
            return Some(f[1]);
        }
        match &*g(v) {
            Val::List(l) if !l.is_empty() && l.iter().all(|x| x.0 == ONE && is_int(x.1).is_some()) => Some(int(l.len() as i128)),
            _ => None,
        }
    }
    /// Stores or appends bytes.
    fn put(&self, e: &mut Eng, st: &State, r: V, p: V, q: V, array: Option<V>) -> Option<Res> {
        let mut s = st.clone();
        if let Some(n) = array {
            return e.store_ref(&mut s, r, ext("arr", vec![p, q, n])).then(|| ret(s, unit()));
        }
        let mut r = r;
        loop {
            let v = e.deref(&s, r);
            match &*g(v) {
                Val::Ext(k, f) if matches!(nm_s(*k).as_str(), "bufwriter" | "bufreader") => r = f[0],
                _ => break,
            }
        }
        let c = Callee { name: Name { ty: "BytesMut".into(), tr: String::new(), m: "extend_from_slice".into() }, ..Default::default() };
        let res = self.b.call(e, &s, &c, &[r, slice(p, q)], NOTY, 0)?;
        Some(self.gaps(e, res))
    }
    fn gaps(&self, e: &mut Eng, r: Res) -> Res {
        r.into_iter()
            .filter(|(s, _)| {
                let bad = s.m(GAP) == 1;
                if bad {
                    self.bad(e, s, "T01", "bytes are put together that do not follow each other");
                }
                !bad
            })
            .collect()
    }
    /// Runs a future to completion, or until it stays pending.
    fn run_future(&self, e: &mut Eng, st: &State, fut: V, rty: Ty, sp: u32) -> Option<Res> {
        let v = e.deref(st, fut);
        match &*g(v) {
            Val::Clo(k, _) if *k != u32::MAX => Some(e.exec(st.clone(), *k, vec![v, fixed("cx", NOTY)])),
            Val::Ext(k, _) if nm_s(*k).starts_with("leaf:") => self.leaf(e, st, v, rty),
            Val::Ext(k, f) if nm_s(*k).starts_with("race:") => race(e, st, &nm_s(*k)[5..], f, rty, &mut |e, s, f, t| self.run_future(e, s, f, t, sp), &|s, from| s.set(BLOCK, from.m(BLOCK))),
            Val::Ext(k, f) if nm_s(*k) == "cond" => {
                let mut out = vec![];
                for (s, on) in e.branch(st, f[0]) {
                    if on {
                        out.extend(self.run_future(e, &s, f[1], rty, sp)?);
                    } else {
                        out.push((s, Out::Cancel));
                    }
                }
                Some(out)
            }
            _ => None,
        }
    }
    /// The client/server is asked for what to do.
    fn state_next(&self, e: &mut Eng, st: &State, dty: Ty) -> Option<Res> {
        let mut s = st.clone();
        if s.m(FIN) != 0 {
            self.bad(e, &s, "T03", "the client/server is asked for more although the stream ended or failed");
            return Some(vec![]);
        }
        if matches!(s.m(LAST), 3 | 4) {
            self.bad(e, &s, "T05", "the client/server is asked for more although an event or error is to be returned");
            return Some(vec![]);
        }
        if s.m(IDLE) == 1 {
            self.bad(e, &s, "T03", "the client/server is asked again although it needs input and there is none");
            return Some(vec![]);
        }
        self.progress(&mut s);
        let p = e.p.clone();
        let ti = p.types.get(dty as usize)?;
        let (evt, it) = (*ti.args.first()?, *ti.args.get(1)?);
        let intr = p.types.get(it as usize)?;
        let iox = variant_ix(&p, it, "Io")?;
        let erx = variant_ix(&p, it, "Error")?;
        let iot = intr.variants[iox as usize].fields.first()?.1;
        let ert = intr.variants[erx as usize].fields.first()?.1;
        let (nmi, outx) = (variant_ix(&p, iot, "NeedMoreInput")?, variant_ix(&p, iot, "Output")?);
        let mut out = vec![];
        {
            let mut s = s.clone();
            let v = e.fresh(&mut s, "event", evt);
            s.set(LAST, 3);
            s.mon[LASTV] = v;
            s.note("the client/server returns an event");
            e.bump("events");
            out.push((s, Out::Ret(ok(dty, v))));
        }
        let intv = |x: u32, v: V| err(dty, mk(Val::Adt(it, x, vec![v].into())));
        {
            let mut s = s.clone();
            let v = e.fresh(&mut s, "stateerror", ert);
            s.set(LAST, 4);
            s.mon[LASTV] = v;
            s.note("the client/server returns an error");
            e.bump("errors");
            out.push((s, Out::Ret(intv(erx, v))));
        }
        {
            let mut s = s.clone();
            s.set(LAST, 2);
            s.set(IDLE, 1);
            s.note("the client/server needs input");
            e.bump("input requests");
            out.push((s, Out::Ret(intv(iox, mk(Val::Adt(iot, nmi, vec![].into()))))));
        }
        s.set(LAST, 1);
        let n = self.some_count(e, &mut s, "o", top());
        let (p0, q0) = (s.mon[AOUT], lin_add(s.mon[AOUT], n, 1));
        s.mon[AOUT] = q0;
        s.note("the client/server outputs bytes");
        e.bump("outputs");
        out.push((s, Out::Ret(intv(iox, mk(Val::Adt(iot, outx, vec![buf(p0, q0)].into()))))));
        Some(out)
    }
    fn state_input(&self, e: &mut Eng, st: &State, v: V) -> Option<Res> {
        let mut s = st.clone();
        let v = behind(e, st, v);
        let (x, y) = match range(v) {
            Some(r) => r,
            None if matches!(&*g(v), Val::List(l) if l.is_empty()) => return Some(ret(s, unit())),
            None => {
                e.undecided(&s, "T01", format!("the input of the client/server is {}", show(&e.p, v)));
                return None;
            }
        };
        let mut out = vec![];
        for (mut s1, empty) in e.branch(&s, eq_int(x, y)) {
            if empty {
                out.push((s1, Out::Ret(unit())));
                continue;
            }
            let at = s1.mon[AIN];
            if !self.must_eq(e, &s1, x, at, "T01", "the bytes given to the client/server do not follow those given before") {
                continue;
            }
            let lim = if s1.m(TLS) == 1 { s1.mon[PREAD] } else { s1.mon[TIN] };
            if !self.must(e, &s1, le(y, lim), "T01", "bytes are given to the client/server that were not received") {
                continue;
            }
            e.bump("inputs");
            s1.mon[AIN] = y;
            s1.set(IDLE, 0);
            self.progress(&mut s1);
            out.push((s1, Out::Ret(unit())));
        }
        s.note("input");
        Some(out)
    }
    /// The TLS library.
    fn tls(&self, e: &mut Eng, st: &State, c: &Callee, a: &[V], dty: Ty) -> Option<Res> {
        let m = c.name.m.as_str();
        let mut s = st.clone();
        let r0 = behind(e, st, *a.first()?);
        let conn = any_sub(r0, &mut |x| all_of(e, x, "session"));
        if !conn {
            return None;
        }
        let rest = |e: &mut Eng, s: &State, f: &dyn Fn(&mut Eng, State) -> Option<Res>| f(e, s.clone());
        let _ = rest;
        let writer = is_kind(r0, "tlswriter");
        let reader = is_kind(r0, "tlsreader");
        let unread = lt(s.mon[PREAD], s.mon[PDEC]);
        let unsent = lt(s.mon[CW], s.mon[CGEN]);
        match m {
            "deref" | "deref_mut" | "as_ref" | "as_mut" if !writer && !reader => return Some(ret(s, a[0])),
            "into_inner" => {
                let Val::Ext(_, f) = &*g(r0) else { return None };
                return Some(ret(s, tup(vec![f[0], f[1]])));
            }
            "get_ref" | "get_mut" => {
                let Val::Ext(_, f) = &*g(r0) else { return None };
                return Some(ret(s, tup(vec![f[0], f[1]])));
            }
            "is_handshaking" => return Some(ret(s, int(0))),
            "reader" => return Some(ret(s, ext("tlsreader", vec![r0]))),
            "writer" => return Some(ret(s, ext("tlswriter", vec![r0]))),
            "wants_write" => {
                let mut out = vec![];
                for (mut s, b) in e.branch(&s, unsent) {
                    if b && !self.spin(e, &mut s) {
                        continue;
                    }
                    out.push((s, Out::Ret(int(b as i128))));
                }
                return Some(out);
            }
            "wants_read" => {
                let mut out = vec![];
                for (mut s, b) in e.branch(&s, unread) {
                    let b = !b && s.m(CNF) == 0;
                    if b && !self.spin(e, &mut s) {
                        continue;
                    }
                    out.push((s, Out::Ret(int(b as i128))));
                }
                return Some(out);
            }
            "read_tls" if a.len() == 2 => {
                let src = behind(e, st, a[1]);
                let (x, y) = match range(src) {
                    Some(r) => r,
                    None if matches!(&*g(src), Val::List(l) if l.is_empty()) => (int(0), int(0)),
                    _ => return None,
                };
                let mut out = vec![];
                for (s, b) in e.branch(&s, unread) {
                    if b {
                        // the library may refuse to take more
                        let mut t = s.clone();
                        t.note("too much decrypted data");
                        let v = self.ioerr(e, &mut t, None);
                        out.push((t, Out::Ret(err(dty, v))));
                    }
                    if s.m(CNF) == 1 {
                        let mut s = s;
                        if self.spin(e, &mut s) {
                            out.push((s, Out::Ret(ok(dty, int(0)))));
                        }
                        continue;
                    }
                    for (mut s, empty) in e.branch(&s, eq_int(x, y)) {
                        if empty {
                            s.set(SEOF, 1);
                            s.note("the TLS library is given nothing, and takes that for the end of the stream");
                            out.push((s, Out::Ret(ok(dty, int(0)))));
                            continue;
                        }
                        let at = s.mon[CIN];
                        if !self.must_eq(e, &s, x, at, "T01", "the bytes to be decrypted do not follow those decrypted before") {
                            continue;
                        }
                        let lim = s.mon[TIN];
                        if !self.must(e, &s, le(y, lim), "T01", "bytes are decrypted that were not received") {
                            continue;
                        }
                        self.progress(&mut s);
                        let n = self.some_count(e, &mut s, "c", sub(y, x));
                        s.mon[CIN] = lin_add(x, n, 1);
                        s.set(RAW, 1);
                        s.note("the TLS library takes bytes");
                        for s in self.advance(e, &s, a[1], n)? {
                            out.push((s, Out::Ret(ok(dty, n))));
                        }
                    }
                }
                return Some(out);
            }
            "process_new_packets" => {
                s.set(RAW, 0);
                let mut out = vec![];
                let state = |s: State, out: &mut Res| {
                    let v = ext("iostate", vec![s.mon[PDEC], s.mon[PREAD], s.mon[CGEN], s.mon[CW], s.mon[CNF]]);
                    out.push((s, Out::Ret(ok(dty, v))));
                };
                {
                    let mut t = s.clone();
                    let id = e.fresh(&mut t, "tlserr", NOTY);
                    let v = ext("tlserr", vec![id]);
                    t.note("the TLS library finds an error");
                    t.set(FIN, 4);
                    t.mon[ERRV] = v;
                    e.bump("TLS errors");
                    out.push((t, Out::Ret(err(dty, v))));
                }
                if s.m(CNF) == 1 {
                    state(s, &mut out);
                    return Some(out);
                }
                for close in [false, true] {
                    for reply in [false, true] {
                        let mut t = s.clone();
                        let d = e.number(&mut t, "d");
                        t.cons.push(e.numcon(d, false).unwrap());
                        t.mon[PDEC] = lin_add(t.mon[PDEC], d, 1);
                        if reply {
                            let r = self.some_count(e, &mut t, "r", top());
                            t.mon[CGEN] = lin_add(t.mon[CGEN], r, 1);
                        }
                        if close {
                            t.set(CNF, 1);
                            t.note("the peer closes the TLS connection");
                            e.bump("TLS closures");
                        }
                        state(t, &mut out);
                    }
                }
                return Some(out);
            }
            "write_tls" if a.len() == 2 => {
                let mut out = vec![];
                for (mut s, b) in e.branch(&s, unsent) {
                    if !b {
                        out.push((s, Out::Ret(ok(dty, int(0)))));
                        continue;
                    }
                    self.progress(&mut s);
                    let max = sub(s.mon[CGEN], s.mon[CW]);
                    s.note("encrypted bytes are taken");
                    for part in [false, true] {
                        let mut s = s.clone();
                        let n = if part {
                            self.some_count(e, &mut s, "t", plus(max, -1))
                        } else {
                            s.set(DIRTY, 0);
                            max
                        };
                        if !num::feasible(&s.cons) {
                            continue;
                        }
                        let (p, q) = (s.mon[CW], lin_add(s.mon[CW], n, 1));
                        s.mon[CW] = q;
                        for (s, o) in self.put(e, &s, a[1], p, q, None)? {
                            out.push((s, match o { Out::Ret(_) => Out::Ret(ok(dty, n)), o => o }));
                        }
                    }
                }
                return Some(out);
            }
            "send_close_notify" => {
                let r = self.some_count(e, &mut s, "r", top());
                s.mon[CGEN] = lin_add(s.mon[CGEN], r, 1);
                return Some(ret(s, unit()));
            }
            "set_buffer_limit" => return None,
            "flush" if writer => return Some(ret(s, ok(dty, unit()))),
            "write" | "write_all" if writer && a.len() == 2 => {
                let src = behind(e, st, a[1]);
                let (x, y) = match range(src) {
                    Some(r) => r,
                    None if matches!(&*g(src), Val::List(l) if l.is_empty()) => (int(0), int(0)),
                    _ => return None,
                };
                let mut out = vec![];
                let all = m == "write_all";
                for (s, empty) in e.branch(&s, eq_int(x, y)) {
                    if empty {
                        out.push((s, Out::Ret(ok(dty, if all { unit() } else { int(0) }))));
                        continue;
                    }
                    let at = s.mon[PW];
                    if !self.must_eq(e, &s, x, at, "T01", "the bytes to be encrypted do not follow those encrypted before") {
                        continue;
                    }
                    let lim = s.mon[AOUT];
                    if !self.must(e, &s, le(y, lim), "T01", "bytes are encrypted that are not output") {
                        continue;
                    }
                    let len = sub(y, x);
                    let known = if s.m(DIRTY) == 1 { e.branch(&s, unsent) } else { vec![(s.clone(), false)] };
                    for (s, dirty, small) in known.into_iter().flat_map(|(mut s, dirty)| {
                        s.set(DIRTY, dirty as i128);
                        // so much is always accepted
                        let small = if dirty { int(0) } else { le(len, int(60000)) };
                        e.branch(&s, small).into_iter().map(|(s, small)| (s, dirty, small)).collect::<Vec<_>>()
                    }).collect::<Vec<_>>() {
                        {
                            let mut s = s.clone();
                            self.progress(&mut s);
                            s.mon[PW] = y;
                            self.grow(e, &mut s);
                            out.push((s, Out::Ret(ok(dty, if all { unit() } else { len }))));
                        }
                        if small {
                            continue;
                        }
                        let mut s = s;
                        // only a part is accepted
                        if all {
                            s.note("more than the TLS library accepts at once");
                            s.set(FIN, 5);
                            let v = self.ioerr(e, &mut s, Some("WriteZero"));
                            out.push((s, Out::Ret(err(dty, v))));
                            continue;
                        }
                        e.bump("partial encryptions");
                        if dirty {
                            let mut s = s.clone();
                            s.note("the TLS library accepts nothing before encrypted bytes are taken");
                            if self.spin(e, &mut s) {
                                out.push((s, Out::Ret(ok(dty, int(0)))));
                            }
                        }
                        s.note("the TLS library accepts a part");
                        self.progress(&mut s);
                        let n = self.some_count(e, &mut s, "p", plus(len, -1));
                        s.mon[PW] = lin_add(x, n, 1);
                        self.grow(e, &mut s);
                        out.push((s, Out::Ret(ok(dty, n))));
                    }
                }
                return Some(out);
            }
            "read" if reader && a.len() == 2 => {
                let n = self.room(e, st, a[1])?;
                let mut out = vec![];
                for (mut s, some) in e.branch(&s, unread) {
                    if some {
                        self.progress(&mut s);
                        let mut max = sub(s.mon[PDEC], s.mon[PREAD]);
                        let k = self.some_count(e, &mut s, "x", n);
                        s.cons.push(e.numcon(sub(max, k), false).unwrap());
                        let p = s.mon[PREAD];
                        max = lin_add(p, k, 1);
                        s.mon[PREAD] = max;
                        for (s, o) in self.put(e, &s, a[1], p, max, Some(n))? {
                            out.push((s, match o { Out::Ret(_) => Out::Ret(ok(dty, k)), o => o }));
                        }
                        continue;
                    }
                    if !self.spin(e, &mut s) {
                        continue;
                    }
                    self.nothing(e, s, &mut out, dty, int(0));
                }
                return Some(out);
            }
            "read_to_end" if reader && a.len() == 2 => {
                let mut out = vec![];
                for (mut s, some) in e.branch(&s, unread) {
                    let (p, q) = (s.mon[PREAD], s.mon[PDEC]);
                    if some {
                        self.progress(&mut s);
                        s.mon[PREAD] = q;
                        for (s, o) in self.put(e, &s, a[1], p, q, None)? {
                            match o {
                                Out::Ret(_) => self.nothing(e, s, &mut out, dty, sub(q, p)),
                                o => out.push((s, o)),
                            }
                        }
                    } else if self.spin(e, &mut s) {
                        self.nothing(e, s, &mut out, dty, int(0));
                    }
                }
                return Some(out);
            }
            "fill_buf" | "into_first_chunk" if reader => {
                let mut out = vec![];
                for (mut s, some) in e.branch(&s, unread) {
                    if some {
                        let max = sub(s.mon[PDEC], s.mon[PREAD]);
                        let k = self.some_count(e, &mut s, "x", max);
                        let p = s.mon[PREAD];
                        if self.spin(e, &mut s) {
                            out.push((s, Out::Ret(ok(dty, slice(p, lin_add(p, k, 1))))));
                        }
                    } else if self.spin(e, &mut s) {
                        let mut t = vec![];
                        self.nothing(e, s, &mut t, dty, slice(int(0), int(0)));
                        out.extend(t);
                    }
                }
                return Some(out);
            }
            "consume" if reader && a.len() == 2 => {
                let to = lin_add(s.mon[PREAD], a[1], 1);
                let lim = s.mon[PDEC];
                for (mut s, okk) in e.branch(&s, le(to, lim)) {
                    if !okk {
                        e.undecided(&s, "T01", "more decrypted bytes are consumed than there are");
                        continue;
                    }
                    s.mon[PREAD] = to;
                    self.progress(&mut s);
                    return Some(ret(s, unit()));
                }
                return Some(vec![]);
            }
            _ => {}
        }
        None
    }
    /// More encrypted bytes.
    fn grow(&self, e: &Eng, s: &mut State) {
        let k = self.some_count(e, s, "enc", top());
        s.mon[CGEN] = lin_add(s.mon[CGEN], k, 1);
        s.set(DIRTY, 1);
    }
    /// The answer of the TLS library if there are no decrypted bytes.
    fn nothing(&self, e: &mut Eng, s: State, out: &mut Res, dty: Ty, v: V) {
        let mut s = s;
        if s.m(CNF) == 1 {
            out.push((s, Out::Ret(ok(dty, v))));
            return;
        }
        let k = if s.m(SEOF) == 1 { "UnexpectedEof" } else { "WouldBlock" };
        let x = self.ioerr(e, &mut s, Some(k));
        out.push((s, Out::Ret(err(dty, x))));
    }
    /// The call is pending: it may stay so for any time, and may be dropped.
    fn waiting(&self, e: &mut Eng, s: &mut State) -> bool {
        e.bump("waits");
        let tls = s.m(TLS) == 1;
        let b = s.m(BLOCK);
        let pend: Vec<(V, &str)> = if tls {
            vec![
                (lt(s.mon[TOUT], s.mon[CW]), "encrypted bytes"),
                (lt(s.mon[CW], s.mon[CGEN]), "bytes in the TLS library"),
                (lt(s.mon[PW], s.mon[AOUT]), "bytes that are not encrypted yet"),
            ]
        } else {
            vec![(lt(s.mon[TOUT], s.mon[AOUT]), "bytes")]
        };
        let mut good = true;
        if s.m(OP) == 1 {
            return true;
        }
        if b & R == 0 {
            self.bad(e, s, "T04", "it waits without reading the socket");
            return false;
        }
        if b & W == 0 {
            for (c, what) in pend {
                good &= self.must(e, s, not(c), "T04", &format!("it waits for input although there are {what} to write"));
            }
            if s.m(LAST) != 2 {
                self.bad(e, s, "T04", "it waits for input although the client/server did not ask for it");
                return false;
            }
        }
        if tls {
            if s.m(RAW) == 1 && s.m(CNF) == 0 {
                self.bad(e, s, "T05", "it waits although the TLS library was given bytes that it was not asked to process");
                return false;
            }
            let (x, y) = (s.mon[PREAD], s.mon[PDEC]);
            good &= self.must_eq(e, s, x, y, "T05", "it waits although the TLS library holds decrypted bytes");
            let a = s.mon[AIN];
            good &= self.must_eq(e, s, a, x, "T05", "it waits although there are decrypted bytes the client/server was not given");
            if s.m(CNF) == 0 {
                let (x, y) = (s.mon[CIN], s.mon[TIN]);
                good &= self.must_eq(e, s, x, y, "T05", "it waits although there are received bytes that were not decrypted");
            }
        } else {
            let (x, y) = (s.mon[AIN], s.mon[TIN]);
            good &= self.must_eq(e, s, x, y, "T05", "it waits although there are received bytes the client/server was not given");
        }
        good
    }
    /// The call returns.
    fn returned(&self, e: &mut Eng, s: &mut State, v: V) -> bool {
        let p = e.p.clone();
        let v = e.freeze(s, v);
        let Some((k, f)) = view(&p, v) else {
            e.undecided(s, "T03", format!("the result is {}", show(&p, v)));
            return false;
        };
        let fin = s.m(FIN);
        let (last, lastv) = (s.m(LAST), s.mon[LASTV]);
        let errv = s.mon[ERRV];
        if k == "Ok" {
            if fin != 0 {
                self.bad(e, s, "T03", "success is reported although the stream ended or failed");
                return false;
            }
            if s.m(OP) == 1 {
                e.bump("flushes");
                let pend = if s.m(TLS) == 1 {
                    vec![(s.mon[TOUT], s.mon[CW], "encrypted bytes"), (s.mon[CW], s.mon[CGEN], "bytes in the TLS library"), (s.mon[PW], s.mon[AOUT], "bytes that are not encrypted yet")]
                } else {
                    vec![(s.mon[TOUT], s.mon[AOUT], "bytes")]
                };
                let mut good = true;
                for (x, y, what) in pend {
                    good &= self.must_eq(e, s, x, y, "T07", &format!("flush succeeds although there are {what} to write"));
                }
                return good;
            }
            s.note("=> event");
            if last != 3 {
                self.bad(e, s, "T05", "an event is returned that the client/server did not return");
                return false;
            }
            if f["0"] != lastv {
                self.bad(e, s, "T05", "another event is returned than that of the client/server");
                return false;
            }
            return true;
        }
        let Some((k, f)) = view(&p, f["0"]) else {
            e.undecided(s, "T03", "an unknown error is returned");
            return false;
        };
        s.note(format!("=> {k}"));
        let x = f.get("0").copied();
        if last == 3 {
            self.bad(e, s, "T05", "an event is dropped: an error is returned");
            return false;
        }
        if last == 4 {
            if k != "State" || x != Some(lastv) {
                self.bad(e, s, "T05", "the error of the client/server is not returned");
                return false;
            }
            return true;
        }
        match (fin, k.as_str()) {
            (_, "State") => self.bad(e, s, "T05", "an error is returned that the client/server did not return"),
            (1, "Closed") | (3, "Closed") => {}
            (3, "Io") if x == Some(errv) => {}
            (2, "Io") | (4, "Tls") => {
                if x != Some(errv) {
                    self.bad(e, s, "T03", "another error is reported than that of the stream");
                }
            }
            (0, "Closed") if s.m(CNF) == 1 => {}
            (0, _) => self.bad(e, s, "T03", &format!("{k} is reported although the stream did not end or fail")),
            (5, _) => e.violation(s, "T06", "a large message fails: the TLS library accepts at most 64 KiB at once"),
            (1, _) => self.bad(e, s, "T03", &format!("the end of the stream is reported as {k}")),
            (2, _) => self.bad(e, s, "T03", &format!("an error of the socket is reported as {k}")),
            (3, _) => self.bad(e, s, "T03", &format!("a socket that accepts nothing is reported as {k}")),
            (_, _) => self.bad(e, s, "T03", &format!("a TLS error is reported as {k}")),
        }
        e.bump("errors reported");
        false
    }
}
fn example(e: &Eng, st: &State) -> String {
    let Some(m) = num::model(&st.cons, 14) else { return String::new() };
    let at = |v: V| -> Option<i128> {
        let (t, mut c) = lin_parts(v)?;
        for (x, q) in t {
            c += q * m.get(&x).copied().unwrap_or(0);
        }
        Some(c)
    };
    let _ = e;
    let d = |a: usize, b: usize| at(lin_add(st.mon[b], st.mon[a], -1));
    let mut l = vec![];
    if st.m(TLS) == 1 {
        for (n, a, b) in [("received and not decrypted", CIN, TIN), ("decrypted and not taken", PREAD, PDEC), ("taken and not given to the client/server", AIN, PREAD), ("output and not encrypted", PW, AOUT), ("encrypted and not taken", CW, CGEN), ("encrypted, taken and not written", TOUT, CW)] {
            if let Some(i) = d(a, b).filter(|i| *i != 0) {
                l.push(format!("{n} {i}"));
            }
        }
    } else {
        for (n, a, b) in [("received and not given to the client/server", AIN, TIN), ("output and not written", TOUT, AOUT)] {
            if let Some(i) = d(a, b).filter(|i| *i != 0) {
                l.push(format!("{n} {i}"));
            }
        }
    }
    if l.is_empty() {
        return String::new();
    }
    format!(" (for example, with these numbers of bytes: {})", l.join(", "))
}
impl Env for StrmEnv {
    fn hang(&self) -> Option<&'static str> {
        Some("T03")
    }
    fn call(&self, e: &mut Eng, st: &State, c: &Callee, a: &[V], dty: Ty, sp: u32) -> Option<Res> {
        let n = &c.name;
        let m = n.m.as_str();
        let mut s = st.clone();
        // the client/server
        if n.tr == "State" || c.path.starts_with("State::") || c.path.ends_with("::State::next") || c.path.ends_with("::State::enqueue_input") {
            if m == "next" {
                return self.state_next(e, st, dty);
            }
            if m == "enqueue_input" && a.len() == 2 {
                return self.state_input(e, st, a[1]);
            }
        }
        // futures
        if let Some(k) = ["__select", "__join", "__try_join"].iter().position(|k| m.starts_with(k)) {
            let f = if k == 0 { &a[1..] } else { a };
            return Some(ret(s, ext(["race:select", "race:join", "race:try_join"][k], f.to_vec())));
        }
        if m == "__cond" && a.len() == 2 {
            return Some(ret(s, ext("cond", a.to_vec())));
        }
        if (m == "poll" || m == "{closure#0}") && !a.is_empty() {
            let f = e.deref(st, a[0]);
            if let Val::Ext(..) = &*g(f) {
                let rty = *e.p.types.get(dty as usize)?.args.first()?;
                let r = self.run_future(e, st, f, rty, sp)?;
                return Some(
                    r.into_iter()
                        .map(|(s, o)| {
                            (s, match o {
                                Out::Ret(v) => Out::Ret(mk(Val::Adt(dty, 0, vec![v].into()))),
                                o => o,
                            })
                        })
                        .collect(),
                );
            }
        }
        if (n.ty.starts_with("AsyncReadExt") || n.tr.starts_with("AsyncReadExt") || c.path.contains("AsyncReadExt") || c.path.contains("AsyncWriteExt")) && !a.is_empty() && m != "poll" {
            if matches!(m, "read_buf" | "read" | "write" | "write_buf" | "write_all" | "write_all_buf" | "flush" | "shutdown") {
                return Some(ret(s, ext(&format!("leaf:{m}"), a.to_vec())));
            }
        }
        if c.path.contains("TcpStream") && m == "split" && a.len() == 1 && is_kind(e.deref(st, a[0]), "tcp") {
            return Some(ret(s, tup(vec![ext("rhalf", vec![]), ext("whalf", vec![])])));
        }
        if m == "from_elem" && a.len() == 2 && is_int(a[0]).is_some() {
            return Some(ret(s, call("repeat", vec![a[0], a[1]], NOTY)));
        }
        if a.is_empty() {
            return self.b.call(e, st, c, a, dty, sp);
        }
        let r0 = e.deref(st, a[0]);
        // errors
        if is_kind(r0, "ioerr") && m == "kind" {
            let Val::Ext(_, f) = &*g(r0) else { return None };
            return Some(ret(s, f[0]));
        }
        if c.path.contains("io::Error::") && matches!(m, "new" | "other" | "from") || n.tr == "From" && m == "from" && vty(a[0]) == self.kind_ty && self.kind_ty != NOTY && e.p.types.get(dty as usize).map(|t| t.path.ends_with("io::Error")).unwrap_or(false) {
            let id = e.fresh(&mut s, "ioerr", NOTY);
            let v = ext("ioerr", vec![a[0], id]);
            return Some(ret(s, v));
        }
        if is_kind(r0, "iostate") {
            let Val::Ext(_, f) = &*g(r0) else { return None };
            return Some(ret(s, match m {
                "plaintext_bytes_to_read" => sub(f[0], f[1]),
                "tls_bytes_to_write" => sub(f[2], f[3]),
                "peer_has_closed" => f[4],
                _ => return None,
            }));
        }
        // adapters
        if m == "reader" && a.len() == 1 && (range(r0).is_some() || is_kind(r0, "bufreader")) {
            return Some(ret(s, ext("bufreader", vec![a[0]])));
        }
        if m == "writer" && a.len() == 1 && (range(r0).is_some() || matches!(&*g(r0), Val::List(_))) {
            return Some(ret(s, ext("bufwriter", vec![a[0]])));
        }
        if is_kind(r0, "bufwriter") && matches!(m, "write_all" | "write") && a.len() == 2 {
            let (x, y) = range(behind(e, st, a[1]))?;
            let v = if m == "write" { sub(y, x) } else { unit() };
            return Some(self.put(e, st, a[0], x, y, None)?.into_iter().map(|(s, o)| (s, match o { Out::Ret(_) => Out::Ret(ok(dty, v)), o => o })).collect());
        }
        if let Some(r) = self.tls(e, st, c, a, dty) {
            return Some(r);
        }
        // arrays that were read into
        let r0 = match (call_parts(r0, "repeat"), m) {
            (Some(f), "index" | "get" | "split_at") => ext("arr", vec![int(0), int(0), f[1]]),
            _ => r0,
        };
        if is_kind(r0, "arr") {
            let Val::Ext(_, f) = &*g(r0) else { return None };
            let (p, q, len) = (f[0], f[1], f[2]);
            match m {
                "len" => return Some(ret(s, len)),
                "deref" | "as_ref" | "as_slice" | "borrow" | "deref_mut" | "as_mut" | "as_mut_slice" | "borrow_mut" => return Some(ret(s, a[0])),
                "index" | "get" | "index_mut" | "split_at" | "take" if a.len() == 2 => {
                    let (lo, hi) = if m == "split_at" {
                        (int(0), a[1])
                    } else {
                        let (lo, hi, _) = self.b.bounds(e, st, a[1], int(0), len)?;
                        (lo, hi)
                    };
                    let mut out = vec![];
                    for (s, good) in e.branch(st, le(hi, len)) {
                        if !good {
                            out.push((s, Out::Panic("range out of bounds".into())));
                            continue;
                        }
                        for (mut s, good) in e.branch(&s, le(hi, sub(q, p))) {
                            let v = if good {
                                slice(lin_add(p, lo, 1), lin_add(p, hi, 1))
                            } else {
                                s.note("bytes of an array that were not read");
                                let j = e.number(&mut s, "junk");
                                slice(lin_add(j, lo, 1), lin_add(j, hi, 1))
                            };
                            out.push((s, Out::Ret(match m {
                                "get" => some(dty, v),
                                "split_at" => tup(vec![v, unit()]),
                                _ => v,
                            })));
                        }
                    }
                    return Some(out);
                }
                _ => return None,
            }
        }
        if call_parts(r0, "repeat").is_some() && matches!(m, "deref" | "deref_mut" | "as_mut" | "as_mut_slice" | "borrow_mut" | "index_mut") {
            if m == "index_mut" && e.p.types.get(vty(e.deref(st, *a.get(1)?)) as usize).map(|t| !t.path.ends_with("RangeFull")).unwrap_or(true) {
                return None;
            }
            return Some(ret(s, a[0]));
        }
        // parts of a slice
        if m == "chunks" && a.len() == 2 {
            if let Some((x, y)) = range(r0) {
                return Some(ret(s, ext("chunks", vec![x, y, a[1]])));
            }
        }
        if is_kind(r0, "chunks") {
            let Val::Ext(_, f) = &*g(r0) else { return None };
            let (x, y, k) = (f[0], f[1], f[2]);
            match m {
                "into_iter" | "by_ref" => return Some(ret(s, a[0])),
                "next" => {
                    let mut out = vec![];
                    for (mut s, end) in e.branch(st, eq_int(x, y)) {
                        if end {
                            out.push((s, Out::Ret(none(dty))));
                            continue;
                        }
                        for (mut t, part) in e.branch(&s, lt(k, sub(y, x))) {
                            let to = if part { lin_add(x, k, 1) } else { y };
                            e.store_ref(&mut t, a[0], ext("chunks", vec![to, y, k]));
                            out.push((t, Out::Ret(some(dty, slice(x, to)))));
                        }
                        s.note("");
                    }
                    return Some(out);
                }
                _ => return None,
            }
        }
        let r = self.b.call(e, st, c, a, dty, sp)?;
        Some(self.gaps(e, r))
    }
    fn coarsen(&self, st: &State, c: &num::Con) -> Option<num::Con> {
        let mut c = c.clone();
        if !c.eq {
            // absolute positions mean nothing
            if c.t.iter().all(|x| x.1 > 0 && st.mon.contains(&x.0)) {
                return None;
            }
            if c.t.len() > 3 {
                return None;
            }
            c.c = *self.sizes.iter().find(|k| c.c <= **k)?;
        }
        Some(c)
    }
    fn tracked(&self, v: V) -> bool {
        matches!(&*g(v), Val::Ext(k, _) if matches!(nm_s(*k).as_str(), "buf" | "slice" | "biter" | "benum" | "chunks" | "arr" | "session" | "tcp" | "rhalf" | "whalf" | "bufreader" | "bufwriter"))
    }
}

/// The numbers of type `usize` above one that a function mentions.
fn constants(p: &Prog, b: &Body) -> Vec<i128> {
    let mut out = vec![];
    let mut opd = |o: &Opd| {
        if let Opd::Const(k) = o {
            let ty = p.types.get(k.ty as usize).map(|t| t.s.as_str()).unwrap_or("");
            match k.bits {
                Some(n) if ty == "usize" && (2..1 << 24).contains(&n) => out.push(n),
                _ => {}
            }
        }
    };
    for bb in &b.bbs {
        for s in &bb.s {
            if let St::Assign(_, rv, _) = s {
                match rv {
                    Rv::Use(o) | Rv::Repeat(o, _) | Rv::Cast(_, o, _) | Rv::Un(_, o) => opd(o),
                    Rv::Bin(_, x, y) => {
                        opd(x);
                        opd(y)
                    }
                    Rv::Agg(_, os) => os.iter().for_each(&mut opd),
                    _ => {}
                }
            }
        }
        if let Tm::Call { args, .. } = &bb.t {
            args.iter().for_each(&mut opd);
        }
    }
    out
}

pub fn run(p: Rc<Prog>, cfg: &Cfg) -> Result<RunOut, String> {
    let want = |k: &str| p.by_key.get(k).copied().ok_or(format!("function {k} not found"));
    let kind_ty = ty_by_path(&p, "std::io::ErrorKind").unwrap_or(NOTY);
    let mut sizes = vec![-1, 0, 1024, 65536];
    for f in p.funcs.iter().filter(|f| f.local) {
        for k in constants(&p, &f.body) {
            sizes.extend([-k - 1, -k, 1 - k, k - 1, k, k + 1]);
        }
    }
    sizes.sort();
    sizes.dedup();
    if std::env::var("DBG_RECV").is_ok() {
        println!("sizes {sizes:?}");
    }
    let env = Rc::new(StrmEnv { b: RecvEnv::buffers(), kind_ty, errno_ty: NOTY, sizes });
    let _ = env.errno_ty;
    let mut e = Eng::new(p.clone(), env.clone());
    cfg.apply(&mut e);
    e.numeric = true;
    e.widen = false;
    e.max_poly = if cfg.thorough { 400 } else { 100 };
    e.loop_poly = 32;
    let f_plain = want("stream::Stream::insecure")?;
    let f_tls = want("stream::Stream::tls")?;
    let f_flush = want("stream::Stream::flush")?;
    let f_next = *p.by_key.iter().find(|(k, _)| k.starts_with("stream::Stream::next::<")).ok_or("function stream::Stream::next not found")?.1;
    let tls_ty = ty_by_path(&p, "tokio_rustls::TlsStream").ok_or("type tokio_rustls::TlsStream not found")?;
    let me = mk(Val::Ref(0, Box::new([])));
    let mut inits = vec![];
    let mut samples: Vec<String> = vec![];
    for tls in 0..3 {
        let mut s = State::new(NMON);
        s.push(undef());
        for i in 0..NMON {
            s.set(i, 0);
        }
        s.set(TLS, (tls > 0) as i128);
        let (ri, ro) = (e.number(&mut s, "in"), e.number(&mut s, "out"));
        s.mon[TIN] = ri;
        s.mon[TOUT] = ro;
        let tcp = ext("tcp", vec![]);
        let (f, a) = if tls == 0 {
            s.mon[AIN] = ri;
            s.mon[AOUT] = ro;
            (f_plain, tcp)
        } else {
            let (pi, po) = (e.number(&mut s, "plain_in"), e.number(&mut s, "plain_out"));
            s.mon[AIN] = pi;
            s.mon[PREAD] = pi;
            let d = e.number(&mut s, "early");
            s.cons.push(e.numcon(d, false).unwrap());
            s.mon[PDEC] = lin_add(pi, d, 1);
            s.mon[CIN] = ri;
            s.mon[AOUT] = po;
            s.mon[PW] = po;
            s.mon[CW] = ro;
            let r = e.number(&mut s, "rest");
            s.cons.push(e.numcon(r, false).unwrap());
            s.mon[CGEN] = lin_add(ro, r, 1);
            let st = ext("tlsstream", vec![tcp, ext("session", vec![])]);
            (f_tls, mk(Val::Adt(tls_ty, tls - 1, vec![st].into())))
        };
        for (mut s, o) in e.exec(s, f, vec![a]) {
            match o {
                Out::Ret(v) => {
                    s.mem[0] = e.freeze(&s, v);
                    s.mem.truncate(1);
                    inits.push(s);
                }
                _ => e.undecided(&s, "T06", "the constructor may panic"),
            }
        }
    }
    if inits.len() < 3 {
        return Err("the constructors cannot be analysed".into());
    }
    let mut polys: Polys = Default::default();
    let mut todo: VecDeque<State> = Default::default();
    let mut transitions = 0u64;
    let mut tainted = 0u64;
    let mut why_taint: BTreeSet<String> = BTreeSet::new();
    let mut push = |e: &mut Eng, todo: &mut VecDeque<State>, mut s: State| {
        transitions += 1;
        if s.taint {
            tainted += 1;
            if let Some(t) = &s.trace {
                why_taint.insert(t.what.clone());
            }
            return;
        }
        s.mem.truncate(1);
        for i in [LAST, LASTV, BLOCK, SPIN, IDLE, OP, ERRV] {
            s.set(i, 0);
        }
        e.shape(&mut s);
        let l = e.max_poly;
        if e.novel(&mut polys, u64::MAX, &mut s, l) {
            todo.push_back(s);
        }
    };
    for s in inits {
        push(&mut e, &mut todo, s);
    }
    let mut states = 0u64;
    while let Some(s0) = todo.pop_front() {
        states += 1;
        if e.stop() || e.steps > e.max_steps {
            break;
        }
        if samples.len() < 4 {
            samples.push(format!("state {states}: {} where {}", show(&p, s0.mem[0]), s0.cons.iter().map(|c| show_con(&p, c)).collect::<Vec<_>>().join(", ")));
        }
        if std::env::var("DBG_RECV").is_ok() {
            println!("--- {states} wide={} {}\n   mon {}\n   {}", s0.wide, show(&p, s0.mem[0]), s0.mon.iter().map(|v| show(&p, *v)).collect::<Vec<_>>().join(" | "), s0.cons.iter().map(|c| show_con(&p, c)).collect::<Vec<_>>().join(", "));
        }
        for (op, f, name) in [(0, f_next, "next"), (1, f_flush, "flush")] {
            let mut s = s0.clone();
            s.set(OP, op);
            s.note(name);
            let args = if op == 0 { vec![me, fixed("client_or_server", NOTY)] } else { vec![me] };
            let mut starts = vec![];
            for (s, o) in e.exec(s, f, args) {
                match o {
                    Out::Ret(v) => starts.push((s, v)),
                    _ => e.undecided(&s, "T03", format!("{name} may panic")),
                }
            }
            for (s, v) in starts {
                let r = env.run_future(&mut e, &s, v, NOTY, 0);
                let Some(r) = r else {
                    return Err(format!("{name} is not an asynchronous function"));
                };
                for (mut s, o) in r {
                    match o {
                        Out::Ret(v) => {
                            if s.taint {
                                push(&mut e, &mut todo, s);
                                continue;
                            }
                            if env.returned(&mut e, &mut s, v) {
                                push(&mut e, &mut todo, s);
                            }
                        }
                        Out::Cancel => {
                            if s.taint {
                                push(&mut e, &mut todo, s);
                                continue;
                            }
                            s.note(format!("=> {name} is pending"));
                            if env.waiting(&mut e, &mut s) {
                                s.note(format!("{name} is dropped"));
                                push(&mut e, &mut todo, s);
                            }
                        }
                        Out::Panic(m) => env.bad(&mut e, &s, "T03", &format!("{name} may panic: {m}")),
                    }
                }
            }
        }
        for (s, m) in std::mem::take(&mut e.wraps) {
            env.bad(&mut e, &s, "T03", &m);
        }
    }
    delegates(&p, cfg, &env, &mut e);
    let mut floors = vec![];
    for k in ["reads", "writes", "inputs", "outputs", "input requests", "events", "errors", "failures", "ends of input", "writes that accept nothing", "TLS errors", "TLS closures", "waits", "flushes", "errors reported"] {
        if e.stats.get(k).copied().unwrap_or(0) == 0 {
            floors.push(format!("no {k} explored"));
        }
    }
    let w = e.widened;
    e.stats.insert("polyhedra widened".into(), w);
    for x in why_taint {
        e.notes.entry("given up".into()).or_default().insert(x);
    }
    Ok(RunOut { viol: e.viol.clone(), states, transitions, tainted, eng: e, floors, samples })
}

/// References to a client or server: what is done with them is done with it.
struct DelegEnv(Rc<StrmEnv>);
const CALLS: usize = NMON;
impl Env for DelegEnv {
    fn hang(&self) -> Option<&'static str> {
        self.0.hang()
    }
    fn call(&self, e: &mut Eng, st: &State, c: &Callee, a: &[V], dty: Ty, sp: u32) -> Option<Res> {
        let asked = c.name.m == "next" && (c.name.tr == "State" || c.path.ends_with("State::next"));
        if !asked {
            return self.0.call(e, st, c, a, dty, sp);
        }
        let mut s = st.clone();
        if s.m(CALLS) >= 3 {
            e.incomplete.get_or_insert("a reference to the client/server asks it many times".into());
            return Some(vec![]);
        }
        let n = s.m(CALLS);
        s.set(CALLS, n + 1);
        s.set(IDLE, 0);
        self.0.call(e, &s, c, a, dty, sp)
    }
    fn coarsen(&self, st: &State, c: &num::Con) -> Option<num::Con> {
        self.0.coarsen(st, c)
    }
    fn tracked(&self, v: V) -> bool {
        self.0.tracked(v)
    }
}
fn delegates(p: &Rc<Prog>, cfg: &Cfg, env: &Rc<StrmEnv>, out: &mut Eng) {
    for (k, f) in p.funcs.iter().enumerate() {
        let m = name_of(&f.path).m;
        let Some(t) = p.types.get(f.selfid as usize) else { continue };
        if !f.local || f.tr.rsplit("::").next() != Some("State") || t.k != "ref" && !is_box(p, f.selfid) || !["next", "enqueue_input"].contains(&m.as_str()) {
            continue;
        }
        let mut e = Eng::new(p.clone(), Rc::new(DelegEnv(env.clone())));
        cfg.apply(&mut e);
        e.max_steps = 300_000;
        e.numeric = true;
        e.widen = false;
        e.max_poly = 100;
        e.loop_poly = 32;
        let mut s = State::new(NMON + 1);
        for i in 0..=NMON {
            s.set(i, 0);
        }
        let (ri, ro) = (e.number(&mut s, "in"), e.number(&mut s, "out"));
        s.mon[TOUT] = ro;
        s.mon[AOUT] = ro;
        s.mon[AIN] = ri;
        s.mon[TIN] = ri;
        let x = s.push(ext("inner", vec![]));
        let y = s.push(mk(Val::Ref(x, Box::new([]))));
        let me = mk(Val::Ref(y, Box::new([])));
        let next = m == "next";
        let mut args = vec![me];
        if !next {
            let n = env.some_count(&e, &mut s, "n", top());
            let end = lin_add(ri, n, 1);
            s.mon[TIN] = end;
            args.push(slice(ri, end));
        }
        let what = format!("{m} of a reference to the client/server");
        for (s, o) in e.exec(s, k as u32, args) {
            *out.stats.entry("references to a state".into()).or_insert(0) += 1;
            let v = match o {
                Out::Panic(x) => {
                    env.bad(&mut e, &s, if next { "T05" } else { "T01" }, &format!("{what} may panic: {x}"));
                    continue;
                }
                Out::Ret(v) => v,
                _ => continue,
            };
            if !next {
                env.must_eq(&mut e, &s, s.mon[AIN], s.mon[TIN], "T01", &format!("{what} does not pass on all of it"));
                continue;
            }
            // what is to be returned
            let field = |v: V, k: u32| match &*g(v) {
                Val::Adt(_, x, f) if *x == k => f.first().copied(),
                _ => None,
            };
            let (o, i) = (field(v, 0), field(v, 1));
            let (err, io) = match i.map(|i| (vty(i), i)) {
                Some((t, i)) => (variant_ix(p, t, "Error").and_then(|x| field(i, x)), variant_ix(p, t, "Io").and_then(|x| field(i, x))),
                None => (None, None),
            };
            let bytes = io.and_then(|x| variant_ix(p, vty(x), "Output").and_then(|k| field(x, k)));
            let none = io.map(|x| variant_ix(p, vty(x), "NeedMoreInput").map(|k| matches!(&*g(x), Val::Adt(_, y, _) if *y == k)).unwrap_or(false)).unwrap_or(false);
            let silent = e.same(&s, s.mon[AOUT], ro);
            let good = match s.m(LAST) {
                3 => silent && o.map(|o| e.same(&s, o, s.mon[LASTV])).unwrap_or(false),
                4 => silent && err.map(|x| e.same(&s, x, s.mon[LASTV])).unwrap_or(false),
                1 | 2 if silent => none,
                1 | 2 => match bytes.and_then(range) {
                    Some((x, y)) => e.same(&s, x, ro) && e.same(&s, y, s.mon[AOUT]),
                    None => false,
                },
                _ => false,
            };
            if !good {
                let mut t = s.clone();
                t.note(format!("returned: {}", show(p, v)));
                env.bad(&mut e, &t, "T05", &format!("{what} does not return what the client/server returned"));
            }
        }
        if let Some(x) = e.incomplete.take() {
            if e.viol.is_empty() {
                out.incomplete.get_or_insert(x);
            }
        }
        out.viol.append(&mut e.viol);
    }
}
