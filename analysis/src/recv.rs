//! Receiving: which bytes of the stream are decoded, discarded, or waited for.
//!
//! The bytes the peer sends are numbered from the beginning. For the line that is read next, F is the
//! (arbitrary) number of its first LF and CR tells whether a CR comes before it; both are symbols.
//! All positions and lengths are symbols related by linear inequalities. Every sequence of inputs,
//! calls of `next` and user calls is explored until no new states and polyhedra are found.
use crate::common::*;
use crate::eng::*;
use crate::ir::*;
use crate::models::*;
use crate::num;
use crate::val::*;
use std::collections::{BTreeSet, VecDeque};
use std::rc::Rc;

const MSG: usize = 0; // where the current message starts
const LS: usize = 1; // where the current line starts
const F: usize = 2; // its first LF
const CR: usize = 3; // is there a CR before it?
const END: usize = 4; // how many bytes were received
const PEND: usize = 5; // 1: decoding failed, 2: a literal was rejected
const MODE: usize = 6; // server: as in `server`
const LIT: usize = 7; // the line follows a literal
const AFTER_ERR: usize = 8; // the message follows discarded bytes
const SPLIT: usize = 9; // the message was received in several parts
const IDLE: usize = 10; // nothing is waiting to be sent
const KEEP: usize = 11;
const CHANGED: usize = 12; // the message is the first one of a mode
const NMON: usize = 13;

/// Index of the flag that bytes were joined which do not follow each other (streams).
pub const GAP: usize = 0;

pub struct RecvEnv {
    /// Only the models of buffers are used, by the analysis of streams.
    pub stream: bool,
    server: bool,
    relax: V,
    max_literal: V,
    max_msg: V,
    frag: Ty,
}
pub fn buf(a: V, b: V) -> V {
    ext("buf", vec![a, b])
}
pub fn slice(a: V, b: V) -> V {
    ext("slice", vec![a, b])
}
pub fn sub(a: V, b: V) -> V {
    lin_add(a, b, -1)
}
pub fn plus(a: V, i: i128) -> V {
    lin_add(a, int(i), 1)
}
pub fn range(v: V) -> Option<(V, V)> {
    match &*g(v) {
        Val::Ext(k, f) if matches!(nm_s(*k).as_str(), "buf" | "slice" | "biter") && f.len() == 2 => Some((f[0], f[1])),
        _ => None,
    }
}
pub fn is_kind(v: V, k: &str) -> bool {
    matches!(&*g(v), Val::Ext(n, _) if nm_s(*n) == k)
}
impl RecvEnv {
    /// Models of buffers only.
    pub fn buffers() -> RecvEnv {
        RecvEnv { stream: true, server: false, relax: int(0), max_literal: int(0), max_msg: int(0), frag: NOTY }
    }
    /// Where empty buffers are.
    fn origin(&self, st: &State) -> V {
        if self.stream {
            int(0)
        } else {
            st.mon[END]
        }
    }
}
/// Example values for the symbols, for the message.
fn example(e: &Eng, st: &State, what: &[(&str, V)]) -> String {
    let Some(m) = num::model(&st.cons, 12) else { return String::new() };
    let at = |v: V| -> Option<i128> {
        let (t, mut c) = lin_parts(v)?;
        for (x, q) in t {
            c += q * m.get(&x).copied().unwrap_or(0);
        }
        Some(c)
    };
    let base = at(st.mon[MSG]).unwrap_or(0);
    let _ = e;
    let l: Vec<String> = what.iter().filter_map(|(n, v)| Some(format!("{n} {}", at(*v)? - base))).collect();
    format!(" (for example, counted from the start of the message: {})", l.join(", "))
}
impl RecvEnv {
    fn limited(&self, st: &State) -> bool {
        self.server && st.m(MODE) != 2
    }
    /// A new line starts.
    fn line(&self, e: &Eng, s: &mut State, start: V, lit: bool) {
        s.mon[LS] = start;
        let f = e.number(s, "F");
        s.cons.push(e.numcon(sub(f, start), false).unwrap());
        s.mon[F] = f;
        s.mon[CR] = e.fresh(s, "cr", e.p.types.iter().position(|t| t.s == "bool").map(|x| x as Ty).unwrap_or(NOTY));
        s.set(LIT, lit as i128);
    }
    /// A new message starts.
    fn message(&self, e: &Eng, s: &mut State, start: V, err: bool) {
        s.mon[MSG] = start;
        self.line(e, s, start, false);
        s.set(AFTER_ERR, err as i128);
        s.set(SPLIT, 0);
        s.set(PEND, 0);
        s.set(CHANGED, 0);
    }
    fn props(&self, s: &State, main: &str) -> Vec<String> {
        let mut p = vec![main.to_string()];
        let mut add = |x: &str| {
            if !p.contains(&x.to_string()) {
                p.push(x.to_string())
            }
        };
        if s.m(LIT) == 1 {
            add("R03");
        }
        if s.m(AFTER_ERR) == 1 {
            add("R04");
        }
        if s.m(SPLIT) == 1 {
            add("R05");
        }
        if s.m(CHANGED) == 1 {
            add("R06");
        }
        p
    }
    /// Reports that `a == b` is required but not certain.
    fn must_eq(&self, e: &mut Eng, s: &State, a: V, b: V, main: &str, msg: &str, what: &[(&str, V)]) -> bool {
        if e.same(s, a, b) {
            return true;
        }
        let mut t = s.clone();
        let lt1 = lt(a, b);
        if !e.assume_eq(&mut t, lt1, 1) {
            t = s.clone();
            let lt2 = lt(b, a);
            e.assume_eq(&mut t, lt2, 1);
        }
        let x = example(e, &t, what);
        t.note(format!("required: {} = {}{x}", show(&e.p, a), show(&e.p, b)));
        for p in self.props(s, main) {
            e.violation(&t, &p, msg);
        }
        false
    }
    fn must(&self, e: &mut Eng, s: &State, cond: V, main: &str, msg: &str, what: &[(&str, V)]) -> bool {
        if e.known(s, cond) == Some(1) {
            return true;
        }
        let mut t = s.clone();
        if !e.assume_eq(&mut t, cond, 0) {
            return true;
        }
        let x = example(e, &t, what);
        t.note(format!("required: {}{x}", show(&e.p, cond)));
        for p in self.props(s, main) {
            e.violation(&t, &p, msg);
        }
        false
    }
    /// The first byte of a kind in a part of the stream.
    fn find_lf(&self, e: &mut Eng, st: &State, a: V, b: V) -> Vec<(State, Option<V>)> {
        let mut out = vec![];
        if self.stream {
            for (s, empty) in e.branch(st, not(lt(a, b))) {
                if !empty {
                    let mut t = s.clone();
                    let i = e.number(&mut t, "pos");
                    t.cons.push(e.numcon(plus(sub(sub(b, a), i), -1), false).unwrap());
                    out.push((t, Some(i)));
                }
                out.push((s, None));
            }
            return out;
        }
        let (ls, f) = (st.mon[LS], st.mon[F]);
        for (s, before) in e.branch(st, lt(a, ls)) {
            for (s, past) in if before { vec![(s, true)] } else { e.branch(&s, lt(f, a)) } {
                if past {
                    // nothing is known about these bytes
                    for (mut s, empty) in e.branch(&s, not(lt(a, b))) {
                        if !empty {
                            let mut t = s.clone();
                            let i = e.number(&mut t, "pos");
                            t.cons.push(e.numcon(plus(sub(sub(b, a), i), -1), false).unwrap());
                            out.push((t, Some(i)));
                        }
                        s.note("no LF there");
                        out.push((s, None));
                    }
                } else {
                    for (mut s, found) in e.branch(&s, lt(f, b)) {
                        s.note(if found { "LF found" } else { "no LF there" });
                        out.push((s, found.then(|| sub(f, a))));
                    }
                }
            }
        }
        out
    }
    /// Which of LF, CR and other bytes satisfy a predicate?
    fn predicate(&self, e: &mut Eng, st: &State, f: V, en: bool, sp: u32) -> Option<(State, [bool; 3])> {
        let mut r = [false; 3];
        let mut s0 = st.clone();
        for (i, b) in [10i128, 13, -1].into_iter().enumerate() {
            let v = if b >= 0 {
                int(b)
            } else {
                let v = e.fresh(&mut s0, "otherbyte", NOTY);
                s0.facts.insert(v, Fact::Ne(BTreeSet::from([10, 13])));
                v
            };
            let v = if en { tup(vec![e.number(&mut s0, "i"), v]) } else { v };
            let rs = e.call_value(s0.clone(), f, tup(vec![v]), NOTY, sp);
            let mut ans = None;
            for (s, o) in rs {
                let Out::Ret(x) = o else { return None };
                let x = e.known(&s, x)?;
                if ans.is_some() && ans != Some(x != 0) || s.taint != st.taint {
                    return None;
                }
                ans = Some(x != 0);
            }
            r[i] = ans?;
        }
        Some((st.clone(), r))
    }
    fn decode(&self, e: &mut Eng, st: &State, input: V, dty: Ty) -> Option<Res> {
        let mut st = st.clone();
        let Some((x, y)) = range(input) else {
            e.undecided(&st, "R01", "the bytes that are decoded are not a part of the stream");
            st.taint = true;
            return Some(vec![]);
        };
        e.bump("decoded messages");
        if st.m(PEND) != 0 {
            // an error was due: the subject of the protocol analyses
            return Some(vec![]);
        }
        let (msg, f) = (st.mon[MSG], st.mon[F]);
        let ex = [("decoded from", x), ("to", y), ("first line feed of the line at", f), ("line starts at", st.mon[LS]), ("received", st.mon[END])];
        let mut ok = self.must_eq(e, &st, x, msg, "R01", "the decoded bytes do not start where the message starts", &ex);
        ok &= self.must_eq(e, &st, y, plus(f, 1), "R01", "the decoded bytes do not end with the end of a line", &ex);
        if !ok {
            return Some(vec![]);
        }
        if self.limited(&st) {
            let c = not(lt(lin_add(msg, self.max_msg, 1), plus(f, 1)));
            if !self.must(e, &st, c, "S05", "a message over the limit is decoded", &ex) {
                return Some(vec![]);
            }
        }
        match (e.known(&st, self.relax), e.known(&st, st.mon[CR])) {
            (Some(1), _) => {}
            (_, Some(1)) => {
                let c = lt(st.mon[LS], f);
                self.must(e, &st, c, "R02", "a line that ends without CR is accepted although line endings are strict", &ex);
            }
            _ => {
                for p in self.props(&st, "R02") {
                    if p == "R02" || p == "R05" || p == "R03" {
                        e.violation(&st, &p, "a line that ends without CR is accepted although line endings are strict");
                    }
                }
            }
        }
        let p = e.p.clone();
        let ti = p.types.get(dty as usize)?;
        let (tt, et) = (*ti.args.first()?, *ti.args.get(1)?);
        let mt = *p.types.get(tt as usize)?.args.get(1)?;
        let mut out = vec![];
        {
            let mut s = st.clone();
            let d = e.fresh(&mut s, "D", mt);
            s.note("a message is decoded");
            self.message(e, &mut s, plus(f, 1), false);
            out.push((s, Out::Ret(mk(Val::Adt(dty, 0, vec![tup(vec![slice(y, y), d])].into())))));
        }
        let er = &p.types[et as usize];
        for (vi, v) in er.variants.iter().enumerate() {
            let mut s = st.clone();
            if v.name == "LiteralFound" {
                let n = e.number(&mut s, "n");
                let fs: Vec<V> = v.fields.iter().map(|fd| if fd.0 == "length" { n } else { e.fresh(&mut s, &fd.0, fd.1) }).collect();
                let ev = mk(Val::Adt(et, vi as u32, fs.into()));
                let r = mk(Val::Adt(dty, 1, vec![ev].into()));
                if self.server {
                    for (mut s, over) in e.branch(&s, lt(self.max_literal, n)) {
                        if over {
                            s.note("a literal over the limit is announced");
                            s.set(PEND, 2);
                        } else {
                            s.note("a literal is announced");
                            e.bump("accepted literals");
                            self.line(e, &mut s, lin_add(plus(f, 1), n, 1), true);
                        }
                        out.push((s, Out::Ret(r)));
                    }
                    continue;
                }
                s.note("a literal is announced");
                e.bump("accepted literals");
                self.line(e, &mut s, lin_add(plus(f, 1), n, 1), true);
                out.push((s, Out::Ret(r)));
            } else {
                let fs: Vec<V> = v.fields.iter().map(|fd| e.fresh(&mut s, &fd.0, fd.1)).collect();
                s.note(format!("decoding fails: {}", v.name));
                s.set(PEND, 1);
                let ev = mk(Val::Adt(et, vi as u32, fs.into()));
                out.push((s, Out::Ret(mk(Val::Adt(dty, 1, vec![ev].into())))));
            }
        }
        Some(out)
    }
    fn wait(&self, e: &mut Eng, s: &State) {
        e.bump("input requests");
        if self.server && s.m(MODE) == 2 {
            return;
        }
        if s.m(PEND) != 0 {
            return;
        }
        let (f, end) = (s.mon[F], s.mon[END]);
        let ex = [("received up to", end), ("first line feed of the line at", f), ("line starts at", s.mon[LS])];
        if self.server {
            let at = lin_add(s.mon[MSG], self.max_msg, 1);
            if !self.must(e, s, lt(end, at), "S05", "more input is awaited although the limit is reached", &ex) {
                return;
            }
        }
        self.must(e, s, not(lt(f, end)), "R05", "more input is awaited although a complete line is there", &ex);
    }
    fn error(&self, e: &mut Eng, s: &mut State, name: &str, v: V) -> bool {
        let mut found = vec![];
        any_sub(v, &mut |x| {
            if is_kind(x, "slice") || is_kind(x, "buf") {
                found.push(x);
            }
            false
        });
        e.bump("discarded messages");
        let (msg, f, end) = (s.mon[MSG], s.mon[F], s.mon[END]);
        let mut stop = plus(f, 1);
        let due = s.m(PEND);
        let ex = [("received up to", end), ("first line feed of the line at", f), ("line starts at", s.mon[LS])];
        match name {
            "ExpectedCrlfGotLf" => {
                if due != 0 {
                    return false;
                }
                if !self.must(e, s, lt(f, end), "R02", "a wrong line ending is reported although no complete line is there", &ex) {
                    return false;
                }
                if e.known(s, self.relax) != Some(0) {
                    e.violation(s, "R02", "a line ending with LF is refused although line endings are relaxed");
                    return false;
                }
                if e.known(s, s.mon[CR]) != Some(0) {
                    // is there a line before the LF at all?
                    if !self.must(e, s, not(lt(s.mon[LS], f)), "R02", "a line that ends with CRLF is refused", &ex) {
                        return false;
                    }
                }
                if self.limited(s) {
                    let c = not(lt(lin_add(msg, self.max_msg, 1), plus(f, 1)));
                    if !self.must(e, s, c, "S05", "a message over the limit is reported as a wrong line ending", &ex) {
                        return false;
                    }
                }
            }
            "MalformedMessage" => {
                if due != 1 {
                    return false;
                }
            }
            "LiteralTooLong" => {
                if due != 2 {
                    return false;
                }
            }
            "CommandTooLong" => {
                if due != 0 {
                    return false;
                }
                e.bump("messages over the limit");
                let lim = lin_add(msg, self.max_msg, 1);
                if !self.must(e, s, not(lt(end, lim)), "S05", "a message is reported as too long before the limit is reached", &ex) {
                    return false;
                }
                if !self.must(e, s, lt(lim, plus(f, 1)), "S05", "a message within the limit is reported as too long", &ex) {
                    return false;
                }
                stop = lim;
            }
            _ => return false,
        }
        let [d] = found[..] else {
            e.undecided(s, "R04", format!("the bytes reported with {name} are {}", show(&e.p, v)));
            s.taint = true;
            return false;
        };
        let (a, b) = range(d).unwrap();
        let ex = [("discarded from", a), ("to", b), ("should end at", stop), ("received up to", end), ("line starts at", s.mon[LS])];
        let mut ok = self.must_eq(e, s, a, msg, "R04", "the discarded bytes do not start where the message starts", &ex);
        ok &= self.must_eq(e, s, b, stop, "R04", "the discarded bytes do not end where the message ends", &ex);
        if !ok {
            return false;
        }
        if name == "CommandTooLong" {
            // the rest is read as the beginning of a new line
            let (ls, f, cr) = (s.mon[LS], s.mon[F], s.mon[CR]);
            let inside = e.le(s, ls, stop);
            self.message(e, s, stop, true);
            if inside {
                s.mon[F] = f;
                s.mon[CR] = cr;
            }
        } else {
            self.message(e, s, stop, true);
        }
        true
    }
    /// Bounds of a range argument.
    pub fn bounds(&self, e: &Eng, st: &State, r: V, a: V, b: V) -> Option<(V, V, bool)> {
        let r = e.deref(st, r);
        let Val::Adt(t, _, f) = &*g(r) else { return None };
        let k = e.p.types.get(*t as usize)?.path.rsplit("::").next()?.to_string();
        let get = |i: usize| f.get(i).copied();
        Some(match k.as_str() {
            "RangeFull" => (a, b, false),
            "Range" => (lin_add(a, get(0)?, 1), lin_add(a, get(1)?, 1), true),
            "RangeFrom" => (lin_add(a, get(0)?, 1), b, true),
            "RangeTo" => (a, lin_add(a, get(0)?, 1), true),
            "RangeToInclusive" => (a, plus(lin_add(a, get(0)?, 1), 1), true),
            _ => return None,
        })
    }
}
impl Env for RecvEnv {
    fn hang(&self) -> Option<&'static str> {
        Some("G01")
    }
    fn call(&self, e: &mut Eng, st: &State, c: &Callee, a: &[V], dty: Ty, sp: u32) -> Option<Res> {
        if is_decode(c) {
            let i = e.deref(st, a[1]);
            return self.decode(e, st, i, dty);
        }
        if is_encode(c) {
            let mut s = st.clone();
            let d = e.fresh(&mut s, "encoded", NOTY);
            let l = list(vec![(ONE, frag_line(&e.p, self.frag, d))]);
            return Some(ret(s, l));
        }
        if c.name.ty == "CommandContinuationRequestBasic" && c.name.m == "new" && a.len() == 2 {
            let mut s = st.clone();
            let v = e.fresh(&mut s, "ccr", *e.p.types.get(dty as usize)?.args.first()?);
            return Some(ret(s, mk(Val::Adt(dty, 0, vec![v].into()))));
        }
        if let Some(r) = crate::handle::atomics(e, st, c, a, dty, sp) {
            return Some(r);
        }
        let n = &c.name;
        let m = n.m.as_str();
        let mut s = st.clone();
        let panic = |e: &mut Eng, s: State, what: &str| -> (State, Out) {
            let sp = e.p.spans.get(sp as usize).cloned().unwrap_or_default();
            (s, Out::Panic(format!("{what} at {sp}")))
        };
        // a new, empty buffer: as if it began where the input ends
        let bytesish = |e: &Eng, t: Ty| e.p.types.get(t as usize).map(|t| t.path.ends_with("::BytesMut") || t.path.ends_with("::Bytes") || t.s.ends_with("Vec<u8>") || t.s.contains("Vec<u8,")).unwrap_or(false);
        if a.iter().all(|x| !is_buf(e, st, *x)) {
            if matches!(n.ty.as_str(), "BytesMut" | "Bytes") && (matches!(m, "default" | "new") && a.is_empty() || m == "with_capacity") {
                let t = self.origin(st);
                return Some(ret(s, buf(t, t)));
            }
            if n.ty == "mem" && m == "take" {
                return None;
            }
        }
        if a.is_empty() {
            return None;
        }
        let r0 = e.deref(st, a[0]);
        if n.ty == "mem" && m == "take" && is_kind(r0, "buf") {
            let t = self.origin(st);
            e.store_ref(&mut s, a[0], buf(t, t));
            return Some(ret(s, r0));
        }
        if m.starts_with("memchr") || m.starts_with("memrchr") {
            if let (Some(10), Some((x, y)), "memchr") = (is_int(e.deref(st, a[0])), a.last().and_then(|v| range(e.deref(st, *v))), m) {
                return Some(self.find_lf(e, st, x, y).into_iter().map(|(s, i)| (s, Out::Ret(match i { Some(i) => some(dty, i), None => none(dty) }))).collect());
            }
            return None;
        }
        if n.tr == "From" && m == "from" && a.len() == 1 && range(r0).is_some() && !is_kind(r0, "biter") {
            let (x, y) = range(r0)?;
            return Some(ret(s, if bytesish(e, dty) { buf(x, y) } else { slice(x, y) }));
        }
        // appending
        let nothing = matches!(&*g(r0), Val::List(l) if l.is_empty());
        if matches!(m, "extend" | "extend_from_slice" | "put_slice" | "put" | "unsplit" | "append") && (is_kind(r0, "buf") || nothing) && a.len() == 2 {
            let src = e.deref(st, a[1]);
            if !nothing && matches!(&*g(src), Val::List(l) if l.is_empty()) {
                return Some(ret(s, unit()));
            }
            if nothing && range(src).is_none() {
                return None;
            }
            let (x, y) = range(r0).unwrap_or((int(0), int(0)));
            let (p, q) = range(src)?;
            let mut out = vec![];
            let mut starts = vec![st.clone()];
            if self.stream {
                starts.clear();
                for (mut s, none) in e.branch(st, eq_int(q, p)) {
                    if none {
                        if nothing {
                            e.store_ref(&mut s, a[0], buf(int(0), int(0)));
                        }
                        out.push((s, Out::Ret(unit())));
                        continue;
                    }
                    for (s, empty) in e.branch(&s, eq_int(x, y)) {
                        if empty {
                            starts.push(s);
                            continue;
                        }
                        for (mut s, gap) in e.branch(&s, not(eq_int(p, y))) {
                            if gap {
                                s.set(GAP, 1);
                                s.note(format!("bytes are joined that do not follow each other: up to {} and from {}", show(&e.p, y), show(&e.p, p)));
                            }
                            starts.push(s);
                        }
                    }
                }
            }
            for st in &starts {
            for (mut s, empty) in e.branch(st, eq_int(x, y)) {
                let nb = if empty {
                    buf(p, q)
                } else {
                    if !self.stream && !e.same(&s, p, y) {
                        s.note("bytes are joined that do not follow each other");
                        s.taint = true;
                    }
                    buf(x, q)
                };
                if m == "append" {
                    e.store_ref(&mut s, a[1], buf(q, q));
                }
                e.store_ref(&mut s, a[0], nb);
                out.push((s, Out::Ret(unit())));
            }
            }
            return Some(out);
        }
        if is_kind(r0, "biter") || is_kind(r0, "benum") {
            return self.iter(e, st, c, a, dty, sp);
        }
        if m == "next" || m == "next_back" {
            // ranges of numbers
            if let Val::Adt(t, _, f) = &*g(r0) {
                if e.p.types.get(*t as usize).map(|t| t.path.ends_with("ops::Range")).unwrap_or(false) && f.len() == 2 {
                    let (t, p, q) = (*t, f[0], f[1]);
                    let mut out = vec![];
                    for (mut s, more) in e.branch(st, lt(p, q)) {
                        if !more {
                            out.push((s, Out::Ret(none(dty))));
                            continue;
                        }
                        let (v, n) = if m == "next" { (p, vec![plus(p, 1), q]) } else { (plus(q, -1), vec![p, plus(q, -1)]) };
                        e.store_ref(&mut s, a[0], mk(Val::Adt(t, 0, n.into())));
                        out.push((s, Out::Ret(some(dty, v))));
                    }
                    return Some(out);
                }
            }
        }
        let Some((x, y)) = range(r0) else { return None };
        let len = sub(y, x);
        let b = |i: V| call("byte", vec![lin_add(x, i, 1)], NOTY);
        match m {
            "len" | "remaining" => return Some(ret(s, len)),
            "is_empty" => return Some(ret(s, eq_int(len, int(0)))),
            "has_remaining" => return Some(ret(s, not(eq_int(len, int(0))))),
            "reserve" | "reserve_exact" | "shrink_to_fit" => return Some(ret(s, unit())),
            "capacity" => {
                let v = e.number(&mut s, "cap");
                return Some(ret(s, v));
            }
            "deref" | "as_ref" | "as_slice" | "chunk" | "borrow" | "to_vec" | "to_owned" | "into_boxed_slice" | "into" | "freeze" | "clone" | "into_vec" | "as_mut" | "deref_mut"
            | "into_static" | "to_static" | "copy_from_slice" => {
                if (m == "deref_mut" || m == "as_mut") && is_kind(r0, "buf") {
                    return Some(ret(s, a[0]));
                }
                let v = if is_kind(r0, "buf") && bytesish(e, dty) { r0 } else { slice(x, y) };
                return Some(ret(s, v));
            }
            "iter" | "into_iter" | "bytes" => return Some(ret(s, ext("biter", vec![x, y]))),
            "index" | "get" | "get_unchecked" | "index_mut" if a.len() == 2 => {
                if let Some((p, q, check)) = self.bounds(e, st, a[1], x, y) {
                    let mut out = vec![];
                    let cond = if check && m != "get_unchecked" { e.and(not(lt(q, p)), not(lt(y, q))) } else { int(1) };
                    if m != "get" {
                        e.bump("ranges");
                    }
                    for (mut s, ok) in split(e, st, cond, p, q, y) {
                        if ok {
                            let v = slice(p, q);
                            out.push((s, Out::Ret(if m == "get" { some(dty, v) } else { v })));
                        } else if m == "get" {
                            out.push((s, Out::Ret(none(dty))));
                        } else {
                            s.note(format!("a range from {} to {} of bytes {} to {}", show(&e.p, p), show(&e.p, q), show(&e.p, x), show(&e.p, y)));
                            out.push(panic(e, s, "range out of bounds"));
                        }
                    }
                    return Some(out);
                }
                let i = e.deref(st, a[1]);
                if lin_parts(i).is_some() && e.numcon(i, false).is_some() {
                    let mut out = vec![];
                    for (s, ok) in e.branch(st, lt(i, len)) {
                        out.push(if ok {
                            (s, Out::Ret(if m == "get" { some(dty, b(i)) } else { b(i) }))
                        } else if m == "get" {
                            (s, Out::Ret(none(dty)))
                        } else {
                            panic(e, s, "index out of bounds")
                        });
                    }
                    return Some(out);
                }
                return None;
            }
            "first" | "last" => {
                let i = if m == "first" { int(0) } else { plus(len, -1) };
                return Some(e.branch(st, lt(int(0), len)).into_iter().map(|(s, ok)| (s, Out::Ret(if ok { some(dty, b(i)) } else { none(dty) }))).collect());
            }
            "ends_with" | "starts_with" if a.len() == 2 => {
                let pat = e.freeze(st, a[1]);
                let k: Vec<i128> = match &*g(pat) {
                    Val::Bytes(p) => p.iter().map(|x| *x as i128).collect(),
                    Val::List(l) => l.iter().map(|x| is_int(x.1)).collect::<Option<Vec<_>>>()?,
                    _ => return None,
                };
                let mut out = vec![];
                for (s, long) in e.branch(st, not(lt(len, int(k.len() as i128)))) {
                    let mut v = int(long as i128);
                    if long {
                        for (i, x) in k.iter().enumerate() {
                            let at = if m == "ends_with" { plus(len, i as i128 - k.len() as i128) } else { int(i as i128) };
                            v = e.and(v, eq_int(b(at), int(*x)));
                        }
                    }
                    out.push((s, Out::Ret(v)));
                }
                return Some(out);
            }
            "contains" if a.len() == 2 && is_int(e.deref(st, a[1])) == Some(10) => {
                return Some(self.find_lf(e, st, x, y).into_iter().map(|(s, i)| (s, Out::Ret(int(i.is_some() as i128)))).collect());
            }
            "split_at" | "split_at_mut" if a.len() == 2 => {
                let k = lin_add(x, a[1], 1);
                return Some(
                    e.branch(st, not(lt(y, k)))
                        .into_iter()
                        .map(|(s, ok)| if ok { (s, Out::Ret(tup(vec![slice(x, k), slice(k, y)]))) } else { panic(e, s, "split out of bounds") })
                        .collect(),
                );
            }
            _ => {}
        }
        if !is_kind(r0, "buf") {
            // advancing a slice that is used as a reader
            if m == "advance" && a.len() == 2 {
                let k = lin_add(x, a[1], 1);
                return Some(
                    e.branch(st, not(lt(y, k)))
                        .into_iter()
                        .map(|(mut s, ok)| {
                            if ok {
                                e.store_ref(&mut s, a[0], slice(k, y));
                                (s, Out::Ret(unit()))
                            } else {
                                panic(e, s, "advance beyond the end")
                            }
                        })
                        .collect(),
                );
            }
            return None;
        }
        match m {
            "advance" | "split_to" | "split_off" | "copy_to_bytes" | "drain" if a.len() == 2 => {
                let (k, off) = if m == "drain" {
                    let (p, q, _) = self.bounds(e, st, a[1], x, y)?;
                    if !e.same(st, p, x) {
                        return None;
                    }
                    (q, false)
                } else {
                    (lin_add(x, a[1], 1), m == "split_off")
                };
                let mut out = vec![];
                for (mut s, ok) in e.branch(st, not(lt(y, k))) {
                    if !ok {
                        out.push(panic(e, s, &format!("{m} beyond the end of the buffer")));
                        continue;
                    }
                    let (keep, give) = if off { (buf(x, k), buf(k, y)) } else { (buf(k, y), buf(x, k)) };
                    e.store_ref(&mut s, a[0], keep);
                    let v = if m == "advance" { unit() } else if m == "drain" { ext("biter", vec![x, k]) } else { give };
                    out.push((s, Out::Ret(v)));
                }
                return Some(out);
            }
            "split" if a.len() == 1 => {
                e.store_ref(&mut s, a[0], buf(y, y));
                return Some(ret(s, r0));
            }
            "clear" => {
                e.store_ref(&mut s, a[0], buf(y, y));
                return Some(ret(s, unit()));
            }
            "truncate" if a.len() == 2 => {
                let k = lin_add(x, a[1], 1);
                let mut out = vec![];
                for (mut s, short) in e.branch(st, lt(k, y)) {
                    if short {
                        e.store_ref(&mut s, a[0], buf(x, k));
                    }
                    out.push((s, Out::Ret(unit())));
                }
                return Some(out);
            }
            _ => {}
        }
        None
    }
    fn expand(&self, e: &mut Eng, st: &State, v: V) -> Option<Vec<State>> {
        if self.stream {
            return None;
        }
        let Val::App { args, .. } = &*g(v) else { return None };
        let p = args[0];
        e.numcon(p, false)?;
        let (ls, f) = (st.mon[LS], st.mon[F]);
        let mut out = vec![];
        let mut put = |s: &State, fact: Fact| {
            let mut s = s.clone();
            s.facts.insert(v, fact);
            out.push(s);
        };
        let ne = |l: &[i128]| Fact::Ne(l.iter().copied().collect());
        for (s, before) in e.branch(st, lt(p, ls)) {
            if before {
                // part of an earlier line or of a literal
                for x in [Fact::Eq(10), Fact::Eq(13), ne(&[10, 13])] {
                    put(&s, x);
                }
                continue;
            }
            for (s, less) in e.branch(&s, lt(p, f)) {
                if less {
                    for (s, last) in e.branch(&s, eq_int(p, plus(f, -1))) {
                        if last {
                            for (s, cr) in e.branch(&s, st.mon[CR]) {
                                put(&s, if cr { Fact::Eq(13) } else { ne(&[10, 13]) });
                            }
                        } else {
                            put(&s, ne(&[10, 13]));
                            put(&s, Fact::Eq(13));
                        }
                    }
                } else {
                    for (s, at) in e.branch(&s, eq_int(p, f)) {
                        if at {
                            put(&s, Fact::Eq(10));
                        } else {
                            for x in [Fact::Eq(10), Fact::Eq(13), ne(&[10, 13])] {
                                put(&s, x);
                            }
                        }
                    }
                }
            }
        }
        Some(out)
    }
    fn tracked(&self, v: V) -> bool {
        matches!(&*g(v), Val::Ext(k, _) if matches!(nm_s(*k).as_str(), "buf" | "slice" | "biter" | "benum")) || matches!(&*g(v), Val::App { op: Op::Call(n), .. } if n == "byte")
    }
}
fn is_buf(e: &Eng, st: &State, v: V) -> bool {
    range(e.deref(st, v)).is_some()
}
/// Splits on `p <= q && q <= y`.
fn split(e: &Eng, st: &State, cond: V, p: V, q: V, y: V) -> Vec<(State, bool)> {
    if let Some(i) = e.known(st, cond) {
        return vec![(st.clone(), i != 0)];
    }
    let mut out = vec![];
    for (s, bad) in e.branch(st, lt(q, p)) {
        if bad {
            out.push((s, false));
            continue;
        }
        for (s, bad) in e.branch(&s, lt(y, q)) {
            out.push((s, !bad));
        }
    }
    out
}
impl RecvEnv {
    fn iter(&self, e: &mut Eng, st: &State, c: &Callee, a: &[V], dty: Ty, sp: u32) -> Option<Res> {
        let m = c.name.m.as_str();
        let mut s = st.clone();
        let it = e.deref(st, a[0]);
        let en = is_kind(it, "benum");
        let Val::Ext(_, f) = &*g(it) else { return None };
        let (x, y) = (f[0], f[1]);
        let byte = |i: V| call("byte", vec![i], NOTY);
        let again = |x: V, y: V| if en { ext("benum", vec![x, y, f[2]]) } else { ext("biter", vec![x, y]) };
        match m {
            "into_iter" | "by_ref" | "copied" | "cloned" | "iter" => return Some(ret(s, if m == "by_ref" { a[0] } else { it })),
            "enumerate" if !en => return Some(ret(s, ext("benum", vec![x, y, x]))),
            "len" => return Some(ret(s, sub(y, x))),
            "skip" if a.len() == 2 => {
                return Some(
                    e.branch(st, lt(sub(y, x), a[1]))
                        .into_iter()
                        .map(|(s, all)| (s, Out::Ret(if all { again(y, y) } else { again(lin_add(x, a[1], 1), y) })))
                        .collect(),
                );
            }
            "take" if a.len() == 2 => {
                return Some(
                    e.branch(st, lt(a[1], sub(y, x)))
                        .into_iter()
                        .map(|(s, cut)| (s, Out::Ret(if cut { again(x, lin_add(x, a[1], 1)) } else { it })))
                        .collect(),
                );
            }
            "next" => {
                let mut out = vec![];
                for (mut s, more) in e.branch(st, lt(x, y)) {
                    if !more {
                        out.push((s, Out::Ret(none(dty))));
                        continue;
                    }
                    let n = if en { ext("benum", vec![plus(x, 1), y, f[2]]) } else { ext("biter", vec![plus(x, 1), y]) };
                    e.store_ref(&mut s, a[0], n);
                    let v = if en { tup(vec![sub(x, f[2]), byte(x)]) } else { byte(x) };
                    out.push((s, Out::Ret(some(dty, v))));
                }
                return Some(out);
            }
            "position" | "any" | "find" | "rposition" if a.len() == 2 => {
                let (s0, p) = self.predicate(e, st, a[1], en, sp)?;
                if p != [true, false, false] {
                    return None;
                }
                s = s0;
                let last = m == "rposition";
                let mut out = vec![];
                for (s, i) in self.find_lf(e, &s, x, y) {
                    let mut alts = vec![];
                    if let (true, Some(i)) = (last, i) {
                        // a later one
                        let mut t = s.clone();
                        let k = e.number(&mut t, "later");
                        t.cons.push(e.numcon(plus(sub(k, i), -1), false).unwrap());
                        t.cons.push(e.numcon(plus(sub(sub(y, x), k), -1), false).unwrap());
                        if num::feasible(&t.cons) {
                            t.note("the last LF is found");
                            alts.push((t, Some(k)));
                        }
                    }
                    alts.push((s, i));
                    for (mut s, i) in alts {
                        let rest = match i {
                            Some(i) if last => again(x, lin_add(x, i, 1)),
                            Some(i) => again(plus(lin_add(x, i, 1), 1), y),
                            None => again(y, y),
                        };
                        e.store_ref(&mut s, a[0], rest);
                        let v = match (m, i) {
                            ("any", i) => int(i.is_some() as i128),
                            (_, None) => none(dty),
                            ("position" | "rposition", Some(i)) => some(dty, i),
                            (_, Some(i)) if en => some(dty, tup(vec![sub(lin_add(x, i, 1), f[2]), int(10)])),
                            (_, Some(_)) => some(dty, int(10)),
                        };
                        out.push((s, Out::Ret(v)));
                    }
                }
                return Some(out);
            }
            _ => {}
        }
        None
    }
}

pub fn run(p: Rc<Prog>, cfg: &Cfg, server: bool) -> Result<RunOut, String> {
    let ty = |n: &str| ty_by_path(&p, n).ok_or(format!("type {n} not found"));
    let want = |k: &str| p.by_key.get(k).copied().ok_or(format!("function {k} not found"));
    let side = if server { "server::Server" } else { "client::Client" };
    let opts = ty(if server { "server::Options" } else { "client::Options" })?;
    let relax = fixed("crlf_relaxed", p.types.iter().position(|t| t.s == "bool").map(|x| x as Ty).unwrap_or(NOTY));
    let env = Rc::new(RecvEnv {
        stream: false,
        server,
        relax,
        max_literal: fixed("#max_literal", NOTY),
        max_msg: fixed("#max_command", NOTY),
        frag: ty("imap_codec::encode::Fragment")?,
    });
    let mut e = Eng::new(p.clone(), env.clone());
    cfg.apply(&mut e);
    e.numeric = true;
    e.widen = false;
    e.max_poly = if cfg.thorough { 200 } else { 64 };
    let f_new = want(&format!("{side}::new"))?;
    let f_next = want(&format!("<{side} as State>::next"))?;
    let f_inp = want(&format!("<{side} as State>::enqueue_input"))?;
    let f_def = p.by_key.iter().find(|(k, _)| k.starts_with(&format!("<{} as", if server { "server::Options" } else { "client::Options" })) && k.ends_with("::default")).map(|x| *x.1).ok_or("Options::default not found")?;
    let mut ops: Vec<(&str, u32, Ty, i128, i128)> = vec![];
    if server {
        let (st, cc) = (ty("imap_types::response::Status")?, ty("imap_types::response::CommandContinuationRequest")?);
        ops.push(("authenticate_continue", want("server::Server::authenticate_continue")?, cc, 1, 1));
        ops.push(("authenticate_finish", want("server::Server::authenticate_finish")?, st, 1, 0));
        ops.push(("idle_accept", want("server::Server::idle_accept")?, cc, 2, 3));
        ops.push(("idle_reject", want("server::Server::idle_reject")?, st, 2, 0));
    }
    let me = mk(Val::Ref(0, Box::new([])));
    let mut samples: Vec<String> = vec![];
    let mut inits = vec![];
    let mut s = State::new(NMON);
    s.push(undef());
    s.mon[KEEP] = tup(vec![relax]);
    let base = e.number(&mut s, "start");
    s.mon[END] = base;
    env.message(&e, &mut s, base, false);
    for k in [env.max_msg, env.max_literal] {
        s.cons.push(e.numcon(sub(int(u32::MAX as i128), k), false).unwrap());
    }
    s.cons.push(e.numcon(plus(env.max_msg, -1), false).unwrap());
    for (mut s, o) in e.exec(s, f_def, vec![]) {
        let Out::Ret(v) = o else { continue };
        let v = e.freeze(&s, v);
        let Val::Adt(t, x, f) = &*g(v) else { return Err("Options::default is not a struct".into()) };
        let f = f
            .iter()
            .zip(p.types[opts as usize].variants[0].fields.iter())
            .map(|(v, fd)| match fd.0.as_str() {
                "crlf_relaxed" => relax,
                "max_literal_size" => env.max_literal,
                "max_command_size" => env.max_msg,
                _ => *v,
            })
            .collect::<Vec<_>>();
        let o = mk(Val::Adt(*t, *x, f.into()));
        s.mem.truncate(1);
        let mut args = vec![o];
        if server {
            args.push(fixed("G", ty("imap_types::response::Greeting")?));
        }
        for (mut s, o) in e.exec(s, f_new, args) {
            match o {
                Out::Ret(v) => {
                    s.mem[0] = e.freeze(&s, v);
                    s.mem.truncate(1);
                    inits.push(s);
                }
                _ => e.undecided(&s, "R01", "the constructor may panic"),
            }
        }
    }
    if inits.is_empty() {
        return Err("the constructor cannot be analysed".into());
    }
    let mut polys: Polys = Default::default();
    let mut todo: VecDeque<State> = Default::default();
    let mut transitions = 0u64;
    let mut tainted = 0u64;
    let mut why_taint: BTreeSet<String> = BTreeSet::new();
    let mut push = |e: &mut Eng, todo: &mut VecDeque<State>, mut s: State| {
        transitions += 1;
        if s.taint {
            tainted += 1;
            if let Some(t) = &s.trace {
                why_taint.insert(t.what.clone());
            }
            return;
        }
        s.mem.truncate(1);
        let mut memo = std::collections::HashMap::new();
        let p = e.p.clone();
        s.mem[0] = map_val(s.mem[0], &mut memo, &mut |v| match &*g(v) {
            Val::Adt(t, ..) if p.types.get(*t as usize).map(|t| t.path.ends_with("::HandleGenerator")).unwrap_or(false) => Some(fixed("handles", *t)),
            _ => None,
        });
        e.shape(&mut s);
        if { let l = e.max_poly; e.novel(&mut polys, u64::MAX, &mut s, l) } {
            todo.push_back(s);
        }
    };
    for s in inits {
        push(&mut e, &mut todo, s);
    }
    let wraps = |e: &mut Eng| {
        for (s, m) in std::mem::take(&mut e.wraps) {
            let x = example(e, &s, &[("received up to", s.mon[END])]);
            let mut s = s;
            s.note(x);
            for p in ["G01", "R01"] {
                e.violation(&s, p, m.clone());
            }
        }
    };
    let mut states = 0u64;
    let panicked = |e: &mut Eng, s: &State, op: &str, m: &str| {
        e.violation(s, "G01", format!("{op} may panic: {m}"));
        e.violation(s, "R01", format!("{op} may panic: {m}"));
    };
    while let Some(s0) = todo.pop_front() {
        states += 1;
        if e.stop() || e.steps > e.max_steps {
            break;
        }
        if samples.len() < 4 {
            samples.push(format!("state {states}: {} where {}", show(&p, s0.mem[0]), s0.cons.iter().map(|c| show_con(&p, c)).collect::<Vec<_>>().join(", ")));
        }
        if std::env::var("DBG_RECV").is_ok() {
            println!("--- {states} wide={} {}\n   mon {}\n   {}\n   facts {}", s0.wide, show(&p, s0.mem[0]), s0.mon.iter().map(|v| show(&p, *v)).collect::<Vec<_>>().join(" | "), s0.cons.iter().map(|c| show_con(&p, c)).collect::<Vec<_>>().join(", "), s0.facts.iter().map(|(k, f)| format!("{}:{f:?}", show(&p, *k))).collect::<Vec<_>>().join(" "));
        }
        // --- input
        {
            let mut s = s0.clone();
            let k = e.number(&mut s, "k");
            s.cons.push(e.numcon(plus(k, -1), false).unwrap());
            s.note("input arrives");
            let (t0, t1) = (s.mon[END], lin_add(s.mon[END], k, 1));
            s.mon[END] = t1;
            for (s, o) in e.exec(s, f_inp, vec![me, slice(t0, t1)]) {
                match o {
                    Out::Ret(_) => push(&mut e, &mut todo, s),
                    Out::Panic(m) => panicked(&mut e, &s, "enqueue_input", &m),
                    _ => {}
                }
            }
        }
        // --- the user decides
        if s0.m(IDLE) == 1 {
            for (name, f, t, from, to) in &ops {
                if s0.m(MODE) != *from {
                    continue;
                }
                let mut s = s0.clone();
                s.note(*name);
                s.set(IDLE, 0);
                for (mut s, o) in e.exec(s, *f, vec![me, fixed("resp", *t)]) {
                    match o {
                        Out::Ret(v) => {
                            let v = e.freeze(&s, v);
                            if view(&p, v).map(|x| x.0 == "Ok").unwrap_or(false) {
                                s.set(MODE, *to);
                                if from != to {
                                    s.set(CHANGED, 1);
                                }
                                e.bump("changes of mode");
                                push(&mut e, &mut todo, s);
                            }
                        }
                        Out::Panic(m) => panicked(&mut e, &s, name, &m),
                        _ => {}
                    }
                }
            }
        }
        wraps(&mut e);
        // --- next
        let mut s = s0.clone();
        s.note("next");
        s.set(IDLE, 0);
        for (mut s, o) in e.exec(s, f_next, vec![me]) {
            let v = match o {
                Out::Ret(v) => e.freeze(&s, v),
                Out::Panic(m) => {
                    panicked(&mut e, &s, "next", &m);
                    continue;
                }
                _ => continue,
            };
            let Some((k, f)) = view(&p, v) else {
                e.undecided(&s, "R01", "next returns something unknown");
                s.taint = true;
                push(&mut e, &mut todo, s);
                continue;
            };
            if k == "Ok" {
                let (ev, _) = view(&p, f["0"]).unwrap_or_default();
                s.note(format!("=> event {ev}"));
                e.bump("events");
                if s.m(PEND) != 0 && !ev.ends_with("Sent") {
                    continue;
                }
                let to = match ev.as_str() {
                    "CommandAuthenticateReceived" => Some(1),
                    "IdleCommandReceived" => Some(2),
                    "IdleDoneReceived" => Some(0),
                    _ => None,
                };
                if let (true, Some(m)) = (server, to) {
                    s.set(MODE, m);
                    s.set(CHANGED, 1);
                    e.bump("changes of mode");
                }
            } else {
                match view(&p, f["0"]) {
                    Some((k, f)) if k == "Io" => match view(&p, f["0"]) {
                        Some((k, _)) if k == "NeedMoreInput" => {
                            s.note("=> more input needed");
                            env.wait(&mut e, &s);
                            if s.m(PEND) != 0 {
                                continue;
                            }
                            s.set(IDLE, 1);
                            let part = lt(s.mon[MSG], s.mon[END]);
                            // was a part of the message received?
                            for (mut s, b) in e.branch(&s, part) {
                                if b {
                                    s.set(SPLIT, 1);
                                }
                                push(&mut e, &mut todo, s);
                            }
                            continue;
                        }
                        Some(_) => s.note("=> output"),
                        None => continue,
                    },
                    Some((k, f)) if k == "Error" => {
                        let (n, _) = view(&p, f["0"]).unwrap_or_default();
                        s.note(format!("=> error {n}"));
                        if !env.error(&mut e, &mut s, &n, f["0"]) {
                            continue;
                        }
                    }
                    _ => continue,
                }
            }
            push(&mut e, &mut todo, s);
        }
        wraps(&mut e);
    }
    let mut floors = vec![];
    let mut need = vec!["decoded messages", "accepted literals", "input requests", "discarded messages", "events"];
    if server {
        need.extend(["messages over the limit", "changes of mode"]);
    }
    for k in need {
        if e.stats.get(k).copied().unwrap_or(0) == 0 {
            floors.push(format!("no {k} explored"));
        }
    }
    let w = e.widened;
    e.stats.insert("polyhedra widened".into(), w);
    for x in why_taint {
        e.notes.entry("given up".into()).or_default().insert(x);
    }
    Ok(RunOut { viol: e.viol.clone(), states, transitions, tainted, eng: e, floors, samples })
}
pub fn show_con(p: &Prog, c: &num::Con) -> String {
    let t: Vec<String> = c.t.iter().map(|(v, q)| format!("{}{}", if *q == 1 { "+".into() } else if *q == -1 { "-".into() } else { format!("{q:+}") }, show(p, *v))).collect();
    format!("{}{:+} {} 0", t.join(""), c.c, if c.eq { "=" } else { ">=" })
}
