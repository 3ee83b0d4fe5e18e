//! Helpers shared by the harnesses.
use crate::eng::*;
use crate::ir::*;
use crate::val::*;
use crate::models::{err, ok};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};

/// Index of a type by its path.
pub fn ty_by_path(p: &Prog, path: &str) -> Option<Ty> {
    p.types.iter().position(|t| t.k == "adt" && t.path == path).map(|x| x as Ty)
}
pub fn variant_ix(p: &Prog, t: Ty, name: &str) -> Option<u32> {
    p.types.get(t as usize)?.variants.iter().position(|v| v.name == name).map(|x| x as u32)
}
/// (variant name, fields by name) of an enum or struct value.
pub fn view(p: &Prog, v: V) -> Option<(String, BTreeMap<String, V>)> {
    match &*g(v) {
        Val::Adt(t, x, f) => {
            let vv = p.types.get(*t as usize)?.variants.get(*x as usize)?;
            Some((vv.name.clone(), vv.fields.iter().map(|f| f.0.clone()).zip(f.iter().copied()).collect()))
        }
        _ => None,
    }
}
pub fn is_class(v: V, class: &str) -> bool {
    matches!(&*g(v), Val::Sym { class: c, .. } if *c == nm(class))
}
pub fn class_of(v: V) -> String {
    match &*g(v) {
        Val::Sym { class, .. } => nm_s(*class).trim_start_matches('Σ').to_string(),
        _ => String::new(),
    }
}
/// Field access of an opaque value by variant and field name.
pub fn vfield(e: &Eng, st: &State, v: V, t: Ty, variant: &str, field: &str) -> Option<V> {
    let t = peel(&e.p, if vty(v) != NOTY { vty(v) } else { t });
    let ti = e.p.types.get(t as usize)?;
    let vi = if ti.is_enum { ti.variants.iter().position(|x| x.name == variant)? } else { 0 };
    let fi = ti.variants.get(vi)?.fields.iter().position(|f| f.0 == field)?;
    Some(e.field(st, v, vi as u32, fi as u32))
}
/// Is the value known (not) to be of this variant?
pub fn is_variant(e: &Eng, st: &State, v: V, variant: &str) -> Option<bool> {
    let t = peel(&e.p, vty(v));
    let ti = e.p.types.get(t as usize)?;
    let vi = ti.variants.iter().position(|x| x.name == variant)?;
    match &*g(v) {
        Val::Adt(_, x, _) => Some(*x as usize == vi),
        _ => {
            let d = app(Op::Disc, vec![v], NOTY);
            match e.known(st, d) {
                Some(i) => Some(i == ti.variants[vi].disc),
                None => match st.facts.get(&d) {
                    Some(Fact::Ne(s)) if s.contains(&ti.variants[vi].disc) => Some(false),
                    _ => None,
                },
            }
        }
    }
}
pub fn fix_variant(e: &Eng, st: &mut State, v: V, variant: &str) -> bool {
    let t = peel(&e.p, vty(v));
    let Some(ti) = e.p.types.get(t as usize) else { return false };
    let Some(vi) = ti.variants.iter().position(|x| x.name == variant) else { return false };
    let d = ti.variants[vi].disc;
    match &*g(v) {
        Val::Adt(_, x, _) => *x as usize == vi,
        _ => e.assume_eq(st, app(Op::Disc, vec![v], NOTY), d),
    }
}
pub fn known_bool(e: &Eng, st: &State, v: V) -> Option<bool> {
    e.known(st, v).map(|x| x != 0)
}

/// Are the values known to be equal (or different), as they are or by what they wrap?
pub fn same(e: &Eng, st: &State, x: V, y: V) -> Option<bool> {
    let (mut x, mut y) = (x, y);
    for _ in 0..4 {
        if let Some(b) = known_bool(e, st, mk_eq(x, y)) {
            return Some(b);
        }
        let t = e.p.types.get(peel(&e.p, vty(x)) as usize)?;
        if t.is_enum || t.variants.len() != 1 || t.variants[0].fields.len() != 1 {
            return None;
        }
        x = e.field(st, x, 0, 0);
        y = e.field(st, y, 0, 0);
    }
    None
}

pub struct Queue {
    pub seen: HashSet<u128>,
    pub todo: VecDeque<State>,
    pub transitions: u64,
    /// Paths that were given up because they use something unmodelled.
    pub tainted: u64,
}
impl Queue {
    pub fn new() -> Queue {
        Queue { seen: HashSet::new(), todo: VecDeque::new(), transitions: 0, tainted: 0 }
    }
    pub fn push(&mut self, e: &Eng, mut s: State, keep: usize) {
        self.transitions += 1;
        if s.taint {
            self.tainted += 1;
            return;
        }
        s.mem.truncate(keep);
        // The counters behind handles do not matter here (see the handle analysis).
        let p = e.p.clone();
        let mut memo = HashMap::new();
        for i in 0..s.mem.len() {
            s.mem[i] = map_val(s.mem[i], &mut memo, &mut |v| match &*g(v) {
                Val::Adt(t, ..) if p.types.get(*t as usize).map(|t| t.path.ends_with("::HandleGenerator")).unwrap_or(false) => Some(fixed("handles", *t)),
                _ => None,
            });
        }
        e.canon(&mut s);
        if self.seen.insert(s.fp()) {
            self.todo.push_back(s);
        }
    }
}

/// The receive buffer is opaque to the protocol analyses: every length, position and slice taken
/// from it is an arbitrary value. (Its arithmetic is the subject of the receive analysis.)
pub fn opaque_buffers(e: &mut Eng, st: &State, c: &Callee, a: &[V], dty: Ty) -> Option<Res> {
    let n = &c.name;
    let mut s = st.clone();
    let one = |s: State, v: V| Some(vec![(s, Out::Ret(v))]);
    if n.ty == "BytesMut" || n.ty == "Bytes" {
        match n.m.as_str() {
            "default" | "new" | "with_capacity" => {
                let v = e.fresh(&mut s, "buf", dty);
                return one(s, v);
            }
            "len" | "remaining" | "capacity" => {
                let v = e.fresh(&mut s, "len", dty);
                return one(s, v);
            }
            "is_empty" | "has_remaining" => {
                let v = e.fresh(&mut s, "b", dty);
                return one(s, v);
            }
            "deref" | "as_ref" | "deref_mut" | "chunk" | "borrow" => {
                let v = e.fresh(&mut s, "bytes", NOTY);
                return one(s, v);
            }
            "extend" | "advance" | "extend_from_slice" | "clear" | "truncate" | "put_slice" | "put" | "unsplit" | "resize" => {
                let v = e.fresh(&mut s, "buf", NOTY);
                e.store_ref(&mut s, a[0], v);
                return one(s, unit());
            }
            "split_to" | "split_off" | "split" | "copy_to_bytes" => {
                let v = e.fresh(&mut s, "buf", NOTY);
                e.store_ref(&mut s, a[0], v);
                let v = e.fresh(&mut s, "buf", dty);
                return one(s, v);
            }
            "reserve" => return one(s, unit()),
            "freeze" => {
                let v = e.fresh(&mut s, "buf", dty);
                return one(s, v);
            }
            _ => {}
        }
    }
    // slices of bytes
    let is_buf = |e: &Eng, v: V| {
        let v = e.deref(st, v);
        ["bytes", "buf", "slice"].iter().any(|k| is_class(v, k)) || matches!(&*g(v), Val::App { op: Op::Fld(..), args, .. } if ["bytes","slice"].iter().any(|k| is_class(args[0], k)))
    };
    if !a.is_empty() && is_buf(e, a[0]) {
        match n.m.as_str() {
            "index" | "get_unchecked" | "as_ref" | "split_at" | "into" | "from" | "to_vec" | "to_owned" | "into_boxed_slice" | "deref" | "as_slice" | "iter" | "into_iter" => {
                let v = e.fresh(&mut s, "slice", if n.m == "split_at" { dty } else { NOTY });
                return one(s, v);
            }
            "len" => {
                let v = e.fresh(&mut s, "len", NOTY);
                return one(s, v);
            }
            "is_empty" | "contains" | "starts_with" | "ends_with" | "any" | "all" => {
                let v = e.fresh(&mut s, "b", dty);
                return one(s, v);
            }
            "position" | "find" | "rposition" | "first" | "last" | "get" | "split_first" | "split_last" => {
                let v = e.fresh(&mut s, "opt", dty);
                return one(s, v);
            }
            _ => {}
        }
    }
    if n.tr == "From" && n.m == "from" && a.len() == 1 && is_buf(e, a[0]) {
        let v = e.fresh(&mut s, "slice", NOTY);
        return one(s, v);
    }
    if n.m.starts_with("memchr") {
        let v = e.fresh(&mut s, "opt", dty);
        return one(s, v);
    }
    None
}
pub fn is_decode(c: &Callee) -> bool {
    c.name.m == "decode" && (c.name.tr == "Decoder" || c.path.ends_with("Decoder::decode"))
}
pub fn is_encode(c: &Callee) -> bool {
    c.name.m == "encode" && (c.name.tr == "Encoder" || c.path.ends_with("Encoder::encode"))
}
/// The two outcomes of decoding a message: Ok((empty rest, message)) and Err(error).
pub fn decode_outcomes(e: &mut Eng, st: &State, dty: Ty) -> Option<((State, V, V), (State, V))> {
    let p = e.p.clone();
    let ti = p.types.get(dty as usize)?;
    let tt = *ti.args.first()?;
    let et = *ti.args.get(1)?;
    let mt = *p.types.get(tt as usize)?.args.get(1)?;
    let mut s1 = st.clone();
    let d = e.fresh(&mut s1, "D", mt);
    let r1 = mk(Val::Adt(dty, 0, vec![tup(vec![mk(Val::Bytes(vec![])), d])].into()));
    let mut s2 = st.clone();
    let er = e.fresh(&mut s2, "E", et);
    let r2 = mk(Val::Adt(dty, 1, vec![er].into()));
    Some(((s1, d, r1), (s2, r2)))
}
pub fn frag_line(p: &Prog, ft: Ty, data: V) -> V {
    let vi = variant_ix(p, ft, "Line").unwrap();
    mk(Val::Adt(ft, vi, vec![data].into()))
}
pub fn frag_lit(p: &Prog, ft: Ty, lm: Ty, data: V, sync: bool) -> V {
    let vi = variant_ix(p, ft, "Literal").unwrap();
    let m = mk(Val::Adt(lm, variant_ix(p, lm, if sync { "Sync" } else { "NonSync" }).unwrap(), Box::new([])));
    let vs = &p.types[ft as usize].variants[vi as usize];
    let f = vs.fields.iter().map(|x| if x.0 == "mode" { m } else { data }).collect::<Vec<_>>();
    mk(Val::Adt(ft, vi, f.into()))
}
pub fn call_parts(v: V, name: &str) -> Option<Vec<V>> {
    match &*g(v) {
        Val::App { op: Op::Call(n), args, .. } if n == name => Some(args.to_vec()),
        _ => None,
    }
}
/// What to decide.
#[derive(Default, Clone)]
pub struct Cfg {
    pub prop: Option<String>,
    pub known: Vec<String>,
    pub thorough: bool,
}
impl Cfg {
    pub fn apply(&self, e: &mut Eng) {
        e.focus = self.prop.clone();
        e.known = self.known.clone();
        if self.thorough {
            e.deadline = std::time::Instant::now() + std::time::Duration::from_secs(780);
            e.max_steps *= 4;
        }
    }
}
pub struct RunOut {
    pub viol: Vec<Viol>,
    pub states: u64,
    pub transitions: u64,
    pub tainted: u64,
    pub eng: Eng,
    pub floors: Vec<String>,
    pub samples: Vec<String>,
}

/// Numbers inside of tokens (not subject to widening).
pub fn num(i: i128) -> V {
    mk(Val::Bytes(vec![i as u8]))
}
pub fn unnum(v: V) -> Option<i128> {
    match &*g(v) {
        Val::Bytes(b) if b.len() == 1 => Some(b[0] as i128),
        _ => None,
    }
}

/// Merges adjacent list items again after a substitution.
pub fn remerge(e: &Eng, st: &mut State) {
    fn go(e: &Eng, v: V, memo: &mut HashMap<V, V>) -> V {
        let mut leaf = |x: V| -> Option<V> {
            let Val::List(l) = &*g(x) else { return None };
            let mut n = vec![];
            for (k, y) in l.iter() {
                let y = go(e, *y, &mut HashMap::new());
                crate::models::push_item(e, &mut n, (*k, y));
            }
            Some(list(n))
        };
        map_val(v, memo, &mut leaf)
    }
    let mut memo = HashMap::new();
    for i in 0..st.mem.len() {
        st.mem[i] = go(e, st.mem[i], &mut memo);
    }
}

/// `select!`, `join!` and `try_join!`.
pub fn race(e: &mut Eng, st: &State, kind: &str, futs: &[V], rty: Ty, run: &mut dyn FnMut(&mut Eng, &State, V, Ty) -> Option<Res>, reset: &dyn Fn(&mut State, &State)) -> Option<Res> {
    let n = futs.len();
    let p = e.p.clone();
    let mut out: Res = vec![];
    if kind == "select" {
        let tys: Vec<Ty> = p.types.get(rty as usize)?.args.clone();
        // what may have happened before without completing: every subset of the others, in order
        let mut all = vec![st.clone()];
        for i in 0..n {
            let mut pre = vec![st.clone()];
            for j in (0..n).filter(|j| *j != i) {
                let mut more = vec![];
                for s in &pre {
                    for (mut s, o) in run(e, s, futs[j], tys.get(j).copied().unwrap_or(NOTY))? {
                        match o {
                            Out::Cancel => {
                                s.note("the pending operation is dropped");
                                more.push(s)
                            }
                            Out::Panic(_) => out.push((s, o)),
                            _ => {}
                        }
                    }
                }
                pre.extend(more);
            }
            for s in pre {
                let mut s = s;
                reset(&mut s, st);
                for (s, o) in run(e, &s, futs[i], tys.get(i).copied().unwrap_or(NOTY))? {
                    match o {
                        Out::Ret(v) => out.push((s, Out::Ret(mk(Val::Adt(rty, i as u32, vec![v].into()))))),
                        Out::Panic(_) => out.push((s, o)),
                        Out::Cancel => {}
                    }
                }
            }
            // pending altogether
            let mut more = vec![];
            for s in &all {
                for (s, o) in run(e, s, futs[i], tys.get(i).copied().unwrap_or(NOTY))? {
                    if o == Out::Cancel {
                        more.push(s);
                    }
                }
            }
            all = more;
        }
        out.extend(all.into_iter().map(|s| (s, Out::Cancel)));
        return Some(out);
    }
    // all are run; those that complete are not polled again
    let ti = p.types.get(rty as usize)?.clone();
    let tys: Vec<Ty> = if kind == "join" { ti.args.clone() } else { p.types.get(*ti.args.first()? as usize)?.args.clone() };
    let ety = if kind == "join" { NOTY } else { *ti.args.get(1)? };
    let mut cur: Vec<(State, Vec<Option<V>>, bool)> = vec![(st.clone(), vec![], false)];
    for i in 0..n {
        let t = tys.get(i).copied().unwrap_or(NOTY);
        let ft = if kind == "join" {
            t
        } else {
            // Result<T, E> of this future
            p.types.iter().position(|x| x.path.ends_with("result::Result") && x.args == vec![t, ety]).map(|x| x as Ty)?
        };
        let mut more = vec![];
        for (s, vs, pend) in cur {
            for (s, o) in run(e, &s, futs[i], ft)? {
                let mut vs = vs.clone();
                match o {
                    Out::Ret(v) if kind == "join" => {
                        vs.push(Some(v));
                        more.push((s, vs, pend));
                    }
                    Out::Ret(v) => {
                        for (s, k) in e.variants(&s, v, ft) {
                            let x = e.field(&s, v, k, 0);
                            if k == 1 {
                                out.push((s, Out::Ret(err(rty, x))));
                            } else {
                                let mut vs = vs.clone();
                                vs.push(Some(x));
                                more.push((s, vs, pend));
                            }
                        }
                    }
                    Out::Cancel => {
                        vs.push(None);
                        more.push((s, vs, true));
                    }
                    o => out.push((s, o)),
                }
            }
        }
        cur = more;
    }
    for (s, vs, pend) in cur {
        if pend {
            out.push((s, Out::Cancel));
        } else {
            let t = tup(vs.into_iter().flatten().collect());
            out.push((s, Out::Ret(if kind == "join" { t } else { ok(rty, t) })));
        }
    }
    Some(out)
}

/// A chunk of bytes in two parts.
pub fn cut_chunk(v: V) -> (V, V) {
    let f = |n: &str, v: V| call(n, vec![v], NOTY);
    for (k, a, b) in [("head", "head", "mid"), ("mid", "mid", "mid"), ("tail", "mid", "tail")] {
        if let Some(x) = call_parts(v, k) {
            return (f(a, x[0]), f(b, x[0]));
        }
    }
    (f("head", v), f("tail", v))
}
/// The last part of `l` and the next one, joined.
pub fn join_chunk(a: V, b: V) -> Option<V> {
    for (x, y, z) in [("head", "mid", "head"), ("mid", "mid", "mid"), ("mid", "tail", "tail"), ("head", "tail", "")] {
        if let (Some(p), Some(q)) = (call_parts(a, x), call_parts(b, y)) {
            if p == q {
                return Some(if z.is_empty() { p[0] } else { call(z, vec![p[0]], NOTY) });
            }
        }
    }
    None
}
/// Follows the parts of chunks that are sent: the chunk that begins with this part, if any, and what is wrong.
pub fn track_chunk(half: &mut V, t: V) -> (Option<V>, Option<&'static str>) {
    let h = std::mem::replace(half, int(0));
    if let Some(x) = call_parts(t, "mid").or_else(|| call_parts(t, "tail")) {
        if x[0] == h {
            if call_parts(t, "mid").is_some() {
                *half = h;
            }
            return (None, None);
        }
        return (None, Some("a part of a fragment is sent without its beginning"));
    }
    let w = (h != int(0)).then_some("the rest of a fragment is missing");
    if let Some(x) = call_parts(t, "head") {
        *half = x[0];
        return (Some(x[0]), w);
    }
    (Some(t), w)
}
