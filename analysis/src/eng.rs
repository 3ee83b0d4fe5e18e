//! Path-sensitive abstract interpreter over the compiler's MIR.
use crate::ir::*;
use crate::num::{self, Con};
use crate::val::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Fact {
    Eq(i128),
    Ne(BTreeSet<i128>),
}

pub struct Trace {
    pub prev: Option<Rc<Trace>>,
    pub what: String,
}
pub type Tr = Option<Rc<Trace>>;

#[derive(Clone)]
pub struct State {
    pub mem: Vec<V>,
    pub facts: BTreeMap<V, Fact>,
    pub mon: Vec<V>,
    /// Something this analysis does not understand touched tracked data on this path.
    pub taint: bool,
    /// Some numbers on this path are less precise than the code.
    pub wide: bool,
    /// What is known about numbers (numeric analysis only).
    pub cons: Vec<Con>,
    pub fresh: u32,
    pub trace: Tr,
    /// How often something was decided that the state does not determine.
    pub nd: u32,
}
/// What was known at the heads of the loops that were passed.
struct Anc {
    bb: usize,
    mem: Box<[V]>,
    mon: Box<[V]>,
    fresh: u32,
    nd: u32,
    prev: Option<Rc<Anc>>,
}
impl Drop for Anc {
    fn drop(&mut self) {
        let mut p = self.prev.take();
        while let Some(x) = p {
            match Rc::try_unwrap(x) {
                Ok(mut x) => p = x.prev.take(),
                Err(_) => break,
            }
        }
    }
}
impl State {
    pub fn new(nmon: usize) -> State {
        State { mem: vec![], facts: BTreeMap::new(), mon: vec![int(0); nmon], taint: false, wide: false, cons: vec![], fresh: 0, trace: None, nd: 0 }
    }
    pub fn push(&mut self, v: V) -> u32 {
        self.mem.push(v);
        self.mem.len() as u32 - 1
    }
    pub fn fp(&self) -> u128 {
        let mut h1: u64 = 0xcbf29ce484222325;
        let mut h2: u64 = 0x9E3779B97F4A7C15;
        let mut add = |x: u64| {
            h1 = (h1 ^ x).wrapping_mul(0x100000001b3).rotate_left(23);
            h2 = (h2.wrapping_add(x).wrapping_add(0x9E37)).wrapping_mul(0xBF58476D1CE4E5B9);
            h2 ^= h2 >> 29;
        };
        for v in &self.mem {
            add(*v as u64 + 1);
        }
        add(u64::MAX);
        for (k, f) in &self.facts {
            add(*k as u64);
            match f {
                Fact::Eq(i) => add(*i as u64),
                Fact::Ne(s) => {
                    add(77);
                    for i in s {
                        add(*i as u64);
                    }
                }
            }
        }
        add(u64::MAX - 1);
        for v in &self.mon {
            add(*v as u64);
        }
        add(self.taint as u64);
        add(self.wide as u64);
        for c in &self.cons {
            for (v, q) in &c.t {
                add(*v as u64);
                add(*q as u64);
            }
            add(c.c as u64);
            add(c.eq as u64 + 99);
        }
        ((h1 as u128) << 64) | h2 as u128
    }
    pub fn note(&mut self, s: impl Into<String>) {
        self.trace = Some(Rc::new(Trace { prev: self.trace.take(), what: s.into() }));
    }
    pub fn m(&self, i: usize) -> i128 {
        is_int(self.mon[i]).unwrap_or(-99)
    }
    pub fn set(&mut self, i: usize, x: i128) {
        self.mon[i] = int(x);
    }
}
impl Drop for Trace {
    fn drop(&mut self) {
        let mut p = self.prev.take();
        while let Some(r) = p {
            match Rc::try_unwrap(r) {
                Ok(mut t) => p = t.prev.take(),
                Err(_) => break,
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ret(V),
    Panic(String),
    /// The future being polled was dropped at an await point.
    Cancel,
}
pub type Res = Vec<(State, Out)>;

#[derive(Clone, Debug)]
pub struct Loc {
    pub alloc: u32,
    pub path: Vec<Proj>,
    /// went through a reference represented by the value it refers to
    pub via: bool,
    pub ty: Ty,
}

pub trait Env {
    fn call(&self, _e: &mut Eng, _st: &State, _c: &Callee, _a: &[V], _dty: Ty, _sp: u32) -> Option<Res> {
        None
    }
    /// Expands a lazily described part of a list: every alternative is a list of items.
    fn lazy(&self, _e: &mut Eng, st: &State, _v: V, _dty: Ty) -> Vec<(State, Vec<(u8, V)>)> {
        vec![(st.clone(), vec![])]
    }
    /// The property that is violated by a loop that never ends.
    fn hang(&self) -> Option<&'static str> {
        None
    }
    /// Is this value part of what the harness tracks?
    fn tracked(&self, _v: V) -> bool {
        false
    }
    /// Merges two adjacent list items into one run.
    fn merge(&self, a: V, b: V) -> Option<V> {
        if a == b && is_summary(a) {
            Some(a)
        } else {
            None
        }
    }
    /// Divides a chunk of bytes.
    fn cut(&self, _e: &Eng, v: V) -> Option<(V, V)> {
        Some(crate::common::cut_chunk(v))
    }
    /// May this chunk of bytes be empty?
    fn maybe_empty(&self, _v: V) -> bool {
        false
    }
    /// Is it a piece of a message as the codec returns it? If so: may it be empty, is it one that is followed?
    fn piece(&self, _v: V) -> Option<(bool, bool)> {
        None
    }
    /// Numeric analysis: what can the value be? Every alternative is a state with a fact about it.
    fn expand(&self, _e: &mut Eng, _st: &State, _v: V) -> Option<Vec<State>> {
        None
    }
    /// Numeric analysis: a weaker constraint, from a small set, to be kept at loops.
    fn coarsen(&self, _st: &State, c: &Con) -> Option<Con> {
        Some(c.clone())
    }
    /// Called when an opaque list (a `Vec` inside of an opaque message) is looked into.
    fn open_list(&self, _e: &mut Eng, _st: &State, _v: V) -> Option<Vec<(State, V)>> {
        None
    }
}

/// Symbols for numbers that are tracked with inequalities.
pub fn is_num_sym(v: V) -> bool {
    match &*g(v) {
        Val::Sym { class, .. } => nm_s(*class).starts_with('#'),
        _ => false,
    }
}
/// The constraints that hold in both polyhedra.
fn hull(a: &[Con], b: &[Con]) -> Vec<Con> {
    let mut n: Vec<Con> = a.iter().filter(|c| num::entails(b, c)).cloned().collect();
    for c in b {
        if num::entails(a, c) && !n.contains(c) {
            n.push(c.clone());
        }
    }
    // equalities that became inequalities
    for c in a.iter().chain(b.iter()).filter(|c| c.eq) {
        for k in c.halves() {
            if num::entails(a, &k) && num::entails(b, &k) && !num::entails(&n, &k) {
                n.push(k);
            }
        }
    }
    // relations between what was constant
    for (x, y) in [(a, b), (b, a)] {
        for c in x.iter().filter(|c| !c.eq && !num::entails(y, c)) {
            for q in x.iter().filter(|q| q.eq && !num::entails(y, q)) {
                for h in q.halves() {
                    let k = c.plus(&h);
                    if k.trivial().is_none() && !n.contains(&k) && num::entails(y, &k) && !num::entails(&n, &k) {
                        n.push(k);
                    }
                }
            }
        }
    }
    n.sort();
    n
}
/// `hull(a, b)` if it contains nothing (no integers) beyond the two.
fn exact_union(a: &[Con], b: &[Con]) -> Option<Vec<Con>> {
    let h = hull(a, b);
    let inside = |s: &[Con], t: &[Con]| t.iter().all(|c| num::entails(s, c));
    for c in a {
        if h.contains(c) {
            continue;
        }
        for k in if c.eq { c.halves().to_vec() } else { vec![c.clone()] } {
            if num::entails(&h, &k) {
                continue;
            }
            let mut out = h.clone();
            out.push(k.negate());
            if num::feasible(&out) && !inside(&out, b) {
                return None;
            }
        }
    }
    Some(h)
}
/// Does the value describe an unbounded number of objects?
pub fn is_summary(v: V) -> bool {
    any_sub(v, &mut |x| match &*g(x) {
        Val::Sym { class, .. } => nm_s(*class).starts_with('Σ'),
        _ => false,
    })
}

#[derive(Clone)]
pub struct Viol {
    pub prop: String,
    pub msg: String,
    pub trace: Vec<String>,
    pub taint: bool,
}

/// The polyhedra seen for each place and shape of the state; whether they were widened.
pub type Polys = HashMap<(u64, u128), (Vec<(bool, Vec<Con>)>, usize)>;

pub struct Eng {
    pub p: Rc<Prog>,
    pub env: Rc<dyn Env>,
    pub viol: Vec<Viol>,
    pub steps: u64,
    pub max_steps: u64,
    pub incomplete: Option<String>,
    pub unknown: BTreeMap<String, usize>,
    pub visited_fns: BTreeSet<u32>,
    pub visited_blocks: HashSet<(u32, u32)>,
    pub panics: BTreeMap<String, usize>,
    pub depth: usize,
    pub stats: BTreeMap<String, u64>,
    const_cache: HashMap<(u32, usize), V>,
    pub cur_fn: Vec<u32>,
    /// The calls that lead to what is being executed.
    pub sites: Vec<u32>,
    pub widen: bool,
    pub quiet_traces: bool,
    /// lists that grow longer than this are given up
    pub max_list: usize,
    pub guess_fns: HashSet<String>,
    guess_memo: std::cell::RefCell<HashMap<V, bool>>,
    pub dropped: u64,
    /// The property to decide: the exploration ends at the first violation of it that is not known.
    pub focus: Option<String>,
    pub known: Vec<String>,
    pub deadline: std::time::Instant,
    pub notes: BTreeMap<String, BTreeSet<String>>,
    /// Numbers are tracked with linear inequalities.
    pub numeric: bool,
    /// Numeric analysis: how many polyhedra are kept apart before they are widened.
    pub max_poly: usize,
    pub loop_poly: usize,
    pub widened: u64,
    /// Numeric analysis: calculations that may wrap around.
    pub wraps: Vec<(State, String)>,
}

impl Eng {
    pub fn new(p: Rc<Prog>, env: Rc<dyn Env>) -> Eng {
        Eng {
            p,
            env,
            viol: vec![],
            steps: 0,
            max_steps: 60_000_000,
            incomplete: None,
            unknown: BTreeMap::new(),
            visited_fns: BTreeSet::new(),
            visited_blocks: HashSet::new(),
            panics: BTreeMap::new(),
            depth: 0,
            stats: BTreeMap::new(),
            const_cache: HashMap::new(),
            cur_fn: vec![],
            sites: vec![],
            widen: true,
            quiet_traces: false,
            max_list: 24,
            guess_fns: HashSet::new(),
            guess_memo: Default::default(),
            dropped: 0,
            focus: None,
            known: vec![],
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(300),
            notes: BTreeMap::new(),
            numeric: false,
            max_poly: 8,
            loop_poly: 4,
            widened: 0,
            wraps: vec![],
        }
    }
    pub fn violation(&mut self, st: &State, prop: &str, msg: impl Into<String>) {
        let msg = msg.into();
        if self.viol.iter().any(|v| v.prop == prop && v.msg == msg && v.taint == (st.taint || st.wide)) {
            return;
        }
        let mut tr = vec![];
        let mut t = st.trace.clone();
        while let Some(x) = t {
            tr.push(x.what.clone());
            if tr.len() > 400 {
                break;
            }
            t = x.prev.clone();
        }
        tr.reverse();
        self.viol.push(Viol { prop: prop.into(), msg, trace: tr, taint: st.taint || st.wide });
    }
    /// Something that the analysis cannot tell.
    pub fn undecided(&mut self, st: &State, prop: &str, msg: impl Into<String>) {
        let mut s = st.clone();
        s.taint = true;
        self.violation(&s, prop, msg);
    }
    /// Identifies a violation independently of line numbers.
    pub fn key(msg: &str) -> String {
        let mut out = String::new();
        for w in msg.split(' ') {
            if !out.is_empty() {
                out.push(' ');
            }
            let w = match w.find("/repo/") {
                Some(i) => &w[i + 6..],
                None => w,
            };
            let w = match (w.find(".rs:"), w.rfind("/library/")) {
                (Some(i), Some(j)) if j < i => &w[j + 9..i + 3],
                (Some(i), _) => &w[..i + 3],
                _ => w,
            };
            out.push_str(w);
        }
        out
    }
    pub fn stop(&self) -> bool {
        let Some(f) = &self.focus else { return false };
        self.viol.iter().any(|v| &v.prop == f && !v.taint && !self.known.contains(&Self::key(&v.msg)))
    }
    pub fn bump(&mut self, k: &str) {
        *self.stats.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn fresh(&self, st: &mut State, class: &str, ty: Ty) -> V {
        st.fresh += 1;
        mk(Val::Sym { class: nm(class), idx: st.fresh, ty })
    }

    // ---------- memory ----------
    pub fn project(&self, st: &State, v: V, pr: &[Proj]) -> V {
        let mut cur = v;
        let mut var: u32 = 0;
        for e in pr {
            match e {
                Proj::Down(x) => var = *x,
                Proj::At(i) => {
                    cur = match &*g(self.deref(st, cur)) {
                        Val::Ext(_, f) if f.len() == 2 => call("byte", vec![lin_add(f[0], *i, 1)], NOTY),
                        _ => top(),
                    };
                    var = 0;
                }
                Proj::Field(i) => {
                    cur = self.field(st, cur, var, *i);
                    var = 0;
                }
            }
        }
        cur
    }
    pub fn field(&self, st: &State, v: V, var: u32, i: u32) -> V {
        match &*g(v) {
            Val::Adt(_, _, f) | Val::Tup(f) | Val::Clo(_, f) => f.get(i as usize).copied().unwrap_or(top()),
            Val::List(f) => f.get(i as usize).map(|x| x.1).unwrap_or(top()),
            Val::Ext(_, f) => f.get(i as usize).copied().unwrap_or(top()),
            Val::Undef => undef(),
            Val::Sym { ty, .. } | Val::App { ty, .. } => {
                let t = peel(&self.p, *ty);
                app(Op::Fld(var, i), vec![v], field_ty(&self.p, t, var, i))
            }
            Val::Ref(a, pr) => {
                let b = self.project(st, st.mem[*a as usize], pr);
                if b == v {
                    return top();
                }
                self.field(st, b, var, i)
            }
            _ => top(),
        }
    }
    pub fn load(&self, st: &State, l: &Loc) -> V {
        self.project(st, st.mem[l.alloc as usize], &l.path)
    }
    pub fn update(&self, st: &State, v: V, pr: &[Proj], ty: Ty, new: V) -> V {
        if pr.is_empty() {
            return new;
        }
        let (var, rest) = match pr[0] {
            Proj::Down(x) => (Some(x), &pr[1..]),
            _ => (None, pr),
        };
        if rest.is_empty() {
            return new;
        }
        let Proj::Field(i) = rest[0] else { return top() };
        let rest = &rest[1..];
        let var = var.unwrap_or(0);
        let ft = field_ty(&self.p, ty, var, i);
        let sub = |old: V| self.update(st, old, rest, ft, new);
        match &*g(v) {
            Val::Adt(t, x, f) => {
                let mut f = f.to_vec();
                if (i as usize) < f.len() {
                    f[i as usize] = sub(f[i as usize]);
                    self.adt(*t, *x, f)
                } else {
                    top()
                }
            }
            Val::Tup(f) => {
                let mut f = f.to_vec();
                if (i as usize) < f.len() {
                    f[i as usize] = sub(f[i as usize]);
                    tup(f)
                } else {
                    top()
                }
            }
            Val::Clo(k, f) => {
                let mut f = f.to_vec();
                if (i as usize) < f.len() {
                    f[i as usize] = sub(f[i as usize]);
                }
                mk(Val::Clo(*k, f.into()))
            }
            Val::Ext(k, f) => {
                let mut f = f.to_vec();
                if (i as usize) < f.len() {
                    f[i as usize] = sub(f[i as usize]);
                }
                mk(Val::Ext(*k, f.into()))
            }
            Val::List(f) => {
                let mut f = f.to_vec();
                if (i as usize) < f.len() {
                    f[i as usize].1 = sub(f[i as usize].1);
                }
                list(f)
            }
            Val::Undef => {
                // field-wise initialisation
                let t = self.p.types.get(ty as usize);
                match t.map(|t| t.k.as_str()) {
                    Some("tuple") => {
                        let mut f = vec![undef(); t.unwrap().args.len()];
                        f[i as usize] = sub(undef());
                        tup(f)
                    }
                    Some("adt") => match arity(&self.p, ty, var) {
                        Some(n) if (i as usize) < n => {
                            let mut f = vec![undef(); n];
                            f[i as usize] = sub(undef());
                            mk(Val::Adt(ty, var, f.into()))
                        }
                        _ => top(),
                    },
                    _ => top(),
                }
            }
            Val::Sym { ty: t, .. } | Val::App { ty: t, .. } => {
                let t = peel(&self.p, if *t == NOTY { ty } else { *t });
                match arity(&self.p, t, var) {
                    Some(n) if (i as usize) < n => {
                        let mut f: Vec<V> = (0..n as u32).map(|j| self.field(st, v, var, j)).collect();
                        f[i as usize] = sub(f[i as usize]);
                        if self.p.types[t as usize].k == "tuple" {
                            tup(f)
                        } else {
                            self.adt(t, var, f)
                        }
                    }
                    _ => top(),
                }
            }
            _ => top(),
        }
    }
    pub fn store(&self, st: &mut State, l: &Loc, v: V) {
        let old = st.mem[l.alloc as usize];
        let t0 = l.ty;
        let n = self.update(st, old, &l.path, t0, v);
        st.mem[l.alloc as usize] = n;
    }
    /// ADT constructor with eta-contraction (`T { a: t.a, b: t.b }` is `t`).
    pub fn adt(&self, t: Ty, var: u32, f: Vec<V>) -> V {
        if !f.is_empty() {
            if let Val::App { op: Op::Fld(v0, 0), args, .. } = &*g(f[0]) {
                let base = args[0];
                if *v0 == var && opaque(base) {
                    let bt = peel(&self.p, vty(base));
                    let same = f.iter().enumerate().all(|(i, x)| match &*g(*x) {
                        Val::App { op: Op::Fld(v, j), args, .. } => *v == var && *j == i as u32 && args[0] == base,
                        _ => false,
                    });
                    if same && bt != NOTY && arity(&self.p, bt, var) == Some(f.len()) {
                        let p1 = &self.p.types[bt as usize].path;
                        let p2 = self.p.types.get(t as usize).map(|x| &x.path);
                        if Some(p1) == p2 {
                            return base;
                        }
                    }
                }
            }
        }
        mk(Val::Adt(t, var, f.into()))
    }
    /// Follows references down to the value.
    pub fn deref(&self, st: &State, v: V) -> V {
        let mut v = v;
        for _ in 0..16 {
            match &*g(v) {
                Val::Ref(a, pr) => {
                    let n = self.project(st, st.mem[*a as usize], pr);
                    v = n;
                }
                _ => return v,
            }
        }
        v
    }
    /// The location a reference value points to (through nested references).
    pub fn ref_loc(&self, st: &State, v: V) -> Option<Loc> {
        let mut v = v;
        let mut last = None;
        for _ in 0..16 {
            let Val::Ref(a, pr) = &*g(v) else { break };
            last = Some(Loc { alloc: *a, path: pr.to_vec(), via: false, ty: NOTY });
            v = self.project(st, st.mem[*a as usize], pr);
        }
        last
    }
    pub fn store_ref(&self, st: &mut State, r: V, v: V) -> bool {
        match self.ref_loc(st, r) {
            Some(l) => {
                self.store(st, &l, v);
                true
            }
            None => false,
        }
    }

    // ---------- facts ----------
    /// What facts about the same difference say about `d == 0` or `d < 0`.
    fn near(&self, st: &State, d: V, eq: bool) -> Option<i128> {
        let f = |op: Op, k: i128| match st.facts.get(&app(op, vec![lin_add(d, int(k), 1)], NOTY)) {
            Some(Fact::Eq(i)) => Some(*i != 0),
            _ => None,
        };
        let r = if eq {
            match (f(Op::LtZ, 0), f(Op::LtZ, -1)) {
                (Some(true), _) | (_, Some(false)) => false,
                (Some(false), Some(true)) => true,
                _ => return None,
            }
        } else if f(Op::EqZ, 0) == Some(true) || f(Op::LtZ, -1) == Some(false) {
            false
        } else if f(Op::EqZ, 1) == Some(true) || f(Op::LtZ, 1) == Some(true) {
            true
        } else if f(Op::LtZ, -1) == Some(true) && f(Op::EqZ, 0) == Some(false) {
            true
        } else if f(Op::LtZ, 1) == Some(false) && f(Op::EqZ, 1) == Some(false) {
            false
        } else {
            return None;
        };
        Some(r as i128)
    }
    pub fn known(&self, st: &State, v: V) -> Option<i128> {
        match &*g(v) {
            Val::Int(i) => Some(*i),
            Val::App { op: Op::Not, args, .. } => self.known(st, args[0]).map(|x| (x == 0) as i128),
            Val::App { op: Op::And, args, .. } => match (self.known(st, args[0]), self.known(st, args[1])) {
                (Some(0), _) | (_, Some(0)) => Some(0),
                (Some(_), Some(_)) => Some(1),
                _ => None,
            },
            Val::App { op: Op::Or, args, .. } => match (self.known(st, args[0]), self.known(st, args[1])) {
                (Some(0), Some(0)) => Some(0),
                (Some(x), _) | (_, Some(x)) if x != 0 => Some(1),
                _ => None,
            },
            Val::App { op: Op::EqZ, args, .. } => {
                if let Some(Fact::Eq(i)) = st.facts.get(&v) {
                    return Some(*i);
                }
                if let Some(b) = self.near(st, args[0], true) {
                    return Some(b);
                }
                if let Some(c) = self.numcon(args[0], true) {
                    if num::entails(&st.cons, &c) {
                        return Some(1);
                    }
                    return if num::compatible(&st.cons, &c) { None } else { Some(0) };
                }
                if let Some((t, c)) = lin_parts(args[0]) {
                    let mut c = c;
                    let mut rest: Vec<(V, i128)> = vec![];
                    for (x, q) in t {
                        match self.known_plain(st, x) {
                            Some(i) => c += q * i,
                            None => rest.push((x, q)),
                        }
                    }
                    if rest.is_empty() {
                        return Some((c == 0) as i128);
                    }
                    if rest.len() == 1 && rest[0].1.abs() == 1 {
                        let want = -c * rest[0].1;
                        if let Some(Fact::Ne(s)) = st.facts.get(&rest[0].0) {
                            if s.contains(&want) {
                                return Some(0);
                            }
                        }
                    }
                }
                None
            }
            Val::App { op: Op::LtZ, args, .. } => {
                if let Some(Fact::Eq(i)) = st.facts.get(&v) {
                    return Some(*i);
                }
                if let Some(b) = self.near(st, args[0], false) {
                    return Some(b);
                }
                if let Some(c) = self.numcon(lin_neg(args[0], -1), false) {
                    if num::entails(&st.cons, &c) {
                        return Some(1);
                    }
                    return if num::compatible(&st.cons, &c) { None } else { Some(0) };
                }
                let (t, mut c) = lin_parts(args[0])?;
                for (x, q) in t {
                    c += q * self.known_plain(st, x)?;
                }
                Some((c < 0) as i128)
            }
            Val::Lin(t, c) => {
                if self.numcon(v, true).is_some() {
                    return self.fixed_value(st, v);
                }
                let mut c = *c;
                for (x, q) in t.iter() {
                    c += q * self.known_plain(st, *x)?;
                }
                Some(c)
            }
            Val::Sym { .. } if self.numeric && is_num_sym(v) => self.fixed_value(st, v),
            _ => self.known_plain(st, v),
        }
    }
    /// The affine expression as a constraint, if it is about tracked numbers only.
    pub fn numcon(&self, v: V, eq: bool) -> Option<Con> {
        if !self.numeric {
            return None;
        }
        let c = Con::of(v, eq)?;
        c.t.iter().all(|x| is_num_sym(x.0)).then_some(c)
    }
    fn fixed_value(&self, st: &State, v: V) -> Option<i128> {
        let m = num::solve(&st.cons)?;
        let (t, mut c) = lin_parts(v)?;
        for (x, q) in t {
            let r = m.get(&x).copied().unwrap_or(num::Rat::of(0));
            c += q * r.whole()?;
        }
        let k = self.numcon(lin_add(v, int(c), -1), true)?;
        num::entails(&st.cons, &k).then_some(c)
    }
    /// Is `a <= b` certain?
    pub fn le(&self, st: &State, a: V, b: V) -> bool {
        self.known(st, lt(b, a)) == Some(0)
    }
    pub fn same(&self, st: &State, a: V, b: V) -> bool {
        a == b || self.known(st, eq_int(a, b)) == Some(1)
    }
    /// A number that is not negative.
    pub fn number(&self, st: &mut State, what: &str) -> V {
        self.fresh(st, &format!("#{what}"), NOTY)
    }
    fn known_plain(&self, st: &State, v: V) -> Option<i128> {
        match st.facts.get(&v) {
            Some(Fact::Eq(i)) => Some(*i),
            _ => None,
        }
    }
    /// Assumes `v == x`. Returns false if that contradicts what is known.
    /// Does it depend on what a function of the standard library does that is not modelled?
    pub fn guessed(&self, v: V) -> bool {
        if let Some(b) = self.guess_memo.borrow().get(&v) {
            return *b;
        }
        let r = any_sub(v, &mut |x| match &*g(x) {
            Val::Sym { class, .. } => nm_s(*class) == "unk",
            Val::App { op: Op::Call(n), .. } => self.guess_fns.contains(n),
            Val::Top | Val::Undef => true,
            _ => false,
        });
        self.guess_memo.borrow_mut().insert(v, r);
        r
    }
    pub fn assume_eq(&self, st: &mut State, v: V, x: i128) -> bool {
        if let Some(i) = self.known(st, v) {
            return i == x;
        }
        if !self.numeric && self.guessed(v) {
            if std::env::var("DBGW").is_ok() && !st.wide {
                eprintln!("GUESS {} in {:?}", show(&self.p, v), self.cur_fn.last().map(|f| self.p.funcs[*f as usize].path.clone()));
            }
            st.wide = true;
        }
        match &*g(v) {
            Val::Top | Val::Undef => true,
            Val::App { op: Op::Not, args, .. } => self.assume_eq(st, args[0], (x == 0) as i128),
            Val::App { op: Op::And, args, .. } => {
                if x != 0 {
                    self.assume_eq(st, args[0], 1) && self.assume_eq(st, args[1], 1)
                } else {
                    match (self.known(st, args[0]), self.known(st, args[1])) {
                        (Some(1), _) => self.assume_eq(st, args[1], 0),
                        (_, Some(1)) => self.assume_eq(st, args[0], 0),
                        _ => {
                            st.facts.insert(v, Fact::Eq(0));
                            true
                        }
                    }
                }
            }
            Val::App { op: Op::Or, args, .. } => {
                if x == 0 {
                    self.assume_eq(st, args[0], 0) && self.assume_eq(st, args[1], 0)
                } else {
                    st.facts.insert(v, Fact::Eq(1));
                    true
                }
            }
            Val::App { op: Op::EqZ, args, .. } if self.numcon(args[0], true).is_some() => {
                if x != 0 {
                    st.cons.push(self.numcon(args[0], true).unwrap());
                } else if let Some(c) = [args[0], lin_neg(args[0], 0)].iter().find_map(|l| {
                    let c = self.numcon(*l, false)?;
                    num::entails(&st.cons, &c).then(|| self.numcon(lin_add(*l, int(1), -1), false)).flatten()
                }) {
                    st.cons.push(c);
                } else {
                    st.facts.insert(v, Fact::Eq(0));
                }
                true
            }
            Val::App { op: Op::LtZ, args, .. } if self.numcon(args[0], true).is_some() => {
                let c = if x != 0 { lin_neg(args[0], -1) } else { args[0] };
                st.cons.push(self.numcon(c, false).unwrap());
                true
            }
            Val::Sym { .. } | Val::Lin(..) if self.numcon(v, true).is_some() => {
                let d = lin_add(v, int(x), -1);
                if is_int(d).is_some() {
                    return is_int(d) == Some(0);
                }
                let c = self.numcon(d, true).unwrap();
                if !num::compatible(&st.cons, &c) {
                    return false;
                }
                st.cons.push(c);
                true
            }
            Val::App { op: Op::EqZ, args, .. } => {
                st.facts.insert(v, Fact::Eq(x));
                if let Some((t, c)) = lin_parts(args[0]) {
                    let rest: Vec<(V, i128)> = t.into_iter().collect();
                    if rest.len() == 1 && rest[0].1.abs() == 1 {
                        let want = -c * rest[0].1;
                        return if x != 0 { self.assume_eq(st, rest[0].0, want) } else { self.assume_ne(st, rest[0].0, want) };
                    }
                }
                true
            }
            Val::Lin(t, c) if t.len() == 1 && t[0].1.abs() == 1 => self.assume_eq(st, t[0].0, (x - c) * t[0].1),
            Val::App { .. } | Val::Sym { .. } | Val::Lin(..) => {
                if let Some(Fact::Ne(s)) = st.facts.get(&v) {
                    if s.contains(&x) {
                        return false;
                    }
                }
                st.facts.insert(v, Fact::Eq(x));
                true
            }
            _ => true,
        }
    }
    pub fn assume_ne(&self, st: &mut State, v: V, x: i128) -> bool {
        if let Some(i) = self.known(st, v) {
            return i != x;
        }
        if !self.numeric && self.guessed(v) {
            st.wide = true;
        }
        if matches!(&*g(v), Val::Sym { .. } | Val::Lin(..)) && self.numcon(v, true).is_some() {
            return self.assume_eq(st, eq_int(v, int(x)), 0);
        }
        match &*g(v) {
            Val::App { op: Op::Not | Op::And | Op::Or | Op::EqZ | Op::LtZ | Op::Eq, .. } => {
                self.assume_eq(st, v, (x == 0) as i128)
            }
            Val::Lin(t, c) if t.len() == 1 && t[0].1.abs() == 1 => self.assume_ne(st, t[0].0, (x - c) * t[0].1),
            Val::App { op, args, .. } => {
                let mut s = match st.facts.get(&v) {
                    Some(Fact::Ne(s)) => s.clone(),
                    _ => BTreeSet::new(),
                };
                s.insert(x);
                if *op == Op::Disc {
                    if let Some(t) = self.p.types.get(peel(&self.p, vty(args[0])) as usize) {
                        if t.is_enum {
                            let rest: Vec<i128> = t.variants.iter().map(|v| v.disc).filter(|d| !s.contains(d)).collect();
                            if rest.is_empty() {
                                return false;
                            }
                            if rest.len() == 1 {
                                st.facts.insert(v, Fact::Eq(rest[0]));
                                return true;
                            }
                        }
                    }
                }
                self.ne_insert(st, v, s)
            }
            Val::Sym { .. } | Val::Lin(..) => {
                let mut s = match st.facts.get(&v) {
                    Some(Fact::Ne(s)) => s.clone(),
                    _ => BTreeSet::new(),
                };
                s.insert(x);
                self.ne_insert(st, v, s)
            }
            _ => true,
        }
    }
    fn ne_insert(&self, st: &mut State, v: V, s: BTreeSet<i128>) -> bool {
        let t = vty(v);
        if self.p.types.get(t as usize).map(|x| x.s == "bool").unwrap_or(false) {
            if s.contains(&0) && s.contains(&1) {
                return false;
            }
            if s.contains(&0) {
                st.facts.insert(v, Fact::Eq(1));
                return true;
            }
            if s.contains(&1) {
                st.facts.insert(v, Fact::Eq(0));
                return true;
            }
        }
        st.facts.insert(v, Fact::Ne(s));
        true
    }
    /// Splits on a boolean term.
    pub fn branch(&self, st: &State, v: V) -> Vec<(State, bool)> {
        let mut out = vec![];
        for x in [true, false] {
            let mut s = st.clone();
            if self.assume_eq(&mut s, v, x as i128) {
                out.push((s, x));
            }
        }
        out
    }
    /// Splits on the variant of an enum value.
    pub fn variants(&self, st: &State, v: V, ty: Ty) -> Vec<(State, u32)> {
        match &*g(v) {
            Val::Adt(_, x, _) => vec![(st.clone(), *x)],
            _ => {
                let t = peel(&self.p, if vty(v) != NOTY { vty(v) } else { ty });
                let Some(ti) = self.p.types.get(t as usize) else { return vec![] };
                let d = app(Op::Disc, vec![v], NOTY);
                let mut out = vec![];
                for (i, vv) in ti.variants.iter().enumerate() {
                    let mut s = st.clone();
                    if self.assume_eq(&mut s, d, vv.disc) {
                        out.push((s, i as u32));
                    }
                }
                out
            }
        }
    }
    pub fn disc_of(&self, v: V, ty: Ty) -> V {
        match &*g(v) {
            Val::Adt(t, x, _) => {
                let ti = self.p.types.get(*t as usize);
                match ti.and_then(|t| t.variants.get(*x as usize)) {
                    Some(vv) => int(if ti.unwrap().is_enum { vv.disc } else { 0 }),
                    None => int(*x as i128),
                }
            }
            Val::Sym { .. } | Val::App { .. } => {
                // make sure the opaque term has a type
                let _ = ty;
                app(Op::Disc, vec![v], NOTY)
            }
            Val::Int(i) => int(*i),
            _ => top(),
        }
    }

    // ---------- canonical form ----------
    /// Renames symbols, widens integers, forgets facts about dead symbols.
    pub fn canon(&self, st: &mut State) {
        if self.numeric {
            self.shape(st);
        } else {
            self.canon_map(st);
        }
    }
    fn canon_map(&self, st: &mut State) -> HashMap<V, V> {
        let p = self.p.clone();
        let mut order: HashMap<V, V> = HashMap::new();
        let mut next = 0u32;
        let mut seen: HashSet<V> = HashSet::new();
        let mut wid: HashMap<V, V> = HashMap::new();
        fn depth(v: V) -> usize {
            match &*g(v) {
                Val::App { args, .. } => 1 + args.iter().map(|x| depth(*x)).max().unwrap_or(0),
                Val::Lin(t, _) => 1 + t.iter().map(|x| depth(x.0)).max().unwrap_or(0),
                _ => 0,
            }
        }
        let prim = |t: Ty| p.types.get(t as usize).map(|x| x.k == "prim").unwrap_or(false);
        // Pass 1: widening of integers that could grow without bound.
        if self.widen {
            let consts = &self.p.consts;
            let mut memo = HashMap::new();
            let mut fresh = st.fresh;
            let mut leaf = |v: V| -> Option<V> {
                match &*g(v) {
                    Val::Int(i) if i.abs() > 4 && !consts.contains(i) => {
                        if let Some(w) = wid.get(&v) {
                            return Some(*w);
                        }
                        fresh += 1;
                        let w = mk(Val::Sym { class: nm("int"), idx: fresh, ty: NOTY });
                        wid.insert(v, w);
                        Some(w)
                    }
                    Val::Lin(..) => {
                        if let Some(w) = wid.get(&v) {
                            return Some(*w);
                        }
                        fresh += 1;
                        let w = mk(Val::Sym { class: nm("int"), idx: fresh, ty: NOTY });
                        wid.insert(v, w);
                        Some(w)
                    }
                    Val::App { ty, op, .. } => {
                        let arith = matches!(op, Op::Bin(_)) || (prim(*ty) && !matches!(op, Op::Fld(..)));
                        if (arith && depth(v) > 1) || depth(v) > 12 {
                            if let Some(w) = wid.get(&v) {
                                return Some(*w);
                            }
                            fresh += 1;
                            let w = mk(Val::Sym { class: nm("int"), idx: fresh, ty: *ty });
                            wid.insert(v, w);
                            return Some(w);
                        }
                        None
                    }
                    _ => None,
                }
            };
            for i in 0..st.mem.len() {
                st.mem[i] = map_val(st.mem[i], &mut memo, &mut leaf);
            }
            st.fresh = fresh;
        }
        // Pass 2: renaming in order of first occurrence.
        fn walk(v: V, seen: &mut HashSet<V>, order: &mut HashMap<V, V>, next: &mut u32) {
            if !seen.insert(v) {
                return;
            }
            if let Val::Sym { class, idx, ty } = &*g(v) {
                if *idx != 0 {
                    *next += 1;
                    order.insert(v, mk(Val::Sym { class: *class, idx: *next, ty: *ty }));
                }
            }
            children(v, &mut |x| walk(x, seen, order, next));
        }
        for i in 0..st.mem.len() {
            walk(st.mem[i], &mut seen, &mut order, &mut next);
        }
        for i in 0..st.mon.len() {
            walk(st.mon[i], &mut seen, &mut order, &mut next);
        }
        let mut monitored = BTreeSet::new();
        {
            let mut memo = HashSet::new();
            for v in &st.mon {
                syms(*v, &mut monitored, &mut memo);
            }
        }
        let mut memo = HashMap::new();
        let mut leaf = |v: V| order.get(&v).copied();
        for i in 0..st.mem.len() {
            st.mem[i] = map_val(st.mem[i], &mut memo, &mut leaf);
        }
        for i in 0..st.mon.len() {
            st.mon[i] = map_val(st.mon[i], &mut memo, &mut leaf);
        }
        let old = std::mem::take(&mut st.facts);
        for (k, f) in old {
            let mut ss = BTreeSet::new();
            syms(k, &mut ss, &mut HashSet::new());
            let live = !ss.is_empty()
                && ss.iter().all(|s| {
                    order.contains_key(s) || seen.contains(s)
                });
            if !live {
                continue;
            }
            // comparisons of numbers are kept only if they are about something that is monitored
            if matches!(&*g(k), Val::App { op: Op::LtZ | Op::EqZ, .. }) && self.widen && !ss.iter().all(|s| monitored.contains(s) || !order.contains_key(s)) {
                continue;
            }
            let nk = map_val(k, &mut memo, &mut leaf);
            st.facts.insert(nk, f);
        }
        st.fresh = next;
        order
    }
    /// Replaces a value everywhere in the state.
    pub fn subst(&self, st: &mut State, from: V, to: V) {
        let mut memo = HashMap::new();
        let mut leaf = |v: V| if v == from { Some(to) } else { None };
        for i in 0..st.mem.len() {
            st.mem[i] = map_val(st.mem[i], &mut memo, &mut leaf);
        }
        for i in 0..st.mon.len() {
            st.mon[i] = map_val(st.mon[i], &mut memo, &mut leaf);
        }
        let old = std::mem::take(&mut st.facts);
        for (k, f) in old {
            let nk = map_val(k, &mut memo, &mut leaf);
            st.facts.insert(nk, f);
        }
    }
    /// Values reachable from `v`, following references.
    pub fn reach(&self, st: &State, v: V, pred: &mut dyn FnMut(V) -> bool) -> bool {
        let mut seen = HashSet::new();
        let mut todo = vec![v];
        while let Some(x) = todo.pop() {
            if !seen.insert(x) {
                continue;
            }
            if pred(x) {
                return true;
            }
            if let Val::Ref(a, pr) = &*g(x) {
                todo.push(self.project(st, st.mem[*a as usize], pr));
            }
            children(x, &mut |y| todo.push(y));
        }
        false
    }

    // ---------- places ----------
    /// Is it a list of bytes (whose elements are pieces of unknown length)?
    fn of_bytes(&self, body: &Body, o: &Opd) -> bool {
        let t = match o {
            Opd::Copy(p) | Opd::Move(p) => self.place_ty(body, p),
            Opd::Const(k) => k.ty,
        };
        let t = self.p.types.get(peel(&self.p, t) as usize);
        t.and_then(|t| t.args.first()).and_then(|t| self.p.types.get(*t as usize)).map(|t| t.s == "u8").unwrap_or(true)
    }
    fn wrapper(&self, t: Ty) -> bool {
        self.p.types.get(t as usize).map(|t| matches!(t.path.as_str(), "std::mem::MaybeUninit" | "std::mem::ManuallyDrop" | "core::mem::MaybeUninit" | "core::mem::ManuallyDrop")).unwrap_or(false)
    }
    fn resolve(&self, st: &State, body: &Body, base: u32, pl: &Place) -> Loc {
        let mut ty = body.locals[pl.local as usize];
        let mut l = Loc { alloc: base + pl.local, path: vec![], via: false, ty };
        let mut var = 0u32;
        let mut idx = 0;
        while idx < pl.proj.len() {
            match &pl.proj[idx] {
                PE::Deref => {
                    let v = self.load(st, &l);
                    let dt = deref_ty(&self.p, ty);
                    if let Val::Ref(a, pr) = &*g(v) {
                        l = Loc { alloc: *a, path: pr.to_vec(), via: false, ty: dt };
                    } else if !is_box(&self.p, ty) {
                        l.via = true;
                    }
                    ty = dt;
                }
                // wrappers that are not there as far as values are concerned
                PE::Field(_) if self.wrapper(ty) => {
                    if self.p.types[ty as usize].path.ends_with("MaybeUninit") && matches!(pl.proj.get(idx + 1), Some(PE::Field(_))) {
                        idx += 1;
                    }
                    ty = self.p.types[ty as usize].args.first().copied().unwrap_or(NOTY);
                    var = 0;
                }
                PE::Field(i) => {
                    // fields of a reference-as-value
                    l.path.push(Proj::Field(*i));
                    ty = field_ty(&self.p, ty, var, *i);
                    var = 0;
                }
                PE::Down(v) => {
                    l.path.push(Proj::Down(*v));
                    var = *v;
                }
                PE::Index(i) => {
                    let iv = st.mem[(base + i) as usize];
                    let arr = self.load(st, &l);
                    match (&*g(arr), is_int(iv)) {
                        (Val::List(f), Some(n)) if (n as usize) < f.len() && f.iter().all(|x| x.0 == ONE) => {
                            l.path.push(Proj::Field(n as u32))
                        }
                        (Val::Ext(..), _) if self.numeric => l.path.push(Proj::At(iv)),
                        _ => l.path.push(Proj::Field(u32::MAX)),
                    }
                    ty = NOTY;
                }
                PE::CIdx(n, from_end) => {
                    let arr = self.load(st, &l);
                    match &*g(arr) {
                        Val::Ext(_, f) if self.numeric && f.len() == 2 => {
                            let i = if *from_end { lin_add(lin_add(f[1], f[0], -1), int(*n as i128), -1) } else { int(*n as i128) };
                            l.path.push(Proj::At(i))
                        }
                        Val::List(f) if f.iter().all(|x| x.0 == ONE) => {
                            let k = if *from_end { f.len().wrapping_sub(*n as usize) } else { *n as usize };
                            l.path.push(Proj::Field(k as u32));
                        }
                        _ => l.path.push(Proj::Field(u32::MAX)),
                    }
                    ty = NOTY;
                }
                PE::Sub(..) | PE::Other => {
                    l.path.push(Proj::Field(u32::MAX));
                    ty = NOTY;
                }
            }
            idx += 1;
        }
        // the declared type of the root is needed for field-wise updates
        l.ty = if l.alloc >= base && (l.alloc - base) < body.locals.len() as u32 {
            body.locals[(l.alloc - base) as usize]
        } else {
            NOTY
        };
        l
    }
    fn place_ty(&self, body: &Body, pl: &Place) -> Ty {
        let mut ty = body.locals[pl.local as usize];
        let mut var = 0;
        for e in &pl.proj {
            match e {
                PE::Deref => ty = deref_ty(&self.p, ty),
                PE::Field(i) => {
                    ty = field_ty(&self.p, ty, var, *i);
                    var = 0
                }
                PE::Down(v) => var = *v,
                _ => ty = NOTY,
            }
        }
        ty
    }
    /// Gives an untyped opaque value the type of the place it was read from.
    fn retype(&self, v: V, ty: Ty) -> V {
        let _ = ty;
        v
    }
    fn read_place(&self, st: &State, body: &Body, base: u32, pl: &Place) -> V {
        let l = self.resolve(st, body, base, pl);
        let v = self.load(st, &l);
        self.retype(v, NOTY)
    }
    fn operand(&mut self, st: &mut State, f: u32, body: &Body, base: u32, o: &Opd) -> V {
        match o {
            Opd::Copy(p) => self.read_place(st, body, base, p),
            Opd::Move(p) => {
                let l = self.resolve(st, body, base, p);
                let v = self.load(st, &l);
                if !l.via {
                    self.store(st, &l, undef());
                }
                v
            }
            Opd::Const(k) => self.konst(st, f, k),
        }
    }
    fn konst(&mut self, st: &mut State, _f: u32, k: &Konst) -> V {
        if let Some(c) = k.func {
            return mk(Val::Fn(c));
        }
        if let Some(b) = k.bits {
            // C-like enum constants are represented as their variant
            if let Some(ti) = self.p.types.get(k.ty as usize) {
                if ti.k == "adt" && ti.is_enum {
                    if let Some(i) = ti.variants.iter().position(|v| v.disc == b && v.fields.is_empty()) {
                        return mk(Val::Adt(k.ty, i as u32, Box::new([])));
                    }
                    return call(&format!("const:{}:{}", ti.path, b), vec![], k.ty);
                }
                if ti.k == "adt" {
                    return call(&format!("const:{}:{}", ti.path, b), vec![], k.ty);
                }
            }
            return int(b);
        }
        if let Some(b) = &k.bytes {
            return mk(Val::Bytes(b.clone()));
        }
        if let Some((n, of)) = &k.prom {
            let p = self.p.clone();
            if let Some(fi) = p.by_key.get(of) {
                if let Some(c) = self.const_cache.get(&(*fi, *n)) {
                    return *c;
                }
                if let Some(Some(b)) = p.funcs[*fi as usize].proms.get(*n) {
                    let r = self.exec_body(st.clone(), *fi, b, vec![], true);
                    if let Some((s, Out::Ret(v))) = r.into_iter().next() {
                        let v = self.freeze(&s, v);
                        self.const_cache.insert((*fi, *n), v);
                        return v;
                    }
                }
            }
            return self.fresh(st, "const", k.ty);
        }
        if let Some(key) = &k.key {
            let p = self.p.clone();
            if let Some(fi) = p.by_key.get(key) {
                if let Some(c) = self.const_cache.get(&(*fi, usize::MAX)) {
                    return *c;
                }
                let r = self.exec_body(st.clone(), *fi, &p.funcs[*fi as usize].body, vec![], true);
                if r.len() == 1 {
                    if let (s, Out::Ret(v)) = &r[0] {
                        let v = self.freeze(s, *v);
                        self.const_cache.insert((*fi, usize::MAX), v);
                        return v;
                    }
                }
            }
        }
        if let Some(s) = &k.statik {
            return fixed(&format!("static:{s}"), k.ty);
        }
        if let Some(ti) = self.p.types.get(k.ty as usize) {
            if ti.k == "tuple" && ti.args.is_empty() {
                return unit();
            }
            if ti.k == "adt" && !ti.is_enum && k.path.is_none() {
                // zero sized structs
                if ti.variants.first().map(|v| v.fields.is_empty()).unwrap_or(false) {
                    return mk(Val::Adt(k.ty, 0, Box::new([])));
                }
            }
            if ti.k == "closure" {
                if let Some(fi) = self.closure_fn(k.ty) {
                    return mk(Val::Clo(fi, Box::new([])));
                }
            }
        }
        match &k.path {
            Some(p) => fixed(&format!("const:{p}"), k.ty),
            None => call(&format!("zst:{}", self.p.types.get(k.ty as usize).map(|t| t.s.clone()).unwrap_or_default()), vec![], k.ty),
        }
    }
    fn closure_fn(&self, t: Ty) -> Option<u32> {
        let ti = self.p.types.get(t as usize)?;
        let _ = ti;
        None
    }
    /// Replaces references into `st` by the values they point to.
    pub fn freeze(&self, st: &State, v: V) -> V {
        let mut memo = HashMap::new();
        fn go(e: &Eng, st: &State, v: V, memo: &mut HashMap<V, V>, d: usize) -> V {
            if d > 12 {
                return top();
            }
            let v = e.deref(st, v);
            let mut leaf = |x: V| match &*g(x) {
                Val::Ref(..) => Some(go(e, st, x, &mut HashMap::new(), d + 1)),
                _ => None,
            };
            map_val(v, memo, &mut leaf)
        }
        go(self, st, v, &mut memo, 0)
    }

    // ---------- numbers ----------
    pub fn numeric_term(&self, v: V) -> bool {
        let mut any = false;
        let mut all = true;
        let mut memo = HashSet::new();
        let mut ss = BTreeSet::new();
        syms(v, &mut ss, &mut memo);
        for x in ss {
            any = true;
            all = all && is_num_sym(x);
        }
        any && all
    }
    /// Gives every number in the state a name of its own, in order of occurrence, and expresses what
    /// is known in these names only.
    pub fn shape(&self, st: &mut State) {
        let mut holes: Vec<(V, V)> = vec![];
        let mut names: HashMap<V, V> = HashMap::new();
        let mut fresh = st.fresh;
        let mon = std::cell::Cell::new(false);
        {
            let mut name = |v: V| {
                *names.entry(v).or_insert_with(|| {
                    fresh += 1;
                    let h = mk(Val::Sym { class: nm("#"), idx: fresh, ty: NOTY });
                    holes.push((h, v));
                    h
                })
            };
            let mut leaf = |v: V| -> Option<V> {
                let numeric = match &*g(v) {
                    Val::Lin(t, _) => t.iter().all(|x| is_num_sym(x.0)),
                    Val::Sym { idx, .. } => *idx != 0 && is_num_sym(v),
                    Val::Int(i) => !mon.get() && *i > 1 && *i < i32::MAX as i128 && !self.p.consts.contains(i),
                    Val::App { op: op @ (Op::EqZ | Op::LtZ), args, ty } if self.numcon(args[0], true).is_some() => {
                        // the difference may be negative, so it has no name
                        let (t, c) = lin_parts(args[0])?;
                        let mut l = int(c);
                        for (x, q) in t {
                            l = lin_add(l, if matches!(&*g(x), Val::Sym { idx: 0, .. }) { x } else { name(x) }, q);
                        }
                        return Some(app(op.clone(), vec![l], *ty));
                    }
                    _ => false,
                };
                numeric.then(|| name(v))
            };
            let mut memo = HashMap::new();
            for i in 0..st.mem.len() {
                st.mem[i] = map_val(st.mem[i], &mut memo, &mut leaf);
            }
            memo.clear();
            mon.set(true);
            for i in 0..st.mon.len() {
                st.mon[i] = map_val(st.mon[i], &mut memo, &mut leaf);
            }
            // what is known about a byte is kept as long as the byte is in use
            let mut used: HashSet<V> = HashSet::new();
            for v in st.mem.iter().chain(st.mon.iter()) {
                any_sub(*v, &mut |x| {
                    if matches!(&*g(x), Val::App { .. }) {
                        used.insert(x);
                    }
                    false
                });
            }
            let old = std::mem::take(&mut st.facts);
            for (k, f) in old {
                if matches!(&*g(k), Val::App { op: Op::LtZ | Op::EqZ, args, .. } if self.numcon(args[0], true).is_some()) {
                    continue;
                }
                let nk = map_val(k, &mut memo, &mut leaf);
                let numeric = any_sub(nk, &mut |x| is_num_sym(x) && !matches!(&*g(x), Val::Sym { idx: 0, .. }));
                if numeric && !any_sub(nk, &mut |x| used.contains(&x)) {
                    continue;
                }
                st.facts.insert(nk, f);
            }
        }
        st.fresh = fresh;
        let mut keep: BTreeSet<V> = BTreeSet::new();
        for v in st.mem.iter().chain(st.mon.iter()).chain(st.facts.keys()) {
            any_sub(*v, &mut |x| {
                if is_num_sym(x) {
                    keep.insert(x);
                }
                false
            });
        }
        let mut cons = std::mem::take(&mut st.cons);
        for (h, v) in &holes {
            if let Some(c) = Con::of(lin_add(*h, *v, -1), true) {
                cons.push(c);
            }
        }
        for c in &cons {
            for (v, _) in &c.t {
                if matches!(&*g(*v), Val::Sym { idx: 0, .. }) {
                    keep.insert(*v);
                }
            }
        }
        let cons = num::project(cons, &keep);
        // rename everything in order of occurrence
        let w = std::mem::replace(&mut st.cons, vec![]);
        drop(w);
        let map = self.canon_map(st);
        st.cons = cons.iter().map(|c| c.rename(&|v| map.get(&v).copied().unwrap_or(v))).collect();
        st.cons.sort();
    }
    /// Is there anything in this state (in `shape`) that was not seen before? Widens when there are
    /// too many different polyhedra.
    pub fn novel(&mut self, polys: &mut Polys, at: u64, st: &mut State, limit: usize) -> bool {
        let env = self.env.clone();
        let cons: Vec<Con> = { let c = std::mem::take(&mut st.cons); c }.iter().filter_map(|c| env.coarsen(st, c)).collect();
        let wide = std::mem::replace(&mut st.wide, false);
        let key = (at, st.fp());
        st.wide = wide;
        let (old, grown) = polys.entry(key).or_default();
        if old.iter().any(|(w, o)| (!*w || wide || *grown >= limit) && o.iter().all(|c| num::entails(&cons, c))) {
            st.cons = cons;
            return false;
        }
        let mut cons = cons;
        let mut merged = false;
        // unions that are convex
        while let Some((i, u)) = old.iter().enumerate().find_map(|(i, (w, o))| (*w == wide).then(|| exact_union(o, &cons)).flatten().map(|u| (i, u))) {
            if *grown >= limit {
                // growing without end
                let o = old.remove(i).1;
                cons = o.iter().filter(|c| num::entails(&u, c)).cloned().collect();
                st.wide = true;
                self.widened += 1;
                break;
            }
            old.remove(i);
            cons = u;
            merged = true;
        }
        *grown += merged as usize;
        if old.len() >= limit {
            if std::env::var("DBG_WIDE").is_ok() {
                println!("WIDEN at {at} fns {:?}", self.cur_fn.last().map(|f| self.p.funcs[*f as usize].path.clone()));
                for (w, o) in old.iter().chain(std::iter::once(&(wide, cons.clone()))) {
                    println!("   {w} {}", o.iter().map(|c| crate::recv::show_con(&self.p, c)).collect::<Vec<_>>().join(", "));
                }
                println!("   mon {}", st.mon.iter().map(|v| show(&self.p, *v)).collect::<Vec<_>>().join(" | "));
            }
            let o = old.last().unwrap().1.clone();
            cons = if *grown >= 2 * limit { o.iter().filter(|c| num::entails(&cons, c)).cloned().collect() } else { hull(&o, &cons) };
            *grown += 1;
            st.wide = true;
            self.widened += 1;
        }
        if st.wide && !wide && old.iter().any(|(_, o)| o.iter().all(|c| num::entails(&cons, c))) {
            st.cons = cons;
            return false;
        }
        st.cons = cons.clone();
        old.push((st.wide, cons));
        true
    }

    // ---------- execution ----------
    pub fn exec(&mut self, st: State, f: u32, args: Vec<V>) -> Res {
        let p = self.p.clone();
        let func = &p.funcs[f as usize];
        if self.depth > 70 || self.cur_fn.iter().filter(|x| **x == f).count() > 3 {
            self.incomplete.get_or_insert(format!("recursion limit at {}", func.path));
            let mut s = st;
            s.taint = true;
            let v = self.fresh(&mut s, "deep", NOTY);
            return vec![(s, Out::Ret(v))];
        }
        self.visited_fns.insert(f);
        self.cur_fn.push(f);
        self.depth += 1;
        let r = self.exec_body(st, f, &func.body, args, false);
        self.depth -= 1;
        self.cur_fn.pop();
        r
    }
    fn exec_body(&mut self, mut st: State, f: u32, body: &Body, args: Vec<V>, konst: bool) -> Res {
        let base = st.mem.len() as u32;
        for _ in 0..body.locals.len() {
            st.mem.push(undef());
        }
        for (i, a) in args.iter().enumerate() {
            if i < body.argc {
                st.mem[base as usize + 1 + i] = *a;
            }
        }
        let mut out: Res = vec![];
        let mut seen_out: HashSet<(u128, String)> = HashSet::new();
        let mut visited: HashSet<(usize, u128)> = HashSet::new();
        let mut work: Vec<(usize, State)> = vec![(0, st)];
        let mut polys: Polys = HashMap::new();
        let hang = if konst { None } else { self.env.clone().hang() };
        // which loops the work was reached through: everything above a mark
        let mut passed: Vec<(usize, Option<Rc<Anc>>)> = vec![];
        while let Some((bb, mut st)) = work.pop() {
            while passed.last().map(|x| x.0 > work.len()).unwrap_or(false) {
                passed.pop();
            }
            self.steps += 1;
            if self.steps % 4096 == 0 && std::time::Instant::now() > self.deadline {
                self.steps = self.max_steps + 1;
            }
            if self.steps > self.max_steps {
                self.incomplete.get_or_insert("step budget exhausted".into());
                return out;
            }
            if body.join[bb] {
                for i in 0..body.locals.len() {
                    if !body.borrowed[i] && !body.live[bb][i] {
                        st.mem[base as usize + i] = undef();
                    }
                }
                let before = match hang {
                    Some(_) if body.header[bb] && !st.taint => passed.last().and_then(|x| x.1.clone()),
                    _ => None,
                };
                let mut x = before.as_ref();
                while let Some(a) = x {
                    if a.bb == bb {
                        if a.nd == st.nd && a.fresh == st.fresh && a.mem[..] == st.mem[..] && a.mon[..] == st.mon[..] {
                            let at = self.p.funcs[f as usize].path.clone();
                            self.violation(&st, hang.unwrap(), format!("a loop in {at} never ends: it was passed through and nothing has changed"));
                        }
                        break;
                    }
                    x = a.prev.as_ref();
                }
                if body.header[bb] && !konst {
                    if st.taint {
                        // undecided anyway: no need to explore loops
                        self.dropped += 1;
                        if self.dropped > 200 {
                            continue;
                        }
                    }
                    if self.numeric {
                        self.shape(&mut st);
                        if !self.novel(&mut polys, bb as u64, &mut st, self.loop_poly) {
                            continue;
                        }
                    } else {
                        self.canon(&mut st);
                    }
                }
                if !visited.insert((bb, st.fp())) {
                    continue;
                }
                if body.header[bb] && hang.is_some() {
                    passed.push((work.len(), Some(Rc::new(Anc { bb, mem: st.mem.clone().into(), mon: st.mon.clone().into(), fresh: st.fresh, nd: st.nd, prev: before }))));
                }
            }
            if !konst {
                self.visited_blocks.insert((f, bb as u32));
            }
            let b = &body.bbs[bb];
            for s in &b.s {
                self.stmt(&mut st, f, body, base, s);
            }
            match &b.t {
                Tm::Goto(x) => work.push((*x, st)),
                Tm::Yield(x, _) => work.push((*x, st)),
                Tm::Drop(pl, x) => {
                    let l = self.resolve(&st, body, base, pl);
                    if !l.via {
                        self.store(&mut st, &l, undef());
                    }
                    work.push((*x, st));
                }
                Tm::Ret => {
                    let v = st.mem[base as usize];
                    if konst {
                        out.push((st, Out::Ret(v)));
                        continue;
                    }
                    st.mem.truncate(base as usize);
                    if seen_out.insert((st.fp(), format!("{v}"))) {
                        out.push((st, Out::Ret(v)));
                    }
                }
                Tm::Unreachable | Tm::Resume => {}
                Tm::Unsupported(w) => {
                    self.incomplete.get_or_insert(format!("unsupported {w}"));
                }
                Tm::Switch(o, ts, other, ty, sp) => {
                    let v = self.operand(&mut st, f, body, base, o);
                    self.switch(&mut work, st, v, ts, *other, *ty, *sp, body);
                }
                Tm::Assert { cond, expected, target, kind, span } => {
                    let v = self.operand(&mut st, f, body, base, cond);
                    if let Some(i) = self.known(&st, v) {
                        if (i != 0) == *expected {
                            work.push((*target, st));
                        } else {
                            let sp = self.p.spans[*span as usize].clone();
                            st.mem.truncate(base as usize);
                            st.note(format!("panic ({kind}) at {sp}"));
                            out.push((st, Out::Panic(format!("{kind} at {sp}"))));
                        }
                    } else {
                        // array bounds and arithmetic overflow are decided by the numeric analysis
                        if self.numeric {
                            let mut s = st.clone();
                            if self.numeric_term(v) && self.assume_eq(&mut s, v, !*expected as i128) {
                                let sp = self.p.spans[*span as usize].clone();
                                s.mem.truncate(base as usize);
                                s.note(format!("panic ({kind}) at {sp}"));
                                out.push((s, Out::Panic(format!("{kind} at {sp}"))));
                            }
                        }
                        let mut s = st;
                        self.assume_eq(&mut s, v, *expected as i128);
                        work.push((*target, s));
                    }
                }
                Tm::Call { f: fr, args, dest, target, span, dty } => {
                    let av: Vec<V> = args.iter().map(|a| self.operand(&mut st, f, body, base, a)).collect();
                    let atys: Vec<Ty> = args
                        .iter()
                        .map(|a| match a {
                            Opd::Copy(p) | Opd::Move(p) => self.place_ty(body, p),
                            Opd::Const(k) => k.ty,
                        })
                        .collect();
                    self.sites.push(*span);
                    let res = match fr {
                        FnRef::Static(c) => self.call(st, *c, av, &atys, *dty, *span),
                        FnRef::Indirect(o) => {
                            let fv = self.operand(&mut st, f, body, base, o);
                            let t = tup(av);
                            self.call_value(st, fv, t, *dty, *span)
                        }
                    };
                    self.sites.pop();
                    for (mut s, o) in res {
                        match o {
                            Out::Ret(v) => {
                                if let Some(t) = target {
                                    let l = self.resolve(&s, body, base, dest);
                                    self.store(&mut s, &l, v);
                                    work.push((*t, s));
                                }
                            }
                            Out::Panic(m) => {
                                s.mem.truncate(base as usize);
                                out.push((s, Out::Panic(m)));
                            }
                            Out::Cancel => {
                                s.mem.truncate(base as usize);
                                if seen_out.insert((s.fp(), "cancel".into())) {
                                    out.push((s, Out::Cancel));
                                }
                            }
                        }
                    }
                }
            }
        }
        out
    }
    #[allow(clippy::too_many_arguments)]
    fn switch(&mut self, work: &mut Vec<(usize, State)>, mut st: State, v: V, ts: &[(i128, usize)], other: usize, ty: Ty, sp: u32, body: &Body) {
        if let Some(i) = self.known(&st, v) {
            let x = ts.iter().find(|t| t.0 == i).map(|t| t.1).unwrap_or(other);
            work.push((x, st));
            return;
        }
        if self.numeric {
            if let Some(b) = self.unresolved(&st, v) {
                let env = self.env.clone();
                if let Some(alts) = env.expand(self, &st, b) {
                    for s in alts {
                        self.switch(work, s, v, ts, other, ty, sp, body);
                    }
                    return;
                }
            }
        }
        let isbool = self.p.types.get(ty as usize).map(|t| t.s == "bool").unwrap_or(false);
        if !self.quiet_traces {
            st.note(format!("branch at {}{}", self.p.spans[sp as usize], if self.numeric { format!(" on {}", show(&self.p, v)) } else { String::new() }));
        }
        if any_sub(v, &mut |x| matches!(&*g(x), Val::Top | Val::Undef)) {
            st.nd += 1;
        }
        let mut s2 = st.clone();
        let mut feas = true;
        for (x, _) in ts {
            feas = feas && self.assume_ne(&mut s2, v, *x);
        }
        if isbool && ts.len() >= 2 {
            feas = false;
        }
        if feas && !matches!(body.bbs[other].t, Tm::Unreachable) {
            work.push((other, s2));
        }
        for (x, t) in ts.iter().rev() {
            let mut s = st.clone();
            if self.assume_eq(&mut s, v, *x) {
                work.push((*t, s));
            }
        }
    }
    /// A byte in the term whose value is not yet known.
    pub fn unresolved(&self, st: &State, v: V) -> Option<V> {
        let mut found = None;
        any_sub(v, &mut |x| {
            if found.is_none() && matches!(&*g(x), Val::App { op: Op::Call(n), .. } if n == "byte") && !st.facts.contains_key(&x) {
                found = Some(x);
            }
            found.is_some()
        });
        found
    }
    fn stmt(&mut self, st: &mut State, f: u32, body: &Body, base: u32, s: &St) {
        match s {
            St::Dead(l) | St::Live(l) => st.mem[(base + l) as usize] = undef(),
            St::SetDisc(..) => {}
            St::Assign(pl, rv, _) => {
                let v = self.rvalue(st, f, body, base, rv);
                let l = self.resolve(st, body, base, pl);
                self.store(st, &l, v);
            }
        }
    }
    fn rvalue(&mut self, st: &mut State, f: u32, body: &Body, base: u32, rv: &Rv) -> V {
        match rv {
            Rv::Use(o) => self.operand(st, f, body, base, o),
            Rv::Repeat(o, n) => {
                let v = self.operand(st, f, body, base, o);
                match n {
                    Some(n) if *n <= 8 => list((0..*n).map(|_| (ONE, v)).collect()),
                    Some(n) => call("repeat", vec![v, int(*n)], NOTY),
                    _ => self.fresh(st, "repeat", NOTY),
                }
            }
            Rv::Ref(_, pl) => {
                let l = self.resolve(st, body, base, pl);
                if l.via || l.path.iter().any(|x| matches!(x, Proj::Field(u32::MAX) | Proj::At(_))) {
                    return self.load(st, &l);
                }
                mk(Val::Ref(l.alloc, l.path.into()))
            }
            Rv::Cast(k, o, t) => {
                if k == "BoxDerefTransmute" {
                    if let Opd::Copy(p) | Opd::Move(p) = o {
                        if matches!(p.proj.last(), Some(PE::Field(0))) {
                            let mut q = p.clone();
                            q.proj.pop();
                            let v = self.read_place(st, body, base, &q);
                            if matches!(&*g(v), Val::Ref(..)) {
                                return v;
                            }
                        }
                    }
                }
                let v = self.operand(st, f, body, base, o);
                if k.contains("IntToInt") {
                    let from = match o {
                        Opd::Copy(p) | Opd::Move(p) => self.place_ty(body, p),
                        Opd::Const(k) => k.ty,
                    };
                    let sz = |t: Ty| -> i32 {
                        match self.p.types.get(t as usize).map(|x| x.s.as_str()).unwrap_or("") {
                            "u8" => 8,
                            "i8" => 7,
                            "u16" => 16,
                            "i16" => 15,
                            "u32" | "char" => 32,
                            "i32" => 31,
                            "u64" | "usize" => 64,
                            "i64" | "isize" => 63,
                            "bool" => 1,
                            _ => 128,
                        }
                    };
                    if let Some(i) = is_int(v) {
                        let n = self.p.types.get(*t as usize).map(|x| x.s.clone()).unwrap_or_default();
                        let b = sz(*t);
                        return match n.as_bytes().first() {
                            Some(b'u') if b < 127 => int(i & ((1i128 << b) - 1)),
                            Some(b'i') if b < 127 => {
                                let x = i & ((1i128 << (b + 1)) - 1);
                                int(if x >> b & 1 == 1 { x - (1i128 << (b + 1)) } else { x })
                            }
                            _ => v,
                        };
                    }
                    if self.numeric && sz(*t) < sz(from) {
                        let max = (1i128 << sz(*t).min(64)) - 1;
                        if self.le(st, v, int(max)) || sz(*t) >= 32 && self.numcon(v, true).is_some() {
                            return v;
                        }
                        if self.numcon(v, true).is_some() {
                            let c = self.number(st, "cut");
                            let k = self.numcon(lin_add(int(max), c, -1), false).unwrap();
                            st.cons.push(k);
                            return c;
                        }
                    }
                    if sz(*t) < sz(from) {
                        return call("trunc", vec![v, int(sz(*t) as i128)], *t);
                    }
                    return v;
                }
                if k.contains("ReifyFnPointer") || k.contains("Unsize") || k.contains("PtrToPtr") || k.contains("PointerCoercion") || k.contains("Transmute") || k.contains("Subtype") {
                    return v;
                }
                call(&format!("cast:{k}"), vec![v], *t)
            }
            Rv::Bin(op, a, b) => {
                let x = self.operand(st, f, body, base, a);
                let y = self.operand(st, f, body, base, b);
                let r = self.binop(st, op, x, y);
                if self.numeric {
                    let r0 = match (&*g(r), op.as_str()) {
                        (Val::Tup(t), "AddWithOverflow" | "SubWithOverflow") => Some(t[0]),
                        (Val::Lin(..), "Add" | "Sub" | "AddUnchecked" | "SubUnchecked") => Some(r),
                        _ => None,
                    };
                    if let Some(r0) = r0 {
                        let t = match a {
                            Opd::Copy(p) | Opd::Move(p) => self.place_ty(body, p),
                            Opd::Const(k) => k.ty,
                        };
                        let max = match self.p.types.get(t as usize).map(|x| x.s.as_str()).unwrap_or("") {
                            "u8" => Some(255i128),
                            "u16" => Some(65535),
                            "u32" => Some(u32::MAX as i128),
                            _ => None,
                        };
                        for (c, what) in [Some((r0, "below zero")), max.map(|m| (lin_add(int(m), r0, -1), "beyond the range of its type"))].into_iter().flatten() {
                            let Some(ok) = self.numcon(c, false) else { continue };
                            let Some(bad) = self.numcon(lin_neg(c, -1), false) else { continue };
                            if num::compatible(&st.cons, &bad) {
                                let mut s = st.clone();
                                s.cons.push(bad);
                                self.wraps.push((s, format!("a calculation with positions goes {what} in {}", self.p.funcs[f as usize].path)));
                                if !num::compatible(&st.cons, &ok) {
                                    // nothing sensible follows
                                    st.taint = true;
                                } else {
                                    st.cons.push(ok);
                                }
                            }
                        }
                    }
                }
                r
            }
            Rv::Un(op, a) => {
                let x = self.operand(st, f, body, base, a);
                match op.as_str() {
                    "Not" => {
                        let t = match a {
                            Opd::Copy(p) | Opd::Move(p) => self.place_ty(body, p),
                            Opd::Const(k) => k.ty,
                        };
                        if self.p.types.get(t as usize).map(|x| x.s == "bool").unwrap_or(true) {
                            not(x)
                        } else {
                            call("bitnot", vec![x], t)
                        }
                    }
                    "Neg" => lin_neg(x, 0),
                    "PtrMetadata" => {
                        let x = self.deref(st, x);
                        match &*g(x) {
                            Val::Ext(_, f) if self.numeric && f.len() == 2 => lin_add(f[1], f[0], -1),
                            Val::List(l) if !self.numeric && l.iter().all(|x| x.0 == ONE) && !self.of_bytes(body, a) => int(l.len() as i128),
                            Val::Bytes(b) if !self.numeric => int(b.len() as i128),
                            _ => call("len", vec![x], NOTY),
                        }
                    }
                    _ => top(),
                }
            }
            Rv::Disc(pl, ty) => {
                let v = self.read_place(st, body, base, pl);
                let v = self.deref(st, v);
                self.disc_of(v, *ty)
            }
            Rv::Agg(k, os) => {
                let vs: Vec<V> = os.iter().map(|o| self.operand(st, f, body, base, o)).collect();
                match k {
                    Agg::Array => list(vs.into_iter().map(|v| (ONE, v)).collect()),
                    Agg::Tuple => tup(vs),
                    Agg::Adt(t, v) => self.adt(*t, *v, vs),
                    Agg::Clo(key) => match self.p.by_key.get(key) {
                        Some(fi) => mk(Val::Clo(*fi, vs.into())),
                        None => mk(Val::Clo(u32::MAX, vs.into())),
                    },
                }
            }
            Rv::Other => top(),
        }
    }
    pub fn binop(&mut self, st: &mut State, op: &str, x: V, y: V) -> V {
        let x = self.deref(st, x);
        let y = self.deref(st, y);
        let num = |v: V| matches!(&*g(v), Val::Int(_) | Val::Lin(..) | Val::Sym { .. } | Val::App { .. });
        if num(x) && num(y) {
            match op {
                "Add" | "AddUnchecked" => return lin_add(x, y, 1),
                "Sub" | "SubUnchecked" => return lin_add(x, y, -1),
                "AddWithOverflow" => return tup(vec![lin_add(x, y, 1), int(0)]),
                "SubWithOverflow" => return tup(vec![lin_add(x, y, -1), int(0)]),
                "Eq" => return eq_int(x, y),
                "Ne" => return not(eq_int(x, y)),
                "Lt" => return lt(x, y),
                "Gt" => return lt(y, x),
                "Le" => return not(lt(y, x)),
                "Ge" => return not(lt(x, y)),
                _ => {}
            }
        }
        match (op, is_int(x), is_int(y)) {
            ("Mul" | "MulUnchecked", Some(a), Some(b)) => int(a.wrapping_mul(b)),
            ("MulWithOverflow", Some(a), Some(b)) => tup(vec![int(a.wrapping_mul(b)), int(0)]),
            ("Div", Some(a), Some(b)) if b != 0 => int(a / b),
            ("Rem", Some(a), Some(b)) if b != 0 => int(a % b),
            ("BitAnd", Some(a), Some(b)) => int(a & b),
            ("BitOr", Some(a), Some(b)) => int(a | b),
            ("BitXor", Some(a), Some(b)) => int(a ^ b),
            ("Shl", Some(a), Some(b)) if b < 100 => int(a << b),
            ("Shr", Some(a), Some(b)) if b < 100 => int(a >> b),
            ("BitAnd", _, _) if self.boolish(x) && self.boolish(y) => self.and(x, y),
            ("BitOr", _, _) if self.boolish(x) && self.boolish(y) => not(self.and(not(x), not(y))),
            ("MulWithOverflow", _, _) => tup(vec![app(Op::Bin("Mul".into()), vec![x, y], NOTY), int(0)]),
            _ => app(Op::Bin(op.into()), vec![x, y], NOTY),
        }
    }
    fn boolish(&self, v: V) -> bool {
        match &*g(v) {
            Val::Int(i) => *i == 0 || *i == 1,
            Val::App { op: Op::Not | Op::And | Op::Or | Op::EqZ | Op::LtZ | Op::Eq, .. } => true,
            Val::App { ty, .. } | Val::Sym { ty, .. } => self.p.types.get(*ty as usize).map(|t| t.s == "bool").unwrap_or(false),
            _ => false,
        }
    }
    pub fn and(&self, x: V, y: V) -> V {
        match (is_int(x), is_int(y)) {
            (Some(0), _) | (_, Some(0)) => int(0),
            (Some(_), _) => y,
            (_, Some(_)) => x,
            _ => {
                let (a, b) = if x <= y { (x, y) } else { (y, x) };
                app(Op::And, vec![a, b], NOTY)
            }
        }
    }

    // ---------- calls ----------
    pub fn call(&mut self, st: State, c: u32, args: Vec<V>, atys: &[Ty], dty: Ty, sp: u32) -> Res {
        let p = self.p.clone();
        let ce = &p.callees[c as usize];
        if ce.ctor {
            let t = if dty != NOTY { dty } else { NOTY };
            return vec![(st, Out::Ret(self.adt(t, ce.variant.unwrap_or(0), args)))];
        }
        let env = self.env.clone();
        if let Some(mut r) = env.call(self, &st, ce, &args, dty, sp) {
            if r.len() > 1 || ce.path.ends_with("::poll") {
                r.iter_mut().for_each(|x| x.0.nd += 1);
            }
            return r;
        }
        // closures and function items through the Fn* traits
        if ["call_once", "call_mut", "call"].iter().any(|m| ce.path.ends_with(m)) && ce.path.starts_with("std::ops::Fn") && args.len() == 2 {
            let fv = args[0];
            return self.call_value_callee(st, Some(ce), fv, args[1], dty, sp);
        }
        if let Some(mut r) = crate::models::model(self, &st, ce, &args, atys, dty, sp) {
            if r.len() > 1 {
                r.iter_mut().for_each(|x| x.0.nd += 1);
            }
            return r;
        }
        if let Some(k) = &ce.key {
            if let Some(fi) = p.by_key.get(k) {
                let fu = &p.funcs[*fi as usize];
                if fu.coroutine {
                    return self.poll_coroutine(st, *fi, args, dty);
                }
                let mut st = st;
                if fu.local && !self.quiet_traces {
                    st.note(format!("{} called at {}", fu.path, p.spans[sp as usize]));
                }
                return self.exec(st, *fi, args);
            }
        }
        self.havoc(st, ce, &args, atys, dty, sp)
    }
    /// `.await` on an async body: runs it to completion (or to its cancellation).
    pub fn poll_coroutine(&mut self, st: State, fi: u32, args: Vec<V>, dty: Ty) -> Res {
        let mut st = st;
        let fut = self.deref(&st, args[0]);
        if let Some(l) = self.ref_loc(&st, args[0]) {
            self.store(&mut st, &l, undef());
        }
        if self.p.funcs[fi as usize].local && !self.quiet_traces {
            let w = format!("await {}", self.p.funcs[fi as usize].path);
            st.note(w);
        }
        let r = self.exec(st, fi, vec![fut, fixed("cx", NOTY)]);
        r.into_iter()
            .map(|(s, o)| match o {
                Out::Ret(v) => {
                    let v = mk(Val::Adt(dty, 0, vec![v].into()));
                    (s, Out::Ret(v))
                }
                o => (s, o),
            })
            .collect()
    }
    pub fn call_value(&mut self, st: State, f: V, args_tuple: V, dty: Ty, sp: u32) -> Res {
        self.call_value_callee(st, None, f, args_tuple, dty, sp)
    }
    pub fn call_value_callee(&mut self, st: State, ce: Option<&Callee>, f: V, args_tuple: V, dty: Ty, sp: u32) -> Res {
        let mut spread: Vec<V> = match &*g(args_tuple) {
            Val::Tup(a) => a.to_vec(),
            _ => vec![args_tuple],
        };
        let fv = self.deref(&st, f);
        match &*g(fv) {
            Val::Clo(k, _) if *k != u32::MAX => {
                let mut a = vec![f];
                a.append(&mut spread);
                self.exec(st, *k, a)
            }
            Val::Fn(c) => self.call(st, *c, spread, &[], dty, sp),
            _ => {
                if let Some(ce) = ce {
                    if let Some(v) = ce.via {
                        return self.call(st, v, spread, &[], dty, sp);
                    }
                    if let Some(k) = ce.once.as_ref().or(ce.key.as_ref()) {
                        if let Some(fi) = self.p.by_key.get(k).copied() {
                            let mut a = vec![f];
                            a.append(&mut spread);
                            return self.exec(st, fi, a);
                        }
                    }
                }
                let c = Callee { path: "indirect call".into(), rpath: "indirect call".into(), ..Default::default() };
                spread.push(f);
                self.havoc(st, &c, &spread, &[], dty, sp)
            }
        }
    }
    /// A call this analysis knows nothing about.
    pub fn havoc(&mut self, st: State, ce: &Callee, args: &[V], atys: &[Ty], dty: Ty, sp: u32) -> Res {
        *self.unknown.entry(ce.rpath.clone()).or_insert(0) += 1;
        let mut st = st;
        st.nd += 1;
        let env = self.env.clone();
        let std = ["std::", "core::", "alloc::", "<std::", "<core::", "<alloc::", "<&std::", "<&mut std::"].iter().any(|p| ce.rpath.starts_with(p));
        let is_bool = self.p.types.get(dty as usize).map(|t| ["bool", "usize", "u8", "u16", "u32", "u64", "i32", "i64", "isize"].contains(&t.s.as_str())).unwrap_or(false);
        let guess = std && !self.numeric && !(is_bool && !args.iter().any(|a| any_sub(*a, &mut |x| matches!(&*g(x), Val::Clo(..) | Val::Fn(..)))));
        // What these return depends on nothing that is known here: it can be anything.
        let free = ["std::io::Error::kind", "std::io::Error::raw_os_error", "std::path::Path::exists", "std::path::Path::is_file", "std::path::Path::is_dir", "std::path::Path::try_exists", "std::fs::exists"];
        let guess = guess && !free.contains(&ce.rpath.as_str());
        let class = if guess { "unk" } else { "ret" };
        for (i, a) in args.iter().enumerate() {
            let t = atys.get(i).copied().unwrap_or(NOTY);
            let ti = self.p.types.get(t as usize);
            let shared = ti.map(|x| x.k == "ref" && !x.mutbl).unwrap_or(false);
            let touched = self.reach(&st, *a, &mut |v| env.tracked(v) || self.numeric && is_num_sym(v));
            if self.numeric && !st.taint {
                st.taint = true;
                st.note(format!("unknown function {} at {}", ce.rpath, self.p.spans.get(sp as usize).cloned().unwrap_or_default()));
                self.notes.entry("unknown function".into()).or_default().insert(ce.rpath.clone());
            }
            if shared {
                continue;
            }
            if touched {
                st.taint = true;
                st.note(format!("unknown function {} at {}", ce.rpath, self.p.spans.get(sp as usize).cloned().unwrap_or_default()));
            }
            if let Val::Ref(..) = &*g(*a) {
                if ti.map(|x| x.mutbl).unwrap_or(true) {
                    let t = deref_ty(&self.p, t);
                    let v = self.fresh(&mut st, if guess { "unk" } else { "havoc" }, t);
                    self.store_ref(&mut st, *a, v);
                }
            }
        }
        // Without access to mutable data it is treated as an uninterpreted function.
        let pure = !args.is_empty()
            && args.iter().enumerate().all(|(i, _)| {
                let ti = self.p.types.get(atys.get(i).copied().unwrap_or(NOTY) as usize);
                ti.map(|x| !(x.k == "ref" && x.mutbl)).unwrap_or(false)
            });
        let v = if pure {
            let fa: Vec<V> = args.iter().map(|a| self.freeze(&st, *a)).collect();
            if fa.iter().any(|x| matches!(&*g(*x), Val::Top | Val::Undef)) {
                self.fresh(&mut st, class, dty)
            } else {
                if guess {
                    self.guess_fns.insert(ce.rpath.clone());
                }
                call(&ce.rpath, fa, dty)
            }
        } else {
            self.fresh(&mut st, class, dty)
        };
        vec![(st, Out::Ret(v))]
    }
}
