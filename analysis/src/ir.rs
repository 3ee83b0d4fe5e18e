//! The compiler's intermediate representation as dumped by the driver.
use serde_json::Value as J;
use std::collections::{HashMap, HashSet};

pub type Ty = u32;
pub const NOTY: Ty = u32::MAX;

#[derive(Debug, Clone)]
pub struct Variant {
    pub name: String,
    pub disc: i128,
    pub fields: Vec<(String, Ty)>,
}
#[derive(Debug, Clone, Default)]
pub struct TyInfo {
    pub s: String,
    pub k: String,
    pub path: String,
    pub args: Vec<Ty>,
    pub variants: Vec<Variant>,
    pub is_enum: bool,
    pub mutbl: bool,
    pub len: Option<i128>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum PE {
    Deref,
    Field(u32),
    Index(u32),
    CIdx(u32, bool),
    Sub(u32, u32, bool),
    Down(u32),
    Other,
}
#[derive(Debug, Clone)]
pub struct Place {
    pub local: u32,
    pub proj: Vec<PE>,
}
#[derive(Debug, Clone)]
pub enum Opd {
    Copy(Place),
    Move(Place),
    Const(Konst),
}
#[derive(Debug, Clone, Default)]
pub struct Konst {
    pub ty: Ty,
    pub bits: Option<i128>,
    pub bytes: Option<Vec<u8>>,
    pub func: Option<u32>,
    pub prom: Option<(usize, String)>,
    pub path: Option<String>,
    pub key: Option<String>,
    pub statik: Option<String>,
}
#[derive(Debug, Clone)]
pub enum Agg {
    Array,
    Tuple,
    Adt(Ty, u32),
    Clo(String),
}
#[derive(Debug, Clone)]
pub enum Rv {
    Use(Opd),
    Repeat(Opd, Option<i128>),
    Ref(bool, Place),
    Cast(String, Opd, Ty),
    Bin(String, Opd, Opd),
    Un(String, Opd),
    Disc(Place, Ty),
    Agg(Agg, Vec<Opd>),
    Other,
}
#[derive(Debug, Clone)]
pub enum St {
    Assign(Place, Rv, u32),
    SetDisc(Place, u32),
    Dead(u32),
    Live(u32),
}
#[derive(Debug, Clone)]
pub enum FnRef {
    Static(u32),
    Indirect(Opd),
}
#[derive(Debug, Clone)]
pub enum Tm {
    Goto(usize),
    Switch(Opd, Vec<(i128, usize)>, usize, Ty, u32),
    Ret,
    Unreachable,
    Drop(Place, usize),
    Call { f: FnRef, args: Vec<Opd>, dest: Place, target: Option<usize>, span: u32, dty: Ty },
    Assert { cond: Opd, expected: bool, target: usize, kind: String, span: u32 },
    Yield(usize, Place),
    Resume,
    Unsupported(String),
}
#[derive(Debug, Clone)]
pub struct Bb {
    pub s: Vec<St>,
    pub t: Tm,
    pub cleanup: bool,
}
#[derive(Debug, Clone, Default)]
pub struct Body {
    pub argc: usize,
    pub locals: Vec<Ty>,
    pub names: HashMap<u32, String>,
    pub bbs: Vec<Bb>,
    // derived
    pub join: Vec<bool>,
    pub header: Vec<bool>,
    pub live: Vec<Vec<bool>>,
    pub borrowed: Vec<bool>,
}
#[derive(Debug, Clone, Default)]
pub struct Func {
    pub key: String,
    pub path: String,
    pub local: bool,
    pub generic: bool,
    pub span: String,
    pub end: String,
    pub coroutine: bool,
    pub public: bool,
    pub derived: bool,
    pub tr: String,
    pub selfty: String,
    /// The type that an associated function belongs to.
    pub selfid: Ty,
    pub upvars: Vec<String>,
    pub parent: String,
    pub body: Body,
    pub proms: Vec<Option<Body>>,
}
#[derive(Debug, Clone, Default)]
pub struct Callee {
    pub path: String,
    pub rpath: String,
    pub krate: String,
    pub args: Vec<Ty>,
    pub key: Option<String>,
    pub once: Option<String>,
    pub via: Option<u32>,
    pub shim: Option<String>,
    pub ctor: bool,
    pub variant: Option<u32>,
    pub name: Name,
}
/// Normalised function name: (base type, trait, method).
#[derive(Debug, Clone, Default, PartialEq, Eq, Hash)]
pub struct Name {
    pub ty: String,
    pub tr: String,
    pub m: String,
}

#[derive(Default)]
pub struct Prog {
    pub krate: String,
    pub types: Vec<TyInfo>,
    pub funcs: Vec<Func>,
    pub by_key: HashMap<String, u32>,
    pub callees: Vec<Callee>,
    pub spans: Vec<String>,
    span_ix: HashMap<String, u32>,
    pub items: Vec<J>,
    pub tainted: Vec<String>,
    pub consts: HashSet<i128>,
    pub dbg: bool,
}

fn s(j: &J, k: &str) -> String {
    j.get(k).and_then(|x| x.as_str()).unwrap_or("").to_string()
}
fn b(j: &J, k: &str) -> bool {
    j.get(k).and_then(|x| x.as_bool()).unwrap_or(false)
}
fn ty(j: &J) -> Ty {
    j.as_u64().map(|x| x as u32).unwrap_or(NOTY)
}

/// Splits a path at top-level `::` (outside of angle brackets).
pub fn segs(p: &str) -> Vec<String> {
    let mut out = vec![];
    let mut d = 0i32;
    let mut cur = String::new();
    let cs: Vec<char> = p.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c == '<' || c == '(' || c == '[' || c == '{' {
            d += 1;
        }
        if (c == '>' && i > 0 && cs[i - 1] != '-') || c == ')' || c == ']' || c == '}' {
            d -= 1;
        }
        if d == 0 && c == ':' && i + 1 < cs.len() && cs[i + 1] == ':' {
            out.push(std::mem::take(&mut cur));
            i += 2;
            continue;
        }
        cur.push(c);
        i += 1;
    }
    out.push(cur);
    out
}
fn base(t: &str) -> String {
    let t = t.trim().trim_start_matches('&').trim_start_matches("mut ").trim();
    if t.starts_with('[') {
        return "slice".into();
    }
    let mut v: Vec<String> = segs(t).into_iter().filter(|x| !x.starts_with('<')).collect();
    let last = v.pop().unwrap_or_default();
    last.split('<').next().unwrap_or("").to_string()
}
pub fn name_of(p: &str) -> Name {
    let mut v = segs(p);
    let mut m = v.pop().unwrap_or_default();
    if m.starts_with('<') && !v.is_empty() {
        m = v.pop().unwrap(); // turbofish on the method
    }
    // `core::slice::<impl [T]>`, `<X as Tr>`, `Vec::<T, A>`, `{closure#0}`
    let m = m.split('<').next().unwrap_or("").to_string();
    let Some(mut q) = v.pop() else { return Name { ty: String::new(), tr: String::new(), m } };
    if q.starts_with("<impl ") {
        let inner = q.trim_start_matches("<impl ").trim_end_matches('>').to_string();
        if let Some(i) = find_top(&inner, " for ") {
            return Name { ty: base(&inner[i + 5..]), tr: base(&inner[..i]), m };
        }
        let t = base(&inner);
        let t = if ["usize", "u64", "u32", "u8", "u16", "i32", "i64", "isize", "u128"].contains(&t.as_str()) { "num".into() } else { t };
        return Name { ty: t, tr: String::new(), m };
    }
    if q.starts_with('<') {
        let inner: String = q[1..q.len().saturating_sub(1)].to_string();
        if let Some(i) = find_top(&inner, " as ") {
            return Name { ty: base(&inner[..i]), tr: base(&inner[i + 4..]), m };
        }
        // generic args of the type: take the previous segment
        q = v.pop().unwrap_or_default();
    }
    Name { ty: base(&q), tr: String::new(), m }
}
fn find_top(s: &str, pat: &str) -> Option<usize> {
    let mut d = 0i32;
    let bs = s.as_bytes();
    for i in 0..bs.len() {
        match bs[i] {
            b'<' | b'(' | b'[' => d += 1,
            b'>' if i > 0 && bs[i - 1] != b'-' => d -= 1,
            b')' | b']' => d -= 1,
            _ => {}
        }
        if d == 0 && s[i..].starts_with(pat) {
            return Some(i);
        }
    }
    None
}

impl Prog {
    pub fn load(path: &str) -> Result<Prog, String> {
        let txt = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
        let j: J = serde_json::from_str(&txt).map_err(|e| e.to_string())?;
        let mut p = Prog::default();
        p.krate = s(&j, "crate");
        p.dbg = b(&j, "debug_assertions");
        for t in j["types"].as_array().unwrap() {
            let mut ti = TyInfo {
                s: s(t, "s"),
                k: s(t, "k"),
                path: s(t, "path"),
                is_enum: b(t, "enum"),
                mutbl: b(t, "mut"),
                len: t.get("len").and_then(|x| x.as_i64()).map(|x| x as i128),
                ..Default::default()
            };
            if let Some(a) = t.get("args").and_then(|x| x.as_array()) {
                ti.args = a.iter().map(ty).collect();
            }
            if let Some(a) = t.get("v").and_then(|x| x.as_array()) {
                for v in a {
                    ti.variants.push(Variant {
                        name: s(v, "n"),
                        disc: v["d"].as_i64().unwrap_or(0) as i128,
                        fields: v["f"]
                            .as_array()
                            .unwrap()
                            .iter()
                            .map(|f| (f[0].as_str().unwrap().to_string(), ty(&f[1])))
                            .collect(),
                    });
                }
            }
            p.types.push(ti);
        }
        for f in j["fns"].as_array().unwrap() {
            let mut g = Func {
                key: s(f, "key"),
                path: s(f, "path"),
                local: b(f, "local"),
                generic: b(f, "generic"),
                span: s(f, "span"),
                end: s(f, "end"),
                coroutine: b(f, "coroutine"),
                public: b(f, "pub"),
                derived: b(f, "derived"),
                tr: s(f, "trait"),
                selfty: s(f, "self"),
                selfid: f.get("selfid").map(ty).unwrap_or(NOTY),
                parent: s(f, "parent"),
                ..Default::default()
            };
            if let Some(u) = f.get("upvars").and_then(|x| x.as_array()) {
                g.upvars = u.iter().map(|x| x.as_str().unwrap().to_string()).collect();
            }
            g.body = p.body(&f["body"]);
            for pr in f["proms"].as_array().unwrap() {
                g.proms.push(if pr.is_null() { None } else { Some(p.body(pr)) });
            }
            let ix = p.funcs.len() as u32;
            p.by_key.entry(g.key.clone()).or_insert(ix);
            p.funcs.push(g);
        }
        p.items = j["items"].as_array().unwrap().clone();
        p.tainted = j["tainted"].as_array().unwrap().iter().map(|x| x.as_str().unwrap_or("").to_string()).collect();
        Ok(p)
    }
    pub fn span_id(&mut self, sp: &str) -> u32 {
        if let Some(i) = self.span_ix.get(sp) {
            return *i;
        }
        let i = self.spans.len() as u32;
        self.spans.push(sp.to_string());
        self.span_ix.insert(sp.to_string(), i);
        i
    }
    fn place(j: &J) -> Place {
        if let Some(n) = j.as_u64() {
            return Place { local: n as u32, proj: vec![] };
        }
        let a = j.as_array().unwrap();
        let mut pr = vec![];
        for e in &a[1..] {
            pr.push(if let Some(n) = e.as_u64() {
                PE::Field(n as u32)
            } else if e.as_str() == Some("d") {
                PE::Deref
            } else {
                let x = e.as_array().unwrap();
                let u = |i: usize| x[i].as_u64().unwrap() as u32;
                match x[0].as_str().unwrap() {
                    "i" => PE::Index(u(1)),
                    "ci" => PE::CIdx(u(1), x[3].as_bool().unwrap()),
                    "ss" => PE::Sub(u(1), u(2), x[3].as_bool().unwrap()),
                    "v" => PE::Down(u(1)),
                    _ => PE::Other,
                }
            });
        }
        Place { local: a[0].as_u64().unwrap() as u32, proj: pr }
    }
    fn callee(&mut self, j: &J) -> u32 {
        let mut c = Callee {
            path: s(j, "path"),
            rpath: s(j, "rpath"),
            krate: s(j, "crate"),
            args: j.get("args").and_then(|x| x.as_array()).map(|a| a.iter().map(ty).collect()).unwrap_or_default(),
            key: j.get("key").and_then(|x| x.as_str()).map(|x| x.to_string()),
            once: j.get("once").and_then(|x| x.as_str()).map(|x| x.to_string()),
            shim: j.get("shim").and_then(|x| x.as_str()).map(|x| x.to_string()),
            ctor: b(j, "ctor"),
            variant: j.get("variant").and_then(|x| x.as_u64()).map(|x| x as u32),
            ..Default::default()
        };
        if let Some(v) = j.get("via") {
            c.via = Some(self.callee(v));
        }
        if c.rpath.is_empty() {
            c.rpath = c.path.clone();
        }
        c.name = name_of(&c.rpath);
        self.callees.push(c);
        self.callees.len() as u32 - 1
    }
    fn opd(&mut self, j: &J) -> Opd {
        match j[0].as_str().unwrap() {
            "c" => Opd::Copy(Self::place(&j[1])),
            "m" => Opd::Move(Self::place(&j[1])),
            _ => {
                let k = &j[1];
                let t = ty(&k["ty"]);
                let mut o = Konst { ty: t, ..Default::default() };
                if let Some(f) = k.get("fn") {
                    o.func = Some(self.callee(f));
                }
                if let Some(bs) = k.get("bits").and_then(|x| x.as_str()) {
                    let u: u128 = bs.parse().unwrap_or(0);
                    let mut v = u as i128;
                    let tn = self.types.get(t as usize).map(|x| x.s.as_str()).unwrap_or("");
                    if tn.starts_with('i') && tn != "is" {
                        let sz = k["size"].as_u64().unwrap_or(16) * 8;
                        if sz < 128 && u >> (sz - 1) & 1 == 1 {
                            v = u as i128 - (1i128 << sz);
                        }
                    }
                    self.consts.insert(v);
                    o.bits = Some(v);
                }
                if let Some(bs) = k.get("bytes").and_then(|x| x.as_array()) {
                    o.bytes = Some(bs.iter().map(|x| x.as_u64().unwrap() as u8).collect());
                }
                if let Some(n) = k.get("prom").and_then(|x| x.as_u64()) {
                    o.prom = Some((n as usize, s(k, "of")));
                }
                o.path = k.get("path").and_then(|x| x.as_str()).map(|x| x.to_string());
                o.key = k.get("key").and_then(|x| x.as_str()).map(|x| x.to_string());
                o.statik = k.get("static").and_then(|x| x.as_str()).map(|x| x.to_string());
                Opd::Const(o)
            }
        }
    }
    fn opds(&mut self, j: &J) -> Vec<Opd> {
        j.as_array().unwrap().clone().iter().map(|x| self.opd(x)).collect()
    }
    fn rv(&mut self, j: &J) -> Rv {
        match j[0].as_str().unwrap() {
            "use" => Rv::Use(self.opd(&j[1])),
            "rep" => Rv::Repeat(self.opd(&j[1]), j[2].as_i64().map(|x| x as i128)),
            "ref" => Rv::Ref(j[1].as_str() != Some("s") && j[1].as_str() != Some("f"), Self::place(&j[2])),
            "reborrow" => {
                let mut p = Self::place(&j[2]);
                p.proj.push(PE::Deref);
                Rv::Ref(j[1].as_bool().unwrap(), p)
            }
            "cast" => Rv::Cast(j[1].as_str().unwrap().to_string(), self.opd(&j[2]), ty(&j[3])),
            "bin" => Rv::Bin(j[1].as_str().unwrap().to_string(), self.opd(&j[2]), self.opd(&j[3])),
            "un" => Rv::Un(j[1].as_str().unwrap().to_string(), self.opd(&j[2])),
            "disc" => Rv::Disc(Self::place(&j[1]), ty(&j[2])),
            "agg" => {
                let k = &j[1];
                let a = match k[0].as_str().unwrap() {
                    "array" => Agg::Array,
                    "tuple" => Agg::Tuple,
                    "adt" => Agg::Adt(ty(&k[1]), k[2].as_u64().unwrap() as u32),
                    "closure" | "coroutine" => Agg::Clo(k[1].as_str().unwrap().to_string()),
                    _ => return Rv::Other,
                };
                Rv::Agg(a, self.opds(&j[2]))
            }
            _ => Rv::Other,
        }
    }
    fn body(&mut self, j: &J) -> Body {
        let mut bd = Body {
            argc: j["argc"].as_u64().unwrap() as usize,
            locals: j["locals"].as_array().unwrap().iter().map(ty).collect(),
            ..Default::default()
        };
        for n in j["names"].as_array().unwrap() {
            bd.names.insert(n[0].as_u64().unwrap() as u32, n[1].as_str().unwrap().to_string());
        }
        for bb in j["bbs"].as_array().unwrap() {
            let mut ss = vec![];
            for x in bb["s"].as_array().unwrap() {
                ss.push(match x[0].as_str().unwrap() {
                    "=" => {
                        let r = self.rv(&x[2]);
                        let sp = self.span_id(x[3].as_str().unwrap_or(""));
                        St::Assign(Self::place(&x[1]), r, sp)
                    }
                    "sd" => St::SetDisc(Self::place(&x[1]), x[2].as_u64().unwrap() as u32),
                    "dead" => St::Dead(x[1].as_u64().unwrap() as u32),
                    _ => St::Live(x[1].as_u64().unwrap() as u32),
                });
            }
            let t = &bb["t"];
            let u = |x: &J| x.as_u64().unwrap() as usize;
            let tm = match t[0].as_str().unwrap() {
                "goto" => Tm::Goto(u(&t[1])),
                "switch" => {
                    let sp = self.span_id(t[5].as_str().unwrap_or(""));
                    Tm::Switch(
                        self.opd(&t[1]),
                        t[2].as_array().unwrap().iter().map(|x| (x[0].as_i64().unwrap_or(0) as i128, u(&x[1]))).collect(),
                        u(&t[3]),
                        ty(&t[4]),
                        sp,
                    )
                }
                "ret" => Tm::Ret,
                "unreachable" => Tm::Unreachable,
                "drop" => Tm::Drop(Self::place(&t[1]), u(&t[2])),
                "call" => {
                    let f = if let Some(i) = t[1].get("indirect").filter(|x| x.is_array()) {
                        FnRef::Indirect(self.opd(i))
                    } else {
                        FnRef::Static(self.callee(&t[1]))
                    };
                    let sp = self.span_id(t[5].as_str().unwrap_or(""));
                    Tm::Call {
                        f,
                        args: self.opds(&t[2]),
                        dest: Self::place(&t[3]),
                        target: t[4].as_u64().map(|x| x as usize),
                        span: sp,
                        dty: ty(&t[6]),
                    }
                }
                "assert" => {
                    let sp = self.span_id(t[6].as_str().unwrap_or(""));
                    Tm::Assert {
                        cond: self.opd(&t[1]),
                        expected: t[2].as_bool().unwrap(),
                        target: u(&t[3]),
                        kind: t[4].as_str().unwrap().to_string(),
                        span: sp,
                    }
                }
                "yield" => Tm::Yield(u(&t[2]), Self::place(&t[3])),
                "resume" | "corodrop" => Tm::Resume,
                _ => Tm::Unsupported(t.to_string()),
            };
            bd.bbs.push(Bb { s: ss, t: tm, cleanup: b(bb, "c") });
        }
        bd.derive();
        bd
    }
}

pub fn succs(t: &Tm) -> Vec<usize> {
    match t {
        Tm::Goto(x) | Tm::Drop(_, x) | Tm::Yield(x, _) => vec![*x],
        Tm::Switch(_, ts, o, _, _) => ts.iter().map(|x| x.1).chain(std::iter::once(*o)).collect(),
        Tm::Call { target, .. } => target.iter().copied().collect(),
        Tm::Assert { target, .. } => vec![*target],
        _ => vec![],
    }
}

impl Body {
    fn derive(&mut self) {
        let n = self.bbs.len();
        let mut preds = vec![0usize; n];
        for bb in &self.bbs {
            if bb.cleanup {
                continue;
            }
            for x in succs(&bb.t) {
                preds[x] += 1;
            }
        }
        self.join = preds.iter().map(|x| *x >= 2).collect();
        self.header = vec![false; n];
        // back edges
        let mut color = vec![0u8; n];
        let mut stack: Vec<(usize, usize)> = vec![];
        if n > 0 {
            stack.push((0, 0));
            color[0] = 1;
        }
        while let Some((x, i)) = stack.pop() {
            let ss = succs(&self.bbs[x].t);
            if i < ss.len() {
                stack.push((x, i + 1));
                let y = ss[i];
                if color[y] == 0 {
                    color[y] = 1;
                    stack.push((y, 0));
                } else if color[y] == 1 {
                    self.header[y] = true;
                    self.join[y] = true;
                }
            } else {
                color[x] = 2;
            }
        }
        // liveness
        let nl = self.locals.len();
        self.borrowed = vec![false; nl];
        for bb in &self.bbs {
            for st in &bb.s {
                if let St::Assign(_, Rv::Ref(_, p), _) = st {
                    if !p.proj.contains(&PE::Deref) {
                        self.borrowed[p.local as usize] = true;
                    }
                }
            }
        }
        self.live = vec![vec![false; nl]; n];
        let mut changed = true;
        while changed {
            changed = false;
            for x in (0..n).rev() {
                let mut l = vec![false; nl];
                for y in succs(&self.bbs[x].t) {
                    for i in 0..nl {
                        l[i] |= self.live[y][i];
                    }
                }
                let usep = |p: &Place, l: &mut Vec<bool>| {
                    l[p.local as usize] = true;
                    for e in &p.proj {
                        if let PE::Index(i) = e {
                            l[*i as usize] = true;
                        }
                    }
                };
                let useo = |o: &Opd, l: &mut Vec<bool>| match o {
                    Opd::Copy(p) | Opd::Move(p) => {
                        l[p.local as usize] = true;
                        for e in &p.proj {
                            if let PE::Index(i) = e {
                                l[*i as usize] = true;
                            }
                        }
                    }
                    _ => {}
                };
                match &self.bbs[x].t {
                    Tm::Switch(o, ..) => useo(o, &mut l),
                    Tm::Ret => l[0] = true,
                    Tm::Drop(p, _) => usep(p, &mut l),
                    Tm::Call { f, args, dest, .. } => {
                        if dest.proj.is_empty() {
                            l[dest.local as usize] = false;
                        } else {
                            usep(dest, &mut l);
                        }
                        for a in args {
                            useo(a, &mut l);
                        }
                        if let FnRef::Indirect(o) = f {
                            useo(o, &mut l);
                        }
                    }
                    Tm::Assert { cond, .. } => useo(cond, &mut l),
                    Tm::Yield(_, p) => usep(p, &mut l),
                    _ => {}
                }
                for st in self.bbs[x].s.iter().rev() {
                    match st {
                        St::Assign(p, r, _) => {
                            if p.proj.is_empty() {
                                l[p.local as usize] = false;
                            } else {
                                usep(p, &mut l);
                            }
                            match r {
                                Rv::Use(o) | Rv::Repeat(o, _) | Rv::Cast(_, o, _) | Rv::Un(_, o) => useo(o, &mut l),
                                Rv::Bin(_, a, b) => {
                                    useo(a, &mut l);
                                    useo(b, &mut l);
                                }
                                Rv::Ref(_, p) | Rv::Disc(p, _) => usep(p, &mut l),
                                Rv::Agg(_, os) => {
                                    for o in os {
                                        useo(o, &mut l);
                                    }
                                }
                                Rv::Other => {}
                            }
                        }
                        St::SetDisc(p, _) => usep(p, &mut l),
                        St::Dead(x) => l[*x as usize] = false,
                        St::Live(x) => l[*x as usize] = false,
                    }
                }
                if l != self.live[x] {
                    self.live[x] = l;
                    changed = true;
                }
            }
        }
    }
}
