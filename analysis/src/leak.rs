//! Logs and error texts (L01): no bytes of the peers, literals or secrets get into them.
//! A flow analysis over the whole crate: flow-insensitive within functions, one summary per function, type and field.
use crate::common::*;
use crate::eng::*;
use crate::ir::*;
use crate::val::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

struct LEnv;
impl Env for LEnv {}

/// What a value may carry: nothing, raw bytes, or text made from bytes or secrets.
type D = u8;
const B: D = 1;
const S: D = 2;

struct Leak {
    p: Rc<Prog>,
    local: HashSet<String>,
    /// dirt of parameters and of results
    par: HashMap<(u32, u32), D>,
    ret: HashMap<u32, D>,
    /// dirt of fields of local types
    field: HashMap<(String, u32, u32), D>,
    /// dirt of captured variables
    up: HashMap<(String, u32), D>,
    /// local types whose textual form shows what it must not, and where
    shows: BTreeMap<(String, &'static str), String>,
    /// parameters of an unknown type that are printed
    psink: HashMap<(u32, u32), String>,
    changed: bool,
    /// something changed within the function
    again: bool,
    found: BTreeSet<String>,
    sinks: BTreeSet<String>,
    sources: BTreeSet<String>,
    secrets: BTreeSet<String>,
}
struct Fs {
    d: Vec<D>,
    /// what references point to
    orig: Vec<Vec<Place>>,
    /// the types behind a trait object
    src: Vec<Vec<Ty>>,
}

impl Leak {
    fn ti(&self, t: Ty) -> Option<&TyInfo> {
        self.p.types.get(t as usize)
    }
    fn is_local(&self, t: Ty) -> bool {
        self.ti(t).map(|x| x.k == "adt" && self.local.contains(&x.path)).unwrap_or(false)
    }
    fn std(path: &str) -> bool {
        ["std", "core", "alloc", "bytes"].contains(&path.split("::").next().unwrap_or(""))
    }
    fn any(&self, t: Ty, f: &mut dyn FnMut(&Self, Ty) -> Option<bool>) -> bool {
        fn go(s: &Leak, t: Ty, f: &mut dyn FnMut(&Leak, Ty) -> Option<bool>, seen: &mut HashSet<Ty>) -> bool {
            if !seen.insert(t) {
                return false;
            }
            if let Some(b) = f(s, t) {
                return b;
            }
            let Some(ti) = s.ti(t) else { return false };
            let a = ti.args.clone();
            a.into_iter().any(|x| go(s, x, f, seen))
        }
        go(self, t, f, &mut Default::default())
    }
    fn closed(&self, t: Ty) -> bool {
        self.ti(t).map(|x| x.k == "adt" && (x.path.ends_with("Secret") || x.path.ends_with("PhantomData"))).unwrap_or(false)
    }
    fn u8(&self, t: Ty) -> bool {
        self.ti(t).map(|x| x.s == "u8").unwrap_or(false)
    }
    /// Contains bytes, outside of `Secret` and of types of other crates.
    fn raw(&self, t: Ty) -> bool {
        self.any(t, &mut |s, t| {
            let x = s.ti(t)?;
            if s.closed(t) || s.is_local(t) {
                return Some(false);
            }
            match x.k.as_str() {
                "slice" | "array" => Some(x.args.first().map(|a| s.u8(*a) || s.raw(*a)).unwrap_or(false)),
                "adt" => {
                    let n = x.path.rsplit("::").next().unwrap_or("");
                    if ["BytesMut", "Bytes", "Fragment", "Literal", "Line"].contains(&n) && (x.path.starts_with("bytes") || x.path.starts_with("imap_codec")) {
                        return Some(true);
                    }
                    if ["Vec", "VecDeque", "IoSlice"].contains(&n) && Self::std(&x.path) && x.args.first().map(|a| s.u8(*a)).unwrap_or(false) {
                        return Some(true);
                    }
                    if Self::std(&x.path) { None } else { Some(false) }
                }
                "closure" | "coroutine" | "fndef" | "dyn" | "param" | "alias" | "fnptr" => Some(false),
                _ => None,
            }
        })
    }
    /// Contains text, or bytes one by one.
    fn texty(&self, t: Ty) -> bool {
        self.any(t, &mut |s, t| {
            let x = s.ti(t)?;
            if s.closed(t) || s.is_local(t) {
                return Some(false);
            }
            match x.k.as_str() {
                "str" => Some(true),
                "prim" => Some(x.s == "char" || x.s == "u8"),
                "adt" => {
                    let n = x.path.rsplit("::").next().unwrap_or("");
                    if ["String", "Arguments", "Argument", "ColoredString", "OsString", "OsStr", "CString", "PathBuf", "Display", "EscapeAscii", "EscapeDefault"].contains(&n) {
                        return Some(true);
                    }
                    // iterators over text and the like
                    let of_text = ["std::str::", "core::str::", "std::string::", "alloc::string::", "std::char::", "core::char::"].iter().any(|m| x.path.starts_with(m));
                    if of_text && !["Utf8Error", "ParseBoolError", "CharTryFromError", "ParseCharError", "TryFromCharError", "Infallible"].contains(&n) {
                        return Some(true);
                    }
                    if Self::std(&x.path) { None } else { Some(false) }
                }
                "closure" | "coroutine" | "fndef" | "dyn" | "param" | "alias" | "fnptr" => Some(false),
                _ => None,
            }
        })
    }
    fn is_dyn(&self, t: Ty) -> bool {
        self.any(t, &mut |s, t| s.ti(t).map(|x| x.k == "dyn").filter(|x| *x))
    }
    /// A type of another crate that may keep a text it was made from (messages, errors).
    fn keeps(&self, t: Ty) -> bool {
        self.any(t, &mut |s, t| {
            let x = s.ti(t)?;
            if s.closed(t) || s.is_local(t) {
                return Some(false);
            }
            match x.k.as_str() {
                "adt" if !Self::std(&x.path) => Some(true),
                "adt" if x.path.ends_with("io::Error") => Some(true),
                "dyn" => Some(true),
                "closure" | "coroutine" | "fndef" | "param" | "alias" | "fnptr" => Some(false),
                _ => None,
            }
        })
    }
    /// What of `d` a value of type `t` can carry.
    fn fits(&self, d: D, t: Ty) -> D {
        if t == NOTY {
            return d;
        }
        // captured variables
        if self.any(t, &mut |s, t| s.ti(t).map(|x| ["closure", "coroutine"].contains(&x.k.as_str())).filter(|x| *x)) {
            return d;
        }
        let mut r = 0;
        if d & S != 0 && (self.texty(t) || self.keeps(t) || self.raw(t)) {
            r |= S;
        }
        if d & B != 0 && (self.raw(t) || self.is_dyn(t)) {
            r |= B;
        } else if d & B != 0 && self.texty(t) {
            r |= S;
        }
        r
    }
    /// Values that may hand out bytes they contain: everything but numbers, texts and constants.
    fn object(&self, t: Ty) -> bool {
        let t = peel(&self.p, t);
        let Some(x) = self.ti(t) else { return false };
        match x.k.as_str() {
            "adt" => {
                if self.closed(t) {
                    return false;
                }
                if !Self::std(&x.path) {
                    return !["Level", "ColoredString", "NextFragment"].iter().any(|n| x.path.ends_with(n));
                }
                x.args.iter().any(|a| self.object(*a))
            }
            "tuple" => x.args.iter().any(|a| self.object(*a)),
            "param" | "alias" | "dyn" => true,
            _ => false,
        }
    }
    fn place_ty(&self, b: &Body, pl: &Place, upto: usize) -> Ty {
        let mut t = b.locals.get(pl.local as usize).copied().unwrap_or(NOTY);
        let mut v = 0;
        for e in &pl.proj[..upto] {
            match e {
                PE::Deref => {
                    t = deref_ty(&self.p, t);
                    v = 0
                }
                PE::Field(i) => {
                    t = field_ty(&self.p, t, v, *i);
                    v = 0
                }
                PE::Down(i) => v = *i,
                PE::Index(_) | PE::CIdx(..) => {
                    t = self.ti(t).and_then(|x| x.args.first().copied()).unwrap_or(NOTY);
                }
                PE::Sub(..) | PE::Other => {}
            }
        }
        t
    }
    fn place_d(&mut self, f: u32, b: &Body, fs: &Fs, pl: &Place) -> D {
        let t = self.place_ty(b, pl, pl.proj.len());
        let mut d = fs.d[pl.local as usize];
        let p = self.p.clone();
        let func = &p.funcs[f as usize];
        let clo = !func.upvars.is_empty() || func.path.contains("{closure");
        let mut v = 0;
        for (i, e) in pl.proj.iter().enumerate() {
            if let PE::Down(x) = e {
                v = *x;
                continue;
            }
            if let PE::Field(n) = e {
                let bt = self.place_ty(b, pl, i - if i > 0 && matches!(pl.proj[i - 1], PE::Down(_)) { 1 } else { 0 });
                let path = self.ti(bt).map(|x| x.path.clone()).unwrap_or_default();
                let k = self.ti(bt).map(|x| x.k.clone()).unwrap_or_default();
                if k == "adt" && self.is_local(bt) {
                    let ft = field_ty(&self.p, bt, v, *n);
                    d = self.field.get(&(path.clone(), v, *n)).copied().unwrap_or(0);
                    if self.raw(ft) {
                        let nm = self.ti(bt).and_then(|x| x.variants.get(v as usize)).and_then(|x| x.fields.get(*n as usize)).map(|x| x.0.clone()).unwrap_or_default();
                        self.sources.insert(format!("{path}.{nm}"));
                        d |= B;
                    }
                } else if k == "adt" && !Self::std(&path) && !self.closed(bt) {
                    if self.raw(t) {
                        self.sources.insert(path);
                        d |= B;
                    }
                } else if k == "adt" && self.closed(bt) {
                    self.secrets.insert(func.path.clone());
                    d |= S;
                } else if clo && pl.local == 1 && (k == "closure" || k == "coroutine") {
                    d |= self.up.get(&(closure_path(&func.path), *n)).copied().unwrap_or(0);
                }
                v = 0;
            }
        }
        self.fits(d, t)
    }
    fn opd_d(&mut self, f: u32, b: &Body, fs: &Fs, o: &Opd) -> D {
        match o {
            Opd::Copy(p) | Opd::Move(p) => self.place_d(f, b, fs, p),
            Opd::Const(_) => 0,
        }
    }
    fn opd_ty(&self, b: &Body, o: &Opd) -> Ty {
        match o {
            Opd::Copy(p) | Opd::Move(p) => self.place_ty(b, p, p.proj.len()),
            Opd::Const(k) => k.ty,
        }
    }
    fn add_field(&mut self, t: Ty, v: u32, i: u32, d: D) {
        let path = self.ti(t).map(|x| x.path.clone()).unwrap_or_default();
        let d = self.fits(d, field_ty(&self.p, t, v, i));
        let x = self.field.entry((path, v, i)).or_insert(0);
        if *x | d != *x {
            *x |= d;
            self.changed = true;
        }
    }
    /// `d` may be written to a place.
    fn write(&mut self, b: &Body, fs: &mut Fs, pl: &Place, d: D, depth: usize) -> bool {
        if d == 0 {
            return false;
        }
        let mut ch = false;
        // a field of a local type on the way
        let mut v = 0;
        for (i, e) in pl.proj.iter().enumerate() {
            match e {
                PE::Down(x) => v = *x,
                PE::Field(n) => {
                    let bt = self.place_ty(b, pl, i - if i > 0 && matches!(pl.proj[i - 1], PE::Down(_)) { 1 } else { 0 });
                    if self.is_local(bt) {
                        self.add_field(bt, v, *n, d);
                        return false;
                    }
                    v = 0;
                }
                _ => v = 0,
            }
        }
        let l = pl.local as usize;
        let dd = if pl.proj.is_empty() { self.fits(d, b.locals[l]) } else { d };
        if fs.d[l] | dd != fs.d[l] {
            fs.d[l] |= dd;
            ch = true;
        }
        if pl.proj.contains(&PE::Deref) && depth < 4 {
            for o in fs.orig[l].clone() {
                ch |= self.write(b, fs, &o, d, depth + 1);
            }
        }
        ch
    }
    /// The local types that are shown with a value of type `t`.
    fn shown(&self, t: Ty, tr: Option<&'static str>) -> Option<String> {
        let mut r = None;
        self.any(t, &mut |s, t| {
            let x = s.ti(t)?;
            if s.closed(t) {
                return Some(false);
            }
            if x.k == "adt" && s.local.contains(&x.path) {
                for k in ["Debug", "Display"] {
                    if tr.map(|t| t == k).unwrap_or(true) {
                        if let Some(w) = s.shows.get(&(x.path.clone(), k)) {
                            r = Some(format!("{} ({w})", x.path));
                            return Some(true);
                        }
                    }
                }
            }
            if ["closure", "coroutine", "fndef", "fnptr"].contains(&x.k.as_str()) { Some(false) } else { None }
        });
        r
    }
    fn at(&self, sp: u32) -> String {
        let s = self.p.spans.get(sp as usize).cloned().unwrap_or_default();
        s.rsplit_once("/repo/").map(|x| x.1.to_string()).unwrap_or(s)
    }
    /// Is what an operand shows something that must not be shown?
    fn leaks(&mut self, f: u32, b: &Body, fs: &Fs, o: &Opd, tr: Option<&'static str>) -> Option<String> {
        let d = self.opd_d(f, b, fs, o);
        if d & S != 0 {
            return Some("text made of received or sent bytes, or of a secret".into());
        }
        if d & B != 0 {
            return Some("received or sent bytes".into());
        }
        let mut ts = vec![self.opd_ty(b, o)];
        if let Opd::Copy(p) | Opd::Move(p) = o {
            ts.extend(fs.src[p.local as usize].iter().copied());
        }
        for t in ts {
            if let Some(w) = self.shown(t, tr) {
                return Some(w);
            }
        }
        None
    }
    fn func(&mut self, f: u32) {
        let p = self.p.clone();
        let func = &p.funcs[f as usize];
        let b = &func.body;
        if b.bbs.is_empty() {
            return;
        }
        let n = b.locals.len();
        let mut fs = Fs { d: vec![0; n], orig: vec![vec![]; n], src: vec![vec![]; n] };
        let clo = func.path.contains("{closure");
        for i in 1..=b.argc as u32 {
            let t = b.locals[i as usize];
            let mut d = self.par.get(&(f, i)).copied().unwrap_or(0);
            if self.raw(t) && !(clo && i == 1) {
                d |= B;
            }
            fs.d[i as usize] = self.fits(d, t);
        }
        let fmt = ["Debug", "Display"].iter().find(|t| func.tr.rsplit("::").next().map(|x| x.starts_with(**t)).unwrap_or(false)).copied();
        for _ in 0..40 {
            let mut ch = false;
            for bb in &b.bbs {
                if bb.cleanup {
                    continue;
                }
                for s in &bb.s {
                    let St::Assign(pl, rv, _) = s else { continue };
                    let mut d = 0;
                    match rv {
                        Rv::Use(o) | Rv::Repeat(o, _) => {
                            d = self.opd_d(f, b, &fs, o);
                            if let (Opd::Copy(q) | Opd::Move(q), true) = (o, pl.proj.is_empty()) {
                                if q.proj.is_empty() {
                                    ch |= alias(&mut fs, pl.local, q.local);
                                }
                            }
                        }
                        Rv::Cast(_, o, _) => {
                            d = self.opd_d(f, b, &fs, o);
                            if let Opd::Copy(q) | Opd::Move(q) = o {
                                if q.proj.is_empty() && pl.proj.is_empty() {
                                    ch |= alias(&mut fs, pl.local, q.local);
                                }
                            }
                            let t = self.opd_ty(b, o);
                            if pl.proj.is_empty() && !fs.src[pl.local as usize].contains(&t) {
                                fs.src[pl.local as usize].push(t);
                                ch = true;
                            }
                        }
                        Rv::Ref(_, q) => {
                            d = self.place_d(f, b, &fs, q);
                            if pl.proj.is_empty() {
                                if !fs.orig[pl.local as usize].iter().any(|x| x.local == q.local && x.proj == q.proj) {
                                    fs.orig[pl.local as usize].push(q.clone());
                                    ch = true;
                                }
                                // reborrows, and references to arrays of trait objects
                                ch |= alias(&mut fs, pl.local, q.local);
                            }
                        }
                        Rv::Agg(k, os) => {
                            for (i, o) in os.iter().enumerate() {
                                let x = self.opd_d(f, b, &fs, o);
                                match k {
                                    Agg::Adt(t, v) if self.is_local(*t) => {
                                        if x != 0 {
                                            self.add_field(*t, *v, i as u32, x)
                                        }
                                    }
                                    Agg::Clo(key) => {
                                        d |= x;
                                        let path = closure_path(key.split("@[").next().unwrap_or(key));
                                        let e = self.up.entry((path, i as u32)).or_insert(0);
                                        if *e | x != *e {
                                            *e |= x;
                                            self.changed = true;
                                        }
                                    }
                                    Agg::Adt(t, _) if self.closed(*t) => {}
                                    _ => d |= x,
                                }
                                if let (Opd::Copy(q) | Opd::Move(q), true) = (o, pl.proj.is_empty()) {
                                    for t in fs.src[q.local as usize].clone() {
                                        if !fs.src[pl.local as usize].contains(&t) {
                                            fs.src[pl.local as usize].push(t);
                                            ch = true;
                                        }
                                    }
                                }
                            }
                        }
                        Rv::Bin(_, x, y) => d = self.opd_d(f, b, &fs, x) | self.opd_d(f, b, &fs, y),
                        Rv::Un(_, x) => d = self.opd_d(f, b, &fs, x),
                        _ => {}
                    }
                    ch |= self.write(b, &mut fs, pl, d, 0);
                }
                if let Tm::Call { f: fr, args, dest, span, .. } = &bb.t {
                    ch |= self.call(f, b, &mut fs, fmt, fr, args, dest, *span);
                }
                if let Tm::Yield(_, pl) = &bb.t {
                    let _ = pl;
                }
            }
            if !std::mem::take(&mut self.again) && !ch {
                break;
            }
        }
        let r = fs.d[0];
        if std::env::var_os("DBGL").is_some() {
            for (i, d) in fs.d.iter().enumerate() {
                if d & S != 0 {
                    println!("S {} _{i} {}", func.path, self.ti(b.locals[i]).map(|x| x.s.clone()).unwrap_or_default());
                }
            }
        }
        let e = self.ret.entry(f).or_insert(0);
        if *e | r != *e {
            *e |= r;
            self.changed = true;
        }
    }
    fn sink(&mut self, f: u32, fmt: Option<&'static str>, what: String, sp: u32) {
        let p = self.p.clone();
        let func = &p.funcs[f as usize];
        let at = self.at(sp);
        match fmt {
            Some(tr) => {
                let path = self.ti(peel(&self.p, func.selfid)).map(|x| x.path.clone()).unwrap_or_default();
                if let std::collections::btree_map::Entry::Vacant(e) = self.shows.entry((path, tr)) {
                    e.insert(format!("{tr} at {at} shows {what}"));
                    self.changed = true;
                }
            }
            None => {
                self.found.insert(format!("{}: {what} printed at {at}", func.path));
            }
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn call(&mut self, f: u32, b: &Body, fs: &mut Fs, fmt: Option<&'static str>, fr: &FnRef, args: &[Opd], dest: &Place, sp: u32) -> bool {
        let p = self.p.clone();
        let mut ch = false;
        let ds: Vec<D> = args.iter().map(|o| self.opd_d(f, b, fs, o)).collect();
        let ts: Vec<Ty> = args.iter().map(|o| self.opd_ty(b, o)).collect();
        let dty = self.place_ty(b, dest, dest.proj.len());
        let mut out: D = 0;
        let FnRef::Static(c) = fr else {
            for d in &ds {
                out |= d;
            }
            return self.write(b, fs, dest, out, 0);
        };
        let c = &p.callees[*c as usize];
        let m = c.name.m.as_str();
        let callee = c.key.as_ref().and_then(|k| p.by_key.get(k)).copied().filter(|i| p.funcs[*i as usize].local);
        if let Some(k) = callee {
            for (i, d) in ds.iter().enumerate() {
                let t = p.funcs[k as usize].body.locals.get(i + 1).copied().unwrap_or(NOTY);
                let d = self.fits(*d, t);
                let e = self.par.entry((k, i as u32 + 1)).or_insert(0);
                if *e | d != *e {
                    *e |= d;
                    self.changed = true;
                }
                if let Some(w) = self.psink.get(&(k, i as u32 + 1)).cloned() {
                    if let Some(x) = self.leaks(f, b, fs, &args[i], None) {
                        self.sink(f, fmt, format!("{x}, through {w},"), sp);
                    }
                }
            }
            out |= self.ret.get(&k).copied().unwrap_or(0);
            // printing of a part
            if fmt.is_some() && ts.iter().any(|t| self.formatter(*t)) {
                self.print(f, b, fs, fmt, c, args, sp);
            }
            return self.write(b, fs, dest, out, 0);
        }
        // --- secrets are opened
        if c.path.contains("Secret") && ["declassify", "expose_secret", "into_inner", "into_exposed", "as_ref", "deref"].contains(&m) {
            self.secrets.insert(p.funcs[f as usize].path.clone());
            out |= S | B;
            let l = dest.local as usize;
            if dest.proj.is_empty() && fs.d[l] | S != fs.d[l] {
                fs.d[l] |= S;
                ch = true;
            }
            return self.write(b, fs, dest, out, 0) || ch;
        }
        if self.print(f, b, fs, fmt, c, args, sp) {
            return false;
        }
        // --- anything else of other crates
        let object = ts.iter().any(|t| self.object(*t));
        for d in &ds {
            out |= d;
        }
        // results of closures that are passed
        for (i, t) in ts.iter().enumerate() {
            let x = peel(&self.p, *t);
            let Some(ti) = self.ti(x) else { continue };
            if ti.k != "closure" && ti.k != "coroutine" && ti.k != "fndef" {
                continue;
            }
            let path = ti.path.clone();
            let others = ds.iter().enumerate().filter(|(j, _)| *j != i).fold(0, |a, x| a | x.1);
            for (k, g) in p.funcs.iter().enumerate() {
                if !g.local || g.path != path {
                    continue;
                }
                let first = if ti_k(&p, x) == "fndef" { 1 } else { 2 };
                for j in first..=g.body.argc as u32 {
                    let d = self.fits(others, g.body.locals[j as usize]);
                    let e = self.par.entry((k as u32, j)).or_insert(0);
                    if *e | d != *e {
                        *e |= d;
                        self.changed = true;
                    }
                }
                out |= self.ret.get(&(k as u32)).copied().unwrap_or(0);
            }
        }
        // what is written through `&mut`
        for (i, o) in args.iter().enumerate() {
            let Some(ti) = self.ti(ts[i]) else { continue };
            if ti.k != "ref" || !ti.mutbl {
                continue;
            }
            let inner = deref_ty(&self.p, ts[i]);
            let mut d = ds.iter().enumerate().filter(|(j, _)| *j != i).fold(0, |a, x| a | x.1);
            if self.raw(inner) && ts.iter().enumerate().any(|(j, t)| j != i && self.object(*t)) {
                d |= B;
            }
            let d = self.fits(d, inner);
            if let (Opd::Copy(q) | Opd::Move(q), true) = (o, d != 0) {
                let mut q = q.clone();
                q.proj.push(PE::Deref);
                ch |= self.write(b, fs, &q, d, 0);
            }
        }
        if self.raw(dty) && object && !["default", "new", "with_capacity", "clone_from"].contains(&m) {
            out |= B;
        }
        self.write(b, fs, dest, out, 0) || ch
    }
    fn formatter(&self, t: Ty) -> bool {
        let t = peel(&self.p, t);
        self.ti(t).map(|x| ["Formatter", "DebugStruct", "DebugTuple", "DebugList", "DebugSet", "DebugMap"].iter().any(|n| x.path.ends_with(n))).unwrap_or(false)
    }
    /// Calls that print. Returns whether it was one of those that end the flow.
    #[allow(clippy::too_many_arguments)]
    fn print(&mut self, f: u32, b: &Body, fs: &mut Fs, fmt: Option<&'static str>, c: &Callee, args: &[Opd], sp: u32) -> bool {
        let p = self.p.clone();
        let m = c.name.m.as_str();
        let ts: Vec<Ty> = args.iter().map(|o| self.opd_ty(b, o)).collect();
        let tracing = c.path.starts_with("tracing::__") && m != "__enabled";
        let out = c.path.starts_with("std::io") && matches!(m, "_print" | "_eprint");
        let to_file = c.path.ends_with("fs::write")
            || matches!(m, "write" | "write_all" | "write_fmt" | "write_str")
                && ts.first().map(|t| self.any(*t, &mut |s, t| s.ti(t).map(|x| ["Stdout", "Stderr", "StdoutLock", "StderrLock", "fs::File"].iter().any(|n| x.path.ends_with(n))).filter(|x| *x))).unwrap_or(false);
        let form = ts.iter().any(|t| self.formatter(*t));
        let arg = c.path.contains("fmt::rt::Argument") && m.starts_with("new_");
        if arg {
            // a value is put into a text
            let Some(o) = args.first() else { return false };
            let tr = match m {
                "new_display" => Some("Display"),
                "new_debug" => Some("Debug"),
                _ => None,
            };
            self.param_sink(f, b, fs, o, sp);
            if self.leaks(f, b, fs, o, tr).is_some() {
                let d = dest_of(&p.funcs[f as usize].body, sp, args);
                for l in d {
                    if fs.d[l as usize] & S == 0 {
                        fs.d[l as usize] |= S;
                        self.again = true;
                    }
                }
            }
            return false;
        }
        if !(tracing || out || to_file || form && fmt.is_some()) {
            return false;
        }
        self.sinks.insert(self.at(sp));
        let tr = if m == "__display" { Some("Display") } else if m == "__debug" || m == "__value" { Some("Debug") } else if c.name.tr == "Display" || c.path.contains("Display::fmt") { Some("Display") } else if form { Some("Debug") } else { None };
        for (i, o) in args.iter().enumerate() {
            if self.formatter(ts[i]) || tracing && i == 0 {
                continue;
            }
            if fmt.is_none() {
                self.param_sink(f, b, fs, o, sp);
            }
            if let Some(w) = self.leaks(f, b, fs, o, tr) {
                self.sink(f, fmt, w, sp);
            }
        }
        true
    }
    /// A parameter whose type is not known here is printed.
    fn param_sink(&mut self, f: u32, b: &Body, fs: &Fs, o: &Opd, sp: u32) {
        let t = peel(&self.p, self.opd_ty(b, o));
        if !self.ti(t).map(|x| x.k == "param" || x.k == "dyn").unwrap_or(false) {
            return;
        }
        let (Opd::Copy(q) | Opd::Move(q)) = o else { return };
        let mut work = vec![q.local];
        let mut seen = HashSet::new();
        while let Some(l) = work.pop() {
            if !seen.insert(l) {
                continue;
            }
            if l >= 1 && l <= b.argc as u32 {
                let at = self.at(sp);
                let path = self.p.funcs[f as usize].path.clone();
                if !self.psink.contains_key(&(f, l)) {
                    self.psink.insert((f, l), format!("{path} ({at})"));
                    self.changed = true;
                }
            }
            work.extend(fs.orig[l as usize].iter().map(|x| x.local));
        }
    }
}
fn ti_k(p: &Prog, t: Ty) -> String {
    p.types.get(t as usize).map(|x| x.k.clone()).unwrap_or_default()
}
fn closure_path(p: &str) -> String {
    p.to_string()
}
fn alias(fs: &mut Fs, to: u32, from: u32) -> bool {
    let mut ch = false;
    for o in fs.orig[from as usize].clone() {
        if !fs.orig[to as usize].iter().any(|x| x.local == o.local && x.proj == o.proj) && fs.orig[to as usize].len() < 12 {
            fs.orig[to as usize].push(o);
            ch = true;
        }
    }
    for t in fs.src[from as usize].clone() {
        if !fs.src[to as usize].contains(&t) {
            fs.src[to as usize].push(t);
            ch = true;
        }
    }
    ch
}
/// The destinations of the calls at a place with these arguments.
fn dest_of(b: &Body, sp: u32, args: &[Opd]) -> Vec<u32> {
    let l = |o: &[Opd]| match o.first() {
        Some(Opd::Copy(p) | Opd::Move(p)) => p.local,
        _ => u32::MAX,
    };
    b.bbs
        .iter()
        .filter_map(|bb| match &bb.t {
            Tm::Call { args: a, dest, span, .. } if *span == sp && l(a) == l(args) => Some(dest.local),
            _ => None,
        })
        .collect()
}

pub fn run(p: Rc<Prog>, cfg: &Cfg) -> Result<RunOut, String> {
    let mut e = Eng::new(p.clone(), Rc::new(LEnv));
    cfg.apply(&mut e);
    let local: HashSet<String> = p
        .items
        .iter()
        .filter(|j| j.get("k").and_then(|x| x.as_str()) == Some("adt"))
        .filter_map(|j| j.get("path").and_then(|x| x.as_str()).map(|x| x.to_string()))
        .collect();
    let mut a = Leak {
        p: p.clone(),
        local,
        par: Default::default(),
        ret: Default::default(),
        field: Default::default(),
        up: Default::default(),
        shows: Default::default(),
        psink: Default::default(),
        changed: true,
        again: false,
        found: Default::default(),
        sinks: Default::default(),
        sources: Default::default(),
        secrets: Default::default(),
    };
    let fns: Vec<u32> = (0..p.funcs.len() as u32).filter(|i| p.funcs[*i as usize].local && !p.funcs[*i as usize].path.starts_with("tests::") && !p.funcs[*i as usize].path.contains("::tests::")).collect();
    let mut rounds = 0;
    while a.changed && rounds < 60 {
        a.changed = false;
        rounds += 1;
        for f in &fns {
            a.func(*f);
        }
    }
    if a.changed {
        e.incomplete = Some("the summaries do not become stable".into());
    }
    // --- the types that are handed out to be printed
    let mut report: BTreeSet<String> = BTreeSet::new();
    for f in &fns {
        let g = &p.funcs[*f as usize];
        let rt = g.body.locals.first().copied().unwrap_or(NOTY);
        let Some(r) = p.types.get(rt as usize).filter(|x| x.path.ends_with("result::Result")) else { continue };
        let mut ts = vec![];
        if g.tr.rsplit("::").next() == Some("State") && g.path.ends_with("::next") {
            ts.extend(r.args.first().copied());
            if let Some(x) = r.args.get(1).and_then(|t| p.types.get(*t as usize)) {
                ts.extend(x.args.iter().copied());
            }
            ts.push(peel(&p, g.selfid));
        } else if g.public || p.krate.contains("proxy") {
            ts.extend(r.args.get(1).copied());
        }
        for t in ts {
            if a.is_local(t) && !p.types[t as usize].path.ends_with("Interrupt") {
                report.insert(p.types[t as usize].path.clone());
            }
        }
    }
    // results of asynchronous functions
    for t in &p.types {
        if t.path.ends_with("result::Result") {
            if let Some(x) = t.args.get(1) {
                if a.is_local(*x) && p.types[*x as usize].path.ends_with("Error") {
                    report.insert(p.types[*x as usize].path.clone());
                }
            }
        }
    }
    let s = State::new(1);
    for w in a.found.clone() {
        e.violation(&s, "L01", w);
    }
    for ((path, tr), w) in a.shows.clone() {
        if report.contains(&path) {
            e.violation(&s, "L01", format!("{tr} of {path}: {w}"));
        }
    }
    for f in &fns {
        e.visited_fns.insert(*f);
    }
    e.stats.insert("places that print".into(), a.sinks.len() as u64);
    e.stats.insert("kinds of bytes".into(), a.sources.len() as u64);
    e.stats.insert("types handed out".into(), report.len() as u64);
    e.stats.insert("rounds".into(), rounds);
    let mut floors = vec![];
    if a.sinks.len() < 10 {
        floors.push("places that print < 10".into());
    }
    if report.is_empty() {
        floors.push("types handed out < 1".into());
    }
    let samples = vec![
        format!("handed out: {}", report.iter().cloned().collect::<Vec<_>>().join(", ")),
        format!("bytes in: {}", a.sources.iter().cloned().collect::<Vec<_>>().join(", ")),
        format!("secrets opened in: {}", a.secrets.iter().cloned().collect::<Vec<_>>().join(", ")),
        format!("show bytes, not handed out: {}", a.shows.keys().filter(|k| !report.contains(&k.0)).map(|k| format!("{} {}", k.1, k.0)).collect::<Vec<_>>().join(", ")),
    ];
    Ok(RunOut { viol: e.viol.clone(), states: fns.len() as u64, transitions: a.sinks.len() as u64, tainted: 0, eng: e, floors, samples })
}
