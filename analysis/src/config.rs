//! Configuration files (X07): what a document says is what the proxy uses.
use crate::common::*;
use crate::eng::*;
use crate::ir::*;
use crate::models::*;
use crate::text;
use crate::val::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

// monitor slots
const REST: usize = 0; // keys not read yet
const CUR: usize = 1; // the key (or tag) that is being read
const FAIL: usize = 2; // reading failed
const TAG: usize = 3; // the document's tag
const TAGKEY: usize = 4; // where the tag is
const OUT: usize = 5; // what was written
const NMON: usize = 6;

struct CEnv;
/// The local method of a visitor (or of a type that is deserialized).
fn method(p: &Prog, t: Ty, m: &str) -> Option<u32> {
    p.funcs.iter().position(|f| f.selfid == t && f.local && name_of(&f.path).m == m).map(|x| x as u32)
}
fn strs(v: V) -> Vec<V> {
    match &*g(v) {
        Val::Tup(f) => f.to_vec(),
        _ => vec![],
    }
}
impl CEnv {
    fn fail(&self, e: &mut Eng, st: &State, dty: Ty) -> (State, Out) {
        let mut s = st.clone();
        s.set(FAIL, 1);
        let t = e.p.types.get(dty as usize).and_then(|t| t.args.get(1).copied()).unwrap_or(NOTY);
        let v = e.fresh(&mut s, "E", t);
        s.note("reading fails");
        (s, Out::Ret(err(dty, v)))
    }
    /// Deserializes a value of type `t` from the string in CUR.
    fn ident(&self, e: &mut Eng, s: State, t: Ty) -> Option<Res> {
        let f = method(&e.p, t, "deserialize")?;
        Some(e.exec(s, f, vec![ext("DE", vec![])]))
    }
}
impl Env for CEnv {
    fn tracked(&self, v: V) -> bool {
        matches!(&*g(v), Val::Ext(k, _) if nm_s(*k) == "DE") || matches!(&*g(v), Val::List(_))
    }
    fn call(&self, e: &mut Eng, st: &State, c: &Callee, a: &[V], dty: Ty, sp: u32) -> Option<Res> {
        let m = c.name.m.as_str();
        let serde = c.path.starts_with("serde");
        let ity = |e: &Eng| e.p.types.get(dty as usize).and_then(|t| t.args.first().copied()).unwrap_or(NOTY);
        let mut s = st.clone();
        if serde {
            match m {
                "new" if c.path.contains("TaggedContentVisitor") => return Some(ret(s, ext("tagged", vec![e.deref(st, a[0])]))),
                "new" if c.path.contains("ContentDeserializer") || c.path.contains("ContentRefDeserializer") => return Some(ret(s, ext("DE", vec![]))),
                "expecting" => return None,
                "deserialize_any" | "deserialize_map" | "deserialize_struct" => {
                    if let Val::Ext(k, f) = &*g(e.deref(st, *a.last()?)) {
                        if nm_s(*k) == "tagged" {
                            let name = f[0];
                            let mut out = vec![self.fail(e, st, dty)];
                            let has = s.mon[TAG];
                            if !matches!(&*g(has), Val::Bytes(_)) || name != s.mon[TAGKEY] {
                                // there is no such key
                                return Some(out);
                            }
                            let t = ity(e);
                            let ft = *e.p.types.get(t as usize)?.args.first()?;
                            s.mon[CUR] = has;
                            for (s, o) in self.ident(e, s, ft)? {
                                let Out::Ret(r) = o else {
                                    out.push((s, o));
                                    continue;
                                };
                                for (s, i) in e.variants(&s, r, NOTY) {
                                    let x = e.field(&s, r, i, 0);
                                    if i == 0 {
                                        out.push((s, Out::Ret(ok(dty, tup(vec![x, ext("content", vec![])])))));
                                    } else {
                                        out.push((s, Out::Ret(err(dty, x))));
                                    }
                                }
                            }
                            return Some(out);
                        }
                    }
                    let vt = *c.args.last()?;
                    let f = method(&e.p, vt, "visit_map")?;
                    let v = *a.last()?;
                    // `toml` also passes sequences to visitors only for arrays
                    return Some(e.exec(s, f, vec![v, ext("DE", vec![])]));
                }
                "deserialize_identifier" => {
                    let vt = *c.args.last()?;
                    let v = *a.last()?;
                    let f = method(&e.p, vt, "visit_str")?;
                    let cur = st.mon[CUR];
                    return Some(e.exec(s, f, vec![v, cur]));
                }
                "next_key" => {
                    let kt = *c.args.last()?;
                    let mut out = vec![self.fail(e, st, dty)];
                    let rest = strs(st.mon[REST]);
                    if rest.is_empty() {
                        let t = ity(e);
                        out.push((s, Out::Ret(ok(dty, none(t)))));
                        return Some(out);
                    }
                    for (i, k) in rest.iter().enumerate() {
                        let mut s = st.clone();
                        let mut r = rest.clone();
                        r.remove(i);
                        s.mon[REST] = tup(r);
                        s.mon[CUR] = *k;
                        s.note(format!("key {}", show(&e.p, *k)));
                        for (s, o) in self.ident(e, s, kt)? {
                            let Out::Ret(r) = o else {
                                out.push((s, o));
                                continue;
                            };
                            for (s, i) in e.variants(&s, r, NOTY) {
                                let x = e.field(&s, r, i, 0);
                                let t = ity(e);
                                out.push((s, Out::Ret(if i == 0 { ok(dty, some(t, x)) } else { err(dty, x) })));
                            }
                        }
                    }
                    return Some(out);
                }
                "next_value" => {
                    let t = ity(e);
                    let mut out = vec![self.fail(e, st, dty)];
                    let own = e.p.types.get(t as usize).map(|t| t.path.contains("__DeserializeWith")).unwrap_or(false);
                    if own {
                        for (s, o) in self.ident(e, s, t)? {
                            out.push((s, o));
                        }
                        return Some(out);
                    }
                    let v = e.fixed_val(st.mon[CUR], t);
                    out.push((s, Out::Ret(ok(dty, v))));
                    return Some(out);
                }
                "deserialize" if matches!(&*g(e.deref(st, a[0])), Val::Ext(k, _) if nm_s(*k) == "DE") && c.key.as_ref().and_then(|k| e.p.by_key.get(k)).is_none() => {
                    let t = ity(e);
                    let v = e.fixed_val(st.mon[CUR], t);
                    let f = self.fail(e, st, dty);
                    return Some(vec![f, (s, Out::Ret(ok(dty, v)))]);
                }
                "missing_field" => {
                    let t = ity(e);
                    if e.p.types.get(t as usize).map(|t| t.path.ends_with("option::Option")).unwrap_or(false) {
                        return Some(ret(s, ok(dty, none(t))));
                    }
                    let t = e.p.types.get(dty as usize).and_then(|t| t.args.get(1).copied()).unwrap_or(NOTY);
                    let v = e.fresh(&mut s, "E", t);
                    return Some(ret(s, err(dty, v)));
                }
                "custom" | "unknown_field" | "unknown_variant" | "duplicate_field" | "invalid_value" | "invalid_length" | "invalid_type" => {
                    let v = e.fresh(&mut s, "E", dty);
                    return Some(ret(s, v));
                }
                // --- writing
                "serialize_struct" | "serialize_map" => {
                    s.mon[OUT] = tup(vec![]);
                    let f = self.fail(e, st, dty);
                    return Some(vec![f, (s, Out::Ret(ok(dty, ext("DE", vec![]))))]);
                }
                "serialize_field" | "serialize_entry" => {
                    let mut o = strs(s.mon[OUT]);
                    let k = e.deref(st, a[1]);
                    let v = e.freeze(st, a[2]);
                    let v = e.deref(st, v);
                    o.push(tup(vec![k, v]));
                    s.mon[OUT] = tup(o);
                    let f = self.fail(e, st, dty);
                    return Some(vec![f, (s, Out::Ret(ok(dty, unit())))]);
                }
                "skip_field" => return Some(ret(s, ok(dty, unit()))),
                "end" => {
                    let f = self.fail(e, st, dty);
                    let t = ity(e);
                    let v = fixed("written", t);
                    return Some(vec![f, (s, Out::Ret(ok(dty, v)))]);
                }
                _ => {}
            }
        }
        // --- the file
        if m == "read_to_string" && a.len() == 1 || m == "read" && c.rpath.ends_with("fs::read") {
            let p = e.freeze(st, a[0]);
            let mut is_path = p;
            // references and conversions of the path are the path
            while let Val::App { op: Op::Call(n), args, .. } = &*g(is_path) {
                let k = n.rsplit("::").next().unwrap_or("");
                if args.len() == 1 && ["as_ref", "to_owned", "to_path_buf", "into", "from", "new", "borrow", "deref", "as_path", "clone"].contains(&k) {
                    is_path = args[0];
                } else {
                    break;
                }
            }
            if !is_class(is_path, "path") {
                if any_sub(p, &mut |x| is_class(x, "path")) {
                    e.undecided(st, "X12", format!("the file that is read is {}", show(&e.p, p)));
                } else {
                    e.violation(st, "X12", "another file is read than the given one");
                }
            }
            e.bump("files read");
            let t = ity(e);
            let v = fixed("file", t);
            let f = self.fail(e, st, dty);
            return Some(vec![f, (s, Out::Ret(ok(dty, v)))]);
        }
        if matches!(m, "from_utf8" | "from_utf8_mut") && a.len() == 1 {
            let v = e.deref(st, a[0]);
            let f = self.fail(e, st, dty);
            return Some(vec![f, (s, Out::Ret(ok(dty, v)))]);
        }
        if c.path.starts_with("toml::") && (m == "from_str" || m == "from_slice") || c.name.tr == "FromStr" && m == "from_str" && c.rpath.contains("toml") {
            let mut v = e.freeze(st, a[0]);
            // whitespace around the document means nothing
            while let Val::App { op: Op::Call(n), args, .. } = &*g(v) {
                if args.len() == 1 && ["trim", "trim_start", "trim_end", "as_str", "to_owned", "to_string"].iter().any(|k| n.ends_with(&format!("::{k}"))) {
                    v = args[0];
                } else {
                    break;
                }
            }
            if !is_class(v, "file") {
                if let Some(w) = changed(v) {
                    e.violation(st, "X12", format!("the text of the file is changed before it is parsed: {w}"));
                } else {
                    e.undecided(st, "X12", format!("the text that is parsed is {}", show(&e.p, v)));
                }
            }
            e.bump("texts parsed");
            let t = ity(e);
            let v = fixed("config", t);
            let f = self.fail(e, st, dty);
            return Some(vec![f, (s, Out::Ret(ok(dty, v)))]);
        }
        text::strings(e, st, c, a, dty, sp)
    }
}
impl Eng {
    /// The value that the document has at a key.
    fn fixed_val(&self, key: V, t: Ty) -> V {
        let Val::Bytes(b) = &*g(key) else { return top() };
        fixed(&format!("val:{}", String::from_utf8_lossy(b)), t)
    }
}
/// Is the value a text that was changed by a known function?
fn changed(v: V) -> Option<String> {
    let mut w = None;
    any_sub(v, &mut |x| {
        if let Val::App { op: Op::Call(n), .. } = &*g(x) {
            let k = n.rsplit("::").next().unwrap_or("");
            if ["to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "replace", "replacen", "trim_matches", "trim_start_matches", "trim_end_matches", "from_utf8_lossy", "repeat", "min", "max", "clamp", "wrapping_add", "saturating_add", "trunc"].contains(&k)
            {
                w = Some(k.to_string());
            }
        }
        w.is_some()
    });
    w
}

struct VSpec {
    variant: &'static str,
    /// key, required?, default port
    keys: &'static [(&'static str, bool, i128)],
}
struct TSpec {
    ty: &'static str,
    what: &'static str,
    tag: Option<&'static str>,
    variants: &'static [VSpec],
}
const SPEC: &[TSpec] = &[
    TSpec { ty: "config::Config", what: "configuration", tag: None, variants: &[VSpec { variant: "Config", keys: &[("services", true, 0)] }] },
    TSpec { ty: "config::Service", what: "service", tag: None, variants: &[VSpec { variant: "Service", keys: &[("name", true, 0), ("bind", true, 0), ("connect", true, 0)] }] },
    TSpec {
        ty: "config::Bind",
        what: "bind table",
        tag: Some("encryption"),
        variants: &[
            VSpec { variant: "Insecure", keys: &[("host", true, 0), ("port", false, 143)] },
            VSpec { variant: "Tls", keys: &[("host", true, 0), ("port", false, 993), ("identity", true, 0)] },
        ],
    },
    TSpec {
        ty: "config::Connect",
        what: "connect table",
        tag: Some("encryption"),
        variants: &[
            VSpec { variant: "Insecure", keys: &[("host", true, 0), ("port", false, 143)] },
            VSpec { variant: "Tls", keys: &[("host", true, 0), ("port", false, 993)] },
        ],
    },
    TSpec {
        ty: "config::Identity",
        what: "identity table",
        tag: Some("type"),
        variants: &[VSpec { variant: "CertificateChainAndLeafKey", keys: &[("certificate_chain_path", true, 0), ("leaf_key_path", true, 0)] }],
    },
];

pub fn run(p: Rc<Prog>, cfg: &Cfg) -> Result<RunOut, String> {
    let mut e = Eng::new(p.clone(), Rc::new(CEnv));
    cfg.apply(&mut e);
    let mut floors = vec![];
    let mut samples = vec![];
    let (mut docs, mut paths, mut tainted) = (0u64, 0u64, 0u64);
    for sp in SPEC {
        let Some(t) = ty_by_path(&p, sp.ty) else {
            e.undecided(&State::new(NMON), "X07", format!("no {}", sp.ty));
            continue;
        };
        let f = p.funcs.iter().position(|f| f.local && f.selfid == t && name_of(&f.path).m == "deserialize");
        let Some(f) = f else {
            e.undecided(&State::new(NMON), "X07", format!("{} is not deserialized by a function of its own", sp.ty));
            continue;
        };
        // --- every document: each variant (or an unknown one, or none) with each subset of the keys
        let mut tags: Vec<(Option<V>, Option<&VSpec>, String)> = vec![];
        match sp.tag {
            None => tags.push((None, Some(&sp.variants[0]), String::new())),
            Some(tk) => {
                for v in sp.variants {
                    tags.push((Some(text::lit(v.variant)), Some(v), format!("{tk} = \"{}\"", v.variant)));
                }
                tags.push((Some(text::lit("\u{1}unknown")), None, format!("unknown {tk}")));
                tags.push((None, None, format!("no {tk}")));
            }
        }
        let all: BTreeSet<&str> = sp.variants.iter().flat_map(|v| v.keys.iter().map(|k| k.0)).collect();
        for (tag, vs, tname) in tags {
            let keys: Vec<&str> = match vs {
                Some(v) => v.keys.iter().map(|k| k.0).collect(),
                None => all.iter().copied().collect(),
            };
            for set in 0..(1u32 << keys.len()) {
                let have: Vec<&str> = keys.iter().enumerate().filter(|x| set >> x.0 & 1 == 1).map(|x| *x.1).collect();
                docs += 1;
                let mut s = State::new(NMON);
                s.mon[REST] = tup(have.iter().map(|k| text::lit(k)).collect());
                s.mon[TAG] = tag.unwrap_or(int(0));
                s.mon[TAGKEY] = text::lit(sp.tag.unwrap_or(""));
                let doc = format!("a {} with {}{}", sp.what, if tname.is_empty() { String::new() } else { format!("{tname}, ") }, if have.is_empty() { "no keys".to_string() } else { have.join(", ") });
                let missing: Vec<&str> = match vs {
                    Some(v) => v.keys.iter().filter(|k| k.1 && !have.contains(&k.0)).map(|k| k.0).collect(),
                    None => vec!["tag"],
                };
                let mut oks = 0;
                for (s, o) in e.exec(s, f as u32, vec![ext("DE", vec![])]) {
                    paths += 1;
                    if s.taint {
                        tainted += 1;
                    }
                    let Out::Ret(r) = o else {
                        e.violation(&s, "X07", format!("loading {doc} may panic"));
                        continue;
                    };
                    for (s, i) in e.variants(&s, r, NOTY) {
                        if i == 1 {
                            if missing.is_empty() && s.m(FAIL) == 0 {
                                e.violation(&s, "X07", format!("{doc} is rejected"));
                            }
                            continue;
                        }
                        oks += 1;
                        if s.m(FAIL) != 0 {
                            e.violation(&s, "X07", format!("{doc} is accepted although one of its values is invalid"));
                            continue;
                        }
                        if !missing.is_empty() {
                            e.violation(&s, "X07", format!("{doc} is accepted"));
                            continue;
                        }
                        let x = e.field(&s, r, 0, 0);
                        let v = e.freeze(&s, x);
                        let vs = vs.unwrap();
                        let Some((vn, fs)) = view(&p, v) else {
                            e.undecided(&s, "X07", format!("{doc} gives {}", show(&p, v)));
                            continue;
                        };
                        if vn != vs.variant {
                            e.violation(&s, "X07", format!("{doc} gives {vn}"));
                            continue;
                        }
                        for (k, _, dflt) in vs.keys {
                            let Some(x) = fs.get(*k) else {
                                e.undecided(&s, "X07", format!("{} has no field {k}", sp.ty));
                                continue;
                            };
                            let want = if have.contains(k) { fixed(&format!("val:{k}"), vty(*x)) } else { int(*dflt) };
                            if *x == want {
                                continue;
                            }
                            let (kx, kw) = (e.known(&s, *x), e.known(&s, want));
                            match (kx, kw) {
                                (Some(a), Some(b)) if a == b => {}
                                (Some(a), Some(b)) => e.violation(&s, "X07", format!("{doc}: {k} is {a} instead of {b}")),
                                (Some(a), None) => e.violation(&s, "X07", format!("{doc}: {k} is {a} instead of what the file says")),
                                _ => {
                                    let other = match &*g(*x) {
                                        Val::Sym { class, .. } => nm_s(*class).strip_prefix("val:").map(|x| x.to_string()),
                                        _ => None,
                                    };
                                    if let Some(o) = other {
                                        e.violation(&s, "X07", format!("{doc}: {k} is what the file says about {o}"));
                                    } else if let Some(w) = changed(*x) {
                                        e.violation(&s, "X07", format!("{doc}: {k} is changed by {w}"));
                                    } else if matches!(&*g(*x), Val::Lin(..)) || matches!(&*g(*x), Val::Bytes(_)) || matches!(&*g(*x), Val::List(l) if l.is_empty()) {
                                        e.violation(&s, "X07", format!("{doc}: {k} is {}", show(&p, *x)));
                                    } else {
                                        e.undecided(&s, "X07", format!("{doc}: {k} is {}", show(&p, *x)));
                                    }
                                }
                            }
                        }
                    }
                }
                if oks == 0 && missing.is_empty() {
                    e.violation(&State::new(NMON), "X07", format!("{doc} is never accepted"));
                }
                if samples.len() < 12 {
                    samples.push(format!("{doc}: {}", if missing.is_empty() { "accepted with exactly these values".into() } else { format!("rejected ({} missing)", missing.join(", ")) }));
                }
            }
        }
        // --- writing gives what reading needs
        let f = p.funcs.iter().position(|f| f.local && f.selfid == t && name_of(&f.path).m == "serialize");
        if let Some(f) = f {
            let mut s = State::new(NMON);
            let x = s.push(fixed("self", t));
            let me = fixed("self", t);
            for (s, o) in e.exec(s, f as u32, vec![mk(Val::Ref(x, Box::new([]))), ext("DE", vec![])]) {
                paths += 1;
                let Out::Ret(r) = o else {
                    e.violation(&s, "X07", format!("writing a {} may panic", sp.what));
                    continue;
                };
                for (s, i) in e.variants(&s, r, NOTY) {
                    if i == 1 {
                        if s.m(FAIL) == 0 {
                            e.violation(&s, "X07", format!("a {} cannot be written", sp.what));
                        }
                        continue;
                    }
                    let mut got: BTreeMap<String, V> = BTreeMap::new();
                    for y in strs(s.mon[OUT]) {
                        if let Val::Tup(kv) = &*g(y) {
                            if let Val::Bytes(b) = &*g(kv[0]) {
                                got.insert(String::from_utf8_lossy(b).to_string(), kv[1]);
                            }
                        }
                    }
                    let vs: Vec<&VSpec> = sp.variants.iter().filter(|v| sp.tag.is_none() || is_variant(&e, &s, me, v.variant) != Some(false)).collect();
                    let [vs] = vs.as_slice() else {
                        e.undecided(&s, "X07", format!("writing a {} does not look at its variant", sp.what));
                        continue;
                    };
                    let doc = format!("a {} ({}) is written", sp.what, vs.variant);
                    if let Some(tk) = sp.tag {
                        let w = got.remove(tk);
                        if w != Some(text::lit(vs.variant)) {
                            e.violation(&s, "X07", format!("{doc} with {tk} = {}", w.map(|x| show(&p, x)).unwrap_or("nothing".into())));
                        }
                    }
                    for (k, _, dflt) in vs.keys {
                        let Some(fv) = vfield(&e, &s, me, t, if sp.tag.is_some() { vs.variant } else { "" }, k) else { continue };
                        match got.remove(*k) {
                            Some(x) if x == fv || e.known(&s, x).is_some() && e.known(&s, x) == e.known(&s, fv) => {}
                            Some(x) if is_int(x).is_some() || matches!(&*g(x), Val::App { op: Op::Fld(..), .. } | Val::Bytes(_)) || changed(x).is_some() => e.violation(&s, "X07", format!("{doc} with {k} = {}", show(&p, x))),
                            Some(x) => e.undecided(&s, "X07", format!("{doc} with {k} = {}", show(&p, x))),
                            None if *dflt != 0 && e.known(&s, fv) == Some(*dflt) => {}
                            None => e.violation(&s, "X07", format!("{doc} without {k}")),
                        }
                    }
                }
            }
        }
        // --- addresses
        if sp.tag != Some("encryption") {
            continue;
        }
        let ty = sp.ty.rsplit("::").next().unwrap();
        for (key, disp) in [(format!("{}::addr_port", sp.ty), false), (format!("<{} as std::fmt::Display>::fmt", sp.ty), true)] {
            let Some(f) = p.by_key.get(&key).copied() else {
                e.undecided(&State::new(NMON), "X11", format!("no {key}"));
                continue;
            };
            let mut s = State::new(NMON);
            let me = fixed("self", t);
            let x = s.push(me);
            let o = s.push(list(vec![]));
            let r = |i: u32| mk(Val::Ref(i, Box::new([])));
            let args = if disp { vec![r(x), r(o)] } else { vec![r(x)] };
            for (s, out) in e.exec(s, f, args) {
                paths += 1;
                let Out::Ret(v) = out else {
                    e.violation(&s, "X11", format!("{key} may panic"));
                    continue;
                };
                let got = text::parts(&e, &s, if disp { r(o) } else { v });
                for vs in sp.variants {
                    if is_variant(&e, &s, me, vs.variant) == Some(false) {
                        continue;
                    }
                    let mut s = s.clone();
                    fix_variant(&e, &mut s, me, vs.variant);
                    let (Some(h), Some(pt)) = (vfield(&e, &s, me, t, vs.variant, "host"), vfield(&e, &s, me, t, vs.variant, "port")) else { continue };
                    let port = match e.known(&s, pt) {
                        Some(i) => text::lit(&i.to_string()),
                        None => call("display", vec![pt], NOTY),
                    };
                    let tls = vs.variant == "Tls";
                    let mut want = vec![];
                    if disp {
                        want.push(text::lit(if tls { "imaps://" } else { "imap://" }));
                    }
                    want.extend([h, text::lit(":"), port]);
                    if disp {
                        want.push(text::lit(if tls { " (TLS)" } else { " (insecure)" }));
                    }
                    let want = text::parts(&e, &s, text::text(want));
                    e.bump("texts of addresses");
                    // values that are the same whatever the variant is
                    let key = |e: &Eng, s: &State, v: V| -> V {
                        let v = e.freeze(s, v);
                        v
                    };
                    let g1: Vec<V> = got.iter().map(|x| key(&e, &s, *x)).collect();
                    if g1 == want {
                        continue;
                    }
                    let known = |x: &V| {
                        matches!(&*g(*x), Val::Bytes(_)) || {
                            let mut bad = false;
                            any_sub(*x, &mut |y| {
                                if let Val::App { op: Op::Call(n), .. } = &*g(y) {
                                    bad |= n != "display" && n != "debug" && n != "formatted" && changed(y).is_none();
                                } else if !matches!(&*g(y), Val::App { op: Op::Fld(..), .. } | Val::Sym { .. } | Val::Bytes(_) | Val::Int(_) | Val::Lin(..)) {
                                    bad = true;
                                } else if matches!(&*g(y), Val::Sym { .. }) && y != me {
                                    bad = true;
                                }
                                false
                            });
                            !bad
                        }
                    };
                    let what = if disp { format!("a {} {ty} is displayed as", vs.variant) } else { format!("the address of a {} {ty} is", vs.variant) };
                    let txt = g1.iter().map(|x| show(&p, *x)).collect::<Vec<_>>().join(" ");
                    if g1.iter().all(known) {
                        e.violation(&s, "X11", format!("{what} {txt}"));
                    } else {
                        e.undecided(&s, "X11", format!("{what} {txt}"));
                    }
                }
            }
        }
    }
    // --- loading a file
    let f = p
        .funcs
        .iter()
        .position(|f| f.path.ends_with("config::Config::load") || f.path.contains("config::Config::load::<"))
        .map(|_| p.funcs.iter().enumerate().filter(|(_, f)| f.key.starts_with("config::Config::load")).min_by_key(|(_, f)| f.generic).unwrap().0);
    match f {
        None => e.undecided(&State::new(NMON), "X12", "no Config::load"),
        Some(f) => {
            let mut s = State::new(NMON);
            let pt = p.funcs[f].body.locals[1];
            let v = fixed("path", deref_ty(&p, pt));
            let a = if p.types.get(pt as usize).map(|t| t.k == "ref").unwrap_or(false) { mk(Val::Ref(s.push(v), Box::new([]))) } else { v };
            for (s, o) in e.exec(s, f as u32, vec![a]) {
                paths += 1;
                let Out::Ret(r) = o else {
                    e.violation(&s, "X12", "loading a configuration file may panic");
                    continue;
                };
                for (s, i) in e.variants(&s, r, NOTY) {
                    let failed = s.m(FAIL) != 0;
                    if i == 1 && !failed {
                        e.violation(&s, "X12", "a valid configuration file is rejected");
                    }
                    if i == 0 {
                        let x = e.field(&s, r, 0, 0);
                        let v = e.freeze(&s, x);
                        if failed {
                            e.violation(&s, "X12", "a file that cannot be read or parsed is accepted");
                        } else if !is_class(v, "config") {
                            if let Some((_, fs)) = view(&p, v) {
                                if fs.values().all(|x| any_sub(*x, &mut |y| is_class(y, "config")) && matches!(&*g(*x), Val::App { op: Op::Fld(..), .. })) {
                                    continue;
                                }
                            }
                            e.undecided(&s, "X12", format!("what is loaded is {}", show(&p, v)));
                        }
                    }
                }
            }
        }
    }
    let viol = e.viol.clone();
    Ok(RunOut { viol, states: docs, transitions: paths, tainted, eng: e, floors: { if docs < 20 { floors.push(format!("only {docs} kinds of documents")) } floors }, samples })
}
