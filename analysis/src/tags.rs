//! Tags: never given out twice (H03), and not guessable in release builds (H04).
use crate::common::*;
use crate::eng::*;
use crate::handle::{atomics, lossy};
use crate::ir::*;
use crate::models::*;
use crate::text;
use crate::val::*;
use std::collections::BTreeMap;
use std::rc::Rc;

struct TEnv;
impl TEnv {
    fn rng_kind(&self, e: &Eng, st: &State, v: V, t: Ty) -> &'static str {
        let x = e.deref(st, v);
        if let Val::Ext(k, a) = &*g(x) {
            if nm_s(*k) == "rng" {
                return if a[0] == text::lit("strong") { "strong" } else { "weak" };
            }
        }
        let t = peel(&e.p, t);
        let path = e.p.types.get(t as usize).map(|t| t.path.clone()).unwrap_or_default();
        let n = path.rsplit("::").next().unwrap_or("");
        match n {
            "ThreadRng" | "OsRng" => "strong",
            "SmallRng" | "StepRng" | "Xoshiro256PlusPlus" | "Xoshiro128PlusPlus" | "Pcg32" | "Pcg64" | "Pcg64Mcg" | "XorShiftRng" => "weak",
            _ => "unknown",
        }
    }
}
fn rng(k: &str) -> V {
    ext("rng", vec![text::lit(k)])
}
impl Env for TEnv {
    fn call(&self, e: &mut Eng, st: &State, c: &Callee, a: &[V], dty: Ty, sp: u32) -> Option<Res> {
        if let Some(r) = atomics(e, st, c, a, dty, sp) {
            return Some(r);
        }
        let m = c.name.m.as_str();
        let mut s = st.clone();
        let randc = c.path.contains("rand") || c.krate.contains("rand");
        if randc {
            match m {
                "thread_rng" | "rng" if a.is_empty() => return Some(ret(s, rng("strong"))),
                "from_entropy" | "from_os_rng" => {
                    let weak = e.p.types.get(dty as usize).map(|t| t.path.contains("SmallRng")).unwrap_or(false);
                    return Some(ret(s, rng(if weak { "weak" } else { "strong" })));
                }
                "seed_from_u64" | "from_seed" => return Some(ret(s, rng("weak"))),
                "sample_string" | "append_string" => {
                    let (r, n) = if m == "sample_string" { (a[1], a[2]) } else { (a[1], a[3]) };
                    let k = self.rng_kind(e, st, r, c.args.last().copied().unwrap_or(NOTY));
                    let alnum = c.args.first().and_then(|t| e.p.types.get(*t as usize)).map(|t| t.path.ends_with("Alphanumeric")).unwrap_or(false);
                    let fresh = e.fresh(&mut s, "sample", NOTY);
                    let n = e.deref(st, n);
                    let v = call("token", vec![fresh, text::lit(k), int(alnum as i128), n], dty);
                    e.bump("random strings");
                    if m == "sample_string" {
                        return Some(ret(s, v));
                    }
                    let cur = e.deref(st, a[2]);
                    let mut p = text::parts(e, st, cur);
                    p.push(v);
                    if !e.store_ref(&mut s, a[2], list(p.into_iter().map(|x| (ONE, x)).collect())) {
                        return None;
                    }
                    return Some(ret(s, unit()));
                }
                _ => {}
            }
        }
        // checked constructors accept what consists of numbers, alphanumeric tokens and tag characters
        if matches!(m, "try_from" | "try_into") && a.len() == 1 {
            let of = e.p.types.get(dty as usize).and_then(|t| t.args.first().copied()).unwrap_or(NOTY);
            if e.p.types.get(of as usize).map(|t| t.path.ends_with("core::Tag")).unwrap_or(false) {
                let v = e.freeze(st, a[0]);
                let ps = text::parts(e, st, v);
                let good = !ps.is_empty()
                    && ps.iter().all(|x| match part(*x) {
                        Part::Lit(b) => b.iter().all(|c| is_tag_char(*c)),
                        Part::Num(..) => true,
                        Part::Tok(t, _) => matches!(&*g(t), Val::App { args, .. } if is_int(args[2]) == Some(1)),
                        Part::Other(_) => false,
                    });
                if good {
                    return Some(ret(s, ok(dty, call("Tag::unvalidated", vec![v], of))));
                }
            }
        }
        if m == "truncate" && c.path.contains("String") {
            let cur = e.deref(st, a[0]);
            if let ([t], Some(n)) = (&text::parts(e, st, cur)[..], is_int(a[1])) {
                if let Val::App { op: Op::Call(k), args, ty } = &*g(*t) {
                    if k == "token" {
                        if let Some(l) = is_int(args[3]) {
                            let v = call("token", vec![args[0], args[1], args[2], int(l.min(n))], *ty);
                            return e.store_ref(&mut s, a[0], v).then(|| ret(s, unit()));
                        }
                    }
                }
            }
        }
        text::strings(e, st, c, a, dty, sp)
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Part {
    Lit(Vec<u8>),
    /// displayed number in a base
    Num(V, u32),
    /// random string of a known length?
    Tok(V, Option<i128>),
    Other(V),
}
fn is_tag_char(b: u8) -> bool {
    (0x21..0x7f).contains(&b) && !b"(){%*\"\\+".contains(&b)
}
fn part(x: V) -> Part {
    match &*g(x) {
        Val::Bytes(b) => Part::Lit(b.clone()),
        Val::App { op: Op::Call(n), args, .. } => match (n.as_str(), args.len()) {
            ("display" | "debug", 1) => Part::Num(args[0], 10),
            ("lower_hex" | "upper_hex", 1) => Part::Num(args[0], 16),
            ("octal", 1) => Part::Num(args[0], 8),
            ("binary", 1) => Part::Num(args[0], 2),
            ("token", 4) => Part::Tok(x, is_int(args[3])),
            ("formatted", 1) => match part(args[0]) {
                Part::Num(v, b) => Part::Num(v, b),
                _ => Part::Other(x),
            },
            _ => Part::Other(x),
        },
        _ => Part::Other(x),
    }
}

pub fn run(p: Rc<Prog>, cfg: &Cfg, release: bool) -> Result<RunOut, String> {
    let mut e = Eng::new(p.clone(), Rc::new(TEnv));
    cfg.apply(&mut e);
    let mut floors: Vec<String> = vec![];
    let mut samples = vec![];
    let t = ty_by_path(&p, "TagGenerator").ok_or("no TagGenerator")?;
    let find = |m: &str| p.funcs.iter().position(|f| f.local && f.selfid == t && name_of(&f.path).m == m);
    let (Some(new), Some(gen)) = (find("new"), find("generate")) else { return Err("no TagGenerator::new or generate".into()) };
    let mut ids: BTreeMap<usize, ()> = BTreeMap::new();
    let mut n = 0;
    let mut why: Vec<String> = vec![];
    let mut odd = false;
    for (s, o) in e.exec(State::new(1), new as u32, vec![]) {
        let Out::Ret(v) = o else {
            e.violation(&s, "H03", "creating a tag generator may panic");
            continue;
        };
        n += 1;
        let v = e.freeze(&s, v);
        let Val::Adt(_, _, f) = &*g(v) else {
            e.undecided(&s, "H03", format!("a tag generator is {}", show(&p, v)));
            odd = true;
            continue;
        };
        for (i, x) in f.iter().enumerate() {
            let mut class = String::new();
            any_sub(*x, &mut |y| {
                if let Val::Sym { class: c, .. } = &*g(y) {
                    if nm_s(*c).starts_with("atomic ") {
                        class = nm_s(*c);
                    }
                }
                !class.is_empty()
            });
            if class.is_empty() {
                continue;
            }
            let k = class.trim_start_matches("atomic ").to_string();
            let ft = field_ty(&p, t, 0, i as u32);
            let narrow = ["u32", "u16", "u8", "i32", "i16", "i8"].contains(&p.types.get(ft as usize).map(|t| t.s.as_str()).unwrap_or(""));
            if let Some(l) = lossy(*x) {
                why.push(format!("the number of a generator is cut by {l}"));
            } else if narrow {
                why.push("the number of a generator has fewer than 64 bits".into());
            } else if let Some(l) = k.strip_prefix("rmw ") {
                if l == "no static" {
                    why.push("the counter of generators is not shared by all of them".into());
                } else if e.stats.contains_key(&format!("overwritten {l}")) {
                    why.push("the counter of generators is overwritten outside of the atomic step that reads it".into());
                } else if matches!(&*g(*x), Val::Sym { .. }) || matches!(&*g(*x), Val::Lin(t, _) if t.len() == 1 && t[0].1.abs() == 1) {
                    ids.insert(i, ());
                } else {
                    odd = true;
                    e.undecided(&s, "H03", format!("the number of a generator is {}", show(&p, *x)));
                }
            } else if k.starts_with("read ") {
                why.push("the number of a generator is read without advancing the counter in the same atomic step".into());
            } else if k.starts_with("narrow ") {
                why.push("the counter of generators has fewer than 64 bits".into());
            } else if k.starts_with("cut ") {
                why.push("the counter of generators is set back while it advances".into());
            } else {
                odd = true;
                e.undecided(&s, "H03", format!("the counter of generators advances by an unknown amount: {k}"));
            }
        }
        if ids.is_empty() && !odd {
            if why.is_empty() {
                let consts = f.iter().all(|x| is_int(*x).is_some() || matches!(&*g(*x), Val::Adt(_, _, f) if f.is_empty()));
                if consts {
                    why.push("all generators have the same number".into());
                } else {
                    e.undecided(&s, "H03", format!("the number of a generator comes from {}", f.iter().map(|x| show(&p, *x)).collect::<Vec<_>>().join(", ")));
                    odd = true;
                }
            }
            for w in &why {
                e.violation(&s, "H03", w.clone());
            }
        }
    }
    // --- generating a tag
    let me = fixed("gen", t);
    let nf = arity(&p, t, 0).unwrap_or(0) as u32;
    let mut s = State::new(1);
    let x = s.push(me);
    let me_slot = x;
    let before: Vec<V> = (0..nf).map(|i| e.field(&s, me, 0, i)).collect();
    let (mut paths, mut uses_counter) = (0, Default::default());
    let _: &mut std::collections::BTreeSet<i128> = &mut uses_counter;
    for (s, o) in e.exec(s, gen as u32, vec![mk(Val::Ref(x, Box::new([])))]) {
        let Out::Ret(v) = o else {
            e.violation(&s, "H03", "generating a tag may panic");
            continue;
        };
        paths += 1;
        // the text inside of the tag
        let mut inner = e.freeze(&s, v);
        loop {
            let next = match &*g(inner) {
                Val::Adt(_, _, f) if f.len() == 1 => f[0],
                Val::App { op: Op::Call(n), args, .. } if args.len() == 1 && ["unvalidated", "from", "into", "try_from", "unwrap", "expect"].iter().any(|k| n.ends_with(&format!("::{k}"))) => args[0],
                _ => break,
            };
            inner = next;
        }
        let ps: Vec<Part> = text::parts(&e, &s, inner).into_iter().map(part).collect();
        if samples.is_empty() {
            samples.push(format!("a tag is {}", text::parts(&e, &s, inner).iter().map(|x| show(&p, *x)).collect::<Vec<_>>().join(" ")));
        }
        if let Some(Part::Other(x)) = ps.iter().find(|x| matches!(x, Part::Other(_))) {
            e.undecided(&s, "H03", format!("a tag contains {}", show(&p, *x)));
            let random = ps.iter().any(|x| matches!(x, Part::Tok(..)));
            // a text that was in the generator before and still is: the next tag has it, too
            let kept = (0..nf as usize).any(|i| {
                let now = match &*g(s.mem[me_slot as usize]) {
                    Val::Adt(_, _, f) => f[i],
                    _ => before[i],
                };
                now == before[i] && any_sub(*x, &mut |y| y == before[i])
            });
            if kept && release && !random {
                e.violation(&s, "H04", "the random part of a tag is used again for further tags");
            } else {
                e.undecided(&s, "H04", format!("a tag contains {}", show(&p, *x)));
            }
            continue;
        }
        // --- the state afterwards
        let after: Vec<V> = match &*g(s.mem[x as usize]) {
            Val::Adt(_, _, f) => f.to_vec(),
            _ => before.clone(),
        };
        let mut counters: BTreeMap<usize, i128> = BTreeMap::new();
        let mut und = false;
        for i in 0..nf as usize {
            if after[i] == before[i] {
                continue;
            }
            if ids.contains_key(&i) {
                e.violation(&s, "H03", "generating a tag changes the number of the generator");
                und = true;
                continue;
            }
            let ft = field_ty(&p, t, 0, i as u32);
            let narrow = ["u32", "u16", "u8", "i32", "i16", "i8"].contains(&p.types.get(ft as usize).map(|t| t.s.as_str()).unwrap_or(""));
            match e.known(&s, lin_add(after[i], before[i], -1)) {
                Some(k) if k > 0 && narrow => {
                    e.violation(&s, "H03", "the counter of tags has fewer than 64 bits");
                    und = true;
                }
                Some(k) if k > 0 => {
                    counters.insert(i, k);
                }
                _ if is_int(after[i]).is_some() => {
                    e.violation(&s, "H03", "the counter of tags is set back");
                    und = true;
                }
                _ if lossy(after[i]).is_some() => {
                    e.violation(&s, "H03", format!("the counter of tags is cut by {}", lossy(after[i]).unwrap()));
                    und = true;
                }
                _ => {}
            }
        }
        // --- which numbers the tag determines
        let shown: Vec<V> = ps.iter().filter_map(|x| if let Part::Num(v, _) = x { Some(*v) } else { None }).collect();
        for i in ids.keys() {
            if !shown.contains(&before[*i]) {
                match shown.iter().find(|x| any_sub(**x, &mut |y| y == before[*i])) {
                    Some(x) if lossy(*x).is_some() => e.violation(&s, "H03", format!("the number of the generator is cut by {} in tags", lossy(*x).unwrap())),
                    Some(x) if !matches!(&*g(*x), Val::Lin(t, _) if t.len() == 1 && t[0].1.abs() == 1) => e.undecided(&s, "H03", format!("a tag contains {}", show(&p, *x))),
                    Some(_) => {}
                    None => e.violation(&s, "H03", "the number of the generator is not part of its tags"),
                }
            }
        }
        if !und && !odd {
            if counters.is_empty() {
                e.violation(&s, "H03", "a tag is generated without advancing the counter of tags");
            } else {
                let off = counters.keys().find_map(|i| shown.iter().find_map(|x| is_int(lin_add(*x, before[*i], -1))));
                match off {
                    Some(k) => {
                        uses_counter.insert(k);
                        if uses_counter.len() > 1 {
                            e.violation(&s, "H03", "tags are numbered differently on different paths, so that numbers are used twice");
                        }
                    }
                    None => match shown.iter().find(|x| counters.keys().any(|i| any_sub(**x, &mut |y| y == before[*i]))) {
                        Some(x) if lossy(*x).is_some() => e.violation(&s, "H03", format!("the counter is cut by {} in tags", lossy(*x).unwrap())),
                        Some(x) => e.undecided(&s, "H03", format!("a tag contains {}", show(&p, *x))),
                        None => e.violation(&s, "H03", "the counter of tags is not part of the tags"),
                    },
                }
            }
        }
        // --- can the numbers be read from the tag?
        let alpha = |x: &Part, b: u8| match x {
            Part::Num(_, base) => b.is_ascii_digit() || *base == 16 && b.is_ascii_hexdigit(),
            Part::Tok(v, _) => {
                let Val::App { args, .. } = &*g(*v) else { return true };
                args[2] == int(0) || b.is_ascii_alphanumeric()
            }
            _ => false,
        };
        for (i, x) in ps.iter().enumerate() {
            let var = matches!(x, Part::Num(..)) || matches!(x, Part::Tok(_, None));
            if !var {
                continue;
            }
            let fixed_rest = ps[i + 1..].iter().all(|y| matches!(y, Part::Lit(_) | Part::Tok(_, Some(_))));
            let delim = match ps.get(i + 1) {
                Some(Part::Lit(b)) => !alpha(x, b[0]),
                None => true,
                _ => false,
            };
            if !fixed_rest && !delim {
                e.violation(&s, "H03", "the parts of a tag run into each other, so that different numbers give the same tag");
                break;
            }
        }
        for x in &ps {
            if let Part::Lit(b) = x {
                if let Some(c) = b.iter().find(|c| !is_tag_char(**c)) {
                    e.violation(&s, "H03", format!("a tag contains {:?}, which tags must not contain", *c as char));
                }
            }
        }
        if ps.is_empty() {
            e.violation(&s, "H03", "a tag is empty");
        }
        // --- randomness
        if release {
            let mut best = 0;
            let mut bad = None;
            for x in &ps {
                let Part::Tok(v, n) = x else { continue };
                let Val::App { args, .. } = &*g(*v) else { continue };
                let kind = if args[1] == text::lit("strong") { "strong" } else if args[1] == text::lit("weak") { "weak" } else { "unknown" };
                match (kind, args[2] == int(1), n) {
                    ("strong", true, Some(n)) => best = best.max(*n),
                    ("weak", ..) => bad = Some("the random part of a tag comes from a predictable generator".to_string()),
                    _ => {
                        bad = Some(String::new());
                    }
                }
            }
            e.bump("tags with a random part");
            let stored = shown.iter().any(|_| false) || before.iter().any(|b| ps.iter().any(|x| matches!(x, Part::Other(v) if any_sub(*v, &mut |y| y == *b))));
            if best >= 8 {
                continue;
            }
            match bad {
                Some(b) if !b.is_empty() => e.violation(&s, "H04", b),
                Some(_) => e.undecided(&s, "H04", "the random part of a tag"),
                None if stored => e.undecided(&s, "H04", "the random part of a tag is stored in the generator"),
                None if best > 0 => e.violation(&s, "H04", format!("a tag contains only {best} random characters")),
                None => e.violation(&s, "H04", "a tag contains nothing random"),
            }
        }
    }
    if n == 0 || paths == 0 {
        floors.push("no tag was generated".into());
    }
    let viol = e.viol.clone();
    Ok(RunOut { viol, states: n, transitions: paths, tainted: 0, eng: e, floors, samples })
}
