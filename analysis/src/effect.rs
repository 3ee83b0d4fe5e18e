//! Effects (G02): the library does nothing to the outside world, and asks nothing of it, by itself.
//! Every call, and every function that is named as a value, in every function of the crate is classified.
use crate::common::*;
use crate::eng::*;
use crate::ir::*;
use std::collections::BTreeMap;
use std::rc::Rc;

struct EEnv;
impl Env for EEnv {}

/// What these do to the outside world, by the start of their path.
const DENIED: &[(&str, &str)] = &[
    ("std::fs::", "uses the file system"),
    ("std::net::TcpStream::connect", "opens a connection"),
    ("std::net::TcpListener::", "listens"),
    ("std::net::UdpSocket::", "uses the network"),
    ("std::net::ToSocketAddrs::", "resolves a name"),
    ("std::os::", "uses the operating system"),
    ("std::process::", "uses or ends a process"),
    ("std::env::", "uses the environment"),
    ("std::thread::sleep", "sleeps"),
    ("std::thread::spawn", "starts a thread"),
    ("std::thread::scope", "starts a thread"),
    ("std::thread::Builder::", "starts a thread"),
    ("std::thread::park", "waits"),
    ("std::thread::yield_now", "waits"),
    ("std::thread::JoinHandle", "waits"),
    ("std::time::Instant::now", "reads the clock"),
    ("std::time::Instant::elapsed", "reads the clock"),
    ("std::time::SystemTime::now", "reads the clock"),
    ("std::time::SystemTime::elapsed", "reads the clock"),
    ("std::io::stdin", "reads standard input"),
    ("std::io::stdout", "writes standard output"),
    ("std::io::stderr", "writes standard error"),
    ("std::io::_print", "writes standard output"),
    ("std::io::_eprint", "writes standard error"),
    ("std::io::stdio::", "uses standard streams"),
    ("std::sync::Condvar::wait", "waits"),
    ("std::sync::Barrier::wait", "waits"),
    ("std::sync::mpsc::Receiver", "waits"),
    ("std::random::", "uses randomness"),
    ("rand::", "uses randomness"),
    ("rand_core::", "uses randomness"),
    ("getrandom::", "uses randomness"),
    ("libc::", "uses the operating system"),
    ("tokio::fs::", "uses the file system"),
    ("tokio::process::", "uses a process"),
    ("tokio::signal::", "waits for a signal"),
    ("tokio::time::", "uses the clock"),
    ("tokio::spawn", "starts a task"),
    ("tokio::task::spawn", "starts a task"),
    ("tokio::runtime::", "uses a runtime"),
    ("tokio::io::stdin", "reads standard input"),
    ("tokio::io::stdout", "writes standard output"),
    ("tokio::io::stderr", "writes standard error"),
    ("tokio::net::TcpStream::connect", "opens a connection"),
    ("tokio::net::TcpListener::", "listens"),
    ("tokio::net::TcpSocket::", "opens a connection"),
    ("tokio::net::UdpSocket::", "uses the network"),
    ("tokio::net::lookup_host", "resolves a name"),
];
/// What cannot be told: it may wait, but for what?
const OPEN: &[&str] = &["std::sync::Mutex::", "std::sync::RwLock::", "tokio::sync::", "std::sync::mpsc::"];
const KNOWN: &[&str] = &["std", "core", "alloc", "bytes", "imap_types", "imap_codec", "bounded_static", "tracing", "tokio", "rustls", "tokio_rustls", "thiserror"];
const PURE: &[&str] = &["std::process::ExitCode", "std::process::Termination"];

fn plain(p: &str) -> String {
    // without type arguments, so that `Type::<T>::f` is `Type::f`
    let mut out = String::new();
    let mut depth = 0;
    let cs: Vec<char> = p.chars().collect();
    let mut i = 0;
    // `<T as Trait>::f` keeps what is inside of it
    if p.starts_with('<') {
        return p.trim_start_matches(['<', '&']).trim_start_matches("mut ").to_string();
    }
    while i < cs.len() {
        if cs[i] == ':' && depth == 0 && cs[i..].starts_with(&[':', ':', '<']) {
            depth += 1;
            i += 3;
            continue;
        }
        match cs[i] {
            '<' => depth += 1,
            '>' if depth > 0 => {
                depth -= 1;
                i += 1;
                continue;
            }
            _ => {}
        }
        if depth == 0 {
            out.push(cs[i]);
        }
        i += 1;
    }
    out.replace("core::", "std::").replace("alloc::", "std::")
}

fn statik(o: &Opd) -> Option<&str> {
    match o {
        Opd::Const(k) => k.statik.as_deref(),
        _ => None,
    }
}
fn local_of(o: &Opd) -> Option<u32> {
    match o {
        Opd::Copy(p) | Opd::Move(p) => Some(p.local),
        _ => None,
    }
}
/// Blocks that are reached from a block.
fn reached(b: &Body, from: usize) -> Vec<bool> {
    let mut seen = vec![false; b.bbs.len()];
    let mut work = vec![from];
    while let Some(x) = work.pop() {
        if !std::mem::replace(&mut seen[x], true) {
            work.extend(succs(&b.bbs[x].t));
        }
    }
    seen
}
/// What instances do because of what others did: (definitely, message).
/// A number in a static variable may be handed on (it makes handles unique), but must not decide what is done.
fn shared(p: &Prog, b: &Body, reads: &mut u64) -> Vec<(bool, String, u32)> {
    let mut out = vec![];
    let n = b.locals.len();
    let mut refs: Vec<Option<String>> = vec![None; n];
    let mut told = vec![false; n];
    let mut caught = vec![false; n]; // closures with variables of the call
    let mut what = String::new();
    for _ in 0..6 {
        for bb in &b.bbs {
            for st in &bb.s {
                let St::Assign(d, rv, _) = st else { continue };
                let d = d.local as usize;
                match rv {
                    Rv::Use(o) | Rv::Cast(_, o, _) | Rv::Un(_, o) | Rv::Repeat(o, _) => {
                        if let Some(x) = statik(o) {
                            refs[d] = Some(x.to_string());
                        }
                        if let Some(l) = local_of(o) {
                            refs[d] = refs[d].take().or(refs[l as usize].clone());
                            told[d] |= told[l as usize];
                            caught[d] |= caught[l as usize];
                        }
                    }
                    Rv::Ref(_, q) => {
                        refs[d] = refs[d].take().or(refs[q.local as usize].clone());
                        told[d] |= told[q.local as usize];
                    }
                    Rv::Disc(q, _) => told[d] |= told[q.local as usize],
                    Rv::Bin(_, x, y) => told[d] |= [x, y].iter().filter_map(|o| local_of(o)).any(|l| told[l as usize]),
                    Rv::Agg(Agg::Clo(_), os) => {
                        caught[d] |= !os.is_empty();
                    }
                    Rv::Agg(Agg::Tuple, os) => told[d] |= os.iter().filter_map(local_of).any(|l| told[l as usize]),
                    _ => {}
                }
            }
            let Tm::Call { f: FnRef::Static(c), args, dest, span, .. } = &bb.t else { continue };
            let c = &p.callees[*c as usize];
            let names = format!("{} {}", c.path, c.rpath);
            let m = c.name.m.as_str();
            let d = dest.local as usize;
            let of = args.first().and_then(|o| statik(o).map(|x| x.to_string()).or(local_of(o).and_then(|l| refs[l as usize].clone())));
            if let Some(of) = of {
                if names.contains("sync::atomic::Atomic") || names.contains("::Atomic") {
                    if m == "load" || m == "swap" || m.starts_with("fetch_") || m.starts_with("compare_") {
                        if !told[d] {
                            *reads += 1;
                        }
                        told[d] = true;
                        what = of;
                    }
                } else if names.contains("OnceLock") || names.contains("OnceCell") {
                    let v = args.get(1).and_then(local_of);
                    let own = match m {
                        "get_or_init" => v.map(|l| caught[l as usize]).unwrap_or(false),
                        "set" => v.is_some(),
                        _ => false,
                    };
                    if own && !out.iter().any(|x: &(bool, String, u32)| x.2 == *span) {
                        out.push((true, format!("what one instance puts into {of} is seen by all others"), *span));
                    }
                } else if matches!(m, "lock" | "try_lock" | "read" | "write" | "try_read" | "try_write") {
                    if !told[d] {
                        *reads += 1;
                    }
                    told[d] = true;
                    what = of;
                } else if m == "deref" || m == "as_ref" || m == "borrow" {
                    refs[d] = Some(of);
                }
            } else if names.contains("LocalKey") {
                // what differs between threads
                if !told[d] {
                    *reads += 1;
                }
                told[d] = true;
                what = "a variable of the thread".into();
                if args.iter().filter_map(local_of).any(|l| caught[l as usize]) && !out.iter().any(|x: &(bool, String, u32)| x.2 == *span) {
                    out.push((false, "a variable of the thread is used together with others".into(), *span));
                }
            } else if m != "drop" && !c.krate.contains("tracing") && args.iter().filter_map(local_of).any(|l| told[l as usize]) && (c.krate == "core" || c.krate == "std" || c.krate == "alloc") {
                told[d] = true;
            }
        }
    }
    for bb in &b.bbs {
        let Tm::Switch(o, ts, other, _, span) = &bb.t else { continue };
        if !local_of(o).map(|l| told[l as usize]).unwrap_or(false) {
            continue;
        }
        let to: Vec<usize> = ts.iter().map(|t| t.1).chain([*other]).filter(|t| !matches!(b.bbs[*t].t, Tm::Unreachable)).collect();
        let sets: Vec<Vec<bool>> = to.iter().map(|t| reached(b, *t)).collect();
        // what ends in a panic does not count
        let ends = |i: usize| sets[i].iter().enumerate().any(|(k, x)| *x && matches!(b.bbs[k].t, Tm::Ret | Tm::Yield(..)));
        let live: Vec<usize> = (0..to.len()).filter(|i| ends(*i)).collect();
        if live.len() < 2 {
            continue;
        }
        let mut effect = false;
        let mut local = false;
        for k in 0..b.bbs.len() {
            let c = live.iter().filter(|i| sets[**i][k]).count();
            if c == 0 || c == live.len() {
                continue;
            }
            let blk = &b.bbs[k];
            for st in &blk.s {
                match st {
                    St::Assign(q, ..) if q.proj.iter().any(|x| matches!(x, PE::Deref)) => effect = true,
                    St::Assign(..) | St::SetDisc(..) => local = true,
                    _ => {}
                }
            }
            if let Tm::Call { f, args, .. } = &blk.t {
                let log = match f {
                    FnRef::Static(c) => {
                        let c = &p.callees[*c as usize];
                        // a further look at the number is not yet an effect
                        let look = args.iter().any(|o| statik(o).is_some() || local_of(o).map(|l| told[l as usize] || refs[l as usize].is_some()).unwrap_or(false));
                        c.krate == "tracing" || c.path.contains("fmt::") || look && matches!(c.krate.as_str(), "core" | "std" | "alloc")
                    }
                    _ => false,
                };
                effect |= !log;
            }
        }
        if effect || local {
            out.push((effect, format!("what is done depends on {what}, which other instances change"), *span));
        }
    }
    out
}

pub fn run(p: Rc<Prog>, cfg: &Cfg) -> Result<RunOut, String> {
    let mut e = Eng::new(p.clone(), Rc::new(EEnv));
    cfg.apply(&mut e);
    let s = State::new(1);
    let mut kinds: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut unknown: BTreeMap<String, u64> = BTreeMap::new();
    let (mut fns, mut calls, mut reads) = (0u64, 0u64, 0u64);
    for i in 0..p.funcs.len() as u32 {
        let g = &p.funcs[i as usize];
        if !g.local || g.path.starts_with("tests::") || g.path.contains("::tests::") {
            continue;
        }
        fns += 1;
        e.visited_fns.insert(i);
        for (sure, msg, sp) in shared(&p, &g.body, &mut reads) {
            let at = p.spans.get(sp as usize).cloned().unwrap_or_default();
            let msg = format!("{}: {msg} at {at}", g.path);
            if sure {
                e.violation(&s, "G02", msg);
            } else {
                e.undecided(&s, "G02", msg);
            }
        }
        let bodies = std::iter::once(&g.body).chain(g.proms.iter().flatten());
        for b in bodies {
            let mut used: Vec<(u32, u32)> = vec![];
            let mut opd = |o: &Opd, sp: u32, used: &mut Vec<(u32, u32)>| {
                if let Opd::Const(k) = o {
                    if let Some(c) = k.func {
                        used.push((c, sp));
                    }
                }
            };
            for (n, bb) in b.bbs.iter().enumerate() {
                e.visited_blocks.insert((i, n as u32));
                for st in &bb.s {
                    if let St::Assign(_, rv, sp) = st {
                        match rv {
                            Rv::Use(o) | Rv::Repeat(o, _) | Rv::Cast(_, o, _) | Rv::Un(_, o) => opd(o, *sp, &mut used),
                            Rv::Bin(_, x, y) => {
                                opd(x, *sp, &mut used);
                                opd(y, *sp, &mut used);
                            }
                            Rv::Agg(_, os) => os.iter().for_each(|o| opd(o, *sp, &mut used)),
                            _ => {}
                        }
                    }
                }
                if let Tm::Call { f, args, span, .. } = &bb.t {
                    if let FnRef::Static(c) = f {
                        used.push((*c, *span));
                    }
                    args.iter().for_each(|o| opd(o, *span, &mut used));
                }
            }
            for (c, sp) in used {
                calls += 1;
                let mut work = vec![c];
                while let Some(c) = work.pop() {
                    let c = &p.callees[c as usize];
                    work.extend(c.via);
                    if c.ctor {
                        continue;
                    }
                    let names = [plain(&c.path), plain(&c.rpath)];
                    let at = p.spans.get(sp as usize).cloned().unwrap_or_default();
                    if names.iter().any(|n| PURE.iter().any(|d| n.starts_with(d))) {
                        continue;
                    }
                    if let Some((d, what)) = DENIED.iter().find(|(d, _)| names.iter().any(|n| n.starts_with(d))) {
                        e.violation(&s, "G02", format!("{} {what}: {} at {at}", g.path, d.trim_end_matches("::")));
                        continue;
                    }
                    if OPEN.iter().any(|d| names.iter().any(|n| n.starts_with(d))) {
                        *unknown.entry(format!("{} in {}", names[0], g.path)).or_default() += 1;
                        continue;
                    }
                    let k = c.krate.as_str();
                    if k == p.krate {
                        *kinds.entry("calls of its own functions").or_default() += 1;
                    } else if KNOWN.contains(&k) {
                        *kinds.entry(match k {
                            "std" | "core" | "alloc" | "bytes" => "calls of std and bytes without effect",
                            "tracing" => "calls of tracing",
                            "tokio" | "rustls" | "tokio_rustls" => "calls of tokio and rustls for the stream",
                            _ => "calls of imap-codec and imap-types",
                        }).or_default() += 1;
                    } else {
                        *unknown.entry(format!("{} in {}", names[0], g.path)).or_default() += 1;
                    }
                }
            }
        }
    }
    for (k, n) in kinds {
        e.stats.insert(k.into(), n);
    }
    e.stats.insert("functions named or called".into(), calls);
    e.stats.insert("reads of numbers in static variables".into(), reads);
    if let Some((k, _)) = unknown.iter().next() {
        e.incomplete = Some(format!("the effect of {k} is not known"));
    }
    let mut floors = vec![];
    if fns < 60 {
        floors.push(format!("functions {fns} < 60"));
    }
    if calls < 300 {
        floors.push(format!("calls {calls} < 300"));
    }
    let samples = vec![format!("{fns} functions, {calls} calls and functions named as values"), format!("not known: {:?}", unknown)];
    Ok(RunOut { viol: e.viol.clone(), states: fns, transitions: calls, tainted: 0, eng: e, floors, samples })
}
