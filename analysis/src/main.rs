mod client;
mod common;
mod config;
mod eng;
mod handle;
mod options;
mod ir;
mod effect;
mod leak;
mod models;
mod recv;
mod num;
mod proxy;
mod server;
mod strm;
mod tags;
mod text;
mod val;
use serde_json::json;
use std::rc::Rc;

/// analysis FAMILY DUMP [--prop ID] [--known FILE] [--json OUT] [--trace] [--thorough]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut cfg = common::Cfg::default();
    let (mut out, mut trace, mut i) = (None, false, 3);
    while i < a.len() {
        match a[i].as_str() {
            "--prop" => {
                cfg.prop = Some(a[i + 1].clone());
                i += 1;
            }
            "--known" => {
                let s = std::fs::read_to_string(&a[i + 1]).unwrap_or_default();
                cfg.known = s.lines().map(|x| x.to_string()).collect();
                i += 1;
            }
            "--json" => {
                out = Some(a[i + 1].clone());
                i += 1;
            }
            "--trace" => trace = true,
            "--thorough" => cfg.thorough = true,
            x => panic!("unknown argument {x}"),
        }
        i += 1;
    }
    let t = std::time::Instant::now();
    let fail = |m: String| -> ! {
        println!("ERROR {m}");
        std::process::exit(2)
    };
    let p = Rc::new(ir::Prog::load(&a[2]).unwrap_or_else(|m| fail(m)));
    let r = match a[1].as_str() {
        "client" => client::run(p.clone(), &cfg),
        "config" => config::run(p.clone(), &cfg),
        "effect" => effect::run(p.clone(), &cfg),
        "leak" => leak::run(p.clone(), &cfg),
        "options" => options::run(p.clone(), &cfg),
        "handle" => handle::run(p.clone(), &cfg),
        "tags" => {
            let release = !a[2].ends_with(".dbg.json");
            tags::run(p.clone(), &cfg, release)
        }
        "recv-client" => recv::run(p.clone(), &cfg, false),
        "recv-server" => recv::run(p.clone(), &cfg, true),
        "stream" => strm::run(p.clone(), &cfg),
        "proxy" => proxy::run(p.clone(), &cfg),
        "server" => server::run(p.clone(), &cfg),
        x => Err(format!("unknown analysis {x}")),
    };
    let r = r.unwrap_or_else(|m| fail(m));
    let fns: Vec<String> = r.eng.visited_fns.iter().map(|f| p.funcs[*f as usize].path.clone()).collect();
    println!("states {} transitions {} steps {} fns {} {:?}", r.states, r.transitions, r.eng.steps, fns.len(), t.elapsed());
    println!("stats {:?}", r.eng.stats);
    println!("unknown {:#?}", r.eng.unknown);
    println!("tainted {} dropped {}", r.tainted, r.eng.dropped);
    println!("incomplete {:?} floors {:?}", r.eng.incomplete, r.floors);
    for v in &r.viol {
        println!("{} {}{}", v.prop, if v.taint { "(undecided) " } else { "" }, v.msg);
        if trace {
            for t in &v.trace {
                println!("      {t}");
            }
        }
    }
    if let Some(o) = out {
        let j = json!({
            "family": a[1],
            "states": r.states,
            "transitions": r.transitions,
            "steps": r.eng.steps,
            "functions": fns,
            "blocks": r.eng.visited_blocks.len(),
            "stats": r.eng.stats,
            "unknown": r.eng.unknown,
            "incomplete": r.eng.incomplete,
            "floors": r.floors,
            "tainted": r.tainted + r.eng.dropped,
            "samples": r.samples,
            "seconds": t.elapsed().as_secs_f64(),
            "violations": r.viol.iter().map(|v| json!({
                "property": v.prop, "message": v.msg, "key": eng::Eng::key(&v.msg), "undecided": v.taint, "trace": v.trace,
            })).collect::<Vec<_>>(),
        });
        if let Err(m) = std::fs::write(&o, serde_json::to_string(&j).unwrap()) {
            fail(m.to_string());
        }
    } else {
        for s in &r.samples {
            println!("{s}");
        }
    }
}
