mod codec;
mod ctx;
mod jref;
mod props;
mod rng;
use ctx::*;
use std::io::Write;

#[global_allocator]
static A: Alloc = Alloc;

fn main() {
    let mut prop = String::new();
    let mut ctx = Ctx {
        seed: 1, thorough: false, evals: 0, distinct: Default::default(), fams: Default::default(), fails: vec![], samples: vec![],
        state: None, only: None, started: std::time::Instant::now(), budget: 60.0,
    };
    let mut out = None;
    let a: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--property" => prop = v,
            "--seed" => ctx.seed = v.parse().unwrap_or(1),
            "--tier" => ctx.thorough = v == "thorough",
            "--budget" => ctx.budget = v.parse().unwrap_or(60.0),
            "--out" => out = Some(v),
            "--state" => ctx.state = std::fs::File::create(v).ok(),
            "--only" => {
                let (f, n) = v.rsplit_once(':').unwrap();
                ctx.only = Some((f.to_string(), n.parse().unwrap()));
            }
            "--lits" => {
                let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(v).unwrap()).unwrap();
                let _ = rng::INTS.set(j["ints"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().parse().unwrap()).collect());
                let _ = rng::STRS.set(j["strs"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect());
            }
            x => panic!("{x}"),
        }
        i += 2;
    }
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let c = CURRENT.lock().unwrap();
        if let Some(t) = c.2 {
            if t.elapsed().as_secs() > 60 {
                println!("HANG {}:{}", c.0, c.1);
                std::io::stdout().flush().unwrap();
                std::process::exit(77);
            }
        }
    });
    let r = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::run(&prop, &mut ctx))).is_ok();
        (ctx, ok)
    });
    let (ctx, ok) = r.unwrap().join().unwrap();
    let j = serde_json::json!({
        "evaluations": ctx.evals,
        "distinct": ctx.distinct.len(),
        "families": ctx.fams,
        "harness_ok": ok,
        "samples": ctx.samples.iter().map(|(f, s)| format!("{f}: {s}")).collect::<Vec<_>>(),
        "failures": ctx.fails.iter().map(|f| serde_json::json!({"family": f.fam, "index": f.index, "input": f.input, "expected": f.expected, "actual": f.actual})).collect::<Vec<_>>(),
    });
    match out {
        Some(p) => std::fs::write(p, serde_json::to_string_pretty(&j).unwrap()).unwrap(),
        None => println!("{}", serde_json::to_string_pretty(&j).unwrap()),
    }
}
