#![allow(static_mut_refs, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
pub mod ctx;
pub mod gen;
mod host;
pub mod model;
pub mod node;
pub mod plan;
pub mod props;
pub mod rare;
pub mod rng;
pub mod rt;

use ctx::{Ctx, Fail, Prop};
use plan::Plan;
use rng::Rng;
use std::collections::BTreeMap;
use std::sync::atomic::Ordering::Relaxed;

#[global_allocator]
static A: rt::SimAlloc = rt::SimAlloc;

fn die(m: &str) -> ! {
    eprintln!("ksim: {}", m);
    std::process::exit(2);
}

fn map_os() {
    unsafe { rt::OS = rt::map_shared(std::mem::size_of::<rt::Os>()) as *const rt::Os }
}

fn plan_of(p: &Prop, seed: u64, i: u64, cx: &mut Ctx) -> Plan {
    let s = rt::mix(rt::mix(seed) ^ rng::hash(p.id.as_bytes()) ^ i.wrapping_mul(0x9E3779B97F4A7C15));
    let mut r = Rng::new(s);
    let mut pl = (p.gen)(&mut r, cx);
    pl.prop = p.id.to_string();
    pl.run = i;
    pl.salt = s;
    pl
}

fn exec(p: &Prop, pl: &Plan, cx: &mut Ctx) -> Result<(), Fail> {
    cx.reset();
    (p.exec)(pl, cx)
}

/// Known findings: "finding: property=<id> match=<substring of the violation>; ..." lines. "fixed:" lines suppress nothing.
fn known(id: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix("finding: property="))
        .filter_map(|l| l.split_once(" match="))
        .filter(|(p, _)| *p == id)
        .filter_map(|(_, r)| r.split_once(" :: "))
        .map(|(a, b)| (a.to_string(), b.to_string()))
        .collect()
}

fn root() -> std::path::PathBuf {
    std::env::var("KSIM_ROOT").map(std::path::PathBuf::from).unwrap_or_else(|_| std::path::PathBuf::from("/verif"))
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

fn prepare(cx: &mut Ctx) {
    gen::warm(cx);
}

fn main() {
    std::env::remove_var("RUST_BACKTRACE");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    if std::env::var_os("KSIM_NOASLR").is_none() {
        // a fixed memory layout, where the kernel lets us ask for it
        std::env::set_var("KSIM_NOASLR", "1");
        unsafe {
            if libc::personality(0x0040000) >= 0 {
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new("/proc/self/exe").args(std::env::args().skip(1)).exec();
                let _ = e;
            }
        }
    }
    std::panic::set_hook(Box::new(|i| {
        if unsafe { !rt::NODE } {
            eprintln!("ksim: {}", i);
        }
        unsafe {
            host::HOOKED += 1;
            host::ADAPTOR = i.location().is_some_and(|l| l.file().contains("sut/src/"));
        };
    }));
    unsafe {
        libc::signal(libc::SIGPIPE, libc::SIG_IGN);
        libc::prctl(libc::PR_SET_CHILD_SUBREAPER, 1);
        rt::SHARED = rt::map_shared(std::mem::size_of::<rt::Shared>()) as *const rt::Shared;
        rt::sh().min_fail.store(u64::MAX, Relaxed);
    }
    map_os();
    rt::find_statics();
    model::selftest();
    if rt::guards() < 500 {
        die("the library is not instrumented");
    }
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => run(prop(&a[2])),
        Some("replay") => replay(&a[2]),
        Some("trace") => {
            // trace hashes of runs a..b, for determinism checks
            let p = prop(&a[2]);
            let mut cx = Ctx::new();
            prepare(&mut cx);
            let (lo, hi, st) = (a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap(), a.get(5).map(|x| x.parse::<u64>().unwrap()).unwrap_or(1));
            let mut i = lo;
            while i < hi {
                let pl = plan_of(p, env_u64("VERIF_SEED", 1), i, &mut cx);
                let r = exec(p, &pl, &mut cx);
                println!("{} {:016x} {:016x} {}", i, rng::hash(pl.text().as_bytes()), cx.th, r.is_ok());
                i += st;
            }
        }
        Some("show") => {
            let p = prop(&a[2]);
            let mut cx = Ctx::new();
            prepare(&mut cx);
            let pl = plan_of(p, env_u64("VERIF_SEED", 1), a[3].parse().unwrap(), &mut cx);
            print!("{}", pl.text());
            cx.log = Some(vec![]);
            let r = exec(p, &pl, &mut cx);
            for l in cx.log.take().unwrap() {
                println!("# {}", l);
            }
            println!("# {:?}", r);
        }
        Some("touch") => {
            // operations that use memory outliving the call
            let mut cx = Ctx::new();
            prepare(&mut cx);
            for (n, t) in &cx.touch {
                println!("{} {} stores {} loads", n, t.0, t.1);
            }
            println!("hot: {:?}", cx.hot);
        }
        Some("grind") => rare::grind(),
        Some("bench") => props::bench(),
        _ => die("usage: ksim run <ID> | replay <FILE> | trace <ID> <from> <to> [step] | show <ID> <run>"),
    }
}

fn prop(id: &str) -> &'static Prop {
    props::all().iter().find(|p| p.id == id).unwrap_or_else(|| die("unknown property"))
}

fn replay(f: &str) -> ! {
    let t = std::fs::read_to_string(f).unwrap_or_else(|_| die("cannot read the replay file"));
    let pl = Plan::parse(&t).unwrap_or_else(|| die("not a replay file"));
    let p = prop(&pl.prop);
    let mut cx = Ctx::new();
    cx.log = Some(vec![]);
    let r = exec(p, &pl, &mut cx);
    if std::env::var_os("KSIM_QUIET").is_none() {
        for l in cx.log.take().unwrap() {
            println!("{}", l);
        }
    }
    match r {
        Ok(()) => {
            println!("no violation");
            std::process::exit(0)
        }
        Err(e) => {
            println!("{}: {}", e.class, e.detail);
            println!("VIOLATION property={} replay={}", p.id, f);
            std::process::exit(1)
        }
    }
}

fn run(p: &'static Prop) -> ! {
    let seed = env_u64("VERIF_SEED", 1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    println!("ksim: property {} tier {} VERIF_SEED {}", p.id, tier, seed);
    let t0 = rt::wall();
    let nruns = env_u64("KSIM_RUNS", if tier == "thorough" { p.thorough } else { p.quick });
    let cap = env_u64("KSIM_SECONDS", if tier == "thorough" { 700 } else { 240 }) as f64;
    let workers = env_u64("KSIM_WORKERS", 8) as usize;
    let known = known(p.id);
    for (_, b) in &known {
        println!("KNOWN-FINDING: property={} {}", p.id, b);
    }
    let out = root().join("out");
    let _ = std::fs::create_dir_all(&out);
    let mut cx = Ctx::new();
    prepare(&mut cx);
    let mut pids = vec![];
    for _w in 0..workers {
        let c = unsafe { libc::fork() };
        if c < 0 {
            die("fork");
        }
        if c == 0 {
            unsafe {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::prctl(libc::PR_SET_CHILD_SUBREAPER, 1);
            }
            map_os();
            worker(p, seed, nruns, t0 + cap, &mut cx, &known, &out);
            rt::exit_now(0);
        }
        pids.push(c);
    }
    let mut bad = false;
    for c in pids {
        let mut st = 0;
        unsafe { libc::waitpid(c, &mut st, 0) };
        if !libc::WIFEXITED(st) || libc::WEXITSTATUS(st) != 0 {
            bad = true;
        }
    }
    let sh = rt::sh();
    let wall = rt::wall() - t0;
    let first = sh.min_fail.load(Relaxed);
    if bad && first == u64::MAX {
        die("a worker failed");
    }
    let mut code = 0;
    if first != u64::MAX {
        let src = out.join(format!("{}-{}-{}.full.plan", p.id, seed, first));
        let pl = Plan::parse(&std::fs::read_to_string(&src).unwrap_or_default()).unwrap_or_else(|| die("lost the failing plan"));
        let min = minimise(p, &pl, &mut cx);
        let dst = out.join(format!("{}-{}-{}.plan", p.id, seed, first));
        let mut used = dst.clone();
        std::fs::write(&dst, min.text()).unwrap_or_else(|_| die("cannot write the replay file"));
        if !confirm(&dst) {
            println!("ksim: the minimised plan does not reproduce; reporting the original");
            used = src.clone();
            if !confirm(&src) {
                println!("ksim: the original plan does not reproduce in a fresh process either");
            }
        }
        let r = Plan::parse(&std::fs::read_to_string(&used).unwrap()).map(|pl| exec(p, &pl, &mut cx));
        if let Some(Err(e)) = &r {
            println!("{}: {}", e.class, e.detail);
        }
        println!("run {} of seed {}, minimised from {} to {} bytes of plan", first, seed, pl.size(), min.size());
        println!("VIOLATION property={} replay={}", p.id, used.display());
        code = 1;
    }
    evidence(p, tier, seed, nruns, wall, code, &mut cx);
    println!(
        "ksim: {} runs, {} calls, {} judgements, {} distinct runs, {:.1} s, flaky {}",
        sh.runs.load(Relaxed),
        sh.calls.load(Relaxed),
        sh.judged.load(Relaxed),
        sh.set_n[0].load(Relaxed),
        wall,
        sh.flaky.load(Relaxed)
    );
    std::process::exit(code)
}

fn confirm(f: &std::path::Path) -> bool {
    let o = std::process::Command::new("/proc/self/exe").arg("replay").arg(f).env("KSIM_QUIET", "1").output();
    matches!(o, Ok(o) if o.status.code() == Some(1))
}

fn minimise(p: &Prop, pl: &Plan, cx: &mut Ctx) -> Plan {
    let class = match exec(p, pl, cx) {
        Err(e) => e.class,
        Ok(()) => return pl.clone(),
    };
    let mut start = pl.clone();
    // turn a random schedule into an explicit one
    if !cx.decs.is_empty() {
        let mut c = start.clone();
        c.decs = cx.decs.clone();
        c.set("mode", 2);
        if matches!(exec(p, &c, cx), Err(e) if e.class == class) {
            start = c;
        }
    }
    let deadline = rt::wall() + 60.0;
    let mut left = 600u32;
    let free = p.free;
    let best = plan::shrink(&start, &mut left, free, &mut |c| {
        if rt::wall() > deadline {
            return false;
        }
        matches!(exec(p, c, cx), Err(e) if e.class == class)
    });
    best
}

fn worker(p: &Prop, seed: u64, n: u64, deadline: f64, cx: &mut Ctx, known: &[(String, String)], out: &std::path::Path) {
    let sh = rt::sh();
    loop {
        let i = sh.next_run.fetch_add(1, Relaxed);
        if i >= n || i > sh.min_fail.load(Relaxed) || rt::wall() > deadline {
            return;
        }
        let pl = plan_of(p, seed, i, cx);
        let r = exec(p, &pl, cx);
        sh.runs.fetch_add(1, Relaxed);
        sh.judged.fetch_add(cx.judged, Relaxed);
        let new = sh.insert(0, cx.th);
        if new && cx.nontrivial {
            sh.nontrivial.fetch_add(1, Relaxed);
        }
        if let Err(e) = r {
            if known.iter().any(|(k, _)| format!("{}: {}", e.class, e.detail).contains(k)) {
                continue;
            }
            // believed only if it happens again
            let mut again = 0;
            for _ in 0..2 {
                if matches!(exec(p, &pl, cx), Err(f) if f.class == e.class) {
                    again += 1;
                }
            }
            if again == 0 {
                sh.flaky.fetch_add(1, Relaxed);
                eprintln!("ksim: run {} failed once and not again: {}: {}", i, e.class, e.detail);
                continue;
            }
            let f = out.join(format!("{}-{}-{}.full.plan", p.id, seed, i));
            let _ = std::fs::write(&f, pl.text());
            sh.min_fail.fetch_min(i, Relaxed);
            return;
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn evidence(p: &Prop, tier: &str, seed: u64, nruns: u64, wall: f64, viol: i32, cx: &mut Ctx) {
    let sh = rt::sh();
    let g = |a: &std::sync::atomic::AtomicU64| a.load(Relaxed);
    let mut faults = BTreeMap::new();
    for (i, n) in rt::FAULT_NAMES.iter().enumerate() {
        let v = g(&sh.fault[i]);
        if v > 0 {
            faults.insert(*n, v);
        }
    }
    let edges = sh.edge.iter().filter(|e| e.load(Relaxed) != 0).count();
    let mut samples = vec![];
    for i in 0..3u64.min(nruns) {
        let pl = plan_of(p, seed, i, cx);
        let mut t = pl.text();
        if t.len() > 1500 {
            let mut k = 1500;
            while !t.is_char_boundary(k) {
                k -= 1;
            }
            t.truncate(k);
            t.push_str(" ...");
        }
        samples.push(js(&t));
    }
    let runs = g(&sh.runs);
    let rate = (runs as f64 / wall.max(0.001) * 3600.0) as u64;
    let mut s = String::new();
    s.push_str("{\n");
    s.push_str(&format!(
        " \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\", \"wall_s\": {:.1}, \"violations\": {},\n",
        js(p.id),
        js(tier),
        seed,
        wall,
        viol
    ));
    s.push_str(" \"coverage\": {\n");
    s.push_str(&format!("  \"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {},\n", runs, g(&sh.nontrivial), js(p.rule)));
    s.push_str(&format!(
        "  \"planned_runs\": {}, \"oracle_judgements\": {}, \"library_calls\": {}, \"simulated_processes\": {}, \"instrumented_steps\": {},\n",
        nruns,
        g(&sh.judged),
        g(&sh.calls),
        g(&sh.nodes),
        g(&sh.steps)
    ));
    s.push_str(&format!(
        "  \"seeds_per_hour\": {}, \"simulated_seconds\": {}, \"context_switches\": {},\n",
        rate,
        g(&sh.sim_ns) / 1_000_000_000,
        g(&sh.switches)
    ));
    s.push_str(&format!(
        "  \"distinct_run_traces\": {}, \"distinct_interleavings\": {}, \"distinct_coverage_states\": {}, \"edges_reached\": {}, \"edges_instrumented\": {}, \"non_reproducible\": {},\n",
        g(&sh.set_n[0]),
        g(&sh.set_n[1]),
        g(&sh.set_n[2]),
        edges,
        rt::guards(),
        g(&sh.flaky)
    ));
    s.push_str("  \"faults_injected\": {");
    s.push_str(&faults.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
    s.push_str("},\n");
    s.push_str("  \"real_components\": [\"kms (all of src/)\", \"once_cell\", \"rand\", \"getrandom\", \"rustc_hash\", \"std threads and locks\", \"libsecp256k1, sha2, hmac, pbkdf2, bs58, unicode-normalization, zeroize\"],\n");
    s.push_str("  \"simulated_components\": [\"thread scheduler\", \"futex\", \"OS entropy\", \"clock\", \"allocator\", \"disk\", \"network\", \"output sinks\", \"faulty key backend\"],\n");
    s.push_str(&format!("  \"samples\": [{}]\n }},\n", samples.join(", ")));
    s.push_str(" \"assumptions\": [\"SHA-2, RIPEMD-160, HMAC, secp256k1 arithmetic and Unicode tables of the cached crates are right (the reference model uses them too)\", \"threads are simulated under sequential consistency, preempted at basic-block edges, loads, stores, allocations and system calls of the instrumented crates\"]\n}\n");
    let d = root().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    if std::fs::write(d.join(format!("{}.json", p.id)), s).is_err() {
        die("cannot write the evidence file");
    }
}
