#![allow(dead_code, unreachable_code)]
mod exec;
mod expr;
mod hooks;
mod ll;
mod sys;
mod z3;
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("index") {
        // symex index OUT FILE...: the externally visible definitions of each module
        let mut out = String::new();
        for f in &args[3..] {
            let t = ll::mmap_file(f);
            let (_, syms) = ll::scan(t);
            out.push_str(&format!("#M {f}\n"));
            let mut v: Vec<_> = syms.iter().filter(|(_, s)| !s.3).map(|(n, _)| n).collect();
            v.sort();
            for n in v { out.push_str(n); out.push('\n'); }
        }
        std::fs::write(&args[2], out).unwrap();
        return;
    }
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let entry = get("--entry").expect("--entry");
    let results = get("--results").expect("--results");
    let jobs: i64 = get("--jobs").map_or(8, |s| s.parse().unwrap());
    let limit: u64 = get("--time").map_or(600, |s| s.parse().unwrap());
    let sh: &'static exec::Shared = unsafe {
        let p = sys::mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        &*(p as *const exec::Shared)
    };
    let t0 = Instant::now();
    let open = |p: &str| {
        use std::os::fd::IntoRawFd;
        match std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(p).and_then(|_| std::fs::OpenOptions::new().append(true).open(p)) {
            Ok(f) => f.into_raw_fd(),
            Err(e) => { eprintln!("cannot write {p}: {e}"); std::process::exit(3) }
        }
    };
    let conf = exec::Conf {
        jobs,
        max_instr: get("--max-instr").map_or(150_000_000, |s| s.parse().unwrap()),
        deadline: t0 + Duration::from_secs(limit),
        results: open(&results),
        funcs_log: open(&format!("{results}.funcs")),
        max_viol: get("--max-viol").map_or(1, |s| s.parse().unwrap()),
        forkprof: args.iter().any(|a| a == "--forkprof"),
        itrace: args.iter().any(|a| a == "--itrace"),
        tier: get("--tier").map_or(0, |s| s.parse().unwrap()),
        trace: args.iter().any(|a| a == "--trace"),
        max_paths: 0,
    };
    let mut e = exec::Engine::new(sh, conf);
    for (i, a) in args.iter().enumerate() { if a == "--ll" { e.add_module_eager(&args[i + 1]); } }
    for (i, a) in args.iter().enumerate() { if a == "--index" { e.add_index(&args[i + 1]); } }
    // dry run: follows one path without solver queries, so that the code on it is parsed before forking
    let th = std::thread::Builder::new().stack_size(512 << 20);
    let _ = &th;
    if !args.iter().any(|a| a == "--no-dry") {
        e.dry = true;
        e.start(&entry);
        std::panic::set_hook(Box::new(|i| { if i.payload().downcast_ref::<exec::Stop>().is_none() { eprintln!("{i}"); } }));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.run()));
        if let Err(p) = r { if p.downcast_ref::<exec::Stop>().is_none() { std::process::exit(3) } }
        let _ = std::panic::take_hook();
        e.dry = false;
        e.reset();
        for c in [&sh.q_dom, &sh.branches, &sh.q_sat, &sh.q_unsat, &sh.instrs, &sh.asserts_concrete, &sh.asserts_solver] { c.store(0, SeqCst); }
    }
    let t1 = Instant::now();
    sh.active.store(1, SeqCst);
    let mut st = 0;
    unsafe {
        let pid = sys::fork();
        if pid == 0 {
            sys::setpgid(0, 0);
            e.start(&entry);
            e.run();
        }
        // a path or a query that outlasts the limit is ended; what was found until then is kept
        let mut late = 0;
        while sys::waitpid(pid, &mut st, 1) == 0 {
            sys::usleep(3000);
            if late == 0 && t0.elapsed().as_secs() > limit + 5 { late = 1; sh.cut.fetch_add(1, SeqCst); sys::kill(-pid, 9); }
        }
    }
    if st != 0 { sh.errors.fetch_add(1, SeqCst); }
    let g = |a: &std::sync::atomic::AtomicU64| a.load(SeqCst);
    println!("{{\"entry\":\"{entry}\",\"paths\":{},\"pruned\":{},\"violations\":{},\"errors\":{},\"cut\":{},\"instructions\":{},\"forks\":{},\"branches\":{},\"queries_sat\":{},\"queries_unsat\":{},\"queries_unknown\":{},\"domain_decisions\":{},\"solver_s\":{:.3},\"asserts_by_solver\":{},\"asserts_concrete\":{},\"load_s\":{:.2},\"wall_s\":{:.2},\"z3\":\"{}\"}}",
        g(&sh.paths), g(&sh.pruned), g(&sh.violations), g(&sh.errors), g(&sh.cut), g(&sh.instrs), g(&sh.forks), g(&sh.branches), g(&sh.q_sat), g(&sh.q_unsat), g(&sh.q_unknown), g(&sh.q_dom),
        g(&sh.solver_ns) as f64 / 1e9, g(&sh.asserts_solver), g(&sh.asserts_concrete), (t1 - t0).as_secs_f64(), t0.elapsed().as_secs_f64(), z3::version());
}
