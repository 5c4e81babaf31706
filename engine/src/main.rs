//! symx: solver-based symbolic execution of LLVM IR produced by rustc.
//! usage: symx --ir FILE --harness NAME --out FILE.json [--jobs N] [--time S] [--params a,b,c] [--profile] [--dump DIR]
mod exec;
mod expr;
mod ll;
mod z3;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn kill(p: i32, s: i32) -> i32;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}

#[derive(Default)]
struct Rep { nums: BTreeMap<String, u64>, viols: Vec<[String; 4]>, traces: Vec<(String, String)>, inconclusive: BTreeMap<String, u64>, covers: BTreeMap<String, u64>, fns: BTreeSet<String>, lines: BTreeSet<(String, u32)>, forks: BTreeMap<String, u64> }

// internal exchange format: one record per line, tab separated, escaped
fn esc(s: &str) -> String { s.replace('\\', "\\\\").replace('\t', "\\t").replace('\n', "\\n") }
fn unesc(s: &str) -> String { let mut o = String::new(); let mut it = s.chars(); while let Some(c) = it.next() { if c == '\\' { match it.next() { Some('t') => o.push('\t'), Some('n') => o.push('\n'), Some(x) => o.push(x), None => {} } } else { o.push(c) } } o }

fn collect(ex: &Exec) -> Rep {
    let mut r = Rep::default();
    let s = &ex.stats;
    for (k, v) in [("done", s.done), ("killed", s.killed), ("violated", s.violated), ("forks", s.forks), ("steps", s.steps), ("asserts", s.asserts), ("asserts_sym", s.asserts_sym), ("cache_hits", s.cache_hits), ("branches_sym", s.branches_sym),
        ("queries", ex.z3.queries), ("sat", ex.z3.sat), ("unsat", ex.z3.unsat), ("unknown", ex.z3.unknown), ("solver_us", ex.z3.ns / 1000)] { r.nums.insert(k.into(), v); }
    r.nums.insert("max_vars".into(), s.max_vars as u64);
    r.nums.insert("max_query_us".into(), ex.z3.max_ns / 1000);
    for v in &ex.viols { r.viols.push([v.msg.clone(), v.stack.join("\n"), v.inputs.clone(), v.logs.clone()]); }
    for t in &ex.traces { r.traces.push((t.inputs.clone(), t.logs.clone())); }
    r.inconclusive = ex.inconclusive.clone();
    r.covers = ex.covers.clone();
    let (f, l) = ex.covered_locs();
    r.fns = f; r.lines = l;
    if ex.profile { let mut v: Vec<_> = ex.query_sites.iter().collect(); v.sort_by_key(|x| std::cmp::Reverse((x.1).1)); for (k, (n, ns)) in v.into_iter().take(12) { eprintln!("{} queries, {} ms: {}", n, ns / 1_000_000, k); } }
    if ex.profile { for (n, s) in ex.fork_report() { *r.forks.entry(s).or_insert(0) += n; } }
    r
}
fn ser(r: &Rep) -> String {
    let mut o = String::new();
    for (k, v) in &r.nums { o.push_str(&format!("N\t{}\t{}\n", k, v)); }
    for v in &r.viols { o.push_str(&format!("V\t{}\t{}\t{}\t{}\n", esc(&v[0]), esc(&v[1]), esc(&v[2]), esc(&v[3]))); }
    for t in &r.traces { o.push_str(&format!("T\t{}\t{}\n", esc(&t.0), esc(&t.1))); }
    for (k, v) in &r.inconclusive { o.push_str(&format!("I\t{}\t{}\n", esc(k), v)); }
    for (k, v) in &r.covers { o.push_str(&format!("C\t{}\t{}\n", esc(k), v)); }
    for f in &r.fns { o.push_str(&format!("F\t{}\n", esc(f))); }
    for (f, l) in &r.lines { o.push_str(&format!("L\t{}\t{}\n", esc(f), l)); }
    for (k, v) in &r.forks { o.push_str(&format!("P\t{}\t{}\n", esc(k), v)); }
    o.push_str("E\n");
    o
}
fn merge(r: &mut Rep, txt: &str) -> bool {
    let mut ended = false;
    for l in txt.lines() {
        let p: Vec<String> = l.split('\t').map(unesc).collect();
        match p[0].as_str() {
            "N" => { let v: u64 = p[2].parse().unwrap(); let e = r.nums.entry(p[1].clone()).or_insert(0); if p[1].starts_with("max_") { *e = (*e).max(v) } else { *e += v } }
            "V" => r.viols.push([p[1].clone(), p[2].clone(), p[3].clone(), p[4].clone()]),
            "T" => r.traces.push((p[1].clone(), p[2].clone())),
            "I" => *r.inconclusive.entry(p[1].clone()).or_insert(0) += p[2].parse::<u64>().unwrap(),
            "C" => *r.covers.entry(p[1].clone()).or_insert(0) += p[2].parse::<u64>().unwrap(),
            "F" => { r.fns.insert(p[1].clone()); }
            "L" => { r.lines.insert((p[1].clone(), p[2].parse().unwrap())); }
            "P" => *r.forks.entry(p[1].clone()).or_insert(0) += p[2].parse::<u64>().unwrap(),
            "E" => ended = true,
            _ => {}
        }
    }
    ended
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
    let ir = opt("--ir").expect("--ir");
    let out = opt("--out").expect("--out");
    let jobs: usize = opt("--jobs").map_or(8, |x| x.parse().unwrap());
    let time: f64 = opt("--time").map_or(600.0, |x| x.parse().unwrap());
    let steps: u64 = opt("--steps").map_or(40_000_000, |x| x.parse().unwrap());
    let rlimit: u32 = opt("--rlimit").map_or(400_000_000, |x| x.parse().unwrap());
    let params: Vec<u64> = opt("--params").map_or(vec![], |x| x.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect());
    let name = opt("--harness").expect("--harness");
    let t0 = Instant::now();
    // big stack: recursive simplifier
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || real(ir, out, jobs, time, rlimit, steps, params, name, t0, std::env::args().any(|x| x == "--profile"), std::env::args().skip_while(|x| x != "--dump").nth(1))).unwrap();
    let code = match h.join() { Ok(c) => c, Err(_) => 3 };
    std::process::exit(code);
}

fn real(ir: String, out: String, jobs: usize, time: f64, rlimit: u32, steps: u64, params: Vec<u64>, name: String, t0: Instant, profile: bool, dump: Option<String>) -> i32 {
    let src = std::fs::read_to_string(&ir).expect("read ir");
    let m = ll::Module::parse(&src);
    let load_s = t0.elapsed().as_secs_f64();
    let deadline = t0 + Duration::from_secs_f64(time);
    let mut ex = Exec::new(&m, rlimit, deadline);
    ex.max_steps = steps;
    ex.params = params.clone();
    let page = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *const u64;
    ex.first_viol = unsafe { page.add(8) } as *const std::sync::atomic::AtomicU64;
    ex.profile = profile;
    if let Some(d) = dump { ex.z3.dump = Some(d.into()); }
    if let Err(e) = ex.start(&name) { eprintln!("symx: {}", e); return 3; }
    let target = if jobs > 1 { jobs * 24 } else { usize::MAX };
    let bfs_until = Instant::now() + Duration::from_millis(400);
    // breadth first until there is enough work to share (or it is all done)
    while !ex.work.is_empty() && (jobs <= 1 || ex.work.len() < target || Instant::now() < bfs_until) {
        let st = if jobs <= 1 { ex.work.pop().unwrap() } else { ex.work.remove(0) };
        ex.run_state(st);
    }
    let mut rep = collect(&ex);
    let mut bad = false;
    if !ex.work.is_empty() {
        let states = std::mem::take(&mut ex.work);
        let n = states.len();
        let ctr = page as *const std::sync::atomic::AtomicUsize;
        let mut pids = vec![];
        for j in 0..jobs {
            let f = format!("{}.w{}", out, j);
            let pid = unsafe { fork() };
            if pid == 0 {
                // worker: reset counters
                ex.stats = Stats::default();
                ex.z3.queries = 0; ex.z3.sat = 0; ex.z3.unsat = 0; ex.z3.unknown = 0; ex.z3.ns = 0;
                ex.viols.clear(); ex.traces.clear(); ex.inconclusive.clear(); ex.covers.clear(); ex.fork_sites.clear();
                ex.max_traces = 12;
                let ctr = unsafe { &*ctr };
                loop {
                    let k = ctr.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if k >= n { break; }
                    ex.work.push(states[k].clone());
                    while let Some(st) = ex.work.pop() {
                        ex.run_state(st);
                        if ex.inconclusive.len() > 50 || ex.over() { if !ex.work.is_empty() || k + 1 < n { *ex.inconclusive.entry("stopped early (time or too many inconclusive paths)".into()).or_insert(0) += ex.work.len() as u64 + 1; } ex.work.clear(); }
                        if ex.viols.len() >= ex.max_viols { ex.work.clear(); }
                    }
                    if ex.viols.len() >= ex.max_viols { break; }
                }
                let r = collect(&ex);
                let _ = std::fs::write(&f, ser(&r));
                unsafe { _exit(0) }
            }
            pids.push((pid, f));
        }
        // hard stop well past the deadline
        let hard = deadline + Duration::from_secs(60);
        let mut left: Vec<(i32, String)> = pids;
        while !left.is_empty() {
            let mut k = 0;
            let mut any = false;
            while k < left.len() {
                let mut st = 0;
                let r = unsafe { waitpid(left[k].0, &mut st, 1) };
                if r == left[k].0 {
                    any = true;
                    let (_, f) = left.remove(k);
                    let t = std::fs::read_to_string(&f).unwrap_or_default();
                    let _ = std::fs::remove_file(&f);
                    if !merge(&mut rep, &t) || st != 0 { bad = true; *rep.inconclusive.entry("worker died".into()).or_insert(0) += 1; }
                } else { k += 1; }
            }
            if !any { std::thread::sleep(Duration::from_millis(3)); }
            if Instant::now() > hard { for (p, _) in &left { unsafe { kill(*p, 9); } } }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut o = String::from("{\n");
    o.push_str(&format!("\"harness\": {}, \"params\": {:?}, \"wall_s\": {:.3}, \"load_s\": {:.3}, \"solver\": {},\n", js(&name), params, wall, load_s, js(&z3::version())));
    o.push_str("\"stats\": {");
    o.push_str(&rep.nums.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
    o.push_str("},\n\"violations\": [");
    o.push_str(&rep.viols.iter().map(|v| format!("{{\"msg\": {}, \"stack\": {}, \"inputs\": {}, \"logs\": {}}}", js(&v[0]), js(&v[1]), js(&v[2]), js(&v[3]))).collect::<Vec<_>>().join(",\n"));
    o.push_str("],\n\"traces\": [");
    o.push_str(&rep.traces.iter().map(|t| format!("[{}, {}]", js(&t.0), js(&t.1))).collect::<Vec<_>>().join(",\n"));
    o.push_str("],\n\"inconclusive\": {");
    o.push_str(&rep.inconclusive.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(",\n"));
    o.push_str("},\n\"covers\": {");
    o.push_str(&rep.covers.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
    o.push_str("},\n\"functions\": [");
    o.push_str(&rep.fns.iter().map(|f| js(f)).collect::<Vec<_>>().join(", "));
    o.push_str("],\n\"lines\": [");
    o.push_str(&rep.lines.iter().map(|(f, l)| format!("[{}, {}]", js(f), l)).collect::<Vec<_>>().join(", "));
    o.push_str("]");
    if profile {
        let mut v: Vec<_> = rep.forks.iter().collect();
        v.sort_by(|a, b| b.1.cmp(a.1));
        o.push_str(",\n\"forks\": [");
        o.push_str(&v.iter().take(40).map(|(k, n)| format!("[{}, {}]", n, js(k))).collect::<Vec<_>>().join(",\n"));
        o.push_str("]");
    }
    o.push_str("\n}\n");
    std::fs::write(&out, o).expect("write out");
    if bad { 3 } else { 0 }
}
