//! replay HARNESS PARAMS: reads witnesses, one per line, and prints the outcome of each.
use std::io::BufRead;
extern "C" { fn fork() -> i32; fn waitpid(p: i32, st: *mut i32, o: i32) -> i32; fn _exit(c: i32) -> !; }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = match vh::all().into_iter().find(|x| x.0 == a[1]) { Some(x) => x.1, None => { println!("R NOHARNESS"); std::process::exit(2) } };
    let params: Vec<u64> = a.get(2).map_or(vec![], |s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect());
    vh::native::quiet();
    std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        for l in std::io::stdin().lock().lines() {
            let l = l.unwrap();
            // each witness in a process of its own: nothing static is left over from the one before
            let pid = unsafe { fork() };
            if pid > 0 {
                let mut st = 0i32;
                unsafe { waitpid(pid, &mut st, 0); }
                if st & 0x7f != 0 { println!("R CRASH signal {}", st & 0x7f); println!("L "); }
                continue;
            }
            let (out, logs) = vh::native::run(f, vh::native::parse(l.trim()), params.clone());
            println!("R {}", out);
            println!("L {}", logs.iter().map(|x| format!("{:x};", x)).collect::<String>());
            if pid == 0 { use std::io::Write; let _ = std::io::stdout().flush(); unsafe { _exit(0) } }
        }
    }).unwrap().join().unwrap();
}
