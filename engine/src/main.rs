mod exec;
mod expr;
mod ir;
mod solver;
use std::io::Write;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn fcntl(fd: i32, cmd: i32, arg: i32) -> i32;
    fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn poll(p: *mut u8, n: u64, t: i32) -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn draws(d: &[(u32, u128)]) -> String {
    format!("[{}]", d.iter().map(|(w, v)| format!("[{w},\"{v:x}\"]")).collect::<Vec<_>>().join(","))
}
fn write_report(dir: &str, h: &str, ex: &exec::Exec, wall: f64) {
    let r = &ex.rep;
    let s = &ex.sv.stats;
    let mut o = String::from("{");
    o.push_str(&format!("\"harness\":{},", js(h)));
    for (k, v) in [
        ("paths", r.paths),
        ("infeasible", r.infeasible),
        ("allowed_panics", r.allowed_panics),
        ("checks", r.checks),
        ("checks_trivial", r.checks_trivial),
        ("steps", r.steps),
        ("forks", r.forks),
        ("pending", r.pending),
        ("maxdraws", r.maxdraws as u64),
        ("maxpc", r.maxpc as u64),
        ("merges", r.merges),
        ("merge_fail", r.merge_fail),
        ("queries", s.queries),
        ("cache_hits", s.cache_hits),
        ("model_hits", s.model_hits),
        ("sat", s.sat),
        ("unsat", s.unsat),
        ("unknown", s.unknown),
        ("fp_queries", s.fp_queries),
        ("finite", s.finite),
    ] {
        o.push_str(&format!("\"{k}\":{v},"));
    }
    o.push_str(&format!("\"solver_seconds\":{:.3},\"max_query_seconds\":{:.3},\"wall\":{:.3},", s.time.as_secs_f64(), s.max_query.as_secs_f64(), wall));
    o.push_str(&format!("\"functions\":[{}],", r.funcs.iter().map(|f| js(f)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"covers\":{{{}}},", r.covers.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"incomplete\":[{}],", r.incomplete.iter().map(|f| js(f)).collect::<Vec<_>>().join(",")));
    if let Some((k, m, st, d)) = &r.violation {
        o.push_str(&format!("\"violation\":{{\"kind\":{},\"msg\":{},\"stack\":[{}],\"draws\":{}}},", js(k), js(m), st.iter().map(|f| js(f)).collect::<Vec<_>>().join(","), draws(d)));
    }
    o.push_str(&format!("\"samples\":[{}]", r.samples.iter().map(|(d, ob)| format!("{{\"draws\":{},\"obs\":[{}]}}", draws(d), ob.iter().map(|x| format!("\"{x:x}\"")).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",")));
    o.push_str("}\n");
    let p = format!("{dir}/{h}.{}.json", std::process::id());
    let t = format!("{p}.tmp");
    std::fs::File::create(&t).unwrap().write_all(o.as_bytes()).unwrap();
    std::fs::rename(&t, &p).unwrap();
}

struct Tokens {
    r: i32,
    w: i32,
}
impl Tokens {
    fn try_take(&self) -> bool {
        let mut b = 0u8;
        unsafe { read(self.r, &mut b, 1) == 1 }
    }
    fn take(&self) {
        while !self.try_take() {
            // struct pollfd { int fd; short events; short revents; }
            let mut p = [0u8; 8];
            p[..4].copy_from_slice(&self.r.to_ne_bytes());
            p[4] = 1;
            unsafe {
                poll(p.as_mut_ptr(), 1, 1000);
            }
        }
    }
    fn put(&self) {
        let b = b'x';
        unsafe {
            write(self.w, &b, 1);
        }
    }
}

fn main() {
    let mut ll = String::new();
    let mut out = String::from(".");
    let mut jobs = 8usize;
    let mut timeout = 600f64;
    let mut qt = 30000u64;
    let mut samples = 40usize;
    let mut hs: Vec<String> = Vec::new();
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        match a.as_str() {
            "--ll" => ll = it.next().unwrap(),
            "--out" => out = it.next().unwrap(),
            "--jobs" => jobs = it.next().unwrap().parse().unwrap(),
            "--timeout" => timeout = it.next().unwrap().parse().unwrap(),
            "--query-timeout-ms" => qt = it.next().unwrap().parse().unwrap(),
            "--samples" => samples = it.next().unwrap().parse().unwrap(),
            _ => hs.push(a),
        }
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&ll).expect("read ll");
    let mut cx = expr::Ctx::new();
    let m = ir::Module::load(text, &mut cx);
    std::fs::create_dir_all(&out).unwrap();
    let mut fds = [0i32; 2];
    let flag: *mut u32;
    unsafe {
        assert_eq!(pipe(fds.as_mut_ptr()), 0);
        fcntl(fds[0], 4, 0o4000); // O_NONBLOCK
        flag = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *mut u32;
    }
    let tk = Tokens { r: fds[0], w: fds[1] };
    for _ in 0..jobs {
        tk.put();
    }
    let deadline = t0 + Duration::from_secs_f64(timeout);
    let mut ex = exec::Exec::new(cx, m);
    ex.sv.timeout_ms = qt;
    ex.deadline = deadline;
    ex.nsamples = samples;
    let mut kids: Vec<i32> = Vec::new();
    let mut mine: Option<usize> = None;
    for i in 0..hs.len() {
        tk.take();
        let p = unsafe { fork() };
        if p == 0 {
            mine = Some(i);
            break;
        }
        kids.push(p);
    }
    if let Some(i) = mine {
        unsafe {
            prctl(1, 9, 0, 0, 0); // die with the parent
        }
        let code = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| worker(&mut ex, i, &hs[i], &tk, flag, &out))) {
            Ok(c) => c,
            Err(_) => 3,
        };
        unsafe { _exit(code) }
    }
    let mut bad = 0;
    for p in kids {
        let mut st = 0;
        unsafe {
            waitpid(p, &mut st, 0);
        }
        if st != 0 {
            bad += 1;
        }
    }
    eprintln!("irsym: {} harness(es), {} abnormal, {:.1}s", hs.len(), bad, t0.elapsed().as_secs_f64());
    std::process::exit(if bad > 0 { 3 } else { 0 });
}

fn worker(ex: &mut exec::Exec, hi: usize, h: &str, tk: &Tokens, flag: *mut u32, out: &str) -> i32 {
    let mut t0 = Instant::now();
    let mut kids: Vec<i32> = Vec::new();
    let stop = unsafe { flag.add(hi) };
    if let Err(e) = ex.start(h) {
        ex.rep.incomplete.push(e);
    }
    let mut last = Instant::now();
    while let Some(st) = ex.work.pop() {
        if unsafe { std::ptr::read_volatile(stop) } != 0 {
            ex.rep.pending += 1 + ex.work.len() as u64;
            break;
        }
        if Instant::now() > ex.deadline {
            ex.rep.incomplete.push("time limit".into());
            ex.rep.pending += 1 + ex.work.len() as u64;
            break;
        }
        ex.run_one(st);
        if ex.rep.violation.is_some() {
            unsafe { std::ptr::write_volatile(stop, 1) };
            break;
        }
        if ex.work.len() >= 2 && last.elapsed() > Duration::from_millis(60) {
            last = Instant::now();
            if tk.try_take() {
                let p = unsafe { fork() };
                if p == 0 {
                    unsafe {
                        prctl(1, 9, 0, 0, 0);
                    }
                    ex.sv.detach();
                    let w = std::mem::take(&mut ex.work);
                    ex.work = w.into_iter().enumerate().filter(|(i, _)| i % 2 == 0).map(|(_, s)| s).collect();
                    ex.rep = exec::Report::default();
                    ex.clear_seen();
                    ex.nsamples = (ex.nsamples / 4).max(4);
                    kids.clear();
                    t0 = Instant::now();
                } else if p > 0 {
                    let w = std::mem::take(&mut ex.work);
                    ex.work = w.into_iter().enumerate().filter(|(i, _)| i % 2 == 1).map(|(_, s)| s).collect();
                    kids.push(p);
                } else {
                    tk.put();
                }
            }
        }
    }
    ex.sv.quit();
    write_report(out, h, ex, t0.elapsed().as_secs_f64());
    tk.put();
    let mut bad = 0;
    for p in kids {
        let mut st = 0;
        unsafe {
            waitpid(p, &mut st, 0);
        }
        if st != 0 {
            bad = 3;
        }
    }
    bad
}
