//! Evidence, violations, known findings, watchdog and allocation guard.
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

pub struct Report {
    pub property: &'static str,
    pub level: &'static str,
    pub thorough: bool,
    seed: i64,
    start: Instant,
    pub evals: AtomicU64,
    pub distinct: AtomicU64,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub skipped: AtomicU64,
    samples: Mutex<Vec<String>>,
    extra: Mutex<BTreeMap<String, String>>,
    viol: Mutex<BTreeMap<String, (u64, String)>>,
    known: Vec<(String, String)>,
    known_hit: Mutex<BTreeSet<String>>,
    rule: Mutex<String>,
    assumptions: Mutex<Vec<String>>,
    misses: Mutex<BTreeSet<String>>,
}
static R: OnceLock<Report> = OnceLock::new();
pub fn verif_dir() -> String { std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()) }

pub fn init(property: &'static str, level: &'static str, rule: &str) -> &'static Report {
    std::panic::set_hook(Box::new(|i| {
        let msg = format!("{i}");
        if std::env::var("TIMES").is_ok() { eprintln!("{msg}"); } LAST_PANIC.with(|l| *l.borrow_mut() = msg.replace('\n', " "));
    }));
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let known = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())).unwrap_or_default();
    let known = known.lines().filter_map(|l| {
        let l = l.strip_prefix("finding: property=")?;
        let (id, rest) = l.split_once(' ')?;
        if id != property { return None; }
        let rest = rest.strip_prefix("key=")?;
        let (k, d) = rest.split_once(" | ")?;
        Some((k.to_string(), d.to_string()))
    }).collect();
    let start = Instant::now();
    let crash = supervise();
    let r = Report {
        property, level, thorough, seed, start,
        evals: 0.into(), distinct: 0.into(), states: 0.into(), transitions: 0.into(), traces: 0.into(), skipped: 0.into(),
        samples: Mutex::new(vec![]), extra: Mutex::default(), viol: Mutex::default(), known, known_hit: Mutex::default(),
        rule: Mutex::new(rule.to_string()), assumptions: Mutex::new(vec![]), misses: Mutex::default(),
    };
    let _ = R.set(r);
    let r = R.get().unwrap();
    if let Some((sig, what)) = crash {
        r.fail(&format!("{}:crash", what.split(' ').next().unwrap_or("")), format!("the process was killed by signal {sig} while processing {what}"));
        r.finish_and_exit();
    }
    std::thread::spawn(watchdog);
    r
}
// ---- supervision: the exploration runs in a child process, so that memory corruption ends in a report
#[repr(C)]
struct SigAction { handler: usize, mask: [u64; 16], flags: i32, restorer: usize }
extern "C" { fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32; fn write(fd: i32, b: *const u8, n: usize) -> isize; fn open(p: *const std::ffi::c_char, flags: i32, ...) -> i32; }
static mut CRASH_FILE: [u8; 256] = [0; 256];
thread_local! { static CUR: std::cell::Cell<(*const u8, usize, *const u8, usize)> = const { std::cell::Cell::new((std::ptr::null(), 0, std::ptr::null(), 0)) }; }
extern "C" fn on_crash(_sig: i32) {
    // only async-signal-safe calls; SA_RESETHAND restores the default action, which the returning instruction triggers
    unsafe {
        let (n, nl, b, bl) = CUR.try_with(|c| c.get()).unwrap_or((std::ptr::null(), 0, std::ptr::null(), 0));
        let fd = open(&raw const CRASH_FILE as *const std::ffi::c_char, 0o1 | 0o100 | 0o1000, 0o600);
        if fd >= 0 && !n.is_null() {
            write(fd, n, nl);
            write(fd, b" input=".as_ptr(), 7);
            for i in 0..bl.min(64) {
                let x = *b.add(i);
                let h = b"0123456789abcdef";
                let t = [h[(x >> 4) as usize], h[(x & 15) as usize], b' '];
                write(fd, t.as_ptr(), 3);
            }
        }
    }
}
/// in the parent: Some((signal, case)) if the child crashed (never returns otherwise); in the child: None
fn supervise() -> Option<(i32, String)> {
    use std::os::unix::process::ExitStatusExt;
    if let Ok(f) = std::env::var("VERIF_CRASH_FILE") {
        unsafe {
            let p = &raw mut CRASH_FILE as *mut u8;
            for (i, b) in f.bytes().take(255).enumerate() { *p.add(i) = b; }
            for sig in [4, 6, 7, 8, 11] {
                let a = SigAction { handler: on_crash as extern "C" fn(i32) as usize, mask: [0; 16], flags: 0x0800_0000 | 0x8000_0000u32 as i32, restorer: 0 };
                sigaction(sig, &a, std::ptr::null_mut());
            }
        }
        return None;
    }
    let f = std::env::temp_dir().join(format!("verif-crash-{}", std::process::id()));
    let st = std::process::Command::new(std::env::current_exe().expect("exe")).args(std::env::args().skip(1)).env("VERIF_CRASH_FILE", &f).status().expect("child");
    let what = std::fs::read_to_string(&f).unwrap_or_default();
    let _ = std::fs::remove_file(&f);
    match (st.code(), st.signal()) {
        (Some(c), _) => std::process::exit(c),
        (_, Some(s)) if [4, 6, 7, 8, 11].contains(&s) => Some((s, what)),
        _ => { eprintln!("check was killed: {st}"); std::process::exit(2) }
    }
}
pub fn get() -> &'static Report { R.get().expect("report") }
thread_local! { pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
pub fn last_panic() -> String { LAST_PANIC.with(|l| l.borrow().clone()) }

// ---- current case, for the watchdog and the allocation guard
#[derive(Default)]
pub struct Slot { seq: AtomicU64, busy: AtomicBool, what: Mutex<(String, Vec<u8>)> }
static SLOTS: Mutex<Vec<&'static Slot>> = Mutex::new(vec![]);
thread_local! { static MY: &'static Slot = { let s: &'static Slot = Box::leak(Box::default()); SLOTS.lock().unwrap().push(s); s }; static IN_GUARD: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
pub fn enter(name: &str, input: &[u8]) {
    MY.with(|s| {
        let mut w = s.what.lock().unwrap();
        if w.0 != name { w.0.clear(); w.0.push_str(name); }
        w.1.clear(); w.1.extend_from_slice(input);
        CUR.with(|c| c.set((w.0.as_ptr(), w.0.len(), w.1.as_ptr(), w.1.len())));
        s.seq.fetch_add(1, Relaxed);
        s.busy.store(true, Relaxed);
    });
    LIVE.with(|l| l.set(0));
    IN_GUARD.with(|g| g.set(true));
}
pub fn leave() {
    IN_GUARD.with(|g| g.set(false));
    MY.with(|s| s.busy.store(false, Relaxed));
}
fn watchdog() {
    let mut last: Vec<(u64, Instant)> = vec![];
    loop {
        std::thread::sleep(Duration::from_millis(500));
        let slots = SLOTS.lock().unwrap().clone();
        last.resize(slots.len(), (u64::MAX, Instant::now()));
        for (i, s) in slots.iter().enumerate() {
            let q = s.seq.load(Relaxed);
            if last[i].0 != q || !s.busy.load(Relaxed) { last[i] = (q, Instant::now()); continue; }
            if last[i].1.elapsed() > Duration::from_secs(30) {
                let w = s.what.lock().unwrap().clone();
                let r = get();
                r.fail(&format!("{}:hang", w.0), format!("operation did not terminate within 30 s: {} input={}", w.0, hex(&w.1)));
                r.finish_and_exit();
            }
        }
    }
}
/// largest single request, and largest net growth, allowed within one guarded call
pub static ALLOC_LIMIT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(64 << 20);
pub static LIVE_LIMIT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(usize::MAX);
thread_local! { static LIVE: std::cell::Cell<isize> = const { std::cell::Cell::new(0) }; }
pub struct Guard;
static ALLOC_ABORT: AtomicBool = AtomicBool::new(false);
#[inline]
fn grow(n: isize) {
    let l = LIVE.try_with(|c| { let l = c.get() + n; c.set(l); l }).unwrap_or(0);
    if n > 0 && (n as usize > ALLOC_LIMIT.load(Relaxed) || l > 0 && l as usize > LIVE_LIMIT.load(Relaxed)) { over(n as usize, l); }
}
unsafe impl std::alloc::GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { grow(l.size() as isize); std::alloc::System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { grow(-(l.size() as isize)); std::alloc::System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { grow(l.size() as isize); std::alloc::System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        grow(-(l.size() as isize)); grow(n as isize);
        std::alloc::System.realloc(p, l, n)
    }
}
fn over(n: usize, live: isize) {
    let g = IN_GUARD.try_with(|g| g.replace(false)).unwrap_or(false);
    if !g || ALLOC_ABORT.swap(true, SeqCst) { return; }
    let w = MY.with(|s| s.what.lock().unwrap().clone());
    let r = get();
    r.fail(&format!("{}:alloc", w.0), format!("allocation request of {} bytes ({} bytes held) while processing {} input={}", n, live, w.0, hex(&w.1)));
    r.finish_and_exit();
}

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join(" ") }
pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}
impl Report {
    pub fn fail(&self, key: &str, detail: String) {
        if let Some((k, _)) = self.known.iter().find(|(k, _)| k == key) { self.known_hit.lock().unwrap().insert(k.clone()); return; }
        let mut v = self.viol.lock().unwrap();
        let e = v.entry(key.to_string()).or_insert((0, detail));
        e.0 += 1;
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 { v.push(s()); }
    }
    /// a program for which the bounded space holds no accepted input
    pub fn miss(&self, s: &str) { self.misses.lock().unwrap().insert(s.into()); }
    pub fn want_sample(&self) -> bool { self.samples.lock().unwrap().len() < 12 }
    pub fn extra(&self, k: &str, v: impl std::fmt::Display) { self.extra.lock().unwrap().insert(k.into(), v.to_string()); }
    pub fn assume(&self, s: &str) { self.assumptions.lock().unwrap().push(s.into()); }
    pub fn add(&self, c: &AtomicU64, n: u64) { c.fetch_add(n, Relaxed); }
    fn finish(&self) -> i32 {
        let viol = self.viol.lock().unwrap();
        let dir = verif_dir();
        let mut cov = vec![];
        let ev = self.evals.load(Relaxed);
        if self.level == "model_checking" {
            cov.push(format!("\"states\": {}", self.states.load(Relaxed)));
            cov.push(format!("\"transitions\": {}", self.transitions.load(Relaxed)));
            cov.push(format!("\"traces_validated_against_impl\": {}", self.traces.load(Relaxed)));
        }
        cov.push(format!("\"evaluations\": {ev}"));
        cov.push(format!("\"distinct_nontrivial\": {}", self.distinct.load(Relaxed)));
        cov.push(format!("\"rule\": {}", esc(&self.rule.lock().unwrap())));
        cov.push(format!("\"not_predicted_by_model\": {}", self.skipped.load(Relaxed)));
        cov.push(format!("\"samples\": [{}]", self.samples.lock().unwrap().iter().map(|s| esc(s)).collect::<Vec<_>>().join(", ")));
        for (k, v) in self.extra.lock().unwrap().iter() { cov.push(format!("{}: {}", esc(k), if v.parse::<u64>().is_ok() { v.clone() } else { esc(v) })); }
        let ms = self.misses.lock().unwrap();
        if !ms.is_empty() { cov.push(format!("\"programs_without_accepted_input\": [{}]", ms.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "))); }
        cov.push(format!("\"exhaustive\": {}", viol.is_empty()));
        let js = format!("{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"{}\",\n \"coverage\": {{\n  {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            self.property, if self.thorough { "thorough" } else { "quick" }, self.seed, self.level, cov.join(",\n  "),
            self.assumptions.lock().unwrap().iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
            self.start.elapsed().as_secs_f64() + std::env::var("BUILD_S").ok().and_then(|s| s.parse::<f64>().ok()).unwrap_or(0.0), viol.len());
        std::fs::create_dir_all(format!("{dir}/evidence")).ok();
        std::fs::write(format!("{dir}/evidence/{}.json", self.property), js).expect("evidence");
        let out = std::io::stdout();
        let mut out = out.lock();
        for (k, d) in &self.known { if self.known_hit.lock().unwrap().contains(k) { let _ = writeln!(out, "KNOWN-FINDING: property={} {}", self.property, d); } else { let _ = writeln!(out, "note: listed finding not observed in this run: {k}"); } }
        let _ = writeln!(out, "{}: evaluations={} states={} transitions={} traces={} unpredicted={} violations={} in {:.1}s", self.property, ev, self.states.load(Relaxed), self.transitions.load(Relaxed), self.traces.load(Relaxed), self.skipped.load(Relaxed), viol.len(), self.start.elapsed().as_secs_f64());
        if viol.is_empty() { return 0; }
        std::fs::create_dir_all(format!("{dir}/replay")).ok();
        let path = format!("{dir}/replay/{}.json", self.property);
        let mut items = vec![];
        for (k, (n, d)) in viol.iter() { items.push(format!("{{\"key\": {}, \"count\": {}, \"first\": {}}}", esc(k), n, esc(d))); }
        std::fs::write(&path, format!("{{\"property\": \"{}\", \"violations\": [\n{}\n]}}\n", self.property, items.join(",\n"))).ok();
        for (i, (k, (n, d))) in viol.iter().enumerate() { if i < 40 { let _ = writeln!(out, "  [{k}] x{n}: {}", d.chars().take(700).collect::<String>()); } }
        let _ = writeln!(out, "VIOLATION property={} replay={}", self.property, path);
        1
    }
    pub fn finish_and_exit(&self) -> ! {
        let c = self.finish();
        let _ = std::io::stdout().flush();
        unsafe { libc_exit(c) }
    }
}
extern "C" { fn _exit(c: i32) -> !; }
unsafe fn libc_exit(c: i32) -> ! { _exit(c) }
