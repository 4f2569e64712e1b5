//! Shared plumbing: reading cases, reporting failures, surviving panics and hangs of the code
//! under test.
use serde_json::Value;
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub fn bytes(v: &Value) -> Vec<u8> {
    match v {
        Value::Array(a) => a.iter().map(|x| x.as_u64().expect("byte") as u8).collect(),
        Value::String(s) => s.as_bytes().to_vec(),
        _ => panic!("harness: not a byte string: {}", v),
    }
}
pub fn list(v: &Value) -> &Vec<Value> {
    static EMPTY: Vec<Value> = Vec::new();
    match v {
        Value::Array(a) => a,
        Value::Null => &EMPTY,
        Value::Object(m) if m.is_empty() => &EMPTY,
        _ => panic!("harness: not a list: {}", v),
    }
}
pub fn num(v: &Value) -> usize {
    v.as_u64().unwrap_or_else(|| panic!("harness: not a number: {}", v)) as usize
}
pub fn text(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| panic!("harness: not a string: {}", v))
}
pub fn flag(v: &Value) -> bool {
    v.as_bool().unwrap_or_else(|| panic!("harness: not a bool: {}", v))
}
pub fn show(b: &[u8]) -> String {
    let s: String = b.iter().take(300).flat_map(|&x| std::ascii::escape_default(x)).map(|x| x as char).collect();
    if b.len() > 300 { format!("\"{}\"...({} bytes)", s, b.len()) } else { format!("\"{}\"", s) }
}

/// Collects failures of one case.
#[derive(Default)]
pub struct Rep {
    pub fails: Vec<(&'static str, String)>,
    pub checks: u64,
}
impl Rep {
    pub fn check(&mut self, aspect: &'static str, ok: bool, msg: impl FnOnce() -> String) {
        self.checks += 1;
        if !ok && self.fails.len() < 10 {
            self.fails.push((aspect, msg()));
        }
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, aspect: &'static str, what: &str, got: T, want: T) {
        self.checks += 1;
        if got != want && self.fails.len() < 10 {
            self.fails.push((aspect, format!("{}: got {:?}, specification says {:?}", what, got, want)));
        }
    }
}

thread_local!(pub static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()));
pub static PANICS: AtomicU64 = AtomicU64::new(0);
pub static LAST_PANIC_ANY: Mutex<String> = Mutex::new(String::new());
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        PANICS.fetch_add(1, Ordering::SeqCst);
        let s = info.to_string();
        LAST_PANIC.with(|p| *p.borrow_mut() = s.clone());
        if let Ok(mut g) = LAST_PANIC_ANY.lock() { *g = s; }
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

static PROGRESS: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<String> = Mutex::new(String::new());

/// If no progress is made for `secs`, report a hang on the current case and exit.
pub fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        let mut last = u64::MAX;
        let mut since = std::time::Instant::now();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let p = PROGRESS.load(Ordering::SeqCst);
            if p != last {
                last = p;
                since = std::time::Instant::now();
            } else if since.elapsed().as_secs() >= secs {
                let case = CURRENT.lock().map(|c| c.clone()).unwrap_or_default();
                emit_failure("hang", &format!("no answer within {} s", secs), &case);
                std::process::exit(0);
            }
        }
    });
}
/// Shows the watchdog that there is progress within a case.
pub fn alive() { PROGRESS.fetch_add(1, Ordering::SeqCst); }
pub fn progress(case: &str) {
    if let Ok(mut c) = CURRENT.lock() {
        c.clear();
        c.push_str(case);
    }
    PROGRESS.fetch_add(1, Ordering::SeqCst);
    note_case(case);
}
/// For crashes that end the process (stack overflow, abort): leave the case in a file.
fn note_case(case: &str) {
    use std::os::unix::fs::FileExt;
    static FILE: Mutex<Option<std::fs::File>> = Mutex::new(None);
    let mut f = FILE.lock().unwrap();
    if f.is_none() {
        if let Ok(path) = std::env::var("VERIF_CURRENT") {
            *f = std::fs::File::create(path).ok();
        }
    }
    if let Some(ref f) = *f {
        let mut line = format!("{:10}\n", case.len()).into_bytes();
        line.extend_from_slice(case.as_bytes());
        let _ = f.write_at(&line, 0);
    }
}

pub fn emit_failure(aspect: &str, msg: &str, case: &str) {
    let v = serde_json::json!({"fail": {"aspect": aspect, "msg": msg, "case": serde_json::from_str::<Value>(case).unwrap_or(Value::String(case.chars().take(2000).collect()))}});
    let out = std::io::stdout();
    let mut out = out.lock();
    let _ = writeln!(out, "{}", v);
    let _ = out.flush();
}

/// Runs `f` on every line of stdin, prints failures and a summary.
pub fn run_cases(f: impl Fn(&Value, &mut Rep)) {
    quiet_panics();
    watchdog(30);
    let (mut n, mut checks, mut fails) = (0u64, 0u64, 0u64);
    let mut by_op: BTreeMap<String, u64> = BTreeMap::new();
    let mut tally: BTreeMap<String, u64> = BTreeMap::new();
    let t = std::time::Instant::now();
    for line in std::io::stdin().lines() {
        // enough is known
        if fails >= 4 && t.elapsed().as_secs() > 15 { break; }
        let line = line.expect("stdin");
        let v: Value = serde_json::from_str(&line).expect("case");
        let op = v["case"]["op"].as_str().unwrap_or("?").to_string();
        progress(&line);
        let mut rep = Rep::default();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&v, &mut rep)));
        if r.is_err() {
            let p = last_panic();
            if p.contains("harness:") {
                eprintln!("{}", p);
                std::process::exit(2);
            }
            rep.fails.push(("panic", p));
        }
        n += 1;
        checks += rep.checks;
        *by_op.entry(op).or_default() += 1;
        for (aspect, msg) in rep.fails {
            let t = tally.entry(aspect.to_string()).or_default();
            *t += 1;
            if *t <= 5 {
                emit_failure(aspect, &msg, &line);
            }
            fails += 1;
        }
    }
    println!("{}", serde_json::json!({"summary": {"cases": n, "checks": checks, "fails": fails, "by_op": by_op, "by_aspect": tally}}));
}
