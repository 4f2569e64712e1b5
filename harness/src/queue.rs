//! Replays schedules of enqueueing and transmitting (spec/MCSendQueue.tla) on the real dispatch, the
//! transmitter being held before each lock operation, and long sessions with several connections
//! (spec/OracleQueue.tla).  What counts is what the clients read.
use crate::app::Raw;
use crate::scn::{cid, item, SApp};
use crate::util::*;
use serde_json::{json, Value};
use std::cell::Cell;
use std::io::{Read, Write};
use std::os::unix::net::UnixStream;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vt6::common::core::msg::*;
use vt6::server::tokio::Dispatch;
use vt6::server::{ConnectionState, Dispatch as _, MessageConnector, StdoutConnector};

// -- the gate: while it is closed, other threads' writes to the pool wait for tokens --------------
static POOL: AtomicUsize = AtomicUsize::new(0);
static CLOSED: AtomicBool = AtomicBool::new(false);
static TOKENS: AtomicU64 = AtomicU64::new(0);
static USED: AtomicU64 = AtomicU64::new(0);
static ARRIVED: AtomicU64 = AtomicU64::new(0);
thread_local!(static DRIVER: Cell<bool> = Cell::new(false));
fn hook(e: vt6::verif::Event) {
    use vt6::verif::{Event::*, Op};
    match e {
        Before(Op::TryWrite, a) => { let _ = POOL.compare_exchange(0, a, SeqCst, SeqCst); }
        Before(Op::Write, a) if a == POOL.load(SeqCst) && CLOSED.load(SeqCst) && !DRIVER.with(|d| d.get()) => {
            ARRIVED.fetch_add(1, SeqCst);
            let t = Instant::now();
            while CLOSED.load(SeqCst) && t.elapsed() < Duration::from_secs(5) {
                let n = TOKENS.load(SeqCst);
                if n > 0 && TOKENS.compare_exchange(n, n - 1, SeqCst, SeqCst).is_ok() { break; }
                std::thread::sleep(Duration::from_micros(20));
            }
            USED.fetch_add(1, SeqCst);
        }
        _ => {}
    }
}
fn until(ms: u64, f: impl Fn() -> bool) -> bool {
    let t = Instant::now();
    loop {
        if f() { return true; }
        if t.elapsed() > Duration::from_millis(ms) { return false; }
        std::thread::sleep(Duration::from_micros(20));
    }
}

pub fn content(conn: usize, tag: usize, n: usize) -> Vec<u8> {
    let seed = crate::scn::mix((conn as u64) << 32 | tag as u64);
    (0..n).map(|i| b"0123456789abcdefghijklmnopqrstuvwxyz{}|:,\n"[((seed >> (i % 7 * 8)) as usize + i / 7 * 5 + i) % 42]).collect()
}
/// A message of exactly n bytes.
fn message(conn: usize, tag: usize, n: usize) -> Vec<u8> {
    let mut l = n - 14;
    while 13 + l.to_string().len() + l > n { l -= 1; }
    assert_eq!(13 + l.to_string().len() + l, n, "harness: no message of this size");
    content(conn, tag, l)
}
fn on_wire(kind: &str, conn: usize, tag: usize, n: usize) -> Vec<u8> {
    if kind == "msg" {
        let a = message(conn, tag, n);
        let mut b = vec![0u8; 1024];
        let mut f = MessageFormatter::new(&mut b, "x1.v", 1);
        f.add_argument(&a[..]);
        let k = f.finalize().expect("harness: message");
        assert_eq!(k, n, "harness: size");
        b.truncate(k);
        b
    } else { content(conn, tag, n) }
}

struct Peer { sock: UnixStream, kind: String, name: String, got: Vec<u8>, tags: usize }
impl Peer {
    fn read(&mut self, mut most: usize) -> bool {
        let mut b = [0u8; 8192];
        let mut any = false;
        while most > 0 {
            match self.sock.read(&mut b[..most.min(8192)]) {
                Ok(0) => return any,
                Ok(n) => { self.got.extend_from_slice(&b[..n]); most -= n; any = true; }
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(_) => return any,
            }
        }
        any
    }
}
pub struct Sut { rt: ::tokio::runtime::Runtime, d: Dispatch<SApp>, app: SApp, path: String, next: u64 }
impl Sut {
    pub fn new() -> Sut {
        DRIVER.with(|d| d.set(true));
        POOL.store(0, SeqCst);
        vt6::verif::set_hook(hook);
        let path = format!("{}/q{}", std::env::var("TMPDIR").unwrap_or_else(|_| "/tmp".into()), std::process::id());
        let app = SApp::default();
        let rt = ::tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().expect("harness: runtime");
        let d = Dispatch::new(&path, app.clone()).expect("harness: Dispatch::new");
        let d2 = d.clone();
        rt.spawn(async move { let _ = d2.run_listener().await; });
        until(5000, || UnixStream::connect(&path).is_ok());
        Sut { rt, d, app, path, next: 0 }
    }
    fn open(&self) -> usize { self.app.count("open") }
    fn connect(&mut self, kind: &str, rep: &mut Rep) -> Option<Peer> {
        self.next += 1;
        let name = format!("k{}", self.next);
        let mut sock = UnixStream::connect(&self.path).ok()?;
        let _ = sock.write_all(&item(if kind == "msg" { "posix1.client-hello" } else { "posix1.stdin-hello" }, &[&name]));
        sock.set_nonblocking(true).unwrap();
        let mut p = Peer { sock, kind: kind.into(), name, got: vec![], tags: 0 };
        let ok = if kind == "msg" {
            let t = Instant::now();
            let mut done = false;
            while !done && t.elapsed() < Duration::from_secs(5) { p.read(usize::MAX); done = Message::parse(&p.got).is_ok(); if !done { std::thread::sleep(Duration::from_micros(20)); } }
            p.got.clear();
            done
        } else {
            // a stdin connection is ready when its handler has run
            until(5000, || self.app.has(&p.name))
        };
        rep.check("out", ok, || "a connection was not greeted within 5 s".into());
        if ok { Some(p) } else { None }
    }
    /// Enqueues n bytes on one peer, or on all.
    fn enqueue(&self, peers: &mut [Peer], sizes: &[(usize, usize)], rep: &mut Rep) {
        let mut plan = vec![];
        for &(k, n) in sizes {
            peers[k].tags += 1;
            let a = if peers[k].kind == "msg" { message(k, peers[k].tags, n) } else { content(k, peers[k].tags, n) };
            plan.push((peers[k].name.clone(), a));
        }
        let done = Arc::new(Mutex::new(vec![0; plan.len()]));
        let (d2, plan) = (done.clone(), Arc::new(plan));
        let p2 = plan.clone();
        self.d.enqueue_broadcast(Box::new(move |conn| {
            let name = match conn.state() {
                ConnectionState::Msgio(x) => x.0.client_id().as_str().to_string(),
                ConnectionState::Stdin(x) => x.screen_id().to_string(),
                _ => return,
            };
            let msg = matches!(conn.state(), ConnectionState::Msgio(_));
            for (i, (n, a)) in p2.iter().enumerate() {
                if *n != name { continue; }
                if msg { conn.enqueue_message(&Raw("x1.v", &[a])); } else { conn.enqueue_stdin(a); }
                d2.lock().unwrap()[i] += 1;
            }
        }));
        let ok = until(3000, || done.lock().unwrap().iter().all(|&x| x > 0));
        rep.check("bcast", ok, || "a broadcast was not executed within 3 s".into());
        rep.check("bcast", done.lock().unwrap().iter().all(|&x| x <= 1), || "a broadcast was executed twice on a connection".into());
    }
}

fn compare(rep: &mut Rep, p: &Peer, k: usize, stream: &Value) {
    let want: Vec<u8> = list(stream).iter().flat_map(|r| on_wire(&p.kind, k, num(&r[0]), num(&r[1]))).collect();
    rep.check("out", p.got == want, || {
        let i = p.got.iter().zip(&want).take_while(|(a, b)| a == b).count();
        format!("connection {} ({}): read {} bytes, specification says {}; first difference at {}: got {}, specification says {}", k, p.kind, p.got.len(), want.len(), i,
            show(&p.got[i.min(p.got.len())..(i + 60).min(p.got.len())]), show(&want[i.min(want.len())..(i + 60).min(want.len())]))
    });
}

pub fn run(v: &Value, rep: &mut Rep) {
    thread_local!(static SUT: std::cell::RefCell<Option<Sut>> = std::cell::RefCell::new(None));
    SUT.with(|s| {
        let mut s = s.borrow_mut();
        let sut = s.get_or_insert_with(Sut::new);
        let before = rep.fails.len();
        if v["case"].is_null() { schedule(sut, v, rep) } else { session(sut, &v["case"], &v["exp"], rep) }
        // after a failure, start afresh
        if rep.fails.len() > before { if let Some(x) = s.take() { x.rt.shutdown_background(); let _ = std::fs::remove_file(&x.path); } }
    });
}

/// All clients leave, and the server notices.
fn leave(sut: &Sut, peers: Vec<Peer>, rep: &mut Rep) {
    CLOSED.store(false, SeqCst);
    drop(peers);
    let ok = until(5000, || sut.open() == sut.app.count("closed"));
    rep.check("end", ok, || "a connection was not closed within 5 s after its client left".into());
    sut.app.forget();
}

fn schedule(sut: &mut Sut, v: &Value, rep: &mut Rep) {
    let kind = text(&v["kind"]);
    let mut p = match sut.connect(kind, rep) { Some(p) => vec![p], None => return };
    // the transmitter goes to sleep
    std::thread::sleep(Duration::from_micros(if kind == "msg" { 150 } else { 20 }));
    TOKENS.store(0, SeqCst);
    CLOSED.store(true, SeqCst);
    for op in list(&v["ops"]) {
        if op[0] == "e" {
            let arrived = ARRIVED.load(SeqCst);
            let waiting = arrived > USED.load(SeqCst);
            sut.enqueue(&mut p, &[(0, num(&op[1]))], rep);
            if !waiting { until(1, || ARRIVED.load(SeqCst) > arrived); }
        } else {
            let (used, arrived) = (USED.load(SeqCst), ARRIVED.load(SeqCst));
            TOKENS.store(1, SeqCst);
            if until(5, || USED.load(SeqCst) > used) { until(1, || ARRIVED.load(SeqCst) > arrived); }
            TOKENS.store(0, SeqCst);
        }
    }
    CLOSED.store(false, SeqCst);
    let want: usize = list(&v["stream"]).iter().map(|r| num(&r[1])).sum();
    let t = Instant::now();
    while p[0].got.len() < want && t.elapsed() < Duration::from_secs(4) { if !p[0].read(usize::MAX) { std::thread::sleep(Duration::from_micros(20)); } }
    p[0].read(usize::MAX);
    compare(rep, &p[0], 0, &v["stream"]);
    leave(sut, p, rep);
}

/// Several connections; reading in pieces, in between.
fn session(sut: &mut Sut, case: &Value, exp: &Value, rep: &mut Rep) {
    let mut p = vec![];
    for kind in list(&case["kinds"]) {
        match sut.connect(text(kind), rep) { Some(x) => p.push(x), None => return }
    }
    for op in list(&case["ops"]) {
        match text(&op[0]) {
            "e" => {
                let all: Vec<usize> = if num(&op[2]) == 0 { (0..p.len()).collect() } else { vec![num(&op[2]) - 1] };
                let sizes: Vec<(usize, usize)> = all.iter().map(|&k| (k, num(&op[1]))).collect();
                sut.enqueue(&mut p, &sizes, rep);
            }
            "r" => { p[num(&op[2]) - 1].read(num(&op[1])); }
            "s" => std::thread::sleep(Duration::from_micros(num(&op[1]) as u64)),
            other => panic!("harness: op {}", other),
        }
        if !rep.fails.is_empty() { break; }
    }
    let want: Vec<usize> = list(exp).iter().map(|s| list(s).iter().map(|r| num(&r[1])).sum()).collect();
    let mut t = Instant::now();
    let mut r = 1u64;
    while (0..p.len()).any(|k| p[k].got.len() < want[k]) && t.elapsed() < Duration::from_secs(4) {
        let mut any = false;
        for (k, x) in p.iter_mut().enumerate() {
            r = crate::scn::mix(r + k as u64);
            let most = if case["slow"] == true { 1 + (r % 3000) as usize } else { usize::MAX };
            if x.got.len() < want[k] && x.read(most) { any = true; }
        }
        if any { t = Instant::now(); } else { std::thread::sleep(Duration::from_micros(50)); }
    }
    std::thread::sleep(Duration::from_micros(300));
    for (k, x) in p.iter_mut().enumerate() { x.read(usize::MAX); compare(rep, x, k, &exp[k]); }
    leave(sut, p, rep);
}
