//! Runs scenarios on the real tokio dispatch over real sockets, with several threads and with
//! delays injected at lock operations, and prints the recorded history of each run.  The histories
//! are judged by the specification (spec/TracePool.tla), not here.
use crate::app::{MsgConn, Raw};
use crate::util::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::unix::net::UnixStream;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vt6::common::core::msg::*;
use vt6::common::core::*;
use vt6::server::tokio::Dispatch;
use vt6::server::*;

// -- delays at lock operations ------------------------------------------------------------------
static COUNT: AtomicU64 = AtomicU64::new(0);
static TARGET: AtomicU64 = AtomicU64::new(u64::MAX);
static MICROS: AtomicU64 = AtomicU64::new(0);
static SEED: AtomicU64 = AtomicU64::new(0);
static PERMILLE: AtomicU64 = AtomicU64::new(0);
/// Threads that sleep because we told them to.
static NAPS: AtomicU64 = AtomicU64::new(0);
fn nap(us: u64) {
    NAPS.fetch_add(1, SeqCst);
    std::thread::sleep(Duration::from_micros(us));
    NAPS.fetch_sub(1, SeqCst);
}
/// If every thread with this name is blocked: how often they have been switched out so far.
fn blocked(name: &str) -> Option<u64> {
    let mut sum = 0;
    if NAPS.load(SeqCst) > 0 { return None; }
    for t in std::fs::read_dir("/proc/self/task").ok()? {
        let t = t.ok()?.path();
        let s = std::fs::read_to_string(t.join("status")).unwrap_or_default();
        let get = |k: &str| s.lines().find(|l| l.starts_with(k)).map(|l| l[k.len()..].trim().to_string()).unwrap_or_default();
        if get("Name:") != name { continue; }
        if !get("State:").starts_with('S') { return None; }
        sum += get("voluntary_ctxt_switches:").parse().unwrap_or(0) + get("nonvoluntary_ctxt_switches:").parse().unwrap_or(0);
    }
    if NAPS.load(SeqCst) > 0 { return None; }
    Some(sum)
}
pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}
fn hook(e: vt6::verif::Event) {
    if let vt6::verif::Event::Before(..) = e { point(); }
}
/// A place where a run may be delayed.
fn point() {
    {
        let n = COUNT.fetch_add(1, SeqCst);
        if n == TARGET.load(SeqCst) {
            nap(MICROS.load(SeqCst));
        } else {
            let p = PERMILLE.load(SeqCst);
            if p > 0 {
                let h = mix(SEED.load(SeqCst) ^ n);
                if h % 1000 < p { nap((h >> 20) % (MICROS.load(SeqCst) + 1)); }
            }
        }
    }
}

// -- the application ------------------------------------------------------------------------------
#[derive(Default)]
pub struct Inner {
    log: Mutex<Vec<Value>>,
    kinds: BTreeMap<u64, Value>,
    onopen: Mutex<Vec<u64>>,
    onclose: Mutex<Vec<u64>>,
    nested: Mutex<BTreeSet<u64>>,
    home: Mutex<Option<Dispatch<SApp>>>,
}
#[derive(Clone, Default)]
pub struct SApp(Arc<Inner>);
impl SApp {
    fn log(&self, v: Value) {
        match self.0.log.lock() { Ok(mut g) => g.push(v), Err(e) => e.into_inner().push(v) }
    }
    pub fn count(&self, k: &str) -> usize { self.0.log.lock().unwrap_or_else(|e| e.into_inner()).iter().filter(|e| e["k"] == k).count() }
    /// Has this client completed its handshake?
    pub fn has(&self, who: &str) -> bool {
        let g = self.0.log.lock().unwrap_or_else(|e| e.into_inner());
        let c = g.iter().find(|e| e["k"] == "hS" && e["who"] == who).map(|e| e["c"].clone());
        c.map_or(false, |c| g.iter().any(|e| e["k"] == "hE" && e["c"] == c))
    }
    pub fn forget(&self) { self.0.log.lock().unwrap_or_else(|e| e.into_inner()).clear(); }
    /// Registers broadcast b from wherever we are.
    fn register<D: vt6::server::Dispatch<SApp>>(&self, d: &D, b: u64) {
        let app = self.clone();
        self.log(json!({"k": "regS", "b": b}));
        d.enqueue_broadcast(Box::new(move |c| app.act(b, c)));
        self.log(json!({"k": "regE", "b": b}));
    }
    fn act<D: vt6::server::Dispatch<SApp>>(&self, b: u64, conn: &mut Connection<SApp, D>) {
        let c = cid(conn);
        self.log(json!({"k": "exec", "b": b, "c": c}));
        let kind = self.0.kinds.get(&b).cloned().unwrap_or(json!(["nop"]));
        match text(&kind[0]) {
            "note" => self.send(conn, b, 0),
            "kill" => {
                let hit = match conn.state() {
                    ConnectionState::Msgio(x) => x.0.client_id().as_str() == format!("k{}", kind[1]),
                    ConnectionState::Stdin(x) => x.screen_id() == format!("k{}", kind[1]),
                    _ => false,
                };
                if hit { self.quit(conn); }
            }
            "killall" => self.quit(conn),
            "nest" => if self.0.nested.lock().unwrap().insert(b) {
                for x in &list(&kind)[1..] { self.register(&conn.dispatch(), x.as_u64().unwrap()); }
            },
            "slow" => nap(kind[1].as_u64().unwrap()),
            _ => {}
        }
    }
    fn send<D: vt6::server::Dispatch<SApp>>(&self, conn: &mut Connection<SApp, D>, v: u64, pad: usize) {
        let c = cid(conn);
        match conn.state() {
            ConnectionState::Msgio(_) => {
                self.log(json!({"k": "enq", "c": c, "v": v}));
                conn.enqueue_message(&Raw("x1.v", &[v.to_string().as_bytes(), &vec![b'p'; pad]][..if pad > 0 { 2 } else { 1 }]));
            }
            ConnectionState::Stdin(_) => {
                self.log(json!({"k": "enq", "c": c, "v": v}));
                conn.enqueue_stdin(format!("{};", v).as_bytes());
            }
            _ => {}
        }
    }
    fn quit<D: vt6::server::Dispatch<SApp>>(&self, conn: &mut Connection<SApp, D>) {
        self.log(json!({"k": "down", "c": cid(conn)}));
        conn.set_state(ConnectionState::Teardown);
    }
}
/// Connection IDs of the tokio dispatch are u64, but a generic handler does not know that.
pub fn cid<A: Application, D: vt6::server::Dispatch<A>>(conn: &Connection<A, D>) -> i64 {
    let id = conn.id();
    assert_eq!(std::mem::size_of_val(&id), 8, "harness: connection ID");
    let n: u64 = unsafe { std::mem::transmute_copy(&id) };
    n as i64
}
#[derive(Debug)]
pub struct Out;
impl StdoutConnector for Out {
    fn new(_: ScreenIdentity) -> Self { Out }
    fn receive(&mut self, _: &[u8]) {}
}
impl Application for SApp {
    type MessageConnector = MsgConn;
    type StdoutConnector = Out;
    type MessageHandler = vt6::server::core::MessageHandler<Do<RejectHandler>>;
    type HandshakeHandler = Hs<vt6::server::core::HandshakeHandler<RejectHandler>>;
    fn notify(&self, n: &Notification) {
        let (ev, l) = match n {
            Notification::ConnectionOpened => ("open", &self.0.onopen),
            Notification::ConnectionClosed => ("closed", &self.0.onclose),
            _ => return,
        };
        point();
        self.log(json!({"k": ev}));
        let b = l.lock().unwrap().pop();
        if let Some(b) = b {
            let d = self.0.home.lock().unwrap().clone();
            if let Some(d) = d { self.register(&d, b); }
        }
    }
    fn register_client(&self, _: ClientIdentity) -> ClientCredentials { ClientCredentials::generate() }
    fn unregister_clients(&self, _: ClientSelector) {}
    fn has_clients(&self, _: ClientSelector) -> bool { false }
    fn authorize_client(&self, secret: &str) -> Option<ClientIdentity> {
        if secret.starts_with('k') { ClientID::parse(secret).map(|i| ClientIdentity::new(&i)) } else { None }
    }
    fn find_client(&self, _: ClientID<'_>) -> Option<ClientIdentity> { None }
    fn authorize_stdin(&self, secret: &str) -> Option<ScreenIdentity> { Some(ScreenIdentity::new(secret)) }
    fn authorize_stdout(&self, secret: &str) -> Option<ScreenIdentity> { Some(ScreenIdentity::new(secret)) }
}
#[derive(Default)]
pub struct Hs<N>(N);
impl<N: HandshakeHandler<SApp>> Handler<SApp> for Hs<N> {
    fn handle<D: vt6::server::Dispatch<SApp>>(&self, msg: &Message, conn: &mut Connection<SApp, D>) -> Result<(), HandlerError> {
        let d = conn.dispatch();
        let app = d.application();
        let k = msg.arguments().next().map(|a| String::from_utf8_lossy(a).to_string()).unwrap_or_default();
        let c = cid(conn);
        app.log(json!({"k": "hS", "c": c, "who": k}));
        let r = self.0.handle(msg, conn);
        app.log(json!({"k": "hE", "c": c}));
        r
    }
    fn handle_error<D: vt6::server::Dispatch<SApp>>(&self, err: &ParseError, conn: &mut Connection<SApp, D>) { self.0.handle_error(err, conn) }
}
impl<N: HandshakeHandler<SApp>> HandshakeHandler<SApp> for Hs<N> {}
#[derive(Default)]
pub struct Do<N>(N);
impl<N: MessageHandler<SApp>> Handler<SApp> for Do<N> {
    fn handle<D: vt6::server::Dispatch<SApp>>(&self, msg: &Message, conn: &mut Connection<SApp, D>) -> Result<(), HandlerError> {
        if msg.parsed_type().as_str() != "x1.do" { return self.0.handle(msg, conn); }
        let d = conn.dispatch();
        let app = d.application();
        let c = cid(conn);
        app.log(json!({"k": "hS", "c": c}));
        for a in msg.arguments() {
            let a = std::str::from_utf8(a).unwrap();
            let n = || a[2..].parse::<u64>().unwrap();
            match &a[..1] {
                "e" => app.send(conn, n(), 0),
                // a lot at once: 20 kB each
                "f" => for i in 0..20 { app.send(conn, n() + i, 985) },
                "b" => app.register(&d, n()),
                "s" => nap(n()),
                "q" => app.quit(conn),
                _ => {}
            }
        }
        app.log(json!({"k": "hE", "c": c}));
        Ok(())
    }
    fn handle_error<D: vt6::server::Dispatch<SApp>>(&self, err: &ParseError, conn: &mut Connection<SApp, D>) { self.0.handle_error(err, conn) }
}
impl<N: MessageHandler<SApp>> MessageHandler<SApp> for Do<N> {
    fn get_supported_module_version(&self, m: &ModuleIdentifier<'_>) -> Option<u16> { self.0.get_supported_module_version(m) }
}
impl<N: MessageHandler<SApp>> vt6::server::core::MessageHandlerExt<SApp> for Do<N> {}

// -- clients ----------------------------------------------------------------------------------------
#[derive(Default)]
struct Client { sock: Option<UnixStream>, deaf: bool, stdin: bool, got: Vec<u8>, eof: bool, hup: bool, connected: bool }
impl Client {
    fn poll(&mut self) -> bool {
        let mut progress = false;
        if let Some(s) = self.sock.as_mut() {
            if self.eof { return false; }
            if self.deaf {
                // does not read, but notices the end of the stream
                use std::os::unix::io::AsRawFd;
                let mut p = libc::pollfd { fd: s.as_raw_fd(), events: libc::POLLRDHUP, revents: 0 };
                unsafe { libc::poll(&mut p, 1, 0) };
                if p.revents & (libc::POLLRDHUP | libc::POLLHUP) == 0 { return false; }
            }
            let mut b = [0u8; 4096];
            loop {
                match s.read(&mut b) {
                    Ok(0) => { self.eof = true; return true; }
                    Ok(n) => { self.got.extend_from_slice(&b[..n]); progress = true; }
                    Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => return progress,
                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                    Err(_) => { self.eof = true; return true; }
                }
            }
        }
        false
    }
    /// The values received; an incomplete or unexpected rest counts as value -1 if the connection is open.
    fn values(&self) -> Vec<i64> {
        let mut out = vec![];
        let mut b = &self.got[..];
        if self.stdin {
            while let Some(p) = b.iter().position(|&x| x == b';') {
                out.push(std::str::from_utf8(&b[..p]).ok().and_then(|s| s.parse().ok()).unwrap_or(-1));
                b = &b[p + 1..];
            }
        } else {
            while let Ok((m, n)) = Message::parse(b) {
                if m.parsed_type().as_str() == "x1.v" {
                    let a = m.arguments().next().unwrap_or(b"");
                    out.push(std::str::from_utf8(a).ok().and_then(|s| s.parse().ok()).unwrap_or(-1));
                } else if m.parsed_type().as_str() != "posix1.server-hello" || !out.is_empty() { out.push(-1); }
                b = &b[n..];
            }
        }
        if !b.is_empty() && !self.eof { out.push(-1); }
        out
    }
}

struct World { app: SApp, d: Dispatch<SApp>, path: String, clients: Vec<Mutex<Client>>, listener: Mutex<Option<Result<(), String>>>, sink: u64, slow: u64, name: String }
impl World {
    fn client(&self, k: usize) -> std::sync::MutexGuard<'_, Client> { self.clients[k].lock().unwrap_or_else(|e| e.into_inner()) }
    fn write(&self, k: usize, b: &[u8]) {
        let s = self.client(k).sock.as_ref().and_then(|s| s.try_clone().ok());
        if let Some(mut s) = s { let _ = s.write_all(b); }
    }
    fn op(&self, o: &Value) {
        let k = || num(&o[1]);
        match text(&o[0]) {
            "conn" => for i in 0.. {
                if let Ok(s) = UnixStream::connect(&self.path) {
                    s.set_nonblocking(true).unwrap();
                    let mut c = self.client(k());
                    c.sock = Some(s);
                    c.connected = true;
                    break;
                }
                // the listener may not be there yet, or not any more
                if i > 20000 || self.listener.lock().unwrap().is_some() || (i > 20 && self.log().iter().any(|e| e["k"] == "shut")) { break; }
                std::thread::sleep(Duration::from_micros(100));
            },
            "hello" => self.write(k(), item("posix1.client-hello", &[&format!("k{}", k())]).as_slice()),
            "hellos" => { self.client(k()).stdin = true; self.write(k(), item("posix1.stdin-hello", &[&format!("k{}", k())]).as_slice()) }
            "do" => { let a: Vec<&str> = list(o)[2..].iter().map(text).collect(); self.write(k(), &item("x1.do", &a)) }
            "deaf" => self.client(k()).deaf = true,
            "raw" => self.write(k(), text(&o[2]).as_bytes()),
            // input that ends the connection
            "bad" | "hup" | "rst" if !self.client(k()).connected => {}
            "bad" => { self.client(k()).hup = true; self.app.log(json!({"k": "hup", "who": format!("k{}", k())})); self.write(k(), b"{1|2:no,}") }
            // a client that leaves; with "rst", without having read everything
            "hup" | "rst" => {
                self.app.log(json!({"k": "hup", "who": format!("k{}", k())}));
                let mut c = self.client(k());
                if o[0] == "hup" { c.poll(); }
                c.hup = true;
                c.sock = None;
            }
            "reg" => self.app.register(&self.d, o[1].as_u64().unwrap()),
            "shut" => { self.app.log(json!({"k": "shut"})); self.d.shutdown(); }
            "sleep" => std::thread::sleep(Duration::from_micros(o[1].as_u64().unwrap())),
            "wait" => { self.settle(); }
            // only until so many connections have been accepted
            "opened" => { let n = num(&o[1]); self.until(5000, || self.log().iter().filter(|e| e["k"] == "open").count() >= n); }
            other => panic!("harness: op {}", other),
        }
    }
    fn log(&self) -> Vec<Value> { self.app.0.log.lock().unwrap_or_else(|e| e.into_inner()).clone() }
    fn until(&self, ms: u64, f: impl Fn() -> bool) -> bool {
        let t = Instant::now();
        loop {
            if f() { return true; }
            if t.elapsed() > Duration::from_millis(ms) { return false; }
            std::thread::sleep(Duration::from_micros(200));
        }
    }
    /// Is there anything left to happen?  If not, for how many milliseconds must nothing happen until
    /// the run is over?  This only decides how long to wait; the specification judges.
    fn pending(&self) -> Option<u64> {
        let log = self.log();
        let count = |k: &str| log.iter().filter(|e| e["k"] == k).count();
        let who = identities(&log);
        let shut = count("shut") > 0;
        let (opened, closed) = (count("open"), count("closed"));
        if shut { if self.listener.lock().unwrap().is_none() || opened != closed { return None; } }
        // broadcasts registered while something was open, never executed (perhaps because it is closed now)
        let (mut o, mut cl, mut unseen) = (0, 0, false);
        for e in &log {
            match text(&e["k"]) {
                "open" => o += 1,
                "closed" => cl += 1,
                "regS" => if o > cl && opened > closed && !log.iter().any(|x| x["k"] == "exec" && x["b"] == e["b"]) { unseen = true; },
                _ => {}
            }
        }
        let down: BTreeSet<i64> = log.iter().filter(|e| e["k"] == "down").map(|e| e["c"].as_i64().unwrap()).collect();
        // connections that will be closed: identified ones, and at least / at most so many others
        let known: BTreeSet<i64> = who.values().copied().collect();
        let other = down.iter().filter(|c| !known.contains(c)).count();
        let mut ended = down.len() - other;
        let mut unknown = 0;
        let mut sockets = 0;
        for k in 0..self.clients.len() {
            let mut c = self.client(k);
            c.poll();
            if !c.connected { continue; }
            sockets += 1;
            let id = who.get(&format!("k{}", k)).copied();
            let is_down = id.map_or(false, |i| down.contains(&i));
            if c.deaf && !is_down && !shut { c.deaf = false; }
            if c.hup && !is_down { if id.is_some() { ended += 1; } else { unknown += 1; } }
            if (c.hup || is_down || shut) && c.sock.is_some() && !c.eof { return None; }
            if let Some(id) = id {
                if !c.hup && !is_down && !shut {
                    let want: Vec<i64> = log.iter().filter(|e| e["k"] == "enq" && e["c"] == id).map(|e| e["v"].as_i64().unwrap()).collect();
                    if c.values() != want { return None; }
                    if !c.stdin && c.got.is_empty() { return None; }
                }
            }
        }
        if opened < sockets && !shut { return None; }
        if !shut && closed < ended + unknown.max(other) { return None; }
        // something may have been sent but not handled yet, or ambiguous
        if unseen { if closed == 0 { return None; } else { return Some(60); } }
        if unknown > 0 && other > 0 { return Some(100); }
        let handled = log.iter().filter(|e| e["k"] == "hS").count() as u64;
        if handled < self.sink && !shut { if ended + unknown + other == 0 { return None; } else { return Some(10 + self.slow / 300); } }
        Some(2 + self.slow / 1000)
    }
    /// Waits until nothing is left to happen: all threads of the server are blocked, and the
    /// connections' other ends have read everything.
    fn settle(&self) -> bool {
        let (start, mut t) = (Instant::now(), Instant::now());
        let mut calm: Option<Instant> = None;
        let mut last = None;
        loop {
            let n = self.log().len();
            let still = blocked(&self.name);
            let ms = self.pending();
            let now = (self.log().len(), blocked(&self.name));
            let same = now.0 == n && (now.1 == still && Some(now) == last);
            if last.map_or(false, |l: (usize, Option<u64>)| l.0 != now.0) { t = Instant::now(); }
            last = Some(now);
            match if same { ms } else { None } {
                Some(ms) => match calm {
                    None => calm = Some(Instant::now()),
                    // (threads that never block: go by the time without an event)
                    Some(x) if x.elapsed() > Duration::from_millis(if still.is_some() { ms } else { 2000 + ms }) => return true,
                    _ => {}
                },
                None => calm = None,
            }
            if t.elapsed() > Duration::from_secs(8) || start.elapsed() > Duration::from_secs(30) { return false; }
            std::thread::sleep(Duration::from_micros(100));
        }
    }
}
pub fn item(ty: &str, args: &[&str]) -> Vec<u8> {
    let mut s = format!("{{{}|{}:{},", args.len() + 1, ty.len(), ty);
    for a in args { s += &format!("{}:{},", a.len(), a); }
    (s + "}").into_bytes()
}
fn identities(log: &[Value]) -> BTreeMap<String, i64> {
    log.iter().filter(|e| e["k"] == "hS" && e["who"].is_string()).map(|e| (text(&e["who"]).to_string(), e["c"].as_i64().unwrap())).collect()
}

static RUN: AtomicU64 = AtomicU64::new(0);
/// One run; returns the history and whether the system came to rest.
fn once(case: &Value, dir: &str) -> (Vec<Value>, bool, u64) {
    let panics = PANICS.load(SeqCst);
    let path = format!("{}/s{}", dir, RUN.fetch_add(1, SeqCst));
    let kinds = case["kinds"].as_object().map(|m| m.iter().map(|(k, v)| (k.parse().unwrap(), v.clone())).collect()).unwrap_or_default();
    let nums = |v: &Value| Mutex::new(list(v).iter().rev().map(|x| x.as_u64().unwrap()).collect::<Vec<u64>>());
    let app = SApp(Arc::new(Inner { kinds, onopen: nums(&case["onopen"]), onclose: nums(&case["onclose"]), ..Default::default() }));
    let name = format!("w{}", RUN.load(SeqCst));
    let rt = ::tokio::runtime::Builder::new_multi_thread().thread_name(&name).worker_threads(3).enable_all().build().expect("harness: runtime");
    let d = Dispatch::new(&path, app.clone()).expect("harness: Dispatch::new");
    *app.0.home.lock().unwrap() = Some(d.clone());
    let clients = num(&case["clients"]);
    let sink = list(&case["threads"]).iter().chain(std::iter::once(&case["setup"])).flat_map(|t| list(t)).filter(|o| ["hello", "hellos", "do"].contains(&text(&o[0]))).count() as u64;
    let w = Arc::new(World { app: app.clone(), d: d.clone(), path: path.clone(), clients: (0..clients).map(|_| Mutex::new(Client::default())).collect(), listener: Mutex::new(None), sink, slow: case["delay"]["us"].as_u64().unwrap_or(0), name });
    let early = case["early"] == true;
    TARGET.store(u64::MAX, SeqCst);
    PERMILLE.store(0, SeqCst);
    if early { arm(case); for o in list(&case["first"]) { w.op(o); } }
    {
        let w2 = w.clone();
        rt.spawn(async move {
            let r = w2.d.run_listener().await;
            let ok = r.is_ok();
            let sock = std::path::Path::new(&w2.path).exists();
            w2.app.log(json!({"k": "stopped", "ok": ok, "sock": sock}));
            *w2.listener.lock().unwrap() = Some(r.map_err(|e| e.to_string()));
        });
    }
    w.until(5000, || std::path::Path::new(&path).exists() || w.listener.lock().unwrap().is_some());
    let setup: Vec<Value> = list(&case["setup"]).clone();
    let nconn = setup.iter().filter(|o| o[0] == "conn").count();
    let mut seen = 0;
    for o in &setup {
        w.op(o);
        if o[0] == "conn" {
            seen += 1;
            if !early { w.until(5000, || w.log().iter().filter(|e| e["k"] == "open").count() >= seen); }
        }
        if (o[0] == "hello" || o[0] == "hellos") && !early {
            let k = format!("k{}", o[1]);
            w.until(5000, || identities(&w.log()).contains_key(&k));
        }
    }
    let _ = nconn;
    if !early { arm(case); }
    let ts: Vec<_> = list(&case["threads"]).iter().cloned().map(|ops| {
        let w = w.clone();
        std::thread::spawn(move || for o in list(&ops) { w.op(o); })
    }).collect();
    // a deadlocked thread must not take us with it
    let t = Instant::now();
    while !ts.iter().all(|t| t.is_finished()) && t.elapsed() < Duration::from_secs(12) { std::thread::sleep(Duration::from_micros(100)); }
    let stuck = !ts.iter().all(|t| t.is_finished());
    let rest = !stuck && w.settle();
    let ops = COUNT.load(SeqCst);
    TARGET.store(u64::MAX, SeqCst);
    PERMILLE.store(0, SeqCst);
    let (mut log, open, state) = loop {
        let still = blocked(&w.name);
        let log = w.log();
        let mut open = 0;
        let mut state = vec![];
        for k in 0..clients {
            let mut c = w.client(k);
            c.poll();
            if c.connected && c.sock.is_some() && !c.eof { open += 1; }
            state.push((format!("k{}", k), c.values()));
        }
        // a snapshot only if nothing has moved meanwhile
        if !rest || (w.log().len() == log.len() && w.pending().is_some() && blocked(&w.name) == still) || !w.settle() { break (log, open, state); }
    };
    let who = identities(&log);
    let known: BTreeSet<i64> = who.values().copied().collect();
    let may: BTreeSet<i64> = log.iter().filter_map(|e| e["c"].as_i64()).filter(|c| !known.contains(c)).collect();
    for e in log.iter_mut() {
        if e["k"] == "hup" {
            e["c"] = json!(who.get(text(&e["who"])).copied().unwrap_or(-1));
            if e["c"] == -1 { e["may"] = json!(may); }
        }
        if let Some(m) = e.as_object_mut() { m.remove("who"); }
    }
    if stuck { log.push(json!({"k": "stuck"})); }
    if PANICS.load(SeqCst) != panics { log.push(json!({"k": "panic"})); }
    let recv: Vec<Value> = state.iter().filter_map(|(k, v)| who.get(k).map(|id| json!({"k": "recv", "c": id, "v": v}))).collect();
    log.push(json!({"k": "quietb"}));
    log.push(json!({"k": "quietc", "open": open}));
    log.push(json!({"k": "quiets"}));
    if rest && matches!(*w.listener.lock().unwrap(), Some(Ok(()))) {
        log.push(json!({"k": "again", "ok": again(&rt, &path)}));
    }
    log.extend(recv);
    drop(w);
    *app.0.home.lock().unwrap() = None;
    if rest { drop(d); rt.shutdown_timeout(Duration::from_millis(200)); } else { rt.shutdown_background(); }
    let _ = std::fs::remove_file(&path);
    (log, rest, ops)
}
/// Can a new server be started where one has ended, does it serve, and end?
fn again(rt: &::tokio::runtime::Runtime, path: &str) -> bool {
    let app = SApp(Arc::new(Inner::default()));
    let d = Dispatch::new(path, app.clone()).expect("harness: Dispatch::new");
    *app.0.home.lock().unwrap() = Some(d.clone());
    let done = Arc::new(Mutex::new(None));
    let (done2, d2) = (done.clone(), d.clone());
    rt.spawn(async move { let r = d2.run_listener().await.is_ok(); *done2.lock().unwrap() = Some(r); });
    let t = Instant::now();
    let mut served = false;
    while !served && t.elapsed() < Duration::from_secs(8) && done.lock().unwrap().is_none() {
        if let Ok(mut s) = UnixStream::connect(path) {
            s.set_read_timeout(Some(Duration::from_secs(8))).unwrap();
            let _ = s.write_all(&item("posix1.client-hello", &["k0"]));
            let (mut got, mut b) = (vec![], [0u8; 512]);
            while let Ok(n) = s.read(&mut b) {
                got.extend_from_slice(&b[..n]);
                served = matches!(Message::parse(&got), Ok((ref m, _)) if m.parsed_type().as_str() == "posix1.server-hello");
                if served || n == 0 { break; }
            }
        } else { std::thread::sleep(Duration::from_micros(100)); }
    }
    d.shutdown();
    while t.elapsed() < Duration::from_secs(16) && done.lock().unwrap().is_none() { std::thread::sleep(Duration::from_micros(100)); }
    *app.0.home.lock().unwrap() = None;
    let ended = *done.lock().unwrap() == Some(true);
    served && ended && !std::path::Path::new(path).exists()
}
fn arm(case: &Value) {
    let d = &case["delay"];
    COUNT.store(0, SeqCst);
    MICROS.store(d["us"].as_u64().unwrap_or(0), SeqCst);
    SEED.store(d["seed"].as_u64().unwrap_or(0), SeqCst);
    PERMILLE.store(d["permille"].as_u64().unwrap_or(0), SeqCst);
    TARGET.store(d["at"].as_u64().unwrap_or(u64::MAX), SeqCst);
}

/// Reads scenarios, runs each under all single delays (and some random ones), prints histories.
pub fn main() {
    quiet_panics();
    vt6::verif::set_hook(hook);
    let dir = std::env::var("TMPDIR").unwrap_or_else(|_| "/tmp".into()) + &format!("/scn{}", std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let mut bad = 0;
    let mut runs = 0u64;
    let budget = Duration::from_secs(std::env::var("VERIF_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(100000));
    let start = Instant::now();
    let mut out_of_time = false;
    for line in std::io::stdin().lines() {
        let line = line.unwrap();
        let mut case: Value = serde_json::from_str(&line).expect("harness: case");
        let sweep = case["sweep"].clone();
        let mut delays = vec![json!({})];
        if !sweep.is_null() {
            let (_, _, n) = once(&case, &dir);
            let step = num(&sweep["step"]).max(1);
            let mut i = num(&sweep["from"]);
            while i < n as usize + 4 { delays.push(json!({"at": i, "us": sweep["us"]})); i += step; }
            for s in 0..num(&sweep["random"]) {
                delays.push(json!({"seed": mix(case["seed"].as_u64().unwrap_or(0) ^ s as u64) >> 1, "permille": 150, "us": 1500}));
            }
        }
        for d in delays {
            if start.elapsed() > budget { out_of_time = true; break; }
            case["delay"] = d;
            progress(&case.to_string());
            let (ev, rest, n) = once(&case, &dir);
            runs += 1;
            println!("{}", json!({"run": {"case": case, "ev": ev, "rest": rest, "ops": n}}));
            if !rest { bad += 1; if bad >= 6 { break; } }
        }
        if bad >= 6 || out_of_time { break; }
    }
    let _ = std::fs::remove_dir_all(&dir);
    println!("{}", json!({"summary": {"cases": runs, "checks": 0, "fails": 0, "bad": bad, "out_of_time": out_of_time}}));
    std::process::exit(0);
}
