//! Replays sessions on real `server::Connection`s driven by a minimal single-threaded Dispatch,
//! and compares every step with what the specification says (see spec/Server.tla).
use crate::app::*;
use crate::util::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use vt6::common::core::msg::EncodeMessage;
use vt6::server::*;

type Action = Box<dyn Fn(&mut Connection<TApp, Mock>) + Send + Sync>;
#[derive(Clone)]
pub struct Mock(Arc<Inner>);
pub struct Inner { app: TApp, out: Mutex<BTreeMap<usize, Vec<u8>>>, queue: Mutex<Vec<Action>> }
impl Dispatch<TApp> for Mock {
    type ConnectionID = usize;
    fn application(&self) -> &TApp { &self.0.app }
    fn enqueue_broadcast(&self, action: Action) { self.0.queue.lock().unwrap().push(action) }
    fn enqueue_message<M: EncodeMessage>(&self, conn: &mut Connection<TApp, Self>, msg: &M) {
        assert!(conn.state().can_receive_messages(), "enqueue_message() on a connection in state {}", conn.state().type_name());
        let mut buf = vec![0u8; 4072];
        match msg.encode(&mut buf) {
            Ok(n) => self.0.out.lock().unwrap().entry(conn.id()).or_default().extend_from_slice(&buf[..n]),
            Err(e) => {
                conn.set_state(ConnectionState::Teardown);
                let e = std::io::Error::new(std::io::ErrorKind::InvalidData, format!("{:?}", e.0));
                self.0.app.notify(&Notification::ConnectionIOError(e.into()));
            }
        }
    }
    fn enqueue_stdin(&self, conn: &mut Connection<TApp, Self>, buf: &[u8]) {
        assert!(conn.state().can_receive_stdin(), "enqueue_stdin() on a connection in state {}", conn.state().type_name());
        self.0.out.lock().unwrap().entry(conn.id()).or_default().extend_from_slice(buf);
    }
}
/// Received bytes and how many of them have been consumed.
#[derive(Default)]
pub struct Buf(Vec<u8>, usize);
impl Buf {
    pub fn push(&mut self, b: &[u8]) {
        if self.1 > 0 { self.0.drain(..self.1); self.1 = 0; }
        self.0.extend_from_slice(b);
    }
}
impl ReceiveBuffer for Buf {
    fn contents(&self) -> &[u8] { &self.0[self.1..] }
    fn discard(&mut self, len: usize) {
        assert!(len <= self.0.len() - self.1, "discarded {} of {} bytes", len, self.0.len() - self.1);
        self.1 += len;
    }
}

/// One step's observations, in the form of the specification's log.
#[derive(Default, Clone, Debug)]
pub struct Obs { pub input: Vec<Value>, pub errs: Vec<Value>, pub app: Vec<Value>, pub sout: Vec<(String, Vec<u8>)>, pub out: Vec<Vec<u8>>, pub ioerr: u64 }
impl Obs {
    fn add(&mut self, o: Obs) {
        self.input.extend(o.input);
        self.errs.extend(o.errs);
        self.app.extend(o.app);
        self.sout.extend(o.sout);
        for (a, b) in self.out.iter_mut().zip(o.out) { a.extend(b); }
        self.ioerr += o.ioerr;
    }
}

pub struct Sys { pub app: TApp, mock: Mock, conns: Vec<(Connection<TApp, Mock>, Buf)>, names: RefCell<Names> }
/// The specification calls issued secrets n0...1, n0...2 and so on; the library makes random ones.
#[derive(Default, Clone)]
pub struct Names(pub Vec<String>);
impl Names {
    pub fn learn(&mut self, app: &TApp) {
        app.with(|st| for e in &st.app {
            if e["k"] == "register" {
                let s = String::from_utf8(bytes(&e["s"])).unwrap();
                if !self.0.contains(&s) { self.0.push(s); }
            }
        });
    }
    pub fn to_real(&self, b: &[u8]) -> Vec<u8> { self.map(b, true) }
    pub fn to_spec(&self, b: &[u8]) -> Vec<u8> { self.map(b, false) }
    fn map(&self, b: &[u8], real: bool) -> Vec<u8> {
        let mut out = b.to_vec();
        for (i, s) in self.0.iter().enumerate() {
            let n = format!("n{:031}", i + 1);
            let (from, to) = if real { (&n, s) } else { (s, &n) };
            out = replace(&out, from.as_bytes(), to.as_bytes());
        }
        out
    }
}
pub fn replace(b: &[u8], from: &[u8], to: &[u8]) -> Vec<u8> {
    let (mut out, mut i) = (Vec::with_capacity(b.len()), 0);
    while i < b.len() {
        if b[i..].starts_with(from) { out.extend_from_slice(to); i += from.len(); } else { out.push(b[i]); i += 1; }
    }
    out
}

impl Sys {
    fn new(c: &Value) -> Sys {
        let app = TApp::from_case(c);
        Sys { app: app.clone(), mock: Mock(Arc::new(Inner { app, out: Default::default(), queue: Default::default() })), conns: vec![], names: Default::default() }
    }
    fn broadcasts(&mut self) {
        loop {
            let q = std::mem::take(&mut *self.mock.0.queue.lock().unwrap());
            if q.is_empty() { break; }
            for a in q { for (c, _) in self.conns.iter_mut() { a(c); } }
        }
    }
    fn collect(&mut self, c: usize) -> Obs {
        self.names.borrow_mut().learn(&self.app);
        let names = self.names.borrow();
        let n = self.conns.len();
        let mut o = self.app.with(|st| Obs {
            input: std::mem::take(&mut st.input), errs: std::mem::take(&mut st.errs), app: std::mem::take(&mut st.app),
            sout: std::mem::take(&mut st.sout), out: vec![], ioerr: std::mem::take(&mut st.ioerr),
        });
        for e in o.input.iter_mut() {
            e["c"] = json!(c);
            e.as_object_mut().unwrap().remove("who");
            if e["k"] == "msg" {
                let a: Vec<Value> = list(&e["args"]).iter().map(|x| arr(&names.to_spec(&bytes(x)))).collect();
                e["args"] = Value::Array(a);
            } else {
                e["b"] = arr(&names.to_spec(&bytes(&e["b"])));
            }
        }
        for e in o.app.iter_mut() {
            if e["s"].is_array() { e["s"] = arr(&names.to_spec(&bytes(&e["s"]))); }
        }
        let mut out = self.mock.0.out.lock().unwrap();
        o.out = (0..n).map(|i| names.to_spec(&out.remove(&i).unwrap_or_default())).collect();
        o
    }
    fn step(&mut self, st: &Value, cut: &dyn Fn(usize) -> Vec<usize>) -> Obs {
        match text(&st["k"]) {
            "open" => {
                let id = self.conns.len();
                self.conns.push((Connection::new(self.mock.clone(), id), Buf::default()));
                self.collect(0)
            }
            "close" => {
                let c = num(&st["c"]) - 1;
                self.conns[c].0.set_state(ConnectionState::Teardown);
                self.collect(c + 1)
            }
            "feed" => {
                let c = num(&st["c"]) - 1;
                        if self.state(c).0 == "down" { return self.collect(c + 1); }
                let b = self.names.borrow().to_real(&bytes(&st["b"]));
                let mut obs = Obs { out: vec![vec![]; self.conns.len()], ..Default::default() };
                let mut start = 0;
                let mut cuts = cut(b.len());
                cuts.push(b.len());
                for end in cuts {
                    if end < start || (end == start && end != b.len()) { continue; }
                    {
                        let (conn, buf) = &mut self.conns[c];
                        buf.push(&b[start..end]);
                        conn.handle_incoming(buf);
                    }
                    self.broadcasts();
                    obs.add(self.collect(c + 1));
                    start = end;
                }
                obs
            }
            other => panic!("harness: step {}", other),
        }
    }
    fn state(&self, c: usize) -> (&'static str, Vec<u8>) {
        match self.conns[c].0.state() {
            ConnectionState::Handshake => ("hs", vec![]),
            ConnectionState::Msgio(x) => ("msg", x.0.client_id().as_str().as_bytes().to_vec()),
            ConnectionState::Stdin(x) => ("in", x.screen_id().as_bytes().to_vec()),
            ConnectionState::Stdout(x) => ("out", x.0.screen_id().as_bytes().to_vec()),
            ConnectionState::Teardown => ("down", vec![]),
        }
    }
    fn registry(&self) -> Value {
        let names = self.names.borrow();
        let a = |s: &str| arr(s.as_bytes());
        self.app.with(|st| Value::Array(st.clients.iter().map(|c| json!({"id": a(&c.id), "secret": arr(&names.to_spec(c.secret.as_bytes())), "used": c.used,
            "sin": a(&c.sin), "sout": a(&c.sout), "serr": a(&c.serr)})).collect()))
    }
}

/// Brings a value printed by TLC into the same shape as ours (empty sequences and functions).
fn norm(v: &Value) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.iter().map(norm).collect()),
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), norm(v))).collect()),
        _ => v.clone(),
    }
}
pub fn values(v: &Value) -> Vec<Value> { list(v).iter().map(norm).collect() }
pub fn pretty(v: &[Value]) -> String {
    let f = |e: &Value| -> String {
        let mut s = String::from("{");
        if let Some(m) = e.as_object() {
            for (k, x) in m {
                match x {
                    Value::Array(a) if !a.is_empty() && a[0].is_number() => s.push_str(&format!("{}:{} ", k, show(&bytes(x)))),
                    Value::Array(a) if !a.is_empty() && a[0].is_array() => s.push_str(&format!("{}:{:?} ", k, a.iter().map(|y| show(&bytes(y))).collect::<Vec<_>>())),
                    _ => s.push_str(&format!("{}:{} ", k, x)),
                }
            }
        }
        s + "}"
    };
    v.iter().map(f).collect::<Vec<_>>().join(" ")
}

fn is_msg(e: &Value, ty: &[u8]) -> bool { e["k"] == "msg" && bytes(&e["ty"]) == ty }

/// The aspects a deviation at this step belongs to, given what the specification handles in it.
pub fn tags(base: &'static str, mode: &str, r: &Value) -> Vec<&'static str> {
    let mut t = vec![];
    if mode == "hs" || mode == "in" { t.push("hs"); }
    if mode == "hs" && base == "sout" { t.push("hs"); }
    if mode != "hs" || base == "input" || base == "sout" { t.push(base); }
    let input = list(&r["log"]["input"]);
    if input.iter().any(|e| is_msg(e, b"core1.client-make")) { t.push("make"); }
    if input.iter().any(|e| is_msg(e, b"core1.client-end")) { t.push("end"); }
    if t.is_empty() { t.push(base); }
    t.dedup();
    t
}

pub fn discarded(input: &[Value]) -> Vec<u8> {
    input.iter().filter(|e| e["k"] == "disc").flat_map(|e| bytes(&e["b"])).collect()
}
pub fn msgs(input: &[Value]) -> Vec<Value> {
    input.iter().filter(|e| e["k"] == "msg").cloned().collect()
}

pub fn session(c: &Value, e: &Value, rep: &mut Rep) {
    let steps = list(&c["steps"]);
    let rs = list(&e["rs"]);
    let first = steps.len() - rs.len();
    let mut sys = Sys::new(c);
    for (i, st) in steps.iter().enumerate() {
        let fed = if st["k"] == "feed" { num(&st["c"]) - 1 } else { 0 };
        let mode = if st["k"] == "feed" { sys.state(fed).0 } else { "" };
        let obs = sys.step(st, &|_| vec![]);
        if i < first { continue; }
        let r = &rs[i - first];
        let at = |what: &str| format!("step {} ({}): {}", i + 1, if st["k"] == "feed" { format!("connection {} in mode {} receives {}", fed + 1, mode, show(&bytes(&st["b"]))) } else { st.to_string() }, what);
        let mut bad = |base: &'static str, ok: bool, msg: String| {
            rep.checks += 1;
            if !ok { for t in tags(base, mode, r) { if rep.fails.len() < 12 { rep.fails.push((t, at(&msg))); } } }
        };
        let l = &r["log"];
        let want = values(&l["input"]);
        bad("input", obs.input == want, format!("handled {}, specification {}", pretty(&obs.input), pretty(&want)));
        let want = values(&l["errs"]);
        bad("input", obs.errs == want, format!("parse errors {}, specification {}", pretty(&obs.errs), pretty(&want)));
        let want = values(&l["app"]);
        bad("reply", obs.app == want, format!("application calls {}, specification {}", pretty(&obs.app), pretty(&want)));
        let want: Vec<(String, Vec<u8>)> = list(&l["sout"]).iter().map(|x| (String::from_utf8(bytes(&x["scr"])).unwrap(), bytes(&x["b"]))).collect();
        bad("sout", obs.sout == want, format!("standard output {:?}, specification {:?}", obs.sout, want));
        let want: Vec<Vec<u8>> = list(&l["out"]).iter().map(bytes).collect();
        for k in 0..want.len() {
            let got = obs.out.get(k).cloned().unwrap_or_default();
            bad("reply", got == want[k], format!("connection {} is sent {}, specification {}", k + 1, show(&got), show(&want[k])));
        }
        bad("reply", obs.ioerr == num(&l["ioerr"]) as u64, format!("{} I/O errors, specification {}", obs.ioerr, l["ioerr"]));
        for (k, want) in list(&r["conns"]).iter().enumerate() {
            let (m, id) = sys.state(k);
            bad("reply", m == text(&want["mode"]) && (m == "down" || id == bytes(&want["id"])), format!("connection {} is in mode {} as {}, specification: {} as {}", k + 1, m, show(&id), want["mode"], show(&bytes(&want["id"]))));
            if m != "down" && text(&want["mode"]) != "down" {
                let b = sys.names.borrow().to_spec(sys.conns[k].1.contents());
                bad("input", b == bytes(&want["buf"]), format!("connection {} keeps {}, specification {}", k + 1, show(&b), show(&bytes(&want["buf"]))));
            }
            if let ConnectionState::Msgio(x) = sys.conns[k].0.state() {
                // the connection carries the identity the application returned
                let own = |o: Option<&str>| o.unwrap_or("").to_string();
                let good = sys.app.with(|st| st.clients.iter().any(|c| c.id == x.0.client_id().as_str() && c.sin == own(x.0.stdin_screen_id()) && c.sout == own(x.0.stdout_screen_id()) && c.serr == own(x.0.stderr_screen_id())));
                bad("reply", good, format!("connection {} carries an identity that is not registered: {:?}", k + 1, x.0));
            }
        }
        let (got, want) = (sys.registry(), norm(&r["reg"]));
        bad("reply", list(&got) == list(&want), format!("registry {}, specification {}", pretty(list(&got)), pretty(list(&want))));
        let complaints = sys.app.with(|st| std::mem::take(&mut st.complaints));
        bad("reply", complaints.is_empty(), format!("{:?}", complaints));
        if !rep.fails.is_empty() { return; }
    }
    if rep.fails.is_empty() { rechunk(c, e, rep); }
}

/// The same stream, divided into reads differently, must have the same effects.
fn rechunk(c: &Value, e: &Value, rep: &mut Rep) {
    let steps = list(&c["steps"]);
    let rs = list(&e["rs"]);
    let first = steps.len() - rs.len();
    // broadcasts of the application's own run at the end of a read, so their place among the
    // replies does depend on the division
    let has = |b: &[u8], x: &[u8]| b.windows(x.len()).any(|w| w == x);
    let mut whole: BTreeMap<usize, Vec<u8>> = BTreeMap::new();
    for st in steps { if st["k"] == "feed" { whole.entry(num(&st["c"])).or_default().extend(bytes(&st["b"])); } }
    let cuttable = |st: &Value| st["k"] == "feed" && { let b = &whole[&num(&st["c"])]; !has(b, b"foo2.bcast") && !has(b, b"foo2.type") };
    let seed = steps.iter().map(|s| s["b"].as_array().map_or(1, |a| a.iter().map(|x| x.as_u64().unwrap_or(0)).sum::<u64>() + a.len() as u64)).fold(7u64, |a, x| a.wrapping_mul(31).wrapping_add(x));
    for variant in 0..4u64 {
        let cut = |len: usize| -> Vec<usize> {
            let mut x = seed.wrapping_mul(6364136223846793005).wrapping_add(variant * 1442695040888963407 + 1);
            let mut next = || { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (x >> 33) as usize };
            // (long input in fewer pieces)
            let w = 1 + len / 1000;
            match variant {
                _ if len >= 2000 => { let mut v = vec![]; let mut p = 0; while p < len { p += if variant == 0 { 512 * w } else { 1 + next() % (10 * w * variant as usize * variant as usize) }; v.push(p.min(len)); } v }
                0 => (1..len).collect(),
                1 => if len > 1 { vec![1 + next() % (len - 1)] } else { vec![] },
                2 => { let mut v: Vec<usize> = (0..len).filter(|_| next() % 3 == 0).collect(); v.sort(); v }
                _ => { let mut v = vec![]; let mut p = 0; while p < len { p += 1 + next() % 9; v.push(p.min(len)); } v }
            }
        };
        let mut sys = Sys::new(c);
        for (i, st) in steps.iter().enumerate() {
            let split = i >= first && cuttable(st);
            let obs = if split { sys.step(st, &cut) } else { sys.step(st, &|_| vec![]) };
            if !split { continue; }
            let r = &rs[i - first];
            let l = &r["log"];
            let fed = num(&st["c"]) - 1;
            let at = |what: String| format!("step {} divided into reads at {:?}: {}", i + 1, cut(bytes(&st["b"]).len()), what);
            let a = "chunk";
            let (g, w) = (msgs(&obs.input), msgs(&values(&l["input"])));
            rep.check(a, g == w, || at(format!("handled {}, specification {}", pretty(&g), pretty(&w))));
            let w = values(&l["app"]);
            rep.check(a, obs.app == w, || at(format!("application calls {}, specification {}", pretty(&obs.app), pretty(&w))));
            let (g, w): (Vec<u8>, Vec<u8>) = (sys.names.borrow().to_spec(&obs.sout.iter().flat_map(|x| x.1.clone()).collect::<Vec<u8>>()), list(&l["sout"]).iter().flat_map(|x| bytes(&x["b"])).collect());
            rep.check(a, g == w, || at(format!("standard output {}, specification {}", show(&g), show(&w))));
            for (k, w) in list(&l["out"]).iter().enumerate() {
                let g = obs.out.get(k).cloned().unwrap_or_default();
                rep.check(a, g == bytes(w), || at(format!("connection {} is sent {}, specification {}", k + 1, show(&g), show(&bytes(w)))));
            }
            for (k, w) in list(&r["conns"]).iter().enumerate() {
                let (m, id) = sys.state(k);
                rep.check(a, m == text(&w["mode"]) && (m == "down" || id == bytes(&w["id"])), || at(format!("connection {} is in mode {}, specification {}", k + 1, m, w["mode"])));
                if m != "down" && text(&w["mode"]) != "down" {
                    let b = sys.names.borrow().to_spec(sys.conns[k].1.contents());
                    rep.check(a, b == bytes(&w["buf"]), || at(format!("connection {} keeps {}, specification {}", k + 1, show(&b), show(&bytes(&w["buf"])))));
                }
            }
            if sys.state(fed).0 != "down" {
                // (a secret may be discarded in pieces)
                let (g, w) = (sys.names.borrow().to_spec(&discarded(&obs.input)), discarded(&values(&l["input"])));
                rep.check(a, g == w, || at(format!("discarded {}, specification {}", show(&g), show(&w))));
            }
            if !rep.fails.is_empty() { return; }
        }
    }
}

/// Many copies of an input unit.  Runs in a thread with the stack of a tokio worker.
fn flood(c: &Value, e: &Value, rep: &mut Rep) {
    if !flag(&e["rep"]) { return; }
    let (c2, e2) = (c.clone(), e.clone());
    let t = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
        let (c, e) = (c2, e2);
        let mut rep = Rep::default();
        let mut sys = Sys::new(&c);
        for st in list(&c["steps"]) { sys.step(st, &|_| vec![]); }
        let (k, n, unit) = (num(&c["c"]) - 1, num(&c["n"]), bytes(&c["unit"]));
        let all = unit.repeat(n);
        let size = num(&c["read"]).max(1);
        let step = json!({"k": "feed", "c": k + 1, "b": all});
        let start = std::time::Instant::now();
        let o = sys.step(&step, &|len| (1..).map(|i| i * size).take_while(|&x| x < len).collect());
        let took = start.elapsed();
        let r = &e["one"];
        let down = text(&list(&r["conns"])[k]["mode"]) == "down";
        let times = if down { 1 } else { n };
        let l = &r["log"];
        let at = |what: String| format!("{} copies of {} in reads of {}: {}", n, show(&unit), size, what);
        let (g, w) = (msgs(&o.input).len(), msgs(&values(&l["input"])).len() * times);
        rep.check("flood", g == w, || at(format!("{} messages handled, specification {}", g, w)));
        if !down {
            let (g, w) = (discarded(&o.input), bytes(&e["disc"]).repeat(times));
            rep.check("flood", g == w, || at(format!("{} bytes discarded, specification {}", g.len(), w.len())));
        }
        let (g, w): (Vec<u8>, Vec<u8>) = (o.sout.iter().flat_map(|x| x.1.clone()).collect(), list(&l["sout"]).iter().flat_map(|x| bytes(&x["b"])).collect::<Vec<u8>>().repeat(times));
        rep.check("flood", g == w, || at(format!("{} bytes of standard output, specification {}", g.len(), w.len())));
        for (i, w) in list(&l["out"]).iter().enumerate() {
            let (g, w) = (o.out.get(i).cloned().unwrap_or_default(), bytes(w).repeat(times));
            rep.check("flood", g == w, || at(format!("connection {} is sent {}, specification {}", i + 1, show(&g), show(&w))));
        }
        for (i, w) in list(&r["conns"]).iter().enumerate() {
            let m = sys.state(i).0;
            rep.check("flood", m == text(&w["mode"]), || at(format!("connection {} is in mode {}, specification {}", i + 1, m, w["mode"])));
        }
        rep.check("flood", took.as_secs() < 20, || at(format!("took {:?}", took)));
        (rep, last_panic())
    }).expect("harness: thread");
    match t.join() {
        Ok((r, _)) => { rep.fails.extend(r.fails); rep.checks += r.checks; }
        Err(_) => rep.fails.push(("panic", format!("flood: {}", LAST_PANIC_ANY.lock().map(|g| g.clone()).unwrap_or_default()))),
    }
}

pub fn run(v: &Value, rep: &mut Rep) {
    let (c, e) = (&v["case"], &v["exp"]);
    match text(&c["op"]) {
        "session" => session(c, e, rep),
        "flood" => flood(c, e, rep),
        other => panic!("harness: unknown op {}", other),
    }
}
