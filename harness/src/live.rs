//! Replays sessions and floods on the real tokio dispatch over real sockets.  What must happen is
//! the same as in server.rs (it comes from the same specification); how the bytes are divided into
//! reads is up to the sockets, and effects are awaited instead of returned.
use crate::app::*;
use crate::scn::mix;
use crate::server::{discarded, msgs, pretty, tags, values, Names};
use crate::util::*;
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::os::unix::net::UnixStream;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::OnceLock;
use std::time::{Duration, Instant};
use vt6::server::tokio::Dispatch;

const PATIENCE: Duration = Duration::from_secs(8);

/// The runtime the server of a case runs on: the library may not depend on how many threads there are.
fn rt(c: &Value) -> &'static ::tokio::runtime::Handle {
    static RT: [OnceLock<::tokio::runtime::Handle>; 3] = [OnceLock::new(), OnceLock::new(), OnceLock::new()];
    let k = c["rt"].as_u64().unwrap_or(0) as usize;
    RT[k].get_or_init(|| {
        use ::tokio::runtime::Builder;
        let r = match k { 0 => Builder::new_multi_thread().worker_threads(4).enable_all().build(), 1 => Builder::new_multi_thread().worker_threads(1).enable_all().build(), _ => Builder::new_current_thread().enable_all().build() };
        let r: &'static _ = Box::leak(Box::new(r.expect("harness: runtime")));
        if k == 2 { std::thread::spawn(move || r.block_on(std::future::pending::<()>())); }
        r.handle().clone()
    })
}

struct Client { s: Option<UnixStream>, got: Vec<u8>, want: Vec<u8>, eof: bool, down: bool }
impl Client {
    /// Reads what is there.  Returns whether there was anything.
    fn drain(&mut self) -> bool {
        let mut any = false;
        if self.eof { return false; }
        if let Some(s) = &mut self.s {
            let mut b = [0u8; 65536];
            loop {
                match s.read(&mut b) {
                    Ok(0) => { self.eof = true; return true; }
                    Ok(n) => { self.got.extend_from_slice(&b[..n]); any = true; }
                    Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => return any,
                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                    Err(_) => { self.eof = true; return true; }
                }
            }
        }
        false
    }
}
struct Live { extra: u64, app: TApp, d: Dispatch<TApp>, job: ::tokio::task::JoinHandle<std::io::Result<()>>, path: String, conns: Vec<Client>, names: Names, panics: u64 }

impl Live {
    fn new(c: &Value) -> Live {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let app = TApp::from_case(c);
        let dir = std::env::var("TMPDIR").unwrap_or_else(|_| "/tmp".into());
        let path = format!("{}/l{}-{}", dir, std::process::id(), N.fetch_add(1, SeqCst));
        let _g = rt(c).enter();
        let d = Dispatch::new(&path, app.clone()).expect("harness: Dispatch::new");
        let d2 = d.clone();
        let job = rt(c).spawn(async move { d2.run_listener().await });
        let until = Instant::now() + PATIENCE;
        while !std::path::Path::new(&path).exists() {
            assert!(Instant::now() < until, "the listener does not start");
            std::thread::sleep(Duration::from_micros(200));
        }
        Live { extra: 0, app, d, job, path, conns: vec![], names: Names::default(), panics: PANICS.load(SeqCst) }
    }
    /// Waits for a condition; clients keep reading.
    fn until(&mut self, mut ok: impl FnMut(&mut Live) -> Result<(), String>) -> Result<(), String> {
        let end = Instant::now() + PATIENCE;
        let mut naps = 0;
        loop {
            for c in self.conns.iter_mut() { c.drain(); }
            match ok(self) {
                Ok(()) => return Ok(()),
                Err(e) => if Instant::now() > end || (PANICS.load(SeqCst) > self.panics && naps > 400) { return Err(e) },
            }
            naps += 1;
            std::thread::sleep(Duration::from_micros(if naps < 50 { 60 } else { 500 }));
        }
    }
    fn connect(&mut self) -> Result<(), String> {
        let end = Instant::now() + PATIENCE;
        let s = loop {
            match UnixStream::connect(&self.path) {
                Ok(s) => break s,
                Err(e) => if Instant::now() > end { return Err(format!("connecting: {}", e)) },
            }
            std::thread::sleep(Duration::from_millis(1));
        };
        s.set_nonblocking(true).expect("harness: nonblocking");
        self.conns.push(Client { s: Some(s), got: vec![], want: vec![], eof: false, down: false });
        let n = self.conns.len() as u64 + self.extra;
        self.until(|l| { let o = l.app.with(|st| st.opened); if o == n { Ok(()) } else { Err(format!("{} connections opened, {} notified", n, o)) } })
    }
    /// Writes everything, reading in between.
    fn write(&mut self, c: usize, b: &[u8], cuts: &[usize]) -> Result<(), String> {
        let mut start = 0;
        for &end in cuts.iter().chain(std::iter::once(&b.len())) {
            let end = end.min(b.len());
            if end <= start && end != b.len() { continue; }
            let mut stuck = Instant::now();
            while start < end {
                let r = self.conns[c].s.as_mut().unwrap().write(&b[start..end]);
                match r {
                    Ok(n) => { start += n; stuck = Instant::now(); }
                    Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {
                        for x in self.conns.iter_mut() { x.drain(); }
                        if stuck.elapsed() > PATIENCE { return Err("the server does not read".into()); }
                        std::thread::sleep(Duration::from_micros(100));
                    }
                    Err(_) => return Ok(()), // closed by the server; whether it should is seen below
                }
            }
            if end < b.len() { std::thread::sleep(Duration::from_micros(150)); }
        }
        Ok(())
    }
    fn out(&self, k: usize) -> Vec<u8> { self.names.to_spec(&self.conns[k].got) }
    /// The end: everything is dismantled.
    fn finish(self) -> Result<(), String> {
        self.d.shutdown();
        let end = Instant::now() + PATIENCE;
        while !self.job.is_finished() {
            if Instant::now() > end { return Err("the listener does not end after shutdown()".into()); }
            std::thread::sleep(Duration::from_micros(200));
        }
        let n = self.conns.len() as u64 + self.extra;
        loop {
            let c = self.app.with(|st| st.closed);
            if c == n { break; }
            if Instant::now() > end { return Err(format!("{} connections opened, {} notified closed", n, c)); }
            std::thread::sleep(Duration::from_micros(200));
        }
        let _ = std::fs::remove_file(&self.path);
        Ok(())
    }
}

fn session(c: &Value, e: &Value, rep: &mut Rep) {
    let steps = list(&c["steps"]);
    let rs = list(&e["rs"]);
    let mut live = Live::new(c);
    let mut ioerr = 0;
    let seed = c["splits"].as_array().map_or(0, |a| a.iter().fold(3u64, |x, y| mix(x ^ y.as_u64().unwrap_or(0))));
    for (i, st) in steps.iter().enumerate() {
        let r = &rs[i];
        let l = &r["log"];
        // connections may be idle for long, and messages may take their time
        if let Some(p) = c["pause"].as_array() { if num(&p[0]) == i { std::thread::sleep(Duration::from_millis(num(&p[1]) as u64)); } }
        let fed = if st["k"] == "open" { 0 } else { num(&st["c"]) - 1 };
        let mode = if st["k"] != "feed" { String::new() } else if i == 0 { "hs".into() } else { text(&list(&rs[i - 1]["conns"])[fed]["mode"]).to_string() };
        let mut cut_at = vec![];
        let done: Result<(), String> = match text(&st["k"]) {
            "open" => live.connect(),
            "close" => { live.conns[fed].s = None; live.conns[fed].down = true; Ok(()) }
            _ => {
                if mode == "down" { continue; }
                let b = live.names.to_real(&bytes(&st["b"]));
                let h = mix(seed ^ i as u64);
                if h % 3 != 0 && b.len() > 1 {
                    cut_at = (0..1 + (h >> 8) % 3).map(|j| 1 + (mix(h ^ j) as usize) % (b.len() - 1)).collect();
                    cut_at.sort();
                }
                live.write(fed, &b, &cut_at)
            }
        };
        for (k, w) in list(&l["out"]).iter().enumerate() { live.conns[k].want.extend(bytes(w)); }
        for (k, w) in list(&r["conns"]).iter().enumerate() { if text(&w["mode"]) == "down" { live.conns[k].down = true; } }
        ioerr += num(&l["ioerr"]) as u64;
        let (want_msgs, want_app, want_disc) = (msgs(&values(&l["input"])), values(&l["app"]), discarded(&values(&l["input"])));
        let want_sout: Vec<u8> = list(&l["sout"]).iter().flat_map(|x| bytes(&x["b"])).collect();
        let down = st["k"] == "feed" && text(&list(&r["conns"])[fed]["mode"]) == "down";
        let mut base = "input";
        let done = done.and_then(|_| live.until(|l| {
            l.names.learn(&l.app);
            let (input, app, sout, io, closed, complaints) = l.app.with(|st| (st.input.clone(), st.app.clone(), st.sout.clone(), st.ioerr, st.closed, st.complaints.clone()));
            let mut m = msgs(&input);
            for e in m.iter_mut() {
                e["c"] = json!(fed + 1);
                e.as_object_mut().unwrap().remove("who");
                let a: Vec<Value> = list(&e["args"]).iter().map(|x| arr(&l.names.to_spec(&bytes(x)))).collect();
                e["args"] = Value::Array(a);
            }
            base = "input";
            if m != want_msgs { return Err(format!("handled {}, specification {}", pretty(&m), pretty(&want_msgs))); }
            let disc = l.names.to_spec(&discarded(&input));
            if !down && disc != want_disc { return Err(format!("discarded {}, specification {}", show(&disc), show(&want_disc))); }
            base = "reply";
            let mut a = app;
            for e in a.iter_mut() { if e["s"].is_array() { e["s"] = arr(&l.names.to_spec(&bytes(&e["s"]))); } }
            if a != want_app { return Err(format!("application calls {}, specification {}", pretty(&a), pretty(&want_app))); }
            if !complaints.is_empty() { return Err(format!("{:?}", complaints)); }
            if io != ioerr { return Err(format!("{} I/O errors so far, specification {}", io, ioerr)); }
            base = "sout";
            let g: Vec<u8> = sout.iter().flat_map(|x| x.1.clone()).collect();
            if g != want_sout { return Err(format!("standard output {}, specification {}", show(&g), show(&want_sout))); }
            base = "reply";
            for k in 0..l.conns.len() {
                let g = l.out(k);
                let x = &l.conns[k];
                let same = if x.down { x.want.starts_with(&g) } else { x.want == g };
                if !same && (x.s.is_some()) { return Err(format!("connection {} has received {}, specification {}{}", k + 1, show(&g), show(&x.want), if x.down { " (or less)" } else { "" })); }
                if x.down && x.s.is_some() && !x.eof { return Err(format!("connection {} does not see the end of the stream", k + 1)); }
                if !x.down && x.eof { return Err(format!("connection {} sees the end of the stream", k + 1)); }
            }
            let n = l.conns.iter().filter(|x| x.down).count() as u64;
            if closed != n { return Err(format!("{} connections notified closed, specification {}", closed, n)); }
            Ok(())
        }));
        rep.checks += 8;
        if let Err(msg) = done {
            let at = format!("step {} ({}): {}", i + 1, if st["k"] == "feed" { format!("connection {} in mode {} receives {} in pieces ending at {:?}", fed + 1, mode, show(&bytes(&st["b"])), cut_at) } else { st.to_string() }, msg);
            for t in tags(base, &mode, r) { rep.fails.push((t, at.clone())); }
            rep.fails.push(("live", at));
            break;
        }
        live.app.with(|st| { st.input.clear(); st.app.clear(); st.sout.clear(); });
    }
    panics(&live, rep);
    if rep.fails.is_empty() {
        if let Err(e) = live.finish() { rep.fails.push(("live", e)); }
    } else {
        // do not leave anything behind that could disturb the next case
        let _ = std::fs::remove_file(&live.path);
        live.job.abort();
    }
}

fn panics(live: &Live, rep: &mut Rep) {
    if PANICS.load(SeqCst) > live.panics { rep.fails.push(("panic", LAST_PANIC_ANY.lock().map(|g| g.clone()).unwrap_or_default())); }
}

/// Hostile input on one connection; others must be served meanwhile and afterwards.
fn flood(c: &Value, e: &Value, rep: &mut Rep) {
    let mut live = Live::new(c);
    if let Err(m) = flood_(&mut live, c, e, rep) { rep.fails.push(("live", m)); }
    panics(&live, rep);
    if rep.fails.is_empty() {
        if let Err(m) = live.finish() { rep.fails.push(("live", m)); }
    } else {
        let _ = std::fs::remove_file(&live.path);
        live.job.abort();
    }
}
fn flood_(live: &mut Live, c: &Value, e: &Value, rep: &mut Rep) -> Result<(), String> {
    for st in list(&c["steps"]) {
        match text(&st["k"]) {
            "open" => live.connect()?,
            _ => { let k = num(&st["c"]) - 1; live.write(k, &bytes(&st["b"]), &[])? }
        }
    }
    let k = num(&c["c"]) - 1;
    let (n, unit) = (num(&c["n"]), bytes(&c["unit"]));
    let mut all = bytes(&c["lead"]);
    all.extend(unit.repeat(n));
    let exact = flag(&e["rep"]);
    let what = format!("{} copies of {} after {}", n, show(&unit), show(&bytes(&c["lead"])));
    // the canary's greeting
    let greet = bytes(&e["greet"]);
    live.until(|l| if l.conns[1].got == greet { Ok(()) } else { Err(format!("connection 2 has received {}, specification {}", show(&l.conns[1].got), show(&greet))) })?;
    let start = live.conns[k].got.len();
    live.app.with(|st| { st.input.clear(); st.app.clear(); st.sout.clear(); });
    let (ask, answer) = (bytes(&e["ask"]), bytes(&e["answer"]));
    let deaf = c["deaf"].as_bool().unwrap_or(false);
    let size = num(&c["read"]).max(1);
    let mut sent = 0;
    let mut want2 = greet.clone();
    let mut pending: Option<Instant> = None;
    let mut asked = 0;
    let mut moved = Instant::now();
    let patience = Duration::from_secs(20);
    let mut slowest = Duration::ZERO;
    let mut fresh = 0;
    let mut served = 0;
    let mut stall = c["stall"].as_u64().unwrap_or(0);
    while sent < all.len() && !live.conns[k].eof {
        let mut did = false;
        let r = live.conns[k].s.as_mut().unwrap().write(&all[sent..(sent + size).min(all.len())]);
        match r {
            Ok(w) => { sent += w; did = true; moved = Instant::now(); }
            Err(x) if x.kind() == std::io::ErrorKind::WouldBlock => {}
            Err(_) => break,
        }
        if !deaf && live.conns[k].drain() { did = true; moved = Instant::now(); }
        live.conns[1].drain();
        let stalled = deaf && moved.elapsed() > Duration::from_millis(50);
        if !stalled { served = 0; }
        // the canary asks one question at a time
        match pending {
            // when the deaf client's connection stands still, it is the others that are of interest
            None => if asked < 200 || (stalled && asked < 400) {
                live.conns[1].s.as_mut().unwrap().write_all(&ask).map_err(|x| format!("{}: the other connection fails: {}", what, x))?;
                want2.extend(&answer);
                asked += 1;
                pending = Some(Instant::now());
            },
            Some(t) => {
                if live.conns[1].got.len() >= want2.len() || live.conns[1].eof {
                    if live.conns[1].got != want2 { return Err(format!("{}: the other connection receives {}, specification {}", what, show(&live.conns[1].got), show(&want2))); }
                    slowest = slowest.max(t.elapsed());
                    pending = None;
                    if stalled { served += 1; }
                } else if t.elapsed() > patience { return Err(format!("{}: the other connection gets no answer", what)); }
            }
        }
        if fresh == 0 && sent > all.len() / 2 { newcomer(live, e, 1)?; fresh = 1; }
        if !did {
            // a question asked after that has been answered
            if served > 1 || asked >= 400 {
                // (now and then it takes its time)
                if stall > 0 { std::thread::sleep(Duration::from_millis(stall)); stall = 0; moved = Instant::now(); }
                live.conns[k].drain();
            }
            if moved.elapsed() > patience { return Err(format!("{}: the server stopped reading after {} bytes", what, sent)); }
            std::thread::sleep(Duration::from_micros(50));
        }
    }
    if c["slam"].as_bool().unwrap_or(false) { live.conns[k].s = None; live.conns[k].down = true; }
    live.until(|l| if l.conns[1].got == want2 { Ok(()) } else { Err(format!("{}: the other connection has received {}, specification {}", what, show(&l.conns[1].got), show(&want2))) })?;
    rep.checks += asked as u64;
    newcomer(live, e, 2)?;
    live.conns[1].s.as_mut().unwrap().write_all(&ask).map_err(|x| format!("{}: the other connection fails: {}", what, x))?;
    want2.extend(&answer);
    live.until(|l| if l.conns[1].got == want2 { Ok(()) } else { Err(format!("{}: the other connection has received {}, specification {}", what, show(&l.conns[1].got), show(&want2))) })?;
    rep.checks += 3;
    if !exact || live.conns[k].s.is_none() { return Ok(()); }
    let r = &e["one"];
    let l = &r["log"];
    let down = text(&list(&r["conns"])[k]["mode"]) == "down";
    let times = if down { 1 } else { n };
    let wm = msgs(&values(&l["input"])).len() * times;
    let wd = bytes(&e["disc"]).repeat(times);
    let ws = list(&l["sout"]).iter().flat_map(|x| bytes(&x["b"])).collect::<Vec<u8>>().repeat(times);
    let wo = bytes(&list(&l["out"])[k]).repeat(times);
    let mut err = String::new();
    // the clone of a large log is slow: compare sizes first
    let ok = live.until(|lv| {
        let x = &lv.conns[k];
        if down != x.eof { return Err(format!("connection {} {}", k + 1, if down { "is not closed" } else { "is closed" })); }
        let g = &x.got[start..];
        if if down { !wo.starts_with(g) } else { g.len() != wo.len() || g != &wo[..] } { return Err(format!("connection {} has received {}, specification {}", k + 1, show(g), show(&wo))); }
        Ok(())
    });
    if let Err(m) = ok { err = m; }
    // messages of the canary and the newcomers are in the log as well
    let mine = asked + 1 + 1 + fresh;
    let ok = live.until(|lv| {
        let (g, d, s) = lv.app.with(|st| (msgs_len(&st.input), disc(&st.input), st.sout.iter().map(|x| x.1.len()).sum::<usize>()));
        if g != wm + mine { return Err(format!("{} messages handled, specification {}", g, wm + mine)); }
        if !down && d != wd { return Err(format!("{} bytes discarded, specification {}", d.len(), wd.len())); }
        if s != ws.len() { return Err(format!("{} bytes of standard output, specification {}", s, ws.len())); }
        Ok(())
    });
    if let Err(m) = ok { if err.is_empty() { err = m; } }
    rep.checks += 4;
    if !err.is_empty() { return Err(format!("{}: {}", what, err)); }
    Ok(())
}
fn msgs_len(v: &[Value]) -> usize { v.iter().filter(|e| e["k"] == "msg").count() }
fn disc(v: &[Value]) -> Vec<u8> { discarded(v) }

/// A new connection is accepted and served.
fn newcomer(live: &mut Live, e: &Value, i: usize) -> Result<(), String> {
    let f = &list(&e["fresh"])[i - 1];
    let (hello, greet) = (bytes(&f["hello"]), bytes(&f["greet"]));
    let s = UnixStream::connect(&live.path).map_err(|x| format!("no new connections: {}", x))?;
    s.set_nonblocking(true).expect("harness: nonblocking");
    live.conns.push(Client { s: Some(s), got: vec![], want: vec![], eof: false, down: false });
    let k = live.conns.len() - 1;
    live.conns[k].s.as_mut().unwrap().write_all(&hello).map_err(|x| format!("a new connection fails: {}", x))?;
    let end = Instant::now() + Duration::from_secs(20);
    loop {
        live.conns[k].drain();
        live.conns[1].drain();
        if live.conns[k].got == greet { return Ok(()); }
        if Instant::now() > end || live.conns[k].eof { return Err(format!("a new connection is greeted with {}, specification {}", show(&live.conns[k].got), show(&greet))); }
        std::thread::sleep(Duration::from_micros(200));
    }
}

/// Messages of megabytes have the effects of shorter ones, and do not keep others waiting.
fn long(c: &Value, e: &Value, rep: &mut Rep) {
    let mut live = Live::new(c);
    if let Err(m) = long_(&mut live, c, e, rep) { rep.fails.push(("live", m)); }
    panics(&live, rep);
    if rep.fails.is_empty() {
        if let Err(m) = live.finish() { rep.fails.push(("live", m)); }
    } else {
        let _ = std::fs::remove_file(&live.path);
        live.job.abort();
    }
}
fn long_(live: &mut Live, c: &Value, e: &Value, rep: &mut Rep) -> Result<(), String> {
    for st in list(&c["steps"]) {
        match text(&st["k"]) {
            "open" => live.connect()?,
            _ => { let k = num(&st["c"]) - 1; live.write(k, &bytes(&st["b"]), &[])? }
        }
    }
    let ask = bytes(&e["ask"]);
    let answers: Vec<Vec<u8>> = list(&e["answer"]).iter().map(bytes).collect();
    let mut want: Vec<Vec<u8>> = list(&e["greet"]).iter().map(bytes).collect();
    fn same(live: &mut Live, want: &[Vec<u8>], what: &str) -> Result<(), String> {
        live.until(|l| {
            for k in 0..want.len() {
                let g = l.out(k);
                if g != want[k] { return Err(format!("{}: connection {} has received {}, specification {}", what, k + 1, show(&g), show(&want[k]))); }
                if l.conns[k].eof { return Err(format!("{}: connection {} is closed", what, k + 1)); }
            }
            Ok(())
        })
    }
    same(live, &want, "at first")?;
    for (i, (m, got)) in list(&c["longs"]).iter().zip(list(&e["got"])).enumerate() {
        let args: Vec<Vec<u8>> = list(&m["args"]).iter().map(|a| if bytes(a) == b"\0?\0" { bytes(&m["fill"]).repeat(num(&m["n"])) } else { bytes(a) }).collect();
        let mut b = format!("{{{}|", args.len()).into_bytes();
        for a in &args { b.extend(format!("{}:", a.len()).bytes()); b.extend(a); b.push(b','); }
        b.push(b'}');
        let what = format!("message {}, {} bytes, {}...", i + 1, b.len(), show(&b[..b.len().min(60)]));
        // in the middle of it, others are served
        let half = b.len() / 2;
        live.write(1, &b[..half], &[])?;
        live.write(2, &ask, &[])?;
        want[2].extend(&answers[1]);
        same(live, &want, &format!("half of {}", what))?;
        live.write(1, &b[half..], &[])?;
        want[1].extend(bytes(got));
        live.write(1, &ask, &[])?;
        want[1].extend(&answers[0]);
        same(live, &want, &what)?;
        rep.checks += 2;
    }
    Ok(())
}

/// Connections come and go in large numbers; some stay.  The others do not notice.
fn churn(c: &Value, e: &Value, rep: &mut Rep) {
    let mut live = Live::new(c);
    if let Err(m) = churn_(&mut live, c, e, rep) { rep.fails.push(("churn", m)); }
    panics(&live, rep);
    if rep.fails.is_empty() {
        if let Err(m) = live.finish() { rep.fails.push(("churn", m)); }
    } else {
        let _ = std::fs::remove_file(&live.path);
        live.job.abort();
    }
}
fn arrive(path: &str) -> Result<UnixStream, String> {
    // a connect() that waits for the server could wait forever
    use std::os::fd::FromRawFd;
    let end = Instant::now() + PATIENCE;
    unsafe {
        let fd = libc::socket(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_NONBLOCK | libc::SOCK_CLOEXEC, 0);
        assert!(fd >= 0, "harness: socket");
        let s = UnixStream::from_raw_fd(fd);
        let mut a: libc::sockaddr_un = std::mem::zeroed();
        a.sun_family = libc::AF_UNIX as u16;
        for (i, b) in path.bytes().enumerate() { a.sun_path[i] = b as libc::c_char; }
        loop {
            if libc::connect(fd, &a as *const _ as *const libc::sockaddr, std::mem::size_of_val(&a) as u32) == 0 { return Ok(s); }
            let x = std::io::Error::last_os_error();
            if x.kind() != std::io::ErrorKind::WouldBlock || Instant::now() > end { return Err(format!("no new connections: {}", x)); }
            std::thread::sleep(Duration::from_micros(50));
        }
    }
}
fn churn_(live: &mut Live, c: &Value, e: &Value, rep: &mut Rep) -> Result<(), String> {
    for st in list(&c["steps"]) {
        match text(&st["k"]) {
            "open" => live.connect()?,
            _ => { let k = num(&st["c"]) - 1; live.write(k, &bytes(&st["b"]), &[])? }
        }
    }
    let (n, hold) = (num(&c["n"]), num(&c["hold"]));
    let (ask, answer) = (bytes(&e["ask"]), bytes(&e["answer"]));
    let mut want2 = bytes(&e["greet"]);
    let ways: Vec<(Vec<u8>, Vec<u8>)> = list(&c["kinds"]).iter().zip(list(&e["got"])).map(|(k, g)| (bytes(k), bytes(g))).collect();
    let fresh = list(&e["fresh"]).len();
    let mut held: Vec<UnixStream> = vec![];
    let mut greeted = 0;
    let mut ok = |live: &mut Live, i: usize, held: &mut Vec<UnixStream>| -> Result<(), String> {
        live.conns[1].s.as_mut().unwrap().write_all(&ask).map_err(|x| format!("after {} connections: an old connection fails: {}", i, x))?;
        want2.extend(&answer);
        live.until(|l| {
            if l.conns[1].got != want2 { return Err(format!("after {} connections: an old connection has received {}, specification {}", i, show(&l.conns[1].got), show(&want2))); }
            if let Some(k) = (0..l.conns.len()).find(|&k| l.conns[k].eof) { return Err(format!("after {} connections: old connection {} is closed", i, k + 1)); }
            Ok(())
        })?;
        let mut b = [0u8; 64];
        for (k, s) in held.iter_mut().enumerate() {
            match s.read(&mut b) {
                Err(x) if x.kind() == std::io::ErrorKind::WouldBlock => {}
                r => return Err(format!("after {} connections: the silent connection {} receives {:?}", i, k + 1, r.map(|n| b[..n].to_vec()))),
            }
        }
        rep.checks += 2;
        Ok(())
    };
    for i in 0..n {
        let mut s = arrive(&live.path)?;
        live.extra += 1;
        let h = mix(i as u64 ^ c["seed"].as_u64().unwrap_or(0));
        let (b, g) = &ways[if h % 4 == 0 { (h >> 8) as usize % ways.len() } else { 0 }];
        if !b.is_empty() { let _ = s.write_all(b); }
        if h % 64 == 1 || (!g.is_empty() && h % 8 == 0) {
            // what it receives is what is specified, or it is closed before
            let end = Instant::now() + PATIENCE;
            let mut got = vec![];
            let mut x = [0u8; 4096];
            while got.len() < g.len() {
                match s.read(&mut x) {
                    Ok(0) => break,
                    Ok(k) => got.extend_from_slice(&x[..k]),
                    Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => if Instant::now() > end { break } else { std::thread::sleep(Duration::from_micros(50)) },
                    Err(_) => break,
                }
            }
            if got != *g { return Err(format!("connection {} sends {} and receives {}, specification {}", i, show(b), show(&got), show(g))); }
        }
        if b.is_empty() && held.len() < hold && h % 3 == 0 { held.push(s); }
        if (i + 1) % (n / 60 + 1) == 0 || i + 1 == n { ok(live, i + 1, &mut held)?; }
        if greeted < fresh && i >= (greeted + 1) * n / (fresh + 1) { newcomer(live, e, greeted + 1)?; greeted += 1; }
    }
    while greeted < fresh { newcomer(live, e, greeted + 1)?; greeted += 1; }
    ok(live, n, &mut held)?;
    // those that stayed silent are still welcome
    let (bad, got) = ways.last().unwrap();
    for s in held.iter_mut().rev().take(3) {
        let _ = s.write_all(bad);
        let _ = got;
    }
    let want = live.extra + live.conns.len() as u64;
    let gone = want - live.conns.len() as u64 - held.len() as u64;
    let lower = held.len().min(3) as u64;
    live.until(|l| {
        let (o, c) = l.app.with(|st| (st.opened, st.closed));
        if o != want { return Err(format!("{} connections came, {} notified", want, o)); }
        if c < gone || c > gone + lower { return Err(format!("{} connections went, {} notified closed", gone, c)); }
        Ok(())
    })?;
    ok(live, n, &mut vec![])?;
    Ok(())
}

/// Several inputs at the same time, on different connections.
fn race(c: &Value, e: &Value, rep: &mut Rep) {
    let mut live = Live::new(c);
    if let Err(m) = race_(&mut live, c, e, rep) { rep.fails.push(("race", m)); }
    panics(&live, rep);
    if rep.fails.is_empty() {
        if let Err(m) = live.finish() { rep.fails.push(("race", m)); }
    } else {
        let _ = std::fs::remove_file(&live.path);
        live.job.abort();
    }
}
/// Whether what the connections have seen, and the registry, are as given.
fn as_said(l: &mut Live, outs: &[Vec<u8>], modes: &[bool], reg: &Value) -> Result<(), String> {
    l.names.learn(&l.app);
    let have: Vec<Value> = l.app.with(|st| st.clients.iter().map(|x| json!({"id": arr(x.id.as_bytes()), "used": x.used})).collect());
    let want: Vec<Value> = list(reg).iter().map(|x| json!({"id": x["id"], "used": x["used"]})).collect();
    if have != want { return Err(format!("clients registered are {}, specification {}", pretty(&have), pretty(&want))); }
    for k in 0..l.conns.len() {
        let g = l.out(k);
        let x = &l.conns[k];
        let (want, down) = (&outs[k], modes[k]);
        if !(if down { want.starts_with(&g) } else { *want == g }) { return Err(format!("connection {} has received {}, specification {}{}", k + 1, show(&g), show(want), if down { " (or less)" } else { "" })); }
        if down != x.eof { return Err(format!("connection {} is {}closed", k + 1, if x.eof { "" } else { "not " })); }
    }
    Ok(())
}
pub fn sends(r: &Value) -> Vec<u8> { list(&r["ms"]).iter().flat_map(bytes).collect() }
fn down(m: &Value) -> bool { text(m) == "down" }
fn race_(live: &mut Live, c: &Value, e: &Value, rep: &mut Rep) -> Result<(), String> {
    let rs = list(&e["rs"]);
    let mut outs: Vec<Vec<u8>> = vec![];
    for (i, st) in list(&c["steps"]).iter().enumerate() {
        match text(&st["k"]) {
            "open" => { live.connect()?; outs.push(vec![]); }
            _ => { let k = num(&st["c"]) - 1; let b = live.names.to_real(&bytes(&st["b"])); live.write(k, &b, &[])? }
        }
        for (k, w) in list(&rs[i]["log"]["out"]).iter().enumerate() { outs[k].extend(bytes(w)); }
        let modes: Vec<bool> = list(&rs[i]["conns"]).iter().map(|x| down(&x["mode"])).collect();
        live.until(|l| as_said(l, &outs, &modes, &rs[i]["reg"])).map_err(|m| format!("step {}: {}", i + 1, m))?;
        rep.checks += 1;
    }
    live.app.with(|st| st.slow_us = c["slow"].as_u64().unwrap_or(0));
    let racers = list(&c["race"]);
    let barrier = std::sync::Arc::new(std::sync::Barrier::new(racers.len()));
    let jobs: Vec<_> = racers.iter().enumerate().map(|(i, r)| {
        let s = live.conns[num(&r["c"]) - 1].s.as_ref().unwrap().try_clone().expect("harness: clone");
        let b = live.names.to_real(&sends(r));
        let (barrier, after) = (barrier.clone(), list(&c["after"]).get(i).map_or(0, |x| num(x)));
        std::thread::spawn(move || {
            let mut s = s;
            barrier.wait();
            if after > 0 { std::thread::sleep(Duration::from_micros(after as u64)); }
            let _ = s.write_all(&b);
        })
    }).collect();
    for j in jobs { j.join().expect("harness: racer"); }
    let all: Vec<(Vec<Vec<u8>>, Vec<bool>, &Value)> = list(&e["all"]).iter().map(|o| {
        let v: Vec<Vec<u8>> = list(&o["out"]).iter().enumerate().map(|(k, x)| { let mut w = outs[k].clone(); w.extend(bytes(x)); w }).collect();
        (v, list(&o["mode"]).iter().map(down).collect(), &o["reg"])
    }).collect();
    let what = racers.iter().map(|r| format!("connection {} sends {}", r["c"], show(&sends(r)))).collect::<Vec<_>>().join(", ");
    let mut check = |l: &mut Live| {
        let mut why = vec![];
        for (o, m, r) in &all {
            match as_said(l, o, m, r) { Ok(()) => return Ok(()), Err(x) => why.push(x) }
        }
        Err(format!("at once {}: no order of these explains what happens: {}", what, why.join("; or ")))
    };
    live.until(&mut check)?;
    // nothing comes later
    std::thread::sleep(Duration::from_millis(2));
    for x in live.conns.iter_mut() { x.drain(); }
    check(live)?;
    rep.checks += 2;
    live.app.with(|st| st.slow_us = 0);
    Ok(())
}

pub fn run(v: &Value, rep: &mut Rep) {
    let (c, e) = (&v["case"], &v["exp"]);
    match text(&c["op"]) {
        "session" => session(c, e, rep),
        "flood" => flood(c, e, rep),
        "churn" => churn(c, e, rep),
        "race" => race(c, e, rep),
        "long" => long(c, e, rep),
        other => panic!("harness: unknown op {}", other),
    }
}
