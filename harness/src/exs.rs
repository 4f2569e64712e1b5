//! Replays sessions and races on the example server, a process of its own, over its socket.  What
//! must happen comes from the same specification as in server.rs.
use crate::live::sends;
use crate::scn::mix;
use crate::server::replace;
use crate::util::*;
use serde_json::Value;
use std::io::{BufRead, BufReader, Read, Write};
use std::os::unix::io::AsRawFd;
use std::os::unix::net::UnixStream;
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const PATIENCE: Duration = Duration::from_secs(8);
const LINE: &[u8] = b"Hello stdin.\n";

#[derive(PartialEq, Clone, Copy)]
enum Mode { Hs, Msg, In, Out, Down }
fn mode(v: &Value) -> Mode {
    match text(v) { "hs" => Mode::Hs, "msg" => Mode::Msg, "in" => Mode::In, "out" => Mode::Out, _ => Mode::Down }
}
struct Client { s: Option<UnixStream>, got: Vec<u8>, want: Vec<u8>, eof: bool, mode: Mode, ticks: usize, since: Instant }

struct Ex { child: Child, dir: String, path: String, conns: Vec<Client>, map: Vec<(Vec<u8>, Vec<u8>)>, stdout: Arc<Mutex<String>>, stderr: Arc<Mutex<String>>, pace: Duration }

fn collect(r: impl Read + Send + 'static) -> Arc<Mutex<String>> {
    let out = Arc::new(Mutex::new(String::new()));
    let o = out.clone();
    std::thread::spawn(move || {
        let mut r = BufReader::new(r);
        let mut l = vec![];
        while let Ok(n) = r.read_until(b'\n', &mut l) {
            if n == 0 { break; }
            o.lock().unwrap().push_str(&String::from_utf8_lossy(&l));
            l.clear();
        }
    });
    out
}
fn is_secret(b: &[u8]) -> bool { b.len() == 32 && b.iter().all(|&c| c.is_ascii_alphanumeric() || c == b'-' || c == b'_') }
/// The secret in the hello message of the given kind in the server's output.
fn announced(out: &str, kind: &str) -> Option<Vec<u8>> {
    let key = format!("posix1.{}-hello,32:", kind);
    let i = out.find(&key)? + key.len();
    let s = out.as_bytes().get(i..i + 32)?;
    if is_secret(s) && out.as_bytes().get(i + 32) == Some(&b',') { Some(s.to_vec()) } else { None }
}

impl Ex {
    fn spawn(xdg: Option<&str>) -> (Child, Arc<Mutex<String>>, Arc<Mutex<String>>) {
        let bin = std::env::var("VERIF_EXSERVER").expect("harness: VERIF_EXSERVER");
        let mut c = Command::new(bin);
        c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).env_remove("XDG_RUNTIME_DIR");
        if let Some(x) = xdg { c.env("XDG_RUNTIME_DIR", x); }
        // not to be left behind
        unsafe { use std::os::unix::process::CommandExt; c.pre_exec(|| { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); Ok(()) }); }
        let mut child = c.spawn().expect("harness: example server");
        let (o, e) = (collect(child.stdout.take().unwrap()), collect(child.stderr.take().unwrap()));
        (child, o, e)
    }
    fn new(c: &Value, pace: Duration) -> Result<Ex, String> {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let dir = format!("{}/x{}-{}", std::env::var("TMPDIR").unwrap_or_else(|_| "/tmp".into()), std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::SeqCst));
        std::fs::create_dir(&dir).expect("harness: scratch directory");
        let (child, stdout, stderr) = Ex::spawn(Some(&dir));
        let path = format!("{}/vt6/{}", dir, child.id());
        let mut x = Ex { child, dir, path, conns: vec![], map: vec![], stdout, stderr, pace };
        let until = Instant::now() + PATIENCE;
        let found = loop {
            let out = x.stdout.lock().unwrap().clone();
            let f = (announced(&out, "client"), announced(&out, "stdin"), announced(&out, "stdout"));
            if let (Some(a), Some(b), Some(o)) = f { if std::path::Path::new(&x.path).exists() { break (a, b, o); } }
            if let Ok(Some(s)) = x.child.try_wait() { return Err(format!("the server ends with {} on start: {}", s, x.stderr.lock().unwrap())); }
            if Instant::now() > until { return Err(format!("the server does not announce its secrets and serve at vt6/PID; its output is {:?}", out)); }
            std::thread::sleep(Duration::from_millis(1));
        };
        let (cl, sc) = (&list(&c["clients"])[0], &list(&c["screens"])[0]);
        x.map = vec![(bytes(&cl["secret"]), found.0), (bytes(&sc["isec"]), found.1), (bytes(&sc["osec"]), found.2)];
        // names for what is almost a secret: the other case, without the first or last letter, backwards
        for (name, real) in x.map.clone() {
            let word: Vec<u8> = name.iter().cloned().take_while(|c| *c != b'.').collect();
            let mut add = |n: &str, v: Vec<u8>| {
                let mut k = word.clone();
                k.extend_from_slice(n.as_bytes());
                k.resize(v.len(), b'.');
                if v != real { x.map.push((k, v)); }
            };
            add("-swap", real.iter().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect());
            add("-lower", real.to_ascii_lowercase());
            add("-init", real[..real.len() - 1].to_vec());
            add("-tail", real[1..].to_vec());
            add("-back", real.iter().rev().cloned().collect());
        }
        Ok(x)
    }
    fn to_real(&self, b: &[u8]) -> Vec<u8> { self.map.iter().fold(b.to_vec(), |x, (s, r)| replace(&x, s, r)) }
    fn to_spec(&self, b: &[u8]) -> Vec<u8> { self.map.iter().fold(b.to_vec(), |x, (s, r)| replace(&x, r, s)) }
    /// Compares; a secret of the specification that is not known yet may be any well-formed new one.
    fn matches(&mut self, want: &[u8], got: &[u8], learn: bool) -> bool {
        let mut map = self.map.clone();
        let ok = (|| {
            let got = self.to_spec(got);
            if want.len() != got.len() { return false; }
            let mut i = 0;
            while i < want.len() {
                if want[i..].starts_with(b"n00000000000000000000") && want.len() >= i + 32 && want[i..i + 32] != got[i..i + 32] {
                    let (n, s) = (want[i..i + 32].to_vec(), got[i..i + 32].to_vec());
                    if !is_secret(&s) || map.iter().any(|(x, y)| *x == n || *y == s) { return false; }
                    map.push((n, s));
                    i += 32;
                } else {
                    if want[i] != got[i] { return false; }
                    i += 1;
                }
            }
            true
        })();
        if ok && learn { self.map = map; }
        ok
    }
    fn connect(&mut self) -> Result<(), String> {
        // (the path is there from bind on, connections are taken from listen on)
        let until = Instant::now() + Duration::from_secs(3);
        let s = loop {
            match UnixStream::connect(&self.path) {
                Err(e) if e.kind() == std::io::ErrorKind::ConnectionRefused && Instant::now() < until => std::thread::sleep(Duration::from_millis(1)),
                r => break r.map_err(|e| format!("connecting: {}", e))?,
            }
        };
        s.set_nonblocking(true).expect("harness: nonblocking");
        self.conns.push(Client { s: Some(s), got: vec![], want: vec![], eof: false, mode: Mode::Hs, ticks: 0, since: Instant::now() });
        Ok(())
    }
    fn drain(&mut self) {
        for c in self.conns.iter_mut() {
            if c.eof { continue; }
            let mut b = [0u8; 65536];
            while let Some(s) = &mut c.s {
                match s.read(&mut b) {
                    Ok(0) => { c.eof = true; break; }
                    Ok(n) => c.got.extend_from_slice(&b[..n]),
                    Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => break,
                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                    Err(_) => { c.eof = true; break; }
                }
            }
        }
    }
    /// Waits until the server has read everything.
    fn quiet(&mut self, k: usize) {
        let until = Instant::now() + PATIENCE;
        if let Some(s) = &self.conns[k].s {
            let fd = s.as_raw_fd();
            loop {
                let mut n: libc::c_int = 0;
                if unsafe { libc::ioctl(fd, libc::TIOCOUTQ, &mut n) } != 0 || n == 0 || Instant::now() > until { break; }
                std::thread::sleep(Duration::from_micros(100));
            }
        }
        std::thread::sleep(self.pace);
    }
    fn write(&mut self, k: usize, b: &[u8], cuts: &[usize]) {
        let mut start = 0;
        for &end in cuts.iter().chain(std::iter::once(&b.len())) {
            let end = end.min(b.len());
            let until = Instant::now() + PATIENCE;
            while start < end && Instant::now() < until {
                match self.conns[k].s.as_mut().unwrap().write(&b[start..end]) {
                    Ok(n) => start += n,
                    Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => { self.drain(); std::thread::sleep(Duration::from_micros(200)); }
                    Err(_) => return,
                }
            }
            if end < b.len() { std::thread::sleep(self.pace / 4); }
        }
    }
    fn until(&mut self, mut ok: impl FnMut(&mut Ex) -> Result<(), String>) -> Result<(), String> {
        let end = Instant::now() + PATIENCE;
        let mut naps = 0;
        loop {
            self.drain();
            match ok(self) {
                Ok(()) => return Ok(()),
                Err(e) => {
                    if let Ok(Some(s)) = self.child.try_wait() { return Err(format!("the server has ended with {}: {}", s, self.stderr.lock().unwrap())); }
                    if Instant::now() > end { return Err(e); }
                }
            }
            naps += 1;
            std::thread::sleep(Duration::from_micros(if naps < 50 { 80 } else { 1000 }));
        }
    }
    fn state(&mut self, outs: &[Vec<u8>], modes: &[Mode], learn: bool) -> Result<(), String> {
        for k in 0..self.conns.len() {
            let (got, eof, gone) = (self.conns[k].got.clone(), self.conns[k].eof, self.conns[k].s.is_none());
            let (want, m) = (&outs[k], modes[k]);
            if gone { continue; }
            if m == Mode::In || (m == Mode::Down && self.conns[k].mode == Mode::In) {
                let max = self.conns[k].since.elapsed().as_secs() as usize + 1;
                if m == Mode::In { self.conns[k].mode = Mode::In; }
                let n = got.len() / LINE.len();
                if got.len() % LINE.len() != 0 || got != LINE.repeat(n) { return Err(format!("the standard input connection {} has received {}", k + 1, show(&got))); }
                if n > max { return Err(format!("the standard input connection {} has received {} lines in {} s", k + 1, n, max - 1)); }
                self.conns[k].ticks = n;
                if (m == Mode::Down) != eof { return Err(format!("the standard input connection {} is {}closed", k + 1, if eof { "" } else { "not " })); }
                continue;
            }
            let same = if m == Mode::Down { got.len() <= want.len() && self.matches(&want[..got.len()], &got, false) } else { self.matches(want, &got, learn) };
            if !same {
                let g = self.to_spec(&got);
                return Err(format!("connection {} has received {}, specification {}{}", k + 1, show(&g), show(want), if m == Mode::Down { " (or less)" } else { "" }));
            }
            if (m == Mode::Down) != eof { return Err(format!("connection {} is {}closed", k + 1, if eof { "" } else { "not " })); }
        }
        Ok(())
    }
    /// Interrupts the server and sees it end.
    fn interrupt(&mut self) -> Result<(), String> {
        // the signal must not come before the server is prepared to take it
        let end = Instant::now() + PATIENCE;
        let caught = |pid: u32| std::fs::read_to_string(format!("/proc/{}/status", pid)).ok().and_then(|s| {
            let l = s.lines().find(|l| l.starts_with("SigCgt:"))?.to_string();
            u64::from_str_radix(l.split_whitespace().nth(1)?, 16).ok()
        }).map_or(false, |m| m & (1 << (libc::SIGINT - 1)) != 0);
        while !caught(self.child.id()) && Instant::now() < end { std::thread::sleep(Duration::from_millis(1)); }
        std::thread::sleep(self.pace);
        unsafe { libc::kill(self.child.id() as i32, libc::SIGINT) };
        let end = Instant::now() + PATIENCE;
        let status = loop {
            if let Ok(Some(s)) = self.child.try_wait() { break s; }
            if Instant::now() > end { return Err("interrupted, the server does not end".into()); }
            std::thread::sleep(Duration::from_millis(1));
        };
        if !status.success() { return Err(format!("interrupted, the server ends with {}: {}", status, self.stderr.lock().unwrap())); }
        if std::path::Path::new(&self.path).exists() { return Err("interrupted, the server leaves its socket behind".into()); }
        let until = Instant::now() + PATIENCE;
        loop {
            self.drain();
            if self.conns.iter().all(|c| c.eof || c.s.is_none()) { return Ok(()); }
            if Instant::now() > until { return Err("the server has ended, but some connections are open".into()); }
            std::thread::sleep(Duration::from_millis(1));
        }
    }
    fn panicked(&self) -> Option<String> {
        let e = self.stderr.lock().unwrap();
        if e.contains("panicked at") { Some(e.clone()) } else { None }
    }
}
impl Drop for Ex {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let _ = std::fs::remove_file(&self.path);
        let _ = std::fs::remove_dir(format!("{}/vt6", self.dir));
        let _ = std::fs::remove_dir(&self.dir);
    }
}

fn steps(x: &mut Ex, c: &Value, e: &Value, divide: bool, rep: &mut Rep) -> Result<Vec<Vec<u8>>, String> {
    let rs = list(&e["rs"]);
    let mut outs: Vec<Vec<u8>> = vec![];
    let mut modes: Vec<Mode> = vec![];
    let mut printed: Vec<Vec<u8>> = vec![];
    for (i, st) in list(&c["steps"]).iter().enumerate() {
        alive();
        let k = if st["k"] == "open" { 0 } else { num(&st["c"]) - 1 };
        let mut what = st["k"].to_string();
        match text(&st["k"]) {
            "open" => { x.connect()?; outs.push(vec![]); }
            "close" => { x.quiet(k); x.conns[k].s = None; std::thread::sleep(x.pace); }
            _ => {
                if modes[k] == Mode::Down { continue; }
                let b = x.to_real(&bytes(&st["b"]));
                let h = mix(i as u64 ^ b.len() as u64);
                let mut cuts = vec![];
                if divide && h % 4 == 0 && b.len() > 1 { cuts = vec![1 + (h >> 8) as usize % (b.len() - 1)]; }
                x.write(k, &b, &cuts);
                what = format!("connection {} sends {}", k + 1, show(&bytes(&st["b"])));
            }
        }
        for (j, w) in list(&rs[i]["log"]["out"]).iter().enumerate() { outs[j].extend(bytes(w)); }
        modes = list(&rs[i]["conns"]).iter().map(|x| mode(&x["mode"])).collect();
        for s in list(&rs[i]["log"]["sout"]) {
            let b = bytes(&s["b"]);
            if !b.is_empty() && b.iter().all(|c| c.is_ascii_alphanumeric()) { printed.push(b); }
        }
        let r = x.until(|x| x.state(&outs, &modes, true));
        rep.checks += 1;
        r.map_err(|m| format!("step {} ({}): {}", i + 1, what, m))?;
        if st["k"] == "feed" { x.quiet(k); }
    }
    // once more, now that everything has settled; those that stay get their standard input
    x.until(|x| x.state(&outs, &modes, true))?;
    if flag(&c["wait"]) && modes.contains(&Mode::In) {
        let had: Vec<usize> = x.conns.iter().map(|c| c.ticks).collect();
        x.until(|x| {
            x.state(&outs, &modes, true)?;
            for k in 0..x.conns.len() { if modes[k] == Mode::In && x.conns[k].s.is_some() && x.conns[k].ticks < had[k] + 2 { return Err(format!("the standard input connection {} gets no input", k + 1)); } }
            Ok(())
        })?;
        rep.checks += 1;
    }
    if !printed.is_empty() && !divide {
        x.until(|x| {
            let o = x.stdout.lock().unwrap();
            for b in &printed {
                let s = String::from_utf8_lossy(b);
                if !o.contains(&*s) { return Err(format!("standard output {:?} does not arrive", s)); }
            }
            Ok(())
        })?;
    }
    rep.checks += 1;
    Ok(outs)
}

fn race(x: &mut Ex, c: &Value, e: &Value, outs: &[Vec<u8>], rep: &mut Rep) -> Result<(), String> {
    let racers = list(&c["race"]);
    let barrier = Arc::new(std::sync::Barrier::new(racers.len()));
    let jobs: Vec<_> = racers.iter().map(|r| {
        let mut s = x.conns[num(&r["c"]) - 1].s.as_ref().unwrap().try_clone().expect("harness: clone");
        let b = x.to_real(&sends(r));
        let barrier = barrier.clone();
        std::thread::spawn(move || { barrier.wait(); let _ = s.write_all(&b); })
    }).collect();
    for j in jobs { j.join().expect("harness: racer"); }
    let all: Vec<(Vec<Vec<u8>>, Vec<Mode>)> = list(&e["all"]).iter().map(|o| {
        (list(&o["out"]).iter().enumerate().map(|(k, y)| { let mut w = outs[k].clone(); w.extend(bytes(y)); w }).collect(), list(&o["mode"]).iter().map(mode).collect())
    }).collect();
    let what = racers.iter().map(|r| format!("connection {} sends {}", r["c"], show(&sends(r)))).collect::<Vec<_>>().join(", ");
    let map = x.map.clone();
    let mut check = |x: &mut Ex| {
        let mut why = vec![];
        for (o, m) in &all {
            x.map = map.clone();
            for k in 0..x.conns.len() { x.conns[k].mode = m[k]; }
            match x.state(o, m, true) { Ok(()) => return Ok(()), Err(y) => why.push(y) }
        }
        Err(format!("at once {}: no order of these explains what happens: {}", what, why.join("; or ")))
    };
    x.until(&mut check)?;
    std::thread::sleep(Duration::from_millis(5));
    x.drain();
    check(x)?;
    rep.checks += 2;
    Ok(())
}

fn attempt(c: &Value, e: &Value, pace: Duration, divide: bool, rep: &mut Rep) -> Result<(), String> {
    let mut x = Ex::new(c, pace)?;
    let r = (|| {
        let outs = steps(&mut x, c, e, divide, rep)?;
        if c["op"] == "race" { race(&mut x, c, e, &outs, rep)?; }
        x.interrupt()
    })();
    if let Some(p) = x.panicked() { return Err(p); }
    r
}

/// Without a usable runtime directory the server fails.
fn refuses(c: &Value) -> Result<(), String> {
    let (mut child, _o, e) = Ex::spawn(c["xdg"].as_str());
    let end = Instant::now() + PATIENCE;
    loop {
        if let Ok(Some(s)) = child.try_wait() { return if s.success() || s.code().is_none() { Err(format!("without a runtime directory, the server ends with {}: {}", s, e.lock().unwrap())) } else { Ok(()) }; }
        if Instant::now() > end { let _ = child.kill(); let _ = child.wait(); return Err("without a runtime directory, the server starts".into()); }
        std::thread::sleep(Duration::from_millis(1));
    }
}

pub fn run(v: &Value, rep: &mut Rep) {
    let (c, e) = (&v["case"], &v["exp"]);
    if c["op"] == "refuses" {
        rep.checks += 1;
        if let Err(m) = refuses(c) { rep.fails.push(("example", m)); }
        return;
    }
    if let Err(first) = attempt(c, e, Duration::from_millis(2), true, rep) {
        // there is no way to tell when an input without visible effect has been dealt with: try again, slowly
        if c["op"] == "race" {
            // (a race is judged as it is, but not what leads to it)
            if first.starts_with("at once") { rep.fails.push(("example", first)); return; }
        }
        if let Err(m) = attempt(c, e, Duration::from_millis(60), false, rep) { rep.fails.push(("example", m)); }
    }
}
