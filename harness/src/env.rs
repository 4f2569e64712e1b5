//! Client-side discovery on file descriptor 60 (spec/Discovery.tla).
use crate::util::*;
use serde_json::Value;
use std::os::unix::ffi::OsStrExt;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::mpsc;
use std::sync::Arc;
use std::time::{Duration, Instant};
use vt6::client::{Environment, EnvironmentError};

const FD: i32 = 60;

#[derive(PartialEq, Debug, Clone)]
enum Out { Ok(Vec<u8>), Corrupt(String), Invalid(Vec<u8>), NoTerminal, IoErr }
fn wanted(v: &Value) -> Out {
    match text(&v["res"]) {
        "ok" => Out::Ok(bytes(&v["path"])),
        "corrupt" => Out::Corrupt(text(&v["kind"]).to_string()),
        "invalid" => Out::Invalid(bytes(&v["disp"])),
        "none" => Out::NoTerminal,
        "ioerr" => Out::IoErr,
        x => panic!("harness: outcome {}", x),
    }
}
fn outcome(e: &Environment) -> Out {
    match e.parse() {
        Ok(r) => {
            let _ = format!("{:?}", r);
            let c = r.clone();
            let p = r.server_socket_path().as_os_str().as_bytes().to_vec();
            if c.server_socket_path().as_os_str().as_bytes() != &p[..] { return Out::Corrupt("clone differs".into()); }
            Out::Ok(p)
        }
        Err(e) => {
            // can be printed
            if e.to_string().is_empty() || format!("{:?}", e).is_empty() { return Out::Corrupt("prints nothing".into()); }
            match e {
                EnvironmentError::NoVT6Terminal => Out::NoTerminal,
                EnvironmentError::CorruptParentHello(p) => Out::Corrupt(format!("{:?}", p.kind)),
                EnvironmentError::InvalidParentHello(m) => Out::Invalid(m.to_string().into_bytes()),
            }
        }
    }
}

fn fds() -> Vec<i32> {
    let mut v = vec![];
    for fd in 0..256 {
        if unsafe { libc::fcntl(fd, libc::F_GETFD) } != -1 { v.push(fd); }
    }
    v
}
fn put(fd: i32) {
    assert!(unsafe { libc::dup2(fd, FD) } == FD, "harness: dup2");
    unsafe { libc::close(fd) };
}
extern "C" fn nothing(_: libc::c_int) {}
fn interruptible() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = nothing as usize;
        sa.sa_flags = 0; // no SA_RESTART
        libc::sigaction(libc::SIGUSR1, &sa, std::ptr::null_mut());
    }
}

pub fn run(v: &Value, rep: &mut Rep) {
    let (c, e) = (&v["case"], &v["exp"]);
    let kind = text(&c["kind"]);
    let stream = bytes(&c["stream"]);
    let cuts: Vec<usize> = list(&c["cuts"]).iter().map(num).collect();
    let early = flag(&e["early"]);
    let want = wanted(&e["out"]);
    let signals = c["signals"].as_bool().unwrap_or(false);
    assert!(unsafe { libc::fcntl(FD, libc::F_GETFD) } == -1, "harness: descriptor 60 is in use");
    let mut p = [-1i32; 2];
    let mut w = -1;
    let open = |path: &str, flags: i32| { let s = std::ffi::CString::new(path).unwrap(); let fd = unsafe { libc::open(s.as_ptr(), flags | libc::O_CLOEXEC, 0o600) }; assert!(fd >= 0, "harness: open {}", path); fd };
    match kind {
        "pipe" => { assert!(unsafe { libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) } == 0); put(p[0]); w = p[1]; }
        "socket" | "reset" => { assert!(unsafe { libc::socketpair(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0, p.as_mut_ptr()) } == 0);
            // closing a socket that has something unread resets the other end, which then fails once it has read everything
            if kind == "reset" { assert!(unsafe { libc::send(p[0], b"unread".as_ptr() as *const _, 6, libc::MSG_NOSIGNAL) } == 6); }
            put(p[0]); w = p[1];
        }
        "file" => {
            let path = format!("{}/hello{}", std::env::var("TMPDIR").unwrap_or_else(|_| "/tmp".into()), std::process::id());
            std::fs::write(&path, &stream).expect("harness: file");
            put(open(&path, libc::O_RDONLY));
        }
        "closed" => {}
        "wronly" => put(open("/dev/null", libc::O_WRONLY)),
        "epoll" => { let fd = unsafe { libc::epoll_create1(0) }; put(fd); }
        "dir" => put(open("/", libc::O_RDONLY | libc::O_DIRECTORY)),
        "empty-nonblocking" => { assert!(unsafe { libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC | libc::O_NONBLOCK) } == 0); put(p[0]); w = p[1]; }
        x => panic!("harness: kind {}", x),
    }
    let mut before = fds();
    before.retain(|&f| f != FD);
    let done = Arc::new(AtomicBool::new(false));
    let tid = Arc::new(AtomicU64::new(0));
    let (tx, rx) = mpsc::channel();
    let (d2, t2) = (done.clone(), tid.clone());
    let job = std::thread::spawn(move || {
        t2.store(unsafe { libc::pthread_self() } as u64, SeqCst);
        let r = std::panic::catch_unwind(Environment::discover);
        d2.store(true, SeqCst);
        let _ = tx.send(r.map_err(|_| last_panic()));
    });
    let poke = |naps: u64| {
        if signals && naps % 4 == 0 && !done.load(SeqCst) {
            let t = tid.load(SeqCst);
            // the thread is not joined yet, so the handle is valid
            if t != 0 { unsafe { libc::pthread_kill(t as libc::pthread_t, libc::SIGUSR1); } }
        }
    };
    if signals { interruptible(); }
    if w >= 0 && kind != "empty-nonblocking" {
        let mut at = 0;
        for end in cuts.iter().cloned().chain(std::iter::once(stream.len())) {
            let end = end.min(stream.len());
            if end <= at { continue; }
            // the reader has taken what is there
            let t = Instant::now();
            let mut naps = 0;
            loop {
                let mut n: libc::c_int = 0;
                let req = if kind == "pipe" { libc::FIONREAD } else { libc::TIOCOUTQ };
                unsafe { libc::ioctl(w, req, &mut n) };
                if (n == 0 && (!signals || naps > 6)) || done.load(SeqCst) || t.elapsed() > Duration::from_secs(10) { break; }
                poke(naps);
                naps += 1;
                if naps > 100 || signals { std::thread::sleep(Duration::from_micros(50)); } else { std::thread::yield_now(); }
            }
            let mut b = &stream[at..end];
            while !b.is_empty() && !done.load(SeqCst) {
                let n = unsafe { libc::send(w, b.as_ptr() as *const _, b.len(), libc::MSG_NOSIGNAL) };
                let n = if n < 0 && std::io::Error::last_os_error().raw_os_error() == Some(libc::ENOTSOCK) { unsafe { libc::write(w, b.as_ptr() as *const _, b.len()) } } else { n };
                if n <= 0 { break; }
                b = &b[n as usize..];
            }
            at = end;
        }
        if !early {
            if signals { for i in 0..12 { poke(i * 4); std::thread::sleep(Duration::from_micros(50)); } }
            unsafe { libc::close(w) };
            w = -1;
            before.retain(|&f| f != p[1]);
        }
    }
    let what = format!("{} with {}{}{}", kind, show(&stream), if cuts.is_empty() { String::new() } else { format!(" written up to {:?}", cuts) }, if early { ", left open" } else { "" });
    let r = match rx.recv_timeout(Duration::from_secs(15)) {
        Ok(r) => r,
        Err(_) => {
            rep.fails.push(("hang", format!("{}: discover() does not return", what)));
            if w >= 0 { unsafe { libc::close(w) }; }
            let _ = rx.recv_timeout(Duration::from_secs(2));
            unsafe { libc::close(FD) };
            return;
        }
    };
    let _ = job.join();
    let env = match r { Ok(r) => r, Err(p) => { rep.fails.push(("panic", format!("{}: {}", what, p))); unsafe { libc::close(FD) }; if w >= 0 { unsafe { libc::close(w) }; } return; } };
    // the descriptor is closed, and no other
    let after = fds();
    rep.check("env", !after.contains(&FD), || format!("{}: descriptor 60 is still open", what));
    if after.contains(&FD) { unsafe { libc::close(FD) }; }
    let rest: Vec<i32> = after.into_iter().filter(|&f| f != FD).collect();
    rep.eq("env", &format!("{}: other open descriptors", what), rest, before);
    if w >= 0 { unsafe { libc::close(w) }; }
    match env {
        Err(e) => rep.check("env", want == Out::IoErr, || format!("{}: discover() fails with {:?}, specification {:?}", what, e, want)),
        Ok(env) => {
            let got = outcome(&env);
            rep.eq("env", &what, got, want.clone());
            // again, and from another thread
            let again = std::thread::scope(|s| (outcome(&env), s.spawn(|| outcome(&env)).join()));
            rep.check("env", again.0 == want && matches!(&again.1, Ok(o) if *o == want), || format!("{}: parsed again: {:?}, specification {:?}", what, again, want));
        }
    }
}
