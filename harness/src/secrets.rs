//! Issues secrets and prints them; they are judged by spec/TraceSecrets.tla.
//! secrets N T: N triples (client, stdin, stdout) in each of T threads.
//! secrets N 0: N triples, then N more in each of three children of this process and in itself.
use vt6::server::{ClientCredentials, ScreenCredentials};

pub fn main(args: &[String]) {
    let n: usize = args[0].parse().expect("harness: N");
    let t: usize = args[1].parse().expect("harness: T");
    if t == 0 { return forked(n); }
    let jobs: Vec<_> = (0..t).map(|_| std::thread::spawn(move || {
        (0..n).map(|_| {
            let c = ClientCredentials::generate();
            let s = ScreenCredentials::generate();
            let (c2, s2) = (c.clone(), s.clone());
            // asked for again, and copied, they are the same
            let same = c2.secret() == c.secret() && s2.stdin_secret() == s.stdin_secret() && s2.stdout_secret() == s.stdout_secret();
            (c.secret().to_string(), s.stdin_secret().to_string(), s.stdout_secret().to_string(), same)
        }).collect::<Vec<_>>()
    })).collect();
    let mut out = String::new();
    for (i, j) in jobs.into_iter().enumerate() {
        for (a, b, c, same) in j.join().expect("secrets") {
            out.push_str(&serde_json::json!({"t": i, "c": a, "i": b, "o": c, "same": same}).to_string());
            out.push('\n');
        }
    }
    print!("{}", out);
}

fn issue(n: usize, who: usize) {
    use std::io::Write;
    let mut out = String::new();
    for _ in 0..n {
        let c = ClientCredentials::generate();
        let s = ScreenCredentials::generate();
        out.push_str(&serde_json::json!({"t": who, "c": c.secret(), "i": s.stdin_secret(), "o": s.stdout_secret(), "same": true}).to_string());
        out.push('\n');
    }
    let o = std::io::stdout();
    let mut o = o.lock();
    o.write_all(out.as_bytes()).and_then(|_| o.flush()).expect("harness: stdout");
}
fn forked(n: usize) {
    issue(n, 0);
    for k in 1..4 {
        let p = unsafe { libc::fork() };
        assert!(p >= 0, "harness: fork");
        if p == 0 {
            issue(n, k);
            unsafe { libc::_exit(0) };
        }
        // one after the other, so that the lines do not mix
        unsafe { libc::waitpid(p, std::ptr::null_mut(), 0) };
    }
    issue(n, 4);
}
