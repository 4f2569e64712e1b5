//! Prints what default_socket_path() says in this process.
use std::os::unix::ffi::OsStrExt;
pub fn main() {
    // several processes started together wait for each other here
    if let Ok(p) = std::env::var("VERIF_BARRIER") {
        while !std::path::Path::new(&p).exists() { std::thread::yield_now(); }
    }
    let v = match std::panic::catch_unwind(vt6::server::default_socket_path) {
        Ok(Ok(p)) => serde_json::json!({"ok": p.as_os_str().as_bytes().to_vec(), "pid": std::process::id()}),
        Ok(Err(e)) => serde_json::json!({"err": e.to_string(), "pid": std::process::id()}),
        Err(_) => serde_json::json!({"panic": true}),
    };
    println!("{}", v);
}
