//! Replays cases of the data layer (parsing, rendering, arguments, names, typed messages, client
//! IDs, selectors) on the real code and compares with what the specification says.
use crate::util::*;
use serde_json::Value;
use vt6::client::core::*;
use vt6::common::core::msg::*;
use vt6::common::core::*;
use vt6::msg as m;
use vt6::server;

pub fn run(v: &Value, rep: &mut Rep) {
    let (c, e) = (&v["case"], &v["exp"]);
    match text(&c["op"]) {
        "parse" => parse(c, e, rep),
        "prefixes" => prefixes(c, e, rep),
        "render" => render(c, e, rep),
        "arg" => arg(c, e, rep),
        "tenc" => tenc(c, e, rep),
        "cid" => cid(c, e, rep),
        "row" => row(c, e, rep),
        "rel" => rel(c, e, rep),
        "sel" => sel(c, e, rep),
        "selrow" => selrow(c, e, rep),
        "identity" => identity(c, e, rep),
        other => panic!("harness: unknown op {}", other),
    }
}

fn kind_name(k: &ParseErrorKind) -> &'static str {
    use ParseErrorKind::*;
    match k {
        UnexpectedEOF => "UnexpectedEOF",
        ExpectedMessageOpener => "ExpectedMessageOpener",
        ExpectedMessageCloser => "ExpectedMessageCloser",
        ExpectedDecimalNumber => "ExpectedDecimalNumber",
        DecimalNumberTooLarge => "DecimalNumberTooLarge",
        DecimalNumberHasLeadingZeroes => "DecimalNumberHasLeadingZeroes",
        ExpectedListSigil => "ExpectedListSigil",
        ExpectedStringSigil => "ExpectedStringSigil",
        ExpectedStringCloser => "ExpectedStringCloser",
        ExpectedMessageType => "ExpectedMessageType",
        InvalidMessageType => "InvalidMessageType",
    }
}

fn check_message(msg: &Message, ty: &[u8], args: &[Vec<u8>], rep: &mut Rep) {
    let a = "parse";
    rep.check(a, msg.parsed_type().as_str().as_bytes() == ty, || {
        format!("type: got {}, want {}", show(msg.parsed_type().as_str().as_bytes()), show(ty))
    });
    let mut it = msg.arguments();
    for (i, want) in args.iter().enumerate() {
        rep.eq(a, "remaining count (len)", it.len(), args.len() - i);
        rep.eq(a, "remaining count (size_hint)", it.size_hint(), (args.len() - i, Some(args.len() - i)));
        let peek = it.clone().next().map(|x| x.to_vec());
        let got = it.next();
        rep.check(a, got == Some(&want[..]) && peek.as_deref() == got, || {
            format!("argument {}: got {:?}, want {}", i, got.map(show), show(want))
        });
    }
    rep.eq(a, "remaining count at end", it.len(), 0);
    rep.eq(a, "size_hint at end", it.size_hint(), (0, Some(0)));
    rep.check(a, it.next().is_none() && it.next().is_none(), || "iterator yields more arguments than announced".into());
    let all: Vec<Vec<u8>> = msg.arguments().map(|x| x.to_vec()).collect();
    rep.check(a, all == args, || "second iteration differs".into());
}

fn parse(c: &Value, e: &Value, rep: &mut Rep) {
    let buf = bytes(&c["buf"]);
    let r = &e["r"];
    let ok = text(&r["st"]) == "ok";
    let res = Message::parse(&buf);
    match &res {
        Ok((msg, n)) => {
            rep.check("parse", ok, || format!("accepted {} ({} bytes), specification: {}", show(&buf), n, r));
            if !ok { return; }
            rep.eq("parse", "length", *n, num(&r["len"]));
            let args: Vec<Vec<u8>> = list(&r["args"]).iter().map(bytes).collect();
            check_message(msg, &bytes(&r["ty"]), &args, rep);
            let d = format!("{}", msg);
            rep.check("disp", d.as_bytes() == &bytes(&e["disp"])[..], || format!("printed {:?}, want {}", d, show(&bytes(&e["disp"]))));
            let dec: Vec<&str> = list(&e["dec"]).iter().map(text).collect();
            typed(msg, &args, &dec, text(&e["have"]), rep);
            // the message does not depend on what follows
            for junk in [&b""[..], b"}", b"{", b"{1|", b"\xff\x00", b",{1|4:want,}"] {
                let mut b2 = buf.clone();
                b2.truncate(*n);
                b2.extend_from_slice(junk);
                match Message::parse(&b2) {
                    Ok((m2, n2)) => {
                        rep.check("final", n2 == *n && m2.parsed_type().as_str().as_bytes() == &bytes(&r["ty"])[..]
                            && m2.arguments().map(|x| x.to_vec()).collect::<Vec<_>>() == args, || format!("result changes with junk {}", show(junk)));
                    }
                    Err(e2) => rep.check("final", false, || format!("{} fails with junk {}: {}", show(&buf), show(junk), e2)),
                }
            }
        }
        Err(err) => {
            rep.check("parse", !ok, || format!("rejected {} with {:?} at {}, specification accepts it", show(&buf), err.kind, err.offset));
            if ok { return; }
            rep.eq("parse", "error kind", kind_name(&err.kind), text(&r["kind"]));
            rep.eq("parse", "error offset", err.offset, num(&r["off"]));
            rep.check("parse", err.buffer == &buf[..], || "error carries a different buffer".into());
            let incomplete = text(&r["kind"]) == "UnexpectedEOF";
            rep.eq("final", "is_incomplete", err.is_incomplete(), incomplete);
            if !incomplete {
                for junk in [&b"}"[..], b"{", b"0", b"9:", b",", b"\xff\x00", b"{1|4:want,}", b":a,}"] {
                    let mut b2 = buf.clone();
                    b2.extend_from_slice(junk);
                    let k = Message::parse(&b2).err().map(|x| kind_name(&x.kind));
                    rep.check("final", k == Some(text(&r["kind"])), || format!("{} continued with {}: {:?} instead of {}", show(&buf), show(junk), k, r["kind"]));
                }
            }
        }
    }
}

fn prefixes(c: &Value, e: &Value, rep: &mut Rep) {
    let buf = bytes(&c["buf"]);
    for (i, r) in list(&e["rs"]).iter().enumerate() {
        let n = if c["at"].is_array() { num(&c["at"][i]) } else { i };
        match Message::parse(&buf[..n]) {
            Ok((_, len)) => {
                rep.check("final", text(&r["st"]) == "ok" && len == num(&r["len"]), || format!("prefix of length {} of {}: accepted {} bytes, specification {}", n, show(&buf), len, r));
            }
            Err(err) => {
                rep.check("final", text(&r["st"]) == "err" && kind_name(&err.kind) == text(&r["kind"]) && err.is_incomplete() == (text(&r["kind"]) == "UnexpectedEOF"), || {
                    format!("prefix of length {} of {}: {:?} at {}, specification {}", n, show(&buf), err.kind, err.offset, r)
                });
            }
        }
    }
}

/// Renders into a buffer with recognisable content; checks the result against the specification.
fn check_render(aspect: &'static str, wire: &[u8], cap: usize, want: &Value, rep: &mut Rep, f: impl Fn(&mut [u8]) -> Result<usize, BufferTooSmallError>) {
    let before: Vec<u8> = (0..cap).map(|i| 0x80 | (i * 37 + 11) as u8).collect();
    let mut buf = before.clone();
    let got = f(&mut buf);
    let ok = flag(&want["ok"]);
    match got {
        Ok(n) => {
            rep.check(aspect, ok && n == num(&want["n"]), || format!("capacity {}: wrote {} bytes, specification {}", cap, n, want));
            rep.check(aspect, n <= cap && &buf[..n.min(cap)] == wire, || format!("capacity {}: wrote {}, want {}", cap, show(&buf[..n.min(cap)]), show(wire)));
            rep.check(aspect, n <= cap && buf[n.min(cap)..] == before[n.min(cap)..], || format!("capacity {}: bytes beyond the message changed", cap));
        }
        Err(BufferTooSmallError(n)) => {
            rep.check(aspect, !ok && n == num(&want["n"]), || format!("capacity {}: BufferTooSmallError({}), specification {}", cap, n, want));
        }
    }
}

fn render(c: &Value, e: &Value, rep: &mut Rep) {
    let ty = String::from_utf8(bytes(&c["ty"])).unwrap();
    let args: Vec<Vec<u8>> = list(&c["args"]).iter().map(bytes).collect();
    let wire = bytes(&e["wire"]);
    for (cap, want) in list(&c["caps"]).iter().zip(list(&e["caps"])) {
        check_render("render", &wire, num(cap), want, rep, |buf| {
            let mut f = MessageFormatter::new(buf, &ty, args.len());
            for a in &args {
                f.add_argument(&a[..]);
            }
            f.finalize()
        });
    }
    match Message::parse(&wire) {
        Ok((msg, n)) => {
            rep.eq("parse", "length of rendered message", n, wire.len());
            check_message(&msg, ty.as_bytes(), &args, rep);
            let d = format!("{}", msg);
            rep.check("disp", d.as_bytes() == &bytes(&e["disp"])[..], || format!("printed {:?}, want {}", d, show(&bytes(&e["disp"]))));
        }
        Err(err) => rep.check("parse", false, || format!("rendered message does not parse: {}", err)),
    }
}

macro_rules! ints {
    ($s:expr, $ok:expr, $rep:expr, $($t:ident),*) => {$(
        let got = <$t as DecodeArgument>::decode_argument(&$s);
        if $ok.contains(&stringify!($t)) {
            let want: $t = std::str::from_utf8(&$s).unwrap().parse().unwrap();
            $rep.check("arg", got == Some(want), || format!("decode {} as {}: {:?}, want {}", show(&$s), stringify!($t), got, want));
            $rep.check("arg", want.get_size() == $s.len(), || format!("size of {} as {}: {}", want, stringify!($t), want.get_size()));
            let enc = want.encode_to_vector();
            $rep.check("arg", enc == $s, || format!("encode {} as {}: {}", want, stringify!($t), show(&enc)));
        } else {
            $rep.check("arg", got.is_none(), || format!("decode {} as {}: {:?}, specification rejects it", show(&$s), stringify!($t), got));
        }
    )*};
}

/// Encodes into exactly the announced number of bytes.
fn enc<T: EncodeArgument + ?Sized>(t: &T) -> Vec<u8> {
    let mut v = vec![0xEEu8; t.get_size()];
    t.encode(&mut v);
    v
}

fn arg(c: &Value, e: &Value, rep: &mut Rep) {
    use std::os::unix::ffi::OsStrExt;
    let s = bytes(&c["s"]);
    let ok: Vec<&str> = list(&e["ok"]).iter().map(text).collect();
    ints!(s, ok, rep, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    let want_bool = if ok.contains(&"bool") { Some(s == b"t") } else { None };
    let a = "arg";
    rep.eq(a, "decode as bool", bool::decode_argument(&s), want_bool);
    if let Some(b) = want_bool {
        rep.check(a, enc(&b) == s, || format!("encode {}", b));
    }
    let as_str = std::str::from_utf8(&s).ok();
    rep.check(a, as_str.is_some() == ok.contains(&"str"), || "harness and specification disagree on UTF-8".into());
    rep.check(a, <&str>::decode_argument(&s) == as_str, || format!("decode {} as string", show(&s)));
    if let Some(t) = as_str {
        rep.check(a, enc(t) == s, || format!("encode string {:?}", t));
    }
    rep.check(a, <&[u8]>::decode_argument(&s) == Some(&s[..]), || format!("decode {} as bytes", show(&s)));
    rep.check(a, enc(&s[..]) == s, || format!("encode bytes {}", show(&s)));
    let p = <&std::path::Path>::decode_argument(&s);
    rep.check(a, p.map(|p| p.as_os_str().as_bytes()) == Some(&s[..]), || format!("decode {} as path: {:?}", show(&s), p));
    if let Some(p) = p {
        rep.check(a, enc(p) == s, || format!("encode path {:?}", p));
    }
    // optional values
    let want = if s.is_empty() { Some(None) } else { u8::decode_argument(&s).map(Some) };
    let ok_opt = ok.contains(&"opt_u8");
    let got = <Option<u8>>::decode_argument(&s);
    rep.check(a, got.is_some() == ok_opt && (!ok_opt || got == want), || format!("decode {} as Option<u8>: {:?}", show(&s), got));
    if let Some(x) = got {
        rep.check(a, enc(&x.as_ref()) == s, || format!("encode {:?}", x));
    }
    let got = <Option<bool>>::decode_argument(&s);
    let ok_opt = ok.contains(&"opt_bool");
    rep.check(a, got.is_some() == ok_opt && (!ok_opt || got == Some(if s.is_empty() { None } else { Some(s == b"t") })), || format!("decode {} as Option<bool>: {:?}", show(&s), got));
    if let Some(x) = got {
        rep.check(a, enc(&x.as_ref()) == s, || format!("encode {:?}", x));
    }
    let got = <Option<&str>>::decode_argument(&s);
    let want = if s.is_empty() { Some(None) } else { as_str.map(Some) };
    rep.check(a, got == want && got.is_some() == ok.contains(&"opt_str"), || format!("decode {} as Option<&str>: {:?}", show(&s), got));
    if let Some(x) = got {
        rep.check(a, enc(&x) == s, || format!("encode {:?}", x));
    }
    if let Some(t) = as_str {
        rep.check(a, enc(&Some(t)) == s, || format!("encode {:?}", Some(t)));
    }
    let got = <Option<&[u8]>>::decode_argument(&s);
    rep.check(a, got == Some(if s.is_empty() { None } else { Some(&s[..]) }), || format!("decode {} as Option<&[u8]>: {:?}", show(&s), got));
    if let Some(x) = got {
        rep.check(a, enc(&x) == s, || format!("encode {:?}", x));
    }
    names(&s, e, rep);
}

fn names(s: &[u8], e: &Value, rep: &mut Rep) {
    let a = "ident";
    let kinds = list(&e["kinds"]);
    let find = |k: &str| kinds.iter().find(|t| t[0] == k);
    let as_str = std::str::from_utf8(s).ok();
    // every kind of name is tried both from text and from an argument
    macro_rules! both {
        ($t:ident, $k:expr, |$x:ident, $w:ident| $body:block) => {{
            let want = find($k);
            let mut got: Vec<Option<$t>> = vec![<$t>::decode_argument(s)];
            if let Some(t) = as_str { got.push(<$t>::parse(t)); }
            for g in got.iter() {
                rep.check(a, g.is_some() == want.is_some(), || format!("{} as {}: {}, specification says {}", show(s), $k,
                    if g.is_some() { "accepted" } else { "rejected" }, if want.is_some() { "accept" } else { "reject" }));
                if let (Some($x), Some($w)) = (g.as_ref(), want) {
                    let _ = &$w;
                    rep.check(a, format!("{}", $x).as_bytes() == s, || format!("{} printed as {}", show(s), $x));
                    rep.check(a, enc($x) == s, || format!("{} encoded as {}", show(s), show(&enc($x))));
                    $body
                }
            }
        }};
    }
    let eqs = |rep: &mut Rep, what: &str, got: &str, want: &Value| {
        rep.check(a, got.as_bytes() == &bytes(want)[..], || format!("{} of {}: got {:?}, want {}", what, show(s), got, show(&bytes(want))));
    };
    both!(ClientID, "cid", |x, _w| {
        rep.check(a, x.as_str().as_bytes() == s, || "as_str".into());
    });
    both!(Identifier, "ident", |x, _w| { rep.check(a, x.as_str().as_bytes() == s, || "as_str".into()); });
    both!(ModuleIdentifier, "modid", |x, w| {
        rep.check(a, x.as_str().as_bytes() == s, || "as_str".into());
        eqs(rep, "name", x.name().as_str(), &w[1]);
        eqs(rep, "major version", &x.major_version().to_string(), &w[2]);
        for minor in [0u16, 1, 9, 10, 99, 100, 65535] {
            let v = x.with_minor_version(minor);
            let want = format!("{}.{}", as_str.unwrap(), minor);
            rep.check(a, format!("{}", v) == want && enc(&v) == want.as_bytes() && v.minor_version() == minor && v.module().as_str() == x.as_str(),
                || format!("with_minor_version({}) of {}: {}", minor, show(s), v));
        }
    });
    both!(ModuleVersion, "modver", |x, w| {
        eqs(rep, "module", x.module().as_str(), &w[1]);
        eqs(rep, "name", x.module().name().as_str(), &w[2]);
        eqs(rep, "major version", &x.module().major_version().to_string(), &w[3]);
        eqs(rep, "minor version", &x.minor_version().to_string(), &w[4]);
    });
    both!(ScopedIdentifier, "scoped", |x, w| {
        rep.check(a, x.as_str().as_bytes() == s, || "as_str".into());
        eqs(rep, "module", x.module().as_str(), &w[1]);
        eqs(rep, "name", x.module().name().as_str(), &w[2]);
        eqs(rep, "major version", &x.module().major_version().to_string(), &w[3]);
        eqs(rep, "member", x.member().as_str(), &w[4]);
    });
    both!(MessageType, "mt", |x, w| {
        rep.check(a, x.as_str().as_bytes() == s, || "as_str".into());
        let k = match x {
            MessageType::Want => "want",
            MessageType::Have => "have",
            MessageType::Nope => "nope",
            MessageType::Scoped(_) => "scoped",
        };
        eqs(rep, "kind of message type", k, &w[1]);
    });
}

fn opt(b: &[u8]) -> Option<&str> {
    if b.is_empty() { None } else { Some(std::str::from_utf8(b).unwrap()) }
}

fn typed(msg: &Message, args: &[Vec<u8>], dec: &[&str], have: &str, rep: &mut Rep) {
    use std::os::unix::ffi::OsStrExt;
    let a = "typed";
    macro_rules! one {
        ($t:ty, $name:expr, |$x:ident| $ok:expr) => {{
            let got = <$t>::decode_message(msg);
            rep.check(a, got.is_some() == dec.contains(&$name), || format!("{} as {}: {}, specification: {:?}", msg, $name, if got.is_some() { "accepted" } else { "rejected" }, dec));
            if let (Some($x), true) = (got.as_ref(), dec.contains(&$name)) {
                let good: bool = $ok;
                rep.check(a, good, || format!("{} as {}: fields differ: {:?}", msg, $name, $x));
            }
        }};
    }
    let eq = |s: &str, i: usize| s.as_bytes() == &args[i][..];
    let eqo = |s: Option<&str>, i: usize| s == opt(&args[i]);
    one!(m::Want, "want", |x| eq(x.0.as_str(), 0));
    one!(m::Have, "have", |x| match x {
        m::Have::ThisModule(v) => have == "this" && eq(&format!("{}", v), 0),
        m::Have::NotThisModule(i) => have == "not" && eq(i.as_str(), 0),
    });
    one!(m::Nope, "nope", |x| eq(x.0.as_str(), 0));
    one!(m::core::ClientMake, "client_make", |x| eq(x.client_id.as_str(), 0) && eqo(x.stdin_screen_id, 1) && eqo(x.stdout_screen_id, 2) && eqo(x.stderr_screen_id, 3));
    one!(m::core::ClientNew, "client_new", |x| eq(x.secret, 0));
    one!(m::core::ClientEnd, "client_end", |x| eq(x.client_id.as_str(), 0));
    one!(m::posix::ClientHello, "client_hello", |x| eq(x.secret, 0));
    one!(m::posix::ParentHello, "parent_hello", |x| eq(x.client_secret, 0) && x.server_socket_path.as_os_str().as_bytes() == &args[1][..]);
    one!(m::posix::ServerHello, "server_hello", |x| eq(x.client_id.as_str(), 0) && eqo(x.stdin_screen_id, 1) && eqo(x.stdout_screen_id, 2) && eqo(x.stderr_screen_id, 3));
    one!(m::posix::StdinHello, "stdin_hello", |x| eq(x.secret, 0));
    one!(m::posix::StdoutHello, "stdout_hello", |x| eq(x.secret, 0));
}

fn tenc(c: &Value, e: &Value, rep: &mut Rep) {
    if e["valid"] == false { return; } // not a value of this message type
    use std::os::unix::ffi::OsStrExt;
    let f: Vec<Vec<u8>> = list(&c["fields"]).iter().map(bytes).collect();
    let s = |i: usize| std::str::from_utf8(&f[i]).unwrap();
    // names were classified by the specification; a name that cannot be built is the code's fault
    let wire = bytes(&e["wire"]);
    macro_rules! go {
        ($v:expr) => {{
            let v = $v;
            for (cap, want) in list(&c["caps"]).iter().zip(list(&e["caps"])) {
                check_render("typed", &wire, num(cap), want, rep, |buf| v.encode(buf));
            }
        }};
    }
    match text(&c["name"]) {
        "want" => go!(m::Want(ModuleIdentifier::parse(s(0)).unwrap())),
        "have" => match ModuleVersion::parse(s(0)) {
            Some(v) => go!(m::Have::ThisModule(v)),
            None => go!(m::Have::NotThisModule(ModuleIdentifier::parse(s(0)).unwrap())),
        },
        "nope" => go!(m::Nope(MessageType::parse(s(0)).unwrap())),
        "client_make" => go!(m::core::ClientMake { client_id: ClientID::parse(s(0)).unwrap(), stdin_screen_id: opt(&f[1]), stdout_screen_id: opt(&f[2]), stderr_screen_id: opt(&f[3]) }),
        "client_new" => go!(m::core::ClientNew { secret: s(0) }),
        "client_end" => go!(m::core::ClientEnd { client_id: ClientID::parse(s(0)).unwrap() }),
        "client_hello" => go!(m::posix::ClientHello { secret: s(0) }),
        "parent_hello" => go!(m::posix::ParentHello { client_secret: s(0), server_socket_path: std::path::Path::new(std::ffi::OsStr::from_bytes(&f[1])) }),
        "server_hello" => go!(m::posix::ServerHello { client_id: ClientID::parse(s(0)).unwrap(), stdin_screen_id: opt(&f[1]), stdout_screen_id: opt(&f[2]), stderr_screen_id: opt(&f[3]) }),
        "stdin_hello" => go!(m::posix::StdinHello { secret: s(0) }),
        "stdout_hello" => go!(m::posix::StdoutHello { secret: s(0) }),
        other => panic!("harness: unknown message {}", other),
    }
}

fn index(v: &Value) -> u32 {
    (num(&v[0]) as u64 * 61 + num(&v[1]) as u64 - 1) as u32
}
fn suffix(c: &Value) -> ClientIDSuffix {
    match text(&c["k"]) {
        "own" => ClientIDSuffix::Own,
        "local" => ClientIDSuffix::Local(index(&c["a"])),
        "job" => ClientIDSuffix::Job(index(&c["a"])),
        "child" => ClientIDSuffix::Child(index(&c["a"]), index(&c["b"])),
        other => panic!("harness: unknown suffix {}", other),
    }
}

fn cid(c: &Value, e: &Value, rep: &mut Rep) {
    let base = String::from_utf8(bytes(&c["base"])).unwrap();
    let id = suffix(c).below(ClientID::parse(&base).unwrap());
    rep.eq("cid", "size", id.get_size(), base.len() + num(&e["size"]));
    rep.check("cid", id.suffix() == suffix(c) && id.base().as_str() == base, || "base or suffix not reported".into());
    if num(&e["size"]) <= 200_000_000 && id.get_size() == base.len() + num(&e["size"]) {
        let got = enc(&id);
        let mut ok = got.starts_with(base.as_bytes());
        let mut pos = base.len();
        for run in list(&e["rle"]) {
            let (b, n) = (num(&run[0]) as u8, num(&run[1]));
            ok = ok && pos + n <= got.len() && got[pos..pos + n].iter().all(|&x| x == b);
            pos += n;
        }
        rep.check("cid", ok && pos == got.len(), || format!("{:?} encodes as {}, specification {}", suffix(c), show(&got), e));
    }
}

fn enc_id(c: &Value) -> Vec<u8> {
    let base = String::from_utf8(bytes(&c["base"])).unwrap();
    enc(&suffix(c).below(ClientID::parse(&base).unwrap()))
}
fn sub(a: &[u8], b: &[u8]) -> bool {
    let (x, y) = (ClientID::decode_argument(a), ClientID::decode_argument(b));
    match (x, y) {
        (Some(x), Some(y)) => server::ClientSelector::AtOrBelow(x).contains(y),
        _ => false,
    }
}

fn row(c: &Value, e: &Value, rep: &mut Rep) {
    let ids: Vec<Vec<u8>> = list(&c["ids"]).iter().map(enc_id).collect();
    for (i, (got, want)) in ids.iter().zip(list(&e["strs"])).enumerate() {
        rep.check("cid", got == &bytes(want), || format!("{} encodes as {}, want {}", c["ids"][i], show(got), show(&bytes(want))));
        rep.check("cid", ClientID::decode_argument(got).is_some(), || format!("{} is not a client ID", show(got)));
    }
    for j in 0..ids.len() {
        let pre = flag(&e["pre"][j]);
        rep.check("cid", ids[j].starts_with(&ids[0]) == pre && sub(&ids[0], &ids[j]) == pre, || format!("{} covers {}: specification {}", c["ids"][0], c["ids"][j], pre));
        let rev = flag(&e["rev"][j]);
        rep.check("cid", ids[0].starts_with(&ids[j]) == rev && sub(&ids[j], &ids[0]) == rev, || format!("{} covers {}: specification {}", c["ids"][j], c["ids"][0], rev));
    }
}

fn rel(c: &Value, e: &Value, rep: &mut Rep) {
    let ids: Vec<Vec<u8>> = list(&c["ids"]).iter().map(enc_id).collect();
    for (i, a) in ids.iter().enumerate() {
        rep.check("cid", a == &bytes(&e["strs"][i]), || format!("{} encodes as {}, want {}", c["ids"][i], show(a), show(&bytes(&e["strs"][i]))));
        for (j, b) in ids.iter().enumerate() {
            let want = flag(&e["covers"][i][j]);
            rep.check("cid", b.starts_with(a) == want && sub(a, b) == want, || format!("{} covers {}: specification {}", c["ids"][i], c["ids"][j], want));
        }
    }
}

fn check_sel(a: &[u8], b: &[u8], at: bool, st: bool, rep: &mut Rep) {
    let (a, b) = (std::str::from_utf8(a).unwrap(), std::str::from_utf8(b).unwrap());
    let (a, b) = (ClientID::parse(a).unwrap(), ClientID::parse(b).unwrap());
    let g = server::ClientSelector::AtOrBelow(a).contains(b);
    rep.check("sel", g == at, || format!("AtOrBelow({}) contains {}: {}", a, b, g));
    let g = server::ClientSelector::StrictlyBelow(a).contains(b);
    rep.check("sel", g == st, || format!("StrictlyBelow({}) contains {}: {}", a, b, g));
}
fn selrow(c: &Value, e: &Value, rep: &mut Rep) {
    let a = bytes(&c["a"]);
    for (i, id) in list(&c["ids"]).iter().enumerate() {
        check_sel(&a, &bytes(id), flag(&e["at"][i]), flag(&e["st"][i]), rep);
    }
}
fn sel(c: &Value, e: &Value, rep: &mut Rep) {
    let ids: Vec<Vec<u8>> = list(&c["ids"]).iter().map(bytes).collect();
    for (i, a) in ids.iter().enumerate() {
        for (j, b) in ids.iter().enumerate() {
            check_sel(a, b, flag(&e["at"][i][j]), flag(&e["st"][i][j]), rep);
        }
    }
}

fn identity(c: &Value, e: &Value, rep: &mut Rep) {
    let id = String::from_utf8(bytes(&c["id"])).unwrap();
    let mut x = server::ClientIdentity::new(&ClientID::parse(&id).unwrap());
    for step in list(&c["steps"]) {
        let v = String::from_utf8(bytes(&step["v"])).unwrap();
        x = match text(&step["r"]) {
            "stdin" => x.with_stdin(&v),
            "stdout" => x.with_stdout(&v),
            "stderr" => x.with_stderr(&v),
            other => panic!("harness: role {}", other),
        };
    }
    let want = |r: &str| -> Option<Vec<u8>> { if flag(&e[r]["set"]) { Some(bytes(&e[r]["v"])) } else { None } };
    let own = |s: Option<&str>| s.map(|s| s.as_bytes().to_vec());
    for y in [&x, &x.clone()] {
        rep.eq("sel", "client ID", y.client_id().as_str(), &id[..]);
        rep.eq("sel", "stdin screen", own(y.stdin_screen_id()), want("stdin"));
        rep.eq("sel", "stdout screen", own(y.stdout_screen_id()), want("stdout"));
        rep.eq("sel", "stderr screen", own(y.stderr_screen_id()), want("stderr"));
    }
    let s = server::ScreenIdentity::new(&id);
    rep.eq("sel", "screen ID", s.screen_id(), &id[..]);
    rep.check("sel", s == server::ScreenIdentity::new(&id) && s != server::ScreenIdentity::new(&format!("{}x", id)), || "screen identity comparison".into());
}
