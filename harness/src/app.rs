//! The application used by all server checks: a registry of clients and screens, handlers for the
//! extra module foo2.4 (see spec/Server.tla), and a log of everything the library tells it.
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};
use vt6::common::core::msg::*;
use vt6::common::core::*;
use vt6::server::*;

#[derive(Clone, Default, Debug)]
pub struct Client { pub id: String, pub secret: String, pub used: bool, pub sin: String, pub sout: String, pub serr: String }
#[derive(Clone, Default, Debug)]
pub struct Screen { pub id: String, pub isec: String, pub osec: String, pub iused: bool, pub oused: bool }

#[derive(Default)]
pub struct State {
    pub clients: Vec<Client>,
    pub screens: Vec<Screen>,
    pub next: u64,
    // log; the harness empties it between steps
    pub input: Vec<Value>,
    pub errs: Vec<Value>,
    pub app: Vec<Value>,
    pub sout: Vec<(String, Vec<u8>)>,
    pub ioerr: u64,
    pub opened: u64,
    pub closed: u64,
    /// total number of events, to see progress
    pub ticks: u64,
    pub complaints: Vec<String>,
    /// how long the application takes to answer (widens races)
    pub slow_us: u64,
}

#[derive(Clone, Default)]
pub struct TApp(pub Arc<Mutex<State>>);
impl TApp {
    pub fn with<T>(&self, f: impl FnOnce(&mut State) -> T) -> T {
        let mut g = match self.0.lock() { Ok(g) => g, Err(e) => e.into_inner() };
        g.ticks += 1;
        f(&mut g)
    }
    fn dawdle(&self) {
        let us = self.with(|st| st.slow_us);
        if us > 0 { std::thread::sleep(std::time::Duration::from_micros(us)); }
    }
    pub fn from_case(c: &Value) -> TApp {
        use crate::util::*;
        let s = |v: &Value| String::from_utf8(bytes(v)).unwrap();
        let app = TApp::default();
        app.with(|st| {
            st.next = 1;
            for x in list(&c["clients"]) {
                st.clients.push(Client { id: s(&x["id"]), secret: s(&x["secret"]), used: false, sin: s(&x["sin"]), sout: s(&x["sout"]), serr: s(&x["serr"]) });
            }
            for x in list(&c["screens"]) {
                st.screens.push(Screen { id: s(&x["id"]), isec: s(&x["isec"]), osec: s(&x["osec"]), iused: false, oused: false });
            }
        });
        app
    }
}
pub fn arr(b: &[u8]) -> Value {
    Value::Array(b.iter().map(|&x| Value::from(x)).collect())
}
fn identity(c: &Client) -> ClientIdentity {
    let mut i = ClientIdentity::new(&ClientID::parse(&c.id).expect("client ID in the registry"));
    if !c.sin.is_empty() { i = i.with_stdin(&c.sin); }
    if !c.sout.is_empty() { i = i.with_stdout(&c.sout); }
    if !c.serr.is_empty() { i = i.with_stderr(&c.serr); }
    i
}

pub struct MsgConn(pub ClientIdentity);
impl MessageConnector for MsgConn {
    fn new(id: ClientIdentity) -> Self { MsgConn(id) }
    fn identity(&self) -> &ClientIdentity { &self.0 }
}
thread_local!(static HOME: std::cell::RefCell<Option<TApp>> = std::cell::RefCell::new(None));
/// StdoutConnector::new() gets no reference to the application; authorize_stdout() leaves it here.
fn remember(app: &TApp) { HOME.with(|h| *h.borrow_mut() = Some(app.clone())); }
pub struct OutConn(pub ScreenIdentity, TApp);
impl StdoutConnector for OutConn {
    fn new(id: ScreenIdentity) -> Self { OutConn(id, HOME.with(|h| h.borrow().clone()).unwrap_or_default()) }
    fn receive(&mut self, buf: &[u8]) {
        let id = self.0.screen_id().to_string();
        self.1.with(|st| st.sout.push((id, buf.to_vec())));
    }
}

impl Application for TApp {
    type MessageConnector = MsgConn;
    type StdoutConnector = OutConn;
    type MessageHandler = Log<vt6::server::core::MessageHandler<Ext<RejectHandler>>>;
    type HandshakeHandler = Log<vt6::server::core::HandshakeHandler<HsExt<RejectHandler>>>;

    fn notify(&self, n: &Notification) {
        self.with(|st| match n {
            Notification::ConnectionOpened => st.opened += 1,
            Notification::ConnectionClosed => st.closed += 1,
            Notification::ConnectionIOError(_) => st.ioerr += 1,
            Notification::IncomingBytesDiscarded(b) => st.input.push(json!({"k": "disc", "b": arr(b)})),
        })
    }
    fn register_client(&self, i: ClientIdentity) -> ClientCredentials {
        // ClientCredentials cannot be built around a given secret, so the real one is issued and
        // recorded; expectations use the names n1, n2, ...
        self.dawdle();
        let creds = ClientCredentials::generate();
        let t = |o: Option<&str>| o.unwrap_or("").to_string();
        let c = Client { id: i.client_id().as_str().to_string(), secret: creds.secret().to_string(), used: false, sin: t(i.stdin_screen_id()), sout: t(i.stdout_screen_id()), serr: t(i.stderr_screen_id()) };
        self.with(|st| {
            for o in [i.stdin_screen_id(), i.stdout_screen_id(), i.stderr_screen_id()] {
                if o == Some("") { st.complaints.push("an absent screen is registered as an empty screen ID".into()); }
            }
            st.app.push(json!({"k": "register", "id": arr(c.id.as_bytes()), "sin": arr(c.sin.as_bytes()), "sout": arr(c.sout.as_bytes()), "serr": arr(c.serr.as_bytes()), "s": arr(c.secret.as_bytes())}));
            st.clients.push(c);
            st.next += 1;
        });
        creds
    }
    fn unregister_clients(&self, s: ClientSelector) {
        self.with(|st| {
            st.app.push(match &s {
                ClientSelector::AtOrBelow(id) => json!({"k": "unregister", "id": arr(id.as_str().as_bytes())}),
                ClientSelector::StrictlyBelow(id) => json!({"k": "unregister_below", "id": arr(id.as_str().as_bytes())}),
            });
            // the selector borrows from the message, so compare owned copies
            st.clients.retain(|c| !selects(&s, &c.id));
        })
    }
    fn has_clients(&self, s: ClientSelector) -> bool {
        let r = self.with(|st| st.clients.iter().any(|c| selects(&s, &c.id)));
        self.dawdle();
        r
    }
    fn authorize_client(&self, secret: &str) -> Option<ClientIdentity> {
        self.with(|st| {
            let r = st.clients.iter_mut().find(|c| c.secret == secret && !c.used).map(|c| { c.used = true; identity(c) });
            st.app.push(json!({"k": "auth_client", "s": arr(secret.as_bytes()), "ok": r.is_some()}));
            r
        }).map(|r| { self.dawdle(); r })
    }
    fn find_client(&self, id: ClientID<'_>) -> Option<ClientIdentity> {
        self.with(|st| st.clients.iter().find(|c| c.id == id.as_str()).map(identity))
    }
    fn authorize_stdin(&self, secret: &str) -> Option<ScreenIdentity> {
        self.with(|st| {
            let r = st.screens.iter_mut().find(|c| c.isec == secret && !c.iused).map(|c| { c.iused = true; ScreenIdentity::new(&c.id) });
            st.app.push(json!({"k": "auth_stdin", "s": arr(secret.as_bytes()), "ok": r.is_some()}));
            r
        })
    }
    fn authorize_stdout(&self, secret: &str) -> Option<ScreenIdentity> {
        remember(self);
        self.with(|st| {
            let r = st.screens.iter_mut().find(|c| c.osec == secret && !c.oused).map(|c| { c.oused = true; ScreenIdentity::new(&c.id) });
            st.app.push(json!({"k": "auth_stdout", "s": arr(secret.as_bytes()), "ok": r.is_some()}));
            r
        })
    }
}
/// The registry's own reading of a selector (independent of ClientSelector::contains).
fn selects(s: &ClientSelector, id: &str) -> bool {
    match s {
        ClientSelector::AtOrBelow(x) => id.starts_with(x.as_str()),
        ClientSelector::StrictlyBelow(x) => id.starts_with(x.as_str()) && id != x.as_str(),
    }
}

/// Records what reaches a handler chain.
#[derive(Default)]
pub struct Log<N>(N);
impl<N: Handler<TApp>> Handler<TApp> for Log<N> {
    fn handle<D: Dispatch<TApp>>(&self, msg: &Message, conn: &mut Connection<TApp, D>) -> Result<(), HandlerError> {
        let args: Vec<Value> = msg.arguments().map(arr).collect();
        let d = conn.dispatch();
        let who = match conn.state() { ConnectionState::Msgio(c) => c.0.client_id().as_str().to_string(), _ => String::new() };
        d.application().with(|st| st.input.push(json!({"k": "msg", "ty": arr(msg.parsed_type().as_str().as_bytes()), "args": args, "who": who})));
        self.0.handle(msg, conn)
    }
    fn handle_error<D: Dispatch<TApp>>(&self, err: &ParseError, conn: &mut Connection<TApp, D>) {
        let kind = format!("{:?}", err.kind);
        conn.dispatch().application().with(|st| st.errs.push(json!({"kind": kind, "off": err.offset})));
        self.0.handle_error(err, conn)
    }
}
impl<N: MessageHandler<TApp>> MessageHandler<TApp> for Log<N> {
    fn get_supported_module_version(&self, module: &ModuleIdentifier<'_>) -> Option<u16> { self.0.get_supported_module_version(module) }
}
impl<N: HandshakeHandler<TApp>> HandshakeHandler<TApp> for Log<N> {}

/// Encodes an arbitrary message.
pub struct Raw<'a>(pub &'a str, pub &'a [&'a [u8]]);
impl<'a> EncodeMessage for Raw<'a> {
    fn encode(&self, buf: &mut [u8]) -> Result<usize, BufferTooSmallError> {
        let mut f = MessageFormatter::new(buf, self.0, self.1.len());
        for a in self.1 { f.add_argument(*a); }
        f.finalize()
    }
}

#[derive(Default)]
pub struct Ext<N>(N);
impl<N: MessageHandler<TApp>> Handler<TApp> for Ext<N> {
    fn handle<D: Dispatch<TApp>>(&self, msg: &Message, conn: &mut Connection<TApp, D>) -> Result<(), HandlerError> {
        let args: Vec<Vec<u8>> = msg.arguments().map(|a| a.to_vec()).collect();
        match msg.parsed_type().as_str() {
            "foo2.ok" => Ok(()),
            "foo2.bad" => Err(HandlerError::InvalidMessage),
            "foo2.echo" if args.len() == 1 => { conn.enqueue_message(&Raw("foo2.echo", &[&args[0]])); Ok(()) }
            "foo2.echo" | "foo2.bcast" if args.len() != 1 => Err(HandlerError::InvalidMessage),
            "foo2.quit" => { conn.set_state(ConnectionState::Teardown); Ok(()) }
            "foo2.quitbad" => { conn.set_state(ConnectionState::Teardown); Err(HandlerError::InvalidMessage) }
            "foo2.quitunk" => { conn.set_state(ConnectionState::Teardown); Err(HandlerError::UnknownMessageType) }
            "foo2.bcast" => {
                let v = args[0].clone();
                conn.dispatch().enqueue_broadcast(Box::new(move |c| if let ConnectionState::Msgio(_) = c.state() { c.enqueue_message(&Raw("foo2.note", &[&v])); }));
                Ok(())
            }
            "foo2.type" if args.len() != 2 => Err(HandlerError::InvalidMessage),
            "foo2.type" => {
                let (s, v) = (args[0].clone(), args[1].clone());
                conn.dispatch().enqueue_broadcast(Box::new(move |c| {
                    let mine = match c.state() { ConnectionState::Stdin(x) => x.screen_id().as_bytes() == &s[..], _ => false };
                    let api = std::str::from_utf8(&s).map(|s| c.state().can_receive_stdin_for_screen(&ScreenIdentity::new(s))).unwrap_or(mine);
                    if api != mine { c.dispatch().application().with(|st| st.complaints.push("can_receive_stdin_for_screen is wrong".into())); }
                    if mine { c.enqueue_stdin(&v); }
                }));
                Ok(())
            }
            _ => self.0.handle(msg, conn),
        }
    }
    fn handle_error<D: Dispatch<TApp>>(&self, err: &ParseError, conn: &mut Connection<TApp, D>) { self.0.handle_error(err, conn) }
}
impl<N: MessageHandler<TApp>> MessageHandler<TApp> for Ext<N> {
    fn get_supported_module_version(&self, module: &ModuleIdentifier<'_>) -> Option<u16> {
        match module.as_str() {
            "foo2" => Some(4),
            "bar65535" => Some(65535),
            _ => self.0.get_supported_module_version(module),
        }
    }
}
impl<N: MessageHandler<TApp>> vt6::server::core::MessageHandlerExt<TApp> for Ext<N> {}

#[derive(Default)]
pub struct HsExt<N>(N);
impl<N: HandshakeHandler<TApp>> Handler<TApp> for HsExt<N> {
    fn handle<D: Dispatch<TApp>>(&self, msg: &Message, conn: &mut Connection<TApp, D>) -> Result<(), HandlerError> {
        if msg.parsed_type().as_str() == "foo2.hello" { return Ok(()); }
        self.0.handle(msg, conn)
    }
    fn handle_error<D: Dispatch<TApp>>(&self, err: &ParseError, conn: &mut Connection<TApp, D>) { self.0.handle_error(err, conn) }
}
impl<N: HandshakeHandler<TApp>> HandshakeHandler<TApp> for HsExt<N> {}
