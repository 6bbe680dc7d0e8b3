//! T01 and T02: where and how clients connect, and TLS on both sides.
use crate::api::*;
use crate::engine::*;
use crate::net::*;
use crate::rfc::{self, Frame};
use futures::{Future, Sink, Stream};
use native_tls::{Protocol, TlsConnector};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::io::{self, Read, Write};
use std::net::{IpAddr, SocketAddr, TcpListener, TcpStream};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use websocket::client::r#async::Client as AsyncClient;
use websocket::client::sync::Client;
use websocket::{ClientBuilder, OwnedMessage, WebSocketError};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum How {
    Connect,
    Insecure,
    Secure,
    AConnect,
    AInsecure,
    ASecure,
}
pub const HOWS: &[How] = &[How::Connect, How::Insecure, How::Secure, How::AConnect, How::AInsecure, How::ASecure];
impl How {
    pub fn tls(self, scheme: &str) -> bool {
        match self {
            How::Connect | How::AConnect => scheme == "wss" || scheme == "https",
            How::Insecure | How::AInsecure => false,
            How::Secure | How::ASecure => true,
        }
    }
}
/// What a client got to see.
#[derive(Debug)]
enum Got {
    /// first message received, peer address where it can be asked for
    Talked(OwnedMessage, Option<SocketAddr>),
    Failed(String),
}
fn sync_end<S>(c: Result<Client<S>, WebSocketError>, addr: impl Fn(&Client<S>) -> io::Result<SocketAddr>, answer: bool) -> Got
where
    S: websocket::stream::sync::Stream,
{
    match c {
        Err(e) => Got::Failed(format!("{} {:?}", err_name(&e), e)),
        Ok(mut c) => match c.recv_message() {
            Ok(m) => {
                if answer {
                    if let Err(e) = c.send_message(&OwnedMessage::Text("yo".into())) {
                        return Got::Failed(format!("sending: {}", err_name(&e)));
                    }
                    // wait until the server is done
                    let _ = c.recv_message();
                }
                let a = addr(&c).ok();
                Got::Talked(m, a)
            }
            Err(e) => Got::Failed(format!("receiving: {}", err_name(&e))),
        },
    }
}
fn async_end<S, F>(f: F, answer: bool) -> Result<Got, Fail>
where
    S: websocket::stream::r#async::Stream + 'static,
    F: Future<Item = (AsyncClient<S>, hyper::header::Headers), Error = WebSocketError>,
{
    let r = on_runtime(f.and_then(move |(c, _)| {
        c.into_future().map_err(|(e, _)| e).and_then(move |(m, c)| {
            if answer {
                futures::future::Either::A(
                    c.send(OwnedMessage::Text("yo".into()))
                        .and_then(|c| c.into_future().then(|_| Ok(())))
                        .map(move |_| m),
                )
            } else {
                futures::future::Either::B(futures::future::ok(m))
            }
        })
    }))?;
    Ok(match r {
        Ok(Some(m)) => Got::Talked(m, None),
        Ok(None) => Got::Failed("the stream ends".into()),
        Err(e) => Got::Failed(format!("{} {:?}", err_name(&e), e)),
    })
}
fn connect(how: How, url: &str, conn: Option<TlsConnector>, answer: bool) -> Result<Got, Fail> {
    let mut b = match ClientBuilder::new(url) {
        Ok(b) => b,
        Err(e) => fail!("the URL {} is refused: {}", url, e),
    };
    Ok(match how {
        How::Connect => sync_end(b.connect(conn), |c| c.peer_addr(), answer),
        How::Insecure => sync_end(b.connect_insecure(), |c| c.peer_addr(), answer),
        How::Secure => sync_end(b.connect_secure(conn), |c| c.peer_addr(), answer),
        How::AConnect => async_end(b.async_connect(conn), answer)?,
        How::AInsecure => async_end(b.async_connect_insecure(), answer)?,
        How::ASecure => async_end(b.async_connect_secure(conn), answer)?,
    })
}
/// the answer to the handshake in `h`
fn answer_to(h: &rfc::Head) -> Result<Vec<u8>, Fail> {
    match h.one("Sec-WebSocket-Key").and_then(rfc::unb64) {
        Some(k) => Ok(response_for(&k)),
        None => fail!("the client's request carries no single key: {:?}", h),
    }
}

// ------------------------------------------------------------------------------- T01

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum HostKind {
    Own,
    Localhost,
    V6,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum PortKind {
    Default,
    Free,
    P80,
    P443,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Where {
    how: How,
    scheme: String,
    host: HostKind,
    port: PortKind,
    /// the port called free, 0: any
    #[serde(default)]
    number: u16,
    user: String,
    path: String,
    /// nobody listens on the port
    refused: bool,
}
fn where_case() -> BoxedStrategy<Where> {
    (
        select(HOWS),
        select(vec!["ws", "ws", "wss", "wss", "http", "https", "foo"]),
        prop_oneof![8 => Just(HostKind::Own), 2 => Just(HostKind::Localhost), 1 => Just(HostKind::V6)],
        (
            select(vec![PortKind::Default, PortKind::Default, PortKind::Free, PortKind::Free, PortKind::P80, PortKind::P443]),
            prop_oneof![
                3 => Just(0u16),
                1 => select(vec![1u16, 81, 442, 444, 1023, 1024, 8000, 8080, 8443, 32767, 32768, 65534, 65535]),
                1 => 1u16..=65535,
            ],
        ),
        prop_oneof![3 => Just(""), 1 => Just("u@"), 1 => Just("u:99@")],
        select(vec!["", "/", "/a/b?c=d", "/x:81/y", "/?q=http://127.0.0.1:82/", "/%20?:1#frag:2", "/@127.0.0.1:83/", "?a@b:84", "//127.0.0.1:85/", "/p#@x:86"]),
        proptest::bool::weighted(0.1),
    )
        .prop_map(|(how, scheme, mut host, (port, number), user, path, refused)| {
            if port != PortKind::Free && host != HostKind::Own {
                host = HostKind::Own;
            }
            let number = if port == PortKind::Free && host == HostKind::Own && number != 80 && number != 443 { number } else { 0 };
            Where { how, scheme: scheme.into(), host, port, number, user: user.into(), path: path.into(), refused: refused && port == PortKind::Free }
        })
        .boxed()
}
fn t01_where(c: &Where, o: &mut Obs) -> Res {
    patient(c, o, t01_where_run)
}
fn t01_where_run(c: &Where, o: &mut Obs) -> Res {
    let ip: IpAddr = match c.host {
        HostKind::Own => fresh_ip().into(),
        HostKind::Localhost => [127, 0, 0, 1].into(),
        HostKind::V6 => "::1".parse().unwrap(),
    };
    let free = match TcpListener::bind((ip, c.number)) {
        Ok(l) => l,
        Err(_) if c.host == HostKind::V6 => {
            o.class("no IPv6 here");
            return Ok(());
        }
        Err(e) => return env(Err(e), "bind"),
    };
    let port = env(free.local_addr(), "local_addr")?.port();
    let mut at: Vec<(u16, TcpListener)> = vec![];
    if c.host == HostKind::Own {
        for p in [80, 443] {
            match TcpListener::bind((ip, p)) {
                Ok(l) => at.push((p, l)),
                Err(e) if c.port != PortKind::Free => return env(Err(e), "bind to a low port"),
                Err(_) => {}
            }
        }
    }
    if c.refused {
        drop(free);
    } else {
        at.push((port, free));
    }
    let known = match c.scheme.as_str() {
        "wss" | "https" => 443,
        "ws" | "http" => 80,
        // no default of its own
        _ if c.how.tls(&c.scheme) => 443,
        _ => 80,
    };
    let (text, want) = match c.port {
        PortKind::Default => (String::new(), known),
        PortKind::Free => (format!(":{}", port), port),
        PortKind::P80 => (":80".into(), 80),
        PortKind::P443 => (":443".into(), 443),
    };
    let host = match c.host {
        HostKind::Own => ip.to_string(),
        HostKind::Localhost => "localhost".into(),
        HostKind::V6 => "[::1]".into(),
    };
    let tls = c.how.tls(&c.scheme);
    let url = format!("{}://{}{}{}{}", c.scheme, c.user, host, text, c.path);
    let (how, url2) = (c.how, url.clone());
    let client = side(move || connect(how, &url2, None, false));
    let mut client = Some(client);

    // wait for the connection, wherever it comes
    for (_, l) in &at {
        let _ = l.set_nonblocking(true);
    }
    let until = Instant::now() + WAIT;
    let mut conn = None;
    let mut result = None;
    'wait: loop {
        for (p, l) in &at {
            if let Ok((s, _)) = l.accept() {
                let _ = s.set_nonblocking(false);
                conn = Some((*p, raw(s)));
                break 'wait;
            }
        }
        if result.is_some() {
            break;
        }
        if let Some(r) = client.as_ref().unwrap().ready() {
            // one more round: the connection may have come first
            result = Some(r);
            continue;
        }
        if Instant::now() > until {
            return stall(&format!("{:?} {} neither connects nor fails", c.how, url));
        }
        std::thread::sleep(Duration::from_micros(200));
    }
    if c.refused {
        ensure!(conn.is_none(), "{:?} {}: connected to port {} although {} was named", c.how, url, conn.as_ref().unwrap().0, want);
        match result.unwrap().take("the client")? {
            Got::Failed(_) => {}
            g => fail!("{:?} {}: {:?} although nobody listens", c.how, url, g),
        }
        o.class("refused");
        o.nontrivial(true);
        return Ok(());
    }
    let (p, mut peer) = match conn {
        Some(x) => x,
        None => {
            let r = result.unwrap().take("the client")?;
            fail!("{:?} {}: no connection to {}:{}, the client says {:?}", c.how, url, ip, want, r)
        }
    };
    ensure!(p == want, "{:?} {}: connected to port {} instead of {}", c.how, url, p, want);
    let first = peer.need(1, "the first byte of the client")?[0];
    peer.buf.insert(0, first);
    if tls {
        ensure!(first == 0x16, "{:?} {}: the client starts with byte {:#x} instead of a TLS handshake", c.how, url, first);
        drop(peer);
        if let Got::Talked(m, _) = client.take().unwrap().join("the client")? {
            fail!("{:?} {}: received {:?} without a TLS session", c.how, url, m);
        }
        o.class("tls");
    } else {
        ensure!(first == b'G', "{:?} {}: the client starts with byte {:#x} instead of GET", c.how, url, first);
        let h = peer.head("the request")?;
        let mut a = answer_to(&h)?;
        a.extend(Frame::new(true, 1, b"hi".to_vec()).encode());
        peer.put(&a, "the response")?;
        match client.take().unwrap().join("the client")? {
            Got::Talked(OwnedMessage::Text(ref t), a) if t == "hi" => {
                if let Some(a) = a {
                    ensure!(a == SocketAddr::new(ip, want), "{:?} {}: the client reports peer {}", c.how, url, a);
                }
            }
            g => fail!("{:?} {}: the client got {:?}", c.how, url, g),
        }
        peer.end("the client's end")?;
        o.class("plain");
    }
    for (p, l) in &at {
        ensure!(l.accept().is_err(), "{:?} {}: a second connection, to port {}", c.how, url, p);
    }
    o.class(format!("{:?}", c.how));
    o.class_if(c.port == PortKind::Default, format!("default {} {}", c.scheme, want));
    o.class(format!("host {:?}", c.host));
    o.class_if(c.number > 0, "a port named by the case");
    o.nontrivial(true);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct NoHost {
    how: How,
    url: String,
}
fn t01_nohost(c: &NoHost, o: &mut Obs) -> Res {
    patient(c, o, t01_nohost_run)
}
fn t01_nohost_run(c: &NoHost, o: &mut Obs) -> Res {
    match ClientBuilder::new(&c.url) {
        Err(_) => return Ok(()),
        Ok(_) => {}
    }
    match connect(c.how, &c.url, None, false)? {
        Got::Failed(_) => {
            o.class(format!("{:?}", c.how));
            o.nontrivial(true);
            Ok(())
        }
        g => fail!("{:?} {}: {:?} from a URL without host", c.how, c.url, g),
    }
}

// ------------------------------------------------------------------------------- T02, clients

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Trust {
    /// no connector given
    Default,
    Plain,
    NoRoots,
    OnlyOther,
    OnlyTrusted,
    AddOther,
    AnyCert,
    AnyHost,
}
const TRUSTS: &[Trust] = &[
    Trust::Default, Trust::Default, Trust::Default, Trust::Plain, Trust::NoRoots, Trust::OnlyOther, Trust::OnlyTrusted, Trust::AddOther,
    Trust::AnyCert, Trust::AnyHost,
];
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Server {
    Tls,
    /// answers the hello with a plaintext upgrade
    Http,
    Garbage,
    Close,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Auth {
    how: How,
    scheme: String,
    host: String,
    cert: Cert,
    trust: Trust,
    old: bool,
    server: Server,
    seed: u32,
}
fn auth_case() -> BoxedStrategy<Auth> {
    (
        select(vec![How::Connect, How::Secure, How::AConnect, How::ASecure]),
        select(vec!["wss", "wss", "https", "ws", "http"]),
        select(vec!["localhost", "127.0.0.1"]),
        prop_oneof![1 => Just(Cert::Good), 2 => select(CERTS)],
        select(TRUSTS),
        proptest::bool::weighted(0.25),
        prop_oneof![12 => Just(Server::Tls), 1 => Just(Server::Http), 1 => Just(Server::Garbage), 1 => Just(Server::Close)],
        any::<u32>(),
    )
        .prop_map(|(how, scheme, host, cert, trust, old, server, seed)| {
            let scheme = if how.tls(scheme) { scheme } else { "wss" };
            Auth { how, scheme: scheme.into(), host: host.into(), cert, trust, old, server, seed }
        })
        .boxed()
}
fn connector(t: Trust, old: bool) -> Option<TlsConnector> {
    let mut b = TlsConnector::builder();
    match t {
        Trust::Default => return None,
        Trust::Plain => {}
        Trust::NoRoots => {
            b.disable_built_in_roots(true);
        }
        Trust::OnlyOther => {
            b.disable_built_in_roots(true).add_root_certificate(root(false));
        }
        Trust::OnlyTrusted => {
            b.disable_built_in_roots(true).add_root_certificate(root(true));
        }
        Trust::AddOther => {
            b.add_root_certificate(root(false));
        }
        Trust::AnyCert => {
            b.danger_accept_invalid_certs(true);
        }
        Trust::AnyHost => {
            b.danger_accept_invalid_hostnames(true);
        }
    }
    if old {
        b.max_protocol_version(Some(Protocol::Tlsv12));
    }
    Some(b.build().expect("connector"))
}
fn acceptable(cert: Cert, trust: Trust, host: &str) -> bool {
    let issued_ok = match trust {
        Trust::AnyCert => return true,
        Trust::NoRoots => false,
        Trust::OnlyOther => cert == Cert::Untrusted,
        Trust::AddOther => cert != Cert::Expired,
        _ => cert != Cert::Untrusted && cert != Cert::Expired,
    };
    issued_ok && (trust == Trust::AnyHost || cert.matches(host))
}
/// keeps a record of everything the client sends
struct Taped {
    s: TcpStream,
    tape: Arc<Mutex<Vec<u8>>>,
}
impl Read for Taped {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.s.read(b)?;
        self.tape.lock().unwrap().extend_from_slice(&b[..n]);
        Ok(n)
    }
}
impl Write for Taped {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.s.write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.s.flush()
    }
}
/// the bytes are TLS records (the last one may be cut) and hide the request
fn only_tls(t: &[u8]) -> Result<(), String> {
    let mut at = 0;
    while at < t.len() {
        if !(20..=23).contains(&t[at]) {
            return Err(format!("byte {:#x} where a TLS record should start, at {}", t[at], at));
        }
        if at + 5 > t.len() {
            break;
        }
        if t[at + 1] != 3 {
            return Err(format!("record of version {}.{} at {}", t[at + 1], t[at + 2], at));
        }
        at += 5 + u16::from_be_bytes([t[at + 3], t[at + 4]]) as usize;
    }
    for w in [&b"GET "[..], b"Sec-WebSocket", b"HTTP/1.1"] {
        if t.windows(w.len()).any(|x| x == w) {
            return Err(format!("{:?} readable on the wire", String::from_utf8_lossy(w)));
        }
    }
    Ok(())
}
#[derive(Default)]
struct Seen {
    tape: Vec<u8>,
    /// what came through the session
    plain: Vec<u8>,
    session: bool,
    talked: bool,
}
fn t02_auth(c: &Auth, o: &mut Obs) -> Res {
    patient(c, o, t02_auth_run)
}
fn t02_auth_run(c: &Auth, o: &mut Obs) -> Res {
    let l = env(TcpListener::bind("127.0.0.1:0"), "bind")?;
    let port = env(l.local_addr(), "local_addr")?.port();
    let (cert, server, seed) = (c.cert, c.server, c.seed);
    let host = side(move || -> Result<Seen, Fail> {
        let s = match accept_within(&l, WAIT) {
            Some(s) => s,
            None => return stall("no connection"),
        };
        let _ = s.set_read_timeout(Some(WAIT));
        let _ = s.set_write_timeout(Some(WAIT));
        no_linger(&s);
        let rest = env(s.try_clone(), "clone")?;
        let tape = Arc::new(Mutex::new(vec![]));
        let taped = Taped { s, tape: tape.clone() };
        let mut seen = Seen::default();
        match server {
            Server::Tls => {
                if let Ok(t) = cert.acceptor().accept(taped) {
                    seen.session = true;
                    let mut p = Raw { s: t, buf: vec![], eof: false };
                    // everything up to the blank line, or up to the end
                    while !p.eof && !p.buf.windows(4).any(|w| w == b"\r\n\r\n") {
                        let had = p.buf.len();
                        match p.need(had + 1, "the request") {
                            Ok(v) => p.buf.splice(0..0, v).for_each(drop),
                            Err(Fail::Violation(_)) => break,
                            Err(e) => return Err(e),
                        }
                    }
                    seen.plain = p.buf.clone();
                    if p.buf.windows(4).any(|w| w == b"\r\n\r\n") {
                        let h = p.head("the request")?;
                        let mut a = answer_to(&h)?;
                        a.extend(Frame::new(true, 1, b"hi".to_vec()).encode());
                        p.put(&a, "the response")?;
                        if let Ok(f) = p.frame("the client's message") {
                            seen.talked = f.payload == b"yo" && f.op == 1 && f.mask.is_some();
                        }
                        let _ = p.put(&Frame::new(true, 8, vec![]).encode(), "the close");
                        let _ = p.end("the end");
                    }
                }
            }
            other => {
                let mut p = Raw { s: taped, buf: vec![], eof: false };
                p.need(1, "the client's hello")?;
                match other {
                    Server::Http => {
                        let mut a = response_head();
                        a.extend(Frame::new(true, 1, b"hi".to_vec()).encode());
                        let _ = p.put(&a, "plaintext");
                    }
                    Server::Garbage => {
                        let _ = p.put(&crate::gen::fill(1 + seed as usize % 60, seed), "garbage");
                    }
                    _ => {}
                }
                p.s.s.shutdown(std::net::Shutdown::Write).ok();
                let _ = p.end("the end");
            }
        }
        let mut more = raw(rest);
        let rest = more.end("the end").unwrap_or_default();
        seen.tape = tape.lock().unwrap().clone();
        seen.tape.extend(rest);
        Ok(seen)
    });
    let url = format!("{}://{}:{}/t", c.scheme, c.host, port);
    let got = connect(c.how, &url, connector(c.trust, c.old), true)?;
    let seen = host.join("the server")?;
    let ok = c.server == Server::Tls && acceptable(c.cert, c.trust, &c.host);
    let what = format!("{:?} {} certificate {:?} connector {:?} server {:?}", c.how, url, c.cert, c.trust, c.server);
    ensure!(!seen.tape.is_empty(), "{}: nothing was sent", what);
    if let Err(e) = only_tls(&seen.tape) {
        fail!("{}: not only TLS on the wire: {}", what, e);
    }
    if ok {
        match got {
            Got::Talked(OwnedMessage::Text(ref t), _) if t == "hi" => {}
            g => fail!("{}: must work, but the client says {:?}", what, g),
        }
        ensure!(seen.talked, "{}: the client's message did not arrive", what);
        o.class("accepted");
    } else {
        if let Got::Talked(m, _) = got {
            fail!("{}: must be refused, but the client received {:?}", what, m);
        }
        ensure!(seen.plain.is_empty(), "{}: must be refused, but {} bytes were sent through the session", what, seen.plain.len());
        o.class("refused");
    }
    o.class(format!("{:?}/{:?}", c.cert, c.trust));
    o.class(format!("{:?}", c.how));
    o.nontrivial(c.server == Server::Tls);
    Ok(())
}

// ------------------------------------------------------------------------------- T02, blocking server

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum TPeer {
    Good(Vec<String>),
    BadRequest,
    TlsGarbage,
    Plain,
    Garbage(Vec<u8>),
    HalfHello,
    Close,
}
pub fn tpeer() -> BoxedStrategy<TPeer> {
    prop_oneof![
        4 => vec("[a-z]{0,20}", 0..4).prop_map(TPeer::Good),
        1 => Just(TPeer::BadRequest),
        1 => Just(TPeer::TlsGarbage),
        1 => Just(TPeer::Plain),
        1 => vec(any::<u8>(), 0..40).prop_map(TPeer::Garbage),
        1 => Just(TPeer::HalfHello),
        1 => Just(TPeer::Close),
    ]
    .boxed()
}
pub fn any_cert() -> TlsConnector {
    TlsConnector::builder().danger_accept_invalid_certs(true).build().expect("connector")
}
pub fn path_head(path: &str) -> Vec<u8> {
    String::from_utf8(request_head()).unwrap().replace("/chat", path).into_bytes()
}
/// plays one peer; `Ok` if everything that came back was right
pub fn play(s: TcpStream, p: TPeer, path: String) -> Res {
    let mut r = raw(s);
    let no_answer = |b: Vec<u8>| -> Res {
        ensure!(!b.windows(4).any(|w| w == b"HTTP" || w == b"101 "), "a peer without TLS got an HTTP answer: {:?}", String::from_utf8_lossy(&b));
        Ok(())
    };
    match p {
        TPeer::Good(_) | TPeer::BadRequest | TPeer::TlsGarbage => {
            let _ = r.s.set_nodelay(true);
            let t = match any_cert().connect("localhost", r.s) {
                Ok(t) => t,
                Err(native_tls::HandshakeError::WouldBlock(_)) => return stall("TLS handshake"),
                Err(e) => fail!("the secure server refuses a TLS session: {}", e),
            };
            let mut t = Raw { s: t, buf: vec![], eof: false };
            match p {
                TPeer::Good(ref v) => {
                    let mut b = path_head(&path);
                    for m in v {
                        b.extend(Frame::new(true, 1, m.clone().into_bytes()).masked(Some([9, 8, 7, 6])).encode());
                    }
                    t.put(&b, "the request")?;
                    let h = t.head("the response")?;
                    ensure!(h.line.starts_with("HTTP/1.1 101"), "{}: answered {:?}", path, h.line);
                    ensure!(h.one("Sec-WebSocket-Accept") == Some(&rfc::accept_for(&KEY)), "{}: wrong accept token", path);
                    for m in v {
                        let f = t.frame("an echo")?;
                        ensure!(f.payload == m.as_bytes() && f.op == 1 && f.mask.is_none(), "{}: echo {:?} of {:?}", path, String::from_utf8_lossy(&f.payload), m);
                    }
                    t.put(&Frame::new(true, 8, vec![]).masked(Some([0; 4])).encode(), "the close")?;
                }
                TPeer::BadRequest => {
                    let b = String::from_utf8(path_head(&path)).unwrap().replace("Upgrade: websocket", "Upgrade: nothing");
                    t.put(b.as_bytes(), "the request")?;
                }
                _ => t.put(b"\x00\xff\x00 garbage \xfe\r\n\r\n", "garbage")?,
            }
            if !matches!(p, TPeer::Good(_)) {
                // the server says "bye" on the stream it was given back
                let b = t.need(3, "the farewell")?;
                ensure!(b == b"bye", "{}: {:?} instead of the farewell", path, String::from_utf8_lossy(&b));
            }
            let _ = t.s.shutdown();
            let _ = t.end("the end of the session")?;
            no_linger(t.s.get_ref());
            Ok(())
        }
        TPeer::Plain => {
            let _ = r.put(&path_head(&path), "a request without TLS");
            no_answer(r.end("the end of the connection")?)
        }
        TPeer::Garbage(b) => {
            let _ = r.put(&b, "garbage");
            r.finish();
            no_answer(r.end("the end of the connection")?)
        }
        TPeer::HalfHello => {
            let _ = r.put(&[0x16, 3, 1, 0, 200, 1, 0, 0, 196, 3, 3, 1, 2, 3], "half a hello");
            r.finish();
            no_answer(r.end("the end of the connection")?)
        }
        TPeer::Close => Ok(()),
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SecureServer {
    peers: Vec<TPeer>,
    iter: bool,
}
fn t02_server(c: &SecureServer, o: &mut Obs) -> Res {
    patient(c, o, t02_server_run)
}
fn t02_server_run(c: &SecureServer, o: &mut Obs) -> Res {
    let mut server = env(websocket::sync::Server::bind_secure((fresh_ip(), 0), Cert::Good.acceptor()), "bind")?;
    let addr = match server.local_addr() {
        Ok(a) => a,
        Err(e) => fail!("local_addr fails: {}", e),
    };
    let mut sides = vec![];
    let mut from = vec![];
    for (i, p) in c.peers.iter().enumerate() {
        let s = env(TcpStream::connect(addr), "connect")?;
        from.push(env(s.local_addr(), "local_addr")?);
        let p = p.clone();
        sides.push(side(move || play(s, p, format!("/p{}", i))));
    }
    for (i, p) in c.peers.iter().enumerate() {
        let r = if c.iter { server.next().expect("endless") } else { server.accept() };
        match r {
            Ok(u) => {
                let v = match p {
                    TPeer::Good(v) => v,
                    _ => fail!("connection {} {:?}: accepted", i, p),
                };
                ensure!(u.uri() == format!("/p{}", i), "connection {}: the request is for {}", i, u.uri());
                ensure!(u.stream.get_ref().peer_addr().ok() == Some(from[i]), "connection {}: another peer's stream", i);
                let mut cl = match u.accept() {
                    Ok(c) => c,
                    Err((_, e)) => fail!("connection {}: accepting fails: {}", i, e),
                };
                for (k, m) in v.iter().enumerate() {
                    match cl.recv_message() {
                        Ok(OwnedMessage::Text(ref t)) if t == m => {}
                        r => fail!("connection {}: message {} is {:?}, sent was {:?}", i, k, r.map(|m| from_owned(&m).brief()).map_err(|e| err_name(&e)), m),
                    }
                    if let Err(e) = cl.send_message(&OwnedMessage::Text(m.clone())) {
                        fail!("connection {}: sending fails: {}", i, err_name(&e));
                    }
                }
                let _ = cl.recv_message();
                let mut s = cl.into_stream().0;
                let _ = s.shutdown();
            }
            Err(e) => {
                ensure!(!matches!(p, TPeer::Good(_)), "connection {}: refused: {:?}", i, e.error);
                match p {
                    TPeer::BadRequest | TPeer::TlsGarbage => {
                        ensure!(e.parsed.is_some() == (*p == TPeer::BadRequest), "connection {} {:?}: parsed request present: {}", i, p, e.parsed.is_some());
                        match e.stream {
                            Some(mut s) => {
                                ensure!(s.get_ref().peer_addr().ok() == Some(from[i]), "connection {}: another peer's stream", i);
                                let _ = s.write_all(b"bye");
                                let _ = s.shutdown();
                            }
                            None => fail!("connection {} {:?}: no stream handed back", i, p),
                        }
                    }
                    _ => ensure!(e.parsed.is_none(), "connection {} {:?}: a request parsed without TLS", i, p),
                }
                o.class("failed");
            }
        }
    }
    for (i, s) in sides.into_iter().enumerate() {
        s.join(&format!("peer {}", i)).map_err(|e| match e {
            Fail::Violation(m) => Fail::Violation(format!("peer {} {:?}: {}", i, c.peers[i], m)),
            e => e,
        })?;
    }
    let good = c.peers.iter().filter(|p| matches!(p, TPeer::Good(_))).count();
    o.class_if(good > 0, "good");
    o.nontrivial(good > 0 && good < c.peers.len());
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "T01",
            level: "1",
            assumptions: &[
                "loopback addresses stand for the network: names with several addresses cannot be set up here",
                "the default port of http and https URLs is theirs (80, 443), whatever connect variant is used",
            ],
            suites: vec![
                suite(
                    "endpoint",
                    "six connect variants, URLs with five schemes, addresses, localhost and IPv6, explicit and default ports, user info and misleading paths; listeners on the free port, 80 and 443 of an address of its own report who connected and how; non-trivial: all",
                    opts(8_000, 200_000).shrink(60),
                    where_case,
                    t01_where,
                ),
                suite(
                    "no-host",
                    "six connect variants with URLs that have no host; non-trivial: the URL parses",
                    opts(600, 4_000).shrink(60),
                    || {
                        (select(HOWS), select(vec!["data:text/plain,x", "foo:bar", "foo:/a/b", "unix:/run/x.sock", "mailto:a@b.c", "wss-x:443", "foo:///x", "file:///etc/x"]))
                            .prop_map(|(how, url)| NoHost { how, url: url.into() })
                            .boxed()
                    },
                    t01_nohost,
                ),
            ],
        },
        Prop {
            id: "T02",
            level: "1",
            assumptions: &["native-tls and OpenSSL are trusted for the TLS protocol itself; certificates are fixtures made with a throw-away authority"],
            suites: vec![
                suite(
                    "client",
                    "four secure connect variants, six certificates (good, by name, by address, wrong name, untrusted, expired), eight connector configurations, TLS 1.2 and 1.3, servers without TLS; everything on the wire recorded; non-trivial: a TLS server",
                    opts(8_000, 200_000).shrink(60),
                    auth_case,
                    t02_auth,
                ),
                suite(
                    "blocking-server",
                    "a secure blocking server with a generated sequence of peers: TLS with good and bad requests, plaintext requests, garbage, cut hellos, aborts; non-trivial: good and bad peers mixed",
                    opts(2_500, 80_000).shrink(60),
                    || (vec(tpeer(), 1..7), any::<bool>()).prop_map(|(peers, iter)| SecureServer { peers, iter }).boxed(),
                    t02_server,
                ),
                super::serve::t02_suite(),
            ],
        },
    ]
}
