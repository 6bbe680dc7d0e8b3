//! H07-H10: the client side of the handshake, and bytes travelling with it.
use super::frames::{child_words, judge_random, role};
use crate::dict;
use crate::api::*;
use crate::engine::*;
use crate::gen::{self, fast_plan, plan, Item};
use crate::http::Custom;
use crate::http::*;
use crate::mock::*;
use crate::rfc::{self, Msg};
use hyper::buffer::BufReader;
use hyper::header::{Cookie, Headers, UserAgent};
use hyper::net::NetworkStream;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{self, Read, Write};
use std::sync::{Arc, Mutex};
use tokio_io::{AsyncRead, AsyncWrite};
use websocket::header::{Origin, WebSocketExtensions, WebSocketProtocol, WebSocketVersion};
use websocket::result::{WebSocketError, WebSocketOtherError};
use websocket::server::upgrade::r#async::IntoWs as AsyncIntoWs;
use websocket::server::upgrade::sync::{HyperRequest, IntoWs as SyncIntoWs, RequestStreamPair};
use websocket::url::Url;
use websocket::ClientBuilder;

// ------------------------------------------------------------------------------- a peer in a box

type Answerer = Box<dyn FnMut(&[u8]) -> Vec<u8> + Send>;
/// A stream whose peer answers once a whole request head has been written.
pub struct Responder {
    pub written: Arc<Mutex<Vec<u8>>>,
    ready: Option<Vec<u8>>,
    at: usize,
    answer: Answerer,
    wplan: Plan,
    rplan: Plan,
    mode: Mode,
}
impl Responder {
    pub fn new(mode: Mode, answer: impl FnMut(&[u8]) -> Vec<u8> + Send + 'static) -> (Responder, Arc<Mutex<Vec<u8>>>) {
        let w = Arc::new(Mutex::new(vec![]));
        (
            Responder {
                written: w.clone(),
                ready: None,
                at: 0,
                answer: Box::new(answer),
                wplan: Plan::default(),
                rplan: Plan::default(),
                mode,
            },
            w,
        )
    }
    fn plans(mut self, r: &[u8], w: &[u8]) -> Responder {
        self.rplan = Plan::new(r);
        self.wplan = Plan::new(w);
        self
    }
    fn hiccup(&self) -> io::Error {
        let k = if self.mode == Mode::Blocking { io::ErrorKind::Interrupted } else { io::ErrorKind::WouldBlock };
        io::Error::new(k, "scripted hiccup")
    }
}
impl Read for Responder {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.ready.is_none() {
            let w = self.written.lock().unwrap().clone();
            if !w.windows(4).any(|x| x == b"\r\n\r\n") {
                return match self.mode {
                    Mode::Blocking => Ok(0),
                    Mode::Async => Err(io::Error::new(io::ErrorKind::WouldBlock, "nothing asked yet")),
                };
            }
            self.ready = Some((self.answer)(&w));
        }
        let lim = match self.rplan.next_step() {
            Step::Up(n) => n,
            // the blocking handshake does not retry interrupted reads
            Step::Hiccup if self.mode == Mode::Blocking => 1,
            Step::Hiccup => return Err(self.hiccup()),
        };
        let r = self.ready.as_ref().unwrap();
        let n = lim.min(b.len()).min(r.len() - self.at);
        b[..n].copy_from_slice(&r[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
impl Write for Responder {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let n = match self.wplan.next_step() {
            Step::Up(n) => n.min(b.len()),
            Step::Hiccup => return Err(self.hiccup()),
        };
        self.written.lock().unwrap().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl AsyncRead for Responder {}
impl AsyncWrite for Responder {
    fn shutdown(&mut self) -> futures::Poll<(), io::Error> {
        Ok(futures::Async::Ready(()))
    }
}
/// the key in a request head
pub(super) fn key_of(head: &[u8]) -> Option<Vec<u8>> {
    let h = rfc::parse_head(head).ok()?;
    rfc::unb64(h.one("sec-websocket-key")?)
}
/// connects to a peer that answers the key properly; the request bytes and the outcome
fn attempt(b: &mut ClientBuilder<'_>, sync: bool, rplan: &[u8], wplan: &[u8], answer: impl FnMut(&[u8]) -> Vec<u8> + Send + 'static) -> (Vec<u8>, Result<(), Option<WebSocketError>>) {
    if sync {
        let (r, w) = Responder::new(Mode::Blocking, answer);
        let res = b.connect_on(r.plans(rplan, wplan)).map(|_| ()).map_err(Some);
        let bytes = w.lock().unwrap().clone();
        (bytes, res)
    } else {
        let (r, w) = Responder::new(Mode::Async, answer);
        let f = b.clone().async_connect_on(r.plans(rplan, wplan));
        let res = match drive(f, (rplan.len() + wplan.len() + 4) * 6000) {
            Driven::Ok(_) => Ok(()),
            Driven::Err(e) => Err(Some(e)),
            Driven::Stall => Err(None),
        };
        let bytes = w.lock().unwrap().clone();
        (bytes, res)
    }
}
pub(super) fn proper(head: &[u8]) -> Vec<u8> {
    response_for(&key_of(head).unwrap_or_default())
}
pub(super) fn why(e: &Option<WebSocketError>) -> String {
    match e {
        Some(e) => err_name(e),
        None => "stalled".into(),
    }
}

// ------------------------------------------------------------------------------- H07

#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) struct Target {
    pub(super) scheme: String,
    user: Option<(String, Option<String>)>,
    pub(super) host: String,
    pub(super) port: Option<u16>,
    path: String,
    query: Option<String>,
    fragment: Option<String>,
    /// path or query holds characters a URL has to escape
    pub(super) wild: bool,
}
impl Target {
    pub(super) fn text(&self) -> String {
        let mut s = format!("{}://", self.scheme);
        if let Some((u, p)) = &self.user {
            s.push_str(u);
            if let Some(p) = p {
                s.push(':');
                s.push_str(p);
            }
            s.push('@');
        }
        s.push_str(&self.host);
        if let Some(p) = self.port {
            s.push_str(&format!(":{}", p));
        }
        s.push_str(&self.path);
        if let Some(q) = &self.query {
            s.push('?');
            s.push_str(q);
        }
        if let Some(f) = &self.fragment {
            s.push('#');
            s.push_str(f);
        }
        s
    }
    fn resource(&self) -> String {
        let mut s = if self.path.is_empty() { "/".to_string() } else { self.path.clone() };
        if let Some(q) = &self.query {
            s.push('?');
            s.push_str(q);
        }
        s
    }
    fn host_value(&self) -> String {
        let h = self.host.to_ascii_lowercase();
        let default = match self.scheme.as_str() {
            "ws" | "http" => 80,
            _ => 443,
        };
        match self.port {
            Some(p) if p != default => format!("{}:{}", h, p),
            _ => h,
        }
    }
    fn auth(&self) -> Option<String> {
        match &self.user {
            Some((u, p)) if !u.is_empty() => Some(format!(
                "Basic {}",
                rfc::b64(format!("{}:{}", u, p.clone().unwrap_or_default()).as_bytes())
            )),
            _ => None,
        }
    }
}
pub(super) fn url_target() -> BoxedStrategy<Target> {
    let seg = "[a-zA-Z0-9_~-]{1,8}(%[2-7][0-9A-F])?";
    let path = prop_oneof![
        1 => Just(String::new()),
        2 => Just("/".to_string()),
        6 => vec(seg, 1..4).prop_map(|v| format!("/{}", v.join("/"))),
        1 => vec(seg, 1..3).prop_map(|v| format!("/{}/", v.join("//"))),
    ];
    let path = dict::strs(dict::fresh_ints(path.boxed(), 1, 5000, |n, _| format!("/{}", "p".repeat(n as usize - 1))), crate::http::pathish, |s, _| format!("/{}", s.trim_start_matches('/')));
    let wild = prop_oneof![
        "/[ -~]{0,12}",
        gen::string(8).prop_map(|s| format!("/{}", s)),
        Just("/a\r\nX-Evil: 1".to_string()),
        Just("/a HTTP/1.1\r\nX-Evil: 1\r\n\r\n".to_string()),
        Just("/a\tb c".to_string()),
    ];
    let path = prop_oneof![8 => path.prop_map(|p| (p, false)), 1 => wild.prop_map(|p| (p, true))];
    let cred = "[a-zA-Z0-9._~-]{1,10}";
    (
        (
            select(vec!["ws", "ws", "ws", "wss", "wss", "http", "https"]).prop_map(String::from),
            prop_oneof![
                4 => Just(None).boxed(),
                2 => (cred, proptest::option::of("[a-zA-Z0-9._~-]{0,10}")).prop_map(Some).boxed(),
                1 => Just(Some((String::new(), Some("pw".to_string())))).boxed(),
            ],
            prop_oneof![
                5 => "[a-z]{1,8}(\\.[a-z]{1,6}){0,2}",
                1 => "[a-zA-Z]{1,8}\\.Example\\.COM",
                1 => Just("127.0.0.1".to_string()),
                1 => dict::strs(Just("localhost".to_string()).boxed(), |s| s.len() < 30 && s.bytes().all(|c| c.is_ascii_lowercase()), |s, _| s),
                1 => Just("[::1]".to_string()),
                1 => Just("[2001:db8::1]".to_string()),
            ],
            prop_oneof![
                3 => Just(None),
                3 => (1u16..=65535).prop_map(Some),
                2 => dict::ints(select(vec![80u16, 443, 8080, 1, 65535]).boxed(), 1, 65535, |n, _| n as u16).prop_map(Some),
            ],
        ),
        path,
        prop_oneof![3 => Just(None), 1 => Just(Some(String::new())), 3 => "[a-zA-Z0-9=&%20+.:/?@!$*,;~_-]{1,16}".prop_map(|q| Some(q.replace('%', "%41")))],
        prop_oneof![3 => Just(None), 1 => "[a-z0-9]{0,6}".prop_map(Some)],
    )
        .prop_map(|((scheme, user, host, port), (path, wild), query, fragment)| Target { scheme, user, host, port, path, query, fragment, wild })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) enum Op {
    AddProtocol(String),
    AddProtocols(Vec<String>),
    ClearProtocols,
    AddExtension(Ext),
    AddExtensions(Vec<Ext>),
    ClearExtensions,
    Key([u8; 16]),
    ClearKey,
    Version(String),
    ClearVersion,
    Origin(String),
    ClearOrigin,
    Custom(Custom),
    ClearHeader(u8),
    Limits(u32, u32),
    Connect(bool),
    Clone,
}
const CLIENT_NAMES: &[&str] = &[
    "X-One", "X-Two", "Cookie", "User-Agent", "Accept-Language", "cookie", "Sec-WebSocket-Foo", "Connection", "Upgrade", "Pragma",
];
fn injecting() -> BoxedStrategy<String> {
    select(vec!["a\r\nX-Evil: 1", "a\nX-Evil: 1", "a\rX-Evil: 1", "a\r\n\r\nGET / HTTP/1.1", "\r\n", "\r\n\r\n", "x\r\n y"]).prop_map(String::from).boxed()
}
pub(super) fn op() -> BoxedStrategy<Op> {
    let word = || prop_oneof![12 => token(), 1 => injecting()];
    let anext = || prop_oneof![12 => ext(), 1 => injecting().prop_map(|s| Ext { name: s, params: vec![] }), 1 => injecting().prop_map(|s| Ext { name: "x".into(), params: vec![("p".into(), Some(s))] })];
    let over = prop_oneof![
        vec(token(), 1..4).prop_map(|p| ("Sec-WebSocket-Protocol".to_string(), vec![p.join(", ")])),
        vec(ext(), 1..3).prop_map(|p| ("Sec-WebSocket-Extensions".to_string(), vec![p.iter().map(|e| e.text()).collect::<Vec<_>>().join(", ")])),
        origin().prop_map(|o| ("Origin".to_string(), vec![o])),
    ];
    prop_oneof![
        4 => word().prop_map(Op::AddProtocol),
        2 => some(word().boxed(), 0, 4, 60).prop_map(Op::AddProtocols),
        1 => Just(Op::ClearProtocols),
        3 => anext().prop_map(Op::AddExtension),
        2 => some(anext().boxed(), 0, 4, 30).prop_map(Op::AddExtensions),
        1 => Just(Op::ClearExtensions),
        2 => gen::key16().prop_map(Op::Key),
        1 => Just(Op::ClearKey),
        2 => prop_oneof![3 => Just("13".to_string()), 3 => "[0-9]{1,3}".prop_map(String::from), 1 => "[!-~]{1,8}".prop_map(String::from), 1 => injecting()].prop_map(Op::Version),
        1 => Just(Op::ClearVersion),
        2 => prop_oneof![6 => origin(), 1 => injecting()].prop_map(Op::Origin),
        1 => Just(Op::ClearOrigin),
        3 => custom(CLIENT_NAMES, true).prop_map(Op::Custom),
        1 => over.prop_map(|o| Op::Custom(Custom(vec![o]))),
        1 => (0u8..5).prop_map(Op::ClearHeader),
        1 => any::<(u32, u32)>().prop_map(|(a, b)| Op::Limits(a, b)),
        3 => any::<bool>().prop_map(Op::Connect),
        1 => Just(Op::Clone),
    ]
    .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Build {
    target: Target,
    borrowed: bool,
    ops: Vec<Op>,
    rplan: Vec<u8>,
    wplan: Vec<u8>,
}
#[derive(Default, Clone)]
pub(super) struct Model {
    /// lists as set by the typed calls or parsed from custom headers
    protos: Option<Vec<String>>,
    exts: Option<Vec<Ext>>,
    key: Option<[u8; 16]>,
    version: Option<String>,
    others: BTreeMap<String, Vec<String>>,
}
impl Model {
    fn expected(&self, t: &Target, key: &str) -> BTreeMap<String, Vec<String>> {
        let mut m = self.others.clone();
        m.insert("host".into(), vec![t.host_value()]);
        m.insert("connection".into(), vec!["Upgrade".into()]);
        m.insert("upgrade".into(), vec!["websocket".into()]);
        m.insert("sec-websocket-version".into(), vec![self.version.clone().unwrap_or_else(|| "13".into())]);
        m.insert("sec-websocket-key".into(), vec![key.into()]);
        if let Some(p) = &self.protos {
            m.insert("sec-websocket-protocol".into(), vec![p.join(", ")]);
        }
        if let Some(p) = &self.exts {
            m.insert("sec-websocket-extensions".into(), vec![p.iter().map(|e| e.text()).collect::<Vec<_>>().join(", ")]);
        }
        if let Some(a) = t.auth() {
            m.insert("authorization".into(), vec![a]);
        }
        m
    }
}
/// line breaks of any kind count as blanks, blanks at the ends do not count, lists are canonical
fn calm(m: BTreeMap<String, Vec<String>>) -> BTreeMap<String, Vec<String>> {
    canonical(
        m.into_iter()
            .map(|(n, v)| {
                let v = v
                    .into_iter()
                    .map(|x| x.split(|c: char| c == ' ' || c == '\r' || c == '\n').filter(|w| !w.is_empty()).collect::<Vec<_>>().join(" "))
                    .collect();
                (n, v)
            })
            .collect(),
    )
}
fn has_break(s: &str) -> bool {
    s.contains(['\r', '\n'])
}
/// one builder call, on the builder and on the model; true if a value holds a line break
pub(super) fn apply<'u>(op: &Op, mut b: ClientBuilder<'u>, m: &mut Model) -> (ClientBuilder<'u>, bool) {
    let mut evil = false;
    match op {
        Op::AddProtocol(p) => {
            evil |= has_break(p);
            b = b.add_protocol(p.clone());
            m.protos.get_or_insert(vec![]).push(p.clone());
        }
        Op::AddProtocols(p) => {
            evil |= p.iter().any(|x| has_break(x));
            b = b.add_protocols(p.iter().map(|s| s.as_str()));
            m.protos.get_or_insert(vec![]).extend(p.iter().cloned());
        }
        Op::ClearProtocols => {
            b = b.clear_protocols();
            m.protos = None;
        }
        Op::AddExtension(e) => {
            evil |= has_break(&e.text());
            b = b.add_extension(e.lib());
            m.exts.get_or_insert(vec![]).push(e.clone());
        }
        Op::AddExtensions(e) => {
            evil |= e.iter().any(|x| has_break(&x.text()));
            b = b.add_extensions(e.iter().map(|e| e.lib()));
            m.exts.get_or_insert(vec![]).extend(e.iter().cloned());
        }
        Op::ClearExtensions => {
            b = b.clear_extensions();
            m.exts = None;
        }
        Op::Key(k) => {
            b = b.key(*k);
            m.key = Some(*k);
        }
        Op::ClearKey => {
            b = b.clear_key();
            m.key = None;
        }
        Op::Version(v) => {
            evil |= has_break(v);
            b = b.version(if v == "13" { WebSocketVersion::WebSocket13 } else { WebSocketVersion::Unknown(v.clone()) });
            m.version = Some(v.clone());
        }
        Op::ClearVersion => {
            b = b.clear_version();
            m.version = None;
        }
        Op::Origin(s) => {
            evil |= has_break(s);
            b = b.origin(s.clone());
            m.others.insert("origin".into(), vec![s.clone()]);
        }
        Op::ClearOrigin => {
            b = b.clear_origin();
            m.others.remove("origin");
        }
        Op::Custom(h) => {
            evil |= h.0.iter().any(|(_, v)| v.iter().any(|x| has_break(x)));
            b = b.custom_headers(&h.headers());
            for (n, v) in &h.0 {
                let refs: Vec<&str> = v.iter().map(|s| s.as_str()).collect();
                match n.as_str() {
                    "Sec-WebSocket-Protocol" => m.protos = Some(elements(&refs)),
                    "Sec-WebSocket-Extensions" => m.exts = Some(elements(&refs).iter().map(|s| Ext::parse(s)).collect()),
                    n => {
                        m.others.insert(n.to_ascii_lowercase(), v.clone());
                    }
                }
            }
        }
        Op::ClearHeader(k) => match k {
            0 => {
                b = b.clear_header::<WebSocketProtocol>();
                m.protos = None;
            }
            1 => {
                b = b.clear_header::<WebSocketExtensions>();
                m.exts = None;
            }
            2 => {
                b = b.clear_header::<Origin>();
                m.others.remove("origin");
            }
            3 => {
                b = b.clear_header::<Cookie>();
                m.others.remove("cookie");
            }
            _ => {
                b = b.clear_header::<UserAgent>();
                m.others.remove("user-agent");
            }
        },
        Op::Limits(f, n) => b = b.max_dataframe_size(*f as usize).max_message_size(*n as usize),
        Op::Clone => b = b.clone(),
        Op::Connect(_) => {}
    }
    (b, evil)
}
/// the request that was sent is the one the model asks for
pub(super) fn check_request(bytes: &[u8], target: &Target, m: &Model, who: &str, randoms: &mut Vec<Vec<u8>>) -> Res {
    let text = target.text();
    let head = match rfc::parse_head(bytes) {
        Ok(h) => h,
        Err(e) => fail!("{} request to {}: {}", who, text, e),
    };
    ensure!(head.rest.is_empty(), "{} request is followed by {} bytes: {:?}", who, head.rest.len(), String::from_utf8_lossy(&head.rest));
    let parts: Vec<&str> = head.line.split(' ').collect();
    ensure!(parts.len() == 3 && parts[0] == "GET" && parts[2] == "HTTP/1.1", "{} request line {:?}", who, head.line);
    if target.wild {
        ensure!(parts[1].starts_with('/') && !parts[1].contains('#') && parts[1].bytes().all(|x| x > 32 && x != 127), "request target {:?} for {:?}", parts[1], text);
    } else {
        ensure!(parts[1] == target.resource(), "{} request target {:?}, expected {:?} for {}", who, parts[1], target.resource(), text);
    }
    let key = head.one("sec-websocket-key").unwrap_or("").to_string();
    match (rfc::unb64(&key), &m.key) {
        (Some(k), Some(want)) => ensure!(k == want, "{} request has another key than the fixed one", who),
        (Some(k), None) => {
            ensure!(k.len() == 16, "{} request key {:?} is not of 16 bytes", who, key);
            ensure!(!randoms.contains(&k), "random key {:?} repeated", key);
            randoms.push(k);
        }
        (None, _) => fail!("{} request key {:?} is not base64 of 16 bytes", who, key),
    }
    let got = calm(head_map(&head));
    let want = calm(m.expected(target, &key));
    if let Some(d) = diff(&got, &want) {
        fail!("{} request to {}: {}", who, text, d);
    }
    // one line per typed header
    for n in ["host", "connection", "upgrade", "sec-websocket-key", "sec-websocket-version", "authorization"] {
        let k = head.get(n).len();
        let w = if n == "authorization" { target.auth().is_some() as usize } else { 1 };
        ensure!(k == w, "{} {} lines in the {} request", k, n, who);
    }
    Ok(())
}
fn h07_request(c: &Build, o: &mut Obs) -> Res {
    let text = c.target.text();
    let url = match Url::parse(&text) {
        Ok(u) => u,
        Err(_) if c.target.wild => return Ok(()),
        Err(e) => inconclusive!("generated URL {} does not parse: {}", text, e),
    };
    let mut b = if c.borrowed {
        ClientBuilder::from_url(&url)
    } else {
        match ClientBuilder::new(&text) {
            Ok(b) => b,
            Err(e) => fail!("builder refuses {}: {}", text, e),
        }
    };
    let mut m = Model::default();
    let mut attempts = 0;
    let mut ops = c.ops.clone();
    ops.push(Op::Connect(true));
    ops.push(Op::Connect(false));
    let mut randoms: Vec<Vec<u8>> = vec![];
    let mut evil = false;
    for op in &ops {
        match op {
            Op::Connect(sync) => {
                let got = b.get_header::<WebSocketProtocol>().map(|p| p.0.clone());
                ensure!(got.clone().unwrap_or_default() == m.protos.clone().unwrap_or_default(), "get_header reports protocols {:?}, expected {:?}", got, m.protos);
                let (bytes, res) = attempt(&mut b, *sync, &c.rplan, &c.wplan, proper);
                attempts += 1;
                let who = if *sync { "blocking" } else { "asynchronous" };
                check_request(&bytes, &c.target, &m, who, &mut randoms)?;
                if let Err(e) = res {
                    fail!("{} connect to a proper server fails: {}", who, why(&e));
                }
            }
            op => {
                let r = apply(op, b, &mut m);
                b = r.0;
                evil |= r.1;
            }
        }
    }
    o.class(format!("attempts {}", attempts.min(5)));
    o.class_if(evil, "line breaks in values");
    o.class_if(c.target.wild, "wild path");
    o.class_if(c.target.auth().is_some(), "credentials");
    o.class_if(c.target.port.is_some(), "explicit port");
    o.nontrivial(c.ops.len() >= 2);
    Ok(())
}

// ------------------------------------------------------------------------------- H08

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Token {
    Right,
    Missing,
    OtherKey([u8; 16]),
    OneBit(u8),
    Recased(u32),
    Longer(String),
    Shorter(u8),
    NoGuid,
    KeyItself,
    Text(String),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) struct Response {
    status: u16,
    reason: String,
    location: Option<String>,
    token: Token,
    upgrade: Vec<String>,
    connection: Vec<String>,
    extra: Vec<(String, String)>,
    case: u32,
    order: u64,
    pub(super) key: Option<[u8; 16]>,
    plan: Vec<u8>,
    sep: u8,
}
pub(super) fn response() -> BoxedStrategy<Response> {
    let status = prop_oneof![
        12 => Just(101u16),
        2 => select(vec![300u16, 301, 302, 303, 304, 305, 307, 308]),
        1 => 300u16..400,
        1 => select(vec![100u16, 102, 200, 201, 204, 400, 401, 403, 404, 426, 500, 503]),
        1 => 200u16..600,
    ];
    let status = dict::ints(status.boxed(), 200, 599, |n, _| n as u16);
    let token = prop_oneof![
        20 => Just(Token::Right),
        1 => Just(Token::Missing),
        1 => gen::key16().prop_map(Token::OtherKey),
        2 => (0u8..160).prop_map(Token::OneBit),
        1 => any::<u32>().prop_map(Token::Recased),
        1 => select(vec!["A", "=", "AAAA", " x", ", x"]).prop_map(|s| Token::Longer(s.to_string())),
        1 => (0u8..28).prop_map(Token::Shorter),
        1 => Just(Token::NoGuid),
        1 => Just(Token::KeyItself),
        1 => "[ -~]{0,30}".prop_map(|s| Token::Text(s.trim().to_string())),
    ];
    let upgrade = prop_oneof![
        16 => any::<u32>().prop_map(|b| vec![recase("websocket", b)]),
        1 => Just(vec![]),
        3 => vec(select(vec!["websocket", "h2c", "websocket/13", "WebSockets", "web socket", "xwebsocket", "TLS/1.0", "websocke", "upgrade"]).prop_map(String::from), 1..3),
    ];
    let connection = prop_oneof![
        16 => (any::<u32>(), some(select(vec!["keep-alive", "close", "TE", "x"]).boxed(), 0, 3, 60), any::<prop::sample::Index>()).prop_map(|(b, o, at)| {
            let mut v: Vec<String> = o.iter().map(|s| s.to_string()).collect();
            v.insert(at.index(v.len() + 1), recase("upgrade", b));
            v
        }),
        1 => Just(vec![]),
        3 => vec(select(vec!["keep-alive", "close", "upgrades", "up grade", "websocket", "Keep-Alive", "upgrad", "xupgrade"]).prop_map(String::from), 1..3),
    ];
    (
        (status, "[A-Za-z ]{0,12}", proptest::option::of(select(vec!["http://example.com/x", "/y", "wss://other:99/z?q", "x y"]).prop_map(String::from))),
        token,
        upgrade,
        connection,
        some((select(vec!["Server", "X-One", "Date", "Sec-WebSocket-Protocol", "Set-Cookie", "Sec-WebSocket-Version"]).prop_map(String::from), "[!-~]{1,10}").boxed(), 0, 4, 60),
        (any::<u32>(), any::<u64>(), proptest::option::weighted(0.3, gen::key16()), plan(), 0u8..4),
    )
        .prop_map(|((status, reason, location), token, upgrade, connection, extra, (case, order, key, plan, sep))| Response {
            status, reason: reason.trim().to_string(), location, token, upgrade, connection, extra, case, order, key, plan, sep,
        })
        .boxed()
}
impl Response {
    fn token_text(&self, key: &[u8]) -> Option<String> {
        let right = rfc::accept_for(key);
        match &self.token {
            Token::Right => Some(right),
            Token::Missing => None,
            Token::OtherKey(k) => Some(rfc::accept_for(k)),
            Token::OneBit(i) => {
                let mut b = rfc::unb64(&right).unwrap();
                b[*i as usize / 8] ^= 1 << (i % 8);
                Some(rfc::b64(&b))
            }
            Token::Recased(b) => Some(recase(&right, *b)),
            Token::Longer(s) => Some(right + s),
            Token::Shorter(n) => Some(right[..*n as usize].to_string()),
            Token::NoGuid => Some(rfc::b64(&rfc::sha1(rfc::b64(key).as_bytes()))),
            Token::KeyItself => Some(rfc::b64(key)),
            Token::Text(s) => Some(s.clone()),
        }
    }
    pub(super) fn bytes(&self, key: &[u8]) -> Vec<u8> {
        let mut lines: Vec<(String, String)> = self.extra.clone();
        if let Some(t) = self.token_text(key) {
            lines.push((recase("Sec-WebSocket-Accept", self.case), t));
        }
        let sep = [", ", ",", " , ", ",  "][self.sep as usize % 4];
        if !self.upgrade.is_empty() {
            lines.push((recase("Upgrade", self.case >> 3), self.upgrade.join(sep)));
        }
        if !self.connection.is_empty() {
            if self.connection.len() > 1 && self.order % 3 == 0 {
                lines.push((recase("Connection", self.case >> 7), self.connection[..1].join(sep)));
                lines.push((recase("Connection", self.case >> 5), self.connection[1..].join(sep)));
            } else {
                lines.push((recase("Connection", self.case >> 7), self.connection.join(sep)));
            }
        }
        if let Some(l) = &self.location {
            lines.push(("Location".into(), l.clone()));
        }
        // keyed shuffle
        let mut s = self.order;
        let mut tagged: Vec<(u64, (String, String))> = lines
            .into_iter()
            .map(|l| {
                s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                (s >> 20, l)
            })
            .collect();
        tagged.sort_by_key(|t| t.0);
        let mut out = format!("HTTP/1.1 {} {}\r\n", self.status, self.reason);
        for (_, (n, v)) in tagged {
            out.push_str(&format!("{}: {}\r\n", n, v));
        }
        out.push_str("\r\n");
        out.into_bytes()
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Bad {
    Accept,
    Upgrade,
    Connection,
}
pub(super) fn h08_judge(c: &Response, who: &str, key: &[u8], res: &Result<(), Option<WebSocketError>>, o: &mut Obs) -> Res {
    let mut bad = vec![];
    // base64 read generously may or may not pass
    let mut open = false;
    match c.token_text(key) {
        Some(t) if t == rfc::accept_for(key) => {}
        Some(t) if rfc::unb64(&t).is_none() && lenient_b64(&t, 20) => open = true,
        _ => bad.push(Bad::Accept),
    }
    if !(c.upgrade.len() == 1 && c.upgrade[0].eq_ignore_ascii_case("websocket")) {
        bad.push(Bad::Upgrade);
    }
    if !c.connection.iter().any(|x| x.eq_ignore_ascii_case("upgrade")) {
        bad.push(Bad::Connection);
    }
    let err = match res {
        Ok(()) => {
            ensure!(c.status == 101, "{}: connected although the status is {}", who, c.status);
            ensure!(bad.is_empty(), "{}: connected although the response is wrong in {:?}", who, bad);
            o.class("connected");
            return Ok(());
        }
        Err(None) => fail!("{}: connect stalls on a complete response", who),
        Err(Some(e)) => e,
    };
    let other = match err {
        WebSocketError::Other(e) => match e.downcast_ref::<WebSocketOtherError>() {
            Some(x) => x,
            None => fail!("{}: refused with {}", who, err_name(err)),
        },
        e => fail!("{}: refused with {}", who, err_name(e)),
    };
    match other {
        WebSocketOtherError::RedirectError(st, to) => {
            ensure!(
                (300..400).contains(&c.status) && st.to_u16() == c.status && Some(to) == c.location.as_ref(),
                "{}: redirect error {} to {:?} for status {} with location {:?}", who, st, to, c.status, c.location
            );
            o.class("redirect");
        }
        WebSocketOtherError::StatusCodeError(st) => {
            ensure!(c.status != 101 && st.to_u16() == c.status, "{}: status error {} for status {}", who, st, c.status);
            ensure!(!((300..400).contains(&c.status) && c.location.is_some()), "{}: status error for a redirect to {:?}", who, c.location);
            o.class("status");
        }
        WebSocketOtherError::ResponseError(m) => {
            ensure!(c.status == 101, "{}: response error {:?} for status {}", who, m, c.status);
            ensure!(open || !bad.is_empty(), "{}: proper response refused: {}", who, m);
            let l = m.to_ascii_lowercase();
            let named = if l.contains("accept") {
                Bad::Accept
            } else if l.contains("connection") {
                Bad::Connection
            } else if l.contains("upgrade") {
                Bad::Upgrade
            } else {
                fail!("{}: error {:?} names no header", who, m)
            };
            ensure!(bad.contains(&named) || (open && named == Bad::Accept), "{}: error {:?}, but the response is wrong in {:?}", who, m, bad);
            o.class(format!("bad {:?}", named));
        }
        e => fail!("{}: refused with {:?}", who, e),
    }
    Ok(())
}
fn h08_response(c: &Response, o: &mut Obs) -> Res {
    for sync in [true, false] {
        let mut b = ClientBuilder::new("ws://h.example/chat").unwrap();
        if let Some(k) = c.key {
            b = b.key(k);
        }
        let c2 = c.clone();
        let seen: Arc<Mutex<Vec<u8>>> = Default::default();
        let seen2 = seen.clone();
        let (_, res) = attempt(&mut b, sync, &c.plan, &[], move |head| {
            let k = key_of(head).unwrap_or_default();
            *seen2.lock().unwrap() = k.clone();
            c2.bytes(&k)
        });
        let key = seen.lock().unwrap().clone();
        h08_judge(c, if sync { "blocking" } else { "asynchronous" }, &key, &res, o)?;
    }
    o.nontrivial(c.status != 101 || !matches!(c.token, Token::Right) || c.upgrade.len() != 1 || c.connection.len() != 1);
    Ok(())
}

// ------------------------------------------------------------------------------- H09

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Use {
    Recv,
    Iter,
    Split,
    Frames,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Along {
    role: Role,
    entry: Entry,
    how: Use,
    pad: u16,
    custom: Option<Custom>,
    lim: bool,
    items: Vec<Item>,
    seed: u32,
    /// read boundary relative to the end of the head
    wall: Option<i16>,
    plan: Vec<u8>,
    /// frames held back until the handshake is done
    late: bool,
}
fn along() -> BoxedStrategy<Along> {
    (
        (
            role(),
            select(ENTRIES.to_vec()),
            select(vec![Use::Recv, Use::Iter, Use::Split, Use::Frames]),
            prop_oneof![3 => Just(0u16), 2 => 0u16..200, 1 => 0u16..6000],
            proptest::option::of(custom(&["X-One", "Server"], false)),
            any::<bool>(),
        ),
        gen::items(1..6, 300),
        prop_oneof![2 => vec(gen::item(true), 0..2), 3 => Just(vec![])],
        any::<u32>(),
        proptest::option::of(-40i16..60),
        prop_oneof![2 => Just(vec![]), 3 => plan(), 3 => fast_plan()],
        proptest::bool::weighted(0.15),
    )
        .prop_map(|((role, entry, how, pad, custom, lim), mut items, big, seed, wall, plan, late)| {
            items.extend(big);
            Along { role, entry, how, pad, custom, lim, items, seed, wall, plan, late }
        })
        .boxed()
}
fn padded(role: Role, pad: u16) -> Vec<u8> {
    let mut h = role.head();
    if pad > 0 {
        h.truncate(h.len() - 2);
        h.extend_from_slice(format!("X-Pad: {}\r\n\r\n", "p".repeat(pad as usize)).as_bytes());
    }
    h
}
fn h09_along(c: &Along, o: &mut Obs) -> Res {
    let head = padded(c.role, c.pad);
    let mut frames: Vec<rfc::Frame> = c.items.iter().flat_map(|i| i.frames()).collect();
    gen::mask_frames(&mut frames, c.role.expects_mask(), c.seed);
    let body = gen::wire(&frames);
    let pair_entry = c.role == Role::Server && c.entry == Entry::Pair;
    let mut bytes = if pair_entry { vec![] } else { head.clone() };
    let start = bytes.len();
    if !c.late {
        bytes.extend_from_slice(&body);
    }
    let rx = Pipe::with(&bytes);
    let tx = Pipe::new();
    let is_async = c.entry == Entry::Async;
    let mode = if is_async { Mode::Async } else { Mode::Blocking };
    let plan = cope(&c.plan, bytes.len());
    let mut io = Io::new(&rx, &tx, mode).plans(&plan, &[]);
    io.calm_until = if is_async { 0 } else { start };
    if let Some(w) = c.wall {
        io.walls.push((start as i64 + w as i64).max(0) as usize);
    }
    let limits = if c.lim { Some((1u64 << 30, 1u64 << 30)) } else { None };
    let custom = c.custom.as_ref().map(|h| h.headers());
    let polls = (plan.len() + 4) * (bytes.len() + body.len() + 5000) + 100;
    let mut got: Vec<Msg> = vec![];
    let mut got_frames: Vec<rfc::Frame> = vec![];
    let mut late = if c.late { Some(body.clone()) } else { None };
    let mut open = |rx: &Pipe| {
        if let Some(b) = late.take() {
            rx.push(&b);
        }
        rx.close();
    };
    let end: Result<(), String> = if is_async {
        let conn = match c.role {
            Role::Client => async_conn(Role::Client, io, limits, polls),
            Role::Server => match drive(AsyncIntoWs::into_ws(io), polls) {
                Driven::Ok(u) => match drive(accept_async(u, custom.as_ref(), limits), polls) {
                    Driven::Ok((x, _)) => Ok(x),
                    Driven::Err(e) => Err(err_name(&e)),
                    Driven::Stall => Err("accept stalled".into()),
                },
                Driven::Err((_, _, _, e)) => Err(format!("{:?}", e)),
                Driven::Stall => Err("into_ws stalled".into()),
            },
        };
        match conn {
            Err(e) => Err(format!("handshake: {}", e)),
            Ok(x) => {
                open(&rx);
                let mut h = Hand::new(x);
                loop {
                    match h.next(polls) {
                        Driven::Ok(Some(m)) => got.push(from_owned(&m)),
                        Driven::Ok(None) => break Ok(()),
                        Driven::Err(e) => break Err(err_name(&e)),
                        Driven::Stall => break Err("stalled".into()),
                    }
                }
            }
        }
    } else {
        macro_rules! receive_on {
            ($conn:expr) => {{
                match $conn {
                    Err(e) => Err(format!("handshake: {}", e)),
                    Ok(mut x) => {
                        open(&rx);
                        match c.how {
                            Use::Recv | Use::Split => loop {
                                match x.recv_message() {
                                    Ok(m) => got.push(from_owned(&m)),
                                    Err(WebSocketError::NoDataAvailable) => break Ok(()),
                                    Err(e) => break Err(err_name(&e)),
                                }
                            },
                            Use::Iter => {
                                let mut it = x.incoming_messages();
                                loop {
                                    match it.next().unwrap() {
                                        Ok(m) => got.push(from_owned(&m)),
                                        Err(WebSocketError::NoDataAvailable) => break Ok(()),
                                        Err(e) => break Err(err_name(&e)),
                                    }
                                }
                            }
                            Use::Frames => loop {
                                match x.recv_dataframe() {
                                    Ok(m) => got_frames.push(from_dataframe(&m)),
                                    Err(WebSocketError::NoDataAvailable) => break Ok(()),
                                    Err(e) => break Err(err_name(&e)),
                                }
                            },
                        }
                    }
                }
            }};
        }
        macro_rules! accepted {
            ($u:expr) => {{
                match $u {
                    Ok(u) => accept_sync(u, custom.as_ref(), limits).map_err(|(_, e)| e.to_string()),
                    Err(e) => Err(e),
                }
            }};
        }
        match (c.role, c.entry) {
            (Role::Client, _) if c.how == Use::Split => {
                match sync_conn(Role::Client, pair(io, &tx), limits).and_then(|x| x.split().map_err(|e| e.to_string())) {
                    Ok((r, _w)) => receive_on!(Ok::<_, String>(r)),
                    Err(e) => Err(format!("handshake: {}", e)),
                }
            }
            (Role::Client, _) => receive_on!(sync_conn(Role::Client, io, limits)),
            (Role::Server, Entry::Pair) => {
                let mut r = BufReader::new(&head[..]);
                match hyper::http::h1::parse_request(&mut r) {
                    Ok(q) => receive_on!(accepted!(SyncIntoWs::into_ws(RequestStreamPair(io, q)).map_err(|e| format!("{:?}", e.2)))),
                    Err(e) => Err(e.to_string()),
                }
            }
            (Role::Server, Entry::Hyper) => {
                let mut net = NetIo(io);
                let net: &mut dyn NetworkStream = &mut net;
                let mut br = BufReader::new(net);
                match hyper::server::Request::new(&mut br, "127.0.0.1:1".parse().unwrap()) {
                    Ok(q) => receive_on!(accepted!(SyncIntoWs::into_ws(HyperRequest(q)).map_err(|e| format!("{:?}", e.1)))),
                    Err(e) => Err(e.to_string()),
                }
            }
            (Role::Server, _) if c.how == Use::Split => {
                match accepted!(SyncIntoWs::into_ws(pair(io, &tx)).map_err(|e| format!("{:?}", e.3))).and_then(|x| x.split().map_err(|e| e.to_string())) {
                    Ok((r, _w)) => receive_on!(Ok::<_, String>(r)),
                    Err(e) => Err(format!("handshake: {}", e)),
                }
            }
            (Role::Server, _) => receive_on!(accepted!(SyncIntoWs::into_ws(io).map_err(|e| format!("{:?}", e.3)))),
        }
    };
    if let Err(e) = end {
        fail!("{:?} {:?}: {} (after {} messages)", c.role, c.entry, e, got.len());
    }
    if !is_async && c.how == Use::Frames {
        ensure!(got_frames.len() == frames.len(), "{} of {} frames received", got_frames.len(), frames.len());
        for (i, (g, w)) in got_frames.iter().zip(&frames).enumerate() {
            ensure!(g.fin == w.fin && g.op == w.op && g.payload == w.payload, "frame {} differs", i);
        }
    } else {
        let e = rfc::reassemble(&frames, c.role.expects_mask());
        if let Err(m) = e.judge(&got, false) {
            fail!("{:?} {:?}: {}", c.role, c.entry, m);
        }
    }
    o.class(format!("{:?} {:?}", c.role, c.entry));
    o.class(format!("{:?}", c.how));
    o.class_if(c.late, "frames after the handshake");
    o.nontrivial(!c.late);
    Ok(())
}

// ------------------------------------------------------------------------------- H10

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Keys {
    threads: u8,
    reuse: bool,
    sync: bool,
    secure: bool,
    noise: u8,
}
fn keys(reuse: bool, sync: bool, secure: bool, noise: u8, n: usize) -> Result<Vec<Vec<u8>>, String> {
    let mk = || {
        let mut b = ClientBuilder::new(if secure { "wss://h.example/" } else { "ws://h.example/" }).unwrap();
        if noise & 1 == 1 {
            b = b.add_protocol("p").origin("null".into());
        }
        if noise & 2 == 2 {
            b = b.key([7; 16]).clear_key();
        }
        b
    };
    let mut b = mk();
    let mut out = vec![];
    for _ in 0..n {
        if !reuse {
            b = mk();
        }
        let (head, res) = attempt(&mut b, sync, &[], &[], proper);
        if let Err(e) = res {
            return Err(why(&e));
        }
        match key_of(&head) {
            Some(k) if k.len() == 16 => out.push(k),
            k => return Err(format!("key {:?}", k)),
        }
    }
    Ok(out)
}
fn h10_random(c: &Keys, o: &mut Obs) -> Res {
    let t = c.threads.max(1) as usize;
    let n = 1200 / t;
    let per: Vec<Result<Vec<Vec<u8>>, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..t).map(|_| s.spawn(|| keys(c.reuse, c.sync, c.secure, c.noise, n))).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic".into()))).collect()
    });
    let mut all = vec![];
    for p in per {
        match p {
            Ok(k) => all.extend(k),
            Err(e) => fail!("{}", e),
        }
    }
    // and keys made directly
    let direct: Vec<Vec<u8>> = (0..600)
        .map(|i| {
            if i % 2 == 0 {
                (websocket::header::WebSocketKey::new().0).0.to_vec()
            } else {
                websocket_base::header::WebSocketKey::new().0.to_vec()
            }
        })
        .collect();
    all.extend(direct);
    o.class(format!("threads {} reuse {} sync {}", t, c.reuse, c.sync));
    o.nontrivial(true);
    if let Err(e) = judge_random(&all, "handshake keys") {
        fail!("{}", e);
    }
    Ok(())
}
pub fn child_keys() {
    for (reuse, sync) in [(true, true), (false, true), (false, false)] {
        if let Ok(k) = keys(reuse, sync, false, 0, 70) {
            for w in k {
                println!("{}", w.iter().map(|b| format!("{:02x}", b)).collect::<String>());
            }
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Procs {
    n: u8,
}
fn h10_processes(c: &Procs, o: &mut Obs) -> Res {
    let words = child_words("keys", c.n as usize)?;
    if words.len() != 210 * c.n as usize {
        fail!("child processes connected only {} times", words.len());
    }
    o.nontrivial(true);
    if let Err(e) = judge_random(&words, "handshake keys of several processes") {
        fail!("{}", e);
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum KeyOp {
    Fix([u8; 16]),
    Clear,
    Clone,
    Touch(u8),
    /// connect; the peer answers this attempt's key, the one before, or a fixed one
    Connect { sync: bool, answer: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct KeySeq {
    ops: Vec<KeyOp>,
}
fn key_seq() -> BoxedStrategy<KeySeq> {
    let k = prop_oneof![4 => gen::key16(), 1 => Just([0u8; 16]), 1 => Just(KEY)];
    vec(
        prop_oneof![
            2 => k.prop_map(KeyOp::Fix),
            2 => Just(KeyOp::Clear),
            1 => Just(KeyOp::Clone),
            1 => (0u8..4).prop_map(KeyOp::Touch),
            5 => (any::<bool>(), 0u8..6).prop_map(|(sync, answer)| KeyOp::Connect { sync, answer }),
        ],
        1..16,
    )
    .prop_map(|ops| KeySeq { ops })
    .boxed()
}
fn h10_sequence(c: &KeySeq, o: &mut Obs) -> Res {
    let mut b = ClientBuilder::new("ws://h.example/").unwrap();
    let mut fixed: Option<[u8; 16]> = None;
    let mut used: Vec<Vec<u8>> = vec![];
    let mut given: Vec<[u8; 16]> = vec![KEY, [0; 16]];
    let mut n = 0;
    for op in &c.ops {
        match op {
            KeyOp::Fix(k) => {
                b = b.key(*k);
                fixed = Some(*k);
                given.push(*k);
            }
            KeyOp::Clear => {
                b = b.clear_key();
                fixed = None;
            }
            KeyOp::Clone => b = b.clone(),
            KeyOp::Touch(k) => {
                b = match k {
                    0 => b.add_protocol("x").clear_protocols(),
                    1 => b.clear_version(),
                    2 => b.origin("null".into()),
                    _ => b.custom_headers(&Headers::new()),
                }
            }
            KeyOp::Connect { sync, answer } => {
                let last = used.last().cloned().unwrap_or_else(|| vec![9; 16]);
                let first = used.first().cloned().unwrap_or_else(|| KEY.to_vec());
                let a = *answer;
                let (head, res) = attempt(&mut b, *sync, &[], &[], move |h| match a {
                    0 => response_for(&last),
                    1 => response_for(&first),
                    2 => response_for(&KEY),
                    _ => proper(h),
                });
                n += 1;
                let key = match key_of(&head) {
                    Some(k) if k.len() == 16 => k,
                    _ => fail!("request without a proper key: {:?}", String::from_utf8_lossy(&head)),
                };
                match fixed {
                    Some(f) => ensure!(key == f, "fixed key not sent on attempt {}", n),
                    None => {
                        ensure!(!used.contains(&key), "attempt {} repeats an earlier key although none is fixed", n);
                        ensure!(!given.iter().any(|g| key == g), "attempt {} sends a key that was fixed earlier or is constant", n);
                    }
                }
                let answered = match answer {
                    0 => used.last().cloned().unwrap_or_else(|| vec![9; 16]),
                    1 => used.first().cloned().unwrap_or_else(|| KEY.to_vec()),
                    2 => KEY.to_vec(),
                    _ => key.clone(),
                };
                let ok = res.is_ok();
                ensure!(
                    ok == (answered == key),
                    "attempt {} with key {:02x?} answered for key {:02x?}: {}", n, key, answered,
                    if ok { "connected".to_string() } else { why(res.as_ref().err().unwrap()) }
                );
                used.push(key);
            }
        }
    }
    o.class(format!("attempts {}", n.min(6)));
    o.nontrivial(n >= 2);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "H07",
            level: "exploration",
            assumptions: &[
                "credentials in URLs are unreserved characters; custom headers do not name Host, Authorization, key or version",
                "an empty list may be sent as an empty header or not at all",
            ],
            suites: vec![suite(
                "request",
                "a URL and a sequence of up to 14 builder calls and connects (blocking and asynchronous, on one builder or clones); each request compared with a model; non-trivial: two calls or more",
                opts(60_000, 4_000_000),
                || {
                    (url_target(), any::<bool>(), vec(op(), 0..14), plan(), plan())
                        .prop_map(|(target, borrowed, ops, rplan, wplan)| Build { target, borrowed, ops, rplan, wplan })
                        .boxed()
                },
                h07_request,
            ), super::wire::h07_suite()],
        },
        Prop {
            id: "H08",
            level: "exploration",
            assumptions: &["responses are HTTP/1.1; an accept token that is base64 only by a generous reading may go either way"],
            suites: vec![suite(
                "response",
                "responses right or wrong in status, token, Upgrade, Connection, any letter case and order, to blocking and asynchronous clients; non-trivial: not the plain right answer",
                opts(120_000, 8_000_000),
                response,
                h08_response,
            ), super::wire::h08_suite()],
        },
        Prop {
            id: "H09",
            level: "exploration",
            assumptions: &[],
            suites: vec![suite(
                "along",
                "a handshake head with message frames behind it under generated read boundaries, client and server, four entries, all accept variants, four ways to receive; non-trivial: frames sent with the head",
                opts(60_000, 4_000_000),
                along,
                h09_along,
            ), super::wire::h09_suite()],
        },
        Prop {
            id: "H10",
            level: "exploration",
            assumptions: &["randomness is judged statistically (false alarm below 1e-9)"],
            suites: vec![
                suite(
                    "sequence",
                    "fixing, clearing, cloning and connecting in any order; the peer answers this attempt's or another key; non-trivial: two attempts",
                    opts(60_000, 4_000_000),
                    key_seq,
                    h10_sequence,
                ),
                super::wire::h10_suite(),
                suite(
                    "random",
                    "1200 attempts per case over 1-8 threads, one builder or many, and 600 keys made directly, judged for repeats, bias, correlation and steps",
                    opts(32, 2000).shrink(20),
                    || {
                        (1u8..9, any::<bool>(), any::<bool>(), any::<bool>(), 0u8..4)
                            .prop_map(|(threads, reuse, sync, secure, noise)| Keys { threads, reuse, sync, secure, noise })
                            .boxed()
                    },
                    h10_random,
                ),
                suite(
                    "processes",
                    "keys of several processes started together, judged as one population",
                    opts(3, 40).shards(1).shrink(4),
                    || (5u8..9).prop_map(|n| Procs { n }).boxed(),
                    h10_processes,
                ),
            ],
        },
    ]
}
