//! C03: nothing is given up because it takes long, and the sockets keep the options they have.
use super::serve::crowd_limit;
use super::tls::any_cert;
use crate::api::*;
use crate::dict;
use crate::engine::*;
use crate::net::*;
use crate::rfc::{self, Frame};
use futures::{Future, Sink, Stream};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::{NewTree, ValueTree};
use proptest::test_runner::TestRunner;
use serde::{Deserialize, Serialize};
use std::io::{self, Read, Write};
use std::net::{Ipv4Addr, SocketAddr, TcpListener, TcpStream};
use std::os::unix::io::AsRawFd;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc;
use std::time::Duration;
use websocket::client::r#async::Client as AsyncClient;
use websocket::client::sync::Client;
use websocket::server::r#async::Handle;
use websocket::server::upgrade::sync::IntoWs;
use websocket::stream::sync::AsTcpStream;
use websocket::{ClientBuilder, OwnedMessage, WebSocketError};

// ------------------------------------------------------------------------------- patience

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Who {
    /// the library is the client
    Connect,
    Insecure,
    Secure,
    OnSocket,
    AConnect,
    AInsecure,
    ASecure,
    /// the library is the server
    Server,
    SecureServer,
    Upgrade,
    AServer,
    ASecureServer,
}
const WHO: &[Who] = &[
    Who::Connect, Who::Insecure, Who::Secure, Who::OnSocket, Who::AConnect, Who::AInsecure, Who::ASecure,
    Who::Server, Who::SecureServer, Who::Upgrade, Who::AServer, Who::ASecureServer,
];
impl Who {
    fn tls(self) -> bool {
        matches!(self, Who::Secure | Who::ASecure | Who::SecureServer | Who::ASecureServer)
    }
    fn client(self) -> bool {
        matches!(self, Who::Connect | Who::Insecure | Who::Secure | Who::OnSocket | Who::AConnect | Who::AInsecure | Who::ASecure)
    }
}
/// where a connection stands still, in the order in which it comes by
const STAGES: &[&str] = &[
    "before the first byte",
    "within TLS or before the head",
    "within the head",
    "before the application goes on",
    "before the first message",
    "within the first message",
    "between the messages",
    "before the end",
];
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Idle {
    who: Who,
    /// milliseconds, by stage
    stall: [u32; 8],
    cut: u16,
    text: String,
    /// whether the connection is also written to between the two messages
    greet: bool,
}
impl Idle {
    fn wait(&self, stage: usize) {
        std::thread::sleep(Duration::from_millis(self.stall[stage].into()));
    }
    fn longest(&self) -> (u32, usize) {
        self.stall.iter().enumerate().map(|(i, s)| (*s, i)).max().unwrap()
    }
}
/// the longest a connection may take altogether
fn budget() -> u32 {
    if std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough") {
        130_000
    } else {
        34_000
    }
}
fn idle() -> BoxedStrategy<Idle> {
    let max = budget();
    let one = dict::ints((0u32..=max).boxed(), 0, u64::from(max), |n, _| n as u32 * if n < 200 { 1000 } else { 1 }).boxed();
    // one long rest, or several
    let stalls = prop_oneof![
        4 => (0usize..8, (max * 9 / 10)..=max).prop_map(|(i, n)| {
            let mut s = [0; 8];
            s[i] = n;
            s
        }),
        2 => (0usize..8, one).prop_map(|(i, n)| {
            let mut s = [0; 8];
            s[i] = n;
            s
        }),
        3 => (vec(prop_oneof![1 => Just(0u32), 2 => 1u32..100], 8), Just(max)).prop_map(|(w, max)| {
            let sum = w.iter().sum::<u32>().max(1);
            let mut s = [0; 8];
            for (i, w) in w.iter().enumerate() {
                s[i] = (u64::from(max) * u64::from(*w) / u64::from(sum)) as u32;
            }
            s
        }),
    ];
    (select(WHO), stalls, any::<u16>(), "[a-z]{1,40}", any::<bool>())
        .prop_map(move |(who, stall, cut, text, greet)| {
            let mut left = max;
            let stall = stall.map(|s| {
                let s = s.min(left);
                left -= s;
                s
            });
            Idle { who, stall, cut, text, greet }
        })
        .boxed()
}
/// All at once, as waiting costs nothing else. What fails is then tried alone.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Room(Vec<Idle>);
static FAILED: AtomicUsize = AtomicUsize::new(usize::MAX);
#[derive(Debug)]
struct Rooms;
struct RoomTree {
    all: Room,
    alone: Option<usize>,
    done: bool,
}
impl Strategy for Rooms {
    type Tree = RoomTree;
    type Value = Room;
    fn new_tree(&self, r: &mut TestRunner) -> NewTree<Self> {
        // as many as the limit on open files allows
        let n = (crowd_limit() as usize / 4).clamp(24, 160);
        Ok(RoomTree { all: Room(vec(idle(), n).new_tree(r)?.current()), alone: None, done: false })
    }
}
impl ValueTree for RoomTree {
    type Value = Room;
    fn current(&self) -> Room {
        match self.alone {
            Some(i) => Room(vec![self.all.0[i].clone()]),
            None => self.all.clone(),
        }
    }
    fn simplify(&mut self) -> bool {
        let i = FAILED.load(Ordering::SeqCst);
        if self.done || self.all.0.len() < 2 || i >= self.all.0.len() {
            return false;
        }
        self.done = true;
        self.alone = Some(i);
        true
    }
    fn complicate(&mut self) -> bool {
        self.alone.take().is_some()
    }
}

trait Both: Read + Write {}
impl<T: Read + Write> Both for T {}
type Peer = Raw<Box<dyn Both>>;

/// the hand-made end: two messages, each answered with the same
fn talk(c: &Idle, p: &mut Peer, masked: bool) -> Res {
    let mask = if masked { Some([c.cut as u8, 9, 7, 1]) } else { None };
    c.wait(4);
    for k in 0..2 {
        let f = Frame::new(true, 1, format!("{} {}", c.text, k).into_bytes()).masked(mask);
        let b = f.encode();
        let at = 1 + c.cut as usize % (b.len() - 1);
        p.put(&b[..at], "the beginning of a message")?;
        if k == 0 {
            c.wait(5);
        }
        p.put(&b[at..], "the rest of a message")?;
        let e = p.frame("the answer to a message")?;
        ensure!(e.fin && e.op == 1 && e.payload == f.payload, "the answer to message {} has op {} and {} bytes", k, e.op, e.payload.len());
        if k == 0 {
            c.wait(6);
            if c.greet {
                p.put(&Frame::new(true, 10, b"still here".to_vec()).masked(mask).encode(), "a pong")?;
            }
        }
    }
    c.wait(7);
    Ok(())
}
fn patient_socket(s: &TcpStream) {
    let _ = s.set_read_timeout(Some(Duration::from_millis(u64::from(budget()) + 20_000)));
    let _ = s.set_write_timeout(Some(WAIT));
    let _ = s.set_nodelay(true);
}
fn boxed<S: Read + Write + 'static>(s: S) -> Peer {
    Raw { s: Box::new(s), buf: vec![], eof: false }
}
fn finish(s: &TcpStream, p: &mut Peer) -> Res {
    let _ = s.shutdown(std::net::Shutdown::Write);
    p.end("the end")?;
    no_linger(s);
    Ok(())
}
fn host_peer(c: &Idle, l: TcpListener) -> Res {
    c.wait(0);
    let s = match accept_within(&l, Duration::from_secs(20)) {
        Some(s) => s,
        None => return stall("no connection"),
    };
    patient_socket(&s);
    let keep = env(s.try_clone(), "clone")?;
    let tls = c.who.tls();
    if tls {
        c.wait(1);
    }
    let mut p = if tls {
        match Cert::Good.acceptor().accept(s) {
            Ok(t) => boxed(t),
            Err(e) => fail!("no TLS session: {}", e),
        }
    } else {
        boxed(s)
    };
    let head = p.head("the request")?;
    let key = match head.one("sec-websocket-key").and_then(rfc::unb64) {
        Some(k) => k,
        None => fail!("a request without a key"),
    };
    if !tls {
        c.wait(1);
    }
    let r = response_for(&key);
    let at = 1 + c.cut as usize % (r.len() - 1);
    p.put(&r[..at], "the beginning of the response")?;
    c.wait(2);
    p.put(&r[at..], "the rest of the response")?;
    talk(c, &mut p, false)?;
    finish(&keep, &mut p)
}
fn guest_peer(c: &Idle, to: SocketAddr) -> Res {
    c.wait(0);
    let s = env(TcpStream::connect(to), "connect")?;
    patient_socket(&s);
    let keep = env(s.try_clone(), "clone")?;
    c.wait(1);
    let mut p = if c.who.tls() {
        match any_cert().connect("127.0.0.1", s) {
            Ok(t) => boxed(t),
            Err(e) => fail!("no TLS session: {}", e),
        }
    } else {
        boxed(s)
    };
    let r = request_head();
    let at = 1 + c.cut as usize % (r.len() - 1);
    p.put(&r[..at], "the beginning of the request")?;
    c.wait(2);
    p.put(&r[at..], "the rest of the request")?;
    p.head("the response")?;
    talk(c, &mut p, true)?;
    finish(&keep, &mut p)
}
fn sync_app<S: websocket::stream::sync::Stream>(c: &Idle, mut k: Client<S>) -> Res {
    if c.who.client() {
        c.wait(3);
    }
    let mut n = 0;
    loop {
        match k.recv_message() {
            Ok(m @ OwnedMessage::Text(_)) => {
                n += 1;
                if let Err(e) = k.send_message(&m) {
                    fail!("sending answer {} fails: {} {:?}", n, err_name(&e), e);
                }
            }
            Ok(_) => {}
            Err(_) if n == 2 => return Ok(()),
            Err(e) => fail!("receiving fails after {} messages: {} {:?}", n, err_name(&e), e),
        }
    }
}
fn async_app<S>(c: &Idle, k: AsyncClient<S>) -> Box<dyn Future<Item = (), Error = Fail>>
where
    S: websocket::stream::r#async::Stream + 'static,
{
    use futures::future::{loop_fn, Either, Loop};
    if c.who.client() {
        c.wait(3);
    }
    Box::new(loop_fn((k, 0), |(k, n)| {
        k.into_future().then(move |r| match r {
            Ok((Some(m @ OwnedMessage::Text(_)), k)) => Either::A(k.send(m).map(move |k| Loop::Continue((k, n + 1))).map_err(move |e| {
                Fail::Violation(format!("sending answer {} fails: {} {:?}", n + 1, err_name(&e), e))
            })),
            Ok((Some(_), k)) => Either::B(futures::future::ok(Loop::Continue((k, n)))),
            _ if n == 2 => Either::B(futures::future::ok(Loop::Break(()))),
            Ok((None, _)) => Either::B(futures::future::err(Fail::Violation(format!("the connection ends after {} messages", n)))),
            Err((e, _)) => Either::B(futures::future::err(Fail::Violation(format!("receiving fails after {} messages: {} {:?}", n, err_name(&e), e)))),
        })
    }))
}
fn lib_client(c: &Idle, to: SocketAddr) -> Res {
    let url = format!("ws://{}/wait", to);
    let mut b = match ClientBuilder::new(&url) {
        Ok(b) => b,
        Err(e) => fail!("{}: {}", url, e),
    };
    let bad = |e: WebSocketError| Fail::Violation(format!("connecting fails: {} {:?}", err_name(&e), e));
    let rt = || env(tokio::runtime::current_thread::Runtime::new(), "runtime");
    match c.who {
        Who::Connect => sync_app(c, b.connect(None).map_err(bad)?),
        Who::Insecure => sync_app(c, b.connect_insecure().map_err(bad)?),
        Who::Secure => sync_app(c, b.connect_secure(Some(any_cert())).map_err(bad)?),
        Who::OnSocket => sync_app(c, b.connect_on(env(TcpStream::connect(to), "connect")?).map_err(bad)?),
        Who::AConnect => rt()?.block_on(b.async_connect(None).map_err(bad).and_then(|(k, _)| async_app(c, k))),
        Who::AInsecure => rt()?.block_on(b.async_connect_insecure().map_err(bad).and_then(|(k, _)| async_app(c, k))),
        _ => rt()?.block_on(b.async_connect_secure(Some(any_cert())).map_err(bad).and_then(|(k, _)| async_app(c, k))),
    }
}
fn lib_server(c: &Idle, tell: mpsc::Sender<SocketAddr>) -> Res {
    let ip = if c.who.tls() { Ipv4Addr::LOCALHOST } else { fresh_ip() };
    let refused = |e: &dyn std::fmt::Debug| Fail::Violation(format!("a proper request is refused: {:?}", e));
    macro_rules! sync {
        ($s:expr) => {{
            let mut s = env($s, "bind")?;
            let _ = tell.send(env(s.local_addr(), "local_addr")?);
            let u = s.accept().map_err(|e| refused(&e.error))?;
            c.wait(3);
            match u.accept() {
                Ok(k) => sync_app(c, k),
                Err((_, e)) => fail!("accepting fails: {}", e),
            }
        }};
    }
    macro_rules! asynchronous {
        ($s:expr) => {{
            let mut rt = env(tokio::runtime::current_thread::Runtime::new(), "runtime")?;
            let s = env(rt.block_on(futures::future::lazy(|| $s)), "bind")?;
            let _ = tell.send(env(s.local_addr(), "local_addr")?);
            let r = rt.block_on(s.incoming().into_future());
            match r {
                Ok((Some((u, _)), _rest)) => {
                    c.wait(3);
                    let bad = |e: WebSocketError| Fail::Violation(format!("accepting fails: {} {:?}", err_name(&e), e));
                    rt.block_on(u.accept().map_err(bad).and_then(|(k, _)| async_app(c, k)))
                }
                Ok((None, _)) => fail!("the stream of connections ends"),
                Err((e, _)) => Err(refused(&e.error)),
            }
        }};
    }
    let h = Handle::default();
    match c.who {
        Who::Server => sync!(websocket::sync::Server::bind((ip, 0))),
        Who::SecureServer => sync!(websocket::sync::Server::bind_secure((ip, 0), Cert::Good.acceptor())),
        Who::AServer => asynchronous!(websocket::r#async::Server::bind((ip, 0), &h)),
        Who::ASecureServer => asynchronous!(websocket::r#async::Server::bind_secure((ip, 0), Cert::Good.acceptor(), &h)),
        _ => {
            let l = env(TcpListener::bind((ip, 0)), "bind")?;
            let _ = tell.send(env(l.local_addr(), "local_addr")?);
            let (s, _) = env(l.accept(), "accept")?;
            let u = s.into_ws().map_err(|(_, _, _, e)| refused(&e))?;
            c.wait(3);
            match u.accept() {
                Ok(k) => sync_app(c, k),
                Err((_, e)) => fail!("accepting fails: {}", e),
            }
        }
    }
}
fn sit(c: &Idle) -> Res {
    let c2 = c.clone();
    let (lib, peer) = if c.who.client() {
        let ip = if c.who.tls() { Ipv4Addr::LOCALHOST } else { fresh_ip() };
        let l = env(TcpListener::bind((ip, 0)), "bind")?;
        let to = env(l.local_addr(), "local_addr")?;
        (side(move || lib_client(&c2, to)), side({
            let c = c.clone();
            move || host_peer(&c, l)
        }))
    } else {
        let (tx, rx) = mpsc::channel();
        let lib = side(move || lib_server(&c2, tx));
        match rx.recv_timeout(Duration::from_secs(20)) {
            Ok(to) => (lib, side({
                let c = c.clone();
                move || guest_peer(&c, to)
            })),
            Err(_) => return lib.join_within(Duration::from_secs(1), "the server").and_then(|()| stall("the server does not bind")),
        }
    };
    let end = Duration::from_millis(u64::from(budget()) + 30_000);
    // what the library says comes first, as its peer only sees the consequence
    let l = lib.join_within(end, "the library's side");
    if let Err(Fail::Violation(_)) = l {
        return l;
    }
    let p = peer.join_within(end, "the peer");
    match (l, p) {
        (_, Err(Fail::Violation(m))) => fail!("the peer: {}", m),
        (Err(e), _) | (_, Err(e)) => Err(e),
        _ => Ok(()),
    }
}
fn together(cs: &[Idle]) -> Vec<Res> {
    let hs: Vec<_> = cs
        .iter()
        .cloned()
        .map(|c| std::thread::Builder::new().stack_size(2 << 20).spawn(move || sit(&c)))
        .collect();
    hs.into_iter()
        .map(|h| match h {
            Ok(h) => h.join().unwrap_or_else(|_| Err(Fail::Violation("panic".into()))),
            Err(e) => Err(Fail::Inconclusive(format!("no thread: {}", e))),
        })
        .collect()
}
fn wait(c: &Room, o: &mut Obs) -> Res {
    let mut rs = together(&c.0);
    // what did not come to an end gets another chance, in better company
    let late: Vec<usize> = (0..rs.len()).filter(|i| matches!(&rs[*i], Err(Fail::Inconclusive(_)))).take(12).collect();
    if !late.is_empty() && !rs.iter().any(|r| matches!(r, Err(Fail::Violation(_)))) {
        let again = together(&late.iter().map(|i| c.0[*i].clone()).collect::<Vec<_>>());
        for (i, r) in late.into_iter().zip(again) {
            rs[i] = match r {
                Err(Fail::Inconclusive(m)) if m.starts_with("stall") => Err(Fail::Violation(format!("{} (twice)", m))),
                r => r,
            };
        }
    }
    let mut last = Ok(());
    for (i, (r, c)) in rs.into_iter().zip(&c.0).enumerate() {
        let (ms, at) = c.longest();
        match r {
            Ok(()) => {
                o.class(format!("{:?}", c.who));
                o.class_if(ms >= budget() / 2, format!("long rest {}", STAGES[at]));
            }
            Err(Fail::Violation(m)) => {
                if !matches!(last, Err(Fail::Violation(_))) {
                    FAILED.store(i, Ordering::SeqCst);
                    last = Err(Fail::Violation(format!("{:?} that rests for up to {} ms ({}): {}", c.who, ms, STAGES[at], m)));
                }
            }
            e => {
                if last.is_ok() {
                    last = e;
                }
            }
        }
    }
    o.nontrivial(c.0.iter().any(|c| c.longest().0 >= 1000));
    last
}

// ------------------------------------------------------------------------------- options

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Via {
    OnSocket,
    Insecure,
    Connect,
    Secure,
    Server,
    SecureServer,
    Upgrade,
    Rejected,
    Refused,
    AInsecure,
    AServer,
}
const VIA: &[Via] = &[
    Via::OnSocket, Via::Insecure, Via::Connect, Via::Secure, Via::Server, Via::SecureServer, Via::Upgrade,
    Via::Rejected, Via::Refused, Via::AInsecure, Via::AServer,
];
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Set {
    ReadTimeout(Option<u32>),
    WriteTimeout(Option<u32>),
    NonBlocking(bool),
    NoDelay(bool),
    Ttl(u8),
    Linger(Option<u16>),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Step {
    Set(Set),
    /// a message there and back
    Echo,
    Split,
    Parts,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Options {
    via: Via,
    /// set on sockets the application brings along
    before: Vec<Set>,
    /// set on an upgrade that is not answered yet
    asked: Vec<Set>,
    steps: Vec<Step>,
}
fn set() -> BoxedStrategy<Set> {
    // no timeout so short that it would end an exchange
    let t = || proptest::option::of(dict::ints((20_000u32..4_000_000).boxed(), 20_000, 4_000_000, |n, _| n as u32));
    prop_oneof![
        3 => t().prop_map(Set::ReadTimeout),
        3 => t().prop_map(Set::WriteTimeout),
        2 => any::<bool>().prop_map(Set::NonBlocking),
        2 => any::<bool>().prop_map(Set::NoDelay),
        2 => (1u8..=255).prop_map(Set::Ttl),
        1 => proptest::option::of(1u16..100).prop_map(Set::Linger),
    ]
    .boxed()
}
fn options_case() -> BoxedStrategy<Options> {
    let step = prop_oneof![4 => set().prop_map(Step::Set), 3 => Just(Step::Echo), 1 => Just(Step::Split), 1 => Just(Step::Parts)];
    // a handshake is made with a blocking socket
    let calm = || vec(set().prop_map(|s| if let Set::NonBlocking(_) = s { Set::NonBlocking(false) } else { s }), 0..4);
    (select(VIA), calm(), calm(), vec(step, 0..10))
        .prop_map(|(via, before, asked, steps)| Options { via, before, asked, steps })
        .boxed()
}
fn opt<T: Copy>(fd: i32, level: i32, name: i32, zero: T) -> Result<T, Fail> {
    let mut v = zero;
    let mut n = std::mem::size_of::<T>() as u32;
    // SAFETY: a buffer of the size that is told
    let r = unsafe { libc::getsockopt(fd, level, name, &mut v as *mut T as *mut libc::c_void, &mut n) };
    if r != 0 {
        return Err(Fail::Inconclusive("environment: getsockopt".into()));
    }
    Ok(v)
}
/// What the options of a socket are expected to be; `None`: not said.
#[derive(Clone, Debug)]
struct Expect {
    read: u64,
    write: u64,
    nonblocking: bool,
    nodelay: Option<bool>,
    ttl: i32,
    linger: Option<u16>,
}
impl Expect {
    fn fresh(nonblocking: bool) -> Result<Expect, Fail> {
        let l = env(TcpListener::bind((fresh_ip(), 0)), "bind")?;
        let ttl = opt(l.as_raw_fd(), libc::IPPROTO_IP, libc::IP_TTL, 0i32)?;
        Ok(Expect { read: 0, write: 0, nonblocking, nodelay: None, ttl, linger: None })
    }
    fn apply(&mut self, s: &TcpStream, set: Set) -> Res {
        let dur = |t: Option<u32>| t.map(|t| Duration::from_millis(t.into()));
        let r = match set {
            Set::ReadTimeout(t) => {
                self.read = t.unwrap_or(0).into();
                s.set_read_timeout(dur(t))
            }
            Set::WriteTimeout(t) => {
                self.write = t.unwrap_or(0).into();
                s.set_write_timeout(dur(t))
            }
            Set::NonBlocking(b) => {
                self.nonblocking = b;
                s.set_nonblocking(b)
            }
            Set::NoDelay(b) => {
                self.nodelay = Some(b);
                s.set_nodelay(b)
            }
            Set::Ttl(n) => {
                self.ttl = n.into();
                s.set_ttl(n.into())
            }
            Set::Linger(t) => {
                self.linger = t;
                let l = libc::linger { l_onoff: t.is_some() as i32, l_linger: t.unwrap_or(0).into() };
                // SAFETY: plain setsockopt on an open descriptor
                let r = unsafe {
                    libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32)
                };
                if r == 0 { Ok(()) } else { Err(io::Error::last_os_error()) }
            }
        };
        env(r, "setting an option")
    }
    fn check(&self, fd: i32, whr: &str) -> Res {
        let tv = |name| opt(fd, libc::SOL_SOCKET, name, libc::timeval { tv_sec: 0, tv_usec: 0 }).map(|t| t.tv_sec as u64 * 1000 + t.tv_usec as u64 / 1000);
        // the kernel rounds to its ticks
        let near = |a: u64, b: u64| (a == 0) == (b == 0) && (a > b && a - b <= 20 || b >= a && b - a <= 20);
        let (r, w) = (tv(libc::SO_RCVTIMEO)?, tv(libc::SO_SNDTIMEO)?);
        ensure!(near(r, self.read), "{}: the read timeout is {} ms, not {} (0: none)", whr, r, self.read);
        ensure!(near(w, self.write), "{}: the write timeout is {} ms, not {} (0: none)", whr, w, self.write);
        // SAFETY: plain fcntl on an open descriptor
        let nb = unsafe { libc::fcntl(fd, libc::F_GETFL) & libc::O_NONBLOCK != 0 };
        ensure!(nb == self.nonblocking, "{}: the socket {} non-blocking", whr, if nb { "is" } else { "is not" });
        let l = opt(fd, libc::SOL_SOCKET, libc::SO_LINGER, libc::linger { l_onoff: 0, l_linger: 0 })?;
        let l = if l.l_onoff != 0 { Some(l.l_linger as u16) } else { None };
        ensure!(l == self.linger, "{}: the socket lingers for {:?} s, not {:?}", whr, l, self.linger);
        let ttl = opt(fd, libc::IPPROTO_IP, libc::IP_TTL, 0i32)?;
        ensure!(ttl == self.ttl, "{}: the TTL is {}, not {}", whr, ttl, self.ttl);
        let ut = opt(fd, libc::IPPROTO_TCP, libc::TCP_USER_TIMEOUT, 0i32)?;
        ensure!(ut == 0, "{}: unacknowledged data ends the connection after {} ms", whr, ut);
        if let Some(d) = self.nodelay {
            let n = opt(fd, libc::IPPROTO_TCP, libc::TCP_NODELAY, 0i32)? != 0;
            ensure!(n == d, "{}: nodelay is {}, not {}", whr, n, d);
        }
        Ok(())
    }
}
/// the other end: shakes hands, then sends back what it gets
fn echo<S: Read + Write>(p: &mut Raw<S>, masked: bool) -> Res {
    while let Ok(f) = p.frame("a message") {
        let m = if masked { Some([3, 1, 4, 1]) } else { None };
        p.put(&Frame::new(true, f.op, f.payload).masked(m).encode(), "the same message")?;
    }
    Ok(())
}
fn echo_host(l: TcpListener, tls: bool) -> Side<()> {
    side(move || {
        let s = match accept_within(&l, WAIT) {
            Some(s) => s,
            None => return stall("no connection"),
        };
        let p = raw(s);
        fn go<S: Read + Write>(mut p: Raw<S>) -> Res {
            let h = p.head("the request")?;
            let key = h.one("sec-websocket-key").and_then(rfc::unb64).unwrap_or_default();
            p.put(&response_for(&key), "the response")?;
            echo(&mut p, false)
        }
        if tls {
            match Cert::Good.acceptor().accept(p.s) {
                Ok(t) => go(Raw { s: t, buf: vec![], eof: false }),
                Err(e) => fail!("no TLS session: {}", e),
            }
        } else {
            go(p)
        }
    })
}
fn echo_guest(to: SocketAddr, tls: bool, good: bool) -> Side<()> {
    side(move || {
        let p = raw(env(TcpStream::connect(to), "connect")?);
        fn go<S: Read + Write>(mut p: Raw<S>, good: bool) -> Res {
            let mut h = request_head();
            if !good {
                h = String::from_utf8(h).unwrap().replace("Upgrade: websocket", "Upgrade: other").into_bytes();
            }
            p.put(&h, "the request")?;
            if p.head("the response").is_ok() {
                echo(&mut p, true)?;
            }
            Ok(())
        }
        if tls {
            match any_cert().connect("127.0.0.1", p.s) {
                Ok(t) => go(Raw { s: t, buf: vec![], eof: false }, good),
                Err(e) => fail!("no TLS session: {}", e),
            }
        } else {
            go(p, good)
        }
    })
}
fn retry<T>(mut f: impl FnMut() -> Result<T, WebSocketError>, what: &str) -> Result<T, Fail> {
    let until = std::time::Instant::now() + WAIT;
    loop {
        match f() {
            Ok(x) => return Ok(x),
            Err(WebSocketError::IoError(ref e)) if e.kind() == io::ErrorKind::WouldBlock => {
                if std::time::Instant::now() > until {
                    return stall(what);
                }
                std::thread::sleep(Duration::from_micros(300));
            }
            Err(e) => fail!("{} fails: {}", what, err_name(&e)),
        }
    }
}
fn steps<S>(c: &Options, mut k: Client<S>, mut e: Expect) -> Result<(), Fail>
where
    S: AsTcpStream + websocket::stream::sync::Stream,
{
    let fd = |k: &Client<S>| k.stream_ref().as_tcp().as_raw_fd();
    e.check(fd(&k), &format!("{:?}: once connected", c.via))?;
    for (i, s) in c.steps.iter().enumerate() {
        match s {
            Step::Set(s) => {
                match s {
                    Set::NonBlocking(b) if i % 2 == 0 => env(k.set_nonblocking(*b), "set_nonblocking")?,
                    Set::NoDelay(b) if i % 2 == 0 => env(k.set_nodelay(*b), "set_nodelay")?,
                    _ => {}
                }
                e.apply(k.stream_ref().as_tcp(), *s)?;
            }
            Step::Echo => {
                // TLS is not asked to go on where it would block
                let nb = e.nonblocking;
                if nb && matches!(c.via, Via::Secure | Via::SecureServer) {
                    e.apply(k.stream_ref().as_tcp(), Set::NonBlocking(false))?;
                }
                let m = OwnedMessage::Text(format!("message {}", i));
                if let Err(x) = k.send_message(&m) {
                    fail!("step {}: sending fails: {}", i, err_name(&x));
                }
                let r = retry(|| k.recv_message(), "receiving the same message")?;
                ensure!(r == m, "step {}: another message comes back", i);
            }
            _ => {}
        }
        e.check(fd(&k), &format!("{:?}: after step {} {:?}", c.via, i, s))?;
    }
    if c.steps.last() == Some(&Step::Parts) {
        let (s, _) = k.into_stream();
        e.check(s.as_tcp().as_raw_fd(), &format!("{:?}: taken apart", c.via))?;
    }
    Ok(())
}
/// as `steps`, for clients that can be split
fn split_steps(c: &Options, k: Client<TcpStream>, e: Expect) -> Result<(), Fail> {
    if c.steps.last() != Some(&Step::Split) {
        return steps(c, k, e);
    }
    let (mut r, mut w) = env(k.split(), "split")?;
    e.check(w.stream.as_raw_fd(), &format!("{:?}: split off", c.via))?;
    let m = OwnedMessage::Binary(vec![1, 2, 3]);
    if let Err(x) = w.send_message(&m) {
        fail!("sending through the writer fails: {}", err_name(&x));
    }
    let g = retry(|| r.recv_message(), "receiving through the reader")?;
    ensure!(g == m, "another message comes back");
    e.check(w.stream.as_raw_fd(), &format!("{:?}: split off and used", c.via))
}
fn options(c: &Options, o: &mut Obs) -> Res {
    patient(c, o, options_run)
}
fn options_run(c: &Options, o: &mut Obs) -> Res {
    let tls = matches!(c.via, Via::Secure | Via::SecureServer);
    let ip = if tls { Ipv4Addr::LOCALHOST } else { fresh_ip() };
    let mut e = Expect::fresh(false)?;
    let bad = |e: WebSocketError| Fail::Violation(format!("connecting fails: {}", err_name(&e)));
    macro_rules! rt {
        () => {
            env(tokio::runtime::current_thread::Runtime::new(), "runtime")?
        };
    }
    macro_rules! serve {
        ($s:expr, $then:expr) => {{
            let mut s = env($s, "bind")?;
            let g = echo_guest(env(s.local_addr(), "local_addr")?, tls, c.via != Via::Refused);
            let r = match s.accept() {
                Ok(u) => {
                    e.check(u.tcp_stream().as_raw_fd(), "a request that is not answered yet")?;
                    for x in &c.asked {
                        e.apply(u.tcp_stream(), *x)?;
                    }
                    if c.via == Via::Rejected {
                        match u.reject() {
                            Ok(s) => e.check(s.as_tcp().as_raw_fd(), "a stream whose request was rejected"),
                            Err((_, x)) => fail!("rejecting fails: {}", x),
                        }
                    } else {
                        match u.accept() {
                            Ok(k) => $then(c, k, e),
                            Err((_, x)) => fail!("accepting fails: {}", x),
                        }
                    }
                }
                Err(x) => match x.stream {
                    Some(s) if c.via == Via::Refused => {
                        let r = e.check(s.as_tcp().as_raw_fd(), "a stream whose request was refused");
                        drop(s);
                        r
                    }
                    _ => fail!("the request is refused: {:?}", x.error),
                },
            };
            r?;
            drop(s);
            g
        }};
    }
    let peer = match c.via {
        Via::OnSocket | Via::Insecure | Via::Connect | Via::Secure | Via::AInsecure => {
            let l = env(TcpListener::bind((ip, 0)), "bind")?;
            let to = env(l.local_addr(), "local_addr")?;
            let p = echo_host(l, tls);
            let url = format!("ws://{}/", to);
            let mut b = match ClientBuilder::new(&url) {
                Ok(b) => b,
                Err(x) => fail!("{}: {}", url, x),
            };
            match c.via {
                Via::OnSocket => {
                    let s = env(TcpStream::connect(to), "connect")?;
                    for x in &c.before {
                        e.apply(&s, *x)?;
                    }
                    split_steps(c, b.connect_on(s).map_err(bad)?, e)?;
                }
                Via::Insecure => split_steps(c, b.connect_insecure().map_err(bad)?, e)?,
                Via::Connect => steps(c, b.connect(None).map_err(bad)?, e)?,
                Via::Secure => steps(c, b.connect_secure(Some(any_cert())).map_err(bad)?, e)?,
                _ => {
                    e.nonblocking = true;
                    let r = rt!().block_on(b.async_connect_insecure()).map_err(bad)?;
                    e.check(r.0.get_ref().as_raw_fd(), "AInsecure: once connected")?;
                }
            }
            p
        }
        Via::Server | Via::Rejected | Via::Refused => serve!(websocket::sync::Server::bind((ip, 0)), split_steps),
        Via::SecureServer => serve!(websocket::sync::Server::bind_secure((ip, 0), Cert::Good.acceptor()), steps),
        Via::Upgrade => {
            let l = env(TcpListener::bind((ip, 0)), "bind")?;
            let p = echo_guest(env(l.local_addr(), "local_addr")?, false, true);
            let s = match accept_within(&l, WAIT) {
                Some(s) => s,
                None => return stall("no connection"),
            };
            for x in &c.before {
                e.apply(&s, *x)?;
            }
            let u = match s.into_ws() {
                Ok(u) => u,
                Err((_, _, _, x)) => fail!("the request is refused: {:?}", x),
            };
            e.check(u.tcp_stream().as_raw_fd(), "a request that is not answered yet")?;
            for x in &c.asked {
                e.apply(u.tcp_stream(), *x)?;
            }
            match u.accept() {
                Ok(k) => split_steps(c, k, e)?,
                Err((_, x)) => fail!("accepting fails: {}", x),
            }
            p
        }
        Via::AServer => {
            let mut rt = rt!();
            let h = Handle::default();
            let s = env(rt.block_on(futures::future::lazy(|| websocket::r#async::Server::bind((ip, 0), &h))), "bind")?;
            let g = echo_guest(env(s.local_addr(), "local_addr")?, false, true);
            match rt.block_on(s.incoming().into_future()) {
                Ok((Some((u, _)), _)) => {
                    e.nonblocking = true;
                    let r = rt.block_on(u.accept()).map_err(bad)?;
                    e.check(r.0.get_ref().as_raw_fd(), "AServer: once connected")?;
                }
                Ok((None, _)) => fail!("the stream of connections ends"),
                Err((x, _)) => fail!("the request is refused: {:?}", x.error),
            }
            g
        }
    };
    let _ = peer.join("the peer");
    o.class(format!("{:?}", c.via));
    o.nontrivial(!c.steps.is_empty());
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C03",
        level: "1",
        assumptions: &["a Linux loopback socket stands for the network", "nothing longer than 34 s (quick) or 130 s (thorough) is waited for"],
        suites: vec![
            suite(
                "options",
                "sockets handed out by every connect function and server, with generated options set by the application before and between exchanges; after each step the timeouts, lingering, blocking mode and TTL the kernel reports are compared with a model; non-trivial: there is a step",
                opts(4_000, 150_000).shrink(100),
                options_case,
                options,
            ),
            suite(
                "patience",
                "rooms of up to 160 connections at once (every connect function and server, plain and TLS) that rest for generated times at generated points of the handshake, a message or in between; afterwards everything goes on as if they had not; a case is one room; non-trivial: a rest of a second or more",
                opts(2, 16).shards(2).shrink(3).hang(1000),
                || Rooms.boxed(),
                wait,
            ),
        ],
    }]
}
