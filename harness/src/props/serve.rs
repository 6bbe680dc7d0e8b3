//! S01, S02 and the asynchronous part of T02: servers and their connections.
use super::tls::{any_cert, path_head, play, tpeer, TPeer};
use crate::dict;
use crate::api::*;
use crate::engine::*;
use crate::net::*;
use crate::rfc::{self, Frame};
use futures::{Async, Future, Sink, Stream};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::io::{self, Read, Write};
use std::net::{SocketAddr, TcpStream};
use std::sync::mpsc;
use std::time::{Duration, Instant};
use websocket::server::r#async::{Handle, Incoming};
use websocket::server::sync::AcceptResult;
use websocket::server::upgrade::sync::Buffer;
use websocket::server::upgrade::HyperIntoWsError;
use websocket::server::{InvalidConnection, NoTlsAcceptor};
use websocket::OwnedMessage;

// ------------------------------------------------------------------------------- the hosting side

#[derive(Debug)]
enum Event {
    Ok { addr: SocketAddr, path: String },
    Err { peer: Option<SocketAddr>, stream: bool, path: Option<String>, error: String },
    Ended,
}
/// Serves until told to stop: echoes, rejects `/reject…`, drops `/drop…`, answers `/late…` only when
/// something else happens, and says "bye" on every stream handed back with an error.
fn host<S>(
    mut incoming: Incoming<S>,
    peer: fn(&S) -> Option<SocketAddr>,
    tx: mpsc::Sender<Event>,
    mut stop: futures::sync::oneshot::Receiver<()>,
) -> impl Future<Item = (), Error = ()>
where
    S: websocket::stream::r#async::Stream + Send + 'static,
{
    use tokio::runtime::current_thread::spawn;
    let mut late = vec![];
    fn serve<S>(u: websocket::server::upgrade::r#async::Upgrade<S>)
    where
        S: websocket::stream::r#async::Stream + Send + 'static,
    {
        tokio::runtime::current_thread::spawn(
            u.accept()
                .and_then(|(c, _)| {
                    let (sink, stream) = c.split();
                    stream.take_while(|m| Ok(!m.is_close())).forward(sink)
                })
                .map(|_| ())
                .map_err(|_| ()),
        );
    }
    futures::future::poll_fn(move || loop {
        match stop.poll() {
            Ok(Async::NotReady) => {}
            _ => return Ok(Async::Ready(())),
        }
        match incoming.poll() {
            Ok(Async::NotReady) => return Ok(Async::NotReady),
            Ok(Async::Ready(None)) => {
                let _ = tx.send(Event::Ended);
                return Ok(Async::Ready(()));
            }
            Ok(Async::Ready(Some((u, addr)))) => {
                let path = u.uri();
                let _ = tx.send(Event::Ok { addr, path: path.clone() });
                for u in late.drain(..) {
                    serve(u);
                }
                if path.starts_with("/reject") {
                    spawn(u.reject().map(|_| ()).map_err(|_| ()));
                } else if path.starts_with("/drop") {
                    drop(u);
                } else if path.starts_with("/late") {
                    late.push(u);
                } else {
                    serve(u);
                }
            }
            Err(InvalidConnection { stream, parsed, error, .. }) => {
                let _ = tx.send(Event::Err {
                    peer: stream.as_ref().and_then(peer),
                    stream: stream.is_some(),
                    path: parsed.map(|r| r.subject.1.to_string()),
                    error: format!("{:?}", error),
                });
                if let Some(s) = stream {
                    spawn(
                        tokio_io::io::write_all(s, &b"bye"[..])
                            .and_then(|(s, _)| tokio_io::io::shutdown(s))
                            .map(|_| ())
                            .map_err(|_| ()),
                    );
                }
            }
        }
    })
}
struct Hosted {
    addr: SocketAddr,
    events: mpsc::Receiver<Event>,
    stop: futures::sync::oneshot::Sender<()>,
    thread: Side<()>,
}
fn hosted(tls: Option<Cert>) -> Result<Hosted, Fail> {
    let (tx, events) = mpsc::channel();
    let (stop, stopped) = futures::sync::oneshot::channel();
    let (atx, arx) = mpsc::channel();
    let ip = fresh_ip();
    let thread = side(move || {
        let mut rt = env(tokio::runtime::current_thread::Runtime::new(), "runtime")?;
        let h = Handle::default();
        macro_rules! go {
            ($bind:expr, $peer:expr) => {{
                let s = match rt.block_on(futures::future::lazy(move || $bind)) {
                    Ok(s) => s,
                    Err(e) => return env(Err(e), "bind"),
                };
                match s.local_addr() {
                    Ok(a) => drop(atx.send(a)),
                    Err(e) => fail!("local_addr of the asynchronous server fails: {}", e),
                }
                let _ = rt.block_on(futures::future::lazy(move || host(s.incoming(), $peer, tx, stopped)));
            }};
        }
        match tls {
            None => go!(websocket::r#async::Server::bind((ip, 0), &h), |s| s.peer_addr().ok()),
            Some(c) => go!(websocket::r#async::Server::bind_secure((ip, 0), c.acceptor(), &h), |s| s.get_ref().get_ref().peer_addr().ok()),
        }
        Ok(())
    });
    match arx.recv_timeout(WAIT) {
        Ok(addr) => {
            ensure!(addr.ip() == std::net::IpAddr::from(ip) && addr.port() != 0, "the server bound to {} port 0 reports address {}", ip, addr);
            Ok(Hosted { addr, events, stop, thread })
        }
        Err(_) => {
            thread.join("the server")?;
            stall("the server does not start")
        }
    }
}
/// Results by peer: each must come exactly once.
struct Book {
    ok: Vec<(SocketAddr, String)>,
    err: Vec<(Option<SocketAddr>, bool, Option<String>, String)>,
}
impl Book {
    fn note(&mut self, e: Event) -> Res {
        match e {
            Event::Ok { addr, path } => self.ok.push((addr, path)),
            Event::Err { peer, stream, path, error } => self.err.push((peer, stream, path, error)),
            Event::Ended => fail!("the stream of incoming connections ends"),
        }
        Ok(())
    }
    /// waits until the results are there
    fn wait(&mut self, h: &Hosted, ok: usize, err: usize, what: &str) -> Res {
        let until = Instant::now() + WAIT;
        while self.ok.len() < ok || self.err.len() < err {
            match h.events.recv_timeout(until.saturating_duration_since(Instant::now())) {
                Ok(e) => self.note(e)?,
                Err(mpsc::RecvTimeoutError::Timeout) => {
                    return stall(&format!("{}: {} of {} connections and {} of {} errors reported", what, self.ok.len(), ok, self.err.len(), err))
                }
                Err(_) => fail!("the server is gone while {} of {} connections and {} of {} errors were reported ({})", self.ok.len(), ok, self.err.len(), err, what),
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------- S01

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Kind {
    Valid,
    Late,
    Reject,
    Drop,
    Bad,
    Garbage,
    Cut,
    Reset,
    Idle,
    Stuck,
}
const KINDS: &[Kind] = &[
    Kind::Valid, Kind::Valid, Kind::Valid, Kind::Valid, Kind::Late, Kind::Reject, Kind::Drop, Kind::Bad, Kind::Garbage, Kind::Cut, Kind::Reset,
    Kind::Idle, Kind::Stuck,
];
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Peer {
    kind: Kind,
    msgs: Vec<(bool, String)>,
    cuts: Vec<u16>,
    at: u16,
    /// look at the outcome before the others go on
    now: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Party {
    peers: Vec<Peer>,
    order: Vec<u8>,
    /// connections before all others that say nothing, or half a request
    #[serde(default)]
    crowd: u16,
}
/// as many connections as the limit on open files allows in a few cases at once
pub fn crowd_limit() -> u16 {
    let mut r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    let soft = unsafe {
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut r);
        r.rlim_cur as u64
    };
    (soft / 10).min(1500) as u16
}
fn crowd() -> BoxedStrategy<Party> {
    (party(), dict::ints(prop_oneof![4 => 9u16..150, 2 => 150u16..=600, 1 => 600u16..=1400, 1 => (5u32..=10, 0u16..4).prop_map(|(s, d)| (1 << s) + d)].boxed(), 9, 1500, |n, _| n as u16))
        .prop_map(|(mut p, n)| {
            p.peers.truncate(4);
            p.crowd = n;
            p
        })
        .boxed()
}
fn party() -> BoxedStrategy<Party> {
    let peer = (select(KINDS), vec((any::<bool>(), "[a-z]{0,30}"), 0..4), vec(any::<u16>(), 0..4), any::<u16>(), any::<bool>())
        .prop_map(|(kind, msgs, cuts, at, now)| Peer { kind, msgs, cuts, at, now });
    (vec(peer, 1..9), vec(any::<u8>(), 0..40))
        .prop_map(|(peers, order)| Party { peers, order, crowd: 0 })
        .boxed()
}
enum Act {
    Connect,
    Write(Vec<u8>),
    End,
    Reset,
}
fn path(k: Kind, i: usize) -> String {
    match k {
        Kind::Late => format!("/late{}", i),
        Kind::Reject => format!("/reject{}", i),
        Kind::Drop => format!("/drop{}", i),
        _ => format!("/p{}?x={}", i, i * 7),
    }
}
impl Peer {
    fn acts(&self, i: usize) -> VecDeque<Act> {
        let mut b = path_head(&path(self.kind, i));
        let mut v = VecDeque::from(vec![Act::Connect]);
        match self.kind {
            Kind::Valid | Kind::Late => {
                for (k, (text, m)) in self.msgs.iter().enumerate() {
                    b.extend(Frame::new(true, 2 - *text as u8, tag(i, k, m)).masked(Some([i as u8, 1, k as u8, 77])).encode());
                }
            }
            Kind::Reject | Kind::Drop => {}
            Kind::Bad => {
                let s = String::from_utf8(b).unwrap();
                b = match self.at % 4 {
                    0 => s.replace("Upgrade: websocket", "Upgrade: other"),
                    1 => s.replace("Connection: Upgrade", "Connection: close"),
                    2 => s.replace("GET ", "POST "),
                    _ => s.replace("Sec-WebSocket-Version: 13", "Sec-WebSocket-Version: 12"),
                }
                .into_bytes();
            }
            Kind::Garbage => {
                let g: &[&[u8]] = &[b"HELLO\r\n\r\n", b"\x00\x01\x02\r\n\r\n", b"GET / HTTP/1.1\r\nbroken line\r\n\r\n", b"\x16\x03\x01\x00\x05hello\r\n\r\n"];
                v.push_back(Act::Write(g[self.at as usize % g.len()].to_vec()));
                return v;
            }
            Kind::Cut | Kind::Reset | Kind::Stuck => {
                let n = (self.at as usize * b.len()) >> 16;
                b.truncate(if self.kind == Kind::Stuck { n.max(1) } else { n });
            }
            Kind::Idle => return v,
        }
        for p in crate::gen::split_at(&b, &self.cuts) {
            if !p.is_empty() {
                v.push_back(Act::Write(p));
            }
        }
        match self.kind {
            Kind::Cut => v.push_back(Act::End),
            Kind::Reset => v.push_back(Act::Reset),
            _ => {}
        }
        v
    }
}
fn tag(i: usize, k: usize, m: &str) -> Vec<u8> {
    format!("{}.{}:{}", i, k, m).into_bytes()
}
fn outcome(p: &Peer, i: usize, r: &mut Raw<TcpStream>) -> Res {
    let what = format!("peer {} {:?}", i, p.kind);
    match p.kind {
        Kind::Valid | Kind::Late => {
            let h = r.head(&format!("{}: the response", what))?;
            ensure!(h.line.starts_with("HTTP/1.1 101"), "{}: answered {:?}", what, h.line);
            ensure!(h.one("Sec-WebSocket-Accept") == Some(&rfc::accept_for(&KEY)), "{}: wrong accept token", what);
            for (k, (text, m)) in p.msgs.iter().enumerate() {
                let f = r.frame(&format!("{}: the echo of message {}", what, k))?;
                ensure!(
                    f.fin && f.op == 2 - *text as u8 && f.mask.is_none() && f.payload == tag(i, k, m),
                    "{}: echo {} is {:?}, expected {:?}", what, k, String::from_utf8_lossy(&f.payload), String::from_utf8_lossy(&tag(i, k, m))
                );
            }
        }
        Kind::Reject => {
            let h = r.head(&format!("{}: the response", what))?;
            ensure!(h.line.starts_with("HTTP/1.1 400"), "{}: answered {:?}", what, h.line);
            let b = r.end(&format!("{}: the end", what))?;
            ensure!(b.is_empty(), "{}: {} bytes after the rejection", what, b.len());
        }
        Kind::Drop => {
            let b = r.end(&format!("{}: the end", what))?;
            ensure!(b.is_empty(), "{}: {} bytes for a dropped upgrade", what, b.len());
        }
        Kind::Bad | Kind::Garbage | Kind::Cut => {
            let b = r.end(&format!("{}: the end", what))?;
            ensure!(b == b"bye", "{}: received {:?} instead of the farewell written to the returned stream", what, String::from_utf8_lossy(&b));
        }
        Kind::Reset | Kind::Idle | Kind::Stuck => {}
    }
    Ok(())
}
fn is_ok(k: Kind) -> bool {
    matches!(k, Kind::Valid | Kind::Late | Kind::Reject | Kind::Drop)
}
fn is_err(k: Kind) -> bool {
    matches!(k, Kind::Bad | Kind::Garbage | Kind::Cut | Kind::Reset)
}
fn s01(c: &Party, o: &mut Obs) -> Res {
    patient(c, o, s01_run)
}
fn s01_run(c: &Party, o: &mut Obs) -> Res {
    let h = hosted(None)?;
    let mut book = Book { ok: vec![], err: vec![] };
    let n = c.peers.len();
    let crowd_n = (c.crowd as usize).min(crowd_limit() as usize);
    let mut crowd = vec![];
    for i in 0..crowd_n {
        let mut s = env(TcpStream::connect(h.addr), "connect")?;
        if i % 3 == 1 {
            env(s.write_all(b"GET /half HTTP/1.1\r\nHost: h\r\n"), "half a request")?;
        }
        no_linger(&s);
        crowd.push(s);
    }
    let mut acts: Vec<VecDeque<Act>> = c.peers.iter().enumerate().map(|(i, p)| p.acts(i)).collect();
    let mut socks: Vec<Option<Raw<TcpStream>>> = (0..n).map(|_| None).collect();
    let mut addrs: Vec<Option<SocketAddr>> = vec![None; n];
    let mut judged = vec![false; n];
    let mut turn = 0;
    let mut interleaved = false;
    let mut last = usize::MAX;
    loop {
        let open: Vec<usize> = (0..n).filter(|i| !acts[*i].is_empty()).collect();
        if open.is_empty() {
            break;
        }
        let i = match c.order.get(turn) {
            Some(b) => open[*b as usize * open.len() >> 8],
            None => open[0],
        };
        turn += 1;
        interleaved |= last != i && last != usize::MAX && !acts[last].is_empty();
        last = i;
        match acts[i].pop_front().unwrap() {
            Act::Connect => {
                let s = env(TcpStream::connect(h.addr), "connect")?;
                addrs[i] = s.local_addr().ok();
                socks[i] = Some(raw(s));
            }
            Act::Write(b) => socks[i].as_mut().unwrap().put(&b, "a part of the handshake")?,
            Act::End => socks[i].as_ref().unwrap().finish(),
            Act::Reset => socks[i].take().unwrap().reset(),
        }
        let p = &c.peers[i];
        if acts[i].is_empty() && p.now && p.kind != Kind::Late {
            if let Some(r) = socks[i].as_mut() {
                outcome(p, i, r)?;
                judged[i] = true;
            }
        }
    }
    // a newcomer is served whatever the others do, and sets off the late answers
    let mut probe = raw(env(TcpStream::connect(h.addr), "connect")?);
    let probe_addr = env(probe.s.local_addr(), "local_addr")?;
    probe.put(&path_head("/probe"), "the probe")?;
    let head = probe.head("the response to a newcomer")?;
    ensure!(head.line.starts_with("HTTP/1.1 101"), "the newcomer is answered {:?}", head.line);
    let ok = c.peers.iter().filter(|p| is_ok(p.kind)).count() + 1;
    let err = c.peers.iter().filter(|p| is_err(p.kind)).count();
    book.wait(&h, ok, err, "after all handshakes")?;
    // late ones that were reported last need another newcomer
    let mut probe2 = raw(env(TcpStream::connect(h.addr), "connect")?);
    probe2.put(&path_head("/probe2"), "the probe")?;
    probe2.head("the response to a second newcomer")?;
    for (i, p) in c.peers.iter().enumerate() {
        if !judged[i] {
            if let Some(r) = socks[i].as_mut() {
                outcome(p, i, r)?;
            }
        }
    }
    // connections that live go on, undisturbed
    for (i, p) in c.peers.iter().enumerate() {
        if let (Kind::Valid | Kind::Late, Some(r)) = (p.kind, socks[i].as_mut()) {
            r.put(&Frame::new(true, 1, tag(i, 99, "again")).masked(Some([5, 6, 7, 8])).encode(), "one more message")?;
        }
    }
    for (i, p) in c.peers.iter().enumerate() {
        if let (Kind::Valid | Kind::Late, Some(r)) = (p.kind, socks[i].as_mut()) {
            let f = r.frame("one more echo")?;
            ensure!(f.payload == tag(i, 99, "again"), "peer {}: received {:?}", i, String::from_utf8_lossy(&f.payload));
        }
    }
    // those who never finished leave: one error each
    let mut gone = crowd.len();
    for s in &crowd {
        // an orderly end, so that the peer's address is still known
        let _ = s.shutdown(std::net::Shutdown::Write);
    }
    for (i, p) in c.peers.iter().enumerate() {
        if matches!(p.kind, Kind::Idle | Kind::Stuck) {
            socks[i] = None;
            gone += 1;
        }
    }
    book.wait(&h, ok + 1, err + gone, "after idle peers left")?;
    for s in socks.iter().flatten() {
        no_linger(&s.s);
    }
    no_linger(&probe.s);
    let _ = h.stop.send(());
    h.thread.join("the server")?;
    while let Ok(e) = h.events.try_recv() {
        book.note(e)?;
    }
    ensure!(book.ok.len() == ok + 1 && book.err.len() == err + gone, "{} connections and {} errors reported, expected {} and {}: {:?} {:?}", book.ok.len(), book.err.len(), ok + 1, err + gone, book.ok, book.err);
    for (i, p) in c.peers.iter().enumerate() {
        let a = addrs[i].unwrap();
        let mine: Vec<_> = book.ok.iter().filter(|(x, _)| *x == a).collect();
        if is_ok(p.kind) {
            ensure!(mine.len() == 1 && mine[0].1 == path(p.kind, i), "peer {} {:?} at {} with path {}: reported as {:?}", i, p.kind, a, path(p.kind, i), mine);
        } else {
            ensure!(mine.is_empty(), "peer {} {:?} reported as a connection: {:?}", i, p.kind, mine);
            let mine: Vec<_> = book.err.iter().filter(|(x, ..)| *x == Some(a)).collect();
            match p.kind {
                Kind::Bad | Kind::Garbage | Kind::Cut => {
                    ensure!(mine.len() == 1 && mine[0].1, "peer {} {:?}: its address is on {} errors {:?}", i, p.kind, mine.len(), mine);
                    let want = if p.kind == Kind::Bad { Some(path(p.kind, i)) } else { None };
                    ensure!(mine[0].2 == want, "peer {} {:?}: request {:?} reported, expected {:?}", i, p.kind, mine[0].2, want);
                }
                _ => ensure!(mine.len() <= 1, "peer {} {:?}: its address is on {} errors", i, p.kind, mine.len()),
            }
        }
    }
    ensure!(book.ok.iter().any(|(a, p)| *a == probe_addr && p == "/probe"), "the newcomer is not among the connections: {:?}", book.ok);
    for p in &c.peers {
        o.class(format!("{:?}", p.kind));
    }
    o.class_if(interleaved, "interleaved");
    o.class_if(crowd_n > 1000, "more than 1000 idle connections");
    let held = crowd_n > 0 || c.peers.iter().any(|p| matches!(p.kind, Kind::Idle | Kind::Stuck | Kind::Cut | Kind::Reset | Kind::Bad | Kind::Garbage));
    o.nontrivial(held && ok > 1);
    Ok(())
}

// ------------------------------------------------------------------------------- T02, asynchronous server

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SecureParty {
    peers: Vec<TPeer>,
    idle: u16,
}
fn t02_async(c: &SecureParty, o: &mut Obs) -> Res {
    patient(c, o, t02_async_run)
}
fn t02_async_run(c: &SecureParty, o: &mut Obs) -> Res {
    let h = hosted(Some(Cert::Good))?;
    let mut book = Book { ok: vec![], err: vec![] };
    // peers that never say anything, or not enough
    let mut idle = vec![];
    for i in 0..c.idle {
        let mut r = raw(env(TcpStream::connect(h.addr), "connect")?);
        if i % 2 == 1 {
            r.put(&[0x16, 3, 1, 0, 200, 1, 0, 0, 196, 3, 3, 1, 2, 3], "half a hello")?;
        }
        idle.push(r);
    }
    let mut sides = vec![];
    let mut from = vec![];
    for (i, p) in c.peers.iter().enumerate() {
        let s = env(TcpStream::connect(h.addr), "connect")?;
        from.push(env(s.local_addr(), "local_addr")?);
        let p = p.clone();
        sides.push(side(move || play(s, p, format!("/p{}", i))));
    }
    for (i, s) in sides.into_iter().enumerate() {
        s.join(&format!("peer {}", i)).map_err(|e| match e {
            Fail::Violation(m) => Fail::Violation(format!("peer {} {:?}: {}", i, c.peers[i], m)),
            e => e,
        })?;
    }
    let good = c.peers.iter().filter(|p| matches!(p, TPeer::Good(_))).count();
    book.wait(&h, good, c.peers.len() - good, "after all peers")?;
    // a newcomer is still served
    let s = env(TcpStream::connect(h.addr), "connect")?;
    play(s, TPeer::Good(vec!["still".into()]), "/probe".into())?;
    book.wait(&h, good + 1, c.peers.len() - good, "after a newcomer")?;
    drop(idle);
    book.wait(&h, good + 1, c.peers.len() - good + c.idle as usize, "after idle peers left")?;
    let _ = h.stop.send(());
    h.thread.join("the server")?;
    while let Ok(e) = h.events.try_recv() {
        book.note(e)?;
    }
    ensure!(
        book.ok.len() == good + 1 && book.err.len() == c.peers.len() - good + c.idle as usize,
        "{} connections and {} errors reported, expected {} and {}: {:?} {:?}", book.ok.len(), book.err.len(), good + 1, c.peers.len() - good + c.idle as usize, book.ok, book.err
    );
    for (i, p) in c.peers.iter().enumerate() {
        let ok: Vec<_> = book.ok.iter().filter(|(a, _)| *a == from[i]).collect();
        let err: Vec<_> = book.err.iter().filter(|(a, ..)| *a == Some(from[i])).collect();
        match p {
            TPeer::Good(_) => ensure!(ok.len() == 1 && ok[0].1 == format!("/p{}", i), "peer {}: reported as {:?}", i, ok),
            TPeer::BadRequest | TPeer::TlsGarbage => {
                ensure!(ok.is_empty() && err.len() == 1, "peer {} {:?}: reported as {:?} {:?}", i, p, ok, err);
                ensure!(err[0].2.is_some() == (*p == TPeer::BadRequest), "peer {} {:?}: request {:?}", i, p, err[0].2);
            }
            _ => ensure!(ok.is_empty(), "peer {} {:?} without TLS reported as a connection", i, p),
        }
    }
    o.class_if(good > 0, "good");
    o.class_if(c.idle > 0, "idle");
    o.nontrivial(good > 0 && (good < c.peers.len() || c.idle > 0));
    Ok(())
}
pub fn t02_suite() -> Suite {
    suite(
        "async-server",
        "a secure asynchronous server with concurrent peers: TLS with good and bad requests, plaintext requests, garbage, cut hellos, aborts, idle ones; non-trivial: good peers among others",
        opts(2_500, 80_000).shrink(60),
        || (vec(tpeer(), 1..7), dict::fresh_ints(prop_oneof![60 => 0u16..3, 1 => 3u16..300].boxed(), 0, 300, |n, _| n as u16)).prop_map(|(peers, idle)| SecureParty { peers, idle }).boxed(),
        t02_async,
    )
}

// ------------------------------------------------------------------------------- S02

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Decide {
    Accept,
    Reject,
    Drop,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Comer {
    Valid { msgs: Vec<String>, decide: Decide, closes: bool },
    Bad(u8, Vec<u8>),
    Garbage(u8),
    Cut(u16),
    Empty,
    Reset(u16),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum SOp {
    Connect(Comer),
    /// 0 accept, 1 iterator, more: accept on a clone
    Take(u8),
    NonBlocking(bool, u8),
    Clone,
    DropClone(u8),
    Addr,
    /// somebody connects while the server waits
    Wait(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Serve {
    ops: Vec<SOp>,
    into_async: bool,
    /// the operations are repeated this often
    #[serde(default)]
    times: u8,
}
fn comer() -> BoxedStrategy<Comer> {
    prop_oneof![
        5 => (vec("[a-z]{0,30}", 0..4), select(vec![Decide::Accept, Decide::Accept, Decide::Accept, Decide::Reject, Decide::Drop]), any::<bool>())
            .prop_map(|(msgs, decide, closes)| Comer::Valid { msgs, decide, closes }),
        2 => (0u8..4, vec(any::<u8>(), 0..20)).prop_map(|(k, t)| Comer::Bad(k, t)),
        1 => (0u8..4).prop_map(Comer::Garbage),
        1 => any::<u16>().prop_map(Comer::Cut),
        1 => Just(Comer::Empty),
        1 => any::<u16>().prop_map(Comer::Reset),
    ]
    .boxed()
}
fn serve_case() -> BoxedStrategy<Serve> {
    let op = prop_oneof![
        6 => comer().prop_map(SOp::Connect),
        6 => (0u8..6).prop_map(SOp::Take),
        3 => (any::<bool>(), 0u8..4).prop_map(|(b, k)| SOp::NonBlocking(b, k)),
        2 => Just(SOp::Clone),
        1 => any::<u8>().prop_map(SOp::DropClone),
        1 => Just(SOp::Addr),
        1 => (0u8..4).prop_map(SOp::Wait),
    ];
    (crate::gen::many(op, 1..16, 80), proptest::bool::weighted(0.3)).prop_map(|(ops, into_async)| Serve { ops, into_async, times: 1 }).boxed()
}
struct Pending {
    comer: Comer,
    /// gone for those who reset or closed
    sock: Option<Raw<TcpStream>>,
    addr: SocketAddr,
    path: String,
    sent: Vec<u8>,
    head: usize,
}
fn come(c: &Comer, to: SocketAddr, i: usize) -> Result<Pending, Fail> {
    let path = format!("/s{}?y={}", i, i);
    let good = path_head(&path);
    let mut b = good.clone();
    match c {
        Comer::Valid { msgs, .. } => {
            for m in msgs {
                b.extend(Frame::new(true, 1, m.clone().into_bytes()).masked(Some([3, i as u8, 9, 1])).encode());
            }
        }
        Comer::Bad(k, t) => {
            let s = String::from_utf8(b).unwrap();
            b = match k {
                0 => s.replace("Upgrade: websocket", "Upgrade: other"),
                1 => s.replace("Connection: Upgrade", "Connection: close"),
                2 => s.replace("GET ", "PUT "),
                _ => s.replace("Sec-WebSocket-Key", "X-Key"),
            }
            .into_bytes();
            b.extend(t);
        }
        Comer::Garbage(k) => {
            let g: [&[u8]; 4] = [b"HELLO\r\n\r\n", b"\x00\x01\x02\r\n\r\n", b"GET / HTTP/1.1\r\nbroken line\r\n\r\nrest", b"\x16\x03\x01\x00\x05hello\r\n\r\n"];
            b = g[*k as usize].to_vec();
        }
        Comer::Cut(at) | Comer::Reset(at) => b.truncate((*at as usize * good.len()) >> 16),
        Comer::Empty => b.clear(),
    }
    let s = env(TcpStream::connect(to), "connect")?;
    let addr = env(s.local_addr(), "local_addr")?;
    let mut r = raw(s);
    r.put(&b, "the handshake")?;
    let head = b.windows(4).position(|w| w == b"\r\n\r\n").map_or(b.len(), |p| p + 4);
    let sock = match c {
        Comer::Reset(_) => {
            r.reset();
            None
        }
        Comer::Valid { closes: false, .. } | Comer::Bad(..) => Some(r),
        _ => {
            r.finish();
            Some(r)
        }
    };
    Ok(Pending { comer: c.clone(), sock, addr, path, sent: b, head })
}
type SyncServer = websocket::sync::Server<NoTlsAcceptor>;
fn is_would_block(e: &HyperIntoWsError) -> bool {
    matches!(e, HyperIntoWsError::Io(e) if e.kind() == io::ErrorKind::WouldBlock)
}
fn take(s: &mut SyncServer, iter: bool, nonblocking: bool, whr: &str) -> Result<AcceptResult<TcpStream>, Fail> {
    let until = Instant::now() + WAIT;
    loop {
        let r = if iter {
            match s.next() {
                Some(r) => r,
                None => fail!("{}: the iterator ends", whr),
            }
        } else {
            s.accept()
        };
        match r {
            Err(ref e) if is_would_block(&e.error) && e.stream.is_none() => {
                ensure!(nonblocking, "{}: would-block from a blocking server", whr);
                if Instant::now() > until {
                    return stall(&format!("{}: a connection is waiting, accept would block", whr));
                }
                std::thread::sleep(Duration::from_millis(1));
            }
            r => return Ok(r),
        }
    }
}
fn leftover(b: &Option<Buffer>, s: &mut TcpStream, want: usize) -> Vec<u8> {
    let mut v = b.as_ref().map(|b| b.buf[b.pos..b.cap].to_vec()).unwrap_or_default();
    let _ = s.set_read_timeout(Some(WAIT));
    let mut buf = [0; 4096];
    while v.len() < want {
        match s.read(&mut buf) {
            Ok(n) if n > 0 => v.extend_from_slice(&buf[..n]),
            _ => return v,
        }
    }
    let _ = s.set_nonblocking(true);
    while let Ok(n) = s.read(&mut buf) {
        if n == 0 {
            break;
        }
        v.extend_from_slice(&buf[..n]);
    }
    let _ = s.set_nonblocking(false);
    v
}
fn settle(p: Pending, r: AcceptResult<TcpStream>, whr: &str) -> Res {
    let what = format!("{}: {:?}", whr, p.comer);
    match (&p.comer, r) {
        (Comer::Valid { msgs, decide, closes }, Ok(u)) => {
            ensure!(u.stream.peer_addr().ok() == Some(p.addr), "{}: the stream belongs to {:?}, not {}", what, u.stream.peer_addr(), p.addr);
            ensure!(u.uri() == p.path, "{}: request for {}, sent was {}", what, u.uri(), p.path);
            ensure!(u.key() == Some(&KEY), "{}: key {:?}", what, u.key());
            let mut sock = p.sock.unwrap();
            match decide {
                Decide::Accept => {
                    let mut c = match u.accept() {
                        Ok(c) => c,
                        Err((_, e)) => fail!("{}: accepting fails: {}", what, e),
                    };
                    let _ = c.stream_ref().set_read_timeout(Some(WAIT));
                    for m in msgs {
                        match c.recv_message() {
                            Ok(OwnedMessage::Text(ref t)) if t == m => {}
                            r => fail!("{}: received {:?} instead of {:?}", what, r.map(|m| from_owned(&m).brief()).map_err(|e| err_name(&e)), m),
                        }
                    }
                    if *closes {
                        match c.recv_message() {
                            Err(websocket::WebSocketError::NoDataAvailable) => {}
                            r => fail!("{}: {:?} instead of the end", what, r.map(|m| from_owned(&m).brief()).map_err(|e| err_name(&e))),
                        }
                    }
                    if let Err(e) = c.send_message(&OwnedMessage::Text(p.path.clone())) {
                        fail!("{}: sending fails: {}", what, err_name(&e));
                    }
                    let h = sock.head("the response")?;
                    ensure!(h.line.starts_with("HTTP/1.1 101"), "{}: answered {:?}", what, h.line);
                    ensure!(h.one("Sec-WebSocket-Accept") == Some(&rfc::accept_for(&KEY)), "{}: wrong accept token", what);
                    let f = sock.frame("a message")?;
                    ensure!(f.payload == p.path.as_bytes(), "{}: the peer received {:?}", what, String::from_utf8_lossy(&f.payload));
                    no_linger(c.stream_ref());
                }
                Decide::Reject => match u.reject() {
                    Ok(mut s) => {
                        let _ = s.write_all(b"bye");
                        let h = sock.head("the rejection")?;
                        ensure!(h.line.starts_with("HTTP/1.1 400"), "{}: answered {:?}", what, h.line);
                        let b = sock.need(3, "the farewell")?;
                        ensure!(b == b"bye", "{}: {:?} after the rejection", what, String::from_utf8_lossy(&b));
                        no_linger(&s);
                    }
                    Err((_, e)) => fail!("{}: rejecting fails: {}", what, e),
                },
                Decide::Drop => {
                    drop(u);
                    let b = sock.end("the end")?;
                    ensure!(b.is_empty(), "{}: {} bytes for a dropped upgrade", what, b.len());
                }
            }
            no_linger(&sock.s);
        }
        (Comer::Valid { .. }, Err(e)) => fail!("{}: refused: {:?}", what, e.error),
        (_, Ok(_)) => fail!("{}: accepted", what),
        (Comer::Reset(_), Err(_)) => {}
        (k, Err(e)) => {
            let mut s = match e.stream {
                Some(s) => s,
                None => fail!("{}: the error {:?} comes without the stream", what, e.error),
            };
            ensure!(s.peer_addr().ok() == Some(p.addr), "{}: the stream belongs to {:?}, not {}", what, s.peer_addr(), p.addr);
            let bad = matches!(k, Comer::Bad(..));
            ensure!(e.parsed.is_some() == bad, "{}: parsed request present: {}", what, e.parsed.is_some());
            ensure!(e.buffer.is_some(), "{}: the buffer is missing", what);
            if let Some(r) = &e.parsed {
                ensure!(r.subject.1.to_string() == p.path, "{}: request for {}, sent was {}", what, r.subject.1, p.path);
            }
            let want = if bad { &p.sent[p.head..] } else { &p.sent[..] };
            let got = leftover(&e.buffer, &mut s, want.len());
            // what the parser took of a head that never was one may be in either place, but all of it
            ensure!(got == want, "{}: {} bytes available after the error, expected {}", what, got.len(), want.len());
            let _ = s.write_all(b"bye");
            let mut sock = p.sock.unwrap();
            let b = sock.need(3, "the farewell")?;
            ensure!(b == b"bye", "{}: the peer received {:?}", what, String::from_utf8_lossy(&b));
            no_linger(&s);
            no_linger(&sock.s);
        }
    }
    Ok(())
}
fn s02(c: &Serve, o: &mut Obs) -> Res {
    patient(c, o, s02_run)
}
fn s02_run(c: &Serve, o: &mut Obs) -> Res {
    if c.times > 1 {
        let mut d = c.clone();
        d.ops = (0..c.times).flat_map(|_| c.ops.iter().cloned()).collect();
        d.times = 1;
        return s02_run(&d, o);
    }
    let ip = fresh_ip();
    let mut server = env(websocket::sync::Server::bind((ip, 0)), "bind")?;
    let addr = match server.local_addr() {
        Ok(a) => a,
        Err(e) => fail!("local_addr fails: {}", e),
    };
    ensure!(addr.ip() == std::net::IpAddr::from(ip) && addr.port() != 0, "a server bound to {} port 0 reports {}", ip, addr);
    let mut clones: Vec<SyncServer> = vec![];
    let mut queue: VecDeque<Pending> = VecDeque::new();
    let mut nonblocking = false;
    let mut count = 0;
    let mut ends = (0, 0);
    for (i, op) in c.ops.iter().enumerate() {
        let whr = format!("op {} {:?}", i, op);
        match op {
            // more would not fit into the queue of the kernel
            SOp::Connect(_) if queue.len() >= 60 => {}
            SOp::Connect(k) => {
                queue.push_back(come(k, addr, count)?);
                count += 1;
            }
            SOp::Take(how) => {
                let iter = how % 2 == 1;
                let s = if *how >= 2 && !clones.is_empty() {
                    let k = *how as usize % clones.len();
                    o.class("through a clone");
                    &mut clones[k]
                } else {
                    &mut server
                };
                match queue.pop_front() {
                    Some(p) => {
                        if matches!(p.comer, Comer::Valid { .. }) {
                            ends.0 += 1;
                        } else {
                            ends.1 += 1;
                        }
                        let r = take(s, iter, nonblocking, &whr)?;
                        settle(p, r, &whr)?;
                    }
                    None if nonblocking => {
                        let r = if iter { s.next().expect("endless") } else { s.accept() };
                        match r {
                            Ok(_) => fail!("{}: a connection nobody made", whr),
                            Err(e) => ensure!(
                                is_would_block(&e.error) && e.stream.is_none() && e.parsed.is_none() && e.buffer.is_none(),
                                "{}: {:?} instead of would-block", whr, e.error
                            ),
                        }
                        o.class("would-block");
                    }
                    None => {}
                }
            }
            SOp::NonBlocking(b, k) => {
                let s = if *k > 0 && !clones.is_empty() { &clones[*k as usize % clones.len()] } else { &server };
                if let Err(e) = s.set_nonblocking(*b) {
                    fail!("{}: fails: {}", whr, e);
                }
                nonblocking = *b;
            }
            SOp::Clone => match server.try_clone() {
                Ok(s) => clones.push(s),
                Err(e) => fail!("{}: fails: {}", whr, e),
            },
            SOp::DropClone(k) => {
                if !clones.is_empty() {
                    clones.remove(*k as usize % clones.len());
                }
            }
            SOp::Addr => {
                for s in std::iter::once(&server).chain(&clones) {
                    match s.local_addr() {
                        Ok(a) => ensure!(a == addr, "{}: address {} instead of {}", whr, a, addr),
                        Err(e) => fail!("{}: fails: {}", whr, e),
                    }
                }
            }
            SOp::Wait(how) => {
                if queue.is_empty() && !nonblocking {
                    let k = Comer::Valid { msgs: vec!["w".into()], decide: Decide::Accept, closes: false };
                    let n = count;
                    count += 1;
                    let other = side(move || {
                        std::thread::sleep(Duration::from_millis(3));
                        come(&k, addr, n)
                    });
                    let s = if *how > 0 && !clones.is_empty() {
                        let k = *how as usize % clones.len();
                        &mut clones[k]
                    } else {
                        &mut server
                    };
                    let r = take(s, false, false, &whr)?;
                    settle(other.join("a connecting peer")?, r, &whr)?;
                    o.class("waited");
                }
            }
        }
    }
    if c.into_async {
        s02_async(server, addr, queue, count, o)?;
    } else {
        while let Some(p) = queue.pop_front() {
            if matches!(p.comer, Comer::Valid { .. }) {
                ends.0 += 1;
            } else {
                ends.1 += 1;
            }
            let r = take(&mut server, false, nonblocking, "in the end")?;
            settle(p, r, "in the end")?;
        }
        // nothing is left over
        if let Err(e) = server.set_nonblocking(true) {
            fail!("set_nonblocking fails: {}", e);
        }
        match server.accept() {
            Ok(_) => fail!("one connection more than was made"),
            Err(e) => ensure!(is_would_block(&e.error), "{:?} instead of would-block", e.error),
        }
    }
    o.class_if(ends.1 > 0, "bad ones");
    o.nontrivial((ends.0 > 0 && ends.1 > 0) || (c.into_async && count > 0));
    Ok(())
}
fn s02_async(server: SyncServer, addr: SocketAddr, queue: VecDeque<Pending>, count: usize, o: &mut Obs) -> Res {
    let mut queue: Vec<Pending> = queue.into_iter().collect();
    o.class_if(!queue.is_empty(), "converted with connections pending");
    let mut rt = env(tokio::runtime::current_thread::Runtime::new(), "runtime")?;
    let s = match rt.block_on(futures::future::lazy(|| server.into_async(&Handle::default()))) {
        Ok(s) => s,
        Err(e) => fail!("into_async fails: {}", e),
    };
    match s.local_addr() {
        Ok(a) => ensure!(a == addr, "after into_async the address is {} instead of {}", a, addr),
        Err(e) => fail!("local_addr fails after into_async: {}", e),
    }
    // somebody new as well
    queue.push(come(&Comer::Valid { msgs: vec!["new".into()], decide: Decide::Accept, closes: false }, addr, count)?);
    let n = queue.len();
    let collected = rt.block_on(futures::future::lazy(move || {
        let mut inc = s.incoming();
        let mut got = vec![];
        futures::future::poll_fn(move || {
            while got.len() < n {
                match inc.poll() {
                    Ok(Async::NotReady) => return Ok(Async::NotReady),
                    Ok(Async::Ready(Some((u, a)))) => got.push(Ok((u, a))),
                    Ok(Async::Ready(None)) => return Err("the stream of connections ends"),
                    Err(e) => got.push(Err(e)),
                }
            }
            Ok(Async::Ready(std::mem::take(&mut got)))
        })
    }));
    let got = match collected {
        Ok(g) => g,
        Err(e) => fail!("after into_async: {}", e),
    };
    let (mut oks, mut errs) = (vec![], 0);
    for g in got {
        match g {
            Ok(x) => oks.push(x),
            Err(_) => errs += 1,
        }
    }
    let valid = queue.iter().filter(|p| matches!(p.comer, Comer::Valid { .. })).count();
    ensure!(oks.len() == valid && errs == n - valid, "after into_async {} connections and {} errors, expected {} and {}", oks.len(), errs, valid, n - valid);
    for (u, a) in oks {
        let p = match queue.iter().position(|p| p.addr == a) {
            Some(k) => queue.remove(k),
            None => fail!("after into_async a connection from {}", a),
        };
        ensure!(u.uri() == p.path, "after into_async request for {} instead of {}", u.uri(), p.path);
        let msgs = match &p.comer {
            Comer::Valid { msgs, .. } => msgs.clone(),
            k => fail!("after into_async {:?} is accepted", k),
        };
        let k = msgs.len();
        let r = rt.block_on(u.accept().and_then(move |(c, _)| {
            let (sink, stream) = c.split();
            stream.take(k as u64).collect().and_then(move |v| sink.send(OwnedMessage::Text("ok".into())).map(move |_| v))
        }));
        match r {
            Ok(v) => ensure!(v.iter().map(from_owned).eq(msgs.iter().map(|m| rfc::Msg::Text(m.clone().into_bytes()))), "after into_async other messages arrive: {:?}", v),
            Err(e) => fail!("after into_async the conversation fails: {}", err_name(&e)),
        }
        let mut sock = p.sock.unwrap();
        sock.head("the response")?;
        let f = sock.frame("a message")?;
        ensure!(f.payload == b"ok", "after into_async the peer received {:?}", f);
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let _ = any_cert;
    vec![
        Prop {
            id: "S01",
            level: "1",
            assumptions: &["single-threaded runtime; a Linux loopback socket stands for the network"],
            suites: vec![
            suite(
                "crowd",
                "as party, beside up to 1400 connections that say nothing or half a request; non-trivial: as party",
                opts(120, 6_000).shards(4).shrink(30),
                crowd,
                s01,
            ),
            suite(
                "party",
                "up to eight peers of ten kinds (valid, answered late, rejected, dropped, bad request, garbage, cut off, reset, idle, stuck half-way) whose steps are interleaved by a generated schedule, then newcomers; non-trivial: a misbehaving or idle peer beside a good one",
                opts(6_000, 200_000).shrink(60),
                party,
                s01,
            ),
            suite(
                "secure",
                "a secure server: peers that talk, send bad requests, garbage, plaintext or cut hellos, beside ones that never start TLS or stop in the middle of it, then a newcomer; non-trivial: good peers among others",
                opts(800, 40_000).shrink(60),
                || (vec(tpeer(), 1..5), dict::fresh_ints(prop_oneof![30 => 0u16..5, 1 => 5u16..200].boxed(), 0, 300, |n, _| n as u16)).prop_map(|(peers, idle)| SecureParty { peers, idle }).boxed(),
                t02_async,
            )],
        },
        Prop {
            id: "S02",
            level: "1",
            assumptions: &["a Linux loopback socket stands for the network"],
            suites: vec![
            suite(
                "long",
                "as serve, repeated up to 60 times on one server; non-trivial: as serve",
                opts(2_000, 60_000).shrink(60),
                || (serve_case(), 2u8..60).prop_map(|(mut c, n)| { c.ops.retain(|o| *o != SOp::Clone || n < 5); c.times = n; c }).boxed(),
                s02,
            ),
            suite(
                "serve",
                "sequences of connections of six kinds, accept / iterator / clone / non-blocking / address operations and the conversion to an asynchronous server; non-trivial: good and bad connections taken, or converted after some",
                opts(12_000, 400_000).shrink(60),
                serve_case,
                s02,
            )],
        },
    ]
}
