//! C02 and the real-socket part of E01.
use super::frames::role;
use crate::api::*;
use crate::engine::*;
use crate::gen::{self, GMsg};
use crate::net::*;
use crate::rfc::{Frame, Msg};
use futures::{Future, Sink, Stream};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::io::{self, Read, Write};
use std::net::{SocketAddr, TcpStream};
use std::time::{Duration, Instant};
use websocket::client::r#async::Client as AsyncClient;
use websocket::client::sync::Client;
use websocket::receiver::Reader;
use websocket::result::{WebSocketError, WebSocketResult};
use websocket::sender::Writer;
use websocket::stream::sync::NetworkStream;
use websocket::{ClientBuilder, OwnedMessage};

// ------------------------------------------------------------------------------- C02

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum COp {
    Send(GMsg),
    PeerSend(GMsg),
    Recv,
    ShutSender,
    ShutReceiver,
    /// which half does it, once split
    ShutAll(bool),
    NonBlocking(bool),
    NoDelay(bool),
    Addrs,
    Split,
    PeerEnd,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct CCase {
    conns: [(Role, bool); 2],
    seed: u32,
    ops: Vec<(bool, COp)>,
}
fn c02_case() -> BoxedStrategy<CCase> {
    let op = prop_oneof![
        4 => gen::gmsg(false).prop_map(COp::Send),
        4 => gen::gmsg(false).prop_map(COp::PeerSend),
        5 => Just(COp::Recv),
        2 => Just(COp::ShutSender),
        2 => Just(COp::ShutReceiver),
        1 => any::<bool>().prop_map(COp::ShutAll),
        3 => any::<bool>().prop_map(COp::NonBlocking),
        2 => any::<bool>().prop_map(COp::NoDelay),
        1 => Just(COp::Addrs),
        2 => Just(COp::Split),
        1 => Just(COp::PeerEnd),
    ];
    let conn = || (role(), proptest::bool::weighted(0.2));
    (conn(), conn(), any::<u32>(), gen::many((proptest::bool::weighted(0.3), op), 1..20, 120))
        .prop_map(|(a, b, seed, ops)| CCase { conns: [a, b], seed, ops })
        .boxed()
}
enum Lib {
    Tcp(Client<TcpStream>),
    Boxed(Client<Box<dyn NetworkStream + Send>>),
    Halves(Reader<TcpStream>, Writer<TcpStream>),
    None,
}
struct Conn {
    lib: Lib,
    role: Role,
    peer: Raw<TcpStream>,
    /// another handle to the library's socket
    probe: TcpStream,
    local: SocketAddr,
    remote: SocketAddr,
    /// sent by the library, not read by the peer
    out: VecDeque<Msg>,
    /// sent by the peer, not received
    inq: VecDeque<Msg>,
    send_open: bool,
    recv_open: bool,
    peer_open: bool,
    nonblocking: bool,
    nodelay: bool,
    ended: bool,
    masks: u32,
}
fn open(role: Role, boxed: bool, seed: u32) -> Result<Conn, Fail> {
    let (a, b) = tcp_pair()?;
    let mut peer = raw(b);
    let _ = a.set_read_timeout(Some(WAIT));
    let probe = env(a.try_clone(), "clone")?;
    let (local, remote) = (env(a.local_addr(), "local_addr")?, env(a.peer_addr(), "peer_addr")?);
    let nodelay = env(a.nodelay(), "nodelay")?;
    peer.put(&role.head(), "the handshake")?;
    let bad = |e: String| Fail::Violation(format!("handshake over a socket fails: {}", e));
    let lib = if boxed {
        let s: Box<dyn NetworkStream + Send> = Box::new(a);
        Lib::Boxed(sync_conn(role, s, None).map_err(bad)?)
    } else {
        Lib::Tcp(sync_conn(role, a, None).map_err(bad)?)
    };
    peer.head("the library's handshake head")?;
    Ok(Conn {
        lib, role, peer, probe, local, remote,
        out: VecDeque::new(), inq: VecDeque::new(),
        send_open: true, recv_open: true, peer_open: true, nonblocking: false, nodelay, ended: false, masks: seed,
    })
}
impl Conn {
    fn send(&mut self, m: &OwnedMessage) -> WebSocketResult<()> {
        match &mut self.lib {
            Lib::Tcp(c) => c.send_message(m),
            Lib::Boxed(c) => c.send_message(m),
            Lib::Halves(_, w) => w.send_message(m),
            Lib::None => unreachable!(),
        }
    }
    fn recv(&mut self) -> WebSocketResult<OwnedMessage> {
        match &mut self.lib {
            Lib::Tcp(c) => c.recv_message(),
            Lib::Boxed(c) => c.recv_message(),
            Lib::Halves(r, _) => r.recv_message(),
            Lib::None => unreachable!(),
        }
    }
    /// the peer reads what was sent to it, and the end of the stream exactly if there is one
    fn drain(&mut self, whr: &str) -> Res {
        while let Some(m) = self.out.pop_front() {
            let f = self.peer.frame(&format!("{}: a message that was sent", whr))?;
            ensure!(
                f.fin && f.op == m.op() && f.payload == m.payload() && f.mask.is_some() == self.role.masks(),
                "{}: the peer received op {} of {} bytes instead of {}", whr, f.op, f.payload.len(), m.brief()
            );
        }
        if self.send_open {
            ensure!(!self.peer.eof && !self.peer.ended_now(), "{}: the peer sees the end of the stream although sending was not shut down", whr);
        } else {
            let rest = self.peer.end(&format!("{}: the end of the stream after the sending side was shut down", whr))?;
            ensure!(rest.is_empty(), "{}: {} surplus bytes before the end of the stream", whr, rest.len());
        }
        Ok(())
    }
    /// receives and judges; false if nothing can be received without blocking for ever
    fn receive(&mut self, whr: &str) -> Result<bool, Fail> {
        let over = !self.recv_open || !self.peer_open;
        if self.inq.is_empty() && !over && !self.nonblocking {
            return Ok(false);
        }
        let until = Instant::now() + WAIT;
        loop {
            let r = self.recv();
            let name = match &r {
                Ok(m) => from_owned(m).brief(),
                Err(e) => err_name(e),
            };
            match r {
                Ok(m) => {
                    let want = if self.ended { None } else { self.inq.pop_front() };
                    let got = from_owned(&m);
                    ensure!(want.as_ref() == Some(&got), "{}: received {} instead of {:?}", whr, name, want.map(|m| m.brief()));
                    return Ok(true);
                }
                Err(WebSocketError::NoDataAvailable) => {
                    ensure!(over, "{}: receiving ends although neither side shut it down", whr);
                    ensure!(!self.recv_open || self.inq.is_empty(), "{}: receiving ends before the {} messages sent before", whr, self.inq.len());
                    self.ended = true;
                    self.inq.clear();
                    return Ok(true);
                }
                Err(WebSocketError::IoError(ref e)) if e.kind() == io::ErrorKind::WouldBlock => {
                    if self.inq.is_empty() && !over {
                        return Ok(true);
                    }
                    if !self.nonblocking || Instant::now() > until {
                        return stall(&format!("{}: a receive with data or the end due", whr));
                    }
                    std::thread::sleep(Duration::from_millis(1));
                }
                Err(_) => return Err(Fail::Violation(format!("{}: receiving fails with {} where {} was due", whr, name, if over { "the end" } else if self.inq.is_empty() { "would-block" } else { "a message" }))),
            }
        }
    }
}
fn c02(c: &CCase, o: &mut Obs) -> Res {
    patient(c, o, c02_run)
}
fn c02_run(c: &CCase, o: &mut Obs) -> Res {
    let mut conns = [open(c.conns[0].0, c.conns[0].1, c.seed)?, open(c.conns[1].0, c.conns[1].1, c.seed ^ 77)?];
    let mut shut = 0;
    let mut exchanged = false;
    let mut blocked = false;
    for (i, (which, op)) in c.ops.iter().enumerate() {
        let whr = format!("op {} {:?} on connection {}", i, op, *which as u8);
        let x = &mut conns[*which as usize];
        // once both directions are closed there is no connection any more
        let connected = x.send_open || x.peer_open;
        match op {
            COp::Send(g) => {
                let m = g.msg();
                let r = x.send(&to_owned(&m));
                if x.send_open {
                    if let Err(e) = &r {
                        fail!("{}: sending fails: {}", whr, err_name(e));
                    }
                    x.out.push_back(m);
                    exchanged = true;
                } else {
                    ensure!(r.is_err(), "{}: sending succeeds after the sending side was shut down", whr);
                }
            }
            COp::PeerSend(g) => {
                if x.peer_open && x.recv_open {
                    let m = g.msg();
                    x.masks = x.masks.wrapping_mul(1664525).wrapping_add(1013904223);
                    let mask = if x.role.expects_mask() { Some(x.masks.to_be_bytes()) } else { None };
                    let f = Frame::new(true, m.op(), m.payload()).masked(mask);
                    x.peer.put(&f.encode(), "a frame")?;
                    x.inq.push_back(m);
                }
            }
            COp::Recv => {
                let before = x.inq.len();
                if x.receive(&whr)? {
                    exchanged |= before > 0;
                    blocked |= before == 0 && x.nonblocking;
                }
            }
            COp::ShutSender | COp::ShutReceiver | COp::ShutAll(_) => {
                let r = match (&x.lib, op) {
                    (Lib::Tcp(l), COp::ShutSender) => l.shutdown_sender(),
                    (Lib::Tcp(l), COp::ShutReceiver) => l.shutdown_receiver(),
                    (Lib::Tcp(l), _) => l.shutdown(),
                    (Lib::Boxed(l), COp::ShutAll(_)) => l.shutdown(),
                    (Lib::Boxed(_), _) => continue,
                    (Lib::Halves(_, w), COp::ShutSender) => w.shutdown(),
                    (Lib::Halves(r, _), COp::ShutReceiver) => r.shutdown(),
                    (Lib::Halves(r, _), COp::ShutAll(true)) => r.shutdown_all(),
                    (Lib::Halves(_, w), _) => w.shutdown_all(),
                    (Lib::None, _) => unreachable!(),
                };
                if connected {
                    if let Err(e) = r {
                        fail!("{}: fails: {}", whr, e);
                    }
                }
                x.send_open &= *op == COp::ShutReceiver;
                x.recv_open &= *op == COp::ShutSender;
                shut += 1;
                o.class(match (op, matches!(x.lib, Lib::Halves(..))) {
                    (COp::ShutSender, false) => "sender",
                    (COp::ShutReceiver, false) => "receiver",
                    (_, false) => "both",
                    (COp::ShutSender, true) => "writer",
                    (COp::ShutReceiver, true) => "reader",
                    (_, true) => "half-all",
                });
                x.drain(&whr)?;
                if !x.recv_open {
                    while !x.ended {
                        x.receive(&whr)?;
                    }
                }
            }
            COp::NonBlocking(b) => {
                let r = match &x.lib {
                    Lib::Tcp(l) => l.set_nonblocking(*b),
                    Lib::Boxed(l) => l.set_nonblocking(*b),
                    _ => continue,
                };
                if let Err(e) = r {
                    fail!("{}: fails: {}", whr, e);
                }
                x.nonblocking = *b;
                o.class("nonblocking");
                if *b {
                    blocked |= x.inq.is_empty();
                    let more = x.inq.is_empty();
                    if more {
                        x.receive(&whr)?;
                    }
                }
            }
            COp::NoDelay(b) => {
                let r = match &mut x.lib {
                    Lib::Tcp(l) => l.set_nodelay(*b),
                    Lib::Boxed(l) => l.set_nodelay(*b),
                    _ => continue,
                };
                if connected {
                    if let Err(e) = r {
                        fail!("{}: fails: {}", whr, e);
                    }
                    x.nodelay = *b;
                    o.class("nodelay");
                }
            }
            COp::Addrs => {
                let r = match &x.lib {
                    Lib::Tcp(l) => (l.local_addr(), l.peer_addr()),
                    Lib::Boxed(l) => (l.local_addr(), l.peer_addr()),
                    _ => continue,
                };
                if connected {
                    match r {
                        (Ok(l), Ok(p)) => {
                            ensure!(l == x.local, "{}: local address {} is not the socket's {}", whr, l, x.local);
                            ensure!(p == x.remote, "{}: peer address {} is not the socket's {}", whr, p, x.remote);
                            o.class("addresses");
                        }
                        (l, p) => fail!("{}: {:?} {:?}", whr, l.err(), p.err()),
                    }
                }
            }
            COp::Split => {
                if let Lib::Tcp(_) = x.lib {
                    if let Lib::Tcp(l) = std::mem::replace(&mut x.lib, Lib::None) {
                        match l.split() {
                            Ok((r, w)) => x.lib = Lib::Halves(r, w),
                            Err(e) => fail!("{}: fails: {}", whr, e),
                        }
                    }
                }
            }
            COp::PeerEnd => {
                x.peer.finish();
                x.peer_open = false;
            }
        }
        for (k, x) in conns.iter().enumerate() {
            let nb = is_nonblocking(&x.probe);
            ensure!(nb == x.nonblocking, "{}: non-blocking mode of connection {} is {}, {} was set", whr, k, nb, x.nonblocking);
            if x.send_open || x.peer_open {
                if let Ok(nd) = x.probe.nodelay() {
                    ensure!(nd == x.nodelay, "{}: no-delay of connection {} is {}, expected {}", whr, k, nd, x.nodelay);
                }
            }
        }
    }
    // what is still open still works, what is not has ended
    for (k, x) in conns.iter_mut().enumerate() {
        let whr = format!("in the end, connection {}", k);
        if x.send_open {
            let m = Msg::Text(b"still there".to_vec());
            if let Err(e) = x.send(&to_owned(&m)) {
                fail!("{}: sending fails: {}", whr, err_name(&e));
            }
            x.out.push_back(m);
        }
        x.drain(&whr)?;
        if x.recv_open && x.peer_open {
            let mask = if x.role.expects_mask() { Some([1, 2, 3, 4]) } else { None };
            x.peer.put(&Frame::new(true, 9, b"?".to_vec()).masked(mask).encode(), "a last ping")?;
            x.inq.push_back(Msg::Ping(b"?".to_vec()));
        }
        while !x.inq.is_empty() {
            x.receive(&whr)?;
        }
        if !x.recv_open || !x.peer_open {
            x.receive(&whr)?;
            ensure!(x.ended, "{}: more received than was sent", whr);
        }
    }
    for x in &conns {
        no_linger(&x.probe);
        no_linger(&x.peer.s);
    }
    o.class_if(blocked, "would-block");
    o.class_if(shut > 0 && exchanged, "shutdown among messages");
    o.nontrivial((shut > 0 && exchanged) || blocked);
    Ok(())
}

// ------------------------------------------------------------------------------- E01 over sockets

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum CKind {
    Plain,
    Auto,
    APlain,
    AAuto,
    OnSocket,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct TcpTalk {
    client: CKind,
    server_async: bool,
    tls: bool,
    split: (bool, bool),
    up: Vec<GMsg>,
    down: Vec<GMsg>,
    /// far more than the socket buffers hold, both ways at once
    #[serde(default)]
    bulk: u16,
}
/// both ends can send and receive at the same time
fn tcp_bulk() -> BoxedStrategy<TcpTalk> {
    let side = || prop_oneof![
        1 => (vec(gen::gmsg(false), 0..4), 100u16..600),
        1 => (vec(gen::gmsg(true), 0..6), 1u16..20),
        1 => (vec(gen::huge_data(), 0..2), Just(1u16)),
    ];
    (tcp_talk(), side(), side())
        .prop_map(|(mut t, up, down)| {
            t.split = (true, true);
            match t.client {
                CKind::Auto => t.client = CKind::AAuto,
                CKind::Plain | CKind::OnSocket if t.tls => t.client = CKind::APlain,
                _ => {}
            }
            t.server_async |= t.tls;
            t.bulk = up.1.min(down.1);
            t.up = up.0;
            t.down = down.0;
            t
        })
        .boxed()
}
fn tcp_talk() -> BoxedStrategy<TcpTalk> {
    (
        select(vec![CKind::Plain, CKind::Auto, CKind::APlain, CKind::AAuto, CKind::OnSocket]),
        any::<bool>(),
        proptest::bool::weighted(0.3),
        any::<(bool, bool)>(),
        any::<bool>().prop_flat_map(|big| (gen::many(gen::gmsg(big), 0..8, if big { 20 } else { 400 }), gen::many(gen::gmsg(big), 0..8, if big { 20 } else { 400 }))),
    )
        .prop_map(|(client, server_async, tls, split, (up, down))| TcpTalk { client, server_async, tls, split, up, down, bulk: 0 })
        .boxed()
}
/// messages that fit into the socket buffers when nobody reads
fn fitting(v: &[GMsg], max: usize) -> Vec<OwnedMessage> {
    let mut left = max;
    v.iter()
        .map(|g| g.msg())
        .filter(|m| {
            let n = m.payload().len() + 20;
            let fits = n <= left;
            if fits {
                left -= n;
            }
            fits
        })
        .map(|m| to_owned(&m))
        .collect()
}
fn send_all<S: Read + Write>(c: &mut Client<S>, v: &[OwnedMessage], who: &str) -> Res {
    for (i, m) in v.iter().enumerate() {
        if let Err(e) = c.send_message(m) {
            fail!("{}: sending message {} fails: {}", who, i, err_name(&e));
        }
    }
    Ok(())
}
/// `n` messages, or all up to the end of the stream
fn recv_some(mut f: impl FnMut() -> WebSocketResult<OwnedMessage>, n: Option<usize>, who: &str) -> Result<Vec<Msg>, Fail> {
    let mut v = vec![];
    while n.map_or(true, |n| v.len() < n) {
        match f() {
            Ok(m) => v.push(from_owned(&m)),
            Err(WebSocketError::NoDataAvailable) if n.is_none() => break,
            Err(e) => fail!("{}: receiving fails after {} messages: {}", who, v.len(), err_name(&e)),
        }
    }
    Ok(v)
}
fn sync_whole<S: Read + Write>(c: &mut Client<S>, out: &[OwnedMessage], n: Option<usize>, who: &str) -> Result<Vec<Msg>, Fail> {
    send_all(c, out, who)?;
    recv_some(|| c.recv_message(), n, who)
}
/// says goodbye and reads what TLS still had to say
fn end_tls(c: Client<native_tls::TlsStream<TcpStream>>) {
    let mut s = c.into_stream().0;
    let _ = s.shutdown();
    let _ = s.get_ref().set_read_timeout(Some(WAIT));
    let mut b = [0; 1000];
    while matches!(s.read(&mut b), Ok(n) if n > 0) {}
}
/// both directions at once; ends the stream if `n` is given
fn sync_split(c: Client<TcpStream>, out: Vec<OwnedMessage>, n: Option<usize>, who: &'static str) -> Result<Vec<Msg>, Fail> {
    let (mut r, mut w) = match c.split() {
        Ok(x) => x,
        Err(e) => fail!("{}: split fails: {}", who, e),
    };
    let sender = side(move || {
        for (i, m) in out.iter().enumerate() {
            if let Err(e) = w.send_message(m) {
                fail!("{}: sending message {} fails: {}", who, i, err_name(&e));
            }
        }
        Ok(w)
    });
    let v = recv_some(|| r.recv_message(), n, who)?;
    let w = sender.join("the sending thread")?;
    drop((r, w));
    Ok(v)
}
fn async_talk<S>(c: AsyncClient<S>, out: Vec<OwnedMessage>, n: Option<usize>, tls: bool) -> Box<dyn Future<Item = Vec<Msg>, Error = WebSocketError>>
where
    S: websocket::stream::r#async::Stream + 'static,
{
    let (sink, stream) = c.split();
    let send = sink.send_all(futures::stream::iter_ok::<_, WebSocketError>(out)).map(|(s, _)| s);
    let recv: Box<dyn Future<Item = (Vec<Msg>, _), Error = WebSocketError>> = Box::new(futures::future::loop_fn((vec![], stream), move |(mut v, s)| {
        let done = n == Some(v.len());
        if done {
            return futures::future::Either::A(futures::future::ok(futures::future::Loop::Break((v, s))));
        }
        futures::future::Either::B(s.into_future().map_err(|(e, _)| e).map(move |(m, s)| match m {
            Some(m) => {
                v.push(from_owned(&m));
                futures::future::Loop::Continue((v, s))
            }
            None => futures::future::Loop::Break((v, s)),
        }))
    }));
    Box::new(send.join(recv).and_then(move |(sink, (v, stream))| {
        let mut all = sink.reunite(stream).ok();
        let mut closed = false;
        futures::future::poll_fn(move || match (&mut all, n) {
            // the client ends the stream, then reads what TLS still had to say (closing a socket
            // with unread data resets the connection)
            (Some(c), Some(_)) if tls => {
                if !closed {
                    match c.close() {
                        Ok(futures::Async::NotReady) => return Ok(futures::Async::NotReady),
                        _ => closed = true,
                    }
                }
                loop {
                    match c.poll() {
                        Ok(futures::Async::Ready(Some(_))) => {}
                        Ok(futures::Async::NotReady) => return Ok(futures::Async::NotReady),
                        _ => return Ok(futures::Async::Ready(())),
                    }
                }
            }
            (Some(c), Some(_)) => c.close(),
            _ => Ok(futures::Async::Ready(())),
        })
        .map(|()| v)
    }))
}
fn e01_tcp(c: &TcpTalk, o: &mut Obs) -> Res {
    patient(c, o, e01_tcp_run)
}
fn e01_tcp_run(c: &TcpTalk, o: &mut Obs) -> Res {
    // who cannot read and write at the same time must not fill the buffers
    let sync_client = matches!(c.client, CKind::Plain | CKind::Auto | CKind::OnSocket);
    let client_splits = sync_client && c.split.0 && !c.tls && c.client != CKind::Auto;
    let server_splits = !c.server_async && c.split.1 && !c.tls;
    let client_duplex = !sync_client || client_splits;
    let server_duplex = c.server_async || server_splits;
    let cap = |duplex: bool| if duplex { 400_000 } else { 24_000 };
    let (up, down) = if c.bulk > 0 && client_duplex && server_duplex {
        let rep = |v: &[GMsg]| (0..c.bulk).flat_map(|_| v.iter().cloned()).collect::<Vec<_>>();
        (fitting(&rep(&c.up), 60_000_000), fitting(&rep(&c.down), 60_000_000))
    } else {
        (fitting(&c.up, cap(client_duplex && server_duplex)), fitting(&c.down, cap(client_duplex && server_duplex)))
    };
    let want_up: Vec<Msg> = up.iter().map(from_owned).collect();
    let want_down: Vec<Msg> = down.iter().map(from_owned).collect();

    let (tls, server_async) = (c.tls, c.server_async);
    let ip: std::net::IpAddr = if tls { [127, 0, 0, 1].into() } else { fresh_ip().into() };
    // the server
    let (ptx, prx) = std::sync::mpsc::channel::<SocketAddr>();
    let server = side(move || -> Result<Vec<Msg>, Fail> {
        if server_async {
            let mut rt = env(tokio::runtime::current_thread::Runtime::new(), "runtime")?;
            macro_rules! run {
                ($bind:expr) => {{
                    let r = rt.block_on(futures::future::lazy(move || {
                        let s = $bind.map_err(|e| format!("bind fails: {}", e))?;
                        let _ = ptx.send(s.local_addr().map_err(|e| format!("local_addr fails: {}", e))?);
                        Ok::<_, String>(s)
                    }).and_then(|s| {
                        s.incoming().into_future().map_err(|(e, _)| format!("incoming fails: {}", e.error))
                    }).and_then(move |(x, rest)| match x {
                        Some((u, _)) => futures::future::Either::A(
                            u.accept()
                                .and_then(move |(c, _)| async_talk(c, down, None, tls))
                                .map_err(|e| format!("server side: {} {:?}", err_name(&e), e))
                                .map(move |v| { drop(rest); v }),
                        ),
                        None => futures::future::Either::B(futures::future::err("the stream of connections ends".to_string())),
                    }));
                    r.map_err(Fail::Violation)
                }};
            }
            let h = websocket::server::r#async::Handle::default();
            if tls {
                run!(websocket::r#async::Server::bind_secure((ip, 0), Cert::Good.acceptor(), &h))
            } else {
                run!(websocket::r#async::Server::bind((ip, 0), &h))
            }
        } else if tls {
            let mut s = env(websocket::sync::Server::bind_secure((ip, 0), Cert::Good.acceptor()), "bind")?;
            let _ = ptx.send(env(s.local_addr(), "local_addr")?);
            match s.accept() {
                Ok(u) => match u.accept() {
                    Ok(mut c) => sync_whole(&mut c, &down, None, "server"),
                    Err((_, e)) => Err(Fail::Violation(format!("server: accept fails: {}", e))),
                },
                Err(e) => Err(Fail::Violation(format!("server: handshake fails: {:?}", e.error))),
            }
        } else {
            let mut s = env(websocket::sync::Server::bind((ip, 0)), "bind")?;
            let _ = ptx.send(env(s.local_addr(), "local_addr")?);
            match s.accept() {
                Ok(u) => match u.accept() {
                    Ok(c) if server_splits => sync_split(c, down, None, "server"),
                    Ok(mut c) => sync_whole(&mut c, &down, None, "server"),
                    Err((_, e)) => Err(Fail::Violation(format!("server: accept fails: {}", e))),
                },
                Err(e) => Err(Fail::Violation(format!("server: handshake fails: {:?}", e.error))),
            }
        }
    });
    let addr = match prx.recv_timeout(WAIT) {
        Ok(a) => a,
        Err(_) => return server.join("the server").and_then(|_| stall("the server does not bind")),
    };
    let url = format!("{}://{}/talk", if tls { "wss" } else { "ws" }, addr);
    let mut b = match ClientBuilder::new(&url) {
        Ok(b) => b,
        Err(e) => fail!("{} is refused: {}", url, e),
    };
    let n = Some(want_down.len());
    let bad = |e: WebSocketError| Fail::Violation(format!("client: connecting fails: {}", err_name(&e)));
    let got_down = match c.client {
        CKind::Plain if tls => {
            let mut c = b.connect_secure(None).map_err(bad)?;
            let v = sync_whole(&mut c, &up, n, "client")?;
            end_tls(c);
            v
        }
        CKind::Plain => {
            let mut x = b.connect_insecure().map_err(bad)?;
            if client_splits {
                sync_split(x, up, n, "client")?
            } else {
                let v = sync_whole(&mut x, &up, n, "client")?;
                if c.split.1 {
                    let _ = x.shutdown_sender();
                }
                v
            }
        }
        CKind::Auto | CKind::OnSocket if tls => {
            let s = env(TcpStream::connect(addr), "connect")?;
            let s = match native_tls::TlsConnector::new().map_err(|e| e.to_string()).and_then(|c| c.connect("127.0.0.1", s).map_err(|e| e.to_string())) {
                Ok(s) => s,
                Err(e) => fail!("the secure server refuses a TLS session: {}", e),
            };
            let mut c = b.connect_on(s).map_err(bad)?;
            let v = sync_whole(&mut c, &up, n, "client")?;
            end_tls(c);
            v
        }
        CKind::Auto => {
            let mut c = b.connect(None).map_err(bad)?;
            sync_whole(&mut c, &up, n, "client")?
        }
        CKind::OnSocket => {
            let x = b.connect_on(env(TcpStream::connect(addr), "connect")?).map_err(bad)?;
            if client_splits {
                sync_split(x, up, n, "client")?
            } else {
                let mut x = x;
                sync_whole(&mut x, &up, n, "client")?
            }
        }
        CKind::APlain | CKind::AAuto => {
            let e = |e: WebSocketError| Fail::Violation(format!("client side: {} {:?}", err_name(&e), e));
            if c.client == CKind::AAuto {
                on_runtime(b.async_connect(None).and_then(move |(c, _)| async_talk(c, up, n, tls)))?.map_err(e)?
            } else if tls {
                on_runtime(b.async_connect_secure(None).and_then(move |(c, _)| async_talk(c, up, n, tls)))?.map_err(e)?
            } else {
                on_runtime(b.async_connect_insecure().and_then(move |(c, _)| async_talk(c, up, n, tls)))?.map_err(e)?
            }
        }
    };
    ensure!(got_down == want_down, "the client received {} messages {:?}, sent were {} {:?}", got_down.len(), brief(&got_down), want_down.len(), brief(&want_down));
    let got_up = server.join("the server")?;
    ensure!(got_up == want_up, "the server received {} messages {:?}, sent were {} {:?}", got_up.len(), brief(&got_up), want_up.len(), brief(&want_up));
    o.class(format!("{:?}/{}{}", c.client, if server_async { "async" } else { "sync" }, if tls { "/tls" } else { "" }));
    o.class_if(client_splits, "client split");
    o.class_if(server_splits, "server split");
    o.nontrivial(want_up.len() + want_down.len() >= 2);
    Ok(())
}
fn brief(v: &[Msg]) -> Vec<String> {
    v.iter().take(4).map(|m| m.brief()).collect()
}

pub fn e01_suite() -> Suite {
    suite(
        "tcp",
        "a client (blocking, boxed, split, asynchronous, TLS) and a server (blocking, split, asynchronous, TLS) over loopback sockets in two threads, both directions at once; non-trivial: two messages or more",
        opts(6_000, 200_000).shrink(60),
        tcp_talk,
        e01_tcp,
    )
}
pub fn e01_bulk_suite() -> Suite {
    suite(
        "tcp-bulk",
        "as tcp, for ends that send and receive at the same time, with thousands of messages or messages of up to 20 MB each way; non-trivial: two messages or more",
        opts(800, 30_000).shrink(30),
        tcp_bulk,
        e01_tcp,
    )
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C02",
        level: "1",
        assumptions: &["a Linux loopback socket stands for the network"],
        suites: vec![suite(
            "sockets",
            "two blocking connections (client or server side, plain or boxed) over loopback sockets under a generated sequence of sends, receives, peer actions, option changes, shutdowns and splits; non-trivial: a shutdown with messages around it or a non-blocking receive without data",
            opts(20_000, 600_000).shrink(120),
            c02_case,
            c02,
        )],
    }]
}
