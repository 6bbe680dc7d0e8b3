//! R04: long-running connections and servers keep a steady footprint.
use super::frames::role;
use super::tls::{How, HOWS};
use crate::alloc;
use crate::api::*;
use crate::engine::*;
use crate::gen::{self, fast_plan, gmsg, Item};
use crate::mock::*;
use crate::net::*;
use crate::rfc::{self, Msg};
use bytes::BytesMut;
use futures::Stream as _;
use hyper::buffer::BufReader;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::io::{self, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::Arc;
use tokio_codec::{Decoder, Encoder};
use tokio_io::{AsyncRead, AsyncWrite};
use websocket::client::sync::Client;
use websocket::codec::ws::{DataFrameCodec, MessageCodec};
use websocket::dataframe::DataFrame;
use websocket::receiver::{Reader, Receiver};
use websocket::sender::{Sender, Writer};
use websocket::server::r#async::Handle;
use websocket::server::upgrade::r#async::IntoWs as AsyncIntoWs;
use websocket::server::upgrade::sync::IntoWs as SyncIntoWs;
use websocket::stream::sync::ReadWritePair;
use websocket::ws::receiver::Receiver as ReceiverTrait;
use websocket::ws::sender::Sender as SenderTrait;
use websocket::{ClientBuilder, OwnedMessage};

/// Memory of a thread at the end of each round, and the most it was during one.
struct Gauge {
    /// none is taken before the harness itself is warm
    base: i64,
    live: Vec<i64>,
    peak: Vec<i64>,
}
impl Gauge {
    fn new(rounds: usize) -> Gauge {
        let (live, peak) = (Vec::with_capacity(rounds + 1), Vec::with_capacity(rounds + 1));
        let base = alloc::live();
        alloc::peak();
        Gauge { base, live, peak }
    }
    fn lap(&mut self) {
        let p = alloc::peak();
        self.live.push(alloc::live() - self.base);
        self.peak.push(p - self.base);
    }
    /// the later rounds need no more than the earlier ones
    fn judge(&self, who: &str, slack: i64, what: &str) -> Res {
        for (v, of) in [(&self.live, "held after"), (&self.peak, "needed during")] {
            let h = v.len() / 2;
            let (a, b) = (v[..h].iter().max().copied().unwrap_or(0), v[h..].iter().max().copied().unwrap_or(0));
            ensure!(
                b <= a + slack,
                "{}: memory {} each of {} rounds of {} grows: first {:?}, at most {} in the first half, {} in the second",
                who, of, v.len(), what, &v[..v.len().min(3)], a, b
            );
        }
        Ok(())
    }
}

/// A transport that gives the same bytes again and again and swallows what is written, without
/// allocating anything itself.
struct Endless {
    head: Vec<u8>,
    cycle: Vec<u8>,
    pos: u64,
    plan: Plan,
    wplan: Plan,
    written: u64,
    /// what was written lately, while kept
    kept: Vec<u8>,
    keep: bool,
    mode: Mode,
    /// where the masking keys are, and how much they mask: every round has other keys
    keys: Vec<(usize, usize)>,
}
impl Endless {
    fn new(head: Vec<u8>, cycle: Vec<u8>, plan: &[u8], wplan: &[u8], mode: Mode) -> Endless {
        let mut plan = Plan::new(plan);
        plan.marks = vec![];
        Endless { head, cycle, pos: 0, plan, wplan: Plan::new(wplan), written: 0, kept: vec![], keep: false, mode, keys: vec![] }
    }
}
impl Read for Endless {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let h = self.head.len() as u64;
        let n = match self.plan.next_step() {
            Step::Hiccup if self.mode == Mode::Async => return Err(io::ErrorKind::WouldBlock.into()),
            Step::Hiccup if self.pos >= h => return Err(io::ErrorKind::Interrupted.into()),
            Step::Hiccup => 1,
            Step::Up(n) => n,
        };
        if self.pos > h && (self.pos - h) % self.cycle.len().max(1) as u64 == 0 {
            for (i, (at, len)) in self.keys.iter().enumerate() {
                let change = (self.pos as u32).wrapping_mul(2654435761).rotate_left(i as u32 % 31).to_be_bytes();
                for k in 0..4 + len {
                    self.cycle[at + k] ^= change[k % 4];
                }
            }
        }
        let src = if self.pos < h {
            &self.head[self.pos as usize..]
        } else if self.cycle.is_empty() {
            return Err(io::ErrorKind::WouldBlock.into());
        } else {
            &self.cycle[((self.pos - h) % self.cycle.len() as u64) as usize..]
        };
        let n = n.min(buf.len()).min(src.len());
        buf[..n].copy_from_slice(&src[..n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Write for Endless {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let n = match self.wplan.next_step() {
            Step::Hiccup if self.mode == Mode::Async => return Err(io::ErrorKind::WouldBlock.into()),
            Step::Hiccup => return Err(io::ErrorKind::Interrupted.into()),
            Step::Up(n) => n.min(buf.len()),
        };
        if self.keep {
            self.kept.extend_from_slice(&buf[..n]);
        }
        self.written += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl AsyncRead for Endless {}
impl AsyncWrite for Endless {
    fn shutdown(&mut self) -> futures::Poll<(), io::Error> {
        Ok(().into())
    }
}
/// shared, so that the harness sees what the library's side writes
#[derive(Clone)]
struct Shared(Arc<std::sync::Mutex<Endless>>);
impl Shared {
    fn new(e: Endless) -> Shared {
        Shared(Arc::new(std::sync::Mutex::new(e)))
    }
    fn with<T>(&self, f: impl FnOnce(&mut Endless) -> T) -> T {
        f(&mut self.0.lock().unwrap_or_else(|e| e.into_inner()))
    }
}
impl Read for Shared {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.with(|e| e.read(buf))
    }
}
impl Write for Shared {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.with(|e| e.write(buf))
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl AsyncRead for Shared {}
impl AsyncWrite for Shared {
    fn shutdown(&mut self) -> futures::Poll<(), io::Error> {
        Ok(().into())
    }
}

// ------------------------------------------------------------------------------- receiving

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RxRun {
    api: RxApi,
    role: Role,
    items: Vec<Item>,
    seed: u32,
    plan: Vec<u8>,
    rounds: u32,
}
/// rounds so that there are enough of them, within a budget of bytes
fn rounds(many: bool, bytes: usize, msgs: usize, ask: u32) -> u32 {
    let cap = (if many { 6_000_000 } else { 1_500_000 } / (bytes + 20 * msgs).max(1)).clamp(24, 90_000) as u32;
    if many {
        cap.min(70_000 / msgs.max(1) as u32 + 24)
    } else {
        cap.min(24 + ask)
    }
}
fn rx_case() -> BoxedStrategy<RxRun> {
    let small = prop_oneof![
        // tiny messages, to get to many
        1 => (vec(gen::ctl().prop_map(Item::Ctl), 1..3), Just(true)),
        1 => (vec((0u32..3, any::<u32>()).prop_map(|(len, seed)| Item::Data { msg: gen::GMsg::Binary(gen::Pay::Fill { len, seed }), cuts: vec![], inter: vec![] }), 1..3), Just(true)),
        12 => (vec(gen::item(false), 1..6), Just(false)),
        2 => (vec(gen::item(true), 1..3), Just(false)),
    ];
    (select(ALL_RX.to_vec()), role(), small, any::<u32>(), fast_plan(), 0u32..200)
        .prop_map(|(api, role, (items, many), seed, plan, ask)| {
            let bytes: usize = items.iter().flat_map(|i| i.frames()).map(|f| f.payload.len() + 10).sum();
            let rounds = rounds(many, bytes, items.len(), ask);
            RxRun { api, role, items, seed, plan, rounds }
        })
        .boxed()
}
fn receiving(c: &RxRun, o: &mut Obs) -> Res {
    let mut frames: Vec<rfc::Frame> = c.items.iter().flat_map(|i| i.frames()).collect();
    gen::mask_frames(&mut frames, c.role.expects_mask(), c.seed);
    let bytes = gen::wire(&frames);
    let e = rfc::reassemble(&frames, c.role.expects_mask());
    if e.error.is_some() || e.msgs.is_empty() {
        inconclusive!("generator made an invalid history");
    }
    let want = e.msgs;
    let per = want.len();
    let head = if c.api.is_conn() { c.role.head() } else { vec![] };
    let mode = if c.api.is_sync() { Mode::Blocking } else { Mode::Async };
    let mut plan = c.plan.clone();
    if plan.iter().all(|p| matches!(Plan::new(&[*p]).next_step(), Step::Hiccup)) {
        plan.push(64);
    }
    let mut io = Endless::new(head, bytes.clone(), &plan, &[], mode);
    if c.role.expects_mask() {
        let ends = gen::ends(&frames);
        io.keys = frames.iter().zip(&ends).map(|(f, e)| (e - f.payload.len() - 4, f.payload.len())).collect();
    }
    let polls = (plan.len() + 4) * (bytes.len() + 9000) + 100;
    let who = format!("{:?}/{:?}", c.api, c.role);
    let mut g = Gauge::new(c.rounds as usize);
    let mut round = |next: &mut dyn FnMut() -> Result<OwnedMessage, String>| -> Res {
        for k in 0..c.rounds {
            for (i, w) in want.iter().enumerate() {
                match next() {
                    Ok(m) => {
                        let m = from_owned(&m);
                        ensure!(m == *w, "{}: message {} of round {} is {}, not {}", who, i, k, show(&m), show(w));
                    }
                    Err(x) => fail!("{}: message {} of round {} ({} so far): {}", who, i, k, k as usize * per + i, x),
                }
            }
            g.lap();
        }
        Ok(())
    };
    let es = |r: websocket::WebSocketResult<OwnedMessage>| r.map_err(|e| err_name(&e));
    let recv = || Receiver::new(c.role.expects_mask());
    let none = || Err::<OwnedMessage, _>("the iterator ends".to_string());
    match c.api {
        RxApi::Raw => {
            let (mut io, mut r) = (io, recv());
            round(&mut || es(r.recv_message(&mut io)))?;
        }
        RxApi::RawIter => {
            let (mut io, mut r) = (io, recv());
            let mut it = r.incoming_messages(&mut io);
            round(&mut || it.next().map_or_else(none, es))?;
        }
        RxApi::Reader => {
            let mut r = Reader { stream: BufReader::new(io), receiver: recv() };
            round(&mut || es(r.recv_message()))?;
        }
        RxApi::Conn => {
            let mut cl = started(sync_conn(c.role, io, None))?;
            round(&mut || es(cl.recv_message()))?;
        }
        RxApi::ConnIter => {
            let mut cl = started(sync_conn(c.role, io, None))?;
            let mut it = cl.incoming_messages();
            round(&mut || it.next().map_or_else(none, es))?;
        }
        RxApi::Mixed => {
            // a fresh iterator every time, frames read in between by nobody
            let mut cl = started(sync_conn(c.role, io, None))?;
            let mut k = 0;
            round(&mut || {
                k += 1;
                if k % 3 == 0 {
                    es(cl.recv_message())
                } else {
                    cl.incoming_messages().next().map_or_else(none, es)
                }
            })?;
        }
        RxApi::Split => {
            let p = ReadWritePair(Shared::new(io), Shared::new(Endless::new(vec![], vec![], &[], &[], mode)));
            let cl = started(sync_conn(c.role, p, None))?;
            let (mut r, _w) = started(cl.split().map_err(|e| e.to_string()))?;
            round(&mut || es(r.recv_message()))?;
        }
        RxApi::Codec => {
            let mut io = io;
            let mut codec: MessageCodec<OwnedMessage> = MessageCodec::default(c.role.ctx());
            let mut buf = BytesMut::new();
            round(&mut || loop {
                match codec.decode(&mut buf) {
                    Ok(Some(m)) => return Ok(m),
                    Ok(None) => {}
                    Err(e) => return Err(err_name(&e)),
                }
                let mut tmp = [0u8; 4096];
                if let Ok(n) = io.read(&mut tmp) {
                    buf.extend_from_slice(&tmp[..n]);
                }
            })?;
        }
        RxApi::Framed => {
            let cl = started(async_conn(c.role, io, None, polls))?;
            let mut h = Hand::new(cl);
            round(&mut || match h.next(polls) {
                Driven::Ok(Some(m)) => Ok(m),
                Driven::Ok(None) => Err("the stream ends".into()),
                Driven::Err(e) => Err(err_name(&e)),
                Driven::Stall => Err("nothing comes".into()),
            })?;
        }
    }
    let slack = if c.api.is_sync() { 0 } else { SLACK + bytes.len() as i64 };
    g.judge(&who, slack, &format!("{} messages in {} bytes", per, bytes.len()))?;
    o.class(who);
    let n = per * c.rounds as usize;
    o.class_if(n > 65_536, "more than 65,536 messages");
    o.class_if(frames.len() > per, "fragmented");
    o.nontrivial(n > 50);
    Ok(())
}
const SLACK: i64 = 2_048;
fn started<T>(r: Result<T, String>) -> Result<T, Fail> {
    r.map_err(|e| Fail::Violation(format!("the connection does not come about: {}", e)))
}
fn show(m: &Msg) -> String {
    let s = format!("{:?}", m);
    s.chars().take(120).collect()
}

// ------------------------------------------------------------------------------- sending

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TxRun {
    api: TxApi,
    role: Role,
    msgs: Vec<gen::GMsg>,
    /// bits: sent as a data frame
    frames: u8,
    /// asynchronous: flush after that many
    every: u8,
    wplan: Vec<u8>,
    rounds: u32,
}
fn tx_case() -> BoxedStrategy<TxRun> {
    let msgs = prop_oneof![
        2 => (vec(gen::ctl(), 1..3), Just(true)),
        12 => (vec(gmsg(false), 1..6), Just(false)),
        2 => (vec(gmsg(true), 1..3), Just(false)),
    ];
    (select(ALL_TX.to_vec()), role(), msgs, any::<u8>(), 1u8..9, fast_plan(), 0u32..200)
        .prop_map(|(api, role, (msgs, many), frames, every, wplan, ask)| {
            let bytes: usize = msgs.iter().map(|m| m.msg().payload().len() + 10).sum();
            let rounds = rounds(many, bytes, msgs.len(), ask);
            TxRun { api, role, msgs, frames, every, wplan, rounds }
        })
        .boxed()
}
fn sending(c: &TxRun, o: &mut Obs) -> Res {
    let mask = c.role.masks();
    let is_conn = matches!(c.api, TxApi::Conn | TxApi::Split | TxApi::Framed);
    let mode = if c.api.is_sync() { Mode::Blocking } else { Mode::Async };
    let mut wplan = c.wplan.clone();
    wplan.push(64);
    let head = if is_conn { c.role.head() } else { vec![] };
    let io = Shared::new(Endless::new(head, vec![], &[], &wplan, mode));
    let own: Vec<OwnedMessage> = c.msgs.iter().map(|m| to_owned(&m.msg())).collect();
    let dfs: Vec<DataFrame> = c.msgs.iter().map(|m| {
        let m = m.msg();
        dataframe(&rfc::Frame::new(true, m.op(), m.payload()))
    }).collect();
    let bytes: usize = dfs.iter().map(|d| d.data.len() + 14).sum();
    let polls = (wplan.len() + 4) * (bytes * c.every as usize + 9000) + 100;
    let who = format!("{:?}/{:?}", c.api, c.role);
    let mut g = Gauge::new(c.rounds as usize);
    let es = |r: websocket::WebSocketResult<()>| r.map_err(|e| err_name(&e));
    let n = own.len();
    let start = std::cell::Cell::new(0u64);
    // the last round is kept and looked at
    let seen = io.clone();
    let mut round = |put: &mut dyn FnMut(usize) -> Result<(), String>, flush: &mut dyn FnMut() -> Result<(), String>| -> Res {
        start.set(seen.with(|e| e.written));
        for k in 0..c.rounds {
            if k + 1 == c.rounds {
                // nothing of earlier rounds may be left then
                if let Err(x) = flush() {
                    fail!("{}: flush: {}", who, x);
                }
                seen.with(|e| e.keep = true);
            }
            for i in 0..n {
                let r = put(i).and_then(|()| if (k as usize * n + i) % c.every as usize == 0 { flush() } else { Ok(()) });
                if let Err(x) = r {
                    fail!("{}: message {} of round {} ({} so far): {}", who, i, k, k as usize * n + i, x);
                }
            }
            if k + 1 < c.rounds {
                g.lap();
            }
        }
        if let Err(x) = flush() {
            fail!("{}: flush: {}", who, x);
        }
        Ok(())
    };
    let framed = |i: usize| c.frames >> (i % 8) & 1 == 1;
    let mut nop = || Ok(());
    match c.api {
        TxApi::Direct => {
            let mut w = io;
            round(&mut |i| {
                use websocket::ws::{dataframe::DataFrame as D, Message as M};
                es(if framed(i) { dfs[i].write_to(&mut w, mask) } else { own[i].serialize(&mut w, mask) })
            }, &mut nop)?;
        }
        TxApi::Sender => {
            let (mut w, mut s) = (io, Sender::new(mask));
            round(&mut |i| es(if framed(i) { s.send_dataframe(&mut w, &dfs[i]) } else { s.send_message(&mut w, &own[i]) }), &mut nop)?;
        }
        TxApi::Writer => {
            let mut w = Writer { stream: io, sender: Sender::new(mask) };
            round(&mut |i| es(if framed(i) { w.send_dataframe(&dfs[i]) } else { w.send_message(&own[i]) }), &mut nop)?;
        }
        TxApi::Conn => {
            let mut w = started(sync_conn(c.role, io, None))?;
            round(&mut |i| es(if framed(i) { w.send_dataframe(&dfs[i]) } else { w.send_message(&own[i]) }), &mut nop)?;
        }
        TxApi::Split => {
            let p = ReadWritePair(Shared::new(Endless::new(c.role.head(), vec![], &[], &[], mode)), io);
            let cl = started(sync_conn(c.role, p, None))?;
            let (_r, mut w) = started(cl.split().map_err(|e| e.to_string()))?;
            round(&mut |i| es(if framed(i) { w.send_dataframe(&dfs[i]) } else { w.send_message(&own[i]) }), &mut nop)?;
        }
        TxApi::Codec => {
            let mut m: MessageCodec<OwnedMessage> = MessageCodec::default(c.role.ctx());
            let mut d: DataFrameCodec<Box<dyn websocket::ws::dataframe::DataFrame>> = DataFrameCodec::new(c.role.ctx());
            let mut w = io;
            let buf = std::cell::RefCell::new(BytesMut::new());
            round(
                &mut |i| {
                    let mut b = buf.borrow_mut();
                    es(if framed(i) { d.encode(Box::new(dataframe(&from_dataframe(&dfs[i]))), &mut b) } else { m.encode(own[i].clone(), &mut b) })
                },
                &mut || {
                    let mut b = buf.borrow_mut();
                    while !b.is_empty() {
                        if let Ok(n) = w.write(&b) {
                            b.advance(n);
                        }
                    }
                    Ok(())
                },
            )?;
        }
        TxApi::Framed => {
            let cl = started(async_conn(c.role, io, None, polls))?;
            let h = std::cell::RefCell::new(Hand::new(cl));
            let dr = |d: Driven<(), websocket::WebSocketError>| match d {
                Driven::Ok(()) => Ok(()),
                Driven::Err(e) => Err(err_name(&e)),
                Driven::Stall => Err("stalled".to_string()),
            };
            round(&mut |i| dr(h.borrow_mut().send(own[i].clone(), polls)), &mut || dr(h.borrow_mut().flush(polls)))?;
        }
    }
    let (kept, written) = seen.with(|e| (std::mem::take(&mut e.kept), e.written));
    // every round has the same length
    let per: usize = dfs.iter().map(|d| rfc::encode_header(true, [false; 3], 2, if mask { Some([0; 4]) } else { None }, d.data.len() as u64).len() + d.data.len()).sum();
    ensure!(written - start.get() == per as u64 * c.rounds as u64, "{}: {} bytes for {} rounds of {}", who, written - start.get(), c.rounds, per);
    let mut at = 0;
    for (i, d) in dfs.iter().enumerate() {
        match rfc::decode(&kept[at..]) {
            rfc::Dec::Frame(f, n) => {
                at += n;
                ensure!(
                    f.fin && f.rsv == [false; 3] && f.op == d.opcode as u8 && f.payload == d.data && f.mask.is_some() == mask,
                    "{}: message {} of the last of {} rounds is {:?}", who, i, c.rounds, (f.fin, f.op, f.mask, f.payload.len())
                );
            }
            x => fail!("{}: message {} of the last of {} rounds: {:?}", who, i, c.rounds, matches!(x, rfc::Dec::Incomplete)),
        }
    }
    let slack = if c.api.is_sync() { 0 } else { SLACK + bytes as i64 };
    g.judge(&who, slack, &format!("{} messages in {} bytes", n, per))?;
    o.class(who);
    let total = n * c.rounds as usize;
    o.class_if(total > 65_536, "more than 65,536 messages");
    o.nontrivial(total > 50);
    Ok(())
}

// ------------------------------------------------------------------------------- handshakes

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Head {
    Good,
    /// no HTTP: which, where
    Broken(u8, u8),
    /// ends inside
    Cut(u16),
    /// without what it needs: which header is missing; responses: with that status
    Lacking(u8, u16),
    /// writing fails
    NoWrite(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Deal {
    role: Role,
    sync: bool,
    pair: bool,
    head: Head,
    pad: u16,
    tail: Vec<u8>,
    /// 0 accept, 1 reject, 2 drop; accepted: bits for what is done with the connection
    then: u8,
    plan: Vec<u8>,
    wplan: Vec<u8>,
}
fn deal() -> BoxedStrategy<Deal> {
    let head = prop_oneof![
        4 => Just(Head::Good),
        1 => (0u8..6, any::<u8>()).prop_map(|(a, b)| Head::Broken(a, b)),
        1 => any::<u16>().prop_map(Head::Cut),
        2 => (any::<u8>(), select(vec![200u16, 301, 302, 400, 401, 404, 426, 500, 503])).prop_map(|(a, b)| Head::Lacking(a, b)),
        1 => any::<u16>().prop_map(Head::NoWrite),
    ];
    (
        role(),
        any::<bool>(),
        any::<bool>(),
        head,
        prop_oneof![3 => 0u16..100, 1 => 3000u16..20_000],
        gen::tail(),
        0u8..12,
        fast_plan(),
        fast_plan(),
    )
        .prop_map(|(role, sync, pair, head, pad, tail, then, plan, wplan)| Deal { role, sync, pair, head, pad, tail, then, plan, wplan })
        .boxed()
}
impl Deal {
    fn bytes(&self, n: u32) -> Vec<u8> {
        let s = String::from_utf8(match self.role {
            Role::Server => request_head(),
            Role::Client => response_for(&key(n)),
        })
        .unwrap();
        // nothing that could be told apart from before
        let s = s.replace(&rfc::b64(&KEY), &rfc::b64(&key(n))).replace("/chat", &format!("/chat{:06}", n)).replace("h.example", &format!("h{:06}.example", n));
        let s = s.replacen("\r\n\r\n", &format!("\r\nX-Pad: {}\r\n\r\n", "p".repeat(self.pad as usize)), 1);
        let mut b = match self.head {
            Head::Good | Head::NoWrite(_) => s.into_bytes(),
            Head::Broken(how, at) => super::errors::break_head(s.as_bytes(), how, at),
            Head::Cut(at) => return s.as_bytes()[..at as usize * s.len() >> 16].to_vec(),
            Head::Lacking(k, status) => {
                let mut lines: Vec<&str> = s.split("\r\n").collect();
                let st = format!("HTTP/1.1 {} Some Status", status);
                if self.role == Role::Client && k % 2 == 0 {
                    lines[0] = &st;
                } else {
                    let names: &[&str] = match self.role {
                        Role::Client => &["Connection", "Upgrade", "Sec-WebSocket-Accept"],
                        Role::Server => &["Connection", "Upgrade", "Sec-WebSocket-Key", "Sec-WebSocket-Version"],
                    };
                    let n = names[k as usize / 2 % names.len()];
                    lines.retain(|l| !l.starts_with(&format!("{}:", n)));
                }
                lines.join("\r\n").into_bytes()
            }
        };
        b.extend_from_slice(&self.tail);
        b
    }
    fn once(&self, n: u32) -> Result<(bool, bool), Fail> {
        let bytes = self.bytes(n);
        let rx = Pipe::closed_with(&bytes);
        let tx = Pipe::new();
        let gone = Pipe::new();
        let mode = if self.sync { Mode::Blocking } else { Mode::Async };
        let mut io = Io::new(&rx, if self.pair { &gone } else { &tx }, mode).plans(&self.plan, &self.wplan);
        io.calm_until = if self.sync { usize::MAX } else { 0 };
        let own = if let Head::NoWrite(at) = self.head { Some((at as usize * 120 >> 16, io::ErrorKind::BrokenPipe)) } else { None };
        let polls = (self.plan.len() + self.wplan.len() + 4) * (bytes.len() + 2000) + 100;
        let ok = if self.pair {
            let mut w = Io::new(&Pipe::new(), &tx, mode).plans(&[], &self.wplan);
            w.wfail = own;
            self.with(ReadWritePair(io, w), n, polls)?
        } else {
            io.wfail = own;
            self.with(io, n, polls)?
        };
        Ok((ok, tx.is_closed() && (!self.pair || gone.is_closed())))
    }
    fn with<S>(&self, io: S, n: u32, polls: usize) -> Result<bool, Fail>
    where
        S: Read + Write + AsyncRead + AsyncWrite + Send + 'static,
    {
        let msg = OwnedMessage::Text("hello".into());
        macro_rules! sync {
            ($c:expr) => {{
                let mut c = $c;
                if self.then & 4 != 0 {
                    let _ = c.send_message(&msg);
                }
                if self.then & 8 != 0 {
                    let _ = c.recv_message();
                }
            }};
        }
        macro_rules! asynchronous {
            ($c:expr) => {{
                let mut h = Hand::new($c);
                if self.then & 4 != 0 {
                    let _ = h.send(msg, polls);
                }
                if self.then & 8 != 0 {
                    let _ = h.next(polls);
                }
            }};
        }
        let url = format!("ws://h{:06}.example/chat{:06}", n, n);
        let builder = || ClientBuilder::new(&url).map(|b| b.key(key(n)).origin(format!("http://o{:06}.example", n)));
        let mut builder = match builder() {
            Ok(b) => b,
            Err(e) => fail!("{}: {}", url, e),
        };
        Ok(match (self.role, self.sync) {
            (Role::Client, true) => match builder.connect_on(io) {
                Ok(c) => {
                    sync!(c);
                    true
                }
                Err(_) => false,
            },
            (Role::Client, false) => match drive(builder.async_connect_on(io), polls) {
                Driven::Ok((c, _)) => {
                    asynchronous!(c);
                    true
                }
                Driven::Err(_) => false,
                Driven::Stall => fail!("async_connect_on never ends"),
            },
            (Role::Server, true) => match SyncIntoWs::into_ws(io) {
                Ok(up) => {
                    match self.then % 3 {
                        0 => {
                            if let Ok(c) = up.accept() {
                                sync!(c)
                            }
                        }
                        1 => drop(up.reject()),
                        _ => drop(up),
                    }
                    true
                }
                Err(_) => false,
            },
            (Role::Server, false) => match drive(AsyncIntoWs::into_ws(io), polls) {
                Driven::Ok(up) => {
                    match self.then % 3 {
                        0 => match drive(up.accept(), polls) {
                            Driven::Ok((c, _)) => asynchronous!(c),
                            Driven::Err(_) => {}
                            Driven::Stall => fail!("accept never ends"),
                        },
                        1 => drop(drive(up.reject(), polls)),
                        _ => drop(up),
                    }
                    true
                }
                Driven::Err(_) => false,
                Driven::Stall => fail!("into_ws never ends"),
            },
        })
    }
    fn name(&self) -> String {
        format!("{:?} {}{}", self.role, if self.sync { "blocking" } else { "asynchronous" }, if self.pair { " pair" } else { "" })
    }
}
fn key(n: u32) -> [u8; 16] {
    let mut k = KEY;
    k[3..7].copy_from_slice(&n.wrapping_mul(2654435761).to_be_bytes());
    k
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Deals {
    deals: Vec<Deal>,
    rounds: u8,
}
fn handshakes(c: &Deals, o: &mut Obs) -> Res {
    let mut g = Gauge::new(c.rounds as usize);
    for k in 0..c.rounds {
        for (i, d) in c.deals.iter().enumerate() {
            let (ok, closed) = d.once(k as u32 * c.deals.len() as u32 + i as u32)?;
            ensure!(closed, "{}: the stream of handshake {} ({:?}, {}) is still open when nothing of it is left", d.name(), i, d.head, if ok { "taken" } else { "failed" });
            if k == 0 {
                o.class(d.name());
                o.class(if ok { "taken" } else { "failed" });
                ensure!(ok || !matches!(d.head, Head::Good), "{}: a good head fails", d.name());
            }
        }
        g.lap();
    }
    g.judge(&format!("{} handshakes", c.deals.len()), 0, "handshakes")?;
    o.nontrivial(c.rounds as usize * c.deals.len() > 20);
    Ok(())
}

// ------------------------------------------------------------------------------- sockets

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Answer {
    Accept,
    Status(u16),
    WrongKey,
    Garbage,
    /// silence, then the end of what the server sends
    Finish,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Call {
    how: How,
    answer: Answer,
    /// what happens to the connection: 0 dropped, 1 and 2 split and dropped in either order, 3 taken apart
    end: u8,
    more: Vec<String>,
}
fn calls(c: &Call, o: &mut Obs) -> Res {
    patient(c, o, calls_once)
}
fn peer<S: Read + Write>(s: S, a: Answer, more: &[String]) -> Res {
    let mut r = Raw { s, buf: vec![], eof: false };
    let h = r.head("the client's request")?;
    let key = h.one("Sec-WebSocket-Key").and_then(rfc::unb64).unwrap_or_default();
    let mut b = match a {
        Answer::Accept => response_for(&key),
        Answer::Status(s) => format!("HTTP/1.1 {} Whatever\r\nContent-Length: 0\r\n\r\n", s).into_bytes(),
        Answer::WrongKey => response_for(b"not what was asked"),
        Answer::Garbage => b"\x00\x01 this is nothing\r\n\r\n".to_vec(),
        Answer::Finish => vec![],
    };
    if a == Answer::Accept {
        for m in more {
            b.extend(rfc::Frame::new(true, 1, m.clone().into_bytes()).encode());
        }
    }
    let _ = r.put(&b, "the answer");
    r.end("the end of a connection the client has dropped")?;
    Ok(())
}
fn calls_once(c: &Call, o: &mut Obs) -> Res {
    let tls = c.how.tls("ws");
    let l = env(TcpListener::bind(if tls { std::net::Ipv4Addr::LOCALHOST } else { fresh_ip() }.to_string() + ":0"), "bind")?;
    let url = format!("ws://{}/x", env(l.local_addr(), "local_addr")?);
    let (a, more) = (c.answer, c.more.clone());
    let p = side(move || {
        let s = match accept_within(&l, WAIT) {
            Some(s) => s,
            None => return stall("the client's connection"),
        };
        let r = raw(s);
        if tls {
            match Cert::Good.acceptor().accept(r.s) {
                Ok(t) => {
                    if a == Answer::Finish {
                        let mut r = Raw { s: t, buf: vec![], eof: false };
                        let _ = r.head("the request");
                        let _ = r.s.shutdown();
                        r.end("the end of a connection the client has dropped").map(|_| ())
                    } else {
                        peer(t, a, &more)
                    }
                }
                Err(e) => fail!("TLS handshake with the client: {}", e),
            }
        } else if a == Answer::Finish {
            let mut r = r;
            let _ = r.head("the request");
            r.finish();
            r.end("the end of a connection the client has dropped").map(|_| ())
        } else {
            peer(r.s, a, &more)
        }
    });
    let mut b = match ClientBuilder::new(&url) {
        Ok(b) => b,
        Err(e) => fail!("{}: {}", url, e),
    };
    let conn = || if tls { Some(super::tls::any_cert()) } else { None };
    let ok = |k: bool| -> Res {
        ensure!(k == (c.answer == Answer::Accept), "{:?}: {:?} {}", c.how, c.answer, if k { "gives a connection" } else { "fails" });
        Ok(())
    };
    macro_rules! whole {
        ($r:expr) => {{
            let r = $r;
            ok(r.is_ok())?;
            if let Ok(cl) = r {
                if c.end == 3 {
                    drop(cl.into_stream());
                } else {
                    drop(cl);
                }
            }
        }};
    }
    macro_rules! asynchronous {
        ($f:expr) => {{
            let mut rt = env(tokio::runtime::current_thread::Runtime::new(), "runtime")?;
            let r = rt.block_on($f);
            ok(r.is_ok())?;
            if let Ok((cl, _)) = r {
                match c.end {
                    0 => drop(cl),
                    1 | 2 => {
                        let (si, st) = cl.split();
                        if c.end == 1 {
                            drop(si);
                            drop(st);
                        } else {
                            drop(st);
                            drop(si);
                        }
                    }
                    _ => drop(cl.into_inner()),
                }
            }
            // the runtime lives on
            p.join("the peer")?;
            drop(rt);
        }};
    }
    match c.how {
        How::Connect => {
            whole!(b.connect(conn()));
            p.join("the peer")?;
        }
        How::Secure => {
            whole!(b.connect_secure(conn()));
            p.join("the peer")?;
        }
        How::Insecure => {
            let r = b.connect_insecure();
            ok(r.is_ok())?;
            if let Ok(cl) = r {
                apart(cl, c)?;
            }
            p.join("the peer")?;
        }
        How::AConnect => asynchronous!(b.async_connect(conn())),
        How::AInsecure => asynchronous!(b.async_connect_insecure()),
        How::ASecure => asynchronous!(b.async_connect_secure(conn())),
    }
    o.class(format!("{:?}", c.how));
    o.class(format!("{:?}", c.answer).split('(').next().unwrap().to_string());
    o.nontrivial(true);
    Ok(())
}
/// the two halves hold the connection together: it ends with the second
fn apart(cl: Client<TcpStream>, c: &Call) -> Res {
    match c.end {
        0 => drop(cl),
        3 => drop(cl.into_stream()),
        e => {
            let (mut r, mut w) = env(cl.split(), "split")?;
            if e == 1 {
                drop(r);
                for m in &c.more {
                    if let Err(x) = w.send_message(&OwnedMessage::Text(m.clone())) {
                        fail!("the writer cannot send once the reader is dropped: {}", err_name(&x));
                    }
                }
                drop(w);
            } else {
                drop(w);
                for m in &c.more {
                    match r.recv_message() {
                        Ok(OwnedMessage::Text(ref t)) if t == m => {}
                        x => fail!("the reader cannot receive once the writer is dropped: {:?}", x.map_err(|e| err_name(&e))),
                    }
                }
                drop(r);
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Host {
    sync: bool,
    tls: bool,
    /// one after another; good request, what the server does with it
    guests: Vec<(bool, u8)>,
}
fn hosts(c: &Host, o: &mut Obs) -> Res {
    patient(c, o, hosts_once)
}
fn guest(to: std::net::SocketAddr, tls: bool, good: bool) -> Side<()> {
    side(move || {
        let r = raw(env(TcpStream::connect(to), "connect")?);
        let mut b = Role::Server.head();
        if !good {
            b = String::from_utf8(b).unwrap().replace("Upgrade: websocket", "Upgrade: other").into_bytes();
        }
        if tls {
            match super::tls::any_cert().connect("127.0.0.1", r.s) {
                Ok(s) => {
                    let mut r = Raw { s, buf: vec![], eof: false };
                    let _ = r.put(&b, "the request");
                    r.end("the end of a connection the server has dropped")?;
                }
                Err(e) => fail!("TLS handshake with the server: {}", e),
            }
        } else {
            let mut r = r;
            let _ = r.put(&b, "the request");
            r.end("the end of a connection the server has dropped")?;
        }
        Ok(())
    })
}
fn hosts_once(c: &Host, o: &mut Obs) -> Res {
    let ip = fresh_ip();
    let what = format!("{} {} server", if c.sync { "blocking" } else { "asynchronous" }, if c.tls { "secure" } else { "plain" });
    let addr;
    macro_rules! sync {
        ($s:expr) => {{
            let mut s = env($s, "bind")?;
            addr = env(s.local_addr(), "local_addr")?;
            for (good, then) in &c.guests {
                let g = guest(addr, c.tls, *good);
                match s.accept() {
                    Ok(up) => match then % 4 {
                        0 => drop(up),
                        1 => drop(up.reject()),
                        2 => drop(up.accept()),
                        _ => {
                            if let Ok(mut cl) = up.accept() {
                                let _ = cl.send_message(&OwnedMessage::Text("hello".into()));
                            }
                        }
                    },
                    Err(e) => {
                        ensure!(!*good, "{}: a good request is refused: {:?}", what, e.error);
                        drop(e);
                    }
                }
                g.join("the caller")?;
            }
        }};
    }
    macro_rules! asynchronous {
        ($s:expr) => {{
            let mut rt = env(tokio::runtime::current_thread::Runtime::new(), "runtime")?;
            let s = env(rt.block_on(futures::future::lazy(|| $s)), "bind")?;
            addr = env(s.local_addr(), "local_addr")?;
            let mut inc = Some(s.incoming());
            for (good, then) in &c.guests {
                let g = guest(addr, c.tls, *good);
                match rt.block_on(inc.take().unwrap().into_future()) {
                    Ok((Some((up, _)), rest)) => {
                        inc = Some(rest);
                        match then % 4 {
                            0 => drop(up),
                            1 => drop(rt.block_on(up.reject())),
                            2 => drop(rt.block_on(up.accept())),
                            _ => {
                                use futures::{Future, Sink};
                                let f = up.accept().and_then(|(cl, _)| cl.send(OwnedMessage::Text("hello".into())));
                                drop(rt.block_on(f));
                            }
                        }
                    }
                    Ok((None, _)) => fail!("{}: its stream ends", what),
                    Err((e, rest)) => {
                        inc = Some(rest);
                        ensure!(!*good, "{}: a good request is refused: {:?}", what, e.error);
                        drop(e);
                    }
                }
                g.join("the caller")?;
            }
            drop(inc);
            // the runtime lives on
            gone(addr, &what)?;
            drop(rt);
        }};
    }
    let h = Handle::default();
    match (c.sync, c.tls) {
        (true, false) => sync!(websocket::sync::Server::bind((ip, 0))),
        (true, true) => sync!(websocket::sync::Server::bind_secure((ip, 0), Cert::Good.acceptor())),
        (false, false) => asynchronous!(websocket::r#async::Server::bind((ip, 0), &h)),
        (false, true) => asynchronous!(websocket::r#async::Server::bind_secure((ip, 0), Cert::Good.acceptor(), &h)),
    };
    gone(addr, &what)?;
    o.class(what);
    for (good, then) in &c.guests {
        o.class(if *good { ["dropped", "rejected", "accepted", "greeted"][*then as usize % 4] } else { "refused" });
    }
    o.nontrivial(!c.guests.is_empty());
    Ok(())
}
/// nobody listens there any more
fn gone(addr: std::net::SocketAddr, what: &str) -> Res {
    match TcpStream::connect(addr) {
        Err(ref e) if e.kind() == io::ErrorKind::ConnectionRefused => Ok(()),
        Err(e) => Err(Fail::Inconclusive(format!("connect: {}", e))),
        Ok(_) => fail!("{}: its port still takes connections when it is dropped", what),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "R04",
        level: "exploration",
        assumptions: &[
            "memory is measured per thread at the end of every round of the same work; growth that stops within the first half of the rounds is not growth",
            "asynchronous buffers may vary by 2 KiB and the bytes of one round",
        ],
        suites: vec![
            suite(
                "receiving",
                "a history received again and again (24 to 70,000 times) from one transport through nine receivers: every message right, memory steady; non-trivial: more than 50 messages",
                opts(10_000, 400_000),
                rx_case,
                receiving,
            ),
            suite(
                "sending",
                "messages and frames sent again and again through the sending APIs: the last round right, the total length right, memory steady; non-trivial: more than 50 messages",
                opts(15_000, 600_000),
                tx_case,
                sending,
            ),
            suite(
                "handshakes",
                "handshakes that succeed, fail, are rejected or dropped, again and again: every stream closed, memory steady; non-trivial: more than 20 handshakes",
                opts(5_000, 250_000),
                || (vec(deal(), 1..5), 8u8..30).prop_map(|(deals, rounds)| Deals { deals, rounds }).boxed(),
                handshakes,
            ),
            suite(
                "calls",
                "the six connect functions over sockets against servers that accept, refuse or fail: the peer sees the end once the result, or both halves of it, are dropped; every case non-trivial",
                opts(4_000, 100_000).shrink(100),
                || {
                    let answer = prop_oneof![
                        3 => Just(Answer::Accept),
                        1 => select(vec![200u16, 301, 400, 404, 500]).prop_map(Answer::Status),
                        1 => Just(Answer::WrongKey),
                        1 => Just(Answer::Garbage),
                        1 => Just(Answer::Finish),
                    ];
                    (select(HOWS.to_vec()), answer, 0u8..4, vec("[a-z]{0,9}", 0..4))
                        .prop_map(|(how, answer, end, more)| Call { how, answer, end, more })
                        .boxed()
                },
                calls,
            ),
            suite(
                "hosts",
                "servers of the four kinds with callers they refuse, reject, accept and drop: every caller sees the end, and the port is free afterwards; non-trivial: at least one caller",
                opts(3_000, 60_000).shrink(100),
                || (any::<bool>(), any::<bool>(), vec((proptest::bool::weighted(0.7), 0u8..4), 0..5)).prop_map(|(sync, tls, guests)| Host { sync, tls, guests }).boxed(),
                hosts,
            ),
        ],
    }]
}
