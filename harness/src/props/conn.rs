//! E01, E02, C01: whole connections over in-memory transports.
use super::frames::{match_frame, role};
use crate::api::*;
use crate::engine::*;
use crate::gen::{self, fast_plan, plan, GMsg, Item, Pay};
use crate::http::{accept_async, accept_sync, Custom as Extra, custom};
use crate::mock::*;
use crate::rfc::{self, Frame, Msg};
use futures::{Async, AsyncSink};
use hyper::header::Headers;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::io::{self, Read, Write};
use std::sync::{Arc, Mutex};
use tokio_codec::Framed;
use tokio_io::{AsyncRead, AsyncWrite};
use websocket::client::r#async::Client as AsyncClient;
use websocket::client::sync::Client;
use websocket::codec::ws::{Context, DataFrameCodec, MessageCodec};
use websocket::dataframe::DataFrame;
use websocket::receiver::{Reader, Receiver};
use websocket::result::{WebSocketError, WebSocketResult};
use websocket::sender::Writer;
use websocket::server::upgrade::r#async::IntoWs as AsyncIntoWs;
use websocket::server::upgrade::sync::{IntoWs as SyncIntoWs, RequestStreamPair};
use websocket::stream::sync::Splittable;
use websocket::{ClientBuilder, OwnedMessage};

// ------------------------------------------------------------------------------- C01, blocking

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Msg,
    IterMsg,
    Frame,
    IterFrame,
    /// raw read up to the n-th next frame boundary
    Raw(u8),
    SendMsg(GMsg),
    SendFrame(bool, u8, Pay),
    Write(Vec<u8>),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Cut {
    Nothing,
    Split,
    IntoStream,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct CutCase {
    role: Role,
    items: Vec<Item>,
    open: u8,
    seed: u32,
    plan: Vec<u8>,
    wplan: Vec<u8>,
    gates: u32,
    /// (which limit, value)
    limit: Option<(bool, u16)>,
    /// a handshake longer than the reader's first buffer makes it grow, and read far ahead
    #[serde(default)]
    fill: u16,
    pre: Vec<Op>,
    cut: Cut,
    post: Vec<Op>,
}
fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        6 => Just(Op::Msg),
        2 => Just(Op::IterMsg),
        1 => Just(Op::Frame),
        1 => Just(Op::IterFrame),
        1 => (0u8..3).prop_map(Op::Raw),
        2 => gen::gmsg(false).prop_map(Op::SendMsg),
        1 => (any::<bool>(), select(vec![0u8, 1, 2, 3, 7]), gen::pay(false)).prop_map(|(f, o, p)| Op::SendFrame(f, o, p)),
        1 => vec(any::<u8>(), 0..40).prop_map(Op::Write),
    ]
    .boxed()
}
fn cut_case() -> BoxedStrategy<CutCase> {
    (
        (
            role(),
            prop_oneof![
                12 => (gen::items(1..7, 300), Just(0u16)),
                1 => (gen::items(1..7, 300), 0u16..12_000),
                1 => (vec((1u16..9000, any::<u32>()), 1..6), 3900u16..16_000)
                    .prop_map(|(lens, fill)| (lens.iter().map(|(n, seed)| Item::Data { msg: GMsg::Binary(Pay::Fill { len: *n as u32, seed: *seed }), cuts: vec![], inter: vec![] }).collect(), fill)),
            ],
            prop_oneof![3 => Just(0u8), 1 => 1u8..4],
            any::<u32>(),
            prop_oneof![3 => plan(), 1 => Just(vec![])],
            plan(),
            prop_oneof![2 => Just(0u32), 1 => Just(u32::MAX), 3 => any::<u32>()],
        ),
        (
            prop_oneof![3 => Just(None), 1 => (any::<bool>(), prop_oneof![0u16..30, 0u16..400]).prop_map(Some)],
            gen::many(op(), 0..8, 300),
            select(vec![Cut::Nothing, Cut::Split, Cut::Split, Cut::Split, Cut::IntoStream, Cut::IntoStream]),
            gen::many(op(), 0..8, 300),
        ),
    )
        .prop_map(|((role, (items, fill), open, seed, plan, wplan, gates), (limit, pre, cut, post))| CutCase {
            role, items, open, seed, plan, wplan, gates, limit, fill, pre, cut, post,
        })
        .boxed()
}

/// What the reading side must do next, given what was consumed so far.
struct Model<'a> {
    frames: &'a [Frame],
    ends: Vec<usize>,
    gates: Vec<bool>,
    /// next frame
    at: usize,
    /// a would-block at this frame was already reported
    gate_used: bool,
    frag: Vec<&'a Frame>,
    /// a fragmented message is being read frame by frame
    raw_open: bool,
    limits: Limits,
    /// after an error nothing more is claimed about reading
    dead: bool,
}
enum Want {
    Msg(Msg),
    Block,
    Eof,
    Err,
    /// near the message limit: an error or going on
    Either(Box<Want>),
}
impl<'a> Model<'a> {
    fn pos(&self) -> usize {
        if self.at == 0 { 0 } else { self.ends[self.at - 1] }
    }
    fn gate(&mut self) -> bool {
        // gate i reports would-block when everything up to the end of frame i was read
        if self.at > 0 && self.gates[self.at - 1] && !self.gate_used {
            self.gate_used = true;
            return true;
        }
        false
    }
    fn step(&mut self) -> Option<&'a Frame> {
        let f = self.frames.get(self.at)?;
        self.at += 1;
        self.gate_used = false;
        Some(f)
    }
    fn over(&self, f: &Frame) -> bool {
        self.limits.map_or(false, |(l, _)| f.payload.len() as u64 > l)
    }
    fn message(&mut self) -> Want {
        let mut either = false;
        let wrap = |e: bool, w: Want| if e { Want::Either(Box::new(w)) } else { w };
        loop {
            // before continuing a message its size so far is judged
            if !self.frag.is_empty() {
                if let Some((_, m)) = self.limits {
                    let sum: u64 = self.frag.iter().map(|f| f.payload.len() as u64).sum();
                    if sum > m {
                        return wrap(either, Want::Err);
                    }
                    if sum + 64 * self.frag.len() as u64 >= m {
                        either = true;
                    }
                }
            }
            if self.gate() {
                return wrap(either, Want::Block);
            }
            let f = match self.step() {
                Some(f) => f,
                None => return wrap(either, Want::Eof),
            };
            if self.over(f) {
                return wrap(either, Want::Err);
            }
            if f.op >= 8 {
                return wrap(either, match rfc::form(f.op, &f.payload) {
                    Ok(m) => Want::Msg(m),
                    Err(_) => Want::Err,
                });
            }
            self.frag.push(f);
            if f.fin {
                let parts = std::mem::take(&mut self.frag);
                let data: Vec<u8> = parts.iter().flat_map(|f| f.payload.iter().copied()).collect();
                return wrap(either, match rfc::form(parts[0].op, &data) {
                    Ok(m) => Want::Msg(m),
                    Err(_) => Want::Err,
                });
            }
        }
    }
}
/// One reading API, whatever it belongs to.
trait Side {
    fn msg(&mut self, iter: bool) -> WebSocketResult<OwnedMessage>;
    fn frame(&mut self, iter: bool) -> WebSocketResult<DataFrame>;
    fn raw(&mut self) -> &mut dyn Read;
}
impl<S: Read + Write> Side for Client<S> {
    fn msg(&mut self, iter: bool) -> WebSocketResult<OwnedMessage> {
        if iter { self.incoming_messages().next().expect("endless") } else { self.recv_message() }
    }
    fn frame(&mut self, iter: bool) -> WebSocketResult<DataFrame> {
        if iter { self.incoming_dataframes().next().expect("endless") } else { self.recv_dataframe() }
    }
    fn raw(&mut self) -> &mut dyn Read {
        self.reader_mut()
    }
}
impl<R: Read> Side for Reader<R> {
    fn msg(&mut self, iter: bool) -> WebSocketResult<OwnedMessage> {
        if iter { self.incoming_messages().next().expect("endless") } else { self.recv_message() }
    }
    fn frame(&mut self, iter: bool) -> WebSocketResult<DataFrame> {
        if iter { self.incoming_dataframes().next().expect("endless") } else { self.recv_dataframe() }
    }
    fn raw(&mut self) -> &mut dyn Read {
        &mut self.stream
    }
}
trait Tell {
    fn msg_out(&mut self, m: &OwnedMessage) -> WebSocketResult<()>;
    fn frame_out(&mut self, d: &DataFrame) -> WebSocketResult<()>;
    fn raw_out(&mut self, b: &[u8]) -> io::Result<()>;
}
impl<S: Read + Write> Tell for Client<S> {
    fn msg_out(&mut self, m: &OwnedMessage) -> WebSocketResult<()> {
        self.send_message(m)
    }
    fn frame_out(&mut self, d: &DataFrame) -> WebSocketResult<()> {
        self.send_dataframe(d)
    }
    fn raw_out(&mut self, b: &[u8]) -> io::Result<()> {
        self.writer_mut().write_all(b)
    }
}
impl<W: Write> Tell for Writer<W> {
    fn msg_out(&mut self, m: &OwnedMessage) -> WebSocketResult<()> {
        self.send_message(m)
    }
    fn frame_out(&mut self, d: &DataFrame) -> WebSocketResult<()> {
        self.send_dataframe(d)
    }
    fn raw_out(&mut self, b: &[u8]) -> io::Result<()> {
        self.stream.write_all(b)
    }
}
enum Sent {
    Frame((bool, [bool; 3], u8, Vec<u8>)),
    Bytes(Vec<u8>),
}
fn read_exactly(r: &mut dyn Read, n: usize, hiccups: usize) -> Result<Vec<u8>, String> {
    let mut out = vec![0; n];
    let mut at = 0;
    let mut left = hiccups;
    while at < n {
        match r.read(&mut out[at..]) {
            Ok(0) => return Err(format!("end of stream after {} of {} bytes", at, n)),
            Ok(k) => at += k,
            Err(ref e) if left > 0 && (e.kind() == io::ErrorKind::Interrupted || e.kind() == io::ErrorKind::WouldBlock) => left -= 1,
            Err(e) => return Err(format!("{} after {} of {} bytes", e, at, n)),
        }
    }
    Ok(out)
}
fn judge(want: Want, got: WebSocketResult<OwnedMessage>, m: &mut Model, whr: &str) -> Res {
    let name = match &got {
        Ok(x) => from_owned(x).brief(),
        Err(e) => err_name(e),
    };
    let is_err = |e: &WebSocketError| {
        !matches!(e, WebSocketError::NoDataAvailable)
            && !matches!(e, WebSocketError::IoError(ref e) if e.kind() == io::ErrorKind::WouldBlock)
    };
    match (want, got) {
        (Want::Either(w), got) => {
            if matches!(&got, Err(WebSocketError::ProtocolError(_))) {
                m.dead = true;
                return Ok(());
            }
            judge(*w, got, m, whr)
        }
        (Want::Msg(a), Ok(b)) if a == from_owned(&b) => Ok(()),
        (Want::Block, Err(WebSocketError::IoError(ref e))) if e.kind() == io::ErrorKind::WouldBlock => Ok(()),
        (Want::Eof, Err(WebSocketError::NoDataAvailable)) => {
            m.dead = true;
            Ok(())
        }
        (Want::Err, Err(ref e)) if is_err(e) => {
            m.dead = true;
            Ok(())
        }
        (w, _) => {
            let w = match w {
                Want::Msg(m) => m.brief(),
                Want::Block => "would-block".into(),
                Want::Eof => "the end of the stream".into(),
                _ => "an error".into(),
            };
            fail!("{}: received {}, expected {}", whr, name, w)
        }
    }
}
fn read_op(s: &mut dyn Side, op: &Op, m: &mut Model, bytes: &[u8], hiccups: usize, whr: &str) -> Res {
    if m.dead {
        return Ok(());
    }
    let iter = matches!(op, Op::IterMsg | Op::IterFrame);
    let frame_wise = m.raw_open || (m.frag.is_empty() && matches!(op, Op::Frame | Op::IterFrame));
    match op {
        Op::Raw(n) if m.frag.is_empty() => {
            // up to a frame boundary; a raw reader sees the gates as would-block and goes on
            let from = m.pos();
            for _ in 0..*n {
                if let Some(f) = m.step() {
                    if f.op < 8 {
                        m.raw_open = !f.fin;
                    }
                }
            }
            let to = m.pos();
            // a gate at the position itself is still ahead, those in between are used up
            match read_exactly(s.raw(), to - from, hiccups) {
                Ok(b) => ensure!(b[..] == bytes[from..to], "{}: raw reading yields other bytes than were sent at {}..{}", whr, from, to),
                Err(e) => fail!("{}: raw reading of bytes {}..{}: {}", whr, from, to, e),
            }
            Ok(())
        }
        _ if frame_wise => {
            if m.gate() {
                match s.frame(iter) {
                    Err(WebSocketError::IoError(ref e)) if e.kind() == io::ErrorKind::WouldBlock => return Ok(()),
                    r => fail!("{}: frame {:?} where a would-block was due", whr, r.map(|_| ()).map_err(|e| err_name(&e))),
                }
            }
            let r = s.frame(iter);
            match m.step() {
                None => {
                    m.dead = true;
                    ensure!(matches!(r, Err(WebSocketError::NoDataAvailable)), "{}: a frame read at the end of the stream gives {:?}", whr, r.map(|_| ()).map_err(|e| err_name(&e)));
                }
                Some(f) if m.over(f) => {
                    m.dead = true;
                    ensure!(r.is_err(), "{}: frame of {} bytes over the limit delivered", whr, f.payload.len());
                }
                Some(f) => match r {
                    Ok(d) => {
                        let got = from_dataframe(&d);
                        ensure!(
                            got.fin == f.fin && got.rsv == f.rsv && got.op == f.op && got.payload == f.payload,
                            "{}: frame op {} of {} bytes where op {} of {} bytes was due", whr, got.op, got.payload.len(), f.op, f.payload.len()
                        );
                        if f.op < 8 {
                            m.raw_open = !f.fin;
                        }
                    }
                    Err(e) => fail!("{}: frame refused: {}", whr, err_name(&e)),
                },
            }
            Ok(())
        }
        _ => {
            let w = m.message();
            let got = s.msg(iter);
            judge(w, got, m, whr)
        }
    }
}
fn write_op(t: &mut dyn Tell, op: &Op, sent: &mut Vec<Sent>, whr: &str) -> Res {
    let r = match op {
        Op::SendMsg(g) => {
            let m = g.msg();
            sent.push(Sent::Frame((true, [false; 3], m.op(), m.payload())));
            t.msg_out(&to_owned(&m)).map_err(|e| err_name(&e))
        }
        Op::SendFrame(fin, op, p) => {
            let f = Frame::new(*fin, *op, p.bytes());
            sent.push(Sent::Frame((*fin, [false; 3], *op, p.bytes())));
            t.frame_out(&dataframe(&f)).map_err(|e| err_name(&e))
        }
        Op::Write(b) => {
            sent.push(Sent::Bytes(b.clone()));
            t.raw_out(b).map_err(|e| e.to_string())
        }
        _ => return Ok(()),
    };
    match r {
        Ok(()) => Ok(()),
        Err(e) => fail!("{}: sending {:?} fails: {}", whr, op, e),
    }
}
fn is_write(op: &Op) -> bool {
    matches!(op, Op::SendMsg(_) | Op::SendFrame(..) | Op::Write(_))
}
fn c01_cut(c: &CutCase, o: &mut Obs) -> Res {
    let mut frames: Vec<Frame> = c.items.iter().flat_map(|i| i.frames()).collect();
    for i in 0..c.open {
        frames.push(Frame::new(false, if i == 0 { 2 } else { 0 }, vec![i; i as usize]));
    }
    gen::mask_frames(&mut frames, c.role.expects_mask(), c.seed);
    let bytes = gen::wire(&frames);
    let ends = gen::ends(&frames);
    let _flavour = Flavour::of(&bytes);
    let limits = c.limit.map(|(frame, v)| if frame { (v as u64, 1 << 30) } else { (1 << 30, v as u64) });
    let gated: Vec<bool> = (0..frames.len()).map(|i| c.gates >> (i % 32) & 1 == 1).collect();
    let mut head = c.role.head();
    if c.fill > 0 {
        head.truncate(head.len() - 2);
        head.extend(format!("X-Fill: {}\r\n\r\n", "f".repeat(c.fill as usize)).bytes());
    }
    let rx = Pipe::with(&head);
    rx.push(&bytes);
    rx.close();
    let tx = Pipe::new();
    let mut io = Io::new(&rx, &tx, Mode::Blocking).plans(&c.plan, &c.wplan);
    io.calm_until = head.len();
    io.rplan.marks = rfc::marks(&bytes).into_iter().map(|m| m + head.len()).collect();
    io.gates = (0..frames.len()).filter(|i| gated[*i]).map(|i| head.len() + ends[i]).collect();
    let mut m = Model {
        frames: &frames,
        ends: ends.clone(),
        gates: gated,
        at: 0,
        gate_used: false,
        frag: vec![],
        raw_open: false,
        limits,
        dead: false,
    };
    let hiccups = (bytes.len() + 100) * 8;
    let own = own_head_len(c.role);
    let mut sent = vec![];
    let mut conn = match sync_conn(c.role, pair(io, &tx), limits) {
        Ok(x) => x,
        Err(e) => fail!("handshake: {}", e),
    };
    for op in &c.pre {
        if is_write(op) {
            write_op(&mut conn, op, &mut sent, "before")?;
        } else {
            read_op(&mut conn, op, &mut m, &bytes, hiccups, "before")?;
        }
    }
    o.class(format!("{:?}/{:?}", c.role, c.cut));
    o.class_if(!m.frag.is_empty(), "inside a fragmented message");
    o.class_if(m.raw_open, "between frames read singly");
    o.class_if(m.dead, "after the end or an error");
    o.class_if(limits.is_some(), "limits");
    o.class_if(head.len() > 4096, "grown buffer");
    let at = m.pos();
    let claim = !m.dead;
    o.nontrivial(c.cut != Cut::Nothing && at > 0 && claim && at < bytes.len());
    match c.cut {
        Cut::Nothing => {
            for op in &c.post {
                if is_write(op) {
                    write_op(&mut conn, op, &mut sent, "connection")?;
                } else {
                    read_op(&mut conn, op, &mut m, &bytes, hiccups, "connection")?;
                }
            }
            for _ in 0..2 * frames.len() + 2 {
                read_op(&mut conn, &Op::Msg, &mut m, &bytes, hiccups, "connection, rest")?;
            }
        }
        Cut::Split => {
            let (mut r, mut w) = match conn.split() {
                Ok(x) => x,
                Err(e) => fail!("split: {}", e),
            };
            for op in &c.post {
                if is_write(op) {
                    write_op(&mut w, op, &mut sent, "split writer")?;
                } else {
                    read_op(&mut r, op, &mut m, &bytes, hiccups, "split reader")?;
                }
            }
            for _ in 0..2 * frames.len() + 2 {
                read_op(&mut r, &Op::Msg, &mut m, &bytes, hiccups, "split reader, rest")?;
            }
        }
        Cut::IntoStream => {
            let (mut s, b) = conn.into_stream();
            let mut rest = match b {
                Some((buf, pos, cap)) => {
                    ensure!(pos <= cap && cap <= buf.len(), "returned buffer of {} bytes has position {} and end {}", buf.len(), pos, cap);
                    buf[pos..cap].to_vec()
                }
                None => vec![],
            };
            let more = rx.len();
            match read_exactly(&mut s, more, hiccups) {
                Ok(v) => rest.extend(v),
                Err(e) => fail!("the returned stream does not read on: {}", e),
            }
            if claim {
                ensure!(
                    rest[..] == bytes[at..],
                    "the returned buffer and stream hold {} bytes, the connection had not consumed {}", rest.len(), bytes.len() - at
                );
            }
            for op in &c.post {
                if let Op::Write(b) = op {
                    sent.push(Sent::Bytes(b.clone()));
                    if let Err(e) = s.write_all(b) {
                        fail!("the returned stream does not write: {}", e);
                    }
                }
            }
        }
    }
    // what was sent, before and after
    let all = tx.take();
    let mut out = &all[own.min(all.len())..];
    for (i, s) in sent.iter().enumerate() {
        match s {
            Sent::Bytes(b) => {
                ensure!(out.len() >= b.len() && out[..b.len()] == b[..], "raw bytes of write {} do not arrive as given", i);
                out = &out[b.len()..];
            }
            Sent::Frame(e) => match match_frame(out, e, c.role.masks()) {
                Ok(n) => out = &out[n..],
                Err(x) => fail!("frame of write {}: {}", i, x),
            },
        }
    }
    ensure!(out.is_empty(), "{} bytes more than was sent", out.len());
    Ok(())
}

// ------------------------------------------------------------------------------- C01, asynchronous

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PartsCase {
    role: Role,
    items: Vec<Item>,
    open: u8,
    seed: u32,
    plan: Vec<u8>,
    wplan: Vec<u8>,
    polls: u8,
    out: Vec<GMsg>,
    /// how many of them are handed over before the cut
    before: u8,
    flush: bool,
    limit: Option<u16>,
    /// 0 from_parts, 1 stream split in two and reunited
    how: bool,
}
fn c01_parts(c: &PartsCase, o: &mut Obs) -> Res {
    let mut frames: Vec<Frame> = c.items.iter().flat_map(|i| i.frames()).collect();
    for i in 0..c.open {
        frames.push(Frame::new(false, if i == 0 { 2 } else { 0 }, vec![i; i as usize]));
    }
    gen::mask_frames(&mut frames, c.role.expects_mask(), c.seed);
    let bytes = gen::wire(&frames);
    let ends = gen::ends(&frames);
    let _flavour = Flavour::of(&bytes);
    let limits = c.limit.map(|v| (v as u64, 1u64 << 30));
    // with a limit, the frames up to the first too big one count
    let stop = match limits {
        Some((l, _)) => frames.iter().position(|f| f.payload.len() as u64 > l),
        None => None,
    };
    let e = rfc::reassemble(&frames[..stop.unwrap_or(frames.len())], c.role.expects_mask());
    let rx = Pipe::with(&c.role.head());
    rx.push(&bytes);
    rx.close();
    let tx = Pipe::new();
    let mut io = Io::new(&rx, &tx, Mode::Async).plans(&c.plan, &c.wplan);
    let hl = c.role.head().len();
    io.rplan.marks = rfc::marks(&bytes).into_iter().map(|m| m + hl).collect();
    let polls = (c.plan.len() + c.wplan.len() + 8) * (bytes.len() + 600 + c.out.iter().map(|g| g.msg().payload().len() + 20).sum::<usize>()) + 100;
    let conn = match async_conn(c.role, io, limits, polls) {
        Ok(x) => x,
        Err(e) => fail!("handshake: {}", e),
    };
    let own = own_head_len(c.role);
    let mut h = Hand::new(conn);
    let mut got: Vec<Msg> = vec![];
    let mut ended = false;
    let mut err = None;
    let nb = (c.before as usize).min(c.out.len());
    let mut handed = 0;
    for i in 0..(c.polls as usize).max(nb) {
        if i < c.polls as usize && !ended && err.is_none() {
            match h.poll_item() {
                Ok(Async::Ready(Some(m))) => got.push(from_owned(&m)),
                Ok(Async::Ready(None)) => ended = true,
                Ok(Async::NotReady) => {}
                Err(e) => err = Some(err_name(&e)),
            }
        }
        if i < nb {
            match h.send(to_owned(&c.out[i].msg()), polls) {
                Driven::Ok(()) => handed += 1,
                r => fail!("send: {}", r.kind()),
            }
        }
    }
    let _ = handed;
    if c.flush {
        match h.flush(polls) {
            Driven::Ok(()) => {}
            r => fail!("flush: {}", r.kind()),
        }
    }
    let mid = got.len();
    let mut h = if c.how {
        let parts = h.into_inner().into_parts();
        // conservation: what is left starts at a frame boundary behind the last message delivered
        if err.is_none() {
            let mut left = parts.read_buf.to_vec();
            left.extend(rx.peek());
            let from = bytes.len().wrapping_sub(left.len());
            ensure!(from <= bytes.len() && bytes[from..] == left[..], "the parts and the stream hold {} bytes which are not the end of the {} sent", left.len(), bytes.len());
            let consumed = if from == 0 { 0 } else {
                match ends.iter().position(|x| *x == from) {
                    Some(k) => k + 1,
                    None => fail!("{} bytes consumed, which is inside a frame", from),
                }
            };
            let whole = e.at.iter().filter(|a| **a < consumed).count();
            ensure!(whole == got.len(), "{} frames consumed hold {} messages, {} were delivered", consumed, whole, got.len());
            o.class_if(consumed > 0 && e.at.iter().all(|a| a + 1 != consumed), "inside a fragmented message");
            o.nontrivial(consumed > 0 && consumed < frames.len());
        }
        let mut all = tx.peek()[own.min(tx.len())..].to_vec();
        all.extend_from_slice(&parts.write_buf);
        let mut out = &all[..];
        for g in &c.out[..nb] {
            let m = g.msg();
            match match_frame(out, &(true, [false; 3], m.op(), m.payload()), c.role.masks()) {
                Ok(n) => out = &out[n..],
                Err(x) => fail!("bytes written and still buffered: {}", x),
            }
        }
        ensure!(out.is_empty(), "{} bytes more than was sent", out.len());
        Hand::new(Framed::from_parts(parts))
    } else {
        use futures::Stream;
        let (sink, stream) = h.into_inner().split();
        o.nontrivial(!got.is_empty());
        match sink.reunite(stream) {
            Ok(f) => Hand::new(f),
            Err(_) => fail!("the halves do not fit together"),
        }
    };
    while !ended && err.is_none() {
        match h.next(polls) {
            Driven::Ok(Some(m)) => got.push(from_owned(&m)),
            Driven::Ok(None) => ended = true,
            Driven::Err(e) => err = Some(err_name(&e)),
            Driven::Stall => fail!("receiving stalls after the cut"),
        }
        ensure!(got.len() <= e.msgs.len(), "more messages than were sent");
    }
    ensure!(got == e.msgs, "{} messages before and {} after the cut, expected {} ({:?})", mid, got.len() - mid, e.msgs.len(), err);
    ensure!(err.is_some() == stop.is_some() || (err.is_some() && c.open > 0), "the end is reported as {:?} with a too big frame at {:?}", err, stop);
    for g in &c.out[nb..] {
        match h.send(to_owned(&g.msg()), polls) {
            Driven::Ok(()) => {}
            r => fail!("send after the cut: {}", r.kind()),
        }
    }
    match h.flush(polls) {
        Driven::Ok(()) => {}
        r => fail!("flush after the cut: {}", r.kind()),
    }
    let all = tx.take();
    let mut out = &all[own.min(all.len())..];
    for g in &c.out {
        let m = g.msg();
        match match_frame(out, &(true, [false; 3], m.op(), m.payload()), c.role.masks()) {
            Ok(n) => out = &out[n..],
            Err(x) => fail!("bytes written: {}", x),
        }
    }
    ensure!(out.is_empty(), "{} bytes more than was sent", out.len());
    o.class(format!("{:?}/{}", c.role, if c.how { "parts" } else { "halves" }));
    Ok(())
}

// ------------------------------------------------------------------------------- E01

/// Runs a hook when the reader would have to wait for its peer.
pub struct Hooked {
    io: Io,
    hook: Option<Box<dyn FnOnce() + Send>>,
}
impl Read for Hooked {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.hook.is_some() && self.io.rx.len() == 0 {
            (self.hook.take().unwrap())();
        }
        self.io.read(b)
    }
}
impl Write for Hooked {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.io.write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.io.flush()
    }
}
impl AsyncRead for Hooked {}
impl AsyncWrite for Hooked {
    fn shutdown(&mut self) -> futures::Poll<(), io::Error> {
        AsyncWrite::shutdown(&mut self.io)
    }
}
impl Splittable for Hooked {
    type Reader = Hooked;
    type Writer = Io;
    fn split(self) -> io::Result<(Hooked, Io)> {
        // the writing half gets the sending pipe, the reading half a dummy
        let mut r = self;
        let mut w = Io::new(&Pipe::new(), &r.io.tx.clone(), Mode::Blocking);
        w.wplan = std::mem::take(&mut r.io.wplan);
        r.io.tx = Pipe::new();
        Ok((r, w))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Talk {
    client_sync: bool,
    server_sync: bool,
    /// blocking ends are split first
    split: (bool, bool),
    from_client: Vec<GMsg>,
    from_server: Vec<GMsg>,
    /// server messages sent before the client has read the response
    early: u8,
    sched: Vec<u8>,
    plans: [Vec<u8>; 4],
    /// which end leaves first
    client_ends: bool,
    close: bool,
    fixed_key: bool,
    /// messages and schedule are repeated this often
    #[serde(default = "once")]
    times: u16,
}
fn once() -> u16 {
    1
}
enum End2 {
    Sync(Client<Hooked>),
    Split(Reader<Hooked>, Writer<Io>),
    Async(Hand<AsyncClient<Hooked>>),
}
struct Endpoint {
    end: End2,
    name: &'static str,
    polls: usize,
}
impl Endpoint {
    fn is_sync(&self) -> bool {
        !matches!(self.end, End2::Async(_))
    }
    fn send(&mut self, m: &Msg, alt: bool) -> Res {
        let owned = to_owned(m);
        let polls = self.polls;
        let r = match &mut self.end {
            End2::Sync(c) => {
                if alt {
                    c.send_message(&to_message(m)).map_err(|e| err_name(&e))
                } else {
                    c.send_message(&owned).map_err(|e| err_name(&e))
                }
            }
            End2::Split(_, w) => w.send_message(&owned).map_err(|e| err_name(&e)),
            End2::Async(h) => match h.send(owned, polls) {
                Driven::Ok(()) => Ok(()),
                Driven::Err(e) => Err(err_name(&e)),
                Driven::Stall => Err("stalls".into()),
            },
        };
        match r {
            Ok(()) => Ok(()),
            Err(e) => fail!("{}: sending {}: {}", self.name, m.brief(), e),
        }
    }
    fn flush(&mut self) -> Res {
        let polls = self.polls;
        if let End2::Async(h) = &mut self.end {
            match h.flush(polls) {
                Driven::Ok(()) => {}
                Driven::Err(e) => fail!("{}: flushing: {}", self.name, err_name(&e)),
                Driven::Stall => fail!("{}: flushing stalls", self.name),
            }
        }
        Ok(())
    }
    /// receives; the outer None means not ready, the inner the end of the stream
    fn recv(&mut self, times: usize) -> Result<Option<Option<Msg>>, Fail> {
        let r = match &mut self.end {
            End2::Sync(c) => c.recv_message(),
            End2::Split(r, _) => r.recv_message(),
            End2::Async(h) => match h.next(times) {
                Driven::Ok(m) => return Ok(Some(m.map(|m| from_owned(&m)))),
                Driven::Stall => return Ok(None),
                Driven::Err(e) => Err(e),
            },
        };
        match r {
            Ok(m) => Ok(Some(Some(from_owned(&m)))),
            Err(WebSocketError::NoDataAvailable) => Ok(Some(None)),
            Err(e) => fail!("{}: receiving: {}", self.name, err_name(&e)),
        }
    }
}
struct Flow {
    name: &'static str,
    msgs: Vec<Msg>,
    sent: usize,
    got: usize,
}
impl Flow {
    fn take(&mut self, m: Msg) -> Res {
        ensure!(self.got < self.sent, "{}: {} received, though all {} sent messages were received before", self.name, m.brief(), self.sent);
        ensure!(
            m == self.msgs[self.got],
            "{}: message {} is received as {}, sent was {}", self.name, self.got, m.brief(), self.msgs[self.got].brief()
        );
        self.got += 1;
        Ok(())
    }
}
fn talk() -> BoxedStrategy<Talk> {
    let c = |big: bool| {
        (
            (any::<bool>(), any::<bool>(), any::<(bool, bool)>()),
            gen::many(gen::gmsg(big), 0..if big { 3 } else { 8 }, if big { 12 } else { 300 }),
            gen::many(gen::gmsg(big), 0..if big { 3 } else { 8 }, if big { 12 } else { 300 }),
            prop_oneof![1 => Just(0u8), 1 => 0u8..5],
            vec(any::<u8>(), 0..40),
            proptest::array::uniform4(if big { fast_plan() } else { plan() }),
            any::<(bool, bool, bool)>(),
        )
    };
    prop_oneof![5 => c(false), 1 => c(true)]
        .prop_map(|((client_sync, server_sync, split), from_client, from_server, early, sched, plans, (client_ends, close, fixed_key))| Talk {
            client_sync, server_sync, split, from_client, from_server, early, sched, plans, client_ends, close, fixed_key, times: 1,
        })
        .boxed()
}
/// a conversation of hundreds of messages
fn long_talk() -> BoxedStrategy<Talk> {
    (talk(), prop_oneof![3 => 5u16..60, 1 => 60u16..400])
        .prop_map(|(mut t, times)| {
            let size: usize = t.from_client.iter().chain(&t.from_server).map(|g| g.msg().payload().len() + 20).sum();
            t.times = times.min((400_000 / size.max(1)) as u16).max(2);
            t
        })
        .boxed()
}
/// a conversation with messages of megabytes
fn large_talk() -> BoxedStrategy<Talk> {
    let side = || (vec(gen::gmsg(false), 0..2), vec(gen::huge_data(), 0..2), any::<bool>()).prop_map(|(mut a, b, front)| {
        if front {
            a.splice(0..0, b);
        } else {
            a.extend(b);
        }
        a
    });
    (talk(), side(), side(), proptest::array::uniform4(gen::huge_plan()))
        .prop_map(|(mut t, up, down, mut plans)| {
            // a client masks all that is left at every write
            plans[1] = vec![];
            t.from_client = up;
            t.from_server = down;
            t.plans = plans;
            t
        })
        .boxed()
}
fn e01_talk(c: &Talk, o: &mut Obs) -> Res {
    if c.times > 1 {
        let mut d = c.clone();
        d.times = 1;
        d.from_client = (0..c.times).flat_map(|_| c.from_client.iter().cloned()).collect();
        d.from_server = (0..c.times).flat_map(|_| c.from_server.iter().cloned()).collect();
        d.sched = (0..c.times).flat_map(|_| c.sched.iter().copied()).collect();
        return e01_talk(&d, o);
    }
    let c2s = Pipe::new();
    let s2c = Pipe::new();
    let size = |v: &[GMsg]| v.iter().map(|g| g.msg().payload().len() + 20).sum::<usize>();
    let steps: usize = c.plans.iter().map(|p| p.len() + 2).sum();
    let polls = steps * (size(&c.from_client) + size(&c.from_server) + 1200) + 200;
    let mut cio = Io::new(&s2c, &c2s, if c.client_sync { Mode::Blocking } else { Mode::Async }).plans(&c.plans[0], &c.plans[1]);
    let mut sio = Io::new(&c2s, &s2c, if c.server_sync { Mode::Blocking } else { Mode::Async }).plans(&c.plans[2], &c.plans[3]);
    if c.client_sync {
        cio.calm_until = own_head_len(Role::Server);
    }
    if c.server_sync {
        // nothing but the request can arrive before the response is out
        sio.calm_until = own_head_len(Role::Client);
    }
    let mut up = Flow { name: "client to server", msgs: c.from_client.iter().map(|g| g.msg()).collect(), sent: 0, got: 0 };
    let mut down = Flow { name: "server to client", msgs: c.from_server.iter().map(|g| g.msg()).collect(), sent: 0, got: 0 };
    let early = (c.early as usize).min(down.msgs.len());

    // the server's part of the handshake, run once the request is complete
    let slot: Arc<Mutex<Option<Result<Endpoint, Fail>>>> = Arc::new(Mutex::new(None));
    let slot2 = slot.clone();
    let (server_sync, server_split) = (c.server_sync, c.split.1);
    let first: Vec<Msg> = down.msgs[..early].to_vec();
    let serve = move || {
        let sio = Hooked { io: sio, hook: None };
        let r = (|| -> Result<Endpoint, Fail> {
            let end = if server_sync {
                let u = match SyncIntoWs::into_ws(sio) {
                    Ok(u) => u,
                    Err((_, _, _, e)) => fail!("server: request refused: {:?}", e),
                };
                let cl = match u.accept() {
                    Ok(c) => c,
                    Err((_, e)) => fail!("server: accept: {}", e),
                };
                if server_split {
                    match cl.split() {
                        Ok((r, w)) => End2::Split(r, w),
                        Err(e) => fail!("server: split: {}", e),
                    }
                } else {
                    End2::Sync(cl)
                }
            } else {
                let u = match drive(AsyncIntoWs::into_ws(sio), polls) {
                    Driven::Ok(u) => u,
                    Driven::Err((_, _, _, e)) => fail!("server: request refused: {:?}", e),
                    Driven::Stall => fail!("server: the whole request is there, but the upgrade stalls"),
                };
                match drive(u.accept(), polls) {
                    Driven::Ok((c, _)) => End2::Async(Hand::new(c)),
                    Driven::Err(e) => fail!("server: accept: {}", err_name(&e)),
                    Driven::Stall => fail!("server: accept stalls"),
                }
            };
            let mut ep = Endpoint { end, name: "server", polls };
            for (i, m) in first.iter().enumerate() {
                ep.send(m, i % 2 == 1)?;
            }
            ep.flush()?;
            Ok(ep)
        })();
        *slot2.lock().unwrap() = Some(r);
    };
    let mut b = ClientBuilder::new("ws://h.example/chat").unwrap();
    if c.fixed_key {
        b = b.key(KEY);
    }
    let client = if c.client_sync {
        let s = Hooked { io: cio, hook: Some(Box::new(serve)) };
        match b.connect_on(s) {
            Ok(cl) => {
                let end = if c.split.0 {
                    match cl.split() {
                        Ok((r, w)) => End2::Split(r, w),
                        Err(e) => fail!("client: split: {}", e),
                    }
                } else {
                    End2::Sync(cl)
                };
                Ok(end)
            }
            Err(e) => Err(err_name(&e)),
        }
    } else {
        let s = Hooked { io: cio, hook: None };
        let f = b.async_connect_on(s);
        let mut sp = futures::executor::spawn(f);
        let mut serve = Some(serve);
        let mut res = Err("stalls".to_string());
        struct No;
        impl futures::executor::Notify for No {
            fn notify(&self, _: usize) {}
        }
        let no = Arc::new(No);
        for _ in 0..polls {
            match sp.poll_future_notify(&no, 0) {
                Ok(Async::Ready((cl, _))) => {
                    res = Ok(End2::Async(Hand::new(cl)));
                    break;
                }
                Ok(Async::NotReady) => {}
                Err(e) => {
                    res = Err(err_name(&e));
                    break;
                }
            }
            if serve.is_some() && c2s.peek().windows(4).any(|w| w == b"\r\n\r\n") {
                (serve.take().unwrap())();
            }
        }
        res
    };
    let served = slot.lock().unwrap().take();
    let mut server = match served {
        Some(r) => r?,
        None => fail!("client: no complete request was sent ({:?})", client.err()),
    };
    let mut client = match client {
        Ok(end) => Endpoint { end, name: "client", polls },
        Err(e) => fail!("client: connecting: {}", e),
    };
    down.sent = early;
    o.class(format!(
        "client {} server {}",
        if c.client_sync { "blocking" } else { "asynchronous" },
        if c.server_sync { "blocking" } else { "asynchronous" }
    ));
    o.class_if(early > 0, "messages right behind the response");

    for (k, s) in c.sched.iter().enumerate() {
        match s % 6 {
            0 if up.sent < up.msgs.len() => {
                client.send(&up.msgs[up.sent], k % 2 == 1)?;
                up.sent += 1;
            }
            1 if down.sent < down.msgs.len() => {
                server.send(&down.msgs[down.sent], k % 2 == 1)?;
                down.sent += 1;
            }
            2 => {
                if client.is_sync() {
                    if down.got < down.sent {
                        server.flush()?;
                        match client.recv(1)? {
                            Some(Some(m)) => down.take(m)?,
                            r => fail!("client: {:?} although {} messages are on the way", r.map(|_| "end"), down.sent - down.got),
                        }
                    }
                } else if let Some(r) = client.recv(1 + (*s as usize >> 4))? {
                    match r {
                        Some(m) => down.take(m)?,
                        None => fail!("client: the connection ends early"),
                    }
                }
            }
            3 => {
                if server.is_sync() {
                    if up.got < up.sent {
                        client.flush()?;
                        match server.recv(1)? {
                            Some(Some(m)) => up.take(m)?,
                            r => fail!("server: {:?} although {} messages are on the way", r.map(|_| "end"), up.sent - up.got),
                        }
                    }
                } else if let Some(r) = server.recv(1 + (*s as usize >> 4))? {
                    match r {
                        Some(m) => up.take(m)?,
                        None => fail!("server: the connection ends early"),
                    }
                }
            }
            4 => client.flush()?,
            5 => server.flush()?,
            _ => {}
        }
    }
    while up.sent < up.msgs.len() {
        client.send(&up.msgs[up.sent], false)?;
        up.sent += 1;
    }
    while down.sent < down.msgs.len() {
        server.send(&down.msgs[down.sent], true)?;
        down.sent += 1;
    }
    client.flush()?;
    server.flush()?;
    // one end receives everything and leaves, then the other one
    let (mut leaver, mut lflow, mut stayer, mut sflow) =
        if c.client_ends { (client, down, server, up) } else { (server, up, client, down) };
    while lflow.got < lflow.sent {
        match leaver.recv(polls)? {
            Some(Some(m)) => lflow.take(m)?,
            Some(None) => fail!("{}: the stream ends after {} of {} messages", lflow.name, lflow.got, lflow.sent),
            None => fail!("{}: receiving stalls after {} of {} messages", lflow.name, lflow.got, lflow.sent),
        }
    }
    match leaver.end {
        End2::Async(mut h) if c.close => match h.close(polls) {
            Driven::Ok(()) => {}
            r => fail!("{}: closing: {}", leaver.name, r.kind()),
        },
        e => drop(e),
    }
    while sflow.got < sflow.sent {
        match stayer.recv(polls)? {
            Some(Some(m)) => sflow.take(m)?,
            Some(None) => fail!("{}: the stream ends after {} of {} messages", sflow.name, sflow.got, sflow.sent),
            None => fail!("{}: receiving stalls after {} of {} messages", sflow.name, sflow.got, sflow.sent),
        }
    }
    match stayer.recv(polls)? {
        Some(None) => {}
        Some(Some(m)) => sflow.take(m)?,
        None => fail!("{}: the end of the stream is never seen", sflow.name),
    }
    o.nontrivial(lflow.sent + sflow.sent >= 2);
    Ok(())
}

// ------------------------------------------------------------------------------- E02

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Where {
    ClientOn,
    ClientAsync,
    Server,
    ServerPair,
    ServerAsync,
    Receiver,
    Codec,
    FrameCodec,
}
const WHERE: &[Where] = &[
    Where::ClientOn, Where::ClientAsync, Where::Server, Where::ServerPair, Where::ServerAsync,
    Where::Receiver, Where::Codec, Where::FrameCodec,
];
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LimCase {
    place: Where,
    split: bool,
    /// None leaves the setting alone; with a server both or none are given
    frame: Option<u64>,
    msg: Option<u64>,
    headers: Option<Extra>,
    /// payload lengths relative to the limits
    probe: Probe,
    plan: Vec<u8>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Probe {
    /// a frame of the limit plus this, payload withheld when big
    Frame(i8),
    /// fragments: each of this size; the message so far relative to the limit decides
    Frags(u16, u8),
    /// fragments up to just below or above the limit
    Near(u8, i16),
}
/// A data source announced in pieces: literal bytes and runs of zeros, made on the fly.
pub struct Source {
    parts: Vec<(Vec<u8>, u64)>,
    at: usize,
    lit: usize,
    run: u64,
    pub taken: Arc<std::sync::atomic::AtomicU64>,
    mode: Mode,
    out: Pipe,
    /// reading on at the end gives would-block instead of the end
    open: bool,
}
impl Source {
    fn new(parts: Vec<(Vec<u8>, u64)>, mode: Mode, open: bool) -> Source {
        Source { parts, at: 0, lit: 0, run: 0, taken: Default::default(), mode, out: Pipe::new(), open }
    }
}
impl Read for Source {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        loop {
            let (l, n) = match self.parts.get(self.at) {
                Some(p) => p,
                None if self.open => return Err(io::Error::new(io::ErrorKind::WouldBlock, "nothing more")),
                None => return Ok(0),
            };
            let k = if self.lit < l.len() {
                let k = b.len().min(l.len() - self.lit);
                b[..k].copy_from_slice(&l[self.lit..self.lit + k]);
                self.lit += k;
                k
            } else if self.run < *n {
                let k = (b.len() as u64).min(*n - self.run) as usize;
                b[..k].fill(0);
                self.run += k as u64;
                k
            } else {
                self.at += 1;
                self.lit = 0;
                self.run = 0;
                continue;
            };
            self.taken.fetch_add(k as u64, std::sync::atomic::Ordering::Relaxed);
            return Ok(k);
        }
    }
}
impl Write for Source {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let _ = self.mode;
        self.out.push(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl AsyncRead for Source {
    unsafe fn prepare_uninitialized_buffer(&self, _: &mut [u8]) -> bool {
        false
    }
}
impl AsyncWrite for Source {
    fn shutdown(&mut self) -> futures::Poll<(), io::Error> {
        Ok(Async::Ready(()))
    }
}
impl Splittable for Source {
    type Reader = Source;
    type Writer = io::Sink;
    fn split(self) -> io::Result<(Source, io::Sink)> {
        Ok((self, io::sink()))
    }
}
/// what receiving came to: payload sizes (kinds dropped) and how it ended
struct Took {
    sizes: Vec<u64>,
    end: End,
    blocked: bool,
}
fn lim_run(
    place: Where,
    split: bool,
    frame: Option<u64>,
    msg: Option<u64>,
    headers: Option<&Headers>,
    parts: Vec<(Vec<u8>, u64)>,
    open: bool,
    want: usize,
) -> Result<Took, Fail> {
    let is_async = matches!(place, Where::ClientAsync | Where::ServerAsync | Where::Codec | Where::FrameCodec);
    let mode = if is_async { Mode::Async } else { Mode::Blocking };
    let role = match place {
        Where::ClientOn | Where::ClientAsync => Role::Client,
        _ => Role::Server,
    };
    let mut all = parts;
    let handshake = matches!(place, Where::ClientOn | Where::ClientAsync | Where::Server | Where::ServerAsync);
    if handshake {
        all.insert(0, (role.head(), 0));
    }
    let src = Source::new(all, mode, open);
    let mut t = Took { sizes: vec![], end: End::Eof, blocked: false };
    let size = |m: &OwnedMessage| match m {
        OwnedMessage::Text(t) => t.len() as u64,
        OwnedMessage::Binary(b) => b.len() as u64,
        _ => 0,
    };
    macro_rules! pump {
        ($next:expr) => {
            loop {
                if t.sizes.len() > want {
                    break;
                }
                match $next {
                    Ok(m) => t.sizes.push(size(&m)),
                    Err(WebSocketError::NoDataAvailable) => break,
                    Err(WebSocketError::IoError(ref e)) if e.kind() == io::ErrorKind::WouldBlock => {
                        t.blocked = true;
                        break;
                    }
                    Err(e) => {
                        t.end = End::Err(err_name(&e));
                        break;
                    }
                }
            }
        };
    }
    macro_rules! hand {
        ($h:expr, $size:expr) => {
            loop {
                if t.sizes.len() > want {
                    break;
                }
                match $h.next(4) {
                    Driven::Ok(Some(m)) => t.sizes.push($size(&m)),
                    Driven::Ok(None) => break,
                    Driven::Stall => {
                        t.blocked = true;
                        break;
                    }
                    // a codec whose stream ends inside a frame says so with an i/o error
                    Driven::Err(WebSocketError::IoError(_)) if !open => break,
                    Driven::Err(e) => {
                        t.end = End::Err(err_name(&e));
                        break;
                    }
                }
            }
        };
    }
    let build = || {
        let mut b = ClientBuilder::new("ws://h.example/chat").unwrap().key(KEY);
        if let Some(f) = frame {
            b = b.max_dataframe_size(f as usize);
        }
        if let Some(m) = msg {
            b = b.max_message_size(m as usize);
        }
        b
    };
    let both = match (frame, msg) {
        (Some(f), Some(m)) => Some((f, m)),
        _ => None,
    };
    macro_rules! sync_client {
        ($c:expr) => {{
            let mut c: Client<Source> = $c;
            if split {
                match c.split() {
                    Ok((mut r, _w)) => pump!(r.recv_message()),
                    Err(e) => fail!("split: {}", e),
                }
            } else {
                pump!(c.recv_message())
            }
        }};
    }
    match place {
        Where::ClientOn => match build().connect_on(src) {
            Ok(c) => sync_client!(c),
            Err(e) => fail!("connect_on: {}", err_name(&e)),
        },
        Where::ClientAsync => match drive(build().async_connect_on(src), 100) {
            Driven::Ok((c, _)) => {
                let mut h = Hand::new(c);
                hand!(h, size)
            }
            r => fail!("async_connect_on: {}", r.kind()),
        },
        Where::Server => {
            let u = match SyncIntoWs::into_ws(src) {
                Ok(u) => u,
                Err((_, _, _, e)) => fail!("into_ws: {:?}", e),
            };
            match accept_sync(u, headers, both) {
                Ok(c) => sync_client!(c),
                Err((_, e)) => fail!("accept: {}", e),
            }
        }
        Where::ServerPair => {
            let head = request_head();
            let mut r = hyper::buffer::BufReader::new(&head[..]);
            let req = match hyper::http::h1::parse_request(&mut r) {
                Ok(q) => q,
                Err(e) => inconclusive!("request: {}", e),
            };
            let u = match SyncIntoWs::into_ws(RequestStreamPair(src, req)) {
                Ok(u) => u,
                Err((_, _, e)) => fail!("into_ws: {:?}", e),
            };
            match accept_sync(u, headers, both) {
                Ok(c) => sync_client!(c),
                Err((_, e)) => fail!("accept: {}", e),
            }
        }
        Where::ServerAsync => {
            let u = match drive(AsyncIntoWs::into_ws(src), 100) {
                Driven::Ok(u) => u,
                r => fail!("into_ws: {}", r.kind()),
            };
            match drive(accept_async(u, headers, both), 100) {
                Driven::Ok((c, _)) => {
                    let mut h = Hand::new(c);
                    hand!(h, size)
                }
                r => fail!("accept: {}", r.kind()),
            }
        }
        Where::Receiver => {
            let mut src = src;
            let mut r = match both {
                Some((f, m)) => Receiver::new_with_limits(true, f as usize, m as usize),
                None => Receiver::new(true),
            };
            use websocket::ws::receiver::Receiver as _;
            pump!(r.recv_message(&mut src))
        }
        Where::Codec => {
            let c: MessageCodec<OwnedMessage> = match both {
                Some((f, m)) => MessageCodec::new_with_limits(Context::Server, f as usize, m as usize),
                None => MessageCodec::default(Context::Server),
            };
            use tokio_codec::Decoder;
            let mut h = Hand::new(c.framed(src));
            hand!(h, size)
        }
        Where::FrameCodec => {
            let c: DataFrameCodec<Box<dyn websocket::ws::dataframe::DataFrame>> = match frame {
                Some(f) => DataFrameCodec::new_with_limits(Context::Server, f as usize),
                None => DataFrameCodec::new(Context::Server),
            };
            use tokio_codec::Decoder;
            let mut h = Hand::new(c.framed(src));
            hand!(h, |d: &DataFrame| d.data.len() as u64)
        }
    }
    Ok(t)
}
const DEF_FRAME: u64 = 100 * 1024 * 1024;
const DEF_MSG: u64 = 200 * 1024 * 1024;
fn header(fin: bool, op: u8, place: Where, len: u64) -> Vec<u8> {
    let mask = match place {
        Where::ClientOn | Where::ClientAsync => None,
        // zeros masked with a zero key
        _ => Some([0u8; 4]),
    };
    rfc::encode_header(fin, [false; 3], op, mask, len)
}
fn lim_case() -> BoxedStrategy<LimCase> {
    let val = || prop_oneof![
        4 => 0u64..4, 8 => 0u64..200, 8 => 100u64..70_000, 4 => 65_530u64..65_540,
        // "no limit": what the library cannot count is as good as unlimited
        1 => select(vec![1u64 << 31, (1 << 31) + 5, u32::MAX as u64 - 1, u32::MAX as u64, 1 << 32, (1 << 32) + 100, 3 << 32, 1 << 40, i64::MAX as u64, u64::MAX]),
    ];
    (
        select(WHERE.to_vec()),
        any::<bool>(),
        proptest::option::weighted(0.8, val()),
        proptest::option::weighted(0.8, val()),
        proptest::option::weighted(0.3, custom(&["X-A", "Server"], false)),
        prop_oneof![
            4 => (-2i8..3).prop_map(Probe::Frame),
            2 => (prop_oneof![0u16..300, 0u16..4000], 1u8..12).prop_map(|(a, b)| Probe::Frags(a, b)),
            3 => (1u8..5, -400i16..400).prop_map(|(a, b)| Probe::Near(a, b)),
        ],
        plan(),
    )
        .prop_map(|(place, split, frame, msg, headers, probe, plan)| LimCase { place, split, frame, msg, headers, probe, plan })
        .boxed()
}
fn e02_limits(c: &LimCase, o: &mut Obs) -> Res {
    let client = matches!(c.place, Where::ClientOn | Where::ClientAsync);
    let (frame, msg) = if client || c.place == Where::FrameCodec {
        (c.frame, c.msg)
    } else {
        // the other places take both limits or none
        match (c.frame, c.msg) {
            (Some(f), Some(m)) => (Some(f), Some(m)),
            _ => (None, None),
        }
    };
    const MOST: u64 = u32::MAX as u64;
    let f = frame.unwrap_or(DEF_FRAME);
    let m = msg.unwrap_or(DEF_MSG);
    let unlimited = f > MOST;
    let f = f.min(MOST);
    let m = m.min(MOST);
    let hs = c.headers.as_ref().map(|x| x.headers());
    let run = |parts: Vec<(Vec<u8>, u64)>, open: bool, want: usize| {
        lim_run(c.place, c.split, frame, msg, hs.as_ref(), parts, open, want)
    };
    o.class(format!("{:?}", c.place));
    o.class(match (frame.is_some(), msg.is_some()) {
        (true, true) => "both limits",
        (true, false) => "frame limit only",
        (false, true) => "message limit only",
        _ => "defaults",
    });
    match &c.probe {
        Probe::Frame(d) => {
            let n = (f as i64 + if unlimited { -(*d as i64).abs() } else { *d as i64 }).max(0) as u64;
            // big payloads are withheld: whether the header is refused shows at once
            let withhold = n > 200_000;
            let t = run(vec![(header(true, 2, c.place, n), if withhold { 0 } else { n })], withhold, 1)?;
            if n > f {
                ensure!(t.sizes.is_empty() && matches!(t.end, End::Err(_)), "a frame of {} bytes over the limit of {} is not refused ({:?}, {:?})", n, f, t.sizes, t.end);
            } else if withhold {
                ensure!(t.blocked, "a frame of {} bytes within the limit of {} is refused: {:?}", n, f, t.end);
            } else {
                ensure!(t.sizes == vec![n] && t.end == End::Eof, "a frame of {} bytes within the limit of {} (messages {}) comes to {:?}, {:?}", n, f, m, t.sizes, t.end);
            }
            o.nontrivial(true);
        }
        probe => {
            if c.place == Where::FrameCodec {
                return Ok(());
            }
            let lens: Vec<u64> = match probe {
                Probe::Frags(n, k) => vec![(*n as u64).min(f); *k as usize],
                Probe::Near(k, d) => {
                    let total = (m.min(400_000) as i64 + *d as i64).max(0) as u64;
                    let k = (*k as u64).max(if f == 0 { 1 } else { (total / f + 1).min(4000) });
                    (0..k).map(|i| (total * (i + 1) / k - total * i / k).min(f)).collect()
                }
                _ => unreachable!(),
            };
            let mut parts = vec![];
            let mut sum = 0;
            let mut must_reject = false;
            let mut must_accept = true;
            for (i, n) in lens.iter().enumerate() {
                parts.push((header(false, if i == 0 { 2 } else { 0 }, c.place, *n), *n));
                sum += n;
                must_reject |= sum > m;
                must_accept &= sum + 64 * (i as u64 + 1) < m;
            }
            let last = 3.min(f);
            parts.push((header(true, 0, c.place, last), last));
            let t = run(parts, false, 1)?;
            if must_reject {
                ensure!(t.sizes.is_empty() && matches!(t.end, End::Err(_)), "fragments of {:?} bytes exceed the limit of {} but come to {:?}, {:?}", brief(&lens), m, t.sizes, t.end);
                o.class("over the message limit");
            } else if must_accept {
                ensure!(t.sizes == vec![sum + last] && t.end == End::Eof, "fragments of {:?} bytes stay below the limit of {} (frames {}) but come to {:?}, {:?}", brief(&lens), m, f, t.sizes, t.end);
                o.class("below the message limit");
            }
            o.nontrivial(must_reject || must_accept);
        }
    }
    Ok(())
}
fn brief(v: &[u64]) -> Vec<u64> {
    v.iter().copied().take(8).collect()
}
/// the defaults with real data
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Defaults {
    place: Where,
    split: bool,
    probe: u8,
    headers: bool,
}
fn e02_defaults(c: &Defaults, o: &mut Obs) -> Res {
    let mib = 1024 * 1024u64;
    // (fragment sizes, last), whether the whole is accepted
    let (frags, last, ok): (Vec<u64>, u64, bool) = match c.probe {
        0 => (vec![], DEF_FRAME, true),
        1 => (vec![DEF_FRAME, DEF_FRAME - mib], mib + mib / 2, true),
        2 => (vec![DEF_FRAME, DEF_FRAME, 1], 5, false),
        3 => (vec![DEF_FRAME - 200, DEF_FRAME - 200], 100, true),
        _ => (vec![DEF_FRAME, DEF_FRAME - 5, 6], 0, false),
    };
    if c.place == Where::FrameCodec && !frags.is_empty() {
        return Ok(());
    }
    let mut parts = vec![];
    for (i, n) in frags.iter().enumerate() {
        parts.push((header(false, if i == 0 { 2 } else { 0 }, c.place, *n), *n));
    }
    parts.push((header(true, if frags.is_empty() { 2 } else { 0 }, c.place, last), last));
    let h = if c.headers { Some(Headers::new()) } else { None };
    let t = lim_run(c.place, c.split, None, None, h.as_ref(), parts, false, 1)?;
    let total: u64 = frags.iter().sum::<u64>() + last;
    if ok {
        ensure!(t.sizes == vec![total] && t.end == End::Eof, "fragments {:?} and {} by default come to {:?}, {:?}", frags, last, t.sizes, t.end);
    } else {
        ensure!(t.sizes.is_empty() && matches!(t.end, End::Err(_)), "fragments {:?} exceed the default limit but come to {:?}, {:?}", frags, t.sizes, t.end);
    }
    o.class(format!("{:?} probe {}", c.place, c.probe));
    o.nontrivial(true);
    Ok(())
}

fn e02_table(c: &Vec<Defaults>, o: &mut Obs) -> Res {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let bad: Mutex<Option<Fail>> = Mutex::new(None);
    std::thread::scope(|s| {
        for _ in 0..6 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if i >= c.len() || bad.lock().unwrap().is_some() {
                    break;
                }
                let mut o = Obs::default();
                let r = match no_panic(|| e02_defaults(&c[i], &mut o)) {
                    Ok(r) => r,
                    Err(p) => Err(Fail::Violation(format!("panic: {}", p))),
                };
                if let Err(e) = r {
                    *bad.lock().unwrap() = Some(match e {
                        Fail::Violation(m) => Fail::Violation(format!("{:?}: {}", c[i], m)),
                        e => e,
                    });
                }
            });
        }
    });
    o.nontrivial(true);
    o.class(format!("table of {}", c.len()));
    match bad.into_inner().unwrap() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

pub fn props() -> Vec<Prop> {
    let _ = AsyncSink::<()>::Ready;
    vec![
        Prop {
            id: "E01",
            level: "1",
            assumptions: &[
                "the blocking handshake may report an interrupted read as an error (reads are only interrupted after it)",
            ],
            suites: vec![suite(
                "talk",
                "a client and a server, each blocking (whole or split) or asynchronous, talking over piecemeal pipes under a generated schedule of sends, receives and flushes; non-trivial: two messages or more",
                opts(600_000, 30_000_000),
                talk,
                e01_talk,
            ),
            suite(
                "long",
                "as talk, with up to several thousand messages; non-trivial: as talk",
                opts(10_000, 300_000).shrink(300),
                long_talk,
                e01_talk,
            ),
            suite(
                "large",
                "as talk, with messages of up to 20 MB; non-trivial: as talk",
                opts(200, 6_000).shrink(200),
                large_talk,
                e01_talk,
            ),
            super::tcp::e01_suite(), super::tcp::e01_bulk_suite()],
        },
        Prop {
            id: "E02",
            level: "1",
            assumptions: &[
                "limits below 4 GiB",
                "between a payload sum and that sum plus 64 bytes per fragment either outcome is accepted at the message limit",
            ],
            suites: vec![
                suite(
                    "limits",
                    "limits of both kinds through the builder, all accept variants, receivers and codecs; frames and fragment sequences around them; non-trivial: the outcome is determined",
                    opts(160_000, 6_000_000),
                    lim_case,
                    e02_limits,
                ),
                super::wire::e02_suite(),
                suite(
                    "defaults",
                    "every place with frames and fragment sequences around the defaults of 100 and 200 MiB, with their data (one case is the whole table of 40); non-trivial: all",
                    opts(1, 10).shards(1).shrink(0).hang(600),
                    || {
                        let all: Vec<(Where, u8)> = WHERE.iter().flat_map(|p| (0u8..5).map(move |k| (*p, k))).collect();
                        let n = all.len();
                        (vec(any::<(bool, bool)>(), n..=n), Just(all))
                            .prop_map(|(bits, all)| {
                                all.into_iter()
                                    .zip(bits)
                                    .map(|((place, probe), (split, headers))| Defaults { place, split, probe, headers })
                                    .collect::<Vec<_>>()
                            })
                            .boxed()
                    },
                    e02_table,
                ),
            ],
        },
        Prop {
            id: "C01",
            level: "1",
            assumptions: &["a blocking receive that would block inside a frame is not resumed"],
            suites: vec![
                suite(
                    "cut",
                    "operations on a blocking connection, then split, taken apart or left whole, then more operations on what results; non-trivial: cut with part of the input consumed",
                    opts(600_000, 30_000_000),
                    cut_case,
                    c01_cut,
                ),
                suite(
                    "parts",
                    "an asynchronous connection taken apart (or split and reunited) after any number of polls and put together again; non-trivial: part of the input consumed",
                    opts(300_000, 15_000_000),
                    || {
                        (
                            (role(), vec(gen::item(false), 1..6), prop_oneof![3 => Just(0u8), 1 => 1u8..4], any::<u32>(), plan(), plan()),
                            (0u8..20, vec(gen::gmsg(false), 0..5), 0u8..5, any::<bool>(), proptest::option::weighted(0.2, 0u16..200), proptest::bool::weighted(0.8)),
                        )
                            .prop_map(|((role, items, open, seed, plan, wplan), (polls, out, before, flush, limit, how))| PartsCase {
                                role, items, open, seed, plan, wplan, polls, out, before, flush, limit, how,
                            })
                            .boxed()
                    },
                    c01_parts,
                ),
            ],
        },
    ]
}
