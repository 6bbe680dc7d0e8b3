//! Uniform access to the library's sending and receiving APIs.
use crate::mock::*;
use crate::rfc::{self, Msg};
use bytes::BytesMut;
use hyper::buffer::BufReader;
use hyper::header::Headers;
use serde::{Deserialize, Serialize};
use std::io::{self, Read, Write};
use tokio_codec::{Decoder, Encoder, Framed};
use websocket::client::r#async::Client as AsyncClient;
use websocket::client::sync::Client;
use websocket::codec::ws::{Context, DataFrameCodec, MessageCodec};
use websocket::dataframe::{DataFrame, Opcode};
use websocket::receiver::{Reader, Receiver};
use websocket::result::{WebSocketError, WebSocketOtherError};
use websocket::sender::{Sender, Writer};
use websocket::server::upgrade::r#async::IntoWs as AsyncIntoWs;
use websocket::stream::sync::{ReadWritePair, Stream};
use websocket::server::upgrade::sync::IntoWs as SyncIntoWs;
use websocket::ws::dataframe::DataFrame as DataFrameTrait;
use websocket::ws::receiver::Receiver as ReceiverTrait;
use websocket::ws::sender::Sender as SenderTrait;
use websocket::ws::Message as MessageTrait;
use websocket::{ClientBuilder, CloseData, Message, OwnedMessage};

pub const KEY: [u8; 16] = *b"0123456789abcdef";

thread_local!(static FLAVOUR: std::cell::Cell<u8> = const { std::cell::Cell::new(0) });
/// While it lives, handshakes of this thread's connections negotiate more than the minimum:
/// 1 a subprotocol, 2 an extension, 4 further headers. Frames must not notice.
pub struct Flavour(());
impl Flavour {
    /// picks one from the bytes of a case (so that a replay has the same)
    pub fn of(seed: &[u8]) -> Flavour {
        let h = crate::engine::fnv(seed, 0x9E3779B97F4A7C15);
        let h = (h ^ h >> 29).wrapping_mul(0xBF58476D1CE4E5B9) >> 40;
        FLAVOUR.with(|f| f.set(if h & 8 == 0 { 0 } else { h as u8 & 7 }));
        Flavour(())
    }
}
impl Drop for Flavour {
    fn drop(&mut self) {
        FLAVOUR.with(|f| f.set(0));
    }
}
fn flavour() -> u8 {
    FLAVOUR.with(|f| f.get())
}
fn extra(f: u8, request: bool) -> String {
    let mut s = String::new();
    if f & 1 != 0 {
        s += if request { "Sec-WebSocket-Protocol: beta, alpha\r\n" } else { "Sec-WebSocket-Protocol: alpha\r\n" };
    }
    if f & 2 != 0 {
        s += "Sec-WebSocket-Extensions: x-thing; p=1\r\n";
    }
    if f & 4 != 0 {
        s += if request { "Origin: http://h.example\r\nCookie: a=b\r\nX-Mask: 1\r\n" } else { "Server: s/1\r\nDate: Thu, 01 Jan 1970 00:00:00 GMT\r\nX-Mask: 1\r\n" };
    }
    s
}
pub fn request_head() -> Vec<u8> {
    format!(
        "GET /chat HTTP/1.1\r\nHost: h.example\r\nConnection: {}\r\nUpgrade: websocket\r\n\
         Sec-WebSocket-Version: 13\r\nSec-WebSocket-Key: {}\r\n{}\r\n",
        if flavour() & 4 != 0 { "keep-alive, Upgrade" } else { "Upgrade" },
        rfc::b64(&KEY),
        extra(flavour(), true)
    )
    .into_bytes()
}
pub fn response_head() -> Vec<u8> {
    response_for(&KEY)
}
pub fn response_for(key: &[u8]) -> Vec<u8> {
    format!(
        "HTTP/1.1 101 Switching Protocols\r\nConnection: Upgrade\r\nUpgrade: websocket\r\n\
         Sec-WebSocket-Accept: {}\r\n{}\r\n",
        rfc::accept_for(key),
        extra(flavour(), false)
    )
    .into_bytes()
}

pub fn to_owned(m: &Msg) -> OwnedMessage {
    match m {
        Msg::Text(t) => OwnedMessage::Text(String::from_utf8(t.clone()).expect("generated text")),
        Msg::Binary(b) => OwnedMessage::Binary(b.clone()),
        Msg::Ping(b) => OwnedMessage::Ping(b.clone()),
        Msg::Pong(b) => OwnedMessage::Pong(b.clone()),
        Msg::Close(None) => OwnedMessage::Close(None),
        Msg::Close(Some((c, r))) => OwnedMessage::Close(Some(CloseData::new(
            *c,
            String::from_utf8(r.clone()).expect("generated reason"),
        ))),
    }
}
pub fn to_message(m: &Msg) -> Message<'static> {
    match m {
        Msg::Text(t) => Message::text(String::from_utf8(t.clone()).expect("generated text")),
        Msg::Binary(b) => Message::binary(b.clone()),
        Msg::Ping(b) => Message::ping(b.clone()),
        Msg::Pong(b) => Message::pong(b.clone()),
        Msg::Close(None) => Message::close(),
        Msg::Close(Some((c, r))) => {
            Message::close_because(*c, String::from_utf8(r.clone()).expect("generated reason"))
        }
    }
}
pub fn from_owned(m: &OwnedMessage) -> Msg {
    match m {
        OwnedMessage::Text(t) => Msg::Text(t.clone().into_bytes()),
        OwnedMessage::Binary(b) => Msg::Binary(b.clone()),
        OwnedMessage::Ping(b) => Msg::Ping(b.clone()),
        OwnedMessage::Pong(b) => Msg::Pong(b.clone()),
        OwnedMessage::Close(None) => Msg::Close(None),
        OwnedMessage::Close(Some(c)) => Msg::Close(Some((c.status_code, c.reason.clone().into_bytes()))),
    }
}
pub fn dataframe(f: &rfc::Frame) -> DataFrame {
    DataFrame {
        finished: f.fin,
        reserved: f.rsv,
        opcode: Opcode::new(f.op).expect("opcode nibble"),
        data: f.payload.clone(),
    }
}
pub fn from_dataframe(d: &DataFrame) -> rfc::Frame {
    rfc::Frame {
        fin: d.finished,
        rsv: d.reserved,
        op: d.opcode as u8,
        mask: None,
        payload: d.data.clone(),
    }
}

pub fn err_name(e: &WebSocketError) -> String {
    match e {
        WebSocketError::ProtocolError(m) => format!("ProtocolError({})", m),
        WebSocketError::DataFrameError(m) => format!("DataFrameError({})", m),
        WebSocketError::NoDataAvailable => "NoDataAvailable".into(),
        WebSocketError::IoError(e) => format!("IoError({:?})", e.kind()),
        WebSocketError::Utf8Error(_) => "Utf8Error".into(),
        WebSocketError::Other(e) => match e.downcast_ref::<WebSocketOtherError>() {
            Some(o) => format!("Other({:?})", o),
            None => format!("Other({})", e),
        },
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Role {
    /// the endpoint is a server: incoming frames are masked, outgoing are not
    Server,
    Client,
}
impl Role {
    pub fn expects_mask(self) -> bool {
        self == Role::Server
    }
    pub fn masks(self) -> bool {
        self == Role::Client
    }
    pub fn ctx(self) -> Context {
        match self {
            Role::Server => Context::Server,
            Role::Client => Context::Client,
        }
    }
    pub fn head(self) -> Vec<u8> {
        match self {
            Role::Server => request_head(),
            Role::Client => response_head(),
        }
    }
}
fn thing() -> websocket::header::extensions::Extension {
    "x-thing; p=1".parse().unwrap()
}
fn custom() -> Headers {
    let mut h = Headers::new();
    h.set_raw("X-Mask", vec![b"1".to_vec()]);
    h.set_raw("Server", vec![b"s/1".to_vec()]);
    h
}
pub type Limits = Option<(u64, u64)>;

pub fn builder(limits: Limits) -> ClientBuilder<'static> {
    let mut b = ClientBuilder::new("ws://h.example/chat").unwrap().key(KEY);
    let f = flavour();
    if f & 1 != 0 {
        b = b.add_protocols(vec!["beta", "alpha"]);
    }
    if f & 2 != 0 {
        b = b.add_extension(thing());
    }
    if f & 4 != 0 {
        b = b.origin("http://h.example".into());
    }
    match limits {
        Some((f, m)) => b.max_dataframe_size(f as usize).max_message_size(m as usize),
        None => b,
    }
}
/// A blocking connection after a handshake whose incoming head is already on the stream.
pub fn sync_conn<S: Stream>(role: Role, io: S, limits: Limits) -> Result<Client<S>, String> {
    match role {
        Role::Client => builder(limits).connect_on(io).map_err(|e| err_name(&e)),
        Role::Server => {
            let mut up = match SyncIntoWs::into_ws(io) {
                Ok(u) => u,
                Err((_, _, _, e)) => return Err(format!("{:?}", e)),
            };
            let v = flavour();
            if v & 1 != 0 {
                up = up.use_protocol("alpha");
            }
            if v & 2 != 0 {
                up = up.use_extension(thing());
            }
            let r = match (limits, v & 4 != 0) {
                (Some((f, m)), false) => up.accept_with_limits(f as usize, m as usize),
                (None, false) => up.accept(),
                (Some((f, m)), true) => up.accept_with_headers_and_limits(&custom(), f as usize, m as usize),
                (None, true) => up.accept_with(&custom()),
            };
            r.map_err(|(_, e)| format!("accept: {}", e))
        }
    }
}
pub fn async_conn<S>(role: Role, io: S, limits: Limits, polls: usize) -> Result<AsyncClient<S>, String>
where
    S: websocket::stream::r#async::Stream + Send + 'static,
{
    match role {
        Role::Client => match drive(builder(limits).async_connect_on(io), polls) {
            Driven::Ok((c, _)) => Ok(c),
            Driven::Err(e) => Err(err_name(&e)),
            Driven::Stall => Err("stalled".into()),
        },
        Role::Server => {
            let mut up = match drive(AsyncIntoWs::into_ws(io), polls) {
                Driven::Ok(u) => u,
                Driven::Err((_, _, _, e)) => return Err(format!("{:?}", e)),
                Driven::Stall => return Err("stalled".into()),
            };
            let v = flavour();
            if v & 1 != 0 {
                up = up.use_protocol("alpha");
            }
            if v & 2 != 0 {
                up = up.use_extension(thing());
            }
            let f = match (limits, v & 4 != 0) {
                (Some((f, m)), false) => up.accept_with_limits(f as usize, m as usize),
                (None, false) => up.accept(),
                (Some((f, m)), true) => up.accept_with_headers_and_limits(&custom(), f as usize, m as usize),
                (None, true) => up.accept_with(&custom()),
            };
            match drive(f, polls) {
                Driven::Ok((c, _)) => Ok(c),
                Driven::Err(e) => Err(err_name(&e)),
                Driven::Stall => Err("stalled".into()),
            }
        }
    }
}

// ------------------------------------------------------------------------------- receiving

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum RxApi {
    /// Receiver::recv_message on a plain reader
    Raw,
    /// Receiver::incoming_messages
    RawIter,
    /// stand-alone Reader
    Reader,
    /// connected blocking endpoint
    Conn,
    /// its message iterator
    ConnIter,
    /// its split reader
    Split,
    /// each message through another of the blocking connection's APIs
    Mixed,
    /// MessageCodec::decode on a buffer
    Codec,
    /// connected asynchronous endpoint
    Framed,
}
pub const SYNC_RX: &[RxApi] = &[
    RxApi::Raw,
    RxApi::RawIter,
    RxApi::Reader,
    RxApi::Conn,
    RxApi::ConnIter,
    RxApi::Split,
    RxApi::Mixed,
];
pub const ASYNC_RX: &[RxApi] = &[RxApi::Codec, RxApi::Framed];
pub const ALL_RX: &[RxApi] = &[
    RxApi::Raw,
    RxApi::RawIter,
    RxApi::Reader,
    RxApi::Conn,
    RxApi::ConnIter,
    RxApi::Split,
    RxApi::Mixed,
    RxApi::Codec,
    RxApi::Framed,
];
impl RxApi {
    pub fn is_sync(self) -> bool {
        !matches!(self, RxApi::Codec | RxApi::Framed)
    }
    /// has a handshake in front
    pub fn is_conn(self) -> bool {
        matches!(
            self,
            RxApi::Conn | RxApi::ConnIter | RxApi::Split | RxApi::Mixed | RxApi::Framed
        )
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    /// the stream ended cleanly
    Eof,
    Err(String),
    /// never finished although all input and the end of stream were available
    Stall,
}

pub struct Rx {
    pub msgs: Vec<Msg>,
    pub end: End,
    /// would-block reports seen between messages
    pub blocks: usize,
    /// how many messages had been delivered at each of them
    pub block_msgs: Vec<usize>,
    /// for each message, input bytes handed over when it was delivered (codec only)
    pub fed: Vec<usize>,
    /// bytes taken from the transport
    pub taken: usize,
}

/// Receives messages from `bytes` (frames only; a handshake head is put in front where needed)
/// until the end of stream or an error.
pub fn receive(
    api: RxApi,
    role: Role,
    bytes: &[u8],
    rplan: &[u8],
    gates: &[usize],
    limits: Limits,
) -> Rx {
    receive_n(api, role, bytes, rplan, gates, limits, true, None)
}

pub fn receive_n(
    api: RxApi,
    role: Role,
    bytes: &[u8],
    rplan: &[u8],
    gates: &[usize],
    limits: Limits,
    close: bool,
    rfail: Option<(usize, io::ErrorKind)>,
) -> Rx {
    let _flavour = Flavour::of(bytes);
    let head = if api.is_conn() { role.head() } else { vec![] };
    let rx = Pipe::with(&head);
    rx.push(bytes);
    if close {
        rx.close();
    }
    let tx = Pipe::new();
    let mode = if api.is_sync() { Mode::Blocking } else { Mode::Async };
    let mut io = Io::new(&rx, &tx, mode).plans(rplan, &[]);
    io.calm_until = head.len();
    io.rplan.marks = rfc::marks(bytes).into_iter().map(|m| m + head.len()).collect();
    io.gates = gates.iter().map(|g| g + head.len()).collect();
    io.rfail = rfail.map(|(a, k)| (a + head.len(), k));
    let mut out = Rx { msgs: vec![], end: End::Eof, blocks: 0, block_msgs: vec![], fed: vec![], taken: 0 };
    let polls = (rplan.len() + 4) * (bytes.len() + head.len() + 50) + 100;
    let max_blocks = gates.len() + 2;

    macro_rules! pump {
        ($next:expr) => {{
            loop {
                match $next {
                    Ok(m) => {
                        let m: OwnedMessage = m;
                        out.msgs.push(from_owned(&m));
                    }
                    Err(WebSocketError::NoDataAvailable) => {
                        out.end = End::Eof;
                        break;
                    }
                    Err(WebSocketError::IoError(ref e)) if e.kind() == io::ErrorKind::WouldBlock => {
                        out.blocks += 1;
                        out.block_msgs.push(out.msgs.len());
                        if out.blocks > max_blocks {
                            out.end = End::Stall;
                            break;
                        }
                    }
                    Err(e) => {
                        out.end = End::Err(err_name(&e));
                        break;
                    }
                }
            }
        }};
    }
    let recv = |mask: bool| match limits {
        Some((f, m)) => Receiver::new_with_limits(mask, f as usize, m as usize),
        None => Receiver::new(mask),
    };
    match api {
        RxApi::Raw => {
            let mut r = recv(role.expects_mask());
            pump!(r.recv_message(&mut io));
        }
        RxApi::RawIter => {
            let mut r = recv(role.expects_mask());
            let mut it = r.incoming_messages(&mut io);
            pump!(it.next().expect("iterator is endless"));
        }
        RxApi::Reader => {
            let mut r = Reader {
                stream: BufReader::new(io),
                receiver: recv(role.expects_mask()),
            };
            pump!(r.recv_message());
        }
        RxApi::Conn => match sync_conn(role, io, limits) {
            Ok(mut c) => pump!(c.recv_message()),
            Err(e) => out.end = End::Err(format!("handshake: {}", e)),
        },
        RxApi::ConnIter => match sync_conn(role, io, limits) {
            Ok(mut c) => {
                let mut it = c.incoming_messages();
                pump!(it.next().expect("iterator is endless"))
            }
            Err(e) => out.end = End::Err(format!("handshake: {}", e)),
        },
        RxApi::Split => match sync_conn(role, pair(io, &tx), limits).and_then(|c| c.split().map_err(|e| e.to_string())) {
            Ok((mut r, _w)) => pump!(r.recv_message()),
            Err(e) => out.end = End::Err(format!("handshake: {}", e)),
        },
        RxApi::Mixed => match sync_conn(role, pair(io, &tx), limits) {
            Ok(mut c) => {
                // switch API after every message, split for good after six
                let mut k = 0usize;
                'conn: loop {
                    if k == 6 {
                        match c.split() {
                            Ok((mut r, _w)) => {
                                let mut n = 0;
                                pump!({
                                    n += 1;
                                    if n % 2 == 0 {
                                        r.recv_message()
                                    } else {
                                        r.incoming_messages().next().unwrap()
                                    }
                                });
                            }
                            Err(e) => out.end = End::Err(e.to_string()),
                        }
                        break 'conn;
                    }
                    let r = match k % 2 {
                        0 => c.recv_message(),
                        _ => c.incoming_messages().next().unwrap(),
                    };
                    k += 1;
                    match r {
                        Ok(m) => out.msgs.push(from_owned(&m)),
                        Err(WebSocketError::NoDataAvailable) => break 'conn,
                        Err(WebSocketError::IoError(ref e)) if e.kind() == io::ErrorKind::WouldBlock => {
                            out.blocks += 1;
                        out.block_msgs.push(out.msgs.len());
                            if out.blocks > max_blocks {
                                out.end = End::Stall;
                                break 'conn;
                            }
                        }
                        Err(e) => {
                            out.end = End::Err(err_name(&e));
                            break 'conn;
                        }
                    }
                }
            }
            Err(e) => out.end = End::Err(format!("handshake: {}", e)),
        },
        RxApi::Codec => {
            let mut c: MessageCodec<OwnedMessage> = match limits {
                Some((f, m)) => MessageCodec::new_with_limits(role.ctx(), f as usize, m as usize),
                None => MessageCodec::default(role.ctx()),
            };
            let mut buf = BytesMut::new();
            let mut at = 0;
            'feed: loop {
                // one chunk
                let mut tmp = [0u8; 8192];
                let n = match io.read(&mut tmp) {
                    Ok(n) => n,
                    Err(ref e) if e.kind() == io::ErrorKind::WouldBlock => {
                        if !close && rx.len() == 0 {
                            break 'feed;
                        }
                        continue;
                    }
                    Err(e) => {
                        out.end = End::Err(format!("IoError({:?})", e.kind()));
                        break 'feed;
                    }
                };
                at += n;
                buf.extend_from_slice(&tmp[..n]);
                loop {
                    let before = buf.len();
                    let r = c.decode(&mut buf);
                    match r {
                        Ok(Some(m)) => {
                            out.msgs.push(from_owned(&m));
                            out.fed.push(at);
                            if buf.len() >= before {
                                out.end = End::Err("message delivered without consuming bytes".into());
                                break 'feed;
                            }
                        }
                        Ok(None) => break,
                        Err(e) => {
                            out.end = End::Err(err_name(&e));
                            break 'feed;
                        }
                    }
                }
                if n == 0 {
                    break 'feed;
                }
            }
        }
        RxApi::Framed => match async_conn(role, io, limits, polls) {
            Ok(c) => {
                let mut h = Hand::new(c);
                loop {
                    match h.next(polls) {
                        Driven::Ok(Some(m)) => out.msgs.push(from_owned(&m)),
                        Driven::Ok(None) => break,
                        Driven::Err(e) => {
                            out.end = End::Err(err_name(&e));
                            break;
                        }
                        Driven::Stall => {
                            out.end = End::Stall;
                            break;
                        }
                    }
                }
            }
            Err(e) => out.end = End::Err(format!("handshake: {}", e)),
        },
    }
    out.taken = rx.total_out().saturating_sub(head.len());
    out
}


pub type PairIo = ReadWritePair<Io, Io>;
/// A splittable stream: `io` reads, a second end writes to `tx`.
pub fn pair(mut io: Io, tx: &Pipe) -> PairIo {
    let mode = io.mode;
    let mut w = Io::new(&Pipe::new(), tx, mode);
    w.wplan = std::mem::take(&mut io.wplan);
    w.wfail = io.wfail.take();
    io.tx = Pipe::new();
    ReadWritePair(io, w)
}

// ------------------------------------------------------------------------------- frames in

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum FrApi {
    /// DataFrame::read_dataframe
    Read,
    /// DataFrame::read_dataframe_with_limit
    ReadLimit,
    /// Receiver::recv_dataframe
    Raw,
    /// Receiver::incoming_dataframes
    RawIter,
    Reader,
    ReaderIter,
    Conn,
    ConnIter,
    /// DataFrameCodec::decode
    Codec,
    /// DataFrameCodec behind a Framed
    Framed,
}
pub const ALL_FR: &[FrApi] = &[
    FrApi::Read,
    FrApi::ReadLimit,
    FrApi::Raw,
    FrApi::RawIter,
    FrApi::Reader,
    FrApi::ReaderIter,
    FrApi::Conn,
    FrApi::ConnIter,
    FrApi::Codec,
    FrApi::Framed,
];
impl FrApi {
    pub fn is_sync(self) -> bool {
        !matches!(self, FrApi::Codec | FrApi::Framed)
    }
    pub fn has_limit(self) -> bool {
        self != FrApi::Read
    }
}
pub struct Fr {
    pub frames: Vec<rfc::Frame>,
    /// input bytes consumed after each frame (where the API allows to tell)
    pub at: Vec<Option<usize>>,
    pub end: End,
    /// codec only: bytes left in the buffer
    pub left: Option<Vec<u8>>,
    /// bytes taken from the transport
    pub taken: usize,
}
pub fn recv_frames(
    api: FrApi,
    role: Role,
    bytes: &[u8],
    rplan: &[u8],
    gates: &[usize],
    limit: Option<u64>,
    close: bool,
    rfail: Option<(usize, io::ErrorKind)>,
) -> Fr {
    let _flavour = Flavour::of(bytes);
    let head = if matches!(api, FrApi::Conn | FrApi::ConnIter) { role.head() } else { vec![] };
    let rx = Pipe::with(&head);
    rx.push(bytes);
    if close {
        rx.close();
    }
    let tx = Pipe::new();
    let mode = if api.is_sync() { Mode::Blocking } else { Mode::Async };
    let mut io = Io::new(&rx, &tx, mode).plans(rplan, &[]);
    io.calm_until = head.len();
    io.rplan.marks = rfc::marks(bytes).into_iter().map(|m| m + head.len()).collect();
    io.gates = gates.iter().map(|g| g + head.len()).collect();
    io.rfail = rfail.map(|(a, k)| (a + head.len(), k));
    let limits = limit.map(|l| (l, u64::MAX));
    let mut out = Fr { frames: vec![], at: vec![], end: End::Eof, left: None, taken: 0 };
    let polls = (rplan.len() + 4) * (bytes.len() + head.len() + 50) + 100;
    let max_blocks = gates.len() + 2;
    let mut blocks = 0;
    macro_rules! pump {
        ($next:expr, $at:expr) => {{
            loop {
                match $next {
                    Ok(f) => {
                        let f: DataFrame = f;
                        out.frames.push(from_dataframe(&f));
                        out.at.push($at);
                    }
                    Err(WebSocketError::NoDataAvailable) => break,
                    Err(WebSocketError::IoError(ref e)) if e.kind() == io::ErrorKind::WouldBlock => {
                        blocks += 1;
                        if blocks > max_blocks {
                            out.end = End::Stall;
                            break;
                        }
                    }
                    Err(e) => {
                        out.end = End::Err(err_name(&e));
                        break;
                    }
                }
            }
        }};
    }
    let recv = |mask: bool| match limits {
        Some((f, m)) => Receiver::new_with_limits(mask, f as usize, m as usize),
        None => Receiver::new(mask),
    };
    let mask = role.expects_mask();
    match api {
        FrApi::Read => pump!(DataFrame::read_dataframe(&mut io, mask), Some(io.nread)),
        FrApi::ReadLimit => pump!(
            DataFrame::read_dataframe_with_limit(&mut io, mask, limit.unwrap_or(u64::MAX) as usize),
            Some(io.nread)
        ),
        FrApi::Raw => {
            let mut r = recv(mask);
            pump!(r.recv_dataframe(&mut io), Some(io.nread))
        }
        FrApi::RawIter => {
            let mut r = recv(mask);
            pump!(r.incoming_dataframes(&mut io).next().expect("endless"), Some(io.nread))
        }
        FrApi::Reader => {
            let mut r = Reader { stream: BufReader::new(io), receiver: recv(mask) };
            pump!(r.recv_dataframe(), None)
        }
        FrApi::ReaderIter => {
            let mut r = Reader { stream: BufReader::new(io), receiver: recv(mask) };
            let mut it = r.incoming_dataframes();
            pump!(it.next().expect("endless"), None)
        }
        FrApi::Conn => match sync_conn(role, io, limits) {
            Ok(mut c) => pump!(c.recv_dataframe(), None),
            Err(e) => out.end = End::Err(format!("handshake: {}", e)),
        },
        FrApi::ConnIter => match sync_conn(role, io, limits) {
            Ok(mut c) => {
                let mut it = c.incoming_dataframes();
                pump!(it.next().expect("endless"), None)
            }
            Err(e) => out.end = End::Err(format!("handshake: {}", e)),
        },
        FrApi::Codec => {
            let mut c: DataFrameCodec<DataFrame> = match limit {
                Some(f) => DataFrameCodec::new_with_limits(role.ctx(), f as usize),
                None => DataFrameCodec::default(role.ctx()),
            };
            let mut buf = BytesMut::new();
            let mut fed = 0;
            'feed: loop {
                let mut tmp = [0u8; 8192];
                let n = match io.read(&mut tmp) {
                    Ok(n) => n,
                    Err(ref e) if e.kind() == io::ErrorKind::WouldBlock => {
                        if !close && rx.len() == 0 {
                            out.end = End::Stall;
                            break 'feed;
                        }
                        continue;
                    }
                    Err(e) => {
                        out.end = End::Err(format!("IoError({:?})", e.kind()));
                        break 'feed;
                    }
                };
                if n == 0 {
                    break;
                }
                fed += n;
                buf.extend_from_slice(&tmp[..n]);
                loop {
                    match c.decode(&mut buf) {
                        Ok(Some(f)) => {
                            out.frames.push(from_dataframe(&f));
                            out.at.push(Some(fed - buf.len()));
                        }
                        Ok(None) => break,
                        Err(e) => {
                            out.end = End::Err(err_name(&e));
                            break 'feed;
                        }
                    }
                }
            }
            out.left = Some(buf.to_vec());
        }
        FrApi::Framed => {
            let c: DataFrameCodec<Box<dyn DataFrameTrait>> = match limit {
                Some(f) => DataFrameCodec::new_with_limits(role.ctx(), f as usize),
                None => DataFrameCodec::new(role.ctx()),
            };
            let mut h = Hand::new(c.framed(io));
            loop {
                match h.next(polls) {
                    Driven::Ok(Some(f)) => {
                        out.frames.push(from_dataframe(&f));
                        out.at.push(None);
                    }
                    Driven::Ok(None) => break,
                    Driven::Err(e) => {
                        out.end = End::Err(err_name(&e));
                        break;
                    }
                    Driven::Stall => {
                        out.end = End::Stall;
                        break;
                    }
                }
            }
        }
    }
    out.taken = rx.total_out().saturating_sub(head.len());
    out
}

// ------------------------------------------------------------------------------- sending

/// What to send.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Out {
    /// a data frame given field by field
    Frame { fin: bool, rsv: [bool; 3], op: u8, pay: crate::gen::Pay },
    /// an own implementation of the DataFrame trait, any opcode byte, payload written in pieces
    Custom { fin: bool, rsv: [bool; 3], op: u8, pay: crate::gen::Pay, cuts: Vec<u16> },
    Owned(crate::gen::GMsg),
    Borrowed(crate::gen::GMsg),
}
impl Out {
    /// the frame it must become (before masking), with the opcode as given
    pub fn expect(&self) -> (bool, [bool; 3], u8, Vec<u8>) {
        match self {
            Out::Frame { fin, rsv, op, pay } | Out::Custom { fin, rsv, op, pay, .. } => {
                (*fin, *rsv, *op, pay.bytes())
            }
            Out::Owned(m) | Out::Borrowed(m) => {
                let m = m.msg();
                (true, [false; 3], m.op(), m.payload())
            }
        }
    }
    pub fn legal(&self) -> bool {
        let (_, _, op, p) = self.expect();
        op <= 15 && !(op >= 8 && p.len() > 125)
    }
    pub fn is_msg(&self) -> bool {
        matches!(self, Out::Owned(_) | Out::Borrowed(_))
    }
}
pub struct Custom {
    pub fin: bool,
    pub rsv: [bool; 3],
    pub op: u8,
    pub data: Vec<u8>,
    pub cuts: Vec<u16>,
}
impl DataFrameTrait for Custom {
    fn is_last(&self) -> bool {
        self.fin
    }
    fn opcode(&self) -> u8 {
        self.op
    }
    fn reserved(&self) -> &[bool; 3] {
        &self.rsv
    }
    fn size(&self) -> usize {
        self.data.len()
    }
    fn write_payload(&self, socket: &mut dyn Write) -> Result<(), WebSocketError> {
        for p in crate::gen::split_at(&self.data, &self.cuts) {
            socket.write_all(&p)?;
        }
        Ok(())
    }
    fn take_payload(self) -> Vec<u8> {
        self.data
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum TxApi {
    /// DataFrame::write_to / Message::serialize
    Direct,
    /// Sender on a plain writer
    Sender,
    /// stand-alone Writer
    Writer,
    /// connected blocking endpoint
    Conn,
    /// its split writer
    Split,
    /// MessageCodec / DataFrameCodec encoding into a buffer
    Codec,
    /// the same through Framed (a connected endpoint when only messages are sent)
    Framed,
}
pub const ALL_TX: &[TxApi] = &[
    TxApi::Direct,
    TxApi::Sender,
    TxApi::Writer,
    TxApi::Conn,
    TxApi::Split,
    TxApi::Codec,
    TxApi::Framed,
];
impl TxApi {
    pub fn is_sync(self) -> bool {
        !matches!(self, TxApi::Codec | TxApi::Framed)
    }
}
pub struct Tx {
    pub results: Vec<Result<(), String>>,
    /// size announced beforehand by frame_size / message_size
    pub sizes: Vec<usize>,
    /// output length after each item
    pub at: Vec<usize>,
    /// everything written after the handshake
    pub out: Vec<u8>,
    /// handshake or flush failure
    pub fault: Option<String>,
}
macro_rules! with_frame {
    ($o:expr, $d:ident => $e:expr) => {
        match $o {
            Out::Frame { fin, rsv, op, pay } if *op <= 15 => {
                let $d = DataFrame {
                    finished: *fin,
                    reserved: *rsv,
                    opcode: Opcode::new(*op).expect("opcode"),
                    data: pay.bytes(),
                };
                $e
            }
            Out::Frame { fin, rsv, op, pay } => {
                let $d = Custom { fin: *fin, rsv: *rsv, op: *op, data: pay.bytes(), cuts: vec![] };
                $e
            }
            Out::Custom { fin, rsv, op, pay, cuts } => {
                let $d = Custom { fin: *fin, rsv: *rsv, op: *op, data: pay.bytes(), cuts: cuts.clone() };
                $e
            }
            Out::Owned(m) => {
                let $d = to_owned(&m.msg());
                $e
            }
            Out::Borrowed(m) => {
                let $d = to_message(&m.msg());
                $e
            }
        }
    };
}
macro_rules! with_msg {
    ($o:expr, $d:ident => $e:expr, else $f:expr) => {
        match $o {
            Out::Owned(m) => {
                let $d = to_owned(&m.msg());
                $e
            }
            Out::Borrowed(m) => {
                let $d = to_message(&m.msg());
                $e
            }
            _ => $f,
        }
    };
}
/// Sends the items one after another; stops at the first transport error.
pub fn transmit(
    api: TxApi,
    role: Role,
    items: &[Out],
    wplan: &[u8],
    wfail: Option<(usize, io::ErrorKind)>,
) -> Tx {
    let mask = role.masks();
    let is_conn = matches!(api, TxApi::Conn | TxApi::Split)
        || (api == TxApi::Framed && items.iter().all(|i| matches!(i, Out::Owned(_))));
    let _flavour = Flavour::of(format!("{:?}", items).as_bytes());
    let head = if is_conn { role.head() } else { vec![] };
    let own_head = match (is_conn, role) {
        (false, _) => 0,
        (true, r) => own_head_len(r),
    };
    let rx = Pipe::with(&head);
    let tx = Pipe::new();
    let mode = if api.is_sync() { Mode::Blocking } else { Mode::Async };
    let mut io = Io::new(&rx, &tx, mode).plans(&[], wplan);
    io.wfail = wfail.map(|(a, k)| (a + own_head, k));
    let total: usize = items.iter().map(|i| i.expect().3.len() + 32).sum::<usize>() + own_head;
    let polls = (wplan.len() + 4) * (total + 200) + 100;
    let mut t = Tx { results: vec![], sizes: vec![], at: vec![], out: vec![], fault: None };
    for o in items {
        t.sizes.push(with_msg!(o, m => m.message_size(mask), else with_frame!(o, d => d.frame_size(mask))));
    }
    let es = |r: Result<(), WebSocketError>| r.map_err(|e| err_name(&e));
    // messages go alternately through the message and the frame API where both exist
    macro_rules! run {
        ($w:expr, $len:expr) => {
            for (i, o) in items.iter().enumerate() {
                let r = if i % 3 == 2 {
                    with_frame!(o, d => $w.send_dataframe(&d))
                } else {
                    with_msg!(o, m => $w.send_message(&m), else with_frame!(o, d => $w.send_dataframe(&d)))
                };
                let io_err = matches!(r, Err(WebSocketError::IoError(_)));
                t.results.push(es(r));
                t.at.push(tx.len() - $len);
                if io_err {
                    break;
                }
            }
        };
    }
    match api {
        TxApi::Direct => {
            for (i, o) in items.iter().enumerate() {
                let r = if i % 3 == 2 {
                    with_frame!(o, d => d.write_to(&mut io, mask))
                } else {
                    with_msg!(o, m => m.serialize(&mut io, mask), else with_frame!(o, d => d.write_to(&mut io, mask)))
                };
                let io_err = matches!(r, Err(WebSocketError::IoError(_)));
                t.results.push(es(r));
                t.at.push(tx.len());
                if io_err {
                    break;
                }
            }
        }
        TxApi::Sender => {
            let mut s = Sender::new(mask);
            for (i, o) in items.iter().enumerate() {
                let r = if i % 3 == 2 {
                    with_frame!(o, d => s.send_dataframe(&mut io, &d))
                } else {
                    with_msg!(o, m => s.send_message(&mut io, &m), else with_frame!(o, d => s.send_dataframe(&mut io, &d)))
                };
                let io_err = matches!(r, Err(WebSocketError::IoError(_)));
                t.results.push(es(r));
                t.at.push(tx.len());
                if io_err {
                    break;
                }
            }
        }
        TxApi::Writer => {
            let mut w = Writer { stream: io, sender: Sender::new(mask) };
            run!(w, 0)
        }
        TxApi::Conn => match sync_conn(role, io, None) {
            Ok(mut c) => run!(c, own_head),
            Err(e) => t.fault = Some(format!("handshake: {}", e)),
        },
        TxApi::Split => {
            match sync_conn(role, pair(io, &tx), None).and_then(|c| c.split().map_err(|e| e.to_string())) {
                Ok((_r, mut w)) => run!(w, own_head),
                Err(e) => t.fault = Some(format!("handshake: {}", e)),
            }
        }
        TxApi::Codec => {
            let mut buf = BytesMut::new();
            let mut owned: MessageCodec<OwnedMessage> = MessageCodec::default(role.ctx());
            let mut borrowed: MessageCodec<Message<'static>> = MessageCodec::new(role.ctx());
            let mut frames: DataFrameCodec<Box<dyn DataFrameTrait>> = DataFrameCodec::new(role.ctx());
            for o in items {
                let r = match o {
                    Out::Owned(m) => owned.encode(to_owned(&m.msg()), &mut buf),
                    Out::Borrowed(m) => borrowed.encode(to_message(&m.msg()), &mut buf),
                    o => with_frame!(o, d => frames.encode(Box::new(d), &mut buf)),
                };
                t.results.push(es(r));
                t.at.push(buf.len());
            }
            t.out = buf.to_vec();
            return t;
        }
        TxApi::Framed if is_conn => match async_conn(role, io, None, polls) {
            Ok(c) => {
                let mut h = Hand::new(c);
                for o in items {
                    let m = with_msg!(o, m => OwnedMessage::from(m), else unreachable!());
                    match h.send(m, polls) {
                        Driven::Ok(()) => t.results.push(Ok(())),
                        Driven::Err(e) => {
                            let io_err = matches!(e, WebSocketError::IoError(_));
                            t.results.push(Err(err_name(&e)));
                            if io_err {
                                break;
                            }
                        }
                        Driven::Stall => {
                            t.fault = Some("send stalled".into());
                            break;
                        }
                    }
                }
                match h.flush(polls) {
                    Driven::Ok(()) => {}
                    Driven::Err(e) => t.fault = Some(err_name(&e)),
                    Driven::Stall => t.fault = Some("flush stalled".into()),
                }
            }
            Err(e) => t.fault = Some(format!("handshake: {}", e)),
        },
        TxApi::Framed => {
            let c: DataFrameCodec<Box<dyn DataFrameTrait>> = DataFrameCodec::new(role.ctx());
            let mut h = Hand::new(c.framed(io));
            for o in items {
                let b: Box<dyn DataFrameTrait> = with_frame!(o, d => Box::new(d));
                match h.send(b, polls) {
                    Driven::Ok(()) => t.results.push(Ok(())),
                    Driven::Err(e) => {
                        let io_err = matches!(e, WebSocketError::IoError(_));
                        t.results.push(Err(err_name(&e)));
                        if io_err {
                            break;
                        }
                    }
                    Driven::Stall => {
                        t.fault = Some("send stalled".into());
                        break;
                    }
                }
            }
            match h.flush(polls) {
                Driven::Ok(()) => {}
                Driven::Err(e) => t.fault = Some(err_name(&e)),
                Driven::Stall => t.fault = Some("flush stalled".into()),
            }
        }
    }
    let all = tx.take();
    t.out = all[own_head.min(all.len())..].to_vec();
    t
}
/// Length of the handshake head this endpoint itself sends with the default settings used here.
pub fn own_head_len(role: Role) -> usize {
    thread_local!(static LEN: std::cell::RefCell<[Option<usize>; 16]> = const { std::cell::RefCell::new([None; 16]) });
    let k = role as usize * 8 + flavour() as usize;
    if let Some(n) = LEN.with(|l| l.borrow()[k]) {
        return n;
    }
    let rx = Pipe::closed_with(&role.head());
    let tx = Pipe::new();
    let _ = sync_conn(role, Io::new(&rx, &tx, Mode::Blocking), None);
    let n = tx.len();
    LEN.with(|l| l.borrow_mut()[k] = Some(n));
    n
}
