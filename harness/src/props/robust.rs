//! R01, R02: hostile input, faulty transports.
use super::frames::{match_frame, prefix_of_frame, role, tx_case, TxCase};
use super::messages::{edit, edited, hist, Edit, Hist};
use crate::alloc::measured;
use crate::api::*;
use crate::engine::*;
use crate::gen::{self, fast_plan, plan, Item};
use crate::http::*;
use crate::mock::*;
use crate::rfc::{self, Frame};
use bytes::BytesMut;
use hyper::buffer::BufReader;
use hyper::header::{Header, Headers};
use hyper::method::Method;
use hyper::net::NetworkStream;
use hyper::version::HttpVersion;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::io;
use std::str::FromStr;
use tokio_codec::Decoder;
use websocket::codec::http::{HttpClientCodec, HttpServerCodec};
use websocket::header::extensions::Extension;
use websocket::header::{Origin, WebSocketAccept, WebSocketExtensions, WebSocketKey, WebSocketProtocol, WebSocketVersion};
use websocket::server::upgrade::r#async::IntoWs as AsyncIntoWs;
use websocket::server::upgrade::sync::{HyperRequest, IntoWs as SyncIntoWs, RequestStreamPair};
use websocket::server::upgrade::validate;
use websocket::ws::dataframe::DataFrame as DataFrameTrait;
use websocket::ws::Message as MessageTrait;
use websocket::{Message, OwnedMessage};

// ------------------------------------------------------------------------------- R01

const BASE: i64 = 1 << 20;
const FACTOR: i64 = 256;
/// runs `f` on `n` received bytes and judges the memory it took
fn thrifty<T>(n: usize, what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    let bound = BASE + FACTOR * n as i64;
    let (v, peak) = measured(bound as usize, f);
    ensure!(peak <= bound, "{}: {} bytes of memory for {} bytes received", what, peak, n);
    Ok(v)
}
fn any_limits() -> BoxedStrategy<Limits> {
    prop_oneof![
        3 => Just(None),
        2 => Just(Some((u64::MAX, u64::MAX))),
        1 => Just(Some((1 << 62, 1 << 62))),
        1 => Just(Some((0, 0))),
        1 => (0u64..300, 0u64..300).prop_map(Some),
        1 => (any::<u64>(), any::<u64>()).prop_map(Some),
    ]
    .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Junk {
    Raw(Vec<u8>),
    Edited { items: Vec<Item>, seed: u32, masked: bool, edits: Vec<Edit> },
    Flood { frame: Vec<u8>, first: Vec<u8>, n: u16 },
}
impl Junk {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Junk::Raw(v) => v.clone(),
            Junk::Edited { items, seed, masked, edits } => {
                let mut f: Vec<Frame> = items.iter().flat_map(|i| i.frames()).collect();
                gen::mask_frames(&mut f, *masked, *seed);
                edited(&f, edits)
            }
            Junk::Flood { frame, first, n } => {
                let mut v = first.clone();
                for _ in 0..*n {
                    v.extend_from_slice(frame);
                }
                v
            }
        }
    }
}
fn junk() -> BoxedStrategy<Junk> {
    let byte = prop_oneof![
        3 => any::<u8>(),
        2 => select(vec![0u8, 1, 2, 8, 9, 10, 0x7e, 0x7f, 0x80, 0x81, 0x82, 0x88, 0x89, 0x8a, 0xfe, 0xff, 125, 126, 127]),
    ];
    let tiny = select(vec![
        vec![0x00u8, 0x80, 1, 2, 3, 4], vec![0x00, 0x00], vec![0x00, 0x81, 0, 0, 0, 0, 65], vec![0x00, 0x01, 65], vec![0x89, 0x00],
        vec![0x89, 0x80, 1, 1, 1, 1], vec![0x82, 0x00], vec![0x82, 0x80, 0, 0, 0, 0], vec![0x88, 0x00], vec![0x8a, 0x00],
    ]);
    let first = select(vec![vec![], vec![0x01u8, 0x00], vec![0x02, 0x00], vec![0x01, 0x80, 0, 0, 0, 0], vec![0x02, 0x80, 0, 0, 0, 0]]);
    prop_oneof![
        3 => vec(byte, 0..120).prop_map(Junk::Raw),
        4 => (gen::items(1..4, 300), any::<u32>(), any::<bool>(), vec(edit(), 0..4)).prop_map(|(items, seed, masked, edits)| Junk::Edited { items, seed, masked, edits }),
        1 => (vec(gen::item(true), 1..3), any::<u32>(), any::<bool>(), vec(edit(), 0..3)).prop_map(|(items, seed, masked, edits)| Junk::Edited { items, seed, masked, edits }),
        1 => (tiny, first, prop_oneof![0u16..30, 0u16..3000]).prop_map(|(frame, first, n)| Junk::Flood { frame, first, n }),
    ]
    .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hostile {
    rx: RxApi,
    fr: FrApi,
    role: Role,
    junk: Junk,
    limits: Limits,
    plan: Vec<u8>,
    close: bool,
}
fn hostile() -> BoxedStrategy<Hostile> {
    (
        select(ALL_RX.to_vec()),
        select(ALL_FR.to_vec()),
        role(),
        junk(),
        any_limits(),
        prop_oneof![1 => plan(), 2 => fast_plan()],
        proptest::bool::weighted(0.8),
    )
        .prop_map(|(rx, fr, role, junk, limits, plan, close)| Hostile { rx, fr, role, junk, limits, plan, close })
        .boxed()
}
/// an open connection may be waiting; after its end there must be a result
fn settled(end: &End, close: bool, what: &str) -> Res {
    ensure!(!(close && *end == End::Stall), "{}: neither result nor error although the stream has ended", what);
    Ok(())
}
fn r01_recv(c: &Hostile, o: &mut Obs) -> Res {
    let bytes = c.junk.bytes();
    let plan = cope(&c.plan, bytes.len() / 4);
    let what = format!("{:?} {:?}", c.rx, c.role);
    let r = thrifty(bytes.len(), &what, || receive_n(c.rx, c.role, &bytes, &plan, &[], c.limits, c.close, None))?;
    settled(&r.end, c.close, &what)?;
    ensure!(r.taken <= bytes.len(), "{}: more bytes taken than given", what);
    let what = format!("{:?} {:?}", c.fr, c.role);
    let f = thrifty(bytes.len(), &what, || recv_frames(c.fr, c.role, &bytes, &plan, &[], c.limits.map(|l| l.0), c.close, None))?;
    settled(&f.end, c.close, &what)?;
    // every frame turns into a message or an error
    for fr in f.frames.iter().take(60) {
        let d = dataframe(fr);
        let n = bytes.len();
        thrifty(n, "OwnedMessage::from_dataframes", || OwnedMessage::from_dataframes(vec![d.clone()]).is_ok())?;
        thrifty(n, "Message::from_dataframes", || Message::from_dataframes(vec![d.clone(), d.clone()]).is_ok())?;
        thrifty(n, "OwnedMessage::from", || drop(OwnedMessage::from(Message::binary(&fr.payload[..]))))?;
        thrifty(n, "take_payload", || d.clone().take_payload().len())?;
    }
    o.class(format!("{:?}", c.rx));
    o.class(match &c.junk {
        Junk::Raw(_) => "raw bytes",
        Junk::Edited { .. } => "damaged history",
        Junk::Flood { .. } => "flood",
    });
    o.class_if(matches!(r.end, End::Err(_)), "error");
    o.class_if(r.end == End::Eof, "clean end");
    o.nontrivial(bytes.len() >= 2);
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Announce {
    rx: RxApi,
    fr: FrApi,
    role: Role,
    before: Vec<Item>,
    op: u8,
    fin: bool,
    len: u64,
    given: u32,
    limits: Limits,
    close: bool,
    seed: u32,
}
fn r01_announce(c: &Announce, o: &mut Obs) -> Res {
    let mut f: Vec<Frame> = c.before.iter().flat_map(|i| i.frames()).collect();
    gen::mask_frames(&mut f, c.role.expects_mask(), c.seed);
    let mask = if c.role.expects_mask() { Some([1, 2, 3, 4]) } else { None };
    let mut bytes = gen::wire(&f);
    bytes.extend(rfc::encode_header(c.fin, [false; 3], c.op, mask, c.len));
    let given = (c.given as u64).min(c.len.saturating_sub(1)) as usize;
    bytes.extend(gen::fill(given, c.seed));
    let whole = rfc::reassemble(&f, c.role.expects_mask());
    let what = format!("{:?} {:?}, {} bytes announced, {} given", c.rx, c.role, c.len, given);
    let r = thrifty(bytes.len(), &what, || receive_n(c.rx, c.role, &bytes, &[], &[], c.limits, c.close, None))?;
    settled(&r.end, c.close, &what)?;
    if c.limits.is_none() {
        if let Err(m) = whole.judge(&r.msgs, false) {
            fail!("{}: {}", what, m);
        }
    }
    let what = format!("{:?} {:?}, {} bytes announced, {} given", c.fr, c.role, c.len, given);
    let r = thrifty(bytes.len(), &what, || recv_frames(c.fr, c.role, &bytes, &[], &[], c.limits.map(|l| l.0), c.close, None))?;
    settled(&r.end, c.close, &what)?;
    ensure!(r.frames.len() <= f.len(), "{}: the unfinished frame was delivered", what);
    o.class(format!("{:?}", c.rx));
    o.class(format!("{:?}", c.fr));
    o.class_if(given > 1000, "payload begun");
    o.nontrivial(c.len > (8 << 20));
    Ok(())
}
fn announce() -> BoxedStrategy<Announce> {
    let len = prop_oneof![
        3 => (20u32..64, any::<u64>()).prop_map(|(k, r)| (1u64 << k.min(63)) | (r & ((1u64 << k.min(63)) - 1))),
        2 => select(vec![u64::MAX, i64::MAX as u64, 1 << 63, u64::MAX - 13, (1 << 63) - 1, 1 << 32, u32::MAX as u64, 100 << 20, (100 << 20) - 1, 50 << 20, 16 << 20, isize::MAX as u64 - 10]),
        1 => any::<u64>(),
        1 => 126u64..70_000,
    ];
    (
        (select(ALL_RX.to_vec()), select(ALL_FR.to_vec()), role()),
        prop_oneof![3 => Just(vec![]), 1 => vec(gen::item(false), 1..4)],
        (prop_oneof![4 => select(vec![0u8, 1, 2]), 1 => 0u8..16], any::<bool>(), len),
        prop_oneof![2 => Just(0u32), 1 => 0u32..200, 1 => 0u32..100_000],
        any_limits(),
        any::<bool>(),
        any::<u32>(),
    )
        .prop_map(|((rx, fr, role), before, (op, fin, len), given, limits, close, seed)| Announce { rx, fr, role, before, op, fin, len, given, limits, close, seed })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct HttpCase {
    request: bool,
    noise: Noise,
    good: Option<Req>,
    edits: Vec<(u16, u8)>,
    plan: Vec<u8>,
    close: bool,
}
fn r01_http(c: &HttpCase, o: &mut Obs) -> Res {
    let mut bytes = match &c.good {
        Some(r) if c.request => r.bytes(),
        _ => c.noise.bytes(),
    };
    if !c.request && c.good.is_some() {
        bytes = response_head();
    }
    if c.good.is_some() {
        for (at, to) in &c.edits {
            let i = *at as usize * bytes.len() >> 16;
            bytes[i] = *to;
        }
        bytes.extend_from_slice(&c.noise.tail);
    }
    let n = bytes.len();
    let plan = cope(&c.plan, 2 * n);
    let lower = String::from_utf8_lossy(&bytes).to_ascii_lowercase();
    if c.request {
        for e in [Entry::Sync, Entry::Async, Entry::Pair, Entry::Hyper] {
            if e == Entry::Hyper && (lower.contains("content-") || lower.contains("transfer-")) {
                // hyper itself interprets these
                continue;
            }
            let close = c.close || e != Entry::Async;
            let out = thrifty(n, &format!("{:?}", e), || enter(e, &bytes, &plan, close))?;
            ensure!(!(close && out.stalled), "{:?}: no decision although the stream has ended", e);
            ensure!(out.ok || out.err.is_some() || out.stalled, "{:?}: neither accepted nor refused", e);
            o.class_if(out.ok, "accepted");
            o.class_if(out.parsed.is_none(), "unparsed");
            if out.ok {
                thrifty(n, &format!("{:?} answering", e), || answer_all(e, &bytes))??;
            }
        }
    } else {
        for sync in [true, false] {
            let rx = Pipe::with(&bytes);
            if c.close || sync {
                rx.close();
            }
            let tx = Pipe::new();
            let mut io = Io::new(&rx, &tx, if sync { Mode::Blocking } else { Mode::Async }).plans(&plan, &[]);
            io.calm_until = if sync { n } else { 0 };
            if sync {
                let r = thrifty(n, "connect_on", || {
                    sync_conn(Role::Client, io, None).map(|x| {
                        let _ = (x.headers().len(), x.protocols().len(), x.extensions().len());
                    })
                })?;
                o.class_if(r.is_ok(), "connected");
            } else {
                let polls = (plan.len() + 4) * (n + 600) + 100;
                let r = thrifty(n, "async_connect_on", || async_conn(Role::Client, io, None, polls).map(|_| ()))?;
                ensure!(!(c.close && r == Err("stalled".to_string())), "async_connect_on: stalls although the stream has ended");
            }
        }
    }
    // the codecs by themselves
    for server in [true, false] {
        thrifty(n, "HTTP codec", || {
            let mut buf = BytesMut::new();
            let mut p = Plan::new(&plan);
            let mut at = 0;
            let mut idle = 0;
            while at < n {
                let k = match p.next_step() {
                    Step::Hiccup => 1,
                    Step::Up(k) => k.min(n - at),
                };
                buf.extend_from_slice(&bytes[at..at + k]);
                at += k;
                loop {
                    let before = buf.len();
                    let r = if server {
                        HttpServerCodec.decode(&mut buf).map(|x| x.is_some()).map_err(|_| ())
                    } else {
                        HttpClientCodec.decode(&mut buf).map(|x| x.is_some()).map_err(|_| ())
                    };
                    match r {
                        Ok(true) => {
                            idle = if buf.len() < before { 0 } else { idle + 1 };
                            if idle > 3 {
                                return Err(Fail::Violation("HTTP codec yields heads without consuming input".into()));
                            }
                        }
                        Ok(false) => break,
                        Err(()) => return Ok(()),
                    }
                }
            }
            Ok(())
        })??;
    }
    o.class(if c.request { "request" } else { "response" });
    o.nontrivial(n > 20);
    Ok(())
}
/// accepts the request that came in through that entry (once more)
fn answer_all(e: Entry, bytes: &[u8]) -> Res {
    let rx = Pipe::with(bytes);
    rx.close();
    let tx = Pipe::new();
    let mut io = Io::new(&rx, &tx, if e == Entry::Async { Mode::Async } else { Mode::Blocking });
    io.calm_until = usize::MAX;
    match e {
        Entry::Sync => {
            if let Ok(u) = SyncIntoWs::into_ws(io) {
                if let Ok(mut x) = u.accept() {
                    let _ = x.recv_message();
                }
            }
        }
        Entry::Async => {
            if let Driven::Ok(u) = drive(AsyncIntoWs::into_ws(io), 10_000) {
                let _ = drive(u.accept(), 10_000);
            }
        }
        Entry::Pair => {
            let mut r = BufReader::new(bytes);
            if let Ok(q) = hyper::http::h1::parse_request(&mut r) {
                if let Ok(u) = SyncIntoWs::into_ws(RequestStreamPair(io, q)) {
                    let _ = u.reject();
                }
            }
        }
        Entry::Hyper => {
            let mut net = NetIo(io);
            let net: &mut dyn NetworkStream = &mut net;
            let mut br = BufReader::new(net);
            if let Ok(q) = hyper::server::Request::new(&mut br, "127.0.0.1:1".parse().unwrap()) {
                if let Ok(u) = SyncIntoWs::into_ws(HyperRequest(q)) {
                    let _ = u.accept();
                }
            }
        }
    }
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Values {
    lines: Vec<Vec<u8>>,
    method: String,
    names: Vec<u8>,
}
fn r01_values(c: &Values, o: &mut Obs) -> Res {
    let n: usize = c.lines.iter().map(|l| l.len() + 8).sum();
    fn one<H: Header>(l: &[Vec<u8>]) -> bool {
        H::parse_header(l).is_ok()
    }
    let l = &c.lines;
    thrifty(n, "protocols", || one::<WebSocketProtocol>(l))?;
    let ext = thrifty(n, "extensions", || one::<WebSocketExtensions>(l))?;
    thrifty(n, "key", || one::<WebSocketKey>(l))?;
    thrifty(n, "accept", || one::<WebSocketAccept>(l))?;
    thrifty(n, "version", || one::<WebSocketVersion>(l))?;
    thrifty(n, "origin", || one::<Origin>(l))?;
    for x in l {
        if let Ok(s) = std::str::from_utf8(x) {
            thrifty(n, "Extension::from_str", || Extension::from_str(s).map(|e| e.to_string()).is_ok())?;
            thrifty(n, "WebSocketKey::from_str", || WebSocketKey::from_str(s).is_ok())?;
            thrifty(n, "WebSocketAccept::from_str", || WebSocketAccept::from_str(s).is_ok())?;
        }
    }
    let names = ["Upgrade", "Connection", "Sec-WebSocket-Key", "Sec-WebSocket-Version", "Sec-WebSocket-Protocol", "Sec-WebSocket-Extensions", "Origin", "X"];
    let mut h = Headers::new();
    for (i, k) in c.names.iter().enumerate() {
        let v = l.get(i % l.len().max(1)).cloned().unwrap_or_default();
        h.set_raw(names[*k as usize % names.len()], vec![v]);
    }
    let m = Method::from_str(&c.method).unwrap_or(Method::Get);
    thrifty(n, "validate", || validate(&m, HttpVersion::Http11, &h).is_ok())?;
    o.class_if(ext, "extensions parsed");
    o.nontrivial(n > 10);
    Ok(())
}
fn values_case() -> BoxedStrategy<Values> {
    let line = prop_oneof![
        3 => vec(select(b";,= \t\"abz09/+-.\\".to_vec()), 0..40),
        2 => vec(any::<u8>(), 0..40),
        2 => gen::string(20).prop_map(|s| s.into_bytes()),
        1 => (select(b";,=a \"".to_vec()), 0usize..20_000).prop_map(|(c, n)| vec![c; n]),
        1 => (0usize..3000).prop_map(|n| "a;b=c,".repeat(n).into_bytes()),
        1 => ext().prop_map(|e| e.text().into_bytes()),
    ];
    (vec(line, 0..4), "[A-Z]{1,6}", vec(any::<u8>(), 0..8)).prop_map(|(lines, method, names)| Values { lines, method, names }).boxed()
}

// ------------------------------------------------------------------------------- R02

fn fault_kind() -> BoxedStrategy<u8> {
    (0..FAULTS.len() as u8).boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct TxFault {
    tx: TxCase,
    at: u16,
    /// index into FAULTS; beyond them: the writer accepts nothing more (Ok(0))
    kind: u8,
    exact: bool,
}
fn kind_of(k: u8) -> io::ErrorKind {
    FAULTS.get(k as usize).copied().unwrap_or(io::ErrorKind::WriteZero)
}
fn r02_send(c: &TxFault, o: &mut Obs) -> Res {
    let t0 = &c.tx;
    if t0.api == TxApi::Codec {
        return Ok(());
    }
    let masked = t0.role.masks();
    let lens: Vec<usize> = t0
        .items
        .iter()
        .map(|i| {
            let e = i.expect();
            if i.legal() {
                rfc::encode_header(e.0, e.1, e.2, None, e.3.len() as u64).len() + if masked { 4 } else { 0 } + e.3.len()
            } else {
                0
            }
        })
        .collect();
    let total: usize = lens.iter().sum();
    let mut at = c.at as usize * (total + 1) >> 16;
    if c.exact {
        // a boundary between two frames
        let mut sum = 0;
        for l in &lens {
            if sum + l > at {
                break;
            }
            sum += l;
        }
        at = sum;
    }
    let kind = kind_of(c.kind);
    let t = transmit(t0.api, t0.role, &t0.items, &t0.wplan, Some((at, kind)));
    ensure!(t.out.len() <= at, "more bytes out ({}) than accepted ({})", t.out.len(), at);
    let framed = t0.api == TxApi::Framed;
    let mut pos = 0;
    let mut error = t.fault.is_some();
    if let Some(f) = &t.fault {
        ensure!(framed && !f.contains("stalled") && !f.starts_with("handshake"), "{:?}: {}", t0.api, f);
    }
    let mut sum = 0;
    for (i, it) in t0.items.iter().enumerate() {
        sum += lens[i];
        let r = match t.results.get(i) {
            Some(r) => r,
            None => break,
        };
        if !it.legal() {
            ensure!(r.is_err(), "illegal item {} accepted", i);
            continue;
        }
        if !framed {
            ensure!(
                r.is_ok() == (sum <= at),
                "{:?}: item {} ({}..{} of the stream) reports {:?} although the transport fails at {}",
                t0.api, i, sum - lens[i], sum, r, at
            );
        }
        error |= r.is_err();
    }
    ensure!(error || total <= at, "{:?}: no error although the transport failed after {} of {} bytes", t0.api, at, total);
    // what came out is a prefix of the right stream
    for it in t0.items.iter().filter(|i| i.legal()) {
        let e = it.expect();
        let rest = &t.out[pos..];
        match match_frame(rest, &e, masked) {
            Ok(n) => pos += n,
            Err(m) => {
                ensure!(prefix_of_frame(rest, &e, masked), "{:?}: bytes accepted before the fault are not a prefix of the encoding: {}", t0.api, m);
                pos = t.out.len();
                break;
            }
        }
    }
    ensure!(pos == t.out.len(), "{:?}: {} bytes beyond the encoding", t0.api, t.out.len() - pos);
    o.class(format!("{:?}/{:?}", t0.api, t0.role));
    o.class(format!("{:?}", kind));
    o.class_if(total <= at, "no fault reached");
    o.nontrivial(at < total);
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct RxFault {
    h: Hist,
    fr: Option<FrApi>,
    at: u16,
    kind: Option<u8>,
}
fn r02_recv(c: &RxFault, o: &mut Obs) -> Res {
    let h = &c.h;
    let frames = h.frames();
    let bytes = gen::wire(&frames);
    let ends = gen::ends(&frames);
    let at = c.at as usize * (bytes.len() + 1) >> 16;
    let done = ends.iter().filter(|e| **e <= at).count();
    let e = rfc::reassemble(&frames[..done], h.role.expects_mask());
    let inside = done < frames.len() && at > if done == 0 { 0 } else { ends[done - 1] };
    let (given, rfail) = match c.kind {
        Some(k) => (&bytes[..], Some((at, FAULTS[k as usize % FAULTS.len()]))),
        None => (&bytes[..at], None),
    };
    let judge_end = |what: String, end: &End| -> Res {
        match (c.kind, end) {
            (_, End::Stall) => fail!("{}: stalls", what),
            (Some(_), End::Eof) => fail!("{}: a read error ({:?}) is reported as end of stream", what, rfail),
            (Some(_), End::Err(m)) => ensure!(m.starts_with("IoError"), "{}: a read error is reported as {}", what, m),
            (None, End::Err(m)) => ensure!(inside, "{}: end of stream between frames is reported as {}", what, m),
            (None, End::Eof) => {}
        }
        Ok(())
    };
    match c.fr {
        Some(fr) => {
            let r = recv_frames(fr, h.role, given, &h.plan, &[], None, true, rfail);
            ensure!(r.frames.len() == done, "{:?}: {} frames delivered, {} were complete (cut at {} of {})", fr, r.frames.len(), done, at, bytes.len());
            for (i, (g, w)) in r.frames.iter().zip(&frames).enumerate() {
                ensure!(g.fin == w.fin && g.op == w.op && g.payload == w.payload, "{:?}: frame {} differs", fr, i);
            }
            judge_end(format!("{:?}", fr), &r.end)?;
            o.class(format!("{:?}", fr));
        }
        None => {
            let r = receive_n(h.api, h.role, given, &h.plan, &[], None, true, rfail);
            if let Err(m) = e.judge(&r.msgs, false) {
                fail!("{:?}: cut at {} of {}: {}", h.api, at, bytes.len(), m);
            }
            judge_end(format!("{:?}", h.api), &r.end)?;
            o.class(format!("{:?}", h.api));
        }
    }
    o.class(if c.kind.is_some() { "read error" } else { "end of stream" });
    o.class_if(inside, "inside a frame");
    o.class_if(e.open, "inside a fragmented message");
    o.nontrivial(inside || e.open);
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Hand3 {
    Request,
    Accept,
    Reject,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct HeadFault {
    what: Hand3,
    sync: bool,
    extra: u16,
    wplan: Vec<u8>,
    rplan: Vec<u8>,
    /// writes fail at this place (1/65536 of the head)
    fault: Option<(u16, u8)>,
    dataframe: bool,
}
fn head_run(c: &HeadFault, wplan: &[u8], wfail: Option<(usize, io::ErrorKind)>) -> (Vec<u8>, Result<(), String>) {
    let server = c.what != Hand3::Request;
    let head = if server { request_head() } else { response_head() };
    let rx = Pipe::with(&head);
    let tx = Pipe::new();
    let mut io = Io::new(&rx, &tx, if c.sync { Mode::Blocking } else { Mode::Async }).plans(&c.rplan, wplan);
    io.calm_until = if c.sync { head.len() } else { 0 };
    io.wfail = wfail;
    let mut custom = Headers::new();
    if c.extra > 0 {
        custom.set_raw("X-Extra", vec![vec![b'e'; c.extra as usize]]);
    }
    let polls = (c.wplan.len() + c.rplan.len() + 4) * (c.extra as usize + 2000) + 100;
    let res = match (c.what, c.sync) {
        (Hand3::Request, true) => builder(None).custom_headers(&custom).connect_on(io).map(|_| ()).map_err(|e| err_name(&e)),
        (Hand3::Request, false) => match drive(builder(None).custom_headers(&custom).async_connect_on(io), polls) {
            Driven::Ok(_) => Ok(()),
            Driven::Err(e) => Err(err_name(&e)),
            Driven::Stall => Err("stalled".into()),
        },
        (w, true) => match SyncIntoWs::into_ws(io) {
            Ok(u) if w == Hand3::Accept => u.accept_with(&custom).map(|_| ()).map_err(|e| e.1.to_string()),
            Ok(u) => u.reject_with(&custom).map(|_| ()).map_err(|e| e.1.to_string()),
            Err(e) => Err(format!("refused {:?}", e.3)),
        },
        (w, false) => match drive(AsyncIntoWs::into_ws(io), polls) {
            Driven::Ok(u) if w == Hand3::Accept => match drive(u.accept_with(&custom), polls) {
                Driven::Ok(_) => Ok(()),
                Driven::Err(e) => Err(err_name(&e)),
                Driven::Stall => Err("stalled".into()),
            },
            Driven::Ok(u) => match drive(u.reject_with(&custom), polls) {
                Driven::Ok(_) => Ok(()),
                Driven::Err(e) => Err(e.to_string()),
                Driven::Stall => Err("stalled".into()),
            },
            Driven::Err(e) => Err(format!("refused {:?}", e.3)),
            Driven::Stall => Err("stalled".into()),
        },
    };
    (tx.take(), res)
}
fn r02_head(c: &HeadFault, o: &mut Obs) -> Res {
    let (reference, r) = head_run(c, &[], None);
    ensure!(r.is_ok(), "{:?} fails on a faultless transport: {:?}", c.what, r);
    if let Err(e) = rfc::parse_head(&reference) {
        fail!("{:?}: {}", c.what, e);
    }
    let fault = c.fault.map(|(at, k)| (at as usize * reference.len() >> 16, kind_of(k)));
    let (out, r) = head_run(c, &c.wplan, fault);
    match fault {
        None => {
            ensure!(r.is_ok(), "{:?} fails on a transport that accepts bytes piecemeal: {:?}", c.what, r);
            ensure!(out == reference, "{:?}: head written piecemeal is {:?}, expected {:?}", c.what, String::from_utf8_lossy(&out), String::from_utf8_lossy(&reference));
        }
        Some((at, k)) => {
            match &r {
                Ok(()) => fail!("{:?} sync={}: no error although the transport failed ({:?}) after {} of {} bytes", c.what, c.sync, k, at, reference.len()),
                Err(e) => ensure!(e != "stalled", "{:?} sync={}: stalls when the transport fails ({:?}) after {} bytes", c.what, c.sync, k, at),
            }
            ensure!(out.len() <= at && reference.starts_with(&out), "{:?}: bytes accepted before the fault are not a prefix: {:?}", c.what, String::from_utf8_lossy(&out));
        }
    }
    o.class(format!("{:?} sync={}", c.what, c.sync));
    o.class(if fault.is_some() { "fault" } else { "piecemeal" });
    o.nontrivial(fault.is_some() || !c.wplan.is_empty());
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct HeadRead {
    role: Role,
    sync: bool,
    pad: u16,
    at: u16,
    kind: Option<u8>,
    plan: Vec<u8>,
}
fn r02_head_read(c: &HeadRead, o: &mut Obs) -> Res {
    let mut head = c.role.head();
    head.truncate(head.len() - 2);
    head.extend_from_slice(format!("X-Pad: {}\r\n\r\n", "p".repeat(c.pad as usize)).as_bytes());
    let at = c.at as usize * head.len() >> 16;
    let rx = Pipe::with(if c.kind.is_some() { &head } else { &head[..at] });
    rx.close();
    let tx = Pipe::new();
    let mut io = Io::new(&rx, &tx, if c.sync { Mode::Blocking } else { Mode::Async }).plans(&c.plan, &[]);
    io.calm_until = if c.sync { head.len() } else { 0 };
    io.rfail = c.kind.map(|k| (at, FAULTS[k as usize % FAULTS.len()]));
    let polls = (c.plan.len() + 4) * (head.len() + 600) + 100;
    let r = if c.sync { sync_conn(c.role, io, None).map(|_| ()) } else { async_conn(c.role, io, None, polls).map(|_| ()) };
    match r {
        Ok(()) => fail!("{:?} sync={}: connected on {} of {} bytes of a head", c.role, c.sync, at, head.len()),
        Err(e) => ensure!(e != "stalled", "{:?} sync={}: stalls when the stream ends or fails inside the head", c.role, c.sync),
    }
    if c.role == Role::Server {
        ensure!(tx.len() == 0, "an answer was sent to an incomplete request");
    }
    o.class(format!("{:?} sync={} {}", c.role, c.sync, if c.kind.is_some() { "error" } else { "end" }));
    o.nontrivial(at > 0);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "R01",
            level: "exploration",
            assumptions: &[
                "in proportion means at most 1 MiB + 256 bytes per byte received",
                "hyper requests are free of Content-Length and Transfer-Encoding, which hyper itself interprets",
            ],
            suites: vec![
                suite(
                    "recv",
                    "arbitrary bytes, damaged histories and floods of tiny frames through every message and frame receiver with limits from 0 to the maximum; no panic, no hang, memory in proportion; non-trivial: two bytes or more",
                    opts(80_000, 8_000_000).hang(60),
                    hostile,
                    r01_recv,
                ),
                suite(
                    "announce",
                    "frame headers announcing up to 2^64-1 bytes with up to 100 kB following, after a valid history; non-trivial: more than 8 MiB announced",
                    opts(60_000, 4_000_000).hang(60),
                    announce,
                    r01_announce,
                ),
                suite(
                    "http",
                    "damaged request and response heads through all upgrade entries, both clients and the codecs, then accessors and answers; non-trivial: more than 20 bytes",
                    opts(14_000, 3_000_000).hang(60),
                    || {
                        any::<bool>()
                            .prop_flat_map(|request| {
                                (
                                    Just(request),
                                    noise(request),
                                    proptest::option::weighted(0.4, crate::http::request(true)),
                                    vec((any::<u16>(), any::<u8>()), 0..4),
                                    prop_oneof![1 => plan(), 2 => fast_plan()],
                                    any::<bool>(),
                                )
                            })
                            .prop_map(|(request, noise, good, edits, plan, close)| HttpCase { request, noise, good, edits, plan, close })
                            .boxed()
                    },
                    r01_http,
                ),
                suite(
                    "values",
                    "arbitrary header lines to every header parser and validate; non-trivial: more than 10 bytes",
                    opts(200_000, 12_000_000).hang(60),
                    values_case,
                    r01_values,
                ),
            ],
        },
        Prop {
            id: "R02",
            level: "exploration",
            assumptions: &["the blocking handshake may report an interrupted read as an error (reads are only interrupted after it)"],
            suites: vec![
                suite(
                    "send",
                    "frames and messages through six sending APIs on a transport accepting bytes piecemeal and failing at a chosen byte with one of seven faults; non-trivial: the fault is reached",
                    opts(120_000, 8_000_000),
                    || {
                        (tx_case(false), any::<u16>(), 0..=FAULTS.len() as u8, proptest::bool::weighted(0.2))
                            .prop_map(|(tx, at, kind, exact)| TxFault { tx, at, kind, exact })
                            .boxed()
                    },
                    r02_send,
                ),
                suite(
                    "recv",
                    "valid histories cut off or failing at any byte, through all message and frame receivers; non-trivial: inside a frame or fragmented message",
                    opts(120_000, 8_000_000),
                    || {
                        (hist(ALL_RX), proptest::option::weighted(0.4, select(ALL_FR.to_vec())), any::<u16>(), proptest::option::of(fault_kind()))
                            .prop_map(|(h, fr, at, kind)| RxFault { h, fr, at, kind })
                            .boxed()
                    },
                    r02_recv,
                ),
                suite(
                    "head",
                    "request, 101 and 400 heads written piecemeal or failing at any byte, blocking and asynchronous; non-trivial: fault or piecemeal",
                    opts(60_000, 4_000_000),
                    || {
                        (
                            select(vec![Hand3::Request, Hand3::Accept, Hand3::Reject]),
                            any::<bool>(),
                            prop_oneof![3 => Just(0u16), 1 => 1u16..3000, 1 => 8000u16..20_000],
                            plan(),
                            plan(),
                            proptest::option::weighted(0.6, (any::<u16>(), 0..=FAULTS.len() as u8)),
                        )
                            .prop_map(|(what, sync, extra, wplan, rplan, fault)| HeadFault { what, sync, extra, wplan, rplan, fault, dataframe: false })
                            .boxed()
                    },
                    r02_head,
                ),
                suite(
                    "head-read",
                    "handshake heads cut off or failing at any byte; non-trivial: some bytes arrived",
                    opts(60_000, 4_000_000),
                    || {
                        (role(), any::<bool>(), 0u16..300, any::<u16>(), proptest::option::of(fault_kind()), plan())
                            .prop_map(|(role, sync, pad, at, kind, plan)| HeadRead { role, sync, pad, at, kind, plan })
                            .boxed()
                    },
                    r02_head_read,
                ),
            ],
        },
    ]
}
