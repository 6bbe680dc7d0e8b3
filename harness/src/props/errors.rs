//! R03: errors say what went wrong.
use super::frames::{role, tx_case, wrong_mask, wrong_mask_bytes, TxCase, WrongMask};
use super::messages::{hist, wrong, wrong_reports, Hist, Wrong};
use super::tls::{any_cert, How, HOWS};
use crate::http::{names, request, Cond, Req};
use crate::api::*;
use crate::engine::*;
use crate::gen::{self, plan};
use crate::mock::*;
use crate::net::*;
use crate::rfc;
use hyper::header::Headers;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::error::Error;
use std::io::{self, Write};
use std::net::TcpListener;
use websocket::codec::http::HttpCodecError;
use websocket::result::{WSUrlErrorKind, WebSocketOtherError};
use websocket::server::upgrade::r#async::IntoWs as AsyncIntoWs;
use websocket::server::upgrade::sync::IntoWs as SyncIntoWs;
use websocket::server::r#async::Handle;
use websocket::server::upgrade::HyperIntoWsError;
use websocket::server::InvalidConnection;
use futures::Stream;
use websocket::{ClientBuilder, WebSocketError};

/// kinds that no receiver may treat as "try again" or as the end
pub const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::ConnectionRefused,
    io::ErrorKind::NotConnected,
    io::ErrorKind::TimedOut,
    io::ErrorKind::Other,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::InvalidData,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::NotFound,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::AddrInUse,
    io::ErrorKind::WriteZero,
];
fn kind(k: u8) -> io::ErrorKind {
    KINDS[k as usize % KINDS.len()]
}

/// What an error says, whichever variant says it.
#[derive(Clone, Debug, PartialEq)]
enum Cause {
    Io(io::ErrorKind),
    NoData,
    Protocol(String),
    Frame,
    Utf8,
    Http,
    Tls,
    Url(String),
    Status,
    Condition,
    Foreign(String),
    Stalled,
}
fn http_cause(e: &hyper::Error) -> Cause {
    match e {
        hyper::Error::Io(e) => Cause::Io(e.kind()),
        _ => Cause::Http,
    }
}
/// `source` leads to an I/O error of the right kind
fn leads_to(e: &dyn Error, k: io::ErrorKind) -> bool {
    let mut s = e.source();
    while let Some(x) = s {
        if x.downcast_ref::<io::Error>().map_or(false, |i| i.kind() == k) {
            return true;
        }
        if let Some(hyper::Error::Io(i)) = x.downcast_ref::<hyper::Error>() {
            return i.kind() == k;
        }
        s = x.source();
    }
    false
}
fn texts(e: &dyn Error, c: &Cause, what: &str) -> Res {
    ensure!(!e.to_string().trim().is_empty(), "{}: the error has no text: {:?}", what, e);
    if let Cause::Io(k) = c {
        ensure!(leads_to(e, *k), "{}: the source of {:?} is {:?}", what, e, e.source());
    }
    Ok(())
}
fn cause(e: &WebSocketError) -> Cause {
    match e {
        WebSocketError::ProtocolError(m) => Cause::Protocol(m.to_string()),
        WebSocketError::DataFrameError(_) => Cause::Frame,
        WebSocketError::NoDataAvailable => Cause::NoData,
        WebSocketError::IoError(e) => Cause::Io(e.kind()),
        WebSocketError::Utf8Error(_) => Cause::Utf8,
        WebSocketError::Other(x) => match x.downcast_ref::<WebSocketOtherError>() {
            None => Cause::Foreign(x.to_string()),
            Some(WebSocketOtherError::IoError(e)) => Cause::Io(e.kind()),
            Some(WebSocketOtherError::HttpError(e)) => http_cause(e),
            Some(WebSocketOtherError::ProtocolError(m)) => Cause::Protocol(m.to_string()),
            Some(WebSocketOtherError::TlsError(_)) | Some(WebSocketOtherError::TlsHandshakeFailure) => Cause::Tls,
            Some(WebSocketOtherError::WebSocketUrlError(k)) => Cause::Url(format!("{:?}", k)),
            Some(WebSocketOtherError::StatusCodeError(_)) | Some(WebSocketOtherError::RedirectError(..)) => Cause::Status,
            Some(o) => Cause::Foreign(format!("{:?}", o)),
        },
    }
}
fn of_ws(e: &WebSocketError, what: &str) -> Result<Cause, Fail> {
    let c = cause(e);
    texts(e, &c, what)?;
    Ok(c)
}
fn of_upgrade(e: &HyperIntoWsError, what: &str) -> Result<Cause, Fail> {
    let c = match e {
        HyperIntoWsError::Io(e) => Cause::Io(e.kind()),
        HyperIntoWsError::Parsing(e) => http_cause(e),
        _ => Cause::Condition,
    };
    texts(e, &c, what)?;
    Ok(c)
}

// ------------------------------------------------------------------------------- established connections

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RxFault {
    h: Hist,
    fr: Option<FrApi>,
    at: u16,
    kind: u8,
}
fn recv(c: &RxFault, o: &mut Obs) -> Res {
    let h = &c.h;
    let frames = h.frames();
    let bytes = gen::wire(&frames);
    let at = c.at as usize * (bytes.len() + 1) >> 16;
    let k = kind(c.kind);
    let rfail = Some((at, k));
    let (who, end) = match c.fr {
        Some(fr) => (format!("{:?}", fr), recv_frames(fr, h.role, &bytes, &h.plan, &[], None, true, rfail).end),
        None => (format!("{:?}", h.api), receive_n(h.api, h.role, &bytes, &h.plan, &[], None, true, rfail).end),
    };
    let want = End::Err(format!("IoError({:?})", k));
    ensure!(end == want, "{}: a read failing with {:?} after {} of {} bytes is reported as {:?}", who, k, at, bytes.len(), end);
    o.class(who);
    o.class(format!("{:?}", k));
    o.nontrivial(at > 0);
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct TxFault {
    tx: TxCase,
    at: u16,
    kind: u8,
}
fn send(c: &TxFault, o: &mut Obs) -> Res {
    let t0 = &c.tx;
    let k = kind(c.kind);
    let clean = transmit(t0.api, t0.role, &t0.items, &[], None);
    let total = clean.out.len();
    let at = c.at as usize * (total + 1) >> 16;
    let t = transmit(t0.api, t0.role, &t0.items, &t0.wplan, Some((at, k)));
    let want = format!("IoError({:?})", k);
    let mut seen = 0;
    for (i, r) in t.results.iter().enumerate() {
        if let Err(m) = r {
            if t0.items[i].legal() {
                ensure!(*m == want, "{:?}: a write failing with {:?} after {} bytes is reported as {}", t0.api, k, at, m);
                seen += 1;
            } else {
                ensure!(*m != want, "{:?}: an item that cannot be sent is reported as {}", t0.api, m);
            }
        }
    }
    if let Some(m) = &t.fault {
        ensure!(*m == want, "{:?}: a write failing with {:?} after {} bytes is reported as {}", t0.api, k, at, m);
        seen += 1;
    }
    o.class(format!("{:?}", t0.api));
    o.class_if(seen > 0, format!("{:?}", k));
    o.nontrivial(seen > 0);
    Ok(())
}

// ------------------------------------------------------------------------------- handshakes

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Trouble {
    /// reading fails
    Read(u16, u8),
    /// the stream ends
    End(u16),
    /// writing fails
    Write(u16, u8),
    /// a head that is no HTTP; which, and where
    Broken(u8, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct HeadCase {
    role: Role,
    sync: bool,
    reject: bool,
    trouble: Trouble,
    extra: u16,
    pad: u16,
    plan: Vec<u8>,
    wplan: Vec<u8>,
}
fn head_case() -> BoxedStrategy<HeadCase> {
    let trouble = prop_oneof![
        2 => (any::<u16>(), any::<u8>()).prop_map(|(a, k)| Trouble::Read(a, k)),
        1 => any::<u16>().prop_map(Trouble::End),
        2 => (any::<u16>(), any::<u8>()).prop_map(|(a, k)| Trouble::Write(a, k)),
        2 => (0u8..6, any::<u8>()).prop_map(|(a, k)| Trouble::Broken(a, k)),
    ];
    (role(), any::<bool>(), any::<bool>(), trouble, prop_oneof![3 => Just(0u16), 1 => 0u16..3000, 1 => 8000u16..20_000], 0u16..200, plan(), plan())
        .prop_map(|(role, sync, reject, trouble, extra, pad, plan, wplan)| HeadCase { role, sync, reject, trouble, extra, pad, plan, wplan })
        .boxed()
}
/// the head with one of its lines replaced by something that is none
pub fn break_head(head: &[u8], how: u8, at: u8) -> Vec<u8> {
    let s = String::from_utf8(head.to_vec()).unwrap();
    let mut lines: Vec<String> = s.trim_end_matches("\r\n").split("\r\n").map(String::from).collect();
    let n = 1 + at as usize % (lines.len() - 1);
    match how {
        0 => lines.insert(n, "no colon here".into()),
        1 => lines.insert(n, "bad name : x".into()),
        2 => lines.insert(n, "X-Control: a\u{1}b".into()),
        3 => lines[0] = "\u{1}\u{2}\u{3}".into(),
        4 => lines[0] = lines[0].replace("HTTP/1.1", "HTTQ/1.1"),
        _ => lines.insert(n, "na\u{7f}me: x".into()),
    }
    (lines.join("\r\n") + "\r\n\r\n").into_bytes()
}
fn head_run(c: &HeadCase, wfail: Option<(usize, io::ErrorKind)>, rfail: Option<(usize, io::ErrorKind)>, head: &[u8], o: &mut usize) -> Result<Result<(), Cause>, Fail> {
    let rx = Pipe::with(head);
    rx.close();
    let tx = Pipe::new();
    let mut io = Io::new(&rx, &tx, if c.sync { Mode::Blocking } else { Mode::Async }).plans(&c.plan, &c.wplan);
    io.calm_until = if c.sync { head.len() } else { 0 };
    io.rfail = rfail;
    io.wfail = wfail;
    let mut custom = Headers::new();
    if c.extra > 0 {
        custom.set_raw("X-Extra", vec![vec![b'e'; c.extra as usize]]);
    }
    let polls = (c.wplan.len() + c.plan.len() + 4) * (c.extra as usize + head.len() + 2000) + 100;
    let ws = |e: WebSocketError, what: &str| of_ws(&e, what).map(Err);
    let r = match (c.role, c.sync) {
        (Role::Client, true) => match builder(None).custom_headers(&custom).connect_on(io) {
            Ok(_) => Ok(Ok(())),
            Err(e) => ws(e, "connect_on"),
        },
        (Role::Client, false) => match drive(builder(None).custom_headers(&custom).async_connect_on(io), polls) {
            Driven::Ok(_) => Ok(Ok(())),
            Driven::Err(e) => ws(e, "async_connect_on"),
            Driven::Stall => Ok(Err(Cause::Stalled)),
        },
        (Role::Server, true) => match SyncIntoWs::into_ws(io) {
            Ok(u) => {
                let r = if c.reject { u.reject_with(&custom).map(|_| ()).map_err(|e| e.1) } else { u.accept_with(&custom).map(|_| ()).map_err(|e| e.1) };
                Ok(r.map_err(|e| Cause::Io(e.kind())))
            }
            Err((_, parsed, _, e)) => {
                ensure!(parsed.is_none(), "a request is said to be parsed, but {:?}", e);
                of_upgrade(&e, "into_ws").map(Err)
            }
        },
        (Role::Server, false) => match drive(AsyncIntoWs::into_ws(io), polls) {
            Driven::Ok(u) if c.reject => match drive(u.reject_with(&custom), polls) {
                Driven::Ok(_) => Ok(Ok(())),
                Driven::Err(e) => Ok(Err(Cause::Io(e.kind()))),
                Driven::Stall => Ok(Err(Cause::Stalled)),
            },
            Driven::Ok(u) => match drive(u.accept_with(&custom), polls) {
                Driven::Ok(_) => Ok(Ok(())),
                Driven::Err(e) => ws(e, "accept"),
                Driven::Stall => Ok(Err(Cause::Stalled)),
            },
            Driven::Err((_, parsed, _, e)) => {
                ensure!(parsed.is_none(), "a request is said to be parsed, but {:?}", e);
                of_upgrade(&e, "into_ws").map(Err)
            }
            Driven::Stall => Ok(Err(Cause::Stalled)),
        },
    };
    *o = tx.len();
    r
}
fn head(c: &HeadCase, o: &mut Obs) -> Res {
    let mut head = c.role.head();
    head.truncate(head.len() - 2);
    head.extend_from_slice(format!("X-Pad: {}\r\n\r\n", "p".repeat(c.pad as usize)).as_bytes());
    let who = format!("{:?} {}", c.role, if c.sync { "blocking" } else { "asynchronous" });
    let mut n = 0;
    match c.trouble {
        Trouble::Read(at, k) => {
            let at = at as usize * head.len() >> 16;
            let r = head_run(c, None, Some((at, kind(k))), &head, &mut n)?;
            ensure!(r == Err(Cause::Io(kind(k))), "{}: reading the head fails with {:?} after {} of {} bytes, reported is {:?}", who, kind(k), at, head.len(), r);
            o.class("read");
        }
        Trouble::End(at) => {
            let at = at as usize * head.len() >> 16;
            let r = head_run(c, None, None, &head[..at], &mut n)?;
            ensure!(
                matches!(r, Err(Cause::Io(_)) | Err(Cause::NoData) | Err(Cause::Protocol(_))),
                "{}: the stream ends after {} of {} bytes of the head, reported is {:?}", who, at, head.len(), r
            );
            o.class("end");
        }
        Trouble::Write(at, k) => {
            let mut c0 = c.clone();
            c0.wplan.clear();
            let r = head_run(&c0, None, None, &head, &mut n)?;
            ensure!(r == Ok(()), "{}: fails on a faultless transport: {:?}", who, r);
            let at = at as usize * n >> 16;
            let r = head_run(c, Some((at, kind(k))), None, &head, &mut n)?;
            ensure!(r == Err(Cause::Io(kind(k))), "{}: writing the head fails with {:?} after {} bytes, reported is {:?}", who, kind(k), at, r);
            o.class(if c.reject && c.role == Role::Server { "write of a rejection" } else { "write" });
        }
        Trouble::Broken(how, at) => {
            let bytes = break_head(&head, how, at);
            let r = head_run(c, None, None, &bytes, &mut n)?;
            ensure!(r == Err(Cause::Http), "{}: the head {:?} is reported as {:?}", who, String::from_utf8_lossy(&bytes), r);
            o.class("no HTTP");
        }
    }
    o.class(who);
    o.nontrivial(true);
    Ok(())
}

// ------------------------------------------------------------------------------- what the peer did wrong

fn misdeed(w: &Wrong, o: &mut Obs) -> Res {
    let (what, end, direct, text) = match wrong_reports(w) {
        Some(r) => r,
        None => return Ok(()),
    };
    let fits = |m: &str| {
        if text {
            m == "Utf8Error"
        } else {
            m.starts_with("ProtocolError(") || m.starts_with("DataFrameError(")
        }
    };
    match &end {
        End::Err(m) if fits(m) => {}
        e => fail!("{}: reported as {:?}", what, e),
    }
    for m in &direct {
        ensure!(fits(m), "{}: forming a message from the frames is reported as {}", what, m);
    }
    o.class(what);
    o.nontrivial(true);
    Ok(())
}
fn masking(c: &WrongMask, o: &mut Obs) -> Res {
    let bytes = wrong_mask_bytes(c);
    let (fr, rx, role, plan) = c.parts();
    for (who, end) in [
        (format!("{:?}", fr), recv_frames(fr, role, &bytes, plan, &[], None, true, None).end),
        (format!("{:?}", rx), receive(rx, role, &bytes, plan, &[], None).end),
    ] {
        ensure!(
            matches!(&end, End::Err(m) if m.starts_with("DataFrameError(") || m.starts_with("ProtocolError(")),
            "{}: a frame masked the wrong way is reported as {:?}", who, end
        );
        o.class(who);
    }
    o.nontrivial(true);
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct TooMuch {
    fr: FrApi,
    rx: RxApi,
    role: Role,
    limit: u32,
    over: u64,
    /// sent as fragments that only exceed the message limit together
    fragments: bool,
    seed: u32,
    plan: Vec<u8>,
}
/// reports on which callers carry on or take the connection for finished
fn harmless(m: &str) -> bool {
    ["NoDataAvailable", "IoError(WouldBlock)", "IoError(Interrupted)", "IoError(TimedOut)", "IoError(UnexpectedEof)"].contains(&m)
}
fn too_much(c: &TooMuch, o: &mut Obs) -> Res {
    let mask = if c.role.expects_mask() { Some([3, 1, 4, c.seed as u8]) } else { None };
    let judge = |who: String, end: End| match &end {
        End::Err(m) if !harmless(m) && (!c.fragments || m.starts_with("ProtocolError(")) => Ok(()),
        e => Err(Fail::Violation(format!("{}: exceeding a limit of {} is reported as {:?}", who, c.limit, e))),
    };
    if c.fragments {
        let half = c.limit / 2 + 1;
        let mut f: Vec<_> = (0..4u8).map(|i| rfc::Frame::new(false, if i == 0 { 2 } else { 0 }, gen::fill(half as usize, c.seed))).collect();
        gen::mask_frames(&mut f, c.role.expects_mask(), c.seed);
        let r = receive_n(c.rx, c.role, &gen::wire(&f), &c.plan, &[], Some((c.limit as u64, c.limit as u64)), false, None);
        judge(format!("{:?}", c.rx), r.end)?;
        o.class("message");
    } else {
        let bytes = rfc::encode_header(true, [false; 3], 2, mask, (c.limit as u64).saturating_add(c.over));
        judge(format!("{:?}", c.fr), recv_frames(c.fr, c.role, &bytes, &c.plan, &[], Some(c.limit as u64), false, None).end)?;
        judge(format!("{:?}", c.rx), receive_n(c.rx, c.role, &bytes, &c.plan, &[], Some((c.limit as u64, u32::MAX as u64)), false, None).end)?;
        o.class("frame");
    }
    o.nontrivial(true);
    Ok(())
}

// ------------------------------------------------------------------------------- errors as values

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Value {
    kind: u8,
    text: String,
    status: u16,
    bad: Vec<u8>,
}
fn values(c: &Value, o: &mut Obs) -> Res {
    let k = kind(c.kind);
    let io = || io::Error::new(k, c.text.clone());
    let same = |got: Cause, what: &str| -> Res {
        ensure!(got == Cause::Io(k), "{}: an I/O error of kind {:?} becomes {:?}", what, k, got);
        Ok(())
    };
    same(of_ws(&WebSocketError::from(io()), "WebSocketError::from")?, "WebSocketError::from")?;
    same(of_upgrade(&HyperIntoWsError::from(io()), "HyperIntoWsError::from")?, "HyperIntoWsError::from")?;
    let e = HyperIntoWsError::from(hyper::Error::from(io()));
    same(of_upgrade(&e, "HyperIntoWsError::from(hyper)")?, "HyperIntoWsError::from(hyper)")?;
    same(cause(&WebSocketOtherError::from(io_codec(io(), false)).into()), "from an HTTP codec's I/O error")?;
    same(cause(&WebSocketOtherError::from(io_codec(io(), true)).into()), "from an HTTP codec's hyper error")?;
    same(of_upgrade(&io_codec(io(), false).into(), "HTTP codec error to upgrade error")?, "HTTP codec error to upgrade error")?;
    same(of_upgrade(&io_codec(io(), true).into(), "HTTP codec error to upgrade error")?, "HTTP codec error to upgrade error")?;
    for hy in [false, true] {
        let e = io_codec(io(), hy);
        ensure!(!e.to_string().is_empty() && leads_to(&e, k), "the source of {:?} is {:?}", e, e.source());
        let e: WebSocketError = WebSocketOtherError::from(e).into();
        same(of_ws(&e, "HTTP codec error")?, "HTTP codec error")?;
        let e = if hy { HyperIntoWsError::from(hyper::Error::from(io())) } else { HyperIntoWsError::from(io()) };
        let e: WebSocketError = WebSocketOtherError::from(e).into();
        same(of_ws(&e, "upgrade error")?, "upgrade error")?;
    }
    same(of_ws(&WebSocketOtherError::IoError(io()).into(), "other I/O error")?, "other I/O error")?;
    same(of_ws(&WebSocketOtherError::from(hyper::Error::from(io())).into(), "other HTTP error")?, "other HTTP error")?;
    ensure!(WebSocketOtherError::IoError(io()).to_string().contains(&c.text), "the text of an I/O error is lost: {}", WebSocketOtherError::IoError(io()));
    // the end of the stream
    ensure!(
        matches!(WebSocketError::from(io::Error::new(io::ErrorKind::UnexpectedEof, c.text.clone())), WebSocketError::NoDataAvailable),
        "the end of the stream is not NoDataAvailable"
    );
    // text
    match std::str::from_utf8(&c.bad) {
        Ok(_) => {}
        Err(u) => match WebSocketError::from(u) {
            WebSocketError::Utf8Error(ref g) if *g == u => {
                let e = WebSocketError::from(u);
                ensure!(e.source().and_then(|s| s.downcast_ref::<std::str::Utf8Error>()) == Some(&u), "the source of a text error is {:?}", e.source());
                o.class("text");
            }
            e => fail!("a text error becomes {}", err_name(&e)),
        },
    }
    // statuses
    let st = hyper::status::StatusCode::from_u16(c.status);
    let e: WebSocketError = WebSocketOtherError::StatusCodeError(st).into();
    ensure!(e.to_string().contains(&c.status.to_string()), "{:?} for status {}", e.to_string(), c.status);
    let e: WebSocketError = WebSocketOtherError::RedirectError(st, c.text.clone()).into();
    let t = e.to_string();
    ensure!(t.contains(&c.status.to_string()) && t.contains(&c.text), "{:?} for a redirect ({}) to {:?}", t, c.status, c.text);
    match &e {
        WebSocketError::Other(x) => match x.downcast_ref::<WebSocketOtherError>() {
            Some(WebSocketOtherError::RedirectError(s, l)) => ensure!(*s == st && *l == c.text, "redirect changed to {} {:?}", s, l),
            x => fail!("redirect became {:?}", x),
        },
        x => fail!("redirect became {}", err_name(x)),
    }
    // URLs
    for (k, words) in [
        (WSUrlErrorKind::CannotSetFragment, "fragment"),
        (WSUrlErrorKind::InvalidScheme, "scheme"),
        (WSUrlErrorKind::NoHostName, "host"),
    ] {
        let name = format!("{:?}", k);
        let e: WebSocketError = WebSocketOtherError::from(k).into();
        let got = of_ws(&e, "URL error")?;
        ensure!(got == Cause::Url(name.clone()), "{} becomes {:?}", name, got);
        ensure!(e.to_string().to_lowercase().contains(words), "{} reads {:?}", name, e.to_string());
        ensure!(e.source().is_some(), "{} has no source", name);
    }
    let u = match websocket::url::Url::parse("ws://[bad") {
        Ok(_) => fail!("url crate"),
        Err(e) => e,
    };
    let e: WebSocketError = WebSocketOtherError::from(u).into();
    ensure!(
        e.source().and_then(|s| s.downcast_ref::<websocket::client::ParseError>()) == Some(&u) && e.to_string().contains(&u.to_string()),
        "{:?} for {:?}", e, u
    );
    // a refusing server's conditions
    use HyperIntoWsError::*;
    for (e, word) in [
        (MethodNotGet, "method"),
        (UnsupportedHttpVersion, "http version"),
        (UnsupportedWebsocketVersion, "websocket version"),
        (NoSecWsKeyHeader, "key"),
        (NoWsUpgradeHeader, "upgrade"),
        (NoUpgradeHeader, "upgrade"),
        (NoWsConnectionHeader, "connection"),
        (NoConnectionHeader, "connection"),
    ] {
        let name = format!("{:?}", e);
        ensure!(e.to_string().to_lowercase().contains(word), "{} reads {:?}", name, e.to_string());
        ensure!(e.source().is_none(), "{} has a source", name);
        match of_ws(&WebSocketOtherError::from(e).into(), "condition")? {
            Cause::Protocol(m) => ensure!(m.to_lowercase().contains(word), "{} becomes {:?}", name, m),
            x => fail!("{} becomes {:?}", name, x),
        }
    }
    o.class(format!("{:?}", k));
    o.nontrivial(true);
    Ok(())
}
fn io_codec(e: io::Error, hy: bool) -> HttpCodecError {
    if hy {
        HttpCodecError::from(hyper::Error::from(e))
    } else {
        HttpCodecError::from(e)
    }
}

// ------------------------------------------------------------------------------- connecting

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Far {
    /// nobody listens
    Closed,
    /// the URL names no host
    NoHost(u8),
    /// the peer hangs up at once
    HangUp,
    /// the peer answers with something else (TLS expected: no TLS; else: no HTTP)
    Babble(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Dial {
    how: How,
    tls: bool,
    far: Far,
}
fn dial(c: &Dial, o: &mut Obs) -> Res {
    patient(c, o, dial_once)
}
fn dial_once(c: &Dial, o: &mut Obs) -> Res {
    let scheme = if c.tls { "wss" } else { "ws" };
    let tls = c.how.tls(scheme);
    let ip = fresh_ip();
    let l = env(TcpListener::bind((ip, 0)), "bind")?;
    let port = env(l.local_addr(), "local_addr")?.port();
    let mut url = format!("{}://{}:{}/x", scheme, ip, port);
    let mut peer = None;
    match c.far {
        Far::Closed => drop(l),
        Far::NoHost(k) => {
            url = ["unix:/run/some.socket", "mailto:some@one.example", "data:text/plain,x", "x-y:z"][k as usize % 4].to_string();
        }
        Far::HangUp => {
            peer = Some(side(move || {
                if let Some(s) = accept_within(&l, WAIT) {
                    // read what is there so that the end is no reset
                    let _ = s.set_read_timeout(Some(WAIT));
                    let mut b = [0u8; 4096];
                    let _ = io::Read::read(&mut &s, &mut b);
                    drop(s);
                }
                Ok(())
            }));
        }
        Far::Babble(k) => {
            peer = Some(side(move || {
                if let Some(s) = accept_within(&l, WAIT) {
                    let _ = s.set_read_timeout(Some(WAIT));
                    let mut b = [0u8; 4096];
                    let _ = io::Read::read(&mut &s, &mut b);
                    let g: [&[u8]; 4] = [b"HELLO THERE, THIS IS NOT IT\r\n\r\n", b"\x00\x01\x02\x03\x04\x05\x06\x07\r\n\r\n", b"SSH-2.0-OpenSSH_9.6\r\n\r\n", b"220 mail.example ESMTP\r\n\r\n"];
                    let _ = (&s).write_all(g[k as usize % 4]);
                    // stay until the client is gone
                    let _ = io::Read::read(&mut &s, &mut b);
                }
                Ok(())
            }));
        }
    }
    let mut b = match ClientBuilder::new(&url) {
        Ok(b) => b,
        Err(e) => fail!("{}: {}", url, e),
    };
    let r: Result<(), WebSocketError> = match c.how {
        How::Connect => b.connect(None).map(|_| ()),
        How::Insecure => b.connect_insecure().map(|_| ()),
        How::Secure => b.connect_secure(None).map(|_| ()),
        How::AConnect => on_runtime(b.async_connect(None))?.map(|_| ()),
        How::AInsecure => on_runtime(b.async_connect_insecure())?.map(|_| ()),
        How::ASecure => on_runtime(b.async_connect_secure(None))?.map(|_| ()),
    };
    if let Some(p) = peer {
        p.join("the peer")?;
    }
    let what = format!("{:?} to {}", c.how, url);
    let e = match r {
        Ok(()) => fail!("{}: connected", what),
        Err(e) => of_ws(&e, &what)?,
    };
    let fine = match c.far {
        Far::Closed => e == Cause::Io(io::ErrorKind::ConnectionRefused),
        Far::NoHost(_) => e == Cause::Url("NoHostName".into()),
        Far::HangUp if tls => matches!(e, Cause::Tls | Cause::Io(_)),
        Far::HangUp => matches!(e, Cause::Io(_) | Cause::NoData | Cause::Protocol(_)),
        Far::Babble(_) if tls => e == Cause::Tls,
        Far::Babble(_) => e == Cause::Http,
    };
    ensure!(fine, "{} ({:?}): reported as {:?}", what, c.far, e);
    o.class(format!("{:?}", c.how));
    o.class(match c.far {
        Far::Closed => "refused",
        Far::NoHost(_) => "no host",
        Far::HangUp => "hang up",
        Far::Babble(_) => "babble",
    });
    o.nontrivial(true);
    Ok(())
}

// ------------------------------------------------------------------------------- serving

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Caller {
    /// no HTTP
    Broken(u8, u8),
    /// hangs up inside the head
    Cut(u16),
    /// a request that must be refused (or not)
    Request(Req),
    /// does not speak TLS where it is expected
    NoTls(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Knock {
    sync: bool,
    tls: bool,
    iter: bool,
    who: Caller,
}
fn knock(c: &Knock, o: &mut Obs) -> Res {
    patient(c, o, knock_once)
}
/// what a server said about a connection it did not take
struct Refused {
    stream: bool,
    parsed: Option<String>,
    error: HyperIntoWsError,
}
fn refused<S: websocket::stream::Stream, B>(e: InvalidConnection<S, B>) -> Refused {
    Refused { stream: e.stream.is_some(), parsed: e.parsed.map(|r| r.subject.1.to_string()), error: e.error }
}
fn knock_once(c: &Knock, o: &mut Obs) -> Res {
    let ip = fresh_ip();
    // (what is sent, whether the sending side is closed behind it)
    let (bytes, finish) = match &c.who {
        Caller::Broken(how, at) => (break_head(&Role::Server.head(), *how, *at), false),
        Caller::Cut(at) => {
            let h = Role::Server.head();
            (h[..*at as usize * h.len() >> 16].to_vec(), true)
        }
        Caller::Request(r) => (r.bytes(), false),
        Caller::NoTls(k) => ([&b"GET / HTTP/1.1\r\nHost: x\r\n\r\n"[..], b"\x00\x01\x02\x03\x04\x05\x06\x07\r\n\r\n", b"\x16\x03\x01\xff\xff\x00\x00", b"x"][*k as usize % 4].to_vec(), true),
    };
    let tls = c.tls && !matches!(c.who, Caller::NoTls(_));
    let call = move |to: std::net::SocketAddr| {
        side(move || {
            let mut s = raw(env(std::net::TcpStream::connect(to), "connect")?);
            // what the server makes of it is its own affair; this side only must not go away too early
            if tls {
                let mut s = match any_cert().connect("127.0.0.1", s.s) {
                    Ok(s) => s,
                    Err(e) => fail!("TLS handshake with the server: {}", e),
                };
                let _ = s.write_all(&bytes);
                if finish {
                    let _ = s.shutdown();
                }
                let _ = io::Read::read(&mut s, &mut [0u8; 4096]);
            } else {
                let _ = s.s.write_all(&bytes);
                if finish {
                    s.finish();
                }
                let _ = io::Read::read(&mut s.s, &mut [0u8; 4096]);
            }
            Ok(())
        })
    };
    macro_rules! sync {
        ($s:expr) => {{
            let mut s = env($s, "bind")?;
            let p = call(env(s.local_addr(), "local_addr")?);
            let r = if c.iter {
                match s.next() {
                    Some(r) => r,
                    None => fail!("the server's iterator ends"),
                }
            } else {
                s.accept()
            };
            (r.map(|_| ()).map_err(refused), p)
        }};
    }
    macro_rules! asynchronous {
        ($s:expr) => {{
            let mut rt = env(tokio::runtime::current_thread::Runtime::new(), "runtime")?;
            let s = env(rt.block_on(futures::future::lazy(|| $s)), "bind")?;
            let p = call(env(s.local_addr(), "local_addr")?);
            let r = match rt.block_on(s.incoming().into_future()) {
                Ok((Some(_), _)) => Ok(()),
                Ok((None, _)) => fail!("the server's stream ends"),
                Err((e, _)) => Err(refused(e)),
            };
            (r, p)
        }};
    }
    let h = Handle::default();
    let (r, p) = match (c.sync, c.tls) {
        (true, false) => sync!(websocket::sync::Server::bind((ip, 0))),
        (true, true) => sync!(websocket::sync::Server::bind_secure((ip, 0), Cert::Good.acceptor())),
        (false, false) => asynchronous!(websocket::r#async::Server::bind((ip, 0), &h)),
        (false, true) => asynchronous!(websocket::r#async::Server::bind_secure((ip, 0), Cert::Good.acceptor(), &h)),
    };
    p.join("the caller")?;
    let what = format!("{} {} server", if c.sync { "blocking" } else { "asynchronous" }, if c.tls { "secure" } else { "plain" });
    let r = match r {
        Ok(()) => None,
        Err(r) => {
            texts(&r.error, &of_upgrade(&r.error, &what)?, &what)?;
            Some(r)
        }
    };
    match (&c.who, r) {
        (Caller::Request(q), None) => {
            let v = q.violated();
            ensure!(v.is_empty() || v == [Cond::Key] && q.maybe_key(), "{}: takes a request that violates {:?}", what, q.violated());
            o.class("taken");
        }
        (w, None) => fail!("{}: takes {:?} for a request", what, w),
        (Caller::Request(q), Some(r)) => {
            let v = q.violated();
            ensure!(names(&r.error, &v), "{}: a request that violates {:?} is refused with {:?}", what, v, r.error);
            ensure!(r.stream && r.parsed.as_deref() == Some(&q.target), "{}: a refused request for {} comes back as {:?}, stream {}", what, q.target, r.parsed, r.stream);
            o.class(format!("{:?}", r.error));
        }
        (Caller::Broken(..), Some(r)) => {
            ensure!(of_upgrade(&r.error, &what)? == Cause::Http, "{}: a head that is no HTTP is reported as {:?}", what, r.error);
            ensure!(r.stream && r.parsed.is_none(), "{}: no HTTP, yet request {:?}, stream {}", what, r.parsed, r.stream);
            o.class("no HTTP");
        }
        (Caller::Cut(_), Some(r)) => {
            ensure!(matches!(of_upgrade(&r.error, &what)?, Cause::Io(_)), "{}: a caller that hangs up is reported as {:?}", what, r.error);
            ensure!(r.stream && r.parsed.is_none(), "{}: cut head, yet request {:?}, stream {}", what, r.parsed, r.stream);
            o.class("cut");
        }
        (Caller::NoTls(_), Some(r)) => {
            let k = of_upgrade(&r.error, &what)?;
            ensure!(matches!(k, Cause::Io(_)) || !c.tls, "{}: a caller without TLS is reported as {:?}", what, r.error);
            ensure!(r.parsed.is_none() || !c.tls, "{}: no TLS, yet request {:?}", what, r.parsed);
            o.class("no TLS");
        }
    }
    o.class(what);
    o.nontrivial(true);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "R03",
        level: "exploration",
        assumptions: &[
            "an I/O error may be held by any variant that can hold one; which one is free",
            "the end of the stream inside a head may be an I/O error of any kind or a protocol error",
        ],
        suites: vec![
            suite(
                "recv",
                "valid histories on a transport failing at any byte with one of 14 kinds, through all message and frame receivers; non-trivial: not at the first byte",
                opts(60_000, 4_000_000),
                || {
                    (hist(ALL_RX), proptest::option::weighted(0.4, select(ALL_FR.to_vec())), any::<u16>(), any::<u8>())
                        .prop_map(|(h, fr, at, kind)| RxFault { h, fr, at, kind })
                        .boxed()
                },
                recv,
            ),
            suite(
                "send",
                "frames and messages through the sending APIs on a transport failing at any byte with one of 14 kinds; non-trivial: the fault is reached",
                opts(60_000, 4_000_000),
                || (tx_case(false), any::<u16>(), any::<u8>()).prop_map(|(tx, at, kind)| TxFault { tx, at, kind }).boxed(),
                send,
            ),
            suite(
                "head",
                "handshakes of clients and servers, blocking and asynchronous, on a transport failing or ending at any byte of either head, or with a head that is no HTTP; every case non-trivial",
                opts(40_000, 3_000_000),
                head_case,
                head,
            ),
            suite("misdeed", "protocol violations and bad text at any place of a history through nine receivers and the direct conversions; every case non-trivial", opts(60_000, 4_000_000), wrong, misdeed),
            suite("masking", "a frame masked the wrong way at any place of a history; every case non-trivial", opts(20_000, 2_000_000), wrong_mask, masking),
            suite(
                "too-much",
                "frames and fragments beyond the limits; every case non-trivial",
                opts(20_000, 2_000_000),
                || {
                    (
                        select(vec![FrApi::ReadLimit, FrApi::Raw, FrApi::RawIter, FrApi::Codec]),
                        (select(ALL_RX.to_vec()), role()),
                        0u32..20_000,
                        prop_oneof![3 => 1u64..100, 1 => 1u64..=u64::MAX / 4],
                        any::<bool>(),
                        any::<u32>(),
                        plan(),
                    )
                        .prop_map(|(fr, (rx, role), limit, over, fragments, seed, mut plan)| {
                            plan.push(255);
                            TooMuch { fr, rx, role, limit, over, fragments, seed, plan }
                        })
                        .boxed()
                },
                too_much,
            ),
            suite(
                "values",
                "every error conversion on generated causes: kind, text, source and downcast are kept; every case non-trivial",
                opts(40_000, 2_000_000),
                || {
                    (any::<u8>(), "[!-~]{1,30}", 100u16..600, vec(any::<u8>(), 0..6))
                        .prop_map(|(kind, text, status, bad)| Value { kind, text, status, bad })
                        .boxed()
                },
                values,
            ),
            suite(
                "connect",
                "the six connect functions against closed ports, URLs without a host, and peers that hang up or speak something else; every case non-trivial",
                opts(1_500, 60_000).shrink(100),
                || {
                    let far = prop_oneof![
                        2 => Just(Far::Closed),
                        2 => (0u8..4).prop_map(Far::NoHost),
                        1 => Just(Far::HangUp),
                        2 => (0u8..4).prop_map(Far::Babble),
                    ];
                    (select(HOWS.to_vec()), any::<bool>(), far).prop_map(|(how, tls, far)| Dial { how, tls, far }).boxed()
                },
                dial,
            ),
            suite(
                "accept",
                "callers of the four kinds of server who send what is no HTTP, hang up inside the head, break any of the conditions or do not speak TLS; every case non-trivial",
                opts(2_000, 60_000).shrink(100),
                || {
                    let who = prop_oneof![
                        2 => (0u8..6, any::<u8>()).prop_map(|(h, a)| Caller::Broken(h, a)),
                        2 => any::<u16>().prop_map(Caller::Cut),
                        4 => request(false).prop_map(Caller::Request),
                        1 => (0u8..4).prop_map(Caller::NoTls),
                    ];
                    (any::<bool>(), any::<bool>(), any::<bool>(), who).prop_map(|(sync, tls, iter, who)| Knock { sync, tls, iter, who }).boxed()
                },
                knock,
            ),
        ],
    }]
}
