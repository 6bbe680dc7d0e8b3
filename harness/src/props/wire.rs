//! The client properties once more over real sockets, through all six connect functions.
use super::client::{apply, check_request, h08_judge, key_of, op, proper, response, url_target, why, Model, Op, Response, Target};
use super::tls::{How, HOWS};
use crate::dict;
use crate::api::*;
use crate::engine::*;
use crate::gen::{self, Item};
use crate::net::*;
use crate::rfc::{self, Msg};
use futures::{Future, Stream};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::net::{IpAddr, TcpListener};
use websocket::client::r#async::Client as AsyncClient;
use websocket::client::sync::Client;
use websocket::url::Url;
use websocket::{ClientBuilder, OwnedMessage, WebSocketError};

/// A listener for one connection and the URL that leads there.
struct Spot {
    l: TcpListener,
    tls: bool,
    host: String,
    port: u16,
}
impl Spot {
    fn new(how: How, scheme: &str) -> Result<Spot, Fail> {
        let tls = how.tls(scheme);
        let ip: IpAddr = if tls { [127, 0, 0, 1].into() } else { fresh_ip().into() };
        let l = env(TcpListener::bind((ip, 0)), "bind")?;
        let port = env(l.local_addr(), "local_addr")?.port();
        Ok(Spot { l, tls, host: ip.to_string(), port })
    }
    fn url(&self, scheme: &str, path: &str) -> String {
        format!("{}://{}:{}{}", scheme, self.host, self.port, path)
    }
}
/// What one connection came to.
struct Live {
    /// the request head
    head: Vec<u8>,
    connected: Result<(), Option<WebSocketError>>,
    got: Vec<OwnedMessage>,
    end: Option<WebSocketError>,
}
const MANY: usize = 20_000;
fn sync_all<S: websocket::stream::sync::Stream>(c: Result<Client<S>, WebSocketError>) -> Result<(Vec<OwnedMessage>, Option<WebSocketError>), WebSocketError> {
    let mut c = c?;
    let mut v = vec![];
    while v.len() < MANY {
        match c.recv_message() {
            Ok(m) => v.push(m),
            Err(WebSocketError::NoDataAvailable) => return Ok((v, None)),
            Err(e) => return Ok((v, Some(e))),
        }
    }
    Ok((v, None))
}
fn async_all<S, F>(f: F) -> Result<Result<(Vec<OwnedMessage>, Option<WebSocketError>), WebSocketError>, Fail>
where
    S: websocket::stream::r#async::Stream + 'static,
    F: Future<Item = (AsyncClient<S>, hyper::header::Headers), Error = WebSocketError>,
{
    use futures::future::{loop_fn, Loop};
    on_runtime(f.and_then(|(c, _)| {
        loop_fn((c, vec![]), |(c, mut v): (AsyncClient<S>, Vec<OwnedMessage>)| {
            c.into_future().then(move |r| {
                Ok(match r {
                    Ok((Some(m), c)) => {
                        v.push(m);
                        if v.len() < MANY {
                            Loop::Continue((c, v))
                        } else {
                            Loop::Break((v, None))
                        }
                    }
                    Ok((None, _)) => Loop::Break((v, None)),
                    Err((e, _)) => Loop::Break((v, Some(e))),
                })
            })
        })
    }))
}
fn host<S: Read + Write>(p: &mut Raw<S>, answer: impl FnOnce(&[u8]) -> Vec<u8>) -> Result<Vec<u8>, Fail> {
    while !p.buf.windows(4).any(|w| w == b"\r\n\r\n") {
        let n = p.buf.len() + 1;
        let b = p.need(n, "the request")?;
        p.buf = [b, std::mem::take(&mut p.buf)].concat();
    }
    let head = p.buf.clone();
    // a client that refuses the answer may be gone before all of it is written
    let _ = p.s.write_all(&answer(&head)).and_then(|()| p.s.flush());
    Ok(head)
}
/// Connects to the spot; whatever `answer` returns follows the request.
fn live(spot: Spot, how: How, b: &mut ClientBuilder<'_>, answer: impl FnOnce(&[u8]) -> Vec<u8> + Send + 'static) -> Result<Live, Fail> {
    let server = side(move || -> Result<Vec<u8>, Fail> {
        let s = match accept_within(&spot.l, WAIT) {
            Some(s) => s,
            None => return stall("no connection"),
        };
        no_linger(&s);
        let mut p = raw(s);
        if !spot.tls {
            let head = host(&mut p, answer)?;
            p.finish();
            p.end("the client's end")?;
            return Ok(head);
        }
        match Cert::Good.acceptor().accept(p.s) {
            Ok(t) => {
                let mut p = Raw { s: t, buf: vec![], eof: false };
                let head = host(&mut p, answer)?;
                let _ = p.s.shutdown();
                let _ = p.s.get_ref().shutdown(std::net::Shutdown::Write);
                p.end("the client's end")?;
                Ok(head)
            }
            Err(e) => fail!("no TLS session: {}", e),
        }
    });
    let r = match how {
        How::Connect => sync_all(b.connect(None)),
        How::Insecure => sync_all(b.connect_insecure()),
        How::Secure => sync_all(b.connect_secure(None)),
        How::AConnect => async_all(b.clone().async_connect(None))?,
        How::AInsecure => async_all(b.clone().async_connect_insecure())?,
        How::ASecure => async_all(b.clone().async_connect_secure(None))?,
    };
    let head = server.join("the server")?;
    Ok(match r {
        Ok((got, end)) => Live { head, connected: Ok(()), got, end },
        Err(e) => Live { head, connected: Err(Some(e)), got: vec![], end: None },
    })
}
fn scheme() -> impl Strategy<Value = String> {
    select(vec!["ws", "ws", "wss", "wss", "http", "https"]).prop_map(String::from)
}
fn hows() -> impl Strategy<Value = How> {
    select(HOWS)
}

// ------------------------------------------------------------------------------- H07

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Asked {
    target: Target,
    ops: Vec<Op>,
    hows: Vec<How>,
}
fn h07(c: &Asked, o: &mut Obs) -> Res {
    patient(c, o, h07_run)
}
fn h07_run(c: &Asked, o: &mut Obs) -> Res {
    // the same calls for every connection, each to a port of its own
    for how in &c.hows {
        let mut t = c.target.clone();
        let spot = Spot::new(*how, &t.scheme)?;
        t.host = spot.host.clone();
        t.port = Some(spot.port);
        let mut m = Model::default();
        let url = match Url::parse(&t.text()) {
            Ok(u) => u,
            Err(_) => return Ok(()),
        };
        let mut b = ClientBuilder::from_url(&url);
        for op in &c.ops {
            b = apply(op, b, &mut m).0;
        }
        let mut randoms = vec![];
        let r = live(spot, *how, &mut b, proper)?;
        check_request(&r.head, &t, &m, &format!("{:?}", how), &mut randoms)?;
        if let Err(e) = r.connected {
            fail!("{:?} to a proper server fails: {}", how, why(&e));
        }
        o.class(format!("{:?}{}", how, if how.tls(&t.scheme) { " tls" } else { "" }));
    }
    o.nontrivial(!c.ops.is_empty());
    Ok(())
}
pub fn h07_suite() -> Suite {
    suite(
        "variants",
        "generated builder calls, then a request through the six connect functions (plain and TLS) over loopback sockets; each request compared with the model; non-trivial: a builder call was made",
        opts(4_000, 150_000).shrink(60),
        || {
            (url_target(), vec(op(), 0..8), vec(hows(), 1..3))
                .prop_map(|(target, ops, hows)| Asked { target, ops, hows })
                .boxed()
        },
        h07,
    )
}

// ------------------------------------------------------------------------------- H08

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Answered {
    how: How,
    scheme: String,
    r: Response,
}
fn h08(c: &Answered, o: &mut Obs) -> Res {
    patient(c, o, h08_run)
}
fn h08_run(c: &Answered, o: &mut Obs) -> Res {
    let spot = Spot::new(c.how, &c.scheme)?;
    let mut b = ClientBuilder::new(&spot.url(&c.scheme, "/chat")).unwrap();
    if let Some(k) = c.r.key {
        b = b.key(k);
    }
    let r = c.r.clone();
    let l = live(spot, c.how, &mut b, move |h| r.bytes(&key_of(h).unwrap_or_default()))?;
    h08_judge(&c.r, &format!("{:?}", c.how), &key_of(&l.head).unwrap_or_default(), &l.connected, o)?;
    o.class(format!("{:?}", c.how));
    o.nontrivial(true);
    Ok(())
}
pub fn h08_suite() -> Suite {
    suite(
        "variants",
        "right and wrong responses to the six connect functions (plain and TLS) over loopback sockets; non-trivial: all",
        opts(4_000, 150_000).shrink(60),
        || (hows(), scheme(), response()).prop_map(|(how, scheme, r)| Answered { how, scheme, r }).boxed(),
        h08,
    )
}

// ------------------------------------------------------------------------------- H09

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Behind {
    how: How,
    scheme: String,
    pad: u16,
    items: Vec<Item>,
}
fn h09(c: &Behind, o: &mut Obs) -> Res {
    patient(c, o, h09_run)
}
fn h09_run(c: &Behind, o: &mut Obs) -> Res {
    let spot = Spot::new(c.how, &c.scheme)?;
    let mut b = ClientBuilder::new(&spot.url(&c.scheme, "/")).unwrap();
    let frames: Vec<rfc::Frame> = c.items.iter().flat_map(|i| i.frames()).collect();
    let body = gen::wire(&frames);
    let pad = c.pad as usize;
    let l = live(spot, c.how, &mut b, move |h| {
        let mut v = proper(h);
        if pad > 0 {
            v.truncate(v.len() - 2);
            v.extend_from_slice(format!("X-Pad: {}\r\n\r\n", "p".repeat(pad)).as_bytes());
        }
        v.extend_from_slice(&body);
        v
    })?;
    if let Err(e) = l.connected {
        fail!("{:?}: {}", c.how, why(&e));
    }
    if let Some(e) = l.end {
        fail!("{:?}: after {} messages: {}", c.how, l.got.len(), err_name(&e));
    }
    let got: Vec<Msg> = l.got.iter().map(from_owned).collect();
    if let Err(m) = rfc::reassemble(&frames, false).judge(&got, false) {
        fail!("{:?}: {}", c.how, m);
    }
    o.class(format!("{:?}", c.how));
    o.nontrivial(!frames.is_empty());
    Ok(())
}
pub fn h09_suite() -> Suite {
    suite(
        "variants",
        "message frames written together with the response head, to the six connect functions (plain and TLS) over loopback sockets; non-trivial: frames present",
        opts(4_000, 150_000).shrink(60),
        || {
            (hows(), scheme(), dict::ints(prop_oneof![3 => Just(0u16), 2 => 0u16..200, 1 => 0u16..6000].boxed(), 0, 20_000, |n, _| n as u16), gen::items(0..5, 300), prop_oneof![2 => vec(gen::item(true), 0..2), 3 => Just(vec![])])
                .prop_map(|(how, scheme, pad, mut items, big)| {
                    items.extend(big);
                    Behind { how, scheme, pad, items }
                })
                .boxed()
        },
        h09,
    )
}

// ------------------------------------------------------------------------------- H10

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Again {
    scheme: String,
    steps: Vec<(How, u8)>,
}
fn h10(c: &Again, o: &mut Obs) -> Res {
    patient(c, o, h10_run)
}
fn h10_run(c: &Again, o: &mut Obs) -> Res {
    // one builder for the whole case: a builder keeps its URL, so all listen in turn on one port
    let tls = c.steps.iter().any(|(h, _)| h.tls(&c.scheme));
    let first = Spot::new(if tls { How::Secure } else { How::Insecure }, &c.scheme)?;
    let mut b = ClientBuilder::new(&first.url(&c.scheme, "/")).unwrap();
    let mut used: Vec<Vec<u8>> = vec![];
    for (how, answer) in &c.steps {
        let spot = Spot { l: env(first.l.try_clone(), "clone")?, tls: how.tls(&c.scheme), host: first.host.clone(), port: first.port };
        let old = used.last().cloned();
        let a = *answer;
        let l = live(spot, *how, &mut b, move |h| match (a, old) {
            (0, Some(k)) => response_for(&k),
            _ => proper(h),
        })?;
        let key = match key_of(&l.head) {
            Some(k) if k.len() == 16 => k,
            _ => fail!("{:?}: request without a proper key: {:?}", how, String::from_utf8_lossy(&l.head)),
        };
        ensure!(!used.contains(&key), "{:?}: key {:02x?} was used by an earlier attempt of the builder", how, key);
        let right = *answer != 0 || used.is_empty();
        ensure!(l.connected.is_ok() == right, "{:?}: answered for {} key, the outcome is {}", how, if right { "this attempt's" } else { "the last attempt's" }, match &l.connected {
            Ok(()) => "a connection".into(),
            Err(e) => why(e),
        });
        used.push(key);
        o.class(format!("{:?}", how));
    }
    o.nontrivial(used.len() > 1);
    Ok(())
}
pub fn h10_suite() -> Suite {
    suite(
        "variants",
        "one builder connecting several times through the six connect functions over loopback sockets, the peer answering this attempt's key or the last one; non-trivial: two attempts",
        opts(2_000, 80_000).shrink(60),
        || (scheme(), gen::many((hows(), 0u8..3), 1..5, 40)).prop_map(|(scheme, steps)| Again { scheme, steps }).boxed(),
        h10,
    )
}

// ------------------------------------------------------------------------------- E02

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Limited {
    how: How,
    scheme: String,
    frame: Option<u32>,
    msg: Option<u32>,
    probe: Probe,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Probe {
    Frame(i8),
    Frags(u16, u8),
    Near(u8, i16),
}
fn e02(c: &Limited, o: &mut Obs) -> Res {
    patient(c, o, e02_run)
}
fn e02_run(c: &Limited, o: &mut Obs) -> Res {
    let f = c.frame.map_or(100 << 20, |x| x as u64);
    let m = c.msg.map_or(200 << 20, |x| x as u64);
    // sizes of the fragments, the last one final
    let sizes: Vec<u64> = match &c.probe {
        Probe::Frame(d) => vec![(f.min(150_000) as i64 + *d as i64).max(0) as u64],
        Probe::Frags(n, k) => {
            let mut v = vec![(*n as u64).min(f); *k as usize];
            v.push(3.min(f));
            v
        }
        Probe::Near(k, d) => {
            let total = (m.min(150_000) as i64 + *d as i64).max(0) as u64;
            let k = (*k as u64).max(if f == 0 { 1 } else { (total / f + 1).min(800) });
            let mut v: Vec<u64> = (0..k).map(|i| (total * (i + 1) / k - total * i / k).min(f)).collect();
            v.push(3.min(f));
            v
        }
    };
    let mut want = Some(true);
    let mut sum = 0;
    for (i, n) in sizes.iter().enumerate() {
        if *n > f {
            want = Some(false);
            break;
        }
        sum += n;
        if i + 1 < sizes.len() {
            if sum > m {
                want = Some(false);
                break;
            }
            if sum + 64 * (i as u64 + 1) >= m {
                want = None;
            }
        }
    }
    let mut body = vec![];
    for (i, n) in sizes.iter().enumerate() {
        let frame = rfc::Frame::new(i + 1 == sizes.len(), if i == 0 { 2 } else { 0 }, vec![b'.'; *n as usize]);
        body.extend(frame.encode());
    }
    let spot = Spot::new(c.how, &c.scheme)?;
    let mut b = ClientBuilder::new(&spot.url(&c.scheme, "/")).unwrap();
    if let Some(n) = c.frame {
        b = b.max_dataframe_size(n as usize);
    }
    if let Some(n) = c.msg {
        b = b.max_message_size(n as usize);
    }
    let l = live(spot, c.how, &mut b, move |h| [proper(h), body].concat())?;
    if let Err(e) = l.connected {
        fail!("{:?}: {}", c.how, why(&e));
    }
    let what = format!("{:?}: fragments of {:?} bytes with limits {:?} and {:?}", c.how, &sizes[..sizes.len().min(8)], c.frame, c.msg);
    let total: u64 = sizes.iter().sum();
    let end = l.end.as_ref().map(err_name);
    match want {
        Some(true) => ensure!(
            end.is_none() && l.got.len() == 1 && matches!(&l.got[0], OwnedMessage::Binary(b) if b.len() as u64 == total),
            "{}: {} messages, then {:?}", what, l.got.len(), end
        ),
        Some(false) => ensure!(l.got.is_empty() && end.is_some(), "{} are not refused: {} messages, then {:?}", what, l.got.len(), end),
        None => {}
    }
    o.class(match want {
        Some(true) => "within",
        Some(false) => "over",
        None => "either",
    });
    o.class(format!("{:?}", c.how));
    o.nontrivial(want.is_some());
    Ok(())
}
pub fn e02_suite() -> Suite {
    let val = || prop_oneof![1 => 0u32..4, 2 => 0u32..200, 2 => 100u32..70_000, 1 => 65_530u32..65_540];
    suite(
        "variants",
        "limits set on a builder, then frames and fragments around them sent to the six connect functions (plain and TLS) over loopback sockets; non-trivial: the outcome is determined",
        opts(5_000, 200_000).shrink(60),
        move || {
            (
                hows(),
                scheme(),
                proptest::option::weighted(0.8, val()),
                proptest::option::weighted(0.8, val()),
                prop_oneof![
                    4 => (-2i8..3).prop_map(Probe::Frame),
                    2 => (prop_oneof![0u16..300, 0u16..4000], 1u8..12).prop_map(|(a, b)| Probe::Frags(a, b)),
                    3 => (1u8..5, -400i16..400).prop_map(|(a, b)| Probe::Near(a, b)),
                ],
            )
                .prop_map(|(how, scheme, frame, msg, probe)| Limited { how, scheme, frame, msg, probe })
                .boxed()
        },
        e02,
    )
}
