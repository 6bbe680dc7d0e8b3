//! H01-H06, H11, A01: header values, the server side of the handshake, the HTTP codecs.
use super::frames::role;
use crate::api::*;
use crate::engine::*;
use crate::gen::{self, fast_plan, plan};
use crate::http::*;
use crate::http::Custom;
use crate::mock::*;
use crate::rfc;
use bytes::BytesMut;
use hyper::buffer::BufReader;
use hyper::header::{Header, HeaderFormat, Headers};
use hyper::http::h1::Incoming;
use hyper::method::Method;
use hyper::net::NetworkStream;
use hyper::status::StatusCode;
use hyper::uri::RequestUri;
use hyper::version::HttpVersion;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::str::FromStr;
use tokio_codec::{Decoder, Encoder};
use websocket::codec::http::{HttpClientCodec, HttpServerCodec};
use websocket::header::extensions::{Extension, Parameter};
use websocket::header::{
    Origin, WebSocketAccept, WebSocketExtensions, WebSocketKey, WebSocketProtocol, WebSocketVersion,
};
use websocket::server::upgrade::r#async::IntoWs as AsyncIntoWs;
use websocket::server::upgrade::sync::{HyperRequest, IntoWs as SyncIntoWs, RequestStreamPair};
use websocket::server::upgrade::validate;

// ------------------------------------------------------------------------------- H01

/// What base64 text is: of `n` bytes for certain, perhaps (padding or spare bits off), or not.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum B64 {
    Yes,
    Maybe,
    No,
}
fn b64_kind(s: &str, n: usize) -> B64 {
    if let Some(b) = rfc::unb64(s) {
        return if b.len() == n { B64::Yes } else { B64::No };
    }
    if lenient_b64(s, n) {
        B64::Maybe
    } else {
        B64::No
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Key16 {
    key: [u8; 16],
}
fn h01_token(c: &Key16, o: &mut Obs) -> Res {
    let text = rfc::b64(&c.key);
    let want = rfc::accept_for(&c.key);
    let k = WebSocketKey::from_array(c.key);
    let base = websocket_base::header::WebSocketKey(c.key);
    ensure!(k.serialize() == text, "key serializes to {}, expected {}", k.serialize(), text);
    ensure!(base.serialize() == text, "base key serializes to {}", base.serialize());
    let a = WebSocketAccept::new(&k);
    ensure!(a.serialize() == want, "accept token {}, expected {}", a.serialize(), want);
    let ab = websocket_base::header::WebSocketAccept::new(&base);
    ensure!(ab.serialize() == want, "base accept token {}, expected {}", ab.serialize(), want);
    match WebSocketKey::from_str(&text) {
        Ok(p) => ensure!(p == k && (p.0).0 == c.key, "key parses to {:?}", p),
        Err(e) => fail!("key {} does not parse: {}", text, err_name(&e)),
    }
    match WebSocketAccept::from_str(&want) {
        Ok(p) => ensure!(p == a && p.serialize() == want, "accept parses to {:?}", p),
        Err(e) => fail!("accept {} does not parse: {}", want, err_name(&e)),
    }
    // as header lines
    let mut h = Headers::new();
    h.set(k);
    h.set(a);
    let m = match printed(&h) {
        Ok(m) => m,
        Err(e) => fail!("headers print badly: {}", e),
    };
    ensure!(m.get("sec-websocket-key") == Some(&vec![text.clone()]), "key header prints as {:?}", m);
    ensure!(m.get("sec-websocket-accept") == Some(&vec![want.clone()]), "accept header prints as {:?}", m);
    let mut h = Headers::new();
    h.set_raw("Sec-WebSocket-Key", vec![text.into_bytes()]);
    h.set_raw("Sec-WebSocket-Accept", vec![want.into_bytes()]);
    ensure!(h.get::<WebSocketKey>() == Some(&k), "key header reads back as {:?}", h.get::<WebSocketKey>());
    ensure!(h.get::<WebSocketAccept>() == Some(&a), "accept header reads back as {:?}", h.get::<WebSocketAccept>());
    o.nontrivial(true);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TextCase {
    text: String,
}
fn b64_text() -> BoxedStrategy<TextCase> {
    let near = |n: usize| {
        (vec(any::<u8>(), n), any::<prop::sample::Index>(), "[ -~]{1}", 0u8..8).prop_map(move |(b, at, c, how)| {
            let mut s = rfc::b64(&b);
            let i = at.index(s.len());
            match how {
                0 => {}
                1 => s.replace_range(i..i + 1, &c),
                2 => s.insert_str(i, &c),
                3 => s.truncate(i),
                4 => {
                    while s.ends_with('=') {
                        s.pop();
                    }
                }
                5 => s.push('='),
                6 => {
                    // spare bits of the last group
                    let pads = s.chars().rev().take_while(|c| *c == '=').count();
                    if pads > 0 {
                        let k = s.len() - pads - 1;
                        s.replace_range(k..k + 1, &c);
                    }
                }
                _ => s = s.replace('+', "-").replace('/', "_"),
            }
            s
        })
    };
    prop_oneof![
        4 => near(16),
        4 => near(20),
        2 => (0usize..40).prop_flat_map(move |n| vec(any::<u8>(), n)).prop_map(|b| rfc::b64(&b)),
        1 => (12usize..24).prop_flat_map(near),
        1 => "[A-Za-z0-9+/=]{0,32}",
        1 => "[ -~]{0,30}",
        1 => gen::string(24),
    ]
    .prop_map(|text| TextCase { text })
    .boxed()
}
fn h01_strings(c: &TextCase, o: &mut Obs) -> Res {
    let s = &c.text;
    let k = WebSocketKey::from_str(s).ok();
    let kb = websocket_base::header::WebSocketKey::from_str(s).ok();
    let kh = WebSocketKey::parse_header(&[s.clone().into_bytes()]).ok();
    match b64_kind(s, 16) {
        B64::Yes => {
            let b = rfc::unb64(s).unwrap();
            ensure!(k.map(|k| (k.0).0.to_vec()) == Some(b.clone()), "key {:?} parses to {:?}", s, k);
            ensure!(kb.map(|k| k.0.to_vec()) == Some(b.clone()), "base key {:?} parses to {:?}", s, kb);
            ensure!(kh.map(|k| (k.0).0.to_vec()) == Some(b), "key header {:?} parses to {:?}", s, kh);
            o.class("key");
            o.nontrivial(true);
        }
        B64::No => {
            ensure!(k.is_none() && kb.is_none() && kh.is_none(), "{:?} parses as a key: {:?} {:?} {:?}", s, k, kb, kh);
            o.class("no key");
        }
        B64::Maybe => o.class("maybe a key"),
    }
    let a = WebSocketAccept::from_str(s).ok().map(|a| a.serialize());
    let ab = websocket_base::header::WebSocketAccept::from_str(s).ok().map(|a| a.serialize());
    let ah = WebSocketAccept::parse_header(&[s.clone().into_bytes()]).ok().map(|a| a.serialize());
    match b64_kind(s, 20) {
        B64::Yes => {
            ensure!(a.as_ref() == Some(s) && ab.as_ref() == Some(s) && ah.as_ref() == Some(s), "accept {:?} parses to {:?} {:?} {:?}", s, a, ab, ah);
            o.class("accept");
            o.nontrivial(true);
        }
        B64::No => {
            ensure!(a.is_none() && ab.is_none() && ah.is_none(), "{:?} parses as an accept token: {:?} {:?} {:?}", s, a, ab, ah);
            o.class("no accept");
        }
        B64::Maybe => o.class("maybe an accept"),
    }
    o.nontrivial(s.len() >= 16);
    Ok(())
}

// ------------------------------------------------------------------------------- H02

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Hdr {
    Protocols(Vec<String>),
    Extensions(Vec<Ext>),
    Version(String),
    Origin(String),
    Key([u8; 16]),
    Accept([u8; 16]),
}
fn hdr() -> BoxedStrategy<Hdr> {
    prop_oneof![
        3 => some(token(), 0, 6, 80).prop_map(Hdr::Protocols),
        5 => some(ext(), 0, 5, 40).prop_map(Hdr::Extensions),
        1 => prop_oneof![Just("13".to_string()), "[0-9]{1,3}".prop_map(String::from), "[!-~][ -~]{0,6}[!-~]".prop_map(String::from)].prop_map(Hdr::Version),
        1 => origin().prop_map(Hdr::Origin),
        1 => gen::key16().prop_map(Hdr::Key),
        1 => gen::key16().prop_map(Hdr::Accept),
    ]
    .boxed()
}
fn reparse<H>(h: H, text: &str) -> Res
where
    H: Header + HeaderFormat + PartialEq + Clone + std::fmt::Debug,
{
    let mut hs = Headers::new();
    hs.set(h.clone());
    let p = hs.to_string();
    let want = format!("{}: {}\r\n", H::header_name(), text);
    ensure!(p == want, "{:?} formats as {:?}, expected {:?}", h, p, want);
    ensure!(hs.get::<H>() == Some(&h), "{:?} set and read back: {:?}", h, hs.get::<H>());
    match H::parse_header(&[text.as_bytes().to_vec()]) {
        Ok(q) => ensure!(q == h, "{:?} formatted as {:?} parses to {:?}", h, text, q),
        Err(e) => fail!("{:?} formatted as {:?} does not parse: {}", h, text, e),
    }
    // from an untyped header set
    let mut raw = Headers::new();
    raw.set_raw(H::header_name().to_ascii_lowercase(), vec![text.as_bytes().to_vec()]);
    ensure!(raw.get::<H>() == Some(&h), "{:?} from raw text reads {:?}", h, raw.get::<H>());
    Ok(())
}
fn h02_roundtrip(c: &Hdr, o: &mut Obs) -> Res {
    match c {
        Hdr::Protocols(v) => {
            o.class(format!("protocols {}", v.len().min(3)));
            o.nontrivial(!v.is_empty());
            let h = WebSocketProtocol(v.clone());
            ensure!(h.to_string() == v.join(", "), "{:?} displays as {}", h, h);
            reparse_list(h, &v.join(", "))
        }
        Hdr::Extensions(v) => {
            o.class(format!("extensions {}", v.len().min(3)));
            o.class_if(v.iter().any(|e| e.params.iter().any(|p| p.1.is_some())), "with values");
            o.nontrivial(v.iter().any(|e| !e.params.is_empty()));
            let h = WebSocketExtensions(v.iter().map(|e| e.lib()).collect());
            let text: Vec<String> = v.iter().map(|e| e.text()).collect();
            let text = text.join(", ");
            ensure!(h.to_string() == text, "{:?} displays as {}", h, h);
            for e in v {
                let l = e.lib();
                ensure!(l.to_string() == e.text(), "{:?} displays as {}", l, l);
                match Extension::from_str(&e.text()) {
                    Ok(p) => ensure!(p == l, "{:?} parses to {:?}", e.text(), p),
                    Err(x) => fail!("{:?} does not parse: {}", e.text(), err_name(&x)),
                }
                let mut plain = Extension::new(e.name.clone());
                ensure!(plain.params.is_empty() && plain.name == e.name, "Extension::new: {:?}", plain);
                for (n, v) in &e.params {
                    plain.params.push(Parameter::new(n.clone(), v.clone()));
                }
                ensure!(plain == l, "{:?} differs from {:?}", plain, l);
            }
            reparse_list(h, &text)
        }
        Hdr::Version(v) => {
            o.class("version");
            o.nontrivial(true);
            if v == "13" {
                reparse(WebSocketVersion::WebSocket13, v)
            } else {
                reparse(WebSocketVersion::Unknown(v.clone()), v)
            }
        }
        Hdr::Origin(v) => {
            o.class("origin");
            o.nontrivial(true);
            reparse(Origin(v.clone()), v)
        }
        Hdr::Key(k) => {
            o.class("key");
            o.nontrivial(true);
            reparse(WebSocketKey::from_array(*k), &rfc::b64(k))
        }
        Hdr::Accept(k) => {
            o.class("accept");
            o.nontrivial(true);
            reparse(WebSocketAccept::new(&WebSocketKey::from_array(*k)), &rfc::accept_for(k))
        }
    }
}
/// an empty list has no line worth comparing
fn reparse_list<H>(h: H, text: &str) -> Res
where
    H: Header + HeaderFormat + PartialEq + Clone + std::fmt::Debug,
{
    if text.is_empty() {
        return Ok(());
    }
    reparse(h, text)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Layout {
    exts: Vec<Ext>,
    protos: Vec<String>,
    /// spaces around separators, taken in turn
    ows: Vec<u8>,
    /// where lines are split
    cuts: u32,
    /// empty list elements put in
    holes: u32,
}
struct Ows<'a>(&'a [u8], usize);
impl Ows<'_> {
    fn next(&mut self) -> &'static str {
        if self.0.is_empty() {
            return "";
        }
        self.1 += 1;
        ["", " ", "  ", "\t", " \t "][self.0[self.1 % self.0.len()] as usize % 5]
    }
}
fn h02_layout(c: &Layout, o: &mut Obs) -> Res {
    let mut w = Ows(&c.ows, 0);
    let lines = |els: Vec<String>, w: &mut Ows| -> Vec<Vec<u8>> {
        let mut out = vec![];
        let mut cur = String::new();
        let n = els.len();
        for (i, e) in els.into_iter().enumerate() {
            cur.push_str(w.next());
            cur.push_str(&e);
            cur.push_str(w.next());
            if (c.holes >> (i % 32)) & 1 == 1 {
                cur.push_str(",");
                cur.push_str(w.next());
            }
            if i + 1 < n {
                if (c.cuts >> (i % 32)) & 1 == 1 {
                    out.push(std::mem::take(&mut cur).into_bytes());
                } else {
                    cur.push(',');
                }
            }
        }
        out.push(cur.into_bytes());
        out
    };
    let texts: Vec<String> = c
        .exts
        .iter()
        .map(|e| {
            let mut s = e.name.clone();
            for (n, v) in &e.params {
                s.push_str(w.next());
                s.push(';');
                s.push_str(w.next());
                s.push_str(n);
                if let Some(v) = v {
                    s.push_str(w.next());
                    s.push('=');
                    s.push_str(w.next());
                    s.push_str(v);
                }
            }
            s
        })
        .collect();
    let raw = lines(texts, &mut w);
    let want = WebSocketExtensions(c.exts.iter().map(|e| e.lib()).collect());
    let show = |r: &[Vec<u8>]| r.iter().map(|l| String::from_utf8_lossy(l).into_owned()).collect::<Vec<_>>();
    match WebSocketExtensions::parse_header(&raw) {
        Ok(g) => ensure!(g == want, "extension lines {:?} parse to {:?}, expected {:?}", show(&raw), g, want),
        Err(e) => fail!("extension lines {:?} do not parse: {}", show(&raw), e),
    }
    o.class_if(raw.len() > 1, "several lines");
    let mut hs = Headers::new();
    hs.set_raw("sec-websocket-extensions", raw);
    ensure!(hs.get::<WebSocketExtensions>() == Some(&want), "extensions read back as {:?}", hs.get::<WebSocketExtensions>());
    let raw = lines(c.protos.clone(), &mut w);
    let want = WebSocketProtocol(c.protos.clone());
    match WebSocketProtocol::parse_header(&raw) {
        Ok(g) => ensure!(g == want, "protocol lines {:?} parse to {:?}, expected {:?}", show(&raw), g, want),
        Err(e) => fail!("protocol lines {:?} do not parse: {}", show(&raw), e),
    }
    o.nontrivial(c.exts.len() + c.protos.len() > 1);
    Ok(())
}

// ------------------------------------------------------------------------------- H03

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Decide {
    req: Req,
    plan: Vec<u8>,
}
fn req_headers(r: &Req) -> Headers {
    let mut h = Headers::new();
    let mut done: Vec<String> = vec![];
    for l in &r.lines {
        let n = l.name.to_ascii_lowercase();
        if !done.contains(&n) {
            h.set_raw(l.name.clone(), r.values(&l.name).iter().map(|v| v.as_bytes().to_vec()).collect());
            done.push(n);
        }
    }
    h
}
fn h03_decide(c: &Decide, o: &mut Obs) -> Res {
    let v = c.req.violated();
    // a key that is base64 only by a generous reading may go either way
    let open = v == [Cond::Key] && c.req.maybe_key();
    let bytes = c.req.bytes();
    let mut judge = |what: &str, ok: bool, e: Option<&websocket::server::upgrade::HyperIntoWsError>| -> Res {
        if v.is_empty() {
            ensure!(ok, "{}: valid request refused: {:?}", what, e);
        } else if ok {
            ensure!(open, "{}: request accepted although it violates {:?}", what, v);
        } else if let Some(e) = e {
            ensure!(names(e, &v), "{}: refused with {:?}, but the request violates {:?}", what, e, v);
        } else {
            fail!("{}: refused without error", what);
        }
        Ok(())
    };
    for e in ENTRIES {
        let out = enter(*e, &bytes, &c.plan, false);
        ensure!(!out.stalled, "{:?}: no decision although the whole head is there", e);
        judge(&format!("{:?}", e), out.ok, out.err.as_ref())?;
    }
    let method = match Method::from_str(&c.req.method) {
        Ok(m) => m,
        Err(_) => return Ok(()),
    };
    let version = if c.req.minor == 1 { HttpVersion::Http11 } else { HttpVersion::Http10 };
    let r = validate(&method, version, &req_headers(&c.req));
    judge("validate", r.is_ok(), r.as_ref().err())?;
    // "HTTP/1.1 or later": a version no parser of text yields, but a stream's owner may state
    if version == HttpVersion::Http11 {
        let r = validate(&method, HttpVersion::Http20, &req_headers(&c.req));
        judge("validate (HTTP/2.0)", r.is_ok(), r.as_ref().err())?;
    }
    if version == HttpVersion::Http10 {
        let r = validate(&method, HttpVersion::Http09, &req_headers(&c.req));
        judge("validate (HTTP/0.9)", r.is_ok(), r.as_ref().err())?;
    }
    o.class(format!("violations {}", v.len().min(4)));
    for x in &v {
        o.class(format!("{:?}", x));
    }
    o.class_if(open, "generous key");
    o.nontrivial(v.len() <= 1);
    Ok(())
}

// ------------------------------------------------------------------------------- H04

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EnterCase {
    req: Req,
    tail: gen::Pay,
    plan: Vec<u8>,
    close: bool,
}
fn h04_agree(c: &EnterCase, o: &mut Obs) -> Res {
    let head = c.req.bytes();
    let tail = c.tail.bytes();
    let mut bytes = head.clone();
    bytes.extend_from_slice(&tail);
    let want = Parsed {
        method: c.req.method.clone(),
        uri: c.req.target.clone(),
        version: format!("HTTP/1.{}", c.req.minor),
        headers: c.req.normalized(),
    };
    let mut first: Option<(bool, String)> = None;
    for e in ENTRIES {
        let out = enter(*e, &bytes, &c.plan, c.close);
        ensure!(!out.stalled, "{:?}: no decision", e);
        let dec = (out.ok, out.err.as_ref().map(|x| format!("{:?}", x)).unwrap_or_default());
        match &first {
            None => first = Some(dec),
            Some(f) => ensure!(*f == dec, "{:?} decides {:?}, {:?} decides {:?}", ENTRIES[0], f, e, dec),
        }
        match &out.parsed {
            Some(p) => ensure!(*p == want, "{:?}: request seen as {:?}, sent {:?}", e, p, want),
            None => fail!("{:?}: well-formed request not handed back ({:?})", e, out.err),
        }
        let left = if *e == Entry::Pair { &bytes } else { &tail };
        ensure!(
            out.left == *left,
            "{:?} ({}): {} bytes available after the head, {} were sent ({:?} / {:?})",
            e, if out.ok { "accepted" } else { "refused" }, out.left.len(), left.len(), clip(&out.left), clip(left)
        );
        ensure!(out.stream_ok, "{:?}: stream not usable afterwards", e);
        ensure!(out.wrote == 0, "{:?}: {} bytes written before any decision of the user", e, out.wrote);
    }
    o.class(if first.map_or(false, |f| f.0) { "accepted" } else { "refused" });
    o.class_if(!tail.is_empty(), "bytes after the head");
    o.nontrivial(!tail.is_empty());
    Ok(())
}
fn clip(b: &[u8]) -> String {
    String::from_utf8_lossy(&b[..b.len().min(60)]).into_owned()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Unparsable {
    noise: Noise,
    /// cut off (in 1/65536 of the length) or nothing
    cut: Option<u16>,
    plan: Vec<u8>,
}
fn h04_unparsable(c: &Unparsable, o: &mut Obs) -> Res {
    let mut bytes = c.noise.bytes();
    if let Some(k) = c.cut {
        bytes.truncate(k as usize * (bytes.len() + 1) >> 16);
    }
    let plan = cope(&c.plan, bytes.len());
    let out = enter(Entry::Sync, &bytes, &plan, true);
    ensure!(out.stream_ok, "Sync: stream not usable afterwards");
    if out.parsed.is_none() {
        ensure!(!out.ok && out.err.is_some(), "Sync: no request, yet accepted");
        ensure!(
            out.left == bytes,
            "Sync: {} of {} bytes handed back for an unparsable head",
            out.left.len(), bytes.len()
        );
        o.class("unparsable");
        o.nontrivial(!bytes.is_empty());
    } else {
        o.class("parsed");
    }
    let out = enter(Entry::Async, &bytes, &plan, true);
    ensure!(!out.stalled, "Async: no decision although the stream has ended");
    ensure!(out.stream_ok, "Async: stream not usable afterwards");
    ensure!(out.ok == out.err.is_none(), "Async: neither accepted nor refused");
    Ok(())
}

// ------------------------------------------------------------------------------- H05 / H06

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Op {
    Proto(String),
    Ext(Ext),
    Exts(Vec<Ext>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Answer {
    req: Req,
    ops: Vec<Op>,
    pre: Custom,
    custom: Option<Custom>,
    lim: Lim,
    plan: Vec<u8>,
    wplan: Vec<u8>,
    tail: Vec<u8>,
}
const ACCEPT_NAMES: &[&str] = &[
    "X-One", "X-Two", "Server", "Set-Cookie", "Date", "Upgrade", "Connection", "Sec-WebSocket-Accept", "upgrade", "CONNECTION",
    "Sec-WebSocket-Foo", "Via", "Content-Language",
];
const REJECT_NAMES: &[&str] = &[
    "X-One", "X-Two", "Server", "Set-Cookie", "Date", "Retry-After", "Sec-WebSocket-Foo", "Via", "Content-Language", "Sec-WebSocket-Version",
    "Connection", "connection", "Upgrade", "Content-Length", "Content-Type", "Location", "WWW-Authenticate", "Sec-WebSocket-Accept",
];
fn answer(names: &'static [&'static str]) -> BoxedStrategy<Answer> {
    let op = prop_oneof![
        3 => token().prop_map(Op::Proto),
        2 => ext().prop_map(Op::Ext),
        1 => some(ext(), 0, 4, 40).prop_map(Op::Exts),
    ];
    (
        valid_request(),
        some(op.boxed(), 0, 6, 60),
        custom(names, true),
        proptest::option::of(custom(names, true)),
        proptest::option::of((0u64..1_000_000, 0u64..1_000_000)),
        plan(),
        plan(),
        gen::tail(),
    )
        .prop_map(|(req, ops, pre, custom, lim, plan, wplan, tail)| Answer { req, ops, pre, custom, lim, plan, wplan, tail })
        .boxed()
}
macro_rules! prepare {
    ($u:expr, $c:expr) => {{
        let mut u = $u;
        for (n, v) in &$c.pre.0 {
            u.headers.set_raw(n.clone(), v.iter().map(|x| x.clone().into_bytes()).collect());
        }
        for op in &$c.ops {
            u = match op {
                Op::Proto(p) => u.use_protocol(p.clone()),
                Op::Ext(e) => u.use_extension(e.lib()),
                Op::Exts(v) => u.use_extensions(v.iter().map(|e| e.lib())),
            };
        }
        u
    }};
}
impl Answer {
    fn expected(&self, accept: bool) -> BTreeMap<String, Vec<String>> {
        let mut m = BTreeMap::new();
        self.pre.apply(&mut m);
        let mut protos = vec![];
        let mut exts = vec![];
        for op in &self.ops {
            match op {
                Op::Proto(p) => protos.push(p.clone()),
                Op::Ext(e) => exts.push(e.text()),
                Op::Exts(v) => exts.extend(v.iter().map(|e| e.text())),
            }
        }
        if !protos.is_empty() {
            m.insert("sec-websocket-protocol".into(), protos);
        }
        if !exts.is_empty() {
            m.insert("sec-websocket-extensions".into(), exts);
        }
        if let Some(c) = &self.custom {
            c.apply(&mut m);
        }
        if accept {
            m.insert("upgrade".into(), vec!["websocket".into()]);
            m.insert("connection".into(), vec!["upgrade".into()]);
            m.insert("sec-websocket-accept".into(), vec![rfc::accept_for(&self.req.key().expect("valid"))]);
        }
        canonical(m)
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum What {
    Accept,
    Reject,
    Drop,
}
struct Answered {
    sent: Vec<u8>,
    /// headers the connection reports, its protocols and extensions
    reported: Option<Headers>,
    protocols: Option<Vec<String>>,
    extensions: Option<Vec<Ext>>,
    /// the stream is handed back (or kept) and still writes
    usable: bool,
    /// bytes of the peer still to be had
    left: Option<Vec<u8>>,
}
/// the bytes on the wire when the request arrives through that entry
fn answer_on(entry: Entry, what: What, c: &Answer) -> Result<Answered, String> {
    let head = c.req.bytes();
    let mut bytes = head.clone();
    bytes.extend_from_slice(&c.tail);
    let on_wire = if entry == Entry::Pair { c.tail.clone() } else { bytes };
    let rx = Pipe::with(&on_wire);
    let tx = Pipe::new();
    let mode = if entry == Entry::Async { Mode::Async } else { Mode::Blocking };
    let mut io = Io::new(&rx, &tx, mode).plans(&c.plan, &c.wplan);
    if entry != Entry::Async {
        io.calm_until = usize::MAX;
    }
    let custom = c.custom.as_ref().map(|h| h.headers());
    let mut out = Answered { sent: vec![], reported: None, protocols: None, extensions: None, usable: false, left: None };
    macro_rules! sync_end {
        ($u:expr) => {{
            let u = prepare!($u, c);
            match what {
                What::Accept => match accept_sync(u, custom.as_ref(), c.lim) {
                    Ok(client) => {
                        out.reported = Some(client.headers().clone());
                        out.protocols = Some(client.protocols().to_vec());
                        out.extensions = Some(client.extensions().iter().map(Ext::of).collect());
                        out.sent = tx.peek();
                        let (mut s, buf) = client.into_stream();
                        let mut left = buf.map(|(b, p, n)| b[p..n].to_vec()).unwrap_or_default();
                        left.extend(rx.peek());
                        out.left = Some(left);
                        out.usable = probe(&mut s, &tx);
                    }
                    Err((_, e)) => return Err(format!("accept failed: {}", e)),
                },
                What::Reject => {
                    let unread = rx.peek();
                    let r = match &custom {
                        Some(h) => u.reject_with(h),
                        None => u.reject(),
                    };
                    match r {
                        Ok(mut s) => {
                            out.sent = tx.peek();
                            // what was not read ahead must still be on the stream
                            if rx.peek() != unread {
                                return Err("rejecting consumed bytes of the peer".into());
                            }
                            out.usable = probe(&mut s, &tx);
                        }
                        Err((_, e)) => return Err(format!("reject failed: {}", e)),
                    }
                }
                What::Drop => {
                    u.drop();
                    out.sent = tx.peek();
                    out.usable = true;
                }
            }
        }};
    }
    match entry {
        Entry::Sync => match SyncIntoWs::into_ws(io) {
            Ok(u) => sync_end!(u),
            Err((_, _, _, e)) => return Err(format!("refused: {:?}", e)),
        },
        Entry::Pair => {
            let mut r = BufReader::new(&head[..]);
            let req = hyper::http::h1::parse_request(&mut r).map_err(|e| e.to_string())?;
            match SyncIntoWs::into_ws(RequestStreamPair(io, req)) {
                Ok(u) => sync_end!(u),
                Err((_, _, e)) => return Err(format!("refused: {:?}", e)),
            }
        }
        Entry::Hyper => {
            let mut net = NetIo(io);
            let net: &mut dyn NetworkStream = &mut net;
            let mut br = BufReader::new(net);
            let req = hyper::server::Request::new(&mut br, "127.0.0.1:1".parse().unwrap()).map_err(|e| e.to_string())?;
            match SyncIntoWs::into_ws(HyperRequest(req)) {
                Ok(u) => sync_end!(u),
                Err((_, e)) => return Err(format!("refused: {:?}", e)),
            }
        }
        Entry::Async => {
            let polls = (c.plan.len() + c.wplan.len() + 4) * (head.len() + c.tail.len() + 250_000) + 100;
            let u = match drive(AsyncIntoWs::into_ws(io), polls) {
                Driven::Ok(u) => u,
                Driven::Err((_, _, _, e)) => return Err(format!("refused: {:?}", e)),
                Driven::Stall => return Err("handshake stalled".into()),
            };
            let u = prepare!(u, c);
            match what {
                What::Accept => match drive(accept_async(u, custom.as_ref(), c.lim), polls) {
                    Driven::Ok((client, h)) => {
                        out.sent = tx.peek();
                        out.reported = Some(h);
                        let p = client.into_parts();
                        let mut left = p.read_buf.to_vec();
                        left.extend(rx.peek());
                        out.left = Some(left);
                        let mut s = p.io;
                        out.usable = p.write_buf.is_empty() && probe(&mut s, &tx);
                    }
                    Driven::Err(e) => return Err(format!("accept failed: {}", err_name(&e))),
                    Driven::Stall => return Err("accept stalled".into()),
                },
                What::Reject => {
                    let f = match &custom {
                        Some(h) => u.reject_with(h),
                        None => u.reject(),
                    };
                    match drive(f, polls) {
                        Driven::Ok(framed) => {
                            out.sent = tx.peek();
                            let p = framed.into_parts();
                            let mut left = p.read_buf.to_vec();
                            left.extend(rx.peek());
                            out.left = Some(left);
                            let mut s = p.io;
                            out.usable = p.write_buf.is_empty() && probe(&mut s, &tx);
                        }
                        Driven::Err(e) => return Err(format!("reject failed: {}", e)),
                        Driven::Stall => return Err("reject stalled".into()),
                    }
                }
                What::Drop => {
                    u.drop();
                    out.sent = tx.peek();
                    out.usable = true;
                }
            }
        }
    }
    Ok(out)
}
fn probe<W: std::io::Write>(w: &mut W, tx: &Pipe) -> bool {
    probe_write(w, tx)
}
fn check_answer(c: &Answer, e: Entry, what: What, a: &Answered) -> Res {
    let line = match what {
        What::Accept => "HTTP/1.1 101 Switching Protocols",
        What::Reject => "HTTP/1.1 400 Bad Request",
        What::Drop => {
            ensure!(a.sent.is_empty(), "{:?}: dropping sent {:?}", e, clip(&a.sent));
            return Ok(());
        }
    };
    let h = match rfc::parse_head(&a.sent) {
        Ok(h) => h,
        Err(m) => fail!("{:?} {:?}: {}", e, what, m),
    };
    ensure!(h.line == line, "{:?} {:?}: answered {:?}", e, what, h.line);
    ensure!(h.rest.is_empty(), "{:?} {:?}: {} bytes after the head", e, what, h.rest.len());
    for n in ["sec-websocket-accept", "upgrade", "connection"] {
        ensure!(what == What::Reject || h.get(n).len() == 1, "{:?}: {} lines of {}", e, h.get(n).len(), n);
    }
    let want = c.expected(what == What::Accept);
    if let Some(d) = diff(&canonical(head_map(&h)), &want) {
        fail!("{:?} {:?}: {}", e, what, d);
    }
    if let Some(r) = &a.reported {
        match printed(r) {
            Ok(m) => {
                if let Some(d) = diff(&canonical(m), &want) {
                    fail!("{:?}: the connection reports other headers than were sent: {}", e, d);
                }
            }
            Err(m) => fail!("{:?}: reported headers: {}", e, m),
        }
    }
    if let Some(p) = &a.protocols {
        let w = want.get("sec-websocket-protocol").cloned().unwrap_or_default();
        ensure!(*p == w, "{:?}: connection reports protocols {:?}, sent {:?}", e, p, w);
    }
    if let Some(x) = &a.extensions {
        let w: Vec<Ext> = want.get("sec-websocket-extensions").map(|v| v.iter().map(|s| Ext::parse(s)).collect()).unwrap_or_default();
        ensure!(*x == w, "{:?}: connection reports extensions {:?}, sent {:?}", e, x, w);
    }
    ensure!(a.usable, "{:?} {:?}: stream not usable afterwards", e, what);
    if let Some(l) = &a.left {
        ensure!(*l == c.tail, "{:?} {:?}: {} bytes left for the connection, {} were sent", e, what, l.len(), c.tail.len());
    }
    Ok(())
}
fn h05_accept(c: &Answer, o: &mut Obs) -> Res {
    for e in ENTRIES {
        let a = match answer_on(*e, What::Accept, c) {
            Ok(a) => a,
            Err(m) => fail!("{:?}: {}", e, m),
        };
        check_answer(c, *e, What::Accept, &a)?;
    }
    note_answer(c, o);
    Ok(())
}
fn note_answer(c: &Answer, o: &mut Obs) {
    o.class(format!("custom {} limits {}", c.custom.is_some(), c.lim.is_some()));
    o.class_if(!c.ops.is_empty(), "protocols or extensions chosen");
    o.class_if(c.custom.as_ref().map_or(false, |x| x.0.iter().any(|(n, _)| ["upgrade", "connection", "sec-websocket-accept"].contains(&&n.to_ascii_lowercase()[..]))), "custom overrides a handshake header");
    o.nontrivial(!c.ops.is_empty() || c.custom.is_some());
}
fn h06_reject(c: &Answer, o: &mut Obs) -> Res {
    for e in ENTRIES {
        for w in [What::Reject, What::Drop] {
            let a = match answer_on(*e, w, c) {
                Ok(a) => a,
                Err(m) => fail!("{:?} {:?}: {}", e, w, m),
            };
            check_answer(c, *e, w, &a)?;
        }
    }
    note_answer(c, o);
    Ok(())
}

// ------------------------------------------------------------------------------- H11

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Coded {
    request: bool,
    method: String,
    target: String,
    status: u16,
    minor: u8,
    protos: Vec<String>,
    exts: Vec<Ext>,
    custom: Custom,
    big: u16,
    before: Vec<u8>,
    tail: Vec<u8>,
    plan: Vec<u8>,
}
fn coded() -> BoxedStrategy<Coded> {
    (
        any::<bool>(),
        select(vec!["GET", "POST", "HEAD", "OPTIONS", "PUT", "DELETE", "TRACE", "PATCH", "CONNECT", "get", "BREW"]),
        prop_oneof![4 => target(), 1 => select(vec!["http://example.com/a?b=c", "ws://h:81/x"]).prop_map(String::from)],
        prop_oneof![2 => Just(101u16), 4 => select(vec![100u16, 200, 204, 301, 302, 400, 401, 403, 404, 407, 426, 500, 503, 511]), 1 => 100u16..1000],
        0u8..2,
        (some(token(), 0, 4, 60), some(ext(), 0, 4, 30), custom(&["X-One", "X-Two", "Server", "Cookie", "Date", "Upgrade", "Connection", "Host", "Sec-WebSocket-Accept"], true)),
        prop_oneof![8 => Just(0u16), 1 => 0u16..20_000],
        prop_oneof![9 => vec(any::<u8>(), 0..20), 1 => (any::<u8>(), 0usize..20_000).prop_map(|(b, n)| vec![b; n])],
        gen::tail(),
        prop_oneof![3 => plan().boxed(), 1 => fast_plan()],
    )
        .prop_map(|(request, method, target, status, minor, (protos, exts, custom), big, before, tail, plan)| Coded {
            request,
            method: method.to_string(),
            target,
            status,
            minor,
            protos,
            exts,
            custom,
            big,
            before,
            tail,
            plan,
        })
        .boxed()
}
/// feeds bytes in the plan's portions; `step` gets the buffer and how many bytes were fed so far
fn portions(bytes: &[u8], plan: &[u8], mut step: impl FnMut(&mut BytesMut, usize) -> Result<bool, Fail>) -> Res {
    let mut p = Plan::new(plan);
    let mut buf = BytesMut::new();
    let mut at = 0;
    while at < bytes.len() {
        let n = match p.next_step() {
            Step::Hiccup => 0,
            Step::Up(n) => n.min(bytes.len() - at),
        };
        buf.extend_from_slice(&bytes[at..at + n]);
        at += n;
        if !step(&mut buf, at)? {
            return Ok(());
        }
    }
    Ok(())
}
fn h11_roundtrip(c: &Coded, o: &mut Obs) -> Res {
    let mut h = c.custom.headers();
    if !c.protos.is_empty() {
        h.set(WebSocketProtocol(c.protos.clone()));
    }
    if !c.exts.is_empty() {
        h.set(WebSocketExtensions(c.exts.iter().map(|e| e.lib()).collect()));
    }
    if c.big > 0 {
        h.set_raw("X-Big", vec![vec![b'b'; c.big as usize]]);
    }
    let mut want = BTreeMap::new();
    c.custom.apply(&mut want);
    if !c.protos.is_empty() {
        want.insert("sec-websocket-protocol".into(), c.protos.clone());
    }
    if !c.exts.is_empty() {
        want.insert("sec-websocket-extensions".into(), c.exts.iter().map(|e| e.text()).collect());
    }
    if c.big > 0 {
        want.insert("x-big".into(), vec!["b".repeat(c.big as usize)]);
    }
    let want = canonical(want);
    let version = if c.minor == 1 { HttpVersion::Http11 } else { HttpVersion::Http10 };
    let mut dst = BytesMut::new();
    dst.extend_from_slice(&c.before);
    let status = StatusCode::from_u16(c.status);
    if c.request {
        let m = Method::from_str(&c.method).map_err(|_| Fail::Inconclusive("method".into()))?;
        let u = RequestUri::from_str(&c.target).map_err(|_| Fail::Inconclusive("target".into()))?;
        if let Err(e) = HttpClientCodec.encode(Incoming { version, subject: (m, u), headers: h }, &mut dst) {
            fail!("encoding a request fails: {}", e);
        }
    } else if let Err(e) = HttpServerCodec.encode(Incoming { version, subject: status, headers: h }, &mut dst) {
        fail!("encoding a response fails: {}", e);
    }
    ensure!(dst.len() >= c.before.len() && dst[..c.before.len()] == c.before[..], "encoding disturbed what was in the buffer");
    let text = dst[c.before.len()..].to_vec();
    let p = match rfc::parse_head(&text) {
        Ok(p) => p,
        Err(e) => fail!("encoded head: {}", e),
    };
    ensure!(p.rest.is_empty(), "{} bytes after the encoded head", p.rest.len());
    let v = format!("HTTP/1.{}", c.minor);
    if c.request {
        let l = format!("{} {} {}", c.method, c.target, v);
        ensure!(p.line == l, "request line {:?}, expected {:?}", p.line, l);
    } else {
        let l = format!("{} {}", v, c.status);
        ensure!(p.line.starts_with(&l), "status line {:?}", p.line);
        if let Some(r) = status.canonical_reason() {
            ensure!(p.line == format!("{} {}", l, r), "status line {:?}", p.line);
        }
    }
    if let Some(d) = diff(&canonical(head_map(&p)), &want) {
        fail!("encoded head: {}", d);
    }
    // and back
    let mut bytes = text.clone();
    bytes.extend_from_slice(&c.tail);
    let mut done = false;
    portions(&bytes, &c.plan, |buf, fed| {
        if done {
            return Ok(false);
        }
        let hm = |hs: &Headers| canonical(raw_map(hs).into_iter().map(|(n, v)| (n, v.into_iter().map(|x| x.trim_matches(' ').to_string()).collect())).collect());
        let got = if c.request {
            match HttpServerCodec.decode(buf) {
                Ok(None) => None,
                Ok(Some(i)) => {
                    ensure!(i.subject.0.to_string() == c.method && i.subject.1.to_string() == c.target, "decoded {} {}", i.subject.0, i.subject.1);
                    ensure!(i.version == version, "decoded version {}", i.version);
                    Some(hm(&i.headers))
                }
                Err(e) => fail!("encoded request does not decode: {}", e),
            }
        } else {
            match HttpClientCodec.decode(buf) {
                Ok(None) => None,
                Ok(Some(i)) => {
                    ensure!(i.subject.0 == c.status, "decoded status {}", i.subject.0);
                    if let Some(r) = status.canonical_reason() {
                        ensure!(i.subject.1 == r, "decoded reason {:?}", i.subject.1);
                    }
                    ensure!(i.version == version, "decoded version {}", i.version);
                    Some(hm(&i.headers))
                }
                Err(e) => fail!("encoded response does not decode: {}", e),
            }
        };
        match got {
            Some(g) => {
                ensure!(fed >= text.len(), "decoded from a prefix of {} of {} bytes", fed, text.len());
                if let Some(d) = diff(&g, &want) {
                    fail!("decoded head: {}", d);
                }
                ensure!(buf[..] == bytes[text.len()..fed], "{} bytes left in the buffer, expected {}", buf.len(), fed - text.len());
                done = true;
            }
            None => ensure!(fed < text.len(), "complete head not decoded"),
        }
        Ok(true)
    })?;
    ensure!(done, "head never decoded");
    o.class(if c.request { "request" } else { "response" });
    o.class_if(c.big > 8192, "head over 8 kB");
    o.nontrivial(!want.is_empty());
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum HeadSpec {
    Req(Req),
    Resp { status: u16, minor: u8, reason: String, lines: Vec<(String, String)> },
    /// (line count, breakage)
    Odd { request: bool, lines: u16, how: u8 },
}
impl HeadSpec {
    fn bytes(&self) -> Vec<u8> {
        match self {
            HeadSpec::Req(r) => r.bytes(),
            HeadSpec::Resp { status, minor, reason, lines } => {
                let mut s = format!("HTTP/1.{} {} {}\r\n", minor, status, reason);
                for (n, v) in lines {
                    s.push_str(&format!("{}: {}\r\n", n, v));
                }
                s.push_str("\r\n");
                s.into_bytes()
            }
            HeadSpec::Odd { request, lines, how } => {
                let mut s = String::from(match (request, how) {
                    (true, 1) => "GET / HTTP/3.7\r\n",
                    (true, 2) => "GET\r\n",
                    (true, _) => "GET / HTTP/1.1\r\n",
                    (false, 1) => "HTTP/3.7 101 X\r\n",
                    (false, 2) => "HTTP/1.1 1x1 X\r\n",
                    (false, _) => "HTTP/1.1 101 Switching Protocols\r\n",
                });
                for i in 0..*lines {
                    s.push_str(&format!("X-N{}: {}\r\n", i, i));
                }
                match how {
                    3 => s.push_str("no colon here\r\n"),
                    4 => s.push_str("b\u{e4}d: x\r\n"),
                    _ => {}
                }
                s.push_str("\r\n");
                s.into_bytes()
            }
        }
    }
    fn good(&self) -> bool {
        match self {
            HeadSpec::Odd { lines, how, .. } => *lines <= 100 && *how == 0,
            _ => true,
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Piped {
    request: bool,
    heads: Vec<HeadSpec>,
    tail: Vec<u8>,
    plan: Vec<u8>,
}
fn piped() -> BoxedStrategy<Piped> {
    any::<bool>()
        .prop_flat_map(|request| {
            let plain = if request {
                request_any().prop_map(HeadSpec::Req).boxed()
            } else {
                (
                    100u16..600,
                    0u8..2,
                    "[A-Za-z][A-Za-z ]{0,12}[a-z]",
                    vec((select(vec!["Upgrade", "Connection", "X-One", "X-Two", "Server"]), "[!-~]{1,12}"), 0..5),
                )
                    .prop_map(|(status, minor, reason, lines)| HeadSpec::Resp {
                        status,
                        minor,
                        reason,
                        lines: lines.into_iter().map(|(n, v)| (n.to_string(), v)).collect(),
                    })
                    .boxed()
            };
            let odd = (prop_oneof![0u16..5, 96u16..106, 100u16..400], prop_oneof![3 => Just(0u8), 3 => 1u8..5])
                .prop_map(move |(lines, how)| HeadSpec::Odd { request, lines, how });
            (
                Just(request),
                vec(prop_oneof![4 => plain, 1 => odd.boxed()], 1..4),
                prop_oneof![gen::tail(), select(vec!["\r\n", "\r\n\r", "GET", "HTTP/1.1 200"]).prop_map(|s| s.as_bytes().to_vec()).boxed()],
                prop_oneof![1 => plan().boxed(), 1 => fast_plan()],
            )
        })
        .prop_map(|(request, heads, tail, plan)| Piped { request, heads, tail, plan })
        .boxed()
}
fn request_any() -> BoxedStrategy<Req> {
    crate::http::request(true)
}
fn h11_pipelined(c: &Piped, o: &mut Obs) -> Res {
    let texts: Vec<Vec<u8>> = c.heads.iter().map(|h| h.bytes()).collect();
    let mut bytes: Vec<u8> = texts.concat();
    bytes.extend_from_slice(&c.tail);
    let mut ends = vec![];
    let mut at = 0;
    for t in &texts {
        at += t.len();
        ends.push(at);
    }
    let mut next = 0;
    let mut failed = false;
    portions(&bytes, &c.plan, |buf, fed| {
        loop {
            if next == c.heads.len() {
                return Ok(false);
            }
            let before = buf.clone();
            let due = ends[next] <= fed;
            let spec = &c.heads[next];
            // (first part, second part, version, headers)
            let r: Result<Option<(String, String, String, BTreeMap<String, Vec<String>>)>, String> = if c.request {
                HttpServerCodec.decode(buf).map(|x| x.map(|i| (i.subject.0.to_string(), i.subject.1.to_string(), i.version.to_string(), raw_map(&i.headers)))).map_err(|e| e.to_string())
            } else {
                HttpClientCodec.decode(buf).map(|x| x.map(|i| (i.subject.0.to_string(), i.subject.1.to_string(), i.version.to_string(), raw_map(&i.headers)))).map_err(|e| e.to_string())
            };
            if !due {
                match r {
                    Ok(None) => ensure!(*buf == before, "bytes of an incomplete head taken from the buffer"),
                    Ok(Some(_)) => fail!("head {} decoded before its blank line", next),
                    Err(e) => fail!("head {} fails before its blank line: {}", next, e),
                }
                return Ok(true);
            }
            match r {
                Ok(None) => fail!("complete head {} ({} bytes) dropped or ignored", next, texts[next].len()),
                Ok(Some((a, b, v, h))) => {
                    ensure!(buf[..] == bytes[ends[next]..fed], "head {}: {} bytes left in the buffer, expected {}", next, buf.len(), fed - ends[next]);
                    let trim = |m: BTreeMap<String, Vec<String>>| m;
                    let (wa, wb, wv, wh) = match spec {
                        HeadSpec::Req(r) => (r.method.clone(), r.target.clone(), format!("HTTP/1.{}", r.minor), r.normalized()),
                        HeadSpec::Resp { status, minor, reason, lines } => {
                            let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
                            for (n, v) in lines {
                                m.entry(n.to_ascii_lowercase()).or_default().push(v.clone());
                            }
                            (status.to_string(), reason.clone(), format!("HTTP/1.{}", minor), m)
                        }
                        HeadSpec::Odd { request, lines, .. } => {
                            let m = (0..*lines).map(|i| (format!("x-n{}", i), vec![i.to_string()])).collect();
                            if !spec.good() {
                                // accepted more than it has to: nothing further is claimed
                                next += 1;
                                continue;
                            }
                            if *request {
                                ("GET".into(), "/".into(), "HTTP/1.1".into(), m)
                            } else {
                                ("101".into(), "Switching Protocols".into(), "HTTP/1.1".into(), m)
                            }
                        }
                    };
                    ensure!((&a, &b, &v) == (&wa, &wb, &wv), "decoded {:?} {:?} {:?}, sent {:?} {:?} {:?}", a, b, v, wa, wb, wv);
                    if let Some(d) = diff(&trim(h), &wh) {
                        fail!("head {}: {}", next, d);
                    }
                    next += 1;
                }
                Err(e) => {
                    ensure!(!spec.good(), "head {} fails: {}", next, e);
                    failed = true;
                    next = c.heads.len();
                    return Ok(false);
                }
            }
        }
    })?;
    ensure!(next == c.heads.len(), "only {} of {} heads decoded", next, c.heads.len());
    o.class(if c.request { "requests" } else { "responses" });
    o.class_if(failed, "head with an error");
    o.class_if(c.heads.len() > 1, "several heads");
    o.nontrivial(!c.tail.is_empty() || c.heads.len() > 1);
    Ok(())
}

// ------------------------------------------------------------------------------- A01

fn a01_request(c: &Decide, o: &mut Obs) -> Res {
    let r = &c.req;
    let want = Access {
        protocols: r.protocols(),
        extensions: r.extensions(),
        key: r.key(),
        version: r.values("sec-websocket-version").first().map(|s| s.to_string()),
        uri: r.target.clone(),
        origin: r.values("origin").first().map(|s| s.to_string()),
    };
    for e in ENTRIES {
        let out = enter(*e, &r.bytes(), &c.plan, false);
        match &out.access {
            Some(a) => ensure!(*a == want, "{:?}: accessors report {:?}, the request says {:?}", e, a, want),
            None => fail!("{:?}: valid request refused: {:?}", e, out.err),
        }
    }
    o.class_if(!want.protocols.is_empty(), "protocols");
    o.class_if(!want.extensions.is_empty(), "extensions");
    o.class_if(want.origin.is_some(), "origin");
    o.class_if(want.version.is_none(), "no version");
    o.nontrivial(!want.protocols.is_empty() || !want.extensions.is_empty() || want.origin.is_some());
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Reported {
    role: Role,
    protos: Vec<Vec<String>>,
    exts: Vec<Vec<Ext>>,
    custom: Custom,
    plan: Vec<u8>,
}
fn reported() -> BoxedStrategy<Reported> {
    (
        role(),
        some(vec(token(), 1..4).boxed(), 0, 3, 30),
        some(vec(ext(), 1..3).boxed(), 0, 3, 30),
        custom(&["X-One", "X-Two", "Server", "Set-Cookie", "Date"], false),
        plan(),
    )
        .prop_map(|(role, protos, exts, custom, plan)| Reported { role, protos, exts, custom, plan })
        .boxed()
}
fn a01_connection(c: &Reported, o: &mut Obs) -> Res {
    // a client's response with these headers
    let mut head = String::from("HTTP/1.1 101 Switching Protocols\r\nConnection: Upgrade\r\n");
    for p in &c.protos {
        head.push_str(&format!("Sec-WebSocket-Protocol: {}\r\n", p.join(", ")));
    }
    head.push_str("Upgrade: websocket\r\n");
    for e in &c.exts {
        let t: Vec<String> = e.iter().map(|x| x.text()).collect();
        head.push_str(&format!("Sec-WebSocket-Extensions: {}\r\n", t.join(",")));
    }
    for (n, v) in &c.custom.0 {
        for x in v {
            head.push_str(&format!("{}: {}\r\n", n, x));
        }
    }
    head.push_str(&format!("Sec-WebSocket-Accept: {}\r\n\r\n", rfc::accept_for(&KEY)));
    let want = canonical(head_map(&rfc::parse_head(head.as_bytes()).map_err(Fail::Inconclusive)?));
    let protos: Vec<String> = c.protos.concat();
    let exts: Vec<Ext> = c.exts.concat();
    let rx = Pipe::with(head.as_bytes());
    let tx = Pipe::new();
    let mut io = Io::new(&rx, &tx, Mode::Blocking).plans(&c.plan, &[]);
    io.calm_until = head.len();
    let conn = match sync_conn(Role::Client, io, None) {
        Ok(x) => x,
        Err(e) => fail!("client refuses: {}", e),
    };
    ensure!(conn.protocols() == &protos[..], "client reports protocols {:?}, the response says {:?}", conn.protocols(), protos);
    let got: Vec<Ext> = conn.extensions().iter().map(Ext::of).collect();
    ensure!(got == exts, "client reports extensions {:?}, the response says {:?}", got, exts);
    if let Some(d) = diff(&canonical(raw_map(conn.headers())), &want) {
        fail!("client: {}", d);
    }
    let rx = Pipe::with(head.as_bytes());
    let io = Io::new(&rx, &tx, Mode::Async).plans(&c.plan, &[]);
    let polls = (c.plan.len() + 4) * (head.len() + 600) + 100;
    match drive(builder(None).async_connect_on(io), polls) {
        Driven::Ok((_, h)) => {
            if let Some(d) = diff(&canonical(raw_map(&h)), &want) {
                fail!("asynchronous client: {}", d);
            }
        }
        Driven::Err(e) => fail!("asynchronous client refuses: {}", err_name(&e)),
        Driven::Stall => fail!("asynchronous client stalls"),
    }
    o.class_if(!protos.is_empty(), "protocols");
    o.class_if(!exts.is_empty(), "extensions");
    o.nontrivial(!protos.is_empty() || !exts.is_empty());
    Ok(())
}
fn a01_server(c: &Answer, o: &mut Obs) -> Res {
    h05_accept(c, o)
}

pub fn props() -> Vec<Prop> {
    let decide = |good: bool| move || (crate::http::request(good), plan()).prop_map(|(req, plan)| Decide { req, plan }).boxed();
    vec![
        Prop {
            id: "H01",
            level: "exploration",
            assumptions: &["base64 without its padding or with non-zero spare bits may or may not be accepted"],
            suites: vec![
                suite(
                    "token",
                    "random 16-byte keys: token, serialization, parsing, header lines; every case non-trivial",
                    opts(200_000, 8_000_000),
                    || gen::key16().prop_map(|key| Key16 { key }).boxed(),
                    h01_token,
                ),
                suite(
                    "strings",
                    "base64 of 0-40 bytes, near misses of 16 and 20 bytes, arbitrary text, offered as key and as accept; non-trivial: 16 characters or more",
                    opts(400_000, 16_000_000),
                    b64_text,
                    h01_strings,
                ),
            ],
        },
        Prop {
            id: "H02",
            level: "exploration",
            assumptions: &["elements hold no comma or semicolon (the library does not parse quoted separators)"],
            suites: vec![
                suite(
                    "roundtrip",
                    "a value of each of the six headers, formatted and parsed; non-trivial: a list with an element or parameter",
                    opts(200_000, 8_000_000),
                    hdr,
                    h02_roundtrip,
                ),
                suite(
                    "layout",
                    "extension and protocol lists with generated whitespace around every separator, empty elements, over several lines; non-trivial: more than one element",
                    opts(200_000, 8_000_000),
                    || {
                        (some(ext(), 0, 5, 40), some(token(), 0, 5, 80), vec(any::<u8>(), 0..8), any::<u32>(), prop_oneof![3 => Just(0u32), 1 => any::<u32>()])
                            .prop_map(|(exts, protos, ows, cuts, holes)| Layout { exts, protos, ows, cuts, holes })
                            .boxed()
                    },
                    h02_layout,
                ),
            ],
        },
        Prop {
            id: "H03",
            level: "exploration",
            assumptions: &["key and version are given at most once", "base64 without padding may go either way"],
            suites: vec![
                suite(
                    "mostly-valid",
                    "requests whose conditions are each violated rarely; non-trivial: at most one violation",
                    opts(40_000, 3_000_000),
                    decide(true),
                    h03_decide,
                ),
                suite(
                    "mixed",
                    "requests whose conditions are each violated often; non-trivial: at most one violation",
                    opts(30_000, 2_000_000),
                    decide(false),
                    h03_decide,
                ),
            ],
        },
        Prop {
            id: "H04",
            level: "exploration",
            assumptions: &["for a head that does not parse only the blocking stream hands all bytes back"],
            suites: vec![
                suite(
                    "agree",
                    "a well-formed request (valid or not) followed by 0-9000 bytes under a generated chunking through all four entry points; non-trivial: bytes after the head",
                    opts(30_000, 2_000_000),
                    || {
                        (
                            any::<bool>().prop_flat_map(crate::http::request),
                            prop_oneof![2 => gen::pay(false), 1 => (0u32..9000, any::<u32>()).prop_map(|(len, seed)| gen::Pay::Fill { len, seed }).boxed()],
                            prop_oneof![1 => plan(), 2 => fast_plan()],
                            any::<bool>(),
                        )
                            .prop_map(|(req, tail, plan, close)| EnterCase { req, tail, plan, close })
                            .boxed()
                    },
                    h04_agree,
                ),
                suite(
                    "unparsable",
                    "damaged or cut-off heads, then end of stream; non-trivial: head not parsed",
                    opts(30_000, 2_000_000),
                    || {
                        (noise(true), proptest::option::of(any::<u16>()), prop_oneof![1 => plan(), 2 => fast_plan()])
                            .prop_map(|(noise, cut, plan)| Unparsable { noise, cut, plan })
                            .boxed()
                    },
                    h04_unparsable,
                ),
            ],
        },
        Prop {
            id: "H05",
            level: "exploration",
            assumptions: &["custom header sets do not contain Sec-WebSocket-Protocol / -Extensions (they would replace the chosen ones)"],
            suites: vec![suite(
                "accept",
                "a valid request, a sequence of protocol and extension choices, custom headers (also overriding handshake headers, with line breaks in values), all accept variants over four entry points; non-trivial: something chosen or custom",
                opts(30_000, 2_000_000),
                || answer(ACCEPT_NAMES),
                h05_accept,
            )],
        },
        Prop {
            id: "H06",
            level: "exploration",
            assumptions: &["bytes a blocking upgrade had read ahead are not handed back by reject (only claimed for the asynchronous one)"],
            suites: vec![suite(
                "reject",
                "as H05, rejected and dropped; non-trivial: something chosen or custom",
                opts(30_000, 2_000_000),
                || answer(REJECT_NAMES),
                h06_reject,
            )],
        },
        Prop {
            id: "H11",
            level: "exploration",
            assumptions: &["heads end with CRLF CRLF and have no blank lines in front"],
            suites: vec![
                suite(
                    "roundtrip",
                    "request and response heads encoded into a non-empty buffer, parsed independently, decoded by the opposite codec under a generated chunking; non-trivial: some header",
                    opts(40_000, 3_000_000),
                    coded,
                    h11_roundtrip,
                ),
                suite(
                    "pipelined",
                    "1-3 heads (some malformed or with up to 400 headers) and trailing bytes under a generated chunking; non-trivial: several heads or a tail",
                    opts(40_000, 3_000_000),
                    piped,
                    h11_pipelined,
                ),
            ],
        },
        Prop {
            id: "A01",
            level: "exploration",
            assumptions: &[],
            suites: vec![
                suite(
                    "request",
                    "valid requests with generated protocols, extensions, version, origin and target, through four entry points; non-trivial: a list or an origin is there",
                    opts(30_000, 2_000_000),
                    || (valid_request(), plan()).prop_map(|(req, plan)| Decide { req, plan }).boxed(),
                    a01_request,
                ),
                suite(
                    "response",
                    "responses with protocols and extensions over several lines and other headers, blocking and asynchronous client; non-trivial: a list is there",
                    opts(30_000, 2_000_000),
                    reported,
                    a01_connection,
                ),
                suite(
                    "answer",
                    "server connections report what they answered (cases as in H05)",
                    opts(10_000, 600_000),
                    || answer(ACCEPT_NAMES),
                    a01_server,
                ),
            ],
        },
    ]
}
