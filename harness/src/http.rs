//! Handshake requests and responses: model, generators, an independent judge, and uniform access to
//! the library's upgrade entry points.
use crate::dict;
use crate::mock::*;
use crate::rfc;
use bytes::BytesMut;
use futures::Future;
use hyper::buffer::BufReader;
use hyper::header::Headers;
use hyper::net::NetworkStream;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{self, Read, Write};
use std::net::SocketAddr;
use std::time::Duration;
use websocket::client::r#async::Client as AsyncClient;
use websocket::client::sync::Client;
use websocket::header::extensions::{Extension, Parameter};
use websocket::server::upgrade::r#async::{IntoWs as AsyncIntoWs, Upgrade as AsyncUpgrade};
use websocket::server::upgrade::sync::{Buffer, HyperRequest, IntoWs as SyncIntoWs, RequestStreamPair, Upgrade};
use websocket::server::upgrade::{HyperIntoWsError, Request, WsUpgrade};
use websocket::stream::sync::Stream;

/// One header line as sent.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Line {
    pub name: String,
    pub pre: u8,
    pub value: String,
    pub post: u8,
}
impl Line {
    pub fn new(name: &str, value: &str) -> Line {
        Line { name: name.into(), pre: 1, value: value.into(), post: 0 }
    }
    fn text(&self) -> String {
        format!(
            "{}:{}{}{}\r\n",
            self.name,
            " ".repeat(self.pre as usize),
            self.value,
            " ".repeat(self.post as usize)
        )
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Req {
    pub method: String,
    pub target: String,
    /// 1.x
    pub minor: u8,
    pub lines: Vec<Line>,
}
fn values<'a>(lines: &'a [Line], name: &str) -> Vec<&'a str> {
    lines.iter().filter(|l| l.name.eq_ignore_ascii_case(name)).map(|l| l.value.as_str()).collect()
}
pub fn elements(vals: &[&str]) -> Vec<String> {
    vals.iter()
        .flat_map(|v| v.split(','))
        .map(|x| x.trim_matches(|c| c == ' ' || c == '\t').to_string())
        .filter(|x| !x.is_empty())
        .collect()
}
/// base64 of `n` bytes, padding missing or too long and spare bits not zero allowed
pub fn lenient_b64(s: &str, n: usize) -> bool {
    let t = s.trim_end_matches('=');
    t.len() == (n * 8 + 5) / 6 && t.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'+' || c == b'/')
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cond {
    Method,
    Http,
    Version,
    Key,
    UpgradeMissing,
    UpgradeOther,
    ConnectionMissing,
    ConnectionOther,
}
impl Req {
    pub fn bytes(&self) -> Vec<u8> {
        let mut s = format!("{} {} HTTP/1.{}\r\n", self.method, self.target, self.minor);
        for l in &self.lines {
            s.push_str(&l.text());
        }
        s.push_str("\r\n");
        s.into_bytes()
    }
    pub fn values(&self, name: &str) -> Vec<&str> {
        values(&self.lines, name)
    }
    /// the conditions of RFC 6455 section 4.2.1 it violates
    pub fn violated(&self) -> Vec<Cond> {
        let mut v = vec![];
        if self.method != "GET" {
            v.push(Cond::Method);
        }
        if self.minor < 1 {
            v.push(Cond::Http);
        }
        match self.values("sec-websocket-version").as_slice() {
            [] | ["13"] => {}
            _ => v.push(Cond::Version),
        }
        match self.values("sec-websocket-key").as_slice() {
            [k] if rfc::unb64(k).map_or(false, |b| b.len() == 16) => {}
            _ => v.push(Cond::Key),
        }
        let up = self.values("upgrade");
        if up.is_empty() {
            v.push(Cond::UpgradeMissing);
        } else if !elements(&up).iter().any(|e| e.eq_ignore_ascii_case("websocket")) {
            v.push(Cond::UpgradeOther);
        }
        let co = self.values("connection");
        if co.is_empty() {
            v.push(Cond::ConnectionMissing);
        } else if !elements(&co).iter().any(|e| e.eq_ignore_ascii_case("upgrade")) {
            v.push(Cond::ConnectionOther);
        }
        v
    }
    pub fn key(&self) -> Option<Vec<u8>> {
        match self.values("sec-websocket-key").as_slice() {
            [k] => rfc::unb64(k).filter(|b| b.len() == 16),
            _ => None,
        }
    }
    /// the key is base64 of 16 bytes only when padding and spare bits are taken generously
    pub fn maybe_key(&self) -> bool {
        match self.values("sec-websocket-key").as_slice() {
            [k] => lenient_b64(k, 16),
            _ => false,
        }
    }
    /// names in lower case with all their values in order
    pub fn normalized(&self) -> BTreeMap<String, Vec<String>> {
        let mut m: BTreeMap<String, Vec<String>> = Default::default();
        for l in &self.lines {
            m.entry(l.name.to_ascii_lowercase()).or_default().push(l.value.clone());
        }
        m
    }
    pub fn protocols(&self) -> Vec<String> {
        elements(&self.values("sec-websocket-protocol"))
    }
    pub fn extensions(&self) -> Vec<Ext> {
        elements(&self.values("sec-websocket-extensions")).iter().map(|s| Ext::parse(s)).collect()
    }
}
/// does the error name a condition in the list?
pub fn names(e: &HyperIntoWsError, v: &[Cond]) -> bool {
    use HyperIntoWsError as E;
    match e {
        E::MethodNotGet => v.contains(&Cond::Method),
        E::UnsupportedHttpVersion => v.contains(&Cond::Http),
        E::UnsupportedWebsocketVersion => v.contains(&Cond::Version),
        E::NoSecWsKeyHeader => v.contains(&Cond::Key),
        E::NoUpgradeHeader => v.contains(&Cond::UpgradeMissing),
        E::NoWsUpgradeHeader => v.contains(&Cond::UpgradeOther) || v.contains(&Cond::UpgradeMissing),
        E::NoConnectionHeader => v.contains(&Cond::ConnectionMissing),
        E::NoWsConnectionHeader => v.contains(&Cond::ConnectionOther) || v.contains(&Cond::ConnectionMissing),
        E::Io(_) | E::Parsing(_) => false,
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Ext {
    pub name: String,
    pub params: Vec<(String, Option<String>)>,
}
impl Ext {
    pub fn parse(s: &str) -> Ext {
        let mut it = s.split(';').map(|p| p.trim());
        Ext {
            name: it.next().unwrap_or("").to_string(),
            params: it
                .map(|p| match p.split_once('=') {
                    Some((n, v)) => (n.trim().to_string(), Some(v.trim().to_string())),
                    None => (p.to_string(), None),
                })
                .collect(),
        }
    }
    pub fn text(&self) -> String {
        let mut s = self.name.clone();
        for (n, v) in &self.params {
            s.push_str("; ");
            s.push_str(n);
            if let Some(v) = v {
                s.push('=');
                s.push_str(v);
            }
        }
        s
    }
    pub fn lib(&self) -> Extension {
        Extension {
            name: self.name.clone(),
            params: self.params.iter().map(|(n, v)| Parameter::new(n.clone(), v.clone())).collect(),
        }
    }
    pub fn of(e: &Extension) -> Ext {
        Ext {
            name: e.name.clone(),
            params: e.params.iter().map(|p| (p.name.clone(), p.value.clone())).collect(),
        }
    }
}

// ------------------------------------------------------------------------------- generators

/// plain tokens
fn tokenish(s: &str) -> bool {
    s.starts_with(|c: char| c.is_ascii_alphabetic()) && s.len() <= 40 && s.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'-' || c == b'.' || c == b'_')
}
/// names that no part of the exchange gives a meaning
fn neutral_name(s: &str) -> bool {
    let l = s.to_ascii_lowercase();
    tokenish(s)
        && !["host", "connection", "upgrade", "origin", "te", "trailer", "expect", "date", "allow", "link", "range", "warning"].contains(&l.as_str())
        && !["sec-websocket-", "content-", "transfer-", "if-", "accept-", "access-", "cookie", "set-cookie", "authorization", "proxy-"].iter().any(|p| l.starts_with(p))
        || l.starts_with("x-") && tokenish(s)
}
pub fn token() -> BoxedStrategy<String> {
    let base = prop_oneof![
        5 => "[a-zA-Z][a-zA-Z0-9-]{0,9}",
        2 => "[!#$%&'*+.^_`|~0-9A-Za-z-]{1,12}",
        1 => select(vec!["chat", "superchat", "permessage-deflate", "x-webkit-deflate-frame", "mqtt", "13", "upgrade", "websocket"]).prop_map(String::from),
    ]
    .boxed();
    let t = dict::fresh_ints(base, 1, 70, |n, r| ["t", "T", "-9"][r as usize % 3].repeat(n as usize)[..n as usize].to_string());
    dict::strs(t, tokenish, |s, r| if r % 3 == 0 { format!("{}1", s) } else { s })
}
pub fn ext() -> BoxedStrategy<Ext> {
    let value = prop_oneof![
        3 => Just(None),
        4 => token().prop_map(Some),
        1 => dict::ints("[0-9]{1,4}".boxed(), 0, u64::MAX, |n, _| n.to_string()).prop_map(Some),
        1 => Just(Some(String::new())),
        1 => "\"[a-zA-Z0-9 =:/.-]{0,8}\"".prop_map(Some),
    ];
    (token(), prop_oneof![2 => Just(vec![]).boxed(), 3 => some((token(), value).boxed(), 1, 4, 30)])
        .prop_map(|(name, params)| Ext { name, params })
        .boxed()
}
/// what `target` may contain anywhere
pub fn pathish(s: &str) -> bool {
    s.len() <= 40 && s.bytes().all(|c| c.is_ascii_alphanumeric() || b"_~-".contains(&c)) || s.starts_with('/') && !s.starts_with("//") && s.bytes().all(|c| c.is_ascii_alphanumeric() || b"_~-/".contains(&c))
}
fn printable(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|c| (0x20..0x7f).contains(&c)) && !s.starts_with(' ') && !s.ends_with(' ')
}
pub fn recase(s: &str, bits: u32) -> String {
    s.chars()
        .enumerate()
        .map(|(i, c)| match (bits >> (i % 32)) & 1 {
            1 if c.is_ascii_lowercase() => c.to_ascii_uppercase(),
            1 => c.to_ascii_lowercase(),
            _ => c,
        })
        .collect()
}
/// three quarters as written, the rest in random letter case
pub fn cased(s: &'static str) -> BoxedStrategy<String> {
    prop_oneof![3 => Just(s.to_string()), 2 => any::<u32>().prop_map(move |b| recase(s, b))].boxed()
}
pub fn target() -> BoxedStrategy<String> {
    let base = prop_oneof![
        3 => Just("/".to_string()),
        4 => "/[a-zA-Z0-9_./~-]{0,20}",
        3 => "/[a-zA-Z0-9/]{0,10}\\?[a-zA-Z0-9=&%+./:;@!$*,-]{0,20}",
        1 => Just("*".to_string()),
        // the absolute form, written the way a URL parser writes it back
        1 => "(http|ws|https)://[a-z]{1,8}(\\.[a-z]{2,3})?(:81[0-9]{2})?/[a-zA-Z0-9_]{0,10}(\\?[a-zA-Z0-9=&%+]{0,10})?",
    ]
    .boxed();
    let t = dict::ints(base, 1, 5000, |n, _| format!("/{}", "p".repeat(n as usize - 1)));
    dict::strs(t, pathish, |s, r| match r % 3 {
        0 => format!("/{}", s.trim_start_matches('/')),
        1 => format!("/a/{}", s.trim_start_matches('/')),
        _ => format!("/q?{}", s.trim_start_matches(['/', '?'])),
    })
}
pub fn origin() -> BoxedStrategy<String> {
    let base = prop_oneof![
        3 => select(vec!["null", "http://example.com", "https://example.com:8443", "http://www.rust-lang.org/", "file://"]).prop_map(String::from),
        2 => "[!-~]{1,20}",
        1 => "[!-~][ -~]{0,12}[!-~]",
    ]
    .boxed();
    dict::strs(base, printable, |s, _| s)
}
fn field_value() -> BoxedStrategy<String> {
    let base = prop_oneof![
        40 => "[!-~]{1,16}",
        20 => "[!-~][ -~]{0,20}[!-~]",
        10 => Just(String::new()),
        4 => "[a-z\u{e9}\u{6f22}\u{1F600}]{1,8}",
        3 => (proptest::char::range('a', 'z'), 100usize..1500).prop_map(|(c, n)| c.to_string().repeat(n)),
        1 => (proptest::char::range('a', 'z'), 1500usize..20_000).prop_map(|(c, n)| c.to_string().repeat(n)),
    ]
    .boxed();
    let v = dict::fresh_ints(base, 1, 9_000, |n, r| ["v", "5"][r as usize % 2].repeat(n as usize));
    dict::strs(v, printable, |s, r| if r % 3 == 0 { format!("{} x", s) } else { s })
}
const X_NAMES: &[&str] = &[
    "X-One", "X-Two", "X-Three", "X-Forwarded-For", "Cookie", "User-Agent", "Accept", "Accept-Language",
    "Cache-Control", "Pragma", "DNT", "Via", "X-Upgrade", "X-Connection", "Sec-Fetch-Mode",
    "Sec-WebSocket-Foo", "Upgrade-Insecure-Requests", "Proxy-Connection",
];
fn one_of_case(b: bool, w: u32) -> u32 {
    if b { w } else { 1 }
}
fn opt_line(name: &'static str, v: BoxedStrategy<Option<String>>) -> BoxedStrategy<Vec<Line>> {
    (cased(name), v, 0u8..3, 0u8..2)
        .prop_map(|(name, v, pre, post)| match v {
            Some(value) => vec![Line { name, pre, value, post }],
            None => vec![],
        })
        .boxed()
}
/// mostly a handful, now and then a lot
pub fn some<T: std::fmt::Debug + Clone + 'static>(s: BoxedStrategy<T>, min: usize, usual: usize, most: usize) -> BoxedStrategy<Vec<T>> {
    prop_oneof![
        20 => crate::gen::many(s.clone(), min..usual, most as u64),
        1 => vec(s.clone(), min..(usual * 4).min(most)),
        1 => vec(s, min..most),
    ]
    .boxed()
}
/// A list header given over one or two lines, with the wanted element present or not.
fn list_lines(name: &'static str, wanted: &'static str, others: &'static [&'static str], good: bool) -> BoxedStrategy<Vec<Line>> {
    let with = (cased(wanted), some(select(others.to_vec()).boxed(), 0, 3, 120), any::<prop::sample::Index>())
        .prop_map(|(w, o, at)| {
            let mut v: Vec<String> = o.iter().map(|s| s.to_string()).collect();
            let at = at.index(v.len() + 1);
            v.insert(at, w);
            v
        })
        .boxed();
    let without = some(select(others.to_vec()).boxed(), 0, 3, 120)
        .prop_map(|o| o.iter().map(|s| s.to_string()).collect::<Vec<_>>())
        .boxed();
    prop_oneof![
        one_of_case(good, 14) => with,
        1 => without,
    ]
    .prop_flat_map(move |els| {
        let n = els.len();
        (Just(els), 0..=n, select(vec![", ", ",", " , ", ",  "]), cased(name), cased(name), any::<bool>(), 0u8..3, 0u8..2, any::<bool>())
    })
    .prop_map(|(els, at, sep, n1, n2, two, pre, post, absent)| {
        if els.is_empty() && absent {
            return vec![];
        }
        let (a, b) = if two && at > 0 && at < els.len() { els.split_at(at) } else { (&els[..], &els[..0]) };
        let mut out = vec![Line { name: n1, pre, value: a.join(sep), post }];
        if !b.is_empty() {
            out.push(Line { name: n2, pre: 1, value: b.join(sep), post });
        }
        out
    })
    .boxed()
}
fn key_value(good: bool) -> BoxedStrategy<Option<String>> {
    prop_oneof![
        one_of_case(good, 20) => crate::gen::key16().prop_map(|k| Some(rfc::b64(&k))),
        1 => Just(None),
        1 => vec(any::<u8>(), 1..40).prop_map(|k| Some(rfc::b64(&k))),
        1 => (crate::gen::key16(), any::<prop::sample::Index>(), select(vec!['-', '_', '!', '*', ' ', '=', '.'])).prop_map(|(k, at, c)| {
            let mut s: Vec<char> = rfc::b64(&k).chars().collect();
            let i = 1 + at.index(21);
            s[i] = c;
            Some(s.into_iter().collect())
        }),
        1 => (crate::gen::key16(), 1usize..20).prop_map(|(k, n)| Some(rfc::b64(&k)[..n].to_string())),
        1 => (crate::gen::key16(), select(vec!["A", "AA", "AAAA", "==", "x"])).prop_map(|(k, t)| Some(rfc::b64(&k) + t)),
        1 => Just(Some("x".to_string())),
    ]
    .boxed()
}
/// Extra header lines that play no part in the decision.
fn extras() -> BoxedStrategy<Vec<Line>> {
    let name = dict::strs(select(X_NAMES.to_vec()).prop_map(String::from).boxed(), neutral_name, |s, _| s);
    let x = (name, field_value(), 0u8..3, 0u8..2)
        .prop_map(|(n, value, pre, post)| vec![Line { name: n.to_string(), pre, value, post }]);
    let protos = (some(token(), 1, 4, 80), select(vec![", ", ",", " ,"]), cased("Sec-WebSocket-Protocol"))
        .prop_map(|(p, sep, name)| vec![Line { name, pre: 1, value: p.join(sep), post: 0 }]);
    let exts = (some(ext(), 1, 4, 40), select(vec![", ", ",", " ,"]), cased("Sec-WebSocket-Extensions"))
        .prop_map(|(p, sep, name)| {
            let t: Vec<String> = p.iter().map(|e| e.text()).collect();
            vec![Line { name, pre: 1, value: t.join(sep), post: 0 }]
        });
    (
        some(prop_oneof![3 => x.boxed(), 2 => protos.boxed(), 2 => exts.boxed()].boxed(), 0, 6, 60),
        opt_line("Origin", proptest::option::of(origin()).boxed()),
        opt_line("Host", prop_oneof![6 => Just(Some("server.example.com".to_string())), 1 => Just(None), 1 => Just(Some("h:8080".to_string()))].boxed()),
    )
        .prop_map(|(v, o, h)| {
            let mut out = crate::gen::within(v.into_iter().flatten().collect(), 0, 60_000, |l: &Line| l.value.len());
            out.extend(o);
            out.extend(h);
            out
        })
        .boxed()
}
/// `good`: mostly valid requests (each condition violated rarely); otherwise each often.
pub fn request(good: bool) -> BoxedStrategy<Req> {
    request_w(if good { 1 } else { 0 })
}
/// always valid
pub fn valid_request() -> BoxedStrategy<Req> {
    request_w(2).prop_filter("valid", |r| r.violated().is_empty()).boxed()
}
fn request_w(level: u8) -> BoxedStrategy<Req> {
    let good = level > 0;
    let bad = if level == 2 { 0u32 } else { 1 };
    let w = if good { 30 } else { 4 };
    let method = prop_oneof![
        w => Just("GET".to_string()),
        bad => select(vec!["POST", "HEAD", "PUT", "DELETE", "OPTIONS", "CONNECT", "TRACE", "PATCH", "get", "Get", "GETT", "GE"]).prop_map(String::from),
    ];
    let version = prop_oneof![
        w => Just(Some("13".to_string())),
        w / 2 => Just(None),
        bad => select(vec!["12", "14", "8", "0", "7", "013", "13.0", "13, 8", "8, 13", "1 3", "+13", "thirteen", "13;", "131"]).prop_map(|s| Some(s.to_string())),
    ]
    .boxed();
    (
        method,
        target(),
        prop_oneof![w => Just(1u8), bad => Just(0u8)],
        opt_line("Sec-WebSocket-Version", version),
        opt_line("Sec-WebSocket-Key", key_value(good)),
        list_lines("Upgrade", "websocket", &["h2c", "TLS/1.0", "websocket2", "web-socket", "xwebsocket", "sockets", "HTTP/2.0"], good),
        list_lines("Connection", "Upgrade", &["keep-alive", "close", "TE", "upgraded", "up-grade", "Keep-Alive", "HTTP2-Settings"], good),
        extras(),
        any::<u64>(),
    )
        .prop_map(|(method, target, minor, a, b, c, d, e, seed)| {
            let mut lines: Vec<Line> = e;
            // groups keep their inner order, the groups and extras are shuffled
            let mut s = seed;
            for g in [a, b, c, d] {
                let mut at = 0;
                for l in g {
                    s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    let room = lines.len() - at + 1;
                    let i = at + (s >> 33) as usize % room;
                    lines.insert(i, l);
                    at = i + 1;
                }
            }
            Req { method, target, minor, lines }
        })
        .boxed()
}

/// Custom header sets: distinct names, one or more values each.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Custom(pub Vec<(String, Vec<String>)>);
pub fn custom(names: &'static [&'static str], evil: bool) -> BoxedStrategy<Custom> {
    let v = if evil {
        prop_oneof![
            4 => field_value(),
            1 => select(vec!["a\r\nX-Evil: 1", "a\nX-Evil: 1", "a\rX-Evil: 1", "a\r\n\r\nGET / HTTP/1.1", "\r\n"]).prop_map(String::from),
        ]
        .boxed()
    } else {
        field_value()
    };
    let names = dict::strs(select(names.to_vec()).prop_map(String::from).boxed(), neutral_name, |s, _| s);
    crate::gen::many((names, vec(v, 1..3)), 0..4, 30)
        .prop_map(|v| {
            let mut out: Vec<(String, Vec<String>)> = vec![];
            for (n, vals) in v {
                if !out.iter().any(|(m, _)| m.eq_ignore_ascii_case(&n)) {
                    out.push((n.to_string(), vals));
                }
            }
            Custom(crate::gen::within(out, 0, 60_000, |l| l.1.iter().map(|v| v.len()).sum()))
        })
        .boxed()
}
impl Custom {
    pub fn headers(&self) -> Headers {
        let mut h = Headers::new();
        for (n, v) in &self.0 {
            h.set_raw(n.clone(), v.iter().map(|x| x.clone().into_bytes()).collect());
        }
        h
    }
    /// as it must appear in a head
    pub fn apply(&self, m: &mut BTreeMap<String, Vec<String>>) {
        for (n, v) in &self.0 {
            m.insert(
                n.to_ascii_lowercase(),
                v.iter().map(|x| x.replace(['\r', '\n'], " ").trim_matches(' ').to_string()).collect(),
            );
        }
    }
}
pub fn head_map(h: &rfc::Head) -> BTreeMap<String, Vec<String>> {
    h.normalized().into_iter().collect()
}
/// brings the list headers to one canonical value and drops empty lists
pub fn canonical(mut m: BTreeMap<String, Vec<String>>) -> BTreeMap<String, Vec<String>> {
    for n in ["sec-websocket-protocol", "sec-websocket-extensions", "connection", "upgrade"] {
        if let Some(v) = m.get_mut(n) {
            let refs: Vec<&str> = v.iter().map(|s| s.as_str()).collect();
            let mut e = elements(&refs);
            if n == "connection" || n == "upgrade" {
                for x in e.iter_mut() {
                    x.make_ascii_lowercase();
                }
            }
            *v = e;
        }
        if m.get(n).map_or(false, |v| v.is_empty()) {
            m.remove(n);
        }
    }
    m
}
pub fn diff(got: &BTreeMap<String, Vec<String>>, want: &BTreeMap<String, Vec<String>>) -> Option<String> {
    for (n, v) in want {
        match got.get(n) {
            Some(g) if g == v => {}
            g => return Some(format!("header {} is {:?}, expected {:?}", n, g, v)),
        }
    }
    for n in got.keys() {
        if !want.contains_key(n) {
            return Some(format!("unexpected header {}: {:?}", n, got[n]));
        }
    }
    None
}
/// hyper headers as they print
pub fn printed(h: &Headers) -> Result<BTreeMap<String, Vec<String>>, String> {
    let text = format!("X\r\n{}\r\n", h);
    rfc::parse_head(text.as_bytes()).map(|h| head_map(&h))
}

// ------------------------------------------------------------------------------- entry points

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Entry {
    Sync,
    Async,
    /// parsed request + stream
    Pair,
    Hyper,
}
pub const ENTRIES: &[Entry] = &[Entry::Sync, Entry::Async, Entry::Pair, Entry::Hyper];

#[derive(Clone, Debug, PartialEq)]
pub struct Parsed {
    pub method: String,
    pub uri: String,
    pub version: String,
    pub headers: BTreeMap<String, Vec<String>>,
}
pub fn parsed(r: &Request) -> Parsed {
    parts(&r.subject.0, &r.subject.1, &r.version, &r.headers)
}
fn parts(m: &hyper::method::Method, u: &hyper::uri::RequestUri, v: &hyper::version::HttpVersion, h: &Headers) -> Parsed {
    Parsed {
        method: m.to_string(),
        uri: u.to_string(),
        version: v.to_string(),
        headers: raw_map(h),
    }
}
pub fn raw_map(h: &Headers) -> BTreeMap<String, Vec<String>> {
    h.iter()
        .map(|v| {
            let raw = h.get_raw(v.name()).unwrap_or(&[]);
            (
                v.name().to_ascii_lowercase(),
                raw.iter().map(|b| String::from_utf8_lossy(b).into_owned()).collect(),
            )
        })
        .collect()
}
/// what the upgrade object says about the request
#[derive(Clone, Debug, PartialEq)]
pub struct Access {
    pub protocols: Vec<String>,
    pub extensions: Vec<Ext>,
    pub key: Option<Vec<u8>>,
    pub version: Option<String>,
    pub uri: String,
    pub origin: Option<String>,
}
pub fn access<S: Stream, B>(u: &WsUpgrade<S, B>) -> Access {
    Access {
        protocols: u.protocols().to_vec(),
        extensions: u.extensions().iter().map(Ext::of).collect(),
        key: u.key().map(|k| k.to_vec()),
        version: u.version().map(|v| v.to_string()),
        uri: u.uri(),
        origin: u.origin().map(|s| s.to_string()),
    }
}

pub struct Outcome {
    pub ok: bool,
    pub err: Option<HyperIntoWsError>,
    pub parsed: Option<Parsed>,
    pub access: Option<Access>,
    /// buffered bytes followed by what is unread on the stream
    pub left: Vec<u8>,
    pub stalled: bool,
    /// the stream was handed back and still writes to the transport
    pub stream_ok: bool,
    /// bytes written by the time the decision was made
    pub wrote: usize,
}

pub fn unread(b: &Option<Buffer>, rx: &Pipe) -> Vec<u8> {
    let mut v = match b {
        Some(b) => b.buf[b.pos..b.cap].to_vec(),
        None => vec![],
    };
    v.extend(rx.peek());
    v
}
/// A network stream for hyper.
pub struct NetIo(pub Io);
impl Read for NetIo {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.0.read(b)
    }
}
impl Write for NetIo {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.flush()
    }
}
impl NetworkStream for NetIo {
    fn peer_addr(&mut self) -> io::Result<SocketAddr> {
        Ok("127.0.0.1:1".parse().unwrap())
    }
    fn set_read_timeout(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
    fn set_write_timeout(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
}
pub fn probe_write<W: Write>(w: &mut W, tx: &Pipe) -> bool {
    let before = tx.len();
    let mut rest: &[u8] = b"probe";
    for _ in 0..2000 {
        match w.write(rest) {
            Ok(n) => rest = &rest[n..],
            Err(_) => {}
        }
        if rest.is_empty() {
            break;
        }
    }
    tx.peek()[before..] == *b"probe"
}

/// Offers `bytes` to an entry point; the stream is left open or closed after them.
pub fn enter(entry: Entry, bytes: &[u8], rplan: &[u8], close: bool) -> Outcome {
    let rx = Pipe::with(bytes);
    if close {
        rx.close();
    }
    let tx = Pipe::new();
    let mode = if entry == Entry::Async { Mode::Async } else { Mode::Blocking };
    let mut io = Io::new(&rx, &tx, mode).plans(rplan, &[]);
    io.calm_until = if entry == Entry::Async { 0 } else { bytes.len() };
    let mut out = Outcome {
        ok: false,
        err: None,
        parsed: None,
        access: None,
        left: vec![],
        stalled: false,
        stream_ok: false,
        wrote: 0,
    };
    match entry {
        Entry::Sync => match SyncIntoWs::into_ws(io) {
            Ok(mut u) => {
                out.ok = true;
                out.parsed = Some(parsed(&u.request));
                out.access = Some(access(&u));
                out.left = unread(&u.buffer, &rx);
                out.wrote = tx.len();
                out.stream_ok = probe_write(&mut u.stream, &tx);
            }
            Err((mut s, r, b, e)) => {
                out.err = Some(e);
                out.parsed = r.as_ref().map(parsed);
                out.left = unread(&b, &rx);
                out.wrote = tx.len();
                out.stream_ok = probe_write(&mut s, &tx);
            }
        },
        Entry::Pair => {
            let mut r = BufReader::new(bytes);
            match hyper::http::h1::parse_request(&mut r) {
                Ok(req) => match SyncIntoWs::into_ws(RequestStreamPair(io, req)) {
                    Ok(mut u) => {
                        out.ok = true;
                        out.parsed = Some(parsed(&u.request));
                        out.access = Some(access(&u));
                        out.left = unread(&u.buffer, &rx);
                        out.wrote = tx.len();
                        out.stream_ok = probe_write(&mut u.stream, &tx);
                    }
                    Err((mut s, r, e)) => {
                        out.err = Some(e);
                        out.parsed = Some(parsed(&r));
                        out.left = rx.peek();
                        out.wrote = tx.len();
                        out.stream_ok = probe_write(&mut s, &tx);
                    }
                },
                Err(e) => {
                    out.err = Some(e.into());
                    out.left = bytes.to_vec();
                    out.stream_ok = true;
                }
            }
        }
        Entry::Hyper => {
            let mut net = NetIo(io);
            let net: &mut dyn NetworkStream = &mut net;
            let mut br = BufReader::new(net);
            match hyper::server::Request::new(&mut br, "127.0.0.1:1".parse().unwrap()) {
                Ok(req) => match SyncIntoWs::into_ws(HyperRequest(req)) {
                    Ok(mut u) => {
                        out.ok = true;
                        out.parsed = Some(parsed(&u.request));
                        out.access = Some(access(&u));
                        out.left = unread(&u.buffer, &rx);
                        out.wrote = tx.len();
                        out.stream_ok = probe_write(&mut u.stream, &tx);
                    }
                    Err((r, e)) => {
                        out.err = Some(e);
                        let (_, m, h, u, v, body) = r.deconstruct();
                        out.parsed = Some(parts(&m, &u, &v, &h));
                        let b = body.into_inner();
                        out.left = b.get_buf().to_vec();
                        out.left.extend(rx.peek());
                        out.wrote = tx.len();
                        out.stream_ok = probe_write(b.get_mut(), &tx);
                    }
                },
                Err(e) => {
                    out.err = Some(e.into());
                    out.left = bytes.to_vec();
                    out.stream_ok = true;
                }
            }
        }
        Entry::Async => {
            let polls = (rplan.len() + 4) * (bytes.len() + 20) + 100;
            match drive(AsyncIntoWs::into_ws(io), polls) {
                Driven::Ok(mut u) => {
                    out.ok = true;
                    out.parsed = Some(parsed(&u.request));
                    out.access = Some(access(&u));
                    out.left = u.buffer.to_vec();
                    out.left.extend(rx.peek());
                    out.wrote = tx.len();
                    out.stream_ok = probe_write(&mut u.stream, &tx);
                }
                Driven::Err((mut s, r, b, e)) => {
                    out.err = Some(e);
                    out.parsed = r.as_ref().map(parsed);
                    out.left = b.to_vec();
                    out.left.extend(rx.peek());
                    out.wrote = tx.len();
                    out.stream_ok = probe_write(&mut s, &tx);
                }
                Driven::Stall => out.stalled = true,
            }
        }
    }
    out
}

pub type Lim = Option<(u64, u64)>;
/// accept through the variant that fits (custom headers and limits given or not)
pub fn accept_sync<S: Stream>(u: Upgrade<S>, c: Option<&Headers>, l: Lim) -> Result<Client<S>, (S, io::Error)> {
    match (c, l) {
        (None, None) => u.accept(),
        (Some(h), None) => u.accept_with(h),
        (None, Some((f, m))) => u.accept_with_limits(f as usize, m as usize),
        (Some(h), Some((f, m))) => u.accept_with_headers_and_limits(h, f as usize, m as usize),
    }
}
pub fn accept_async<S>(
    u: AsyncUpgrade<S>,
    c: Option<&Headers>,
    l: Lim,
) -> Box<dyn Future<Item = (AsyncClient<S>, Headers), Error = websocket::WebSocketError> + Send>
where
    S: websocket::stream::r#async::Stream + Send + 'static,
{
    match (c, l) {
        (None, None) => u.accept(),
        (Some(h), None) => u.accept_with(h),
        (None, Some((f, m))) => u.accept_with_limits(f as usize, m as usize),
        (Some(h), Some((f, m))) => u.accept_with_headers_and_limits(h, f as usize, m as usize),
    }
}

// ------------------------------------------------------------------------------- noisy heads

/// A mostly plausible request or response head with byte-level damage, for robustness.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Noise {
    pub first: String,
    pub lines: Vec<(String, Vec<u8>)>,
    pub eol: Vec<u8>,
    pub edits: Vec<(u16, u8, Vec<u8>)>,
    pub tail: Vec<u8>,
    pub repeat: u16,
}
pub fn noise(request: bool) -> BoxedStrategy<Noise> {
    let first = if request {
        prop_oneof![
            6 => Just("GET / HTTP/1.1".to_string()),
            2 => (select(vec!["GET", "POST", "get", "", "G\u{0}T", "CONNECT"]), select(vec!["/", "*", "http://a/b", "a:80", "", "/%zz", "//", "http://", "a/b", "[::1", "http://[::1]:99999/", "ws://u:p@h:1/x?y#z"]), select(vec!["HTTP/1.1", "HTTP/1.0", "HTTP/2.0", "HTTP/9.9", "HTTP/1", ""]))
                .prop_map(|(a, b, c)| format!("{} {} {}", a, b, c)),
            1 => "[ -~]{0,30}",
        ]
        .boxed()
    } else {
        prop_oneof![
            6 => Just("HTTP/1.1 101 Switching Protocols".to_string()),
            2 => (select(vec!["HTTP/1.1", "HTTP/1.0", "HTTP/2.0", "http/1.1"]), prop_oneof![0u32..1000, any::<u32>()], "[ -~]{0,10}")
                .prop_map(|(a, b, c)| format!("{} {} {}", a, b, c)),
            1 => "[ -~]{0,30}",
        ]
        .boxed()
    };
    let name = prop_oneof![
        8 => select(vec![
            "Host", "Upgrade", "Connection", "Sec-WebSocket-Key", "Sec-WebSocket-Version", "Sec-WebSocket-Accept",
            "Sec-WebSocket-Protocol", "Sec-WebSocket-Extensions", "Origin", "Location", "Content-Length",
            "Transfer-Encoding", "X",
        ]).prop_map(String::from),
        1 => "[ -~]{0,6}",
    ];
    let value = prop_oneof![
        6 => select(vec![
            "websocket", "Upgrade", "upgrade, websocket", "13", "dGhlIHNhbXBsZSBub25jZQ==", "s3pPLMBiTxaQ9kYGzzhZRbK+xOo=",
            "a, b;c=d;;=;e==f, ,;", "a;b=\"x,y\"", "", "=", ";", ",", "permessage-deflate; client_max_window_bits=15",
            "WEBSOCKET/13", "/", "//", "a/b/c", "http://x", "99999999999999999999", "chunked", "\u{e9}\u{1F600}",
        ]).prop_map(|s| s.as_bytes().to_vec()),
        2 => vec(any::<u8>(), 0..20),
        1 => vec(select(b";,= \t\"/a%".to_vec()), 0..60),
        1 => (select(b";,=a/ ".to_vec()), 0usize..3000).prop_map(|(c, n)| vec![c; n]),
    ];
    (
        first,
        vec((name, value), 0..9),
        prop_oneof![8 => Just(b"\r\n".to_vec()), 1 => Just(b"\n".to_vec()), 1 => vec(select(b"\r\n ".to_vec()), 0..3)],
        prop_oneof![2 => Just(vec![]).boxed(), 1 => vec((any::<u16>(), 0u8..4, vec(any::<u8>(), 0..4)), 1..4).boxed()],
        prop_oneof![Just(vec![]).boxed(), vec(any::<u8>(), 0..40).boxed()],
        prop_oneof![12 => Just(1u16), 1 => 1u16..130],
    )
        .prop_map(|(first, lines, eol, edits, tail, repeat)| Noise { first, lines, eol, edits, tail, repeat })
        .boxed()
}
impl Noise {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = self.first.clone().into_bytes();
        v.extend_from_slice(b"\r\n");
        for _ in 0..self.repeat {
            for (n, val) in &self.lines {
                v.extend_from_slice(n.as_bytes());
                v.extend_from_slice(b": ");
                v.extend_from_slice(val);
                v.extend_from_slice(&self.eol);
            }
        }
        v.extend_from_slice(b"\r\n");
        for (at, kind, b) in &self.edits {
            let i = *at as usize * (v.len() + 1) >> 16;
            match kind {
                0 => {
                    for (k, x) in b.iter().enumerate() {
                        if i + k < v.len() {
                            v[i + k] = *x;
                        }
                    }
                }
                1 => {
                    let t = v.split_off(i);
                    v.extend_from_slice(b);
                    v.extend(t);
                }
                2 => {
                    let e = (i + b.len()).min(v.len());
                    v.drain(i..e);
                }
                _ => v.truncate(i.max(v.len() / 2)),
            }
        }
        v.extend_from_slice(&self.tail);
        v
    }
}
/// (the async types used by callers)
pub type Buf = BytesMut;
/// Byte-wise plans make every decoder look at a head again and again: keep them to short heads.
pub fn cope(plan: &[u8], len: usize) -> Vec<u8> {
    if len <= 6000 {
        return plan.to_vec();
    }
    plan.iter().map(|s| if *s == 0 { 0 } else { 249 }).collect()
}
