//! Independent reference model: RFC 6455 framing and reassembly, UTF-8, SHA-1, base64, HTTP heads.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Frame {
    pub fin: bool,
    pub rsv: [bool; 3],
    pub op: u8,
    pub mask: Option<[u8; 4]>,
    /// unmasked payload
    pub payload: Vec<u8>,
}

pub fn encode_header(fin: bool, rsv: [bool; 3], op: u8, mask: Option<[u8; 4]>, len: u64) -> Vec<u8> {
    let mut v = Vec::with_capacity(14);
    v.push(
        (fin as u8) << 7 | (rsv[0] as u8) << 6 | (rsv[1] as u8) << 5 | (rsv[2] as u8) << 4 | (op & 15),
    );
    let m = if mask.is_some() { 128u8 } else { 0 };
    if len < 126 {
        v.push(m | len as u8);
    } else if len < 65536 {
        v.push(m | 126);
        v.extend_from_slice(&(len as u16).to_be_bytes());
    } else {
        v.push(m | 127);
        v.extend_from_slice(&len.to_be_bytes());
    }
    if let Some(k) = mask {
        v.extend_from_slice(&k);
    }
    v
}

pub fn xor(key: [u8; 4], data: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(data.len());
    let mut i = 0usize;
    while i < data.len() {
        out.push(data[i] ^ key[i & 3]);
        i += 1;
    }
    out
}

impl Frame {
    pub fn new(fin: bool, op: u8, payload: Vec<u8>) -> Frame {
        Frame { fin, rsv: [false; 3], op, mask: None, payload }
    }
    pub fn masked(mut self, m: Option<[u8; 4]>) -> Frame {
        self.mask = m;
        self
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut v = encode_header(self.fin, self.rsv, self.op, self.mask, self.payload.len() as u64);
        match self.mask {
            Some(k) => v.extend(xor(k, &self.payload)),
            None => v.extend_from_slice(&self.payload),
        }
        v
    }
    pub fn is_control(&self) -> bool {
        self.op >= 8
    }
}

#[derive(Debug, PartialEq)]
pub enum Dec {
    Frame(Frame, usize),
    Incomplete,
    Invalid(&'static str),
}

/// Strict decoder: shortest lengths, control frames final and at most 125 bytes.
pub fn decode(b: &[u8]) -> Dec {
    if b.len() < 2 {
        return Dec::Incomplete;
    }
    let fin = b[0] & 128 != 0;
    let rsv = [b[0] & 64 != 0, b[0] & 32 != 0, b[0] & 16 != 0];
    let op = b[0] & 15;
    let masked = b[1] & 128 != 0;
    let l7 = (b[1] & 127) as u64;
    let (len, mut at) = match l7 {
        126 => {
            if b.len() < 4 {
                return Dec::Incomplete;
            }
            let l = u16::from_be_bytes([b[2], b[3]]) as u64;
            if l < 126 {
                return Dec::Invalid("length not minimal");
            }
            (l, 4)
        }
        127 => {
            if b.len() < 10 {
                return Dec::Incomplete;
            }
            let l = u64::from_be_bytes([b[2], b[3], b[4], b[5], b[6], b[7], b[8], b[9]]);
            if l < 65536 {
                return Dec::Invalid("length not minimal");
            }
            (l, 10)
        }
        l => (l, 2),
    };
    if op >= 8 {
        if len > 125 {
            return Dec::Invalid("control frame too long");
        }
        if !fin {
            return Dec::Invalid("fragmented control frame");
        }
    }
    let mask = if masked {
        if b.len() < at + 4 {
            return Dec::Incomplete;
        }
        let k = [b[at], b[at + 1], b[at + 2], b[at + 3]];
        at += 4;
        Some(k)
    } else {
        None
    };
    if ((b.len() - at) as u64) < len {
        return Dec::Incomplete;
    }
    let raw = &b[at..at + len as usize];
    let payload = match mask {
        Some(k) => xor(k, raw),
        None => raw.to_vec(),
    };
    Dec::Frame(Frame { fin, rsv, op, mask, payload }, at + len as usize)
}

/// The payload length a (possibly incomplete) frame announces, once its header is complete and valid.
pub fn announced(b: &[u8]) -> Option<u64> {
    if b.len() < 2 {
        return None;
    }
    let m = if b[1] & 128 != 0 { 4 } else { 0 };
    let (l, n) = match b[1] & 127 {
        126 if b.len() >= 4 => (u16::from_be_bytes([b[2], b[3]]) as u64, 4),
        127 if b.len() >= 10 => {
            (u64::from_be_bytes([b[2], b[3], b[4], b[5], b[6], b[7], b[8], b[9]]), 10)
        }
        126 | 127 => return None,
        l => (l as u64, 2),
    };
    if b.len() < n + m {
        return None;
    }
    Some(l)
}

/// Offsets at which a reader's progress through frames changes character: around frame starts, the
/// parts of headers, and the first and last payload bytes. Never fails, whatever the bytes are.
pub fn marks(b: &[u8]) -> Vec<usize> {
    let mut v = vec![];
    let mut at = 0usize;
    while at + 1 < b.len() {
        let h = match b[at + 1] & 127 {
            126 => 4,
            127 => 10,
            _ => 2,
        };
        let hdr = h + if b[at + 1] & 128 != 0 { 4 } else { 0 };
        let len = match announced(&b[at..]) {
            Some(l) => l,
            None => break,
        };
        let end = (at as u64).saturating_add(hdr as u64).saturating_add(len);
        let mut m = vec![at, at + 1, at + 2, at + h - 1, at + h, at + hdr - 1, at + hdr, at + hdr + 1];
        if end <= b.len() as u64 {
            let end = end as usize;
            m.extend([end.saturating_sub(1), end]);
        }
        v.extend(m);
        if end > b.len() as u64 {
            break;
        }
        at = end as usize;
    }
    v.retain(|x| *x <= b.len());
    v.sort();
    v.dedup();
    v
}

/// Decodes a whole byte string into frames; None when it is not a sequence of complete frames.
pub fn decode_all(mut b: &[u8]) -> Result<Vec<Frame>, String> {
    let mut out = vec![];
    while !b.is_empty() {
        match decode(b) {
            Dec::Frame(f, n) => {
                out.push(f);
                b = &b[n..];
            }
            Dec::Incomplete => return Err(format!("{} trailing bytes are no complete frame", b.len())),
            Dec::Invalid(e) => return Err(e.to_string()),
        }
    }
    Ok(out)
}

// ---------------------------------------------------------------- messages

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Msg {
    Text(Vec<u8>),
    Binary(Vec<u8>),
    Ping(Vec<u8>),
    Pong(Vec<u8>),
    Close(Option<(u16, Vec<u8>)>),
}
impl Msg {
    pub fn op(&self) -> u8 {
        match self {
            Msg::Text(_) => 1,
            Msg::Binary(_) => 2,
            Msg::Close(_) => 8,
            Msg::Ping(_) => 9,
            Msg::Pong(_) => 10,
        }
    }
    pub fn payload(&self) -> Vec<u8> {
        match self {
            Msg::Text(p) | Msg::Binary(p) | Msg::Ping(p) | Msg::Pong(p) => p.clone(),
            Msg::Close(None) => vec![],
            Msg::Close(Some((c, r))) => {
                let mut v = c.to_be_bytes().to_vec();
                v.extend_from_slice(r);
                v
            }
        }
    }
    pub fn frame(&self) -> Frame {
        Frame::new(true, self.op(), self.payload())
    }
    pub fn is_control(&self) -> bool {
        self.op() >= 8
    }
    pub fn brief(&self) -> String {
        let p = self.payload();
        let head: Vec<u8> = p.iter().take(16).copied().collect();
        format!("op{} len{} {:?}", self.op(), p.len(), head)
    }
}

/// Forms a message from opcode and full payload, as RFC 6455 section 5.6, 5.5.1 and 8.1 say.
pub fn form(op: u8, data: &[u8]) -> Result<Msg, &'static str> {
    match op {
        1 => {
            if utf8_ok(data) {
                Ok(Msg::Text(data.to_vec()))
            } else {
                Err("text is not UTF-8")
            }
        }
        2 => Ok(Msg::Binary(data.to_vec())),
        8 => match data.len() {
            0 => Ok(Msg::Close(None)),
            1 => Err("close body of one byte"),
            _ => {
                if utf8_ok(&data[2..]) {
                    Ok(Msg::Close(Some((u16::from_be_bytes([data[0], data[1]]), data[2..].to_vec()))))
                } else {
                    Err("close reason is not UTF-8")
                }
            }
        },
        9 => Ok(Msg::Ping(data.to_vec())),
        10 => Ok(Msg::Pong(data.to_vec())),
        _ => Err("undefined opcode"),
    }
}

/// What a receiver must deliver for a frame sequence: messages, then at most one error.
/// `at` gives, per message, the index of the frame that completes it.
pub struct Expect {
    pub msgs: Vec<Msg>,
    pub at: Vec<usize>,
    /// index of the frame by which the failure must have been reported
    pub error: Option<(usize, &'static str)>,
    /// a message is unfinished at the end
    pub open: bool,
    /// first frame of the offending (or unfinished but already doomed) message: a receiver may
    /// report the failure from here on
    pub doomed: Option<usize>,
}
impl Expect {
    /// how many messages must have been delivered before a failure may be reported
    pub fn floor(&self) -> usize {
        let lim = self.doomed.or(self.error.map(|e| e.0)).unwrap_or(usize::MAX);
        self.at.iter().filter(|a| **a < lim).count()
    }
    /// judges what a receiver delivered; `failed` = it reported an error
    pub fn judge(&self, got: &[Msg], failed: bool) -> Result<(), String> {
        for (i, m) in got.iter().enumerate() {
            match self.msgs.get(i) {
                Some(e) if e == m => {}
                Some(e) => {
                    return Err(format!("message {} is {}, expected {}", i, m.brief(), e.brief()))
                }
                None => {
                    return Err(format!(
                        "message {} ({}) delivered although only {} were to be",
                        i,
                        m.brief(),
                        self.msgs.len()
                    ))
                }
            }
        }
        let need = if failed { self.floor() } else { self.msgs.len() };
        if got.len() < need {
            return Err(format!(
                "only {} of {} messages delivered{}",
                got.len(),
                need,
                if failed { " before the error" } else { "" }
            ));
        }
        match self.error {
            Some((i, e)) if !failed => return Err(format!("no error although frame {} is invalid: {}", i, e)),
            None if failed && self.doomed.is_none() => return Err("an error on valid input".into()),
            _ => Ok(()),
        }
    }
}
pub fn reassemble(frames: &[Frame], expect_mask: bool) -> Expect {
    let mut e = Expect { msgs: vec![], at: vec![], error: None, open: false, doomed: None };
    let mut cur: Option<(u8, Vec<u8>, Option<&'static str>)> = None;
    let mut start = 0;
    for (i, f) in frames.iter().enumerate() {
        let mut bad = |m: &'static str| {
            e.error = Some((i, m));
        };
        if f.mask.is_some() != expect_mask {
            bad("wrong masking");
            return e;
        }
        let rsv = f.rsv != [false; 3];
        if f.op >= 8 {
            if !f.fin || f.payload.len() > 125 {
                bad("illegal control frame");
                return e;
            }
            if rsv {
                bad("reserved bits");
                return e;
            }
            match form(f.op, &f.payload) {
                Ok(m) => {
                    e.msgs.push(m);
                    e.at.push(i);
                }
                Err(m) => {
                    e.error = Some((i, m));
                    return e;
                }
            }
            continue;
        }
        match (&mut cur, f.op) {
            (None, 0) => {
                bad("continuation without start");
                return e;
            }
            (Some(_), 1..=7) => {
                bad("new data frame inside a message");
                return e;
            }
            (None, _) => {
                let p = if rsv {
                    Some("reserved bits")
                } else if f.op > 2 {
                    Some("undefined opcode")
                } else {
                    None
                };
                start = i;
                cur = Some((f.op, f.payload.clone(), p));
            }
            (Some(c), _) => {
                c.1.extend_from_slice(&f.payload);
                if rsv && c.2.is_none() {
                    c.2 = Some("reserved bits");
                }
            }
        }
        if f.fin {
            let (op, data, poison) = cur.take().unwrap();
            if let Some(p) = poison {
                e.error = Some((i, p));
                e.doomed = Some(start);
                return e;
            }
            match form(op, &data) {
                Ok(m) => {
                    e.msgs.push(m);
                    e.at.push(i);
                }
                Err(m) => {
                    e.error = Some((i, m));
                    e.doomed = Some(start);
                    return e;
                }
            }
        }
    }
    if let Some((op, data, poison)) = &cur {
        e.open = true;
        if poison.is_some() || (*op == 1 && utf8_hopeless(data)) {
            e.doomed = Some(start);
        }
    }
    e
}

// ---------------------------------------------------------------- UTF-8 (Unicode table 3-7)

pub fn utf8_ok(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let (n, lo, hi) = match c {
            0x00..=0x7F => {
                i += 1;
                continue;
            }
            0xC2..=0xDF => (1, 0x80, 0xBF),
            0xE0 => (2, 0xA0, 0xBF),
            0xE1..=0xEC | 0xEE..=0xEF => (2, 0x80, 0xBF),
            0xED => (2, 0x80, 0x9F),
            0xF0 => (3, 0x90, 0xBF),
            0xF1..=0xF3 => (3, 0x80, 0xBF),
            0xF4 => (3, 0x80, 0x8F),
            _ => return false,
        };
        if i + n >= b.len() {
            return false;
        }
        if b[i + 1] < lo || b[i + 1] > hi {
            return false;
        }
        for k in 2..=n {
            if b[i + k] & 0xC0 != 0x80 {
                return false;
            }
        }
        i += n + 1;
    }
    true
}

/// no continuation can make this valid UTF-8
pub fn utf8_hopeless(b: &[u8]) -> bool {
    !(0..4).any(|n| {
        n <= b.len() && utf8_ok(&b[..b.len() - n]) && (n == 0 || utf8_prefix(&b[b.len() - n..]))
    })
}
fn utf8_prefix(b: &[u8]) -> bool {
    let pads: &[&[u8]] = &[
        &[0x80], &[0xA0], &[0x90], &[0x80, 0x80], &[0xA0, 0x80], &[0x90, 0x80], &[0x80, 0x80, 0x80],
        &[0x90, 0x80, 0x80],
    ];
    pads.iter().any(|p| {
        let mut v = b.to_vec();
        v.extend_from_slice(p);
        utf8_ok(&v)
    })
}

// ---------------------------------------------------------------- SHA-1 and base64

pub fn sha1(data: &[u8]) -> [u8; 20] {
    let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
    let mut m = data.to_vec();
    let bits = (data.len() as u64) * 8;
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&bits.to_be_bytes());
    for blk in m.chunks(64) {
        let mut w = [0u32; 80];
        for t in 0..16 {
            w[t] = u32::from_be_bytes([blk[4 * t], blk[4 * t + 1], blk[4 * t + 2], blk[4 * t + 3]]);
        }
        for t in 16..80 {
            w[t] = (w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16]).rotate_left(1);
        }
        let [mut a, mut b, mut c, mut d, mut e] = h;
        for (t, wt) in w.iter().enumerate() {
            let (f, k) = match t {
                0..=19 => ((b & c) | (!b & d), 0x5A827999u32),
                20..=39 => (b ^ c ^ d, 0x6ED9EBA1),
                40..=59 => ((b & c) | (b & d) | (c & d), 0x8F1BBCDC),
                _ => (b ^ c ^ d, 0xCA62C1D6),
            };
            let x = a
                .rotate_left(5)
                .wrapping_add(f)
                .wrapping_add(e)
                .wrapping_add(k)
                .wrapping_add(*wt);
            e = d;
            d = c;
            c = b.rotate_left(30);
            b = a;
            a = x;
        }
        for (x, y) in h.iter_mut().zip([a, b, c, d, e]) {
            *x = x.wrapping_add(y);
        }
    }
    let mut out = [0u8; 20];
    for i in 0..5 {
        out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn b64(data: &[u8]) -> String {
    let mut s = String::new();
    for c in data.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            if k <= c.len() {
                s.push(B64[(n >> (18 - 6 * k)) as usize & 63] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}
/// Strict canonical base64 with padding.
pub fn unb64(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 4 != 0 {
        return None;
    }
    let mut out = vec![];
    for (ci, c) in b.chunks(4).enumerate() {
        let last = ci == b.len() / 4 - 1;
        let pads = c.iter().rev().take_while(|x| **x == b'=').count();
        if pads > 2 || (pads > 0 && !last) {
            return None;
        }
        let mut n = 0u32;
        for (k, x) in c.iter().enumerate() {
            let v = if k >= 4 - pads {
                0
            } else {
                B64.iter().position(|y| y == x)? as u32
            };
            n = n << 6 | v;
        }
        let bytes = [(n >> 16) as u8, (n >> 8) as u8, n as u8];
        out.extend_from_slice(&bytes[..3 - pads]);
    }
    if b64(&out) != s {
        return None;
    }
    Some(out)
}

pub const GUID: &str = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11";
pub fn accept_for(key: &[u8]) -> String {
    b64(&sha1(format!("{}{}", b64(key), GUID).as_bytes()))
}

// ---------------------------------------------------------------- HTTP heads

#[derive(Clone, Debug, PartialEq)]
pub struct Head {
    pub line: String,
    pub headers: Vec<(String, String)>,
    /// bytes after the blank line
    pub rest: Vec<u8>,
}
/// Strict parser of what the library writes: CRLF lines, `Name: value`, blank line.
pub fn parse_head(b: &[u8]) -> Result<Head, String> {
    let end = b
        .windows(4)
        .position(|w| w == b"\r\n\r\n")
        .ok_or_else(|| format!("no complete head in {:?}", String::from_utf8_lossy(b)))?;
    let head = std::str::from_utf8(&b[..end]).map_err(|_| "head is not UTF-8".to_string())?;
    let mut lines = head.split("\r\n");
    let line = lines.next().unwrap_or("").to_string();
    let mut headers = vec![];
    for l in lines {
        if l.contains('\r') || l.contains('\n') {
            return Err(format!("bare line break in header line {:?}", l));
        }
        let (n, v) = l.split_once(':').ok_or_else(|| format!("header line without colon: {:?}", l))?;
        if n.is_empty() || n.contains(' ') {
            return Err(format!("bad header name {:?}", n));
        }
        headers.push((n.to_string(), v.trim_matches(|c| c == ' ' || c == '\t').to_string()));
    }
    if line.contains('\n') || line.contains('\r') {
        return Err("line break in the first line".into());
    }
    Ok(Head { line, headers, rest: b[end + 4..].to_vec() })
}
impl Head {
    /// all values of a header, in order
    pub fn get(&self, name: &str) -> Vec<&str> {
        self.headers
            .iter()
            .filter(|(n, _)| n.eq_ignore_ascii_case(name))
            .map(|(_, v)| v.as_str())
            .collect()
    }
    pub fn one(&self, name: &str) -> Option<&str> {
        let v = self.get(name);
        if v.len() == 1 {
            Some(v[0])
        } else {
            None
        }
    }
    /// lower-cased names, sorted, with the values joined
    pub fn normalized(&self) -> Vec<(String, Vec<String>)> {
        let mut m: std::collections::BTreeMap<String, Vec<String>> = Default::default();
        for (n, v) in &self.headers {
            m.entry(n.to_ascii_lowercase()).or_default().push(v.clone());
        }
        m.into_iter().collect()
    }
}

pub fn self_test() {
    let hex = |b: &[u8]| b.iter().map(|x| format!("{:02x}", x)).collect::<String>();
    assert_eq!(hex(&sha1(b"abc")), "a9993e364706816aba3e25717850c26c9cd0d89d");
    assert_eq!(hex(&sha1(&[b'a'; 200])), "e61cfffe0d9195a525fc6cf06ca2d77119c24a40");
    assert_eq!(b64(b"foobar"), "Zm9vYmFy");
    assert_eq!(b64(b"fo"), "Zm8=");
    assert_eq!(unb64("Zm8=").unwrap(), b"fo");
    assert!(unb64("Zm9=").is_none());
    assert_eq!(unb64("").unwrap(), b"");
    let key = unb64("dGhlIHNhbXBsZSBub25jZQ==").unwrap();
    assert_eq!(accept_for(&key), "s3pPLMBiTxaQ9kYGzzhZRbK+xOo=");
    for s in [&b"\xc0\x80"[..], b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xe2\x82", b"\x80", b"\xf8\x88\x80\x80\x80"] {
        assert!(!utf8_ok(s));
        assert!(std::str::from_utf8(s).is_err());
    }
    assert!(utf8_ok("aé€😀".as_bytes()));
    let f = Frame::new(true, 1, b"Hello".to_vec()).masked(Some([0x37, 0xfa, 0x21, 0x3d]));
    assert_eq!(f.encode(), [0x81, 0x85, 0x37, 0xfa, 0x21, 0x3d, 0x7f, 0x9f, 0x4d, 0x51, 0x58]);
    assert_eq!(decode(&f.encode()), Dec::Frame(f.clone(), 11));
}
