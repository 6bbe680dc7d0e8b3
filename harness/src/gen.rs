//! Generators shared by the suites.
use crate::dict;
use crate::rfc::{Frame, Msg};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

/// Payload description: small ones literally, big ones as length and seed.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Pay {
    Lit(Vec<u8>),
    Fill { len: u32, seed: u32 },
}
impl Pay {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Pay::Lit(v) => v.clone(),
            Pay::Fill { len, seed } => fill(*len as usize, *seed),
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Pay::Lit(v) => v.len(),
            Pay::Fill { len, .. } => *len as usize,
        }
    }
}
pub fn fill(len: usize, seed: u32) -> Vec<u8> {
    let mut x = seed.wrapping_mul(2654435761).wrapping_add(0x9E3779B9) | 1;
    (0..len)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 17;
            x ^= x << 5;
            (x >> 11) as u8
        })
        .collect()
}
fn flen(r: std::ops::RangeInclusive<u32>) -> BoxedStrategy<Pay> {
    (r, any::<u32>()).prop_map(|(len, seed)| Pay::Fill { len, seed }).boxed()
}
/// Payloads with weight on the length-form boundaries.
pub fn pay(big: bool) -> BoxedStrategy<Pay> {
    let base = if big {
        prop_oneof![
            6 => vec(any::<u8>(), 0..24).prop_map(Pay::Lit),
            3 => flen(0..=300),
            4 => flen(120..=131),
            2 => flen(65530..=65541),
            2 => flen(100..=5000),
            1 => flen(0..=140_000),
        ]
        .boxed()
    } else {
        prop_oneof![
            6 => vec(any::<u8>(), 0..24).prop_map(Pay::Lit),
            3 => flen(0..=300),
            2 => flen(120..=131),
        ]
        .boxed()
    };
    let p = dict::ints(base, 0, if big { 140_000 } else { 5000 }, |n, seed| Pay::Fill { len: n as u32, seed });
    dict::strs(octets(p, Pay::Lit), |_| true, |s, r| Pay::Lit(embed(&s, r).into_bytes()))
}
/// a string alone, at the front, in the middle or at the end
fn embed(s: &str, r: u32) -> String {
    let x = ["\0", "q", "zz9", "\u{e9}"][(r >> 8) as usize % 4];
    match r % 4 {
        0 => s.to_string(),
        1 => format!("{}{}", s, x),
        2 => format!("{}{}", x, s),
        _ => format!("{}{}{}", x, s, x),
    }
}
/// `base`, or a few octets among which are ones that changed code names
fn octets<T: std::fmt::Debug + 'static>(base: BoxedStrategy<T>, f: impl Fn(Vec<u8>) -> T + 'static) -> BoxedStrategy<T> {
    dict::fresh_ints(base, 0, 255, move |n, r| {
        let mut v = fill(1 + r as usize % 9, r);
        match (r >> 8) % 4 {
            0 => v[0] = n as u8,
            1 => v.fill(n as u8),
            2 => *v.last_mut().unwrap() = n as u8,
            _ => v = vec![n as u8],
        }
        f(v)
    })
}
/// A vector whose length is now and then one that changed code names.
pub fn many<T: std::fmt::Debug + Clone + 'static>(s: impl Strategy<Value = T> + 'static, usual: std::ops::Range<usize>, most: u64) -> BoxedStrategy<Vec<T>> {
    let s = s.boxed();
    let min = usual.start as u64;
    let n = dict::fresh_ints(Just(None).boxed(), min, most, |n, _| Some(n as usize));
    n.prop_flat_map(move |n| match n {
        None => vec(s.clone(), usual.clone()).boxed(),
        Some(n) if n <= 12 => vec(s.clone(), n..=n).boxed(),
        // long ones repeat
        Some(n) => vec(s.clone(), 1..6).prop_map(move |v| v.iter().cycle().take(n).cloned().collect()).boxed(),
    })
    .boxed()
}

/// Lengths beyond the usual ones, with weight on powers of two.
pub fn huge_len() -> BoxedStrategy<u32> {
    let base = prop_oneof![
        4 => (17u32..=24, -3i64..=3).prop_map(|(s, d)| ((1i64 << s) + d) as u32),
        2 => 140_000u32..=4_000_000,
        2 => (2u32..=64, -3i64..=3).prop_map(|(k, d)| (k as i64 * 65536 + d) as u32),
        1 => (1u32..=9, 5u32..=6, -2i64..=2).prop_map(|(k, e, d)| (k as i64 * 10i64.pow(e) + d) as u32),
        1 => 4_000_000u32..=20_000_000,
    ]
    .boxed();
    dict::ints(base, 140_000, 20_000_000, |n, _| n as u32)
}
pub fn huge_pay() -> BoxedStrategy<Pay> {
    (huge_len(), any::<u32>()).prop_map(|(len, seed)| Pay::Fill { len, seed }).boxed()
}
pub fn huge_data() -> BoxedStrategy<GMsg> {
    prop_oneof![
        huge_pay().prop_map(GMsg::Binary),
        (vec(ch(), 1..4), huge_len()).prop_map(|(s, n)| {
            let s: String = s.into_iter().collect();
            let n = n / s.len() as u32;
            GMsg::Text(Txt::Rep(s, n))
        }),
    ]
    .boxed()
}
/// Plans for payloads of megabytes.
pub fn huge_plan() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        1 => Just(vec![]),
        3 => vec(proptest::sample::select(vec![254u8, 255, 249, 230, 0, 3, 1, 250, 251]), 0..5).prop_map(|mut v| { v.push(254); v }),
    ]
    .boxed()
}
/// A few items, one of them with a payload of up to 20 MB.
pub fn huge_items() -> BoxedStrategy<Vec<Item>> {
    (
        vec(item(false), 0..2),
        huge_data(),
        prop_oneof![1 => Just(vec![]), 1 => vec(any::<u16>(), 1..4)],
        vec((0u8..7, ctl()), 0..3),
        vec(item(false), 0..2),
    )
        .prop_map(|(mut a, msg, cuts, inter, b)| {
            a.push(Item::Data { msg, cuts, inter });
            a.extend(b);
            a
        })
        .boxed()
}

pub fn ch() -> BoxedStrategy<char> {
    prop_oneof![
        6 => (0x20u32..0x7f).prop_map(|c| char::from_u32(c).unwrap()),
        2 => (0x80u32..0x800).prop_map(|c| char::from_u32(c).unwrap()),
        2 => (0x800u32..0xD800).prop_map(|c| char::from_u32(c).unwrap()),
        2 => (0x10000u32..0x110000).prop_map(|c| char::from_u32(c).unwrap()),
        2 => proptest::sample::select(vec![
            '\u{0}', '\u{1}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}',
            '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\r', '\n',
        ]),
    ]
    .boxed()
}
pub fn string(max: usize) -> BoxedStrategy<String> {
    vec(ch(), 0..=max).prop_map(|v| v.into_iter().collect()).boxed()
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Txt {
    Lit(String),
    Rep(String, u32),
}
impl Txt {
    pub fn string(&self) -> String {
        match self {
            Txt::Lit(s) => s.clone(),
            Txt::Rep(s, n) => s.repeat(*n as usize),
        }
    }
}
pub fn txt(big: bool) -> BoxedStrategy<Txt> {
    let hi = if big { 9000u32 } else { 40 };
    let base = prop_oneof![
        6 => string(12).prop_map(Txt::Lit),
        2 => (string(3), 0..60u32).prop_map(|(s, n)| Txt::Rep(s, n)),
        1 => (string(3), 0..hi).prop_map(|(s, n)| Txt::Rep(s, n)),
        1 => (120u32..131).prop_map(|n| Txt::Rep("x".into(), n)),
    ]
    .boxed();
    let t = dict::ints(base, 0, if big { 140_000 } else { 5000 }, |n, r| Txt::Rep(["x", "\u{7ff}", "0"][r as usize % 3].into(), if r % 3 == 1 { n / 2 } else { n } as u32));
    let t = octets(t, |v| Txt::Lit(v.into_iter().map(char::from).collect()));
    dict::strs(t, |_| true, |s, r| Txt::Lit(embed(&s, r)))
}

/// A string of at most `max` bytes.
pub fn short_string(max: usize) -> BoxedStrategy<String> {
    let base = prop_oneof![
        4 => string(10),
        1 => string(130),
        1 => (100..140usize).prop_map(|n| "r".repeat(n)),
    ]
    .boxed();
    let s = dict::ints(base, 0, 200, |n, _| "k".repeat(n as usize));
    dict::strs(s, |_| true, |s, r| embed(&s, r))
    .prop_map(move |mut s| {
        while s.len() > max {
            s.pop();
        }
        s
    })
    .boxed()
}
pub fn ctl_body() -> BoxedStrategy<Vec<u8>> {
    let base = prop_oneof![
        4 => vec(any::<u8>(), 0..12),
        1 => vec(any::<u8>(), 0..=125),
        1 => vec(any::<u8>(), 124..=125),
    ]
    .boxed();
    let b = dict::ints(base, 0, 125, |n, seed| fill(n as usize, seed));
    dict::strs(octets(b, |v| v), |s| s.len() <= 115, |s, r| embed(&s, r).into_bytes())
}
/// 16 bytes, random or with structure
pub fn key16() -> BoxedStrategy<[u8; 16]> {
    let edge = || proptest::sample::select(vec![0u8, 255, b'A', 0xfb, 0x3e, 1, 127, 128]);
    let base = prop_oneof![
        12 => any::<[u8; 16]>(),
        1 => edge().prop_map(|b| [b; 16]),
        // a run of one value at either end or in the middle
        3 => (any::<[u8; 16]>(), edge(), 0usize..16, 1usize..=16).prop_map(|(mut k, b, at, n)| {
            let end = (at + n).min(16);
            k[at..end].fill(b);
            k
        }),
        2 => (any::<[u8; 16]>(), edge(), 1usize..=15, any::<bool>()).prop_map(|(mut k, b, n, front)| {
            if front { k[..n].fill(b) } else { k[16 - n..].fill(b) }
            k
        }),
        // almost nothing set
        1 => (0usize..16, any::<u8>()).prop_map(|(i, b)| { let mut k = [0; 16]; k[i] = b; k }),
        1 => any::<[u8; 8]>().prop_map(|h| { let mut k = [0; 16]; k[..8].copy_from_slice(&h); k[8..].copy_from_slice(&h); k }),
        1 => "[ -~]{16}".prop_map(|s| { let mut k = [0; 16]; k.copy_from_slice(s.as_bytes()); k }),
    ]
    .boxed();
    dict::fresh_ints(base, 0, 255, |n, r| {
        let mut k = [0; 16];
        k.copy_from_slice(&fill(16, r));
        match r % 3 {
            0 => k[0] = n as u8,
            1 => k[15] = n as u8,
            _ => k[(r >> 8) as usize % 16..].fill(n as u8),
        }
        k
    })
}
/// a message as a value: control messages may be longer than the wire allows
pub fn gmsg_value() -> BoxedStrategy<GMsg> {
    let body = || prop_oneof![2 => vec(any::<u8>(), 120..=300), 1 => vec(any::<u8>(), 0..70_000)];
    prop_oneof![
        12 => gmsg(true),
        1 => body().prop_map(GMsg::Ping),
        1 => body().prop_map(GMsg::Pong),
        1 => (close_code(), string(400)).prop_map(|c| GMsg::Close(Some(c))),
        1 => (close_code(), 100usize..3000, ch()).prop_map(|(c, n, x)| GMsg::Close(Some((c, x.to_string().repeat(n))))),
    ]
    .boxed()
}
pub fn close_code() -> BoxedStrategy<u16> {
    let base = prop_oneof![
        3 => 1000u16..1016,
        1 => proptest::sample::select(vec![0u16, 1, 255, 256, 999, 3000, 4999, 5000, 65535]),
        2 => any::<u16>(),
    ]
    .boxed();
    dict::ints(base, 0, 65535, |n, _| n as u16)
}

/// Message description.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum GMsg {
    Text(Txt),
    Binary(Pay),
    Ping(Vec<u8>),
    Pong(Vec<u8>),
    Close(Option<(u16, String)>),
}
impl GMsg {
    pub fn msg(&self) -> Msg {
        match self {
            GMsg::Text(t) => Msg::Text(t.string().into_bytes()),
            GMsg::Binary(p) => Msg::Binary(p.bytes()),
            GMsg::Ping(v) => Msg::Ping(v.clone()),
            GMsg::Pong(v) => Msg::Pong(v.clone()),
            GMsg::Close(c) => Msg::Close(c.clone().map(|(c, r)| (c, r.into_bytes()))),
        }
    }
}
pub fn ctl() -> BoxedStrategy<GMsg> {
    prop_oneof![
        3 => ctl_body().prop_map(GMsg::Ping),
        3 => ctl_body().prop_map(GMsg::Pong),
        1 => Just(GMsg::Close(None)),
        2 => (close_code(), short_string(123)).prop_map(|c| GMsg::Close(Some(c))),
    ]
    .boxed()
}
pub fn gmsg(big: bool) -> BoxedStrategy<GMsg> {
    prop_oneof![
        3 => txt(big).prop_map(GMsg::Text),
        3 => pay(big).prop_map(GMsg::Binary),
        2 => ctl(),
    ]
    .boxed()
}

/// bytes behind a head
pub fn tail() -> BoxedStrategy<Vec<u8>> {
    let base = prop_oneof![
        6 => vec(any::<u8>(), 0..40),
        1 => flen(0..=700).prop_map(|p| p.bytes()),
        1 => flen(700..=6000).prop_map(|p| p.bytes()),
        1 => flen(6000..=20_000).prop_map(|p| p.bytes()),
    ]
    .boxed();
    dict::ints(base, 0, 40_000, |n, seed| fill(n as usize, seed))
}
/// steps from one structural boundary to another
fn mark_step() -> BoxedStrategy<u8> {
    prop_oneof![6 => 250u8..=253, 1 => Just(255u8), 1 => 1u8..4, 1 => Just(0u8)].boxed()
}
/// Transfer plan for a scripted transport.
pub fn plan() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        2 => Just(vec![]),
        2 => Just(vec![1]),
        4 => vec(prop_oneof![3 => 1u8..12, 2 => 1u8..=255, 1 => Just(0u8)], 1..8),
        1 => vec(prop_oneof![200u8..=255, Just(0u8)], 1..5),
        2 => vec(mark_step(), 1..6).prop_map(|mut v| { v.push(250); v }),
    ]
    .boxed()
}
/// Plans for streams that carry big payloads (no long byte-by-byte runs).
pub fn fast_plan() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        1 => Just(vec![]),
        3 => vec(prop_oneof![2 => 1u8..12, 4 => 200u8..=255, 1 => Just(0u8)], 1..8),
        2 => vec(mark_step(), 1..6).prop_map(|mut v| { v.push(250); v }),
    ]
    .boxed()
}

/// One element of a valid incoming history.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Item {
    Ctl(GMsg),
    /// a data message cut at the given relative positions (in 1/65536 of its length), with control
    /// frames before the fragment of the given index
    Data { msg: GMsg, cuts: Vec<u16>, inter: Vec<(u8, GMsg)> },
}
pub fn data_msg(big: bool) -> BoxedStrategy<GMsg> {
    prop_oneof![
        txt(big).prop_map(GMsg::Text),
        pay(big).prop_map(GMsg::Binary),
    ]
    .boxed()
}
pub fn item(big: bool) -> BoxedStrategy<Item> {
    prop_oneof![
        1 => ctl().prop_map(Item::Ctl),
        3 => (data_msg(big), many(any::<u16>(), 0..6, 300), many((0u8..7, ctl()), 0..4, 60))
            .prop_map(|(msg, cuts, inter)| Item::Data { msg, cuts, inter }),
        1 => data_msg(big).prop_map(|msg| Item::Data { msg, cuts: vec![], inter: vec![] }),
    ]
    .boxed()
}
/// the front of a vector, within a budget
pub fn within<T>(mut v: Vec<T>, min: usize, budget: usize, cost: impl Fn(&T) -> usize) -> Vec<T> {
    let mut sum = 0;
    let keep = v.iter().take_while(|x| { sum += cost(x); sum <= budget }).count();
    v.truncate(keep.max(min));
    v
}
pub fn item_cost(i: &Item) -> usize {
    match i {
        Item::Ctl(_) => 130,
        Item::Data { msg, cuts, inter } => 20 * (cuts.len() + 1) + 130 * inter.len() + match msg {
            GMsg::Text(Txt::Lit(s)) => s.len(),
            GMsg::Text(Txt::Rep(s, n)) => s.len() * *n as usize,
            GMsg::Binary(p) => p.len(),
            _ => 130,
        },
    }
}
/// small items, now and then as many as changed code names
pub fn items(usual: std::ops::Range<usize>, most: u64) -> BoxedStrategy<Vec<Item>> {
    let min = usual.start;
    many(item(false), usual, most).prop_map(move |v| within(v, min, 150_000, item_cost)).boxed()
}
pub fn split_at(data: &[u8], cuts: &[u16]) -> Vec<Vec<u8>> {
    let mut at: Vec<usize> = cuts.iter().map(|c| (*c as usize * (data.len() + 1)) >> 16).collect();
    at.sort();
    let mut out = vec![];
    let mut p = 0;
    for a in at {
        out.push(data[p..a].to_vec());
        p = a;
    }
    out.push(data[p..].to_vec());
    out
}
impl Item {
    pub fn frames(&self) -> Vec<Frame> {
        match self {
            Item::Ctl(m) => vec![m.msg().frame()],
            Item::Data { msg, cuts, inter } => {
                let m = msg.msg();
                let parts = split_at(&m.payload(), cuts);
                let n = parts.len();
                let mut out = vec![];
                for (i, p) in parts.into_iter().enumerate() {
                    if i > 0 {
                        for (at, c) in inter {
                            if 1 + (*at as usize) % (n - 1) == i {
                                out.push(c.msg().frame());
                            }
                        }
                    }
                    out.push(Frame::new(i == n - 1, if i == 0 { m.op() } else { 0 }, p));
                }
                out
            }
        }
    }
}
/// Frames with the role's masking applied (keys derived from the seed).
pub fn mask_frames(frames: &mut [Frame], to_server: bool, seed: u32) {
    let mut keys = fill(frames.len() * 4, seed);
    // keys with structure
    match seed % 24 {
        5 => keys.iter_mut().for_each(|b| *b = 0),
        6 => keys.iter_mut().for_each(|b| *b = 255),
        7 => keys.iter_mut().step_by(4).for_each(|b| *b = 0),
        8 => keys.chunks_mut(4).for_each(|k| k[1..].iter_mut().for_each(|b| *b = 0)),
        9 => keys.chunks_mut(4).for_each(|k| k[..3].iter_mut().for_each(|b| *b = 0)),
        10 => keys.chunks_mut(4).for_each(|k| k.fill(k[0])),
        11 => keys.chunks_mut(4).for_each(|k| k.copy_from_slice(&[k[0], k[1], k[0], k[1]])),
        _ => {}
    }
    for (i, f) in frames.iter_mut().enumerate() {
        f.mask = if to_server {
            Some([keys[4 * i], keys[4 * i + 1], keys[4 * i + 2], keys[4 * i + 3]])
        } else {
            None
        };
    }
}
pub fn wire(frames: &[Frame]) -> Vec<u8> {
    frames.iter().flat_map(|f| f.encode()).collect()
}
/// offsets of the frame ends
pub fn ends(frames: &[Frame]) -> Vec<usize> {
    let mut at = 0;
    frames
        .iter()
        .map(|f| {
            at += f.encode().len();
            at
        })
        .collect()
}
