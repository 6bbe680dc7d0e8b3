//! F01-F06: framing and masking.
use crate::dict;
use crate::api::*;
use crate::engine::*;
use crate::gen::{self, fast_plan, pay, plan, Pay};
use crate::mock::*;
use crate::rfc::{self, Frame};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::io::Write;
use websocket::dataframe::DataFrame;
use websocket::ws::dataframe::DataFrame as DataFrameTrait;
use websocket::ws::util::header::{read_header, write_header, DataFrameFlags, DataFrameHeader};
use websocket::ws::util::mask::{gen_mask, mask_data, Masker};

pub fn role() -> BoxedStrategy<Role> {
    prop_oneof![Just(Role::Server), Just(Role::Client)].boxed()
}
fn rsv() -> BoxedStrategy<[bool; 3]> {
    prop_oneof![3 => Just([false; 3]), 2 => any::<[bool; 3]>()].boxed()
}

/// Items for the sending side; `any_op` includes illegal ones.
pub fn out_item(any_op: bool, big: bool) -> BoxedStrategy<Out> {
    let op = if any_op {
        prop_oneof![6 => 0u8..=15, 1 => any::<u8>(), 1 => 16u8..20].boxed()
    } else {
        (0u8..=15).boxed()
    };
    let p = prop_oneof![
        4 => pay(big),
        1 => (124u32..=127, any::<u32>()).prop_map(|(len, seed)| Pay::Fill { len, seed }),
    ];
    let frame = (any::<bool>(), rsv(), op, p, vec(any::<u16>(), 0..5), any::<bool>()).prop_map(
        move |(fin, rsv, op, mut pay, cuts, custom)| {
            if !any_op && op >= 8 && pay.len() > 125 {
                pay = Pay::Fill { len: pay.len() as u32 % 126, seed: 7 };
            }
            if custom {
                Out::Custom { fin, rsv, op, pay, cuts }
            } else {
                Out::Frame { fin, rsv, op, pay }
            }
        },
    );
    prop_oneof![
        4 => frame,
        2 => gen::gmsg(big).prop_map(Out::Owned),
        2 => gen::gmsg(big).prop_map(Out::Borrowed),
    ]
    .boxed()
}

/// Matches the start of `b` against the expected frame. Ok(length) when it is exactly that frame;
/// a mask key is accepted as found.
pub fn match_frame(b: &[u8], e: &(bool, [bool; 3], u8, Vec<u8>), masked: bool) -> Result<usize, String> {
    let (fin, rsv, op, p) = e;
    let hdr = rfc::encode_header(*fin, *rsv, *op, None, p.len() as u64);
    let klen = if masked { 4 } else { 0 };
    let total = hdr.len() + klen + p.len();
    if b.len() < total {
        return Err(format!("{} bytes where a frame of {} was expected", b.len(), total));
    }
    let mut want = hdr;
    if masked {
        want[1] |= 0x80;
        let k = [b[want.len()], b[want.len() + 1], b[want.len() + 2], b[want.len() + 3]];
        want.extend_from_slice(&k);
        want.extend(rfc::xor(k, p));
    } else {
        want.extend_from_slice(p);
    }
    if b[..total] != want[..] {
        let at = b.iter().zip(want.iter()).position(|(x, y)| x != y).unwrap();
        return Err(format!(
            "byte {} of the frame is {:#04x}, expected {:#04x} (op {} len {} masked {})",
            at, b[at], want[at], op, p.len(), masked
        ));
    }
    Ok(total)
}
/// true when `b` is a (possibly empty, possibly whole) prefix of the encoding
pub fn prefix_of_frame(b: &[u8], e: &(bool, [bool; 3], u8, Vec<u8>), masked: bool) -> bool {
    let (fin, rsv, op, p) = e;
    let mut want = rfc::encode_header(*fin, *rsv, *op, None, p.len() as u64);
    if masked {
        want[1] |= 0x80;
        let mut k = [0u8; 4];
        for i in 0..4 {
            k[i] = *b.get(want.len() + i).unwrap_or(&0);
        }
        want.extend_from_slice(&k);
        want.extend(rfc::xor(k, p));
    } else {
        want.extend_from_slice(p);
    }
    b.len() <= want.len() && b == &want[..b.len()]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TxCase {
    pub api: TxApi,
    pub role: Role,
    pub items: Vec<Out>,
    pub wplan: Vec<u8>,
}
pub fn tx_case(any_op: bool) -> BoxedStrategy<TxCase> {
    let small = (
        select(ALL_TX.to_vec()),
        role(),
        gen::many(out_item(any_op, false), 1..6, 300),
        plan(),
    );
    let big = (
        select(ALL_TX.to_vec()),
        role(),
        vec(out_item(any_op, true), 1..4),
        fast_plan(),
    );
    prop_oneof![4 => small, 1 => big]
        .prop_map(|(api, role, items, wplan)| TxCase { api, role, items, wplan })
        .boxed()
}

/// one item of up to 20 MB among others
fn tx_huge(legal: bool) -> BoxedStrategy<TxCase> {
    let item = prop_oneof![
        2 => (any::<bool>(), rsv(), 0u8..=7, gen::huge_pay(), vec(any::<u16>(), 0..5), any::<bool>()).prop_map(|(fin, rsv, op, pay, cuts, custom)| {
            if custom { Out::Custom { fin, rsv, op, pay, cuts } } else { Out::Frame { fin, rsv, op, pay } }
        }),
        1 => gen::huge_data().prop_map(Out::Owned),
        1 => gen::huge_data().prop_map(Out::Borrowed),
    ];
    (select(ALL_TX.to_vec()), role(), vec(out_item(!legal, false), 0..2), item, vec(out_item(!legal, false), 0..2), gen::huge_plan())
        .prop_map(|(api, role, mut items, it, after, mut wplan)| {
            // a retry of a masked write masks all that is left
            if it.expect().3.len() > 2_000_000 && wplan.len() > 1 {
                wplan = vec![7, 255, 0];
            }
            items.push(it);
            items.extend(after);
            TxCase { api, role, items, wplan }
        })
        .boxed()
}
fn f01_tx(c: &TxCase, o: &mut Obs) -> Res {
    let t = transmit(c.api, c.role, &c.items, &c.wplan, None);
    o.class(format!("{:?}/{:?}", c.api, c.role));
    if let Some(f) = &t.fault {
        fail!("{:?} {:?}: {}", c.api, c.role, f);
    }
    let masked = c.role.masks();
    let mut at = 0;
    let mut frames = 0;
    let mut refused = 0;
    for (i, it) in c.items.iter().enumerate() {
        let e = it.expect();
        let r = t.results.get(i).cloned().unwrap_or_else(|| Err("not reached".into()));
        let end = t.at.get(i).copied();
        if it.legal() {
            ensure!(r.is_ok(), "item {} refused: {:?} (op {} len {})", i, r, e.2, e.3.len());
            let n = match match_frame(&t.out[at.min(t.out.len())..], &e, masked) {
                Ok(n) => n,
                Err(m) => fail!("item {}: {}", i, m),
            };
            ensure!(
                t.sizes[i] == n,
                "item {}: announced size {} but {} bytes written (payload {})",
                i, t.sizes[i], n, e.3.len()
            );
            at += n;
            frames += 1;
            o.class(match e.3.len() {
                0..=125 => "len7",
                126..=65535 => "len16",
                _ => "len64",
            });
        } else {
            ensure!(r.is_err(), "item {} accepted: op {} with {} bytes", i, e.2, e.3.len());
            refused += 1;
        }
        if let Some(end) = end {
            ensure!(end == at, "item {}: output ends at {}, expected {}", i, end, at);
        }
    }
    ensure!(at == t.out.len(), "{} extra bytes after the last frame", t.out.len() - at);
    o.class_if(refused > 0, "refused");
    o.nontrivial(frames > 0 || refused > 0);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct HdrCase {
    flags: u8,
    op: u8,
    mask: Option<[u8; 4]>,
    len: u64,
    junk: Vec<u8>,
}
fn u64ish() -> BoxedStrategy<u64> {
    prop_oneof![
        4 => 0u64..=200,
        2 => 120u64..=131,
        2 => 65530u64..=65540,
        2 => (0u32..64, -2i64..=2).prop_map(|(s, d)| (1u64 << s).wrapping_add(d as u64)),
        2 => any::<u64>(),
    ]
    .boxed()
}
struct Sz(usize);
impl DataFrameTrait for Sz {
    fn is_last(&self) -> bool {
        true
    }
    fn opcode(&self) -> u8 {
        2
    }
    fn reserved(&self) -> &[bool; 3] {
        &[false; 3]
    }
    fn size(&self) -> usize {
        self.0
    }
    fn write_payload(&self, _: &mut dyn Write) -> Result<(), websocket::WebSocketError> {
        Ok(())
    }
    fn take_payload(self) -> Vec<u8> {
        vec![]
    }
}
fn f01_header(c: &HdrCase, o: &mut Obs) -> Res {
    let mut out = vec![];
    let h = DataFrameHeader {
        flags: DataFrameFlags::from_bits_truncate(c.flags),
        opcode: c.op,
        mask: c.mask,
        len: c.len,
    };
    let r = write_header(&mut out, h);
    let legal = c.op <= 15 && !(c.op >= 8 && c.len > 125);
    let rsv = [c.flags & 64 != 0, c.flags & 32 != 0, c.flags & 16 != 0];
    let want = rfc::encode_header(c.flags & 128 != 0, rsv, c.op, c.mask, c.len);
    if legal {
        ensure!(r.is_ok(), "legal header refused: {:?}", r.map_err(|e| err_name(&e)));
        ensure!(out == want, "header {:02x?}, expected {:02x?}", out, want);
        o.class(match want.len() - if c.mask.is_some() { 4 } else { 0 } {
            2 => "len7",
            4 => "len16",
            _ => "len64",
        });
    } else {
        ensure!(r.is_err(), "illegal header accepted");
        ensure!(out.is_empty(), "refused header wrote {} bytes", out.len());
        o.class("refused");
    }
    if c.len < (1 << 60) {
        for m in [false, true] {
            let n = Sz(c.len as usize).frame_size(m) as u64;
            let k = if m { Some([0; 4]) } else { None };
            let e = rfc::encode_header(true, [false; 3], 2, k, c.len).len() as u64 + c.len;
            ensure!(n == e, "frame_size of {} bytes masked {} is {}, expected {}", c.len, m, n, e);
        }
    }
    o.nontrivial(true);
    Ok(())
}

// ------------------------------------------------------------------------------- F02

/// A frame as it may arrive: any opcode and reserved bits, control frames legal.
pub fn any_frame(big: bool) -> BoxedStrategy<(bool, [bool; 3], u8, Pay)> {
    (any::<bool>(), rsv(), 0u8..=15, pay(big))
        .prop_map(|(fin, rsv, op, pay)| {
            if op >= 8 {
                let pay = if pay.len() > 125 { Pay::Fill { len: pay.len() as u32 % 126, seed: 3 } } else { pay };
                (true, rsv, op, pay)
            } else {
                (fin, rsv, op, pay)
            }
        })
        .boxed()
}
pub fn mk_frames(d: &[(bool, [bool; 3], u8, Pay)], role: Role, seed: u32) -> Vec<Frame> {
    let mut v: Vec<Frame> = d
        .iter()
        .map(|(fin, rsv, op, p)| Frame { fin: *fin, rsv: *rsv, op: *op, mask: None, payload: p.bytes() })
        .collect();
    gen::mask_frames(&mut v, role.expects_mask(), seed);
    v
}
pub fn unmasked(f: &Frame) -> Frame {
    f.clone().masked(None)
}
type FD = (bool, [bool; 3], u8, Pay);
#[derive(Clone, Debug, Serialize, Deserialize)]
struct RxCase {
    api: FrApi,
    role: Role,
    frames: Vec<FD>,
    seed: u32,
    plan: Vec<u8>,
    /// would-block reports at some frame ends
    gates: u16,
    /// part of an incomplete last frame present, in 1/65536 (None: the last frame is complete)
    cut: Option<u16>,
}
fn rx_case() -> BoxedStrategy<RxCase> {
    let c = |big: bool| {
        (
            select(ALL_FR.to_vec()),
            role(),
            vec(any_frame(big), 0..if big { 4 } else { 7 }),
            any::<u32>(),
            if big { fast_plan() } else { plan() },
            prop_oneof![Just(0u16), any::<u16>()],
            proptest::option::of(any::<u16>()),
        )
    };
    prop_oneof![4 => c(false), 1 => c(true)]
        .prop_map(|(api, role, frames, seed, plan, gates, cut)| RxCase {
            api, role, frames, seed, plan, gates, cut,
        })
        .boxed()
}
fn rx_huge() -> BoxedStrategy<RxCase> {
    (
        select(ALL_FR.to_vec()),
        role(),
        vec(any_frame(false), 0..2),
        (any::<bool>(), rsv(), 0u8..=7, gen::huge_pay()),
        vec(any_frame(false), 0..2),
        any::<u32>(),
        gen::huge_plan(),
        prop_oneof![3 => Just(None), 1 => any::<u16>().prop_map(Some)],
    )
        .prop_map(|(api, role, mut frames, f, after, seed, plan, cut)| {
            frames.push(f);
            frames.extend(after);
            RxCase { api, role, frames, seed, plan, gates: seed as u16, cut }
        })
        .boxed()
}
fn f02_stream(c: &RxCase, o: &mut Obs) -> Res {
    let frames = mk_frames(&c.frames, c.role, c.seed);
    let mut bytes = gen::wire(&frames);
    let mut ends = gen::ends(&frames);
    let mut n = frames.len();
    let mut partial = 0;
    if let (Some(cut), Some(last)) = (c.cut, frames.last()) {
        let l = last.encode().len();
        partial = (cut as usize * l) >> 16;
        bytes.truncate(bytes.len() - l + partial);
        n -= 1;
        ends.pop();
    }
    let gates: Vec<usize> = if c.api.is_sync() {
        ends.iter().enumerate().filter(|(i, _)| c.gates >> (i % 16) & 1 == 1).map(|(_, e)| *e).collect()
    } else {
        vec![]
    };
    o.class(format!("{:?}/{:?}", c.api, c.role));
    let r = recv_frames(c.api, c.role, &bytes, &c.plan, &gates, None, true, None);
    let want: Vec<Frame> = frames[..n].iter().map(unmasked).collect();
    for (i, w) in want.iter().enumerate() {
        match r.frames.get(i) {
            Some(g) if g == w => {}
            Some(g) => fail!(
                "frame {} decoded wrongly: fin {} rsv {:?} op {} len {}, expected fin {} rsv {:?} op {} len {}{}",
                i, g.fin, g.rsv, g.op, g.payload.len(), w.fin, w.rsv, w.op, w.payload.len(),
                if g.payload != w.payload { " (payload differs)" } else { "" }
            ),
            None => fail!("frame {} of {} not delivered, end {:?}", i, n, r.end),
        }
        if let Some(Some(at)) = r.at.get(i) {
            ensure!(*at == ends[i], "frame {} consumed up to byte {}, expected {}", i, at, ends[i]);
        }
    }
    ensure!(r.frames.len() == n, "incomplete frame delivered ({} of {} bytes)", partial, frames.last().map_or(0, |f| f.encode().len()));
    match c.api {
        FrApi::Framed => {
            if partial == 0 {
                ensure!(r.end == End::Eof, "complete stream ends with {:?}", r.end);
            } else {
                ensure!(r.end != End::Stall, "no end reported");
            }
        }
        FrApi::Codec => {
            ensure!(r.end == End::Eof, "decoder ends with {:?}", r.end);
            let left = r.left.unwrap_or_default();
            let want = &bytes[bytes.len() - partial..];
            ensure!(left == want, "decoder left {} bytes in the buffer, expected {}", left.len(), want.len());
        }
        _ => ensure!(r.end == End::Eof, "stream end reported as {:?}", r.end),
    }
    o.class_if(partial > 0, "partial last frame");
    o.class_if(!gates.is_empty(), "would-block between frames");
    o.nontrivial(n > 0 || partial > 0);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Bad {
    /// data frame length in a longer form than needed
    Long16 { len: u8, fin: bool, op: u8 },
    Long64 { len: u16, fin: bool, op: u8 },
    FragmentedCtl { op: u8, body: Vec<u8> },
    LongCtl { op: u8, fin: bool, len: u32, form: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadCase {
    api: FrApi,
    role: Role,
    before: Vec<FD>,
    bad: Bad,
    rsv: [bool; 3],
    after: Vec<FD>,
    seed: u32,
    plan: Vec<u8>,
    header_only: bool,
}
fn bad_case() -> BoxedStrategy<BadCase> {
    let bad = prop_oneof![
        (0u8..=125, any::<bool>(), 0u8..=15).prop_map(|(len, fin, op)| Bad::Long16 { len, fin, op }),
        (prop_oneof![0u16..=126, any::<u16>(), 65530u16..=65535], any::<bool>(), 0u8..=7)
            .prop_map(|(len, fin, op)| Bad::Long64 { len, fin, op }),
        (8u8..=15, gen::ctl_body()).prop_map(|(op, body)| Bad::FragmentedCtl { op, body }),
        (8u8..=15, any::<bool>(), prop_oneof![126u32..=130, 126u32..=70_000], 0u8..2)
            .prop_map(|(op, fin, len, form)| Bad::LongCtl { op, fin, len, form }),
    ];
    (
        select(ALL_FR.to_vec()),
        role(),
        vec(any_frame(false), 0..3),
        bad,
        rsv(),
        vec(any_frame(false), 0..3),
        any::<u32>(),
        fast_plan(),
        any::<bool>(),
    )
        .prop_map(|(api, role, before, bad, rsv, after, seed, plan, header_only)| BadCase {
            api, role, before, bad, rsv, after, seed, plan, header_only,
        })
        .boxed()
}
fn raw_header(fin: bool, rsv: [bool; 3], op: u8, l7: u8, ext: &[u8], mask: Option<[u8; 4]>) -> Vec<u8> {
    let mut v = rfc::encode_header(fin, rsv, op, None, 0);
    v[1] = l7 | if mask.is_some() { 128 } else { 0 };
    v.extend_from_slice(ext);
    if let Some(k) = mask {
        v.extend_from_slice(&k);
    }
    v
}
fn f02_reject(c: &BadCase, o: &mut Obs) -> Res {
    let before = mk_frames(&c.before, c.role, c.seed);
    let mask = if c.role.expects_mask() { Some([1, 2, 3, c.seed as u8]) } else { None };
    let (hdr, len) = match &c.bad {
        Bad::Long16 { len, fin, op } => (
            raw_header(*fin, c.rsv, *op, 126, &(*len as u16).to_be_bytes(), mask),
            *len as usize,
        ),
        Bad::Long64 { len, fin, op } => (
            raw_header(*fin, c.rsv, *op, 127, &(*len as u64).to_be_bytes(), mask),
            *len as usize,
        ),
        Bad::FragmentedCtl { op, body } => (
            raw_header(false, c.rsv, *op, body.len() as u8, &[], mask),
            body.len(),
        ),
        Bad::LongCtl { op, fin, len, form } => {
            if *form == 0 && *len <= 65535 {
                (raw_header(*fin, c.rsv, *op, 126, &(*len as u16).to_be_bytes(), mask), *len as usize)
            } else {
                (raw_header(*fin, c.rsv, *op, 127, &(*len as u64).to_be_bytes(), mask), *len as usize)
            }
        }
    };
    let mut bytes = gen::wire(&before);
    bytes.extend_from_slice(&hdr);
    if !c.header_only {
        bytes.extend(gen::fill(len, c.seed));
        bytes.extend(gen::wire(&mk_frames(&c.after, c.role, c.seed ^ 5)));
    }
    o.class(format!("{:?}/{:?}", c.api, c.role));
    o.class(match c.bad {
        Bad::Long16 { .. } => "16-bit form not minimal",
        Bad::Long64 { .. } => "64-bit form not minimal",
        Bad::FragmentedCtl { .. } => "fragmented control",
        Bad::LongCtl { .. } => "long control",
    });
    let r = recv_frames(c.api, c.role, &bytes, &c.plan, &[], None, true, None);
    let want: Vec<Frame> = before.iter().map(unmasked).collect();
    ensure!(r.frames.len() <= want.len(), "malformed frame delivered: {:?}", c.bad);
    ensure!(r.frames == want, "frames before the malformed one: {} of {} delivered", r.frames.len(), want.len());
    ensure!(matches!(r.end, End::Err(_)), "malformed frame not reported as an error: {:?} for {:?}", r.end, c.bad);
    o.nontrivial(true);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct HdrBytes {
    b: Vec<u8>,
}
/// every header byte pattern, decoded by read_header against the reference
fn f02_header(c: &HdrBytes, o: &mut Obs) -> Res {
    let mut r: &[u8] = &c.b;
    let got = read_header(&mut r);
    let used = c.b.len() - r.len();
    // reference
    let b = &c.b;
    let l7 = b[1] & 127;
    let ext = match l7 {
        126 => 2,
        127 => 8,
        _ => 0,
    };
    let masked = b[1] & 128 != 0;
    let need = 2 + ext + if masked { 4 } else { 0 };
    let len = match l7 {
        126 if b.len() >= 4 => Some(u16::from_be_bytes([b[2], b[3]]) as u64),
        127 if b.len() >= 10 => Some(u64::from_be_bytes([b[2], b[3], b[4], b[5], b[6], b[7], b[8], b[9]])),
        126 | 127 => None,
        l => Some(l as u64),
    };
    let op = b[0] & 15;
    match len {
        None => {
            ensure!(got.is_err(), "header of {} bytes decoded although incomplete", b.len());
            o.class("incomplete");
        }
        Some(len) => {
            let bad = (l7 == 126 && len < 126)
                || (l7 == 127 && len < 65536)
                || (op >= 8 && (len > 125 || b[0] & 128 == 0));
            if bad {
                match got {
                    Err(websocket::WebSocketError::NoDataAvailable) => fail!("malformed header reported as missing data"),
                    Err(_) => {}
                    Ok(h) => fail!("malformed header accepted: {:?}", h),
                }
                o.class("malformed");
            } else if b.len() < need {
                ensure!(
                    matches!(got, Err(websocket::WebSocketError::NoDataAvailable)),
                    "incomplete header: {:?}",
                    got.map_err(|e| err_name(&e))
                );
                o.class("incomplete");
            } else {
                let h = match got {
                    Ok(h) => h,
                    Err(e) => fail!("well-formed header {:02x?} refused: {}", &b[..need], err_name(&e)),
                };
                let key = if masked {
                    Some([b[need - 4], b[need - 3], b[need - 2], b[need - 1]])
                } else {
                    None
                };
                ensure!(
                    h.flags.bits() == b[0] & 0xF0 && h.opcode == op && h.len == len && h.mask == key,
                    "header {:02x?} decoded as {:?}", &b[..need], h
                );
                ensure!(used == need, "header consumed {} bytes, expected {}", used, need);
                o.class("well-formed");
                o.nontrivial(true);
            }
        }
    }
    o.nontrivial(true);
    Ok(())
}
fn hdr_bytes() -> BoxedStrategy<HdrBytes> {
    (
        any::<u8>(),
        prop_oneof![2 => any::<u8>(), 2 => select(vec![126u8, 127, 254, 255])],
        u64ish(),
        vec(any::<u8>(), 0..8),
        any::<u8>(),
    )
        .prop_map(|(b0, b1, len, tail, cut)| {
            let mut b = vec![b0, b1];
            match b1 & 127 {
                126 => b.extend_from_slice(&(len as u16).to_be_bytes()),
                127 => b.extend_from_slice(&len.to_be_bytes()),
                _ => {}
            }
            b.extend(tail);
            if cut < 40 {
                b.truncate(2 + cut as usize % 12);
            }
            HdrBytes { b }
        })
        .boxed()
}

// ------------------------------------------------------------------------------- F03

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MaskCase {
    key: [u8; 4],
    data: Pay,
    cuts: Vec<u16>,
    all: Vec<bool>,
    wplan: Vec<u8>,
}
fn mask_key() -> BoxedStrategy<[u8; 4]> {
    prop_oneof![
        4 => any::<[u8; 4]>(),
        1 => Just([0; 4]),
        1 => Just([255; 4]),
        1 => (0usize..4, any::<u8>()).prop_map(|(i, b)| { let mut k = [0; 4]; k[i] = b; k }),
    ]
    .boxed()
}
fn f03_mask(c: &MaskCase, o: &mut Obs) -> Res {
    let d = c.data.bytes();
    let want = rfc::xor(c.key, &d);
    let m = mask_data(c.key, &d);
    ensure!(m.len() == d.len(), "mask_data changed the length from {} to {}", d.len(), m.len());
    ensure!(m == want, "mask_data differs from the XOR at byte {:?}", m.iter().zip(&want).position(|(a, b)| a != b));
    ensure!(mask_data(c.key, &m) == d, "masking twice does not restore the data");
    // masking writer over a scripted writer
    let tx = Pipe::new();
    let rx = Pipe::new();
    let mut io = Io::new(&rx, &tx, Mode::Blocking).plans(&[], &c.wplan);
    let mut sizes = 0;
    {
        let mut w = Masker::new(c.key, &mut io);
        for (i, p) in gen::split_at(&d, &c.cuts).iter().enumerate() {
            sizes += 1;
            if *c.all.get(i % c.all.len().max(1)).unwrap_or(&true) {
                match w.write_all(p) {
                    Ok(()) => {}
                    Err(e) => fail!("write_all failed: {}", e),
                }
            } else {
                let mut at = 0;
                while at < p.len() {
                    match w.write(&p[at..]) {
                        Ok(n) => {
                            ensure!(n <= p.len() - at, "write reports {} of {} bytes", n, p.len() - at);
                            ensure!(n > 0, "write accepted nothing");
                            at += n;
                        }
                        Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                        Err(e) => fail!("write failed: {}", e),
                    }
                }
            }
        }
        if let Err(e) = w.flush() {
            fail!("flush failed: {}", e);
        }
    }
    let got = tx.take();
    ensure!(got.len() == d.len(), "masking writer passed {} of {} bytes on", got.len(), d.len());
    ensure!(got == want, "masking writer output differs at byte {:?} of {}", got.iter().zip(&want).position(|(a, b)| a != b), d.len());
    ensure!(tx.lock().flushes > 0, "flush does not reach the underlying writer");
    o.class_if(!c.wplan.is_empty(), "partial writes");
    o.class_if(sizes > 1, "several writes");
    o.nontrivial(d.len() > 4 && c.key != [0; 4]);
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct KeyRx {
    api: FrApi,
    msg_api: RxApi,
    frames: Vec<([u8; 4], Pay)>,
    plan: Vec<u8>,
}
fn f03_recv(c: &KeyRx, o: &mut Obs) -> Res {
    let frames: Vec<Frame> = c
        .frames
        .iter()
        .map(|(k, p)| Frame::new(true, 2, p.bytes()).masked(Some(*k)))
        .collect();
    let bytes = gen::wire(&frames);
    let r = recv_frames(c.api, Role::Server, &bytes, &c.plan, &[], None, true, None);
    for (i, f) in frames.iter().enumerate() {
        match r.frames.get(i) {
            Some(g) => ensure!(
                g.payload == f.payload,
                "{:?}: frame {} with key {:?}: payload of {} bytes differs at {:?}",
                c.api, i, f.mask, f.payload.len(),
                g.payload.iter().zip(&f.payload).position(|(a, b)| a != b)
            ),
            None => fail!("{:?}: frame {} not delivered: {:?}", c.api, i, r.end),
        }
    }
    let r = receive(c.msg_api, Role::Server, &bytes, &c.plan, &[], None);
    for (i, f) in frames.iter().enumerate() {
        match r.msgs.get(i) {
            Some(rfc::Msg::Binary(p)) => ensure!(*p == f.payload, "{:?}: message {} has another payload", c.msg_api, i),
            _ => fail!("{:?}: message {} not delivered: {:?}", c.msg_api, i, r.end),
        }
    }
    o.class(format!("{:?}", c.api));
    o.nontrivial(frames.iter().any(|f| f.payload.len() > 4 && f.mask != Some([0; 4])));
    Ok(())
}

// ------------------------------------------------------------------------------- F04

fn f04_send(c: &TxCase, o: &mut Obs) -> Res {
    let t = transmit(c.api, c.role, &c.items, &c.wplan, None);
    o.class(format!("{:?}/{:?}", c.api, c.role));
    if let Some(f) = &t.fault {
        fail!("{}", f);
    }
    // walk the output by its own length fields
    let mut b = &t.out[..];
    let mut i = 0;
    while !b.is_empty() {
        ensure!(b.len() >= 2, "stray byte in the output");
        let masked = b[1] & 128 != 0;
        ensure!(
            masked == c.role.masks(),
            "frame {} sent by a {:?} through {:?} is {}masked (item {:?})",
            i, c.role, c.api, if masked { "" } else { "not " }, c.items.get(i)
        );
        let (hl, len) = match b[1] & 127 {
            126 => (4, u16::from_be_bytes([b[2], b[3]]) as usize),
            127 => (10, u64::from_be_bytes([b[2], b[3], b[4], b[5], b[6], b[7], b[8], b[9]]) as usize),
            l => (2, l as usize),
        };
        let hl = hl + if masked { 4 } else { 0 };
        ensure!(b.len() >= hl + len, "output ends inside frame {}", i);
        if let Some(it) = c.items.get(i) {
            let e = it.expect();
            let body = &b[hl..hl + len];
            if masked {
                let k = [b[hl - 4], b[hl - 3], b[hl - 2], b[hl - 1]];
                ensure!(rfc::xor(k, body) == e.3, "frame {} is not masked with its key", i);
            } else {
                ensure!(body == &e.3[..], "frame {} has its payload altered", i);
            }
        }
        b = &b[hl + len..];
        i += 1;
    }
    ensure!(i == c.items.len(), "{} frames sent for {} items", i, c.items.len());
    o.nontrivial(i > 0);
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WrongMask {
    fr: FrApi,
    rx: RxApi,
    role: Role,
    items: Vec<gen::Item>,
    /// which frame is masked the wrong way, and its replacement payload length if any
    which: u16,
    empty: bool,
    zero_key: bool,
    seed: u32,
    plan: Vec<u8>,
    gates: bool,
}
/// a few items many times over
pub fn many_items() -> BoxedStrategy<Vec<gen::Item>> {
    (vec(gen::item(false), 1..3), dict::fresh_ints((2usize..120).boxed(), 2, 600, |n, _| n as usize))
        .prop_map(|(v, n)| (n.min((300_000 / (v.iter().map(gen::item_cost).sum::<usize>() + 1)).max(2)), v))
        .prop_map(|(n, v)| std::iter::repeat(v).take(n).flatten().collect())
        .boxed()
}
pub fn wrong_mask() -> BoxedStrategy<WrongMask> {
    (
        (select(ALL_FR.to_vec()), select(ALL_RX.to_vec()), role()),
        prop_oneof![5 => gen::items(1..5, 300), 1 => vec(gen::item(true), 1..3), 1 => many_items()],
        any::<u16>(),
        any::<bool>(),
        any::<bool>(),
        any::<u32>(),
        plan(),
        any::<bool>(),
    )
        .prop_map(|((fr, rx, role), items, which, empty, zero_key, seed, mut plan, gates)| {
            if items.iter().map(|i| i.frames().iter().map(|f| f.payload.len()).sum::<usize>()).sum::<usize>() > 3000 {
                plan.push(255);
            }
            WrongMask {
            fr, rx, role, items, which, empty, zero_key, seed, plan, gates,
        }})
        .boxed()
}
impl WrongMask {
    pub fn parts(&self) -> (FrApi, RxApi, Role, &[u8]) {
        (self.fr, self.rx, self.role, &self.plan)
    }
}
pub fn wrong_mask_bytes(c: &WrongMask) -> Vec<u8> {
    gen::wire(&wrong_mask_frames(c).0)
}
fn wrong_mask_frames(c: &WrongMask) -> (Vec<Frame>, usize) {
    let mut frames: Vec<Frame> = c.items.iter().flat_map(|i| i.frames()).collect();
    gen::mask_frames(&mut frames, c.role.expects_mask(), c.seed);
    let w = (c.which as usize * frames.len()) >> 16;
    if c.empty {
        frames[w].payload.clear();
    }
    frames[w].mask = if c.role.expects_mask() {
        None
    } else if c.zero_key {
        Some([0; 4])
    } else {
        Some([9, 8, 7, 6])
    };
    (frames, w)
}
fn f04_recv(c: &WrongMask, o: &mut Obs) -> Res {
    let (frames, w) = wrong_mask_frames(c);
    let bytes = gen::wire(&frames);
    o.class(format!("{:?}/{:?}", c.fr, c.role));
    o.class(format!("{:?}/{:?}", c.rx, c.role));
    o.class(match frames[w].op {
        0 => "continuation",
        1 | 2 => "data",
        _ => "control",
    });
    let r = recv_frames(c.fr, c.role, &bytes, &c.plan, &[], None, true, None);
    ensure!(
        r.frames.len() <= w,
        "{:?} {:?}: frame {} delivered although its masking is wrong (op {} len {})",
        c.fr, c.role, w, frames[w].op, frames[w].payload.len()
    );
    ensure!(r.frames.len() == w, "{:?}: only {} of {} frames before the wrong one", c.fr, r.frames.len(), w);
    ensure!(matches!(r.end, End::Err(_)), "{:?} {:?}: wrong masking not reported: {:?}", c.fr, c.role, r.end);

    let e = rfc::reassemble(&frames, c.role.expects_mask());
    let ends = gen::ends(&frames);
    let gates = if c.gates && c.rx.is_sync() { ends } else { vec![] };
    let r = receive(c.rx, c.role, &bytes, &c.plan, &gates, None);
    ensure!(
        matches!(r.end, End::Err(_)) || (matches!(r.end, End::Eof) && e.error.map(|x| x.1) == Some("close body of one byte")),
        "{:?} {:?}: wrong masking of frame {} not reported: {:?}", c.rx, c.role, w, r.end
    );
    if let Err(m) = e.judge(&r.msgs, true) {
        fail!("{:?} {:?}: frame {} wrongly masked: {}", c.rx, c.role, w, m);
    }
    o.nontrivial(true);
    Ok(())
}

// ------------------------------------------------------------------------------- F05

#[derive(Clone, Debug, Serialize, Deserialize)]
struct KeyCase {
    apis: Vec<u8>,
    pays: Vec<Pay>,
    ops: Vec<u8>,
    threads: u8,
}
/// Collects `n` mask keys through the given ways of sending.
fn collect_keys(apis: &[u8], pays: &[Vec<u8>], ops: &[u8], n: usize) -> Result<Vec<[u8; 4]>, String> {
    use tokio_codec::Encoder;
    use websocket::sender::{Sender, Writer};
    use websocket::ws::sender::Sender as _;
    use websocket::ws::Message as _;
    use websocket::{Message, OwnedMessage};
    let mut keys = Vec::with_capacity(n);
    let mut codec: websocket::codec::ws::MessageCodec<OwnedMessage> =
        websocket::codec::ws::MessageCodec::default(websocket::codec::ws::Context::Client);
    let mut sender = Sender::new(true);
    let mut writer = Writer { stream: Vec::new(), sender: Sender::new(true) };
    let mut i = 0;
    while keys.len() < n {
        let p = &pays[i % pays.len()];
        let op = ops[i % ops.len()];
        let p = if op >= 8 && p.len() > 125 { &p[..125] } else { &p[..] };
        let df = DataFrame::new(true, websocket::dataframe::Opcode::new(op).unwrap(), p.to_vec());
        let msg = match op {
            9 => OwnedMessage::Ping(p.to_vec()),
            10 => OwnedMessage::Pong(p.to_vec()),
            8 => OwnedMessage::Close(None),
            _ => OwnedMessage::Binary(p.to_vec()),
        };
        let mut out: Vec<u8> = vec![];
        let e = |r: Result<(), websocket::WebSocketError>| r.map_err(|e| err_name(&e));
        match apis[i % apis.len()] % 7 {
            0 => e(df.write_to(&mut out, true))?,
            1 => e(sender.send_dataframe(&mut out, &df))?,
            2 => {
                e(writer.send_message(&msg))?;
                out = std::mem::take(&mut writer.stream);
            }
            3 => {
                let mut b = bytes::BytesMut::new();
                e(codec.encode(msg, &mut b))?;
                out = b.to_vec();
            }
            4 => e(Message::from(msg).serialize(&mut out, true))?,
            5 => {
                // a sender of its own for every frame
                e(Sender::new(true).send_message(&mut out, &msg))?;
            }
            _ => {
                keys.push(gen_mask());
                i += 1;
                continue;
            }
        }
        if out.len() < 6 || out[1] & 128 == 0 {
            return Err(format!("frame not masked: {:02x?}", &out[..out.len().min(16)]));
        }
        let h = match out[1] & 127 {
            126 => 4,
            127 => 10,
            _ => 2,
        };
        keys.push([out[h], out[h + 1], out[h + 2], out[h + 3]]);
        i += 1;
    }
    Ok(keys)
}
/// Statistical judgement with negligible false alarm probability; `words` are random strings of
/// equal length.
pub fn judge_random(words: &[Vec<u8>], what: &str) -> Result<(), String> {
    use std::collections::HashMap;
    let n = words.len();
    let bits = words[0].len() * 8;
    let mut seen: HashMap<&[u8], usize> = HashMap::new();
    for w in words {
        *seen.entry(w).or_insert(0) += 1;
    }
    let dups = n - seen.len();
    let lambda = (n as f64) * (n as f64) / 2.0 / 2f64.powi(bits as i32);
    // Poisson tail below 1e-12
    let allow = (lambda + 10.0 * lambda.sqrt() + 4.0).floor() as usize;
    if dups > allow {
        let (w, c) = seen.iter().max_by_key(|(_, c)| **c).unwrap();
        return Err(format!("{} repeated among {} {} (at most {} expected); {:02x?} occurs {} times", dups, n, what, allow, w, c));
    }
    let bit = |w: &[u8], b: usize| (w[b / 8] >> (b % 8)) & 1;
    let sigma = (n as f64).sqrt() / 2.0;
    for b in 0..bits {
        let ones = words.iter().filter(|w| bit(w, b) == 1).count() as f64;
        if (ones - n as f64 / 2.0).abs() > 8.0 * sigma {
            return Err(format!("bit {} of the {} is set in {} of {}", b, what, ones, n));
        }
    }
    for a in 0..bits {
        for b in 0..a {
            let eq = words.iter().filter(|w| bit(w, a) == bit(w, b)).count() as f64;
            if (eq - n as f64 / 2.0).abs() > 8.0 * sigma {
                return Err(format!("bits {} and {} of the {} agree in {} of {}", a, b, what, eq, n));
            }
        }
    }
    // no byte value missing or preferred, at any position or over all
    let w = words[0].len();
    let mut counts = vec![[0u32; 256]; w + 1];
    for x in words {
        for (i, b) in x.iter().enumerate() {
            counts[i][*b as usize] += 1;
            counts[w][*b as usize] += 1;
        }
    }
    for (i, c) in counts.iter().enumerate() {
        let m = (if i == w { n * w } else { n }) as f64 / 256.0;
        for (v, k) in c.iter().enumerate() {
            let k = *k as f64;
            if k < m - 8.5 * m.sqrt() || k > m + 10.0 * m.sqrt() + 12.0 {
                return Err(format!("byte value {:#04x} occurs {} times in the {} ({}), expected about {}", v, k, what, if i == w { "all bytes".into() } else { format!("byte {}", i) }, m));
            }
        }
    }
    // successive words: differences must not repeat, bits must not persist
    let num = |w: &[u8]| w.iter().take(8).fold(0u64, |a, b| a << 8 | *b as u64);
    for lag in [1usize, 2, 3, 4] {
        if n <= lag + 64 {
            continue;
        }
        let mut deltas: HashMap<u64, usize> = HashMap::new();
        let mut xors: HashMap<u64, usize> = HashMap::new();
        for i in lag..n {
            let (x, y) = (num(&words[i]), num(&words[i - lag]));
            let m = if bits >= 64 { u64::MAX } else { (1 << bits) - 1 };
            *deltas.entry(x.wrapping_sub(y) & m).or_insert(0) += 1;
            *xors.entry(x ^ y).or_insert(0) += 1;
        }
        let most = deltas.values().chain(xors.values()).max().copied().unwrap_or(0);
        if most > 6 {
            return Err(format!("{} follow a fixed step: the same difference at distance {} {} times in {}", what, lag, most, n));
        }
        for b in 0..bits {
            let same = (lag..n).filter(|i| bit(&words[*i], b) == bit(&words[*i - lag], b)).count() as f64;
            let k = (n - lag) as f64;
            if (same - k / 2.0).abs() > 8.0 * k.sqrt() / 2.0 {
                return Err(format!("bit {} of the {} equals the one {} before in {} of {}", b, what, lag, same, k));
            }
        }
    }
    Ok(())
}
fn f05_keys(c: &KeyCase, o: &mut Obs) -> Res {
    let pays: Vec<Vec<u8>> = c.pays.iter().map(|p| p.bytes()).collect();
    let n = 6000;
    let t = c.threads.max(1) as usize;
    let mut sets = vec![];
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..t).map(|_| s.spawn(|| collect_keys(&c.apis, &pays, &c.ops, n))).collect();
        for h in hs {
            sets.push(h.join().unwrap_or_else(|_| Err("panic while sending".into())));
        }
    });
    let mut all = vec![];
    for s in sets {
        match s {
            Ok(k) => all.extend(k.into_iter().map(|k| k.to_vec())),
            Err(e) => fail!("{}", e),
        }
    }
    o.class(format!("threads {}", t));
    o.nontrivial(true);
    if let Err(e) = judge_random(&all, "mask keys") {
        fail!("{}", e);
    }
    Ok(())
}
/// many keys in one go: pools and generators of short period
fn f05_long(c: &KeyCase, o: &mut Obs) -> Res {
    let pays: Vec<Vec<u8>> = c.pays.iter().map(|p| p.bytes()).map(|mut p| { p.truncate(40); p }).collect();
    let all = match collect_keys(&c.apis, &pays, &c.ops, 150_000) {
        Ok(k) => k.into_iter().map(|k| k.to_vec()).collect::<Vec<_>>(),
        Err(e) => fail!("{}", e),
    };
    o.nontrivial(true);
    if let Err(e) = judge_random(&all, "mask keys") {
        fail!("{}", e);
    }
    Ok(())
}
pub fn child_masks() {
    let pays = vec![vec![1, 2, 3], vec![0; 200]];
    if let Ok(k) = collect_keys(&[0, 1, 2, 3, 4, 5], &pays, &[1, 2, 9], 300) {
        for k in k {
            println!("{:02x}{:02x}{:02x}{:02x}", k[0], k[1], k[2], k[3]);
        }
    }
}
/// Runs this program again in a hidden mode and returns the hex words it prints.
pub fn child_words(what: &str, times: usize) -> Result<Vec<Vec<u8>>, Fail> {
    let exe = std::env::current_exe().map_err(|e| Fail::Inconclusive(e.to_string()))?;
    // started together, as a fleet restarting would be
    let mut kids = vec![];
    for _ in 0..times {
        let k = std::process::Command::new(&exe)
            .args(["--child", what])
            .stdout(std::process::Stdio::piped())
            .spawn()
            .map_err(|e| Fail::Inconclusive(format!("spawn: {}", e)))?;
        kids.push(k);
    }
    let mut out = vec![];
    for k in kids {
        let o = k.wait_with_output().map_err(|e| Fail::Inconclusive(e.to_string()))?;
        for l in String::from_utf8_lossy(&o.stdout).lines() {
            let b: Option<Vec<u8>> = (0..l.len() / 2).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).ok()).collect();
            if let Some(b) = b {
                out.push(b);
            }
        }
    }
    Ok(out)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Procs {
    n: u8,
}
fn f05_processes(c: &Procs, o: &mut Obs) -> Res {
    let words = child_words("masks", c.n as usize)?;
    if words.len() != 300 * c.n as usize {
        fail!("child processes sent only {} masked frames", words.len());
    }
    o.class(format!("processes {}", c.n));
    o.nontrivial(true);
    if let Err(e) = judge_random(&words, "mask keys of several processes") {
        fail!("{}", e);
    }
    Ok(())
}

// ------------------------------------------------------------------------------- F06

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LimCase {
    fr: FrApi,
    rx: RxApi,
    role: Role,
    limit: u32,
    /// (kind, payload length relative to the limit or absolute)
    frames: Vec<(u8, i32, bool)>,
    /// announced length over the limit
    over: u64,
    over_op: u8,
    over_fin: bool,
    /// how much of the too long frame's payload follows its header
    body: u16,
    close: bool,
    seed: u32,
    plan: Vec<u8>,
}
fn lim_case() -> BoxedStrategy<LimCase> {
    (
        (
            select(ALL_FR.iter().copied().filter(|f| f.has_limit()).collect::<Vec<_>>()),
            select(ALL_RX.to_vec()),
            role(),
        ),
        dict::ints(prop_oneof![3 => 0u32..200, 2 => 120u32..132, 2 => 0u32..3000, 1 => 65_530u32..65_540, 1 => 0u32..200_000].boxed(), 0, 300_000, |n, _| n as u32),
        vec((0u8..5, prop_oneof![-3i32..=0, -200i32..=0, Just(i32::MIN)], any::<bool>()), 0..4),
        prop_oneof![4 => Just(1u64), 2 => 1u64..300, 2 => u64ish(), 1 => Just(u64::MAX)],
        select(vec![0u8, 1, 2, 8, 9, 10]),
        any::<bool>(),
        prop_oneof![2 => Just(0u16), 1 => any::<u16>()],
        any::<bool>(),
        any::<u32>(),
        fast_plan(),
    )
        .prop_map(|((fr, rx, role), limit, frames, over, over_op, over_fin, body, close, seed, plan)| LimCase {
            fr, rx, role, limit, frames, over, over_op, over_fin, body, close, seed, plan,
        })
        .boxed()
}
/// limits far away from the payloads that really come
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wide {
    fr: FrApi,
    rx: RxApi,
    role: Role,
    limit: u64,
    lens: Vec<u32>,
    /// what the last header announces, payload withheld
    announce: u64,
    seed: u32,
    plan: Vec<u8>,
}
fn wide_case() -> BoxedStrategy<Wide> {
    let edge = || (17u32..64, -3i64..=3).prop_map(|(s, d)| (1u64 << s).wrapping_add(d as u64));
    (
        (
            select(ALL_FR.iter().copied().filter(|f| f.has_limit()).collect::<Vec<_>>()),
            select(ALL_RX.to_vec()),
            role(),
        ),
        dict::ints(prop_oneof![3 => edge(), 2 => 200_000u64..u32::MAX as u64, 1 => any::<u64>(), 1 => Just(u64::MAX)].boxed(), 0, u64::MAX, |n, _| n).prop_map(|l| l.max(100_000)),
        vec(prop_oneof![30 => 0u32..300, 1 => 65_530u32..65_540, 1 => 0u32..100_000], 0..4),
        prop_oneof![3 => edge().prop_map(|v| v as i64), 2 => -3i64..=3, 1 => any::<i64>()],
        any::<bool>(),
        any::<u32>(),
        fast_plan(),
    )
        .prop_map(|((fr, rx, role), limit, lens, a, rel, seed, plan)| {
            let announce = if rel { limit.saturating_add((a % 4) as u64) } else { a as u64 };
            Wide { fr, rx, role, limit, lens, announce: announce.clamp(1, (1 << 63) - 1), seed, plan }
        })
        .boxed()
}
fn f06_wide(c: &Wide, o: &mut Obs) -> Res {
    let mut frames: Vec<Frame> = c.lens.iter().map(|n| Frame::new(true, 2, gen::fill(*n as usize, c.seed))).collect();
    gen::mask_frames(&mut frames, c.role.expects_mask(), c.seed);
    let mask = if c.role.expects_mask() { Some([3, 1, 4, c.seed as u8]) } else { None };
    let mut bytes = gen::wire(&frames);
    let total = bytes.len();
    bytes.extend_from_slice(&rfc::encode_header(true, [false; 3], 2, mask, c.announce));
    // a limit of more than the library can count is as good as none, up to what it can count
    let too_long = c.announce > c.limit;
    let fits = c.announce <= c.limit.min(u32::MAX as u64);
    o.class(if too_long { "over" } else if fits { "within" } else { "beyond 2^32, within the limit" });
    o.class_if(c.limit > u32::MAX as u64, "limit of more than 32 bits");
    o.nontrivial(too_long || fits);
    let want: Vec<Frame> = frames.iter().map(unmasked).collect();
    let (r, peak) = crate::alloc::measured(usize::MAX, || recv_frames(c.fr, c.role, &bytes, &c.plan, &[], Some(c.limit), false, None));
    ensure!(r.frames == want, "{:?}: {} of {} frames below the limit of {} arrive: {:?}", c.fr, r.frames.len(), want.len(), c.limit, r.end);
    let refused = matches!(r.end, End::Err(_));
    ensure!(!too_long || refused, "{:?}: header announcing {} bytes under a limit of {} gives {:?}", c.fr, c.announce, c.limit, r.end);
    ensure!(!fits || !refused, "{:?}: header announcing {} bytes refused under a limit of {}: {:?}", c.fr, c.announce, c.limit, r.end);
    let room = (1 << 20) + 8 * total as i64;
    ensure!(peak < room, "{:?}: {} bytes allocated for {} received", c.fr, peak, total);
    let r = receive_n(c.rx, c.role, &bytes, &c.plan, &[], Some((c.limit, c.limit)), false, None);
    ensure!(r.msgs.len() == want.len(), "{:?}: {} of {} messages below the limit of {} arrive: {:?}", c.rx, r.msgs.len(), want.len(), c.limit, r.end);
    let refused = matches!(r.end, End::Err(_));
    ensure!(!too_long || refused, "{:?}: header announcing {} bytes under a limit of {} gives {:?}", c.rx, c.announce, c.limit, r.end);
    ensure!(!fits || !refused, "{:?}: header announcing {} bytes refused under a limit of {}: {:?}", c.rx, c.announce, c.limit, r.end);
    Ok(())
}
fn f06_limit(c: &LimCase, o: &mut Obs) -> Res {
    // frames within the limit: complete messages, fragments and control frames
    let mut frames = vec![];
    let mut open = false;
    for (k, d, fin) in &c.frames {
        let len = if *d == i32::MIN { 0 } else { (c.limit as i64 + *d as i64).max(0) as usize };
        let f = match k {
            0 | 1 if len <= 125 => Frame::new(true, 9 + k, gen::fill(len, c.seed)),
            _ => {
                let op = if open { 0 } else { 2 };
                open = !fin;
                Frame::new(*fin, op, gen::fill(len, c.seed ^ 9))
            }
        };
        frames.push(f);
    }
    gen::mask_frames(&mut frames, c.role.expects_mask(), c.seed);
    let n = frames.len();
    // the frame that exceeds it
    let len = (c.limit as u64).saturating_add(c.over.max(1));
    let (mut op, mut fin) = (c.over_op, c.over_fin);
    if op < 8 {
        op = if open { 0 } else { op.max(1) };
    } else if len > 125 {
        op = if open { 0 } else { 2 };
    } else {
        fin = true;
    }
    let mask = if c.role.expects_mask() { Some([3, 1, 4, c.seed as u8]) } else { None };
    let mut bytes = gen::wire(&frames);
    let good = bytes.len();
    let hdr = rfc::encode_header(fin, [false; 3], op, mask, len);
    bytes.extend_from_slice(&hdr);
    let hdr_end = bytes.len();
    let body = (c.body as u64).min(len) as usize;
    bytes.extend(gen::fill(body, c.seed));
    o.class(format!("{:?}", c.fr));
    o.class(format!("{:?}", c.rx));
    o.class(if op >= 8 { "control over" } else if op == 0 { "continuation over" } else { "data over" });
    o.class_if(frames.iter().any(|f| f.payload.len() == c.limit as usize), "exactly the limit");

    let r = recv_frames(c.fr, c.role, &bytes, &c.plan, &[], Some(c.limit as u64), c.close, None);
    let want: Vec<Frame> = frames.iter().map(unmasked).collect();
    ensure!(
        r.frames.len() >= n,
        "{:?}: frame {} of {} bytes refused under a limit of {}: {:?}",
        c.fr, r.frames.len(), want[r.frames.len()].payload.len(), c.limit, r.end
    );
    ensure!(r.frames == want, "{:?}: a frame of {} bytes got through a limit of {}", c.fr, len, c.limit);
    ensure!(
        matches!(r.end, End::Err(_)),
        "{:?}: header announcing {} bytes under a limit of {} gives {:?} instead of an error ({} payload bytes there, stream {})",
        c.fr, len, c.limit, r.end, body, if c.close { "closed" } else { "open" }
    );
    if matches!(c.fr, FrApi::ReadLimit | FrApi::Raw | FrApi::RawIter) {
        ensure!(r.taken <= hdr_end, "{:?}: {} payload bytes of a too long frame read", c.fr, r.taken - hdr_end);
    }
    let _ = good;

    let e = rfc::reassemble(&frames, c.role.expects_mask());
    let (r, peak) = crate::alloc::measured(usize::MAX, || {
        receive_n(c.rx, c.role, &bytes, &c.plan, &[], Some((c.limit as u64, u32::MAX as u64)), c.close, None)
    });
    ensure!(r.msgs == e.msgs, "{:?}: {} of {} messages within the limit delivered: {:?}", c.rx, r.msgs.len(), e.msgs.len(), r.end);
    ensure!(matches!(r.end, End::Err(_)), "{:?}: header announcing {} bytes under a limit of {} gives {:?}", c.rx, len, c.limit, r.end);
    let room = (1 << 20) + 8 * bytes.len() as i64;
    ensure!(peak < room, "{:?}: {} bytes allocated for {} received", c.rx, peak, bytes.len());
    o.nontrivial(true);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "F01",
            level: "exploration",
            assumptions: &["payloads up to 20 MB, mostly below 140 kB (header and size arithmetic for any 64-bit length)"],
            suites: vec![
                suite(
                    "send",
                    "1-5 data frames / messages (owned, borrowed, own DataFrame impl) of any opcode byte, flags and length, sent through one of 7 APIs in either role over a transport with scripted partial and interrupted writes; non-trivial: at least one frame emitted or refused",
                    opts(160_000, 4_000_000),
                    || tx_case(true),
                    f01_tx,
                ),
                suite(
                    "large",
                    "as send, with an item of up to 20 MB; non-trivial: as send",
                    opts(256, 6_000).shrink(200),
                    || tx_huge(false),
                    f01_tx,
                ),
                suite(
                    "header",
                    "frame headers with any flags, opcode byte, key and 64-bit length",
                    opts(300_000, 8_000_000),
                    || {
                        (any::<u8>(), prop_oneof![4 => 0u8..=15, 1 => any::<u8>()], proptest::option::of(any::<[u8; 4]>()), u64ish(), Just(vec![]))
                            .prop_map(|(flags, op, mask, len, junk)| HdrCase { flags, op, mask, len, junk })
                            .boxed()
                    },
                    f01_header,
                ),
            ],
        },
        Prop {
            id: "F02",
            level: "exploration",
            assumptions: &["payloads up to 20 MB, mostly below 140 kB"],
            suites: vec![
                suite(
                    "stream",
                    "0-6 frames of any opcode and flags, last one possibly cut anywhere, read through one of 10 APIs in either role with scripted chunking, interruptions and would-block between frames; non-trivial: at least one whole or partial frame",
                    opts(160_000, 4_000_000),
                    rx_case,
                    f02_stream,
                ),
                suite(
                    "large",
                    "as stream, with a frame of up to 20 MB; non-trivial: as stream",
                    opts(256, 6_000).shrink(200),
                    rx_huge,
                    f02_stream,
                ),
                suite(
                    "reject",
                    "valid frames, then a frame with a non-minimal length, a fragmented or an over-long control frame, then valid frames",
                    opts(100_000, 3_000_000),
                    bad_case,
                    f02_reject,
                ),
                suite(
                    "header",
                    "arbitrary header bytes against a reference header parser",
                    opts(300_000, 8_000_000),
                    hdr_bytes,
                    f02_header,
                ),
            ],
        },
        Prop {
            id: "F03",
            level: "exploration",
            assumptions: &["payloads up to 20 MB, mostly below 140 kB"],
            suites: vec![
                suite(
                    "mask",
                    "key, data and a division into writes over a writer accepting scripted amounts; non-trivial: more than 4 bytes and a non-zero key",
                    opts(60_000, 2_000_000),
                    || {
                        (mask_key(), pay(true), vec(any::<u16>(), 0..8), vec(any::<bool>(), 1..4), plan())
                            .prop_map(|(key, data, cuts, all, wplan)| {
                                // a retry masks all that is left: keep the number of writes moderate
                                let sum: usize = wplan.iter().map(|s| match *s { 250..=255 => 1 << 20, 200..=249 => (*s as usize - 199) * 100, s => s as usize }).sum();
                                let slow = !wplan.is_empty() && data.len() * wplan.len() > 300 * sum;
                                let wplan = if data.len() > 2000 && slow { vec![201, 7, 0, 255] } else { wplan };
                                MaskCase { key, data, cuts, all, wplan }
                            })
                            .boxed()
                    },
                    f03_mask,
                ),
                suite(
                    "large",
                    "as mask, with up to 20 MB; non-trivial: as mask",
                    opts(256, 6_000).shrink(200),
                    || {
                        (mask_key(), gen::huge_pay(), vec(any::<u16>(), 0..8), vec(any::<bool>(), 1..4), gen::huge_plan())
                            .prop_map(|(key, data, cuts, all, mut wplan)| {
                                if data.len() > 2_000_000 && wplan.len() > 1 {
                                    wplan = vec![7, 255, 0];
                                }
                                MaskCase { key, data, cuts, all, wplan }
                            })
                            .boxed()
                    },
                    f03_mask,
                ),
                suite(
                    "large-receive",
                    "as receive, with frames of up to 20 MB; non-trivial: as receive",
                    opts(120, 4_000).shrink(200),
                    || {
                        (select(ALL_FR.to_vec()), select(ALL_RX.to_vec()), vec((mask_key(), gen::huge_pay()), 1..2), gen::huge_plan())
                            .prop_map(|(api, msg_api, frames, plan)| KeyRx { api, msg_api, frames, plan })
                            .boxed()
                    },
                    f03_recv,
                ),
                suite(
                    "receive",
                    "masked frames with any key received through every frame and message API; non-trivial: more than 4 bytes and a non-zero key",
                    opts(16_000, 800_000),
                    || {
                        (select(ALL_FR.to_vec()), select(ALL_RX.to_vec()), vec((mask_key(), pay(true)), 1..4), fast_plan())
                            .prop_map(|(api, msg_api, frames, plan)| KeyRx { api, msg_api, frames, plan })
                            .boxed()
                    },
                    f03_recv,
                ),
            ],
        },
        Prop {
            id: "F04",
            level: "exploration",
            assumptions: &[],
            suites: vec![
                suite(
                    "send",
                    "1-5 legal frames / messages through one of 7 APIs in either role",
                    opts(140_000, 3_000_000),
                    || tx_case(false),
                    f04_send,
                ),
                suite(
                    "receive",
                    "a valid history with one frame masked the wrong way, received frame-wise and message-wise",
                    opts(140_000, 3_000_000),
                    wrong_mask,
                    f04_recv,
                ),
            ],
        },
        Prop {
            id: "F05",
            level: "exploration",
            assumptions: &[
                "randomness is judged statistically (repeats, per-bit and pairwise balance, differences up to distance 4) with a false-alarm probability below 1e-9; cryptographic strength is not decided",
            ],
            suites: vec![
                suite(
                    "keys",
                    "6000 masked frames per thread through a generated mix of sending APIs, opcodes and payloads, on 1-4 threads",
                    opts(160, 6_000).shrink(40),
                    || {
                        (vec(0u8..7, 1..5), vec(pay(false), 1..4), vec(select(vec![0u8, 1, 2, 8, 9, 10]), 1..4), 1u8..5)
                            .prop_map(|(apis, pays, ops, threads)| KeyCase { apis, pays, ops, threads })
                            .boxed()
                    },
                    f05_keys,
                ),
                suite(
                    "long",
                    "150,000 masked frames in a row on one thread, so that pools and short periods show",
                    opts(12, 60).shards(4).shrink(4),
                    || {
                        (vec(0u8..7, 1..3), vec(pay(false), 1..3), vec(select(vec![0u8, 1, 2, 8, 9, 10]), 1..4))
                            .prop_map(|(apis, pays, ops)| KeyCase { apis, pays, ops, threads: 1 })
                            .boxed()
                    },
                    f05_long,
                ),
                suite(
                    "processes",
                    "300 masked frames in each of 2-6 processes started together",
                    opts(6, 60).shards(2).shrink(4),
                    || (2u8..=6).prop_map(|n| Procs { n }).boxed(),
                    f05_processes,
                ),
            ],
        },
        Prop {
            id: "F06",
            level: "exploration",
            assumptions: &["limits of 4 GiB and more are only claimed to admit what is announced up to 2^32-1 (the library clamps them)"],
            suites: vec![suite(
                "limit",
                "frames at and below a generated limit, then one announcing more with some or none of its payload, stream open or closed, read frame-wise and message-wise",
                opts(60_000, 1_200_000),
                lim_case,
                f06_limit,
            ),
            suite(
                "wide",
                "limits from 100 kB to 2^64-1, frames far below them, then a header announcing any length whose payload is withheld on an open stream",
                opts(10_000, 400_000),
                wide_case,
                f06_wide,
            )],
        },
    ]
}
