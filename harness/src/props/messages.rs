//! M01-M07: messages.
use super::frames::{match_frame, role};
use crate::dict;
use crate::api::*;
use crate::engine::*;
use crate::gen::{self, fast_plan, pay, plan, GMsg, Item, Pay};
use crate::mock::*;
use crate::rfc::{self, Frame, Msg};
use bytes::BytesMut;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use tokio_codec::Decoder;
use websocket::codec::ws::MessageCodec;
use websocket::message::Type;
use websocket::receiver::Receiver;
use websocket::ws::dataframe::DataFrame as DataFrameTrait;
use websocket::ws::receiver::Receiver as _;
use websocket::ws::Message as MessageTrait;
use websocket::{CloseData, Message, OwnedMessage, WebSocketError};

/// A receiver's end of stream counts as a failure report only in the one case where the library's
/// error for a malformed message is indistinguishable from it.
fn failed(end: &End, e: &rfc::Expect, sync: bool) -> bool {
    match end {
        End::Err(_) => true,
        End::Eof => false,
        End::Stall => false,
    }
}

// ------------------------------------------------------------------------------- M01

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SendCase {
    tx: TxApi,
    rx: RxApi,
    role: Role,
    items: Vec<(GMsg, bool)>,
    wplan: Vec<u8>,
    rplan: Vec<u8>,
}
fn send_case() -> BoxedStrategy<SendCase> {
    let c = |big: bool| {
        (
            select(ALL_TX.to_vec()),
            select(ALL_RX.to_vec()),
            role(),
            vec((gen::gmsg(big), any::<bool>()), 1..6),
            if big { fast_plan() } else { plan() },
            if big { fast_plan() } else { plan() },
        )
    };
    prop_oneof![3 => c(false), 1 => c(true)]
        .prop_map(|(tx, rx, role, items, wplan, rplan)| SendCase { tx, rx, role, items, wplan, rplan })
        .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongSend {
    tx: TxApi,
    rx: RxApi,
    role: Role,
    pattern: Vec<(GMsg, bool)>,
    times: u16,
    wplan: Vec<u8>,
    rplan: Vec<u8>,
}
fn m01_send(c: &SendCase, o: &mut Obs) -> Res {
    let items: Vec<Out> = c
        .items
        .iter()
        .map(|(m, owned)| if *owned { Out::Owned(m.clone()) } else { Out::Borrowed(m.clone()) })
        .collect();
    let t = transmit(c.tx, c.role, &items, &c.wplan, None);
    if let Some(f) = &t.fault {
        fail!("{:?}: {}", c.tx, f);
    }
    let mut at = 0;
    for (i, it) in items.iter().enumerate() {
        let e = it.expect();
        ensure!(t.results.get(i) == Some(&Ok(())), "{:?}: message {} not sent: {:?}", c.tx, i, t.results.get(i));
        match match_frame(&t.out[at..], &e, c.role.masks()) {
            Ok(n) => {
                ensure!(t.sizes[i] == n, "message {}: announced size {} but {} bytes written", i, t.sizes[i], n);
                at += n;
            }
            Err(m) => fail!("{:?}: message {}: {}", c.tx, i, m),
        }
        o.class(match it {
            Out::Owned(_) => "owned",
            _ => "borrowed",
        });
        o.class(format!("op{}", e.2));
    }
    ensure!(at == t.out.len(), "{:?}: {} bytes beyond the messages", c.tx, t.out.len() - at);
    // the peer gets equal messages
    let peer = match c.role {
        Role::Server => Role::Client,
        Role::Client => Role::Server,
    };
    let r = receive(c.rx, peer, &t.out, &c.rplan, &[], None);
    let want: Vec<Msg> = c.items.iter().map(|(m, _)| m.msg()).collect();
    ensure!(
        r.msgs == want && r.end == End::Eof,
        "{:?} to {:?}: {} messages sent, {} equal ones received, then {:?}",
        c.tx, c.rx, want.len(), r.msgs.iter().zip(&want).take_while(|(a, b)| a == b).count(), r.end
    );
    o.class(format!("{:?}->{:?}", c.tx, c.rx));
    o.nontrivial(true);
    Ok(())
}

// ------------------------------------------------------------------------------- M02 / M03

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    pub api: RxApi,
    pub role: Role,
    pub items: Vec<Item>,
    pub seed: u32,
    pub plan: Vec<u8>,
    /// frame ends at which a would-block is reported (bits, cyclic)
    pub gates: u32,
    /// fragments of a further message that never ends
    pub open: u8,
}
pub fn hist(apis: &'static [RxApi]) -> BoxedStrategy<Hist> {
    let c = move |big: bool| {
        (
            select(apis.to_vec()),
            role(),
            if big { vec(gen::item(true), 1..4).boxed() } else { gen::items(0..9, 1100) },
            any::<u32>(),
            if big { fast_plan() } else { plan() },
            prop_oneof![2 => Just(0u32), 1 => Just(u32::MAX), 3 => any::<u32>()],
            prop_oneof![3 => Just(0u8), 1 => 1u8..4],
        )
    };
    prop_oneof![5 => c(false), 1 => c(true)]
        .prop_map(|(api, role, items, seed, plan, gates, open)| Hist { api, role, items, seed, plan, gates, open })
        .boxed()
}
impl Hist {
    pub fn frames(&self) -> Vec<Frame> {
        let mut frames: Vec<Frame> = self.items.iter().flat_map(|i| i.frames()).collect();
        for i in 0..self.open {
            frames.push(Frame::new(false, if i == 0 { 2 } else { 0 }, vec![i; i as usize]));
        }
        gen::mask_frames(&mut frames, self.role.expects_mask(), self.seed);
        frames
    }
}
/// A long history: a pattern repeated, and one message of many fragments in the middle.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Long {
    pub api: RxApi,
    pub role: Role,
    pub pattern: Vec<Item>,
    pub times: u16,
    pub shreds: u16,
    pub shredded: GMsg,
    pub seed: u32,
    pub plan: Vec<u8>,
    pub gates: u32,
    pub open: u8,
}
pub fn long(apis: &'static [RxApi]) -> BoxedStrategy<Long> {
    (
        select(apis.to_vec()),
        role(),
        vec(gen::item(false), 1..5),
        dict::fresh_ints(prop_oneof![2 => 1u16..40, 1 => 40u16..300].boxed(), 1, 5000, |n, _| n as u16),
        dict::fresh_ints(prop_oneof![2 => 0u16..40, 1 => 40u16..2500].boxed(), 1, 10_000, |n, _| n as u16),
        gen::data_msg(true),
        any::<u32>(),
        fast_plan(),
        (prop_oneof![2 => Just(0u32), 1 => any::<u32>()], 0u8..3),
    )
        .prop_map(|(api, role, pattern, times, shreds, shredded, seed, plan, (gates, open))| {
            let cost: usize = pattern.iter().map(gen::item_cost).sum();
            let times = times.min((1_500_000 / (cost + 1)).clamp(40, 5000) as u16);
            Long { api, role, pattern, times, shreds, shredded, seed, plan, gates, open }})
        .boxed()
}
impl Long {
    pub fn hist(&self) -> Hist {
        let cuts: Vec<u16> = gen::fill(2 * self.shreds as usize, self.seed).chunks(2).map(|b| u16::from_le_bytes([b[0], b[1]])).collect();
        let inter: Vec<(u8, GMsg)> = (0..self.seed as u8 % 4).map(|i| (i * 60, GMsg::Ping(vec![i; i as usize]))).collect();
        let mut items: Vec<Item> = vec![];
        for i in 0..self.times {
            if i == self.times / 2 {
                items.push(Item::Data { msg: self.shredded.clone(), cuts: cuts.clone(), inter: inter.clone() });
            }
            items.extend(self.pattern.iter().cloned());
        }
        Hist { api: self.api, role: self.role, items, seed: self.seed, plan: self.plan.clone(), gates: self.gates, open: self.open }
    }
}
fn m02_history(c: &Hist, o: &mut Obs) -> Res {
    let frames = c.frames();
    let bytes = gen::wire(&frames);
    let ends = gen::ends(&frames);
    let gated: Vec<usize> = (0..frames.len()).filter(|i| c.gates >> (i % 32) & 1 == 1).collect();
    let gates: Vec<usize> = gated.iter().map(|i| ends[*i]).collect();
    let e = rfc::reassemble(&frames, c.role.expects_mask());
    if e.error.is_some() {
        inconclusive!("generator made an invalid history");
    }
    let r = receive(c.api, c.role, &bytes, &c.plan, &gates, None);
    if let Err(m) = e.judge(&r.msgs, false) {
        fail!("{:?}: {} (end {:?})", c.api, m, r.end);
    }
    ensure!(r.end == End::Eof, "{:?}: the stream's end is reported as {:?}", c.api, r.end);
    ensure!(
        r.block_msgs.len() == gated.len(),
        "{:?}: {} would-block reports seen, {} made",
        c.api, r.block_msgs.len(), gated.len()
    );
    for (k, i) in gated.iter().enumerate() {
        let want = e.at.iter().filter(|a| *a <= i).count();
        ensure!(
            r.block_msgs[k] == want,
            "{:?}: {} messages delivered when frame {} had arrived, expected {}",
            c.api, r.block_msgs[k], i, want
        );
    }
    o.class(format!("{:?}/{:?}", c.api, c.role));
    let frag = c.items.iter().any(|i| matches!(i, Item::Data { cuts, .. } if !cuts.is_empty()));
    let inter = c.items.iter().any(|i| matches!(i, Item::Data { cuts, inter, .. } if !cuts.is_empty() && !inter.is_empty()));
    o.class_if(frag, "fragmented");
    o.class_if(inter, "control between fragments");
    o.class_if(!gates.is_empty(), "would-block between frames");
    o.class_if(c.open > 0, "unfinished at the end");
    o.nontrivial(frag || e.msgs.len() > 1);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chunks {
    role: Role,
    items: Vec<Item>,
    seed: u32,
    plan: Vec<u8>,
    cut: u16,
    open: u8,
}
/// feeds chunk by chunk; returns messages with the number of bytes fed when each came out
fn feed(
    role: Role,
    bytes: &[u8],
    chunks: &[usize],
    o: &mut Obs,
) -> Result<(Vec<(Msg, usize)>, Option<String>, Vec<u8>), Fail> {
    let mut c: MessageCodec<OwnedMessage> = MessageCodec::default(role.ctx());
    let mut buf = BytesMut::new();
    let mut out = vec![];
    let mut at = 0;
    let _ = o;
    for n in chunks {
        buf.extend_from_slice(&bytes[at..at + n]);
        at += n;
        loop {
            match c.decode(&mut buf) {
                Ok(Some(m)) => out.push((from_owned(&m), at)),
                Ok(None) => break,
                Err(e) => return Ok((out, Some(err_name(&e)), buf.to_vec())),
            }
        }
    }
    Ok((out, None, buf.to_vec()))
}
fn chunking(bytes: &[u8], plan: &[u8]) -> Vec<usize> {
    let mut p = Plan::new(plan);
    p.marks = rfc::marks(bytes);
    let mut v = vec![];
    let mut at = 0;
    while at < bytes.len() {
        let n = match p.next(at) {
            Step::Hiccup => 1,
            Step::Up(n) => n,
        }
        .min(bytes.len() - at);
        v.push(n);
        at += n;
    }
    v
}
fn m03_chunks(c: &Chunks, o: &mut Obs) -> Res {
    let h = Hist {
        api: RxApi::Codec, role: c.role, items: c.items.clone(), seed: c.seed, plan: vec![], gates: 0, open: c.open,
    };
    let frames = h.frames();
    let mut bytes = gen::wire(&frames);
    let keep = bytes.len() - ((c.cut as usize * 20) >> 16).min(bytes.len());
    bytes.truncate(keep);
    let ends = gen::ends(&frames);
    let e = rfc::reassemble(&frames, c.role.expects_mask());
    let want: Vec<(&Msg, usize)> = e.msgs.iter().zip(e.at.iter().map(|i| ends[*i])).filter(|(_, x)| *x <= keep).collect();
    let whole_end = ends.iter().copied().filter(|x| *x <= keep).max().unwrap_or(0);
    for plan in [&c.plan[..], &[1u8][..], &[][..], &[250u8][..], &[251u8][..]] {
        if plan == [1u8] && bytes.len() > 4000 {
            continue;
        }
        let chunks = chunking(&bytes, plan);
        let (got, err, left) = feed(c.role, &bytes, &chunks, o)?;
        ensure!(err.is_none(), "chunks {:?}: error {:?} on a valid stream", plan, err);
        ensure!(
            got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g.0 == *w.0),
            "chunks {:?}: {} messages, expected {}", plan, got.len(), want.len()
        );
        // each message comes out with the chunk that holds its last byte
        let mut bounds = vec![0];
        for n in &chunks {
            bounds.push(bounds.last().unwrap() + n);
        }
        for (i, (g, w)) in got.iter().zip(&want).enumerate() {
            let first = *bounds.iter().find(|b| **b >= w.1).unwrap();
            ensure!(
                g.1 == first,
                "chunks {:?}: message {} came out after {} bytes, its last byte is number {}",
                plan, i, g.1, w.1
            );
        }
        ensure!(
            left[..] == bytes[whole_end..],
            "chunks {:?}: {} bytes left in the buffer, expected the {} after the last whole frame",
            plan, left.len(), keep - whole_end
        );
    }
    // the framed endpoint and the blocking receiver see the same
    for api in [RxApi::Framed, RxApi::Raw] {
        let r = receive(api, c.role, &bytes, &c.plan, &[], None);
        ensure!(
            r.msgs.len() == want.len() && r.msgs.iter().zip(&want).all(|(g, w)| g == w.0),
            "{:?}: {} messages, expected {} (end {:?})", api, r.msgs.len(), want.len(), r.end
        );
    }
    o.class_if(keep < gen::wire(&frames).len(), "cut stream");
    o.nontrivial(want.len() > 0 && frames.len() > 1);
    Ok(())
}

/// Arbitrary edits of a valid stream.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Edit {
    Flip { at: u16, bit: u8 },
    Set { at: u16, to: u8 },
    Insert { at: u16, bytes: Vec<u8> },
    Delete { at: u16, n: u8 },
    Truncate { at: u16 },
    /// change a frame's first byte (fin, reserved bits, opcode) only
    Head { frame: u16, to: u8 },
    /// repeat a frame
    Dup { frame: u16 },
    Swap { frame: u16 },
    Drop { frame: u16 },
}
pub fn edit() -> BoxedStrategy<Edit> {
    prop_oneof![
        2 => (any::<u16>(), 0u8..8).prop_map(|(at, bit)| Edit::Flip { at, bit }),
        1 => (any::<u16>(), any::<u8>()).prop_map(|(at, to)| Edit::Set { at, to }),
        1 => (any::<u16>(), vec(any::<u8>(), 1..6)).prop_map(|(at, bytes)| Edit::Insert { at, bytes }),
        1 => (any::<u16>(), 1u8..6).prop_map(|(at, n)| Edit::Delete { at, n }),
        1 => any::<u16>().prop_map(|at| Edit::Truncate { at }),
        5 => (any::<u16>(), any::<u8>()).prop_map(|(frame, to)| Edit::Head { frame, to }),
        3 => (any::<u16>(), select(vec![0x00u8, 0x80, 0x01, 0x81, 0x02, 0x82, 0x89, 0x8a, 0x88])).prop_map(|(frame, to)| Edit::Head { frame, to }),
        1 => any::<u16>().prop_map(|frame| Edit::Dup { frame }),
        1 => any::<u16>().prop_map(|frame| Edit::Swap { frame }),
        1 => any::<u16>().prop_map(|frame| Edit::Drop { frame }),
    ]
    .boxed()
}
pub fn edited(frames: &[Frame], edits: &[Edit]) -> Vec<u8> {
    let mut enc: Vec<Vec<u8>> = frames.iter().map(|f| f.encode()).collect();
    for e in edits {
        let n = enc.len();
        let idx = |f: u16| (f as usize * n) >> 16;
        match e {
            Edit::Head { frame, to } if n > 0 => enc[idx(*frame)][0] = *to,
            Edit::Dup { frame } if n > 0 => {
                let f = enc[idx(*frame)].clone();
                enc.insert(idx(*frame), f);
            }
            Edit::Swap { frame } if n > 1 => {
                let i = idx(*frame);
                enc.swap(i, (i + 1) % n);
            }
            Edit::Drop { frame } if n > 0 => {
                enc.remove(idx(*frame));
            }
            _ => {}
        }
    }
    let mut b: Vec<u8> = enc.concat();
    for e in edits {
        let n = b.len();
        let idx = |a: u16| (a as usize * n) >> 16;
        match e {
            Edit::Flip { at, bit } if n > 0 => b[idx(*at)] ^= 1 << bit,
            Edit::Set { at, to } if n > 0 => b[idx(*at)] = *to,
            Edit::Insert { at, bytes } => {
                let i = idx(*at);
                b.splice(i..i, bytes.iter().copied());
            }
            Edit::Delete { at, n: k } if n > 0 => {
                let i = idx(*at);
                let j = (i + *k as usize).min(n);
                b.drain(i..j);
            }
            Edit::Truncate { at } => b.truncate(idx(*at)),
            _ => {}
        }
    }
    b
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Agree {
    role: Role,
    items: Vec<Item>,
    edits: Vec<Edit>,
    seed: u32,
    plan: Vec<u8>,
    plan2: Vec<u8>,
    sync: RxApi,
    limits: Option<(u16, u16)>,
}
/// what the reference model says about raw bytes: whole frames first, then a header violation,
/// an incomplete frame, or nothing
pub fn model_bytes(bytes: &[u8], role: Role, max_frame: u64) -> (rfc::Expect, Option<&'static str>, usize) {
    let mut frames = vec![];
    let mut b = bytes;
    let mut bad = None;
    loop {
        match rfc::decode(b) {
            rfc::Dec::Frame(f, n) => {
                if f.payload.len() as u64 > max_frame {
                    bad = Some("frame over the limit");
                    break;
                }
                frames.push(f);
                b = &b[n..];
            }
            rfc::Dec::Incomplete => {
                // an announced length over the limit is refused from its header
                if let Some(l) = rfc::announced(b) {
                    if l > max_frame {
                        bad = Some("frame over the limit");
                    }
                }
                break;
            }
            rfc::Dec::Invalid(m) => {
                bad = Some(m);
                break;
            }
        }
    }
    let mut e = rfc::reassemble(&frames, role.expects_mask());
    if e.error.is_none() {
        if let Some(m) = bad {
            e.error = Some((frames.len(), m));
        }
    }
    (e, bad, bytes.len() - b.len())
}
fn agree() -> BoxedStrategy<Agree> {
    (
        role(),
        prop_oneof![
            5 => (gen::items(1..5, 300), plan(), plan()),
            1 => (vec(gen::item(true), 1..4), fast_plan(), fast_plan()),
        ],
        vec(edit(), 0..4),
        any::<u32>(),
        select(SYNC_RX.to_vec()),
    )
        .prop_map(|(role, (items, plan, plan2), edits, seed, sync)| Agree {
            role, items, edits, seed, plan, plan2, sync, limits: None,
        })
        .boxed()
}
fn m03_agree(c: &Agree, o: &mut Obs) -> Res {
    let mut frames: Vec<Frame> = c.items.iter().flat_map(|i| i.frames()).collect();
    gen::mask_frames(&mut frames, c.role.expects_mask(), c.seed);
    let bytes = edited(&frames, &c.edits);
    let (e, _, _) = model_bytes(&bytes, c.role, 100 << 20);
    let s = receive(c.sync, c.role, &bytes, &c.plan, &[], None);
    let a = receive(RxApi::Codec, c.role, &bytes, &c.plan, &[], None);
    let b = receive(RxApi::Codec, c.role, &bytes, &c.plan2, &[], None);
    let f = receive(RxApi::Framed, c.role, &bytes, &c.plan2, &[], None);
    for (n, r) in [("codec", &b), ("framed", &f)] {
        ensure!(
            a.msgs == r.msgs,
            "chunking changes what the {} yields: {} and {} messages", n, a.msgs.len(), r.msgs.len()
        );
    }
    ensure!(
        matches!(a.end, End::Err(_)) == matches!(b.end, End::Err(_)),
        "chunking changes the outcome: {:?} and {:?}", a.end, b.end
    );
    ensure!(
        a.msgs == s.msgs,
        "blocking ({:?}) and asynchronous receivers differ: {} and {} messages, ends {:?} and {:?}",
        c.sync, s.msgs.len(), a.msgs.len(), s.end, a.end
    );
    let (fa, fs) = (failed(&a.end, &e, false), failed(&s.end, &e, true));
    ensure!(fa == fs, "blocking ends with {:?}, asynchronous with {:?}", s.end, a.end);
    if let Err(m) = e.judge(&a.msgs, fa) {
        fail!("asynchronous: {} (end {:?})", m, a.end);
    }
    if let Err(m) = e.judge(&s.msgs, fs) {
        fail!("{:?}: {} (end {:?})", c.sync, m, s.end);
    }
    o.class(match (e.error, e.open) {
        (Some((_, m)), _) => m,
        (None, true) => "unfinished",
        (None, false) => "valid",
    });
    o.nontrivial(e.error.is_some() || e.msgs.len() > 1);
    Ok(())
}

// ------------------------------------------------------------------------------- M04

#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) struct Utf {
    api: RxApi,
    role: Role,
    parts: Vec<Vec<u8>>,
    cuts: Vec<u16>,
    /// 1 text, 2 binary, 8 close reason, 9 ping, 10 pong
    op: u8,
    code: u16,
    inter: Vec<GMsg>,
    before: Option<GMsg>,
    seed: u32,
    plan: Vec<u8>,
}
fn utf_part() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        8 => gen::string(4).prop_map(|s| s.into_bytes()),
        1 => (gen::string(3), 1usize..200).prop_map(|(s, n)| s.repeat(n).into_bytes()),
        2 => gen::ch().prop_map(|c| {
            let mut b = [0; 4];
            c.encode_utf8(&mut b).as_bytes().to_vec()
        }),
        // truncated and altered characters
        1 => (gen::ch(), 1usize..4).prop_map(|(c, n)| {
            let s = c.to_string().into_bytes();
            s[..n.min(s.len())].to_vec()
        }),
        1 => (gen::ch(), 0usize..4, any::<u8>()).prop_map(|(c, i, b)| {
            let mut s = c.to_string().into_bytes();
            let l = s.len();
            s[i % l] = b;
            s
        }),
        1 => vec(any::<u8>(), 1..3),
        1 => select(vec![
            vec![0xC0u8, 0x80], vec![0xC1, 0xBF], vec![0xE0, 0x80, 0x80], vec![0xE0, 0x9F, 0xBF],
            vec![0xED, 0xA0, 0x80], vec![0xED, 0xBF, 0xBF], vec![0xF0, 0x80, 0x80, 0x80],
            vec![0xF0, 0x8F, 0xBF, 0xBF], vec![0xF4, 0x90, 0x80, 0x80], vec![0xF5, 0x80, 0x80, 0x80],
            vec![0xF8, 0x88, 0x80, 0x80, 0x80], vec![0xFE], vec![0xFF], vec![0x80], vec![0xBF],
            vec![0xE2, 0x82], vec![0xF0, 0x9F, 0x98], vec![0xC3],
        ]),
    ]
    .boxed()
}
/// valid text long enough for the longer length forms and for readers that work in blocks
fn long_text() -> BoxedStrategy<Vec<Vec<u8>>> {
    (gen::string(3), gen::string(4), prop_oneof![3 => 1usize..300, 1 => 300usize..3000], gen::string(3))
        .prop_map(|(a, s, n, z)| vec![a.into_bytes(), s.repeat(n).into_bytes(), z.into_bytes()])
        .boxed()
}
/// damaged text behind (or in front of) up to 300 kB of valid text
fn far_text() -> BoxedStrategy<Vec<Vec<u8>>> {
    (vec(gen::ch(), 1..3), prop_oneof![1 => 1000u32..70_000, 1 => (10u32..=18, -4i64..=4).prop_map(|(s, d)| ((1i64 << s) + d) as u32)], vec(utf_part(), 0..3), any::<bool>())
        .prop_map(|(s, n, mut parts, front)| {
            let s: String = s.into_iter().collect();
            let text = s.repeat(1 + n as usize / s.len()).into_bytes();
            let text = if front { text } else { [text, vec![b'x'; n as usize % 5]].concat() };
            if front {
                parts.insert(0, text)
            } else {
                parts.push(text)
            }
            parts
        })
        .boxed()
}
/// one defect (or none) a long way into a long text
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Deep {
    api: RxApi,
    role: Role,
    unit: String,
    len: u32,
    front: Vec<Vec<u8>>,
    back: Vec<Vec<u8>>,
    cuts: Vec<u16>,
    op: u8,
    seed: u32,
    slow: bool,
}
fn deep_case() -> BoxedStrategy<Deep> {
    (
        select(ALL_RX.to_vec()),
        role(),
        (vec(gen::ch(), 1..4), prop_oneof![1 => 300_000u32..3_000_000, 1 => (19u32..=23, -4i64..=4).prop_map(|(s, d)| ((1i64 << s) + d) as u32)]),
        (vec(utf_part(), 0..2), vec(utf_part(), 0..2)),
        vec(any::<u16>(), 0..3),
        prop_oneof![6 => Just(1u8), 1 => Just(2u8)],
        any::<u32>(),
        any::<bool>(),
    )
        .prop_map(|(api, role, (s, len), (front, back), cuts, op, seed, slow)| Deep {
            api, role, unit: s.into_iter().collect(), len, front, back, cuts, op, seed, slow,
        })
        .boxed()
}
fn m04_deep(c: &Deep, o: &mut Obs) -> Res {
    let text = c.unit.repeat(1 + c.len as usize / c.unit.len().max(1)).into_bytes();
    let mut parts = c.front.clone();
    parts.push([text, vec![b'x'; c.seed as usize % 5]].concat());
    parts.extend(c.back.clone());
    let plan = if c.slow { vec![254] } else { vec![] };
    let u = Utf { api: c.api, role: c.role, parts, cuts: c.cuts.clone(), op: c.op, code: 1000, inter: vec![], before: None, seed: c.seed, plan };
    m04_utf8(&u, o)
}
fn utf_case() -> BoxedStrategy<Utf> {
    (
        select(ALL_RX.to_vec()),
        role(),
        prop_oneof![
            1 => far_text(), 4 => vec(utf_part(), 0..5), 4 => vec(gen::string(5).prop_map(|s| s.into_bytes()), 0..5), 1 => vec(utf_part(), 5..30), 3 => long_text()],
        vec(any::<u16>(), 0..7),
        prop_oneof![6 => Just(1u8), 1 => Just(2u8), 3 => Just(8u8), 1 => 9u8..=10],
        gen::close_code(),
        vec(gen::ctl(), 0..3),
        proptest::option::of(gen::data_msg(false)),
        any::<u32>(),
        plan(),
    )
        .prop_map(|(api, role, parts, cuts, op, code, inter, before, seed, mut plan)| {
            match parts.iter().map(|p| p.len()).sum::<usize>() {
                0..=2000 => {}
                2001..=20_000 => plan.push(255),
                _ => {
                    plan.truncate(3);
                    plan.push(254);
                    plan.push(254);
                }
            }
            Utf { api, role, parts, cuts, op, code, inter, before, seed, plan }
        })
        .boxed()
}
fn utf_data(c: &Utf) -> Vec<u8> {
    let mut data: Vec<u8> = c.parts.concat();
    if c.op >= 8 {
        data.truncate(if c.op == 8 { 123 } else { 125 });
    }
    data
}
fn utf_frames(c: &Utf, data: &[u8]) -> Vec<Frame> {
    let mut frames = bare_frames(c, data);
    frames.push(Frame::new(true, 2, vec![1, 2, 3]));
    gen::mask_frames(&mut frames, c.role.expects_mask(), c.seed);
    frames
}
fn bare_frames(c: &Utf, data: &[u8]) -> Vec<Frame> {
    let mut frames = vec![];
    if let Some(m) = &c.before {
        frames.push(m.msg().frame());
    }
    match c.op {
        8 => {
            let mut b = c.code.to_be_bytes().to_vec();
            b.extend_from_slice(data);
            frames.push(Frame::new(true, 8, b));
        }
        9 | 10 => frames.push(Frame::new(true, c.op, data.to_vec())),
        op => {
            let parts = gen::split_at(data, &c.cuts);
            let n = parts.len();
            for (i, p) in parts.into_iter().enumerate() {
                if i > 0 {
                    if let Some(x) = c.inter.get(i - 1) {
                        frames.push(x.msg().frame());
                    }
                }
                frames.push(Frame::new(i == n - 1, if i == 0 { op } else { 0 }, p));
            }
        }
    }
    frames
}
fn m04_utf8(c: &Utf, o: &mut Obs) -> Res {
    let data = utf_data(c);
    let valid = rfc::utf8_ok(&data);
    let bare = bare_frames(c, &data);
    let frames = utf_frames(c, &data);
    let bytes = gen::wire(&frames);
    let e = rfc::reassemble(&frames, c.role.expects_mask());
    let r = receive(c.api, c.role, &bytes, &c.plan, &[], None);
    let f = failed(&r.end, &e, c.api.is_sync());
    if let Err(m) = e.judge(&r.msgs, f) {
        fail!("{:?} op {}: {} (end {:?}); data {:02x?}", c.api, c.op, m, r.end, &data[..data.len().min(60)]);
    }
    if e.error.is_none() {
        ensure!(r.end == End::Eof, "{:?}: {:?} on valid input", c.api, r.end);
    }
    // formed directly from frames
    let only: Vec<_> = bare
        .iter()
        .skip(c.before.is_some() as usize)
        .filter(|x| c.op >= 8 || x.op < 8)
        .collect();
    let want = rfc::form(c.op, &only.iter().flat_map(|x| x.payload.clone()).collect::<Vec<_>>());
    let dfs = || only.iter().map(|x| dataframe(x)).collect::<Vec<_>>();
    let own = OwnedMessage::from_dataframes(dfs());
    let bor = Message::from_dataframes(dfs());
    match want {
        Ok(m) => {
            match own {
                Ok(g) => ensure!(from_owned(&g) == m, "formed message differs: {}", from_owned(&g).brief()),
                Err(e) => fail!("forming a valid message fails: {}", err_name(&e)),
            }
            match bor {
                Ok(g) => ensure!(from_owned(&OwnedMessage::from(g)) == m, "formed borrowed message differs"),
                Err(e) => fail!("forming a valid message fails: {}", err_name(&e)),
            }
        }
        Err(m) => ensure!(own.is_err() && bor.is_err(), "message formed although {}", m),
    }
    o.class(format!("op{} {}", c.op, if valid { "valid" } else { "invalid" }));
    o.class(format!("{:?}", c.api));
    let inside = gen::split_at(&data, &c.cuts).iter().take(c.cuts.len()).any(|p| !rfc::utf8_ok(p));
    o.class_if(valid && inside && c.op == 1, "fragment boundary inside a character");
    o.nontrivial(!data.is_empty() && !data.is_ascii());
    Ok(())
}

// ------------------------------------------------------------------------------- M05

#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) enum Viol {
    /// reserved bits on one frame of a message
    Rsv { item: Item, which: u16, bits: u8 },
    RsvCtl { ctl: GMsg, bits: u8 },
    Opcode { op: u8, cuts: Vec<u16>, data: Pay },
    CtlOpcode { op: u8, body: Vec<u8> },
    Stray { fin: bool, data: Pay },
    /// data frame inside an unfinished message
    Nested { first: Pay, op: u8, fin: bool, second: Pay, ctl: Option<GMsg> },
    FragmentedCtl { op: u8, body: Vec<u8> },
    LongCtl { op: u8, len: u16 },
    Close1 { b: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) struct ViolCase {
    api: RxApi,
    role: Role,
    before: Vec<Item>,
    /// the violation arrives inside an unfinished message (control violations only)
    inside: bool,
    viol: Viol,
    after: Vec<Item>,
    seed: u32,
    plan: Vec<u8>,
    gates: bool,
}
fn viol() -> BoxedStrategy<Viol> {
    let sp = || prop_oneof![30 => pay(false), 1 => pay(true)];
    prop_oneof![
        (prop_oneof![30 => gen::item(false), 1 => gen::item(true)], any::<u16>(), 1u8..8).prop_map(|(item, which, bits)| Viol::Rsv { item, which, bits }),
        (gen::ctl(), 1u8..8).prop_map(|(ctl, bits)| Viol::RsvCtl { ctl, bits }),
        (3u8..=7, vec(any::<u16>(), 0..4), sp()).prop_map(|(op, cuts, data)| Viol::Opcode { op, cuts, data }),
        (11u8..=15, gen::ctl_body()).prop_map(|(op, body)| Viol::CtlOpcode { op, body }),
        (any::<bool>(), sp()).prop_map(|(fin, data)| Viol::Stray { fin, data }),
        (sp(), 1u8..=7, any::<bool>(), sp(), proptest::option::of(gen::ctl()))
            .prop_map(|(first, op, fin, second, ctl)| Viol::Nested { first, op, fin, second, ctl }),
        (8u8..=15, gen::ctl_body()).prop_map(|(op, body)| Viol::FragmentedCtl { op, body }),
        (8u8..=10, prop_oneof![10 => 126u16..130, 10 => 126u16..3000, 1 => 65_530u16..=65_535]).prop_map(|(op, len)| Viol::LongCtl { op, len }),
        any::<u8>().prop_map(|b| Viol::Close1 { b }),
    ]
    .boxed()
}
fn viol_case() -> BoxedStrategy<ViolCase> {
    (
        select(ALL_RX.to_vec()),
        role(),
        prop_oneof![10 => gen::items(0..4, 300), 1 => super::frames::many_items()],
        any::<bool>(),
        viol(),
        vec(gen::item(false), 0..3),
        any::<u32>(),
        plan(),
        any::<bool>(),
    )
        .prop_map(|(api, role, before, inside, viol, after, seed, mut plan, gates)| {
            if before.len() > 10 {
                plan.push(255);
            }
            ViolCase {
            api, role, before, inside, viol, after, seed, plan, gates,
        }})
        .boxed()
}
fn bits(b: u8) -> [bool; 3] {
    [b & 4 != 0, b & 2 != 0, b & 1 != 0]
}
/// the frames, the first index the violation can be at, and what it is
struct Violation {
    frames: Vec<Frame>,
    start: usize,
    inside: bool,
    direct: Option<Vec<Frame>>,
    class: &'static str,
}
fn build_violation(c: &ViolCase) -> Violation {
    let mut frames: Vec<Frame> = c.before.iter().flat_map(|i| i.frames()).collect();
    let start = frames.len();
    let ctl_viol = matches!(
        c.viol,
        Viol::RsvCtl { .. } | Viol::CtlOpcode { .. } | Viol::FragmentedCtl { .. } | Viol::LongCtl { .. } | Viol::Close1 { .. }
    );
    let inside = c.inside && ctl_viol;
    if inside {
        frames.push(Frame::new(false, 1, b"begun".to_vec()));
    }
    let mut direct: Option<Vec<Frame>> = None;
    let class = match &c.viol {
        Viol::Rsv { item, which, bits: b } => {
            let mut f = item.frames();
            let data: Vec<usize> = (0..f.len()).filter(|i| f[*i].op < 8).collect();
            let i = if data.is_empty() { 0 } else { data[(*which as usize * data.len()) >> 16] };
            f[i].rsv = bits(*b);
            direct = Some(f.iter().filter(|x| data.is_empty() || x.op < 8).cloned().collect());
            frames.extend(f);
            "reserved bits"
        }
        Viol::RsvCtl { ctl, bits: b } => {
            let mut f = ctl.msg().frame();
            f.rsv = bits(*b);
            direct = Some(vec![f.clone()]);
            frames.push(f);
            "reserved bits on control"
        }
        Viol::Opcode { op, cuts, data } => {
            let parts = gen::split_at(&data.bytes(), cuts);
            let n = parts.len();
            let f: Vec<Frame> = parts
                .into_iter()
                .enumerate()
                .map(|(i, p)| Frame::new(i == n - 1, if i == 0 { *op } else { 0 }, p))
                .collect();
            direct = Some(f.clone());
            frames.extend(f);
            "undefined data opcode"
        }
        Viol::CtlOpcode { op, body } => {
            frames.push(Frame::new(true, *op, body.clone()));
            direct = Some(vec![Frame::new(true, *op, body.clone())]);
            "undefined control opcode"
        }
        Viol::Stray { fin, data } => {
            frames.push(Frame::new(*fin, 0, data.bytes()));
            direct = Some(vec![Frame::new(*fin, 0, data.bytes())]);
            "message starts with a continuation"
        }
        Viol::Nested { first, op, fin, second, ctl } => {
            let a = Frame::new(false, 2, first.bytes());
            let b = Frame::new(*fin, *op, second.bytes());
            frames.push(a.clone());
            if let Some(x) = ctl {
                frames.push(x.msg().frame());
            }
            frames.push(b.clone());
            direct = Some(vec![a, b]);
            "data frame inside a message"
        }
        Viol::FragmentedCtl { op, body } => {
            frames.push(Frame::new(false, *op, body.clone()));
            "fragmented control"
        }
        Viol::LongCtl { op, len } => {
            frames.push(Frame::new(true, *op, gen::fill(*len as usize, c.seed)));
            "long control"
        }
        Viol::Close1 { b } => {
            frames.push(Frame::new(true, 8, vec![*b]));
            direct = Some(vec![Frame::new(true, 8, vec![*b])]);
            "close body of one byte"
        }
    };
    if inside {
        frames.push(Frame::new(true, 0, b"ended".to_vec()));
    }
    frames.extend(c.after.iter().flat_map(|i| i.frames()));
    gen::mask_frames(&mut frames, c.role.expects_mask(), c.seed);
    Violation { frames, start, inside, direct, class }
}
/// R03: what a violation, bad text and a wrong mask are reported as
#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) enum Wrong {
    Violation(ViolCase),
    Text(Utf),
}
pub(super) fn wrong() -> BoxedStrategy<Wrong> {
    prop_oneof![3 => viol_case().prop_map(Wrong::Violation), 2 => utf_case().prop_map(Wrong::Text)].boxed()
}
/// the report of the receiver, the reports of the direct conversions, and whether it is about text
pub(super) fn wrong_reports(w: &Wrong) -> Option<(String, End, Vec<String>, bool)> {
    let name = |r: Result<(), WebSocketError>| r.err().map(|e| err_name(&e));
    match w {
        Wrong::Violation(c) => {
            let v = build_violation(c);
            let bytes = gen::wire(&v.frames);
            let r = receive(c.api, c.role, &bytes, &c.plan, &[], None);
            let dfs = || v.direct.iter().flatten().map(dataframe).collect::<Vec<_>>();
            let mut d = vec![];
            if v.direct.is_some() {
                d.extend(name(OwnedMessage::from_dataframes(dfs()).map(|_| ())));
                d.extend(name(Message::from_dataframes(dfs()).map(|_| ())));
            }
            Some((format!("{:?}: {}", c.api, v.class), r.end, d, false))
        }
        Wrong::Text(c) => {
            let data = utf_data(c);
            if rfc::utf8_ok(&data) || !matches!(c.op, 1 | 8) {
                return None;
            }
            let frames = utf_frames(c, &data);
            let bytes = gen::wire(&frames);
            let r = receive(c.api, c.role, &bytes, &c.plan, &[], None);
            let one = || {
                let mut b = if c.op == 8 { c.code.to_be_bytes().to_vec() } else { vec![] };
                b.extend_from_slice(&data);
                vec![dataframe(&Frame::new(true, c.op, b))]
            };
            let mut d = vec![];
            d.extend(name(OwnedMessage::from_dataframes(one()).map(|_| ())));
            d.extend(name(Message::from_dataframes(one()).map(|_| ())));
            Some((format!("{:?}: text of op {}", c.api, c.op), r.end, d, true))
        }
    }
}
fn m05_violation(c: &ViolCase, o: &mut Obs) -> Res {
    let Violation { frames, start, inside, direct, class } = build_violation(c);
    let bytes = gen::wire(&frames);
    let e = rfc::reassemble(&frames, c.role.expects_mask());
    if e.error.map_or(true, |x| x.0 < start) {
        inconclusive!("the generated violation is none");
    }
    let gates = if c.gates && c.api.is_sync() { gen::ends(&frames) } else { vec![] };
    let r = receive(c.api, c.role, &bytes, &c.plan, &gates, None);
    let f = failed(&r.end, &e, c.api.is_sync());
    if let Err(m) = e.judge(&r.msgs, f) {
        fail!("{:?}: {}: {} (end {:?})", c.api, class, m, r.end);
    }
    if let Some(d) = direct {
        let dfs = || d.iter().map(dataframe).collect::<Vec<_>>();
        ensure!(OwnedMessage::from_dataframes(dfs()).is_err(), "owned message formed from frames: {}", class);
        ensure!(Message::from_dataframes(dfs()).is_err(), "message formed from frames: {}", class);
    }
    o.class(class);
    o.class_if(inside, "inside an unfinished message");
    o.class(format!("{:?}/{:?}", c.api, c.role));
    o.nontrivial(true);
    Ok(())
}

// ------------------------------------------------------------------------------- M06

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SizeCase {
    api: RxApi,
    role: Role,
    max: u32,
    /// fragment sizes: (mode, value): absolute, or relative to what remains below the maximum
    frags: Vec<(u8, u16)>,
    last: u16,
    text: bool,
    ctl: Vec<(u8, GMsg)>,
    before: Option<GMsg>,
    after: bool,
    seed: u32,
    plan: Vec<u8>,
    gates: bool,
}
fn size_case() -> BoxedStrategy<SizeCase> {
    (
        (select(ALL_RX.to_vec()), role()),
        dict::ints(prop_oneof![3 => 0u32..300, 2 => 0u32..3000, 1 => 0u32..70_000].boxed(), 0, 300_000, |n, _| n as u32),
        gen::many((0u8..4, prop_oneof![3 => 0u16..4, 1 => 0u16..100, 1 => any::<u16>()]), 1..9, 400),
        prop_oneof![0u16..5, any::<u16>()],
        any::<bool>(),
        vec((0u8..9, gen::ctl()), 0..4),
        proptest::option::of(gen::data_msg(false)),
        any::<bool>(),
        any::<u32>(),
        (fast_plan(), any::<bool>()),
    )
        .prop_map(|((api, role), max, frags, last, text, ctl, before, after, seed, (plan, gates))| SizeCase {
            api, role, max, frags, last, text, ctl, before, after, seed, plan, gates,
        })
        .boxed()
}
/// thousands of fragments around the limit
fn swarm_case() -> BoxedStrategy<SizeCase> {
    (
        (select(ALL_RX.to_vec()), role()),
        dict::ints(prop_oneof![4 => 20usize..3000, 1 => 3000usize..20_000].boxed(), 20, 20_000, |n, _| n as usize),
        prop_oneof![1 => Just(0u16), 2 => 1u16..20, 1 => 20u16..299],
        // where the limit is: by payload alone, or with bookkeeping
        (any::<bool>(), -3i64..4, any::<u16>()),
        any::<bool>(),
        any::<u32>(),
        any::<bool>(),
    )
        .prop_map(|((api, role), n, size, (books, d, at), text, seed, slow)| {
            let k = 1 + (at as usize * n >> 16);
            let max = if books { k as i64 * (size as i64 + 64) + d } else { (k as i64 * size as i64 + d).max(0) };
            SizeCase {
                api,
                role,
                max: max.max(0) as u32,
                frags: vec![(0, size); n],
                last: size % 7,
                text,
                ctl: vec![],
                before: None,
                after: true,
                seed,
                plan: if slow { vec![255] } else { vec![] },
                gates: false,
            }
        })
        .boxed()
}
fn m06_size(c: &SizeCase, o: &mut Obs) -> Res {
    let max = c.max as i64;
    let mut frames: Vec<Frame> = vec![];
    let mut nbefore = 0;
    if let Some(m) = &c.before {
        frames.push(m.msg().frame());
        nbefore += 1;
    }
    let mut sum: i64 = 0;
    let mut must_reject_from = None; // index of the non-final fragment that exceeds the maximum
    let mut must_accept = true;
    let first = frames.len();
    for (i, (mode, v)) in c.frags.iter().enumerate() {
        for (_, m) in c.ctl.iter().filter(|(k, _)| *k as usize == i && i > 0) {
            frames.push(m.msg().frame());
        }
        let n = i as i64 + 1;
        let len = match mode {
            0 => *v as i64 % 300,
            // just below / above the limit by payload alone
            1 => (max - sum + 1 - (*v as i64 % 4)).max(0),
            // just below / above the limit with bookkeeping
            2 => (max - sum - 64 * n + 1 - (*v as i64 % 5)).max(0),
            _ => (*v as i64).min(max / 2),
        };
        sum += len;
        frames.push(Frame::new(false, if i == 0 { if c.text { 1 } else { 2 } } else { 0 }, vec![b'a'; len as usize]));
        if sum > max && must_reject_from.is_none() {
            must_reject_from = Some(frames.len() - 1);
        }
        if sum + 64 * n >= max {
            must_accept = false;
        }
    }
    frames.push(Frame::new(true, 0, vec![b'z'; c.last as usize]));
    let fin = frames.len() - 1;
    if c.after {
        frames.push(Frame::new(true, 2, vec![5; 5]));
    }
    gen::mask_frames(&mut frames, c.role.expects_mask(), c.seed);
    let bytes = gen::wire(&frames);
    let e = rfc::reassemble(&frames, c.role.expects_mask());
    let gates = if c.gates && c.api.is_sync() { gen::ends(&frames) } else { vec![] };
    let r = receive(c.api, c.role, &bytes, &c.plan, &gates, Some((u32::MAX as u64, c.max as u64)));
    let failed = matches!(r.end, End::Err(_));
    // whatever is delivered is the expected sequence
    for (i, m) in r.msgs.iter().enumerate() {
        ensure!(e.msgs.get(i) == Some(m), "{:?}: message {} is {}", c.api, i, m.brief());
    }
    let big_at = e.at.iter().position(|a| *a == fin);
    let got_big = big_at.map_or(false, |k| r.msgs.len() > k);
    let floor = e.at.iter().filter(|a| **a < must_reject_from.unwrap_or(fin)).count();
    ensure!(r.msgs.len() >= floor.min(e.at.iter().filter(|a| **a < first).count()), "messages before the big one lost");
    if let Some(at) = must_reject_from {
        ensure!(
            !got_big,
            "{:?}: a message is delivered although its fragments exceed the maximum of {} already in frame {} (total {})",
            c.api, c.max, at - first, sum
        );
        ensure!(failed, "{:?}: fragments over the maximum of {} end with {:?}", c.api, c.max, r.end);
        o.class("over the maximum");
    } else if must_accept {
        ensure!(
            r.msgs == e.msgs && r.end == End::Eof,
            "{:?}: message refused although its fragments stay below the maximum of {}: {} of {} messages, {:?}",
            c.api, c.max, r.msgs.len(), e.msgs.len(), r.end
        );
        o.class("below the maximum");
    } else {
        ensure!(failed || r.msgs == e.msgs, "{:?}: neither refused nor delivered", c.api);
        o.class("in between");
    }
    let _ = nbefore;
    o.class(format!("{:?}", c.api));
    o.nontrivial(true);
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct CountCase {
    api: RxApi,
    over: i32,
    ctl: bool,
    one_byte_every: u32,
}
const CAP: usize = 1024 * 1024;
fn m06_count(c: &CountCase, o: &mut Obs) -> Res {
    let n = (CAP as i64 + c.over as i64) as usize;
    let mut bytes: Vec<u8> = Vec::with_capacity(2 * n + 10);
    let mut sum = 0usize;
    for i in 0..n {
        let fin = i == n - 1;
        let b0 = if fin { 0x80 } else { 0 } | if i == 0 { 2 } else { 0 };
        if c.one_byte_every > 0 && i % c.one_byte_every as usize == 0 {
            bytes.extend_from_slice(&[b0, 1, 7]);
            sum += 1;
        } else {
            bytes.extend_from_slice(&[b0, 0]);
        }
        if c.ctl && i == n / 2 {
            bytes.extend_from_slice(&[0x89, 0]);
        }
    }
    let r = receive(c.api, Role::Client, &bytes, &[], &[], Some((1000, u32::MAX as u64)));
    let data = r.msgs.iter().filter(|m| !m.is_control()).count();
    if c.over > 0 {
        ensure!(data == 0, "{:?}: a message of {} frames is delivered", c.api, n);
        ensure!(matches!(r.end, End::Err(_)), "{:?}: a message of {} frames ends with {:?}", c.api, n, r.end);
        o.class("over the frame cap");
    } else {
        ensure!(
            data == 1 && r.msgs.last() == Some(&Msg::Binary(vec![7; sum])),
            "{:?}: a message of {} frames is refused: {:?}", c.api, n, r.end
        );
        o.class("at the frame cap");
    }
    o.class(format!("{:?}", c.api));
    o.nontrivial(true);
    Ok(())
}

// ------------------------------------------------------------------------------- M07

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Conv {
    m: GMsg,
    frame: (bool, [bool; 3], u8, Pay),
}
fn m07_conv(c: &Conv, o: &mut Obs) -> Res {
    let want = c.m.msg();
    let owned = to_owned(&want);
    let text = |b: &[u8]| String::from_utf8(b.to_vec()).unwrap();
    // borrowed constructors from borrowed data
    let p = want.payload();
    let reason;
    let borrowed: Message = match &want {
        Msg::Text(t) => {
            reason = text(t);
            Message::text(&reason[..])
        }
        Msg::Binary(b) => Message::binary(&b[..]),
        Msg::Ping(b) => Message::ping(&b[..]),
        Msg::Pong(b) => Message::pong(std::borrow::Cow::Borrowed(&b[..])),
        Msg::Close(None) => Message::close(),
        Msg::Close(Some((code, r))) => {
            reason = text(r);
            Message::close_because(*code, &reason[..])
        }
    };
    let from_owned_data = to_message(&want);
    ensure!(borrowed == from_owned_data, "constructors from borrowed and owned data differ");
    let ty = match &want {
        Msg::Text(_) => Type::Text,
        Msg::Binary(_) => Type::Binary,
        Msg::Ping(_) => Type::Ping,
        Msg::Pong(_) => Type::Pong,
        Msg::Close(_) => Type::Close,
    };
    ensure!(borrowed.opcode == ty, "kind {:?} became {:?}", ty, borrowed.opcode);
    ensure!(ty as u8 == want.op(), "kind {:?} has number {}", ty, ty as u8);
    let code = match &want {
        Msg::Close(Some((c, _))) => Some(*c),
        _ => None,
    };
    ensure!(borrowed.cd_status_code == code, "status code {:?}", borrowed.cd_status_code);
    // conversions
    let b2o = OwnedMessage::from(borrowed.clone());
    ensure!(b2o == owned, "borrowed to owned: {} became {}", want.brief(), from_owned(&b2o).brief());
    let o2b = Message::from(owned.clone());
    ensure!(o2b == borrowed, "owned to borrowed: kind {:?} code {:?} payload {}", o2b.opcode, o2b.cd_status_code, o2b.payload.len());
    ensure!(OwnedMessage::from(o2b.clone()) == owned, "owned round trip");
    match &want {
        Msg::Text(t) => ensure!(OwnedMessage::from(text(t)) == owned, "from string"),
        Msg::Binary(b) => ensure!(OwnedMessage::from(b.clone()) == owned, "from bytes"),
        _ => {}
    }
    // predicates
    let k = want.op();
    ensure!(owned.is_close() == (k == 8), "is_close of op {}", k);
    ensure!(owned.is_ping() == (k == 9), "is_ping of op {}", k);
    ensure!(owned.is_pong() == (k == 10), "is_pong of op {}", k);
    ensure!(owned.is_control() == (k >= 8), "is_control of op {}", k);
    ensure!(owned.is_data() == (k < 8), "is_data of op {}", k);
    // as data frames
    fn as_frame<D: DataFrameTrait>(d: &D, want: &Msg, what: &str) -> Res {
        ensure!(d.is_last(), "{}: not final", what);
        ensure!(d.opcode() == want.op(), "{}: opcode {}", what, d.opcode());
        ensure!(*d.reserved() == [false; 3], "{}: reserved bits", what);
        ensure!(d.size() == want.payload().len(), "{}: size {} of {}", what, d.size(), want.payload().len());
        let mut v = vec![];
        match d.write_payload(&mut v) {
            Ok(()) => ensure!(v == want.payload(), "{}: written payload differs", what),
            Err(e) => fail!("{}: {}", what, err_name(&e)),
        }
        Ok(())
    }
    as_frame(&owned, &want, "owned")?;
    as_frame(&borrowed, &want, "borrowed")?;
    ensure!(owned.clone().take_payload() == p, "owned take_payload differs from what is sent");
    ensure!(borrowed.clone().take_payload() == p, "borrowed take_payload differs from what is sent");
    if let Msg::Close(Some((c, r))) = &want {
        match CloseData::new(*c, text(r)).into_bytes() {
            Ok(b) => ensure!(b == p, "close data bytes {:02x?}, expected {:02x?}", b, p),
            Err(e) => fail!("close data: {}", e),
        }
    }
    // ping to pong
    let mut m = borrowed.clone();
    let r = m.into_pong();
    if k == 9 {
        ensure!(r == Ok(()), "into_pong of a ping fails");
        ensure!(m == Message::pong(p.clone()), "into_pong changed the data");
    } else {
        ensure!(r == Err(()), "into_pong of op {} succeeds", k);
        ensure!(m == borrowed, "into_pong changed a message of op {}", k);
    }
    // low-level frames
    let (fin, rsv, op, fp) = &c.frame;
    let f = Frame { fin: *fin, rsv: *rsv, op: *op, mask: None, payload: fp.bytes() };
    let d = dataframe(&f);
    ensure!(d.opcode as u8 == *op, "opcode {} became {}", op, d.opcode as u8);
    ensure!(
        d.is_last() == *fin && DataFrameTrait::opcode(&d) == *op && d.reserved() == rsv && d.size() == fp.len(),
        "frame accessors differ"
    );
    let mut v = vec![];
    ensure!(d.write_payload(&mut v).is_ok() && v == f.payload, "frame payload differs");
    ensure!(d.take_payload() == f.payload, "frame take_payload differs");
    let n = websocket::dataframe::DataFrame::new(*fin, websocket::dataframe::Opcode::new(*op).unwrap(), f.payload.clone());
    ensure!(n.reserved == [false; 3] && n.finished == *fin && n.data == f.payload, "DataFrame::new");
    ensure!(
        (16u16..256).all(|x| websocket::dataframe::Opcode::new(x as u8).is_none()),
        "an opcode above 15 exists"
    );
    o.class(format!("op{}", k));
    o.nontrivial(!p.is_empty());
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "M01",
            level: "exploration",
            assumptions: &["payloads up to 20 MB, mostly below 140 kB"],
            suites: vec![
                suite(
                    "send",
                    "1-5 messages of every kind, owned or borrowed, through one of 7 sending APIs in either role, then received by the peer through one of 9",
                    opts(120_000, 3_000_000),
                    send_case,
                    m01_send,
                ),
                suite(
                    "large",
                    "as send, with a message of up to 20 MB",
                    opts(200, 5_000).shrink(200),
                    || {
                        (select(ALL_TX.to_vec()), select(ALL_RX.to_vec()), role(), gen::huge_data(), vec(gen::gmsg(false), 0..2), any::<bool>(), gen::huge_plan(), gen::huge_plan())
                            .prop_map(|(tx, rx, role, m, others, owned, mut wplan, rplan)| {
                                if wplan.len() > 1 {
                                    wplan = vec![7, 255, 0];
                                }
                                let mut items: Vec<_> = others.into_iter().map(|m| (m, !owned)).collect();
                                items.push((m, owned));
                                SendCase { tx, rx, role, items, wplan, rplan }
                            })
                            .boxed()
                    },
                    m01_send,
                ),
                suite(
                    "long",
                    "as send, with up to 600 messages on one connection",
                    opts(4_000, 100_000).shrink(300),
                    || {
                        (select(ALL_TX.to_vec()), select(ALL_RX.to_vec()), role(), vec((gen::gmsg(false), any::<bool>()), 1..6), 10u16..200, fast_plan(), fast_plan())
                            .prop_map(|(tx, rx, role, pattern, times, wplan, rplan)| LongSend { tx, rx, role, pattern, times, wplan, rplan })
                            .boxed()
                    },
                    |c: &LongSend, o: &mut Obs| {
                        let items: Vec<_> = (0..c.times).flat_map(|_| c.pattern.iter().cloned()).collect();
                        m01_send(&SendCase { tx: c.tx, rx: c.rx, role: c.role, items, wplan: c.wplan.clone(), rplan: c.rplan.clone() }, o)
                    },
                ),
            ],
        },
        Prop {
            id: "M02",
            level: "exploration",
            assumptions: &["would-block only between frames (a blocking receiver cannot resume inside one)"],
            suites: vec![
                suite(
                    "history",
                    "0-8 control and data messages, data cut into up to 7 fragments with control frames between, received through one of 7 blocking APIs with scripted chunking, interruptions and would-block at frame ends; non-trivial: a fragmented message or several messages",
                    opts(160_000, 4_000_000),
                    || hist(SYNC_RX),
                    m02_history,
                ),
                suite(
                    "long",
                    "as history, with up to 1200 items and a message of up to 2500 fragments; non-trivial: as history",
                    opts(6_000, 150_000).shrink(300),
                    || long(SYNC_RX),
                    |c: &Long, o: &mut Obs| m02_history(&c.hist(), o),
                ),
                suite(
                    "large",
                    "as history, with a message of up to 20 MB; non-trivial: as history",
                    opts(200, 5_000).shrink(200),
                    || {
                        (select(SYNC_RX.to_vec()), role(), gen::huge_items(), any::<u32>(), gen::huge_plan(), any::<u32>(), 0u8..3)
                            .prop_map(|(api, role, items, seed, plan, gates, open)| Hist { api, role, items, seed, plan, gates, open })
                            .boxed()
                    },
                    m02_history,
                ),
            ],
        },
        Prop {
            id: "M03",
            level: "exploration",
            assumptions: &[],
            suites: vec![
                suite(
                    "chunks",
                    "a valid history cut anywhere near its end, decoded under a generated chunking, byte by byte and in one piece; non-trivial: a message and several frames",
                    opts(80_000, 2_000_000),
                    || {
                        let items = prop_oneof![
                            4 => (vec(gen::item(false), 0..7), plan()),
                            1 => (vec(gen::item(true), 1..4), fast_plan()),
                        ];
                        (role(), items, any::<u32>(), prop_oneof![Just(0u16), any::<u16>()], prop_oneof![3 => Just(0u8), 1 => 1u8..4])
                            .prop_map(|(role, (items, plan), seed, cut, open)| Chunks { role, items, seed, plan, cut, open })
                            .boxed()
                    },
                    m03_chunks,
                ),
                suite(
                    "long",
                    "as chunks, with up to 1200 items and a message of up to 2500 fragments; non-trivial: as chunks",
                    opts(2_000, 50_000).shrink(300),
                    || long(ASYNC_RX),
                    |c: &Long, o: &mut Obs| {
                        let h = c.hist();
                        m03_chunks(&Chunks { role: h.role, items: h.items, seed: h.seed, plan: h.plan, cut: c.gates as u16, open: h.open }, o)
                    },
                ),
                suite(
                    "large",
                    "as chunks, with a message of up to 20 MB; non-trivial: as chunks",
                    opts(100, 3_000).shrink(200),
                    || {
                        (role(), gen::huge_items(), any::<u32>(), gen::huge_plan(), prop_oneof![Just(0u16), any::<u16>()], 0u8..3)
                            .prop_map(|(role, items, seed, plan, cut, open)| Chunks { role, items, seed, plan, cut, open })
                            .boxed()
                    },
                    m03_chunks,
                ),
                suite(
                    "agree",
                    "a valid history under 0-3 edits of bytes or frames: the asynchronous decoder under two chunkings, the framed endpoint, a blocking API and the reference model; non-trivial: invalid or several messages",
                    opts(80_000, 2_000_000),
                    agree,
                    m03_agree,
                ),
            ],
        },
        Prop {
            id: "M04",
            level: "exploration",
            assumptions: &[],
            suites: vec![suite(
                "utf8",
                "text, binary, close, ping and pong bodies of valid, truncated, overlong, surrogate and random byte sequences, cut anywhere; non-trivial: not plain ASCII",
                opts(240_000, 6_000_000),
                utf_case,
                m04_utf8,
            ),
            suite(
                "deep",
                "texts of 300 kB to 8 MB with an invalid sequence (or none) at their beginning or end; non-trivial: not plain ASCII",
                opts(300, 6000),
                deep_case,
                m04_deep,
            )],
        },
        Prop {
            id: "M05",
            level: "exploration",
            assumptions: &["a close body of one byte may be reported as missing data by the blocking receiver (an error, its kind is not claimed)"],
            suites: vec![suite(
                "violation",
                "a valid history, one protocol violation of 9 kinds (possibly inside an unfinished message), more valid items; through one of 9 receiving APIs and formed directly",
                opts(200_000, 5_000_000),
                viol_case,
                m05_violation,
            )],
        },
        Prop {
            id: "M06",
            level: "exploration",
            assumptions: &["limits below 4 GiB", "between payload sum and payload sum + 64 bytes per fragment either outcome is accepted"],
            suites: vec![
                suite(
                    "swarm",
                    "messages of up to 20,000 fragments around the limit; non-trivial as in the other suites",
                    opts(1_500, 80_000).shrink(200),
                    swarm_case,
                    m06_size,
                ),
                suite(
                    "size",
                    "fragment sizes around the maximum with and without the per-fragment bookkeeping, control frames between, through one of 9 receiving APIs",
                    opts(60_000, 1_500_000),
                    size_case,
                    m06_size,
                ),
                suite(
                    "count",
                    "messages of 1,048,576 frames and a few more or less",
                    opts(12, 80).shards(6).shrink(6),
                    || {
                        (select(vec![RxApi::Raw, RxApi::Codec, RxApi::Conn, RxApi::Framed]), -1i32..=3, any::<bool>(), prop_oneof![Just(0u32), 1000u32..50_000])
                            .prop_map(|(api, over, ctl, one_byte_every)| CountCase { api, over, ctl, one_byte_every })
                            .boxed()
                    },
                    m06_count,
                ),
            ],
        },
        Prop {
            id: "M07",
            level: "exploration",
            assumptions: &["text messages and close reasons hold valid UTF-8 (as every constructor ensures)"],
            suites: vec![suite(
                "conversions",
                "a message of every kind with boundary and random content, and a data frame; non-trivial: non-empty payload",
                opts(400_000, 10_000_000),
                || {
                    (gen::gmsg_value(), super::frames::any_frame(false)).prop_map(|(m, frame)| Conv { m, frame }).boxed()
                },
                m07_conv,
            )],
        },
    ]
}
#[allow(unused)]
fn unused() {
    let _ = Pipe::new();
    let _: Option<(Receiver, WebSocketError)> = None;
}
