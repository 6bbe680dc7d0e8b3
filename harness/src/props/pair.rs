//! C04: a pair of streams behaves as its halves do.
use crate::dict;
use crate::engine::*;
use bytes::{Bytes, IntoBuf};
use futures::{Async, Poll};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::io::{self, Read, Write};
use tokio_io::{AsyncRead, AsyncWrite};
use websocket::stream::sync::{ReadWritePair, Splittable};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Say {
    /// at most so many bytes
    Some(u16),
    Interrupted,
    WouldBlock,
    Broken,
}
impl Say {
    fn err(&self) -> io::Error {
        io::Error::new(
            match self {
                Say::Interrupted => io::ErrorKind::Interrupted,
                Say::WouldBlock => io::ErrorKind::WouldBlock,
                _ => io::ErrorKind::ConnectionAborted,
            },
            "scripted",
        )
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Read(u16),
    ReadExact(u16),
    ReadToEnd,
    ReadToString,
    Write(Vec<u8>),
    WriteAll(Vec<u8>),
    WriteFmt(String, i32),
    Flush,
    Shutdown,
    PollRead(u16),
    PollWrite(Vec<u8>),
    ReadBuf(u16),
    WriteBuf(Vec<u8>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    input: Vec<u8>,
    text: bool,
    reads: Vec<Say>,
    writes: Vec<Say>,
    flushes: Vec<Say>,
    ops: Vec<Op>,
    /// whether the reading half could write and the other way round
    split: bool,
}
fn say() -> BoxedStrategy<Say> {
    prop_oneof![8 => (1u16..300).prop_map(Say::Some), 1 => Just(Say::Interrupted), 1 => Just(Say::WouldBlock), 1 => Just(Say::Broken)].boxed()
}
fn data() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        6 => vec(any::<u8>(), 0..40),
        1 => dict::ints((0u16..20_000).boxed(), 0, 60_000, |n, _| n as u16).prop_map(|n| (0..n).map(|i| i as u8).collect::<Vec<u8>>()),
    ]
    .boxed()
}
fn case() -> BoxedStrategy<Case> {
    let n = || dict::ints((0u16..400).boxed(), 0, 60_000, |n, _| n as u16);
    let op = prop_oneof![
        3 => n().prop_map(Op::Read),
        2 => n().prop_map(Op::ReadExact),
        1 => Just(Op::ReadToEnd),
        1 => Just(Op::ReadToString),
        3 => data().prop_map(Op::Write),
        3 => data().prop_map(Op::WriteAll),
        1 => ("[ -~é]{0,30}", any::<i32>()).prop_map(|(s, n)| Op::WriteFmt(s, n)),
        2 => Just(Op::Flush),
        1 => Just(Op::Shutdown),
        2 => n().prop_map(Op::PollRead),
        2 => data().prop_map(Op::PollWrite),
        1 => (1u16..400).prop_map(Op::ReadBuf),
        1 => data().prop_map(Op::WriteBuf),
    ];
    (
        any::<bool>(),
        prop_oneof![3 => vec(any::<u8>(), 0..600), 1 => data()],
        vec(say(), 0..12),
        vec(say(), 0..12),
        vec(select(vec![Say::Some(1), Say::Some(1), Say::WouldBlock, Say::Broken]), 0..4),
        vec(op, 0..14),
        any::<bool>(),
    )
        .prop_map(|(text, mut input, reads, writes, flushes, ops, split)| {
            if text {
                input.iter_mut().for_each(|b| *b &= 0x7f);
            }
            Case { input, text, reads, writes, flushes, ops, split }
        })
        .boxed()
}
/// A half; `marks` makes the two halves differ in everything.
#[derive(Clone, Debug, PartialEq)]
struct Half {
    name: &'static str,
    input: VecDeque<u8>,
    out: Vec<u8>,
    reads: VecDeque<Say>,
    writes: VecDeque<Say>,
    flushes: VecDeque<Say>,
    calls: Vec<String>,
}
impl Read for Half {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.calls.push(format!("read {}", b.len()));
        let n = match self.reads.pop_front() {
            Some(Say::Some(n)) => n as usize,
            Some(s) => return Err(s.err()),
            None => usize::MAX,
        };
        let n = n.min(b.len()).min(self.input.len());
        for x in &mut b[..n] {
            *x = self.input.pop_front().unwrap();
        }
        Ok(n)
    }
}
impl Write for Half {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls.push(format!("write {}", b.len()));
        let n = match self.writes.pop_front() {
            Some(Say::Some(n)) => n as usize,
            Some(s) => return Err(s.err()),
            None => usize::MAX,
        };
        let n = n.min(b.len());
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.calls.push("flush".into());
        match self.flushes.pop_front() {
            None | Some(Say::Some(_)) => Ok(()),
            Some(s) => Err(s.err()),
        }
    }
}
impl AsyncRead for Half {}
impl AsyncWrite for Half {
    fn shutdown(&mut self) -> Poll<(), io::Error> {
        self.calls.push("shutdown".into());
        match self.flushes.pop_front() {
            None | Some(Say::Some(_)) => Ok(Async::Ready(())),
            Some(Say::WouldBlock) => Ok(Async::NotReady),
            Some(s) => Err(s.err()),
        }
    }
}
fn show<T: std::fmt::Debug>(r: io::Result<T>) -> String {
    match r {
        Ok(x) => format!("{:?}", x),
        Err(e) => format!("error {:?} {}", e.kind(), e),
    }
}
/// what the calls give, on one stream for both directions or on one for each
fn step<R: AsyncRead>(op: &Op, s: &mut R) -> Option<String> {
    Some(match op {
        Op::Read(n) => {
            let mut b = vec![0; *n as usize];
            let r = s.read(&mut b);
            format!("{} {:?}", show(r), b)
        }
        Op::ReadExact(n) => {
            let mut b = vec![0; *n as usize];
            let r = s.read_exact(&mut b);
            // what is in the buffer after an error is not said
            if r.is_ok() { format!("{:?}", b) } else { show(r) }
        }
        Op::ReadToEnd => {
            let mut b = vec![1, 2];
            let r = s.read_to_end(&mut b);
            format!("{} {:?}", show(r), b)
        }
        Op::ReadToString => {
            let mut b = String::from("x");
            let r = s.read_to_string(&mut b);
            format!("{} {:?}", show(r), b)
        }
        Op::PollRead(n) => {
            let mut b = vec![0; *n as usize];
            let r = s.poll_read(&mut b);
            format!("{} {:?}", show(r), b)
        }
        Op::ReadBuf(n) => {
            let mut b = bytes::BytesMut::with_capacity(*n as usize);
            let r = s.read_buf(&mut b);
            format!("{} {:?}", show(r), b)
        }
        _ => return None,
    })
}
fn wstep<W: AsyncWrite>(op: &Op, s: &mut W) -> Option<String> {
    Some(match op {
        Op::Write(b) => show(s.write(b)),
        Op::WriteAll(b) => show(s.write_all(b)),
        Op::WriteFmt(t, n) => show(s.write_fmt(format_args!("{}: {:+}!", t, n))),
        Op::Flush => show(s.flush()),
        Op::Shutdown => show(s.shutdown()),
        Op::PollWrite(b) => show(s.poll_write(b)),
        Op::WriteBuf(b) => {
            let mut b = Bytes::from(b.clone()).into_buf();
            let r = s.write_buf(&mut b);
            format!("{} {}", show(r), b.position())
        }
        _ => return None,
    })
}
fn pair(c: &Case, o: &mut Obs) -> Res {
    let half = |name: &'static str, input: &[u8], reads: &[Say], writes: &[Say], flushes: &[Say]| Half {
        name,
        input: input.iter().copied().collect(),
        out: vec![],
        reads: reads.iter().cloned().collect(),
        writes: writes.iter().cloned().collect(),
        flushes: flushes.iter().cloned().collect(),
        calls: vec![],
    };
    // the other direction of each half must stay untouched
    let r = half("reader", &c.input, &c.reads, &[Say::Broken], &[Say::Broken]);
    let w = half("writer", b"the wrong half", &[], &c.writes, &c.flushes);
    let (mut r1, mut w1) = (r.clone(), w.clone());
    let mut p = ReadWritePair(r, w);
    for (i, op) in c.ops.iter().enumerate() {
        let got = step(op, &mut p).or_else(|| wstep(op, &mut p));
        let want = step(op, &mut r1).or_else(|| wstep(op, &mut w1));
        ensure!(got == want, "call {}: a pair gives {:.300?} where its half gives {:.300?}", i, got, want);
        // how the default methods divide the work is their own business, what has moved is not
        ensure!(p.0.input == r1.input, "call {}: {} bytes are left to read, {} without a pair", i, p.0.input.len(), r1.input.len());
        ensure!(p.1.out == w1.out, "call {}: {} bytes are written, {} without a pair", i, p.1.out.len(), w1.out.len());
        let count = |h: &Half, what: &str| h.calls.iter().filter(|c| *c == what).count();
        for what in ["flush", "shutdown"] {
            ensure!(count(&p.1, what) == count(&w1, what), "call {}: {} {}s reach the writing half instead of {}", i, count(&p.1, what), what, count(&w1, what));
            ensure!(count(&p.0, what) == 0, "call {}: a {} reaches the reading half", i, what);
        }
        ensure!(p.0.out.is_empty() && !p.0.calls.iter().any(|c| c.starts_with("write")), "call {}: the reading half is written to", i);
        ensure!(!p.1.calls.iter().any(|c| c.starts_with("read")), "call {}: the writing half is read from", i);
        o.class(format!("{:?}", op).split('(').next().unwrap().to_string());
        o.class_if(want.map_or(false, |w| w.starts_with("error")), "error");
    }
    if c.split {
        let (a, b) = (p.0.clone(), p.1.clone());
        match Splittable::split(p) {
            Ok((x, y)) => ensure!(x == a && y == b, "splitting a pair gives {} and {}", x.name, y.name),
            Err(e) => fail!("splitting a pair fails: {}", e),
        }
    }
    o.nontrivial(c.ops.len() >= 2);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C04",
        level: "1",
        assumptions: &[],
        suites: vec![suite(
            "calls",
            "sequences of every reading and writing call on a pair of scripted halves (piecemeal, interrupted, would-block, broken), compared call by call with the halves themselves; non-trivial: two calls or more",
            opts(80_000, 4_000_000),
            case,
            pair,
        )],
    }]
}
