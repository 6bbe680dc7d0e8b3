//! In-memory transports with scripted chunking, hiccups and faults, for blocking and async use.
use futures::executor::{spawn, Notify, Spawn};
use futures::{Async, AsyncSink, Future, Poll, Sink, Stream};
use std::collections::VecDeque;
use std::io::{self, Read, Write};
use std::sync::{Arc, Mutex, MutexGuard};
use tokio_io::{AsyncRead, AsyncWrite};

#[derive(Default)]
pub struct PipeState {
    pub data: VecDeque<u8>,
    pub closed: bool,
    pub total_in: usize,
    pub total_out: usize,
    pub eof_reads: u32,
    pub flushes: u32,
    pub shutdowns: u32,
}

/// One direction of a connection.
#[derive(Clone, Default)]
pub struct Pipe(Arc<Mutex<PipeState>>);
impl Pipe {
    pub fn new() -> Pipe {
        Pipe::default()
    }
    pub fn with(data: &[u8]) -> Pipe {
        let p = Pipe::new();
        p.push(data);
        p
    }
    pub fn closed_with(data: &[u8]) -> Pipe {
        let p = Pipe::with(data);
        p.close();
        p
    }
    pub fn lock(&self) -> MutexGuard<'_, PipeState> {
        match self.0.lock() {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        }
    }
    pub fn push(&self, d: &[u8]) {
        let mut g = self.lock();
        g.data.extend(d.iter());
        g.total_in += d.len();
    }
    pub fn close(&self) {
        self.lock().closed = true;
    }
    pub fn is_closed(&self) -> bool {
        self.lock().closed
    }
    pub fn take(&self) -> Vec<u8> {
        let mut g = self.lock();
        let v: Vec<u8> = g.data.drain(..).collect();
        g.total_out += v.len();
        v
    }
    pub fn peek(&self) -> Vec<u8> {
        self.lock().data.iter().copied().collect()
    }
    pub fn len(&self) -> usize {
        self.lock().data.len()
    }
    pub fn total_out(&self) -> usize {
        self.lock().total_out
    }
}

/// Cyclic script of transfer sizes. 0 is a hiccup (interrupted / would block), 1..=199 that many
/// bytes, 200..=249 a multiple of 100 bytes, 250..=253 up to the first to fourth structural mark ahead
/// (no limit without marks), 254 and 255 no limit.
#[derive(Clone, Default, Debug)]
pub struct Plan {
    steps: Vec<u8>,
    at: usize,
    /// ascending absolute offsets of structural boundaries
    pub marks: Vec<usize>,
    mark_at: usize,
}
pub enum Step {
    Hiccup,
    Up(usize),
}
impl Plan {
    pub fn new(steps: &[u8]) -> Plan {
        Plan {
            steps: steps.to_vec(),
            at: 0,
            marks: vec![],
            mark_at: 0,
        }
    }
    pub fn next_step(&mut self) -> Step {
        self.next(0)
    }
    /// the next step when `pos` bytes were transferred
    pub fn next(&mut self, pos: usize) -> Step {
        if self.steps.is_empty() || self.steps.iter().all(|s| *s == 0) {
            return Step::Up(usize::MAX);
        }
        let s = self.steps[self.at % self.steps.len()];
        self.at += 1;
        match s {
            0 => Step::Hiccup,
            1..=199 => Step::Up(s as usize),
            200..=249 => Step::Up((s as usize - 199) * 100),
            250..=253 if !self.marks.is_empty() => {
                while self.mark_at < self.marks.len() && self.marks[self.mark_at] <= pos {
                    self.mark_at += 1;
                }
                match self.marks.get(self.mark_at + s as usize - 250) {
                    Some(m) => Step::Up(m - pos),
                    None => Step::Up(usize::MAX),
                }
            }
            254 => Step::Up(70_001),
            _ => Step::Up(usize::MAX),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Blocking,
    Async,
}

pub const FAULTS: &[io::ErrorKind] = &[
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::TimedOut,
    io::ErrorKind::Other,
    io::ErrorKind::PermissionDenied,
];

/// A stream end with scripted behaviour.
pub struct Io {
    pub rx: Pipe,
    pub tx: Pipe,
    pub rplan: Plan,
    pub wplan: Plan,
    pub mode: Mode,
    /// absolute read offsets at which one would-block is reported (and which no read crosses)
    pub gates: Vec<usize>,
    /// absolute read offsets no read crosses
    pub walls: Vec<usize>,
    gate_at: usize,
    /// (offset, kind): reads fail once that many bytes were read
    pub rfail: Option<(usize, io::ErrorKind)>,
    /// (offset, kind): writes fail once that many bytes were accepted; WriteZero means Ok(0)
    pub wfail: Option<(usize, io::ErrorKind)>,
    /// no read hiccups before this many bytes were read (blocking handshakes do not retry)
    pub calm_until: usize,
    pub nread: usize,
    pub nwritten: usize,
}
impl Io {
    pub fn new(rx: &Pipe, tx: &Pipe, mode: Mode) -> Io {
        Io {
            rx: rx.clone(),
            tx: tx.clone(),
            rplan: Plan::default(),
            wplan: Plan::default(),
            mode,
            gates: vec![],
            walls: vec![],
            gate_at: 0,
            rfail: None,
            wfail: None,
            calm_until: 0,
            nread: 0,
            nwritten: 0,
        }
    }
    pub fn plans(mut self, r: &[u8], w: &[u8]) -> Io {
        self.rplan = Plan::new(r);
        self.wplan = Plan::new(w);
        self
    }
    fn hiccup(&self) -> io::Error {
        match self.mode {
            Mode::Blocking => io::Error::new(io::ErrorKind::Interrupted, "scripted interruption"),
            Mode::Async => io::Error::new(io::ErrorKind::WouldBlock, "scripted not ready"),
        }
    }
}

impl Read for Io {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if let Some((at, kind)) = self.rfail {
            if self.nread >= at {
                return Err(io::Error::new(kind, "scripted read fault"));
            }
        }
        let lim = match self.rplan.next(self.nread) {
            Step::Hiccup if self.nread >= self.calm_until => return Err(self.hiccup()),
            Step::Hiccup => 1,
            Step::Up(n) => n,
        };
        while self.gate_at < self.gates.len() && self.gates[self.gate_at] < self.nread {
            self.gate_at += 1;
        }
        let mut n = lim.min(buf.len());
        if self.gate_at < self.gates.len() {
            let g = self.gates[self.gate_at];
            if g == self.nread {
                self.gate_at += 1;
                return Err(io::Error::new(io::ErrorKind::WouldBlock, "scripted would-block"));
            }
            n = n.min(g - self.nread);
        }
        if let Some((at, _)) = self.rfail {
            n = n.min(at - self.nread);
        }
        for w in &self.walls {
            if *w > self.nread {
                n = n.min(*w - self.nread);
            }
        }
        let mut g = self.rx.lock();
        if g.data.is_empty() {
            if g.closed {
                g.eof_reads += 1;
                if g.eof_reads > 20_000 {
                    drop(g);
                    panic!("endless loop: stream read over and over after its end");
                }
                return Ok(0);
            }
            return Err(io::Error::new(io::ErrorKind::WouldBlock, "no data yet"));
        }
        let n = n.min(g.data.len());
        let (a, b) = g.data.as_slices();
        let k = n.min(a.len());
        buf[..k].copy_from_slice(&a[..k]);
        buf[k..n].copy_from_slice(&b[..n - k]);
        g.data.drain(..n);
        g.total_out += n;
        self.nread += n;
        Ok(n)
    }
}
impl Write for Io {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if let Some((at, kind)) = self.wfail {
            if self.nwritten >= at {
                if kind == io::ErrorKind::WriteZero {
                    return Ok(0);
                }
                return Err(io::Error::new(kind, "scripted write fault"));
            }
        }
        let lim = match self.wplan.next(self.nwritten) {
            Step::Hiccup => return Err(self.hiccup()),
            Step::Up(n) => n,
        };
        let mut n = lim.min(buf.len());
        if let Some((at, _)) = self.wfail {
            n = n.min(at - self.nwritten);
        }
        self.tx.push(&buf[..n]);
        self.nwritten += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.tx.lock().flushes += 1;
        Ok(())
    }
}
impl AsyncRead for Io {}
impl AsyncWrite for Io {
    fn shutdown(&mut self) -> Poll<(), io::Error> {
        let mut g = self.tx.lock();
        g.shutdowns += 1;
        g.closed = true;
        Ok(Async::Ready(()))
    }
}
impl Drop for Io {
    fn drop(&mut self) {
        self.tx.close();
    }
}

// ---------------------------------------------------------------- driving futures by hand

struct Noop;
impl Notify for Noop {
    fn notify(&self, _id: usize) {}
}
fn noop() -> Arc<Noop> {
    thread_local!(static N: Arc<Noop> = Arc::new(Noop));
    N.with(|n| n.clone())
}

#[derive(Debug)]
pub enum Driven<T, E> {
    Ok(T),
    Err(E),
    /// not ready although polled again and again with all input available
    Stall,
}
impl<T, E> Driven<T, E> {
    pub fn kind(&self) -> &'static str {
        match self {
            Driven::Ok(_) => "ok",
            Driven::Err(_) => "err",
            Driven::Stall => "stall",
        }
    }
}

pub fn drive<F: Future>(f: F, polls: usize) -> Driven<F::Item, F::Error> {
    let mut s = spawn(f);
    for _ in 0..polls {
        match s.poll_future_notify(&noop(), 0) {
            Ok(Async::Ready(v)) => return Driven::Ok(v),
            Ok(Async::NotReady) => {}
            Err(e) => return Driven::Err(e),
        }
    }
    Driven::Stall
}

/// A hand-polled stream + sink.
pub struct Hand<S> {
    pub inner: Spawn<S>,
}
impl<S> Hand<S> {
    pub fn new(s: S) -> Hand<S> {
        Hand { inner: spawn(s) }
    }
    pub fn into_inner(self) -> S {
        self.inner.into_inner()
    }
}
impl<S: Stream> Hand<S> {
    /// polls once
    pub fn poll_item(&mut self) -> Poll<Option<S::Item>, S::Error> {
        self.inner.poll_stream_notify(&noop(), 0)
    }
    /// polls up to `n` times for an item
    pub fn next(&mut self, n: usize) -> Driven<Option<S::Item>, S::Error> {
        for _ in 0..n {
            match self.poll_item() {
                Ok(Async::Ready(v)) => return Driven::Ok(v),
                Ok(Async::NotReady) => {}
                Err(e) => return Driven::Err(e),
            }
        }
        Driven::Stall
    }
}
impl<S: Sink> Hand<S> {
    pub fn send(&mut self, item: S::SinkItem, n: usize) -> Driven<(), S::SinkError> {
        let mut item = Some(item);
        for _ in 0..n {
            match self.inner.start_send_notify(item.take().unwrap(), &noop(), 0) {
                Ok(AsyncSink::Ready) => return Driven::Ok(()),
                Ok(AsyncSink::NotReady(i)) => item = Some(i),
                Err(e) => return Driven::Err(e),
            }
        }
        Driven::Stall
    }
    pub fn flush(&mut self, n: usize) -> Driven<(), S::SinkError> {
        for _ in 0..n {
            match self.inner.poll_flush_notify(&noop(), 0) {
                Ok(Async::Ready(())) => return Driven::Ok(()),
                Ok(Async::NotReady) => {}
                Err(e) => return Driven::Err(e),
            }
        }
        Driven::Stall
    }
    pub fn close(&mut self, n: usize) -> Driven<(), S::SinkError> {
        for _ in 0..n {
            match self.inner.close_notify(&noop(), 0) {
                Ok(Async::Ready(())) => return Driven::Ok(()),
                Ok(Async::NotReady) => {}
                Err(e) => return Driven::Err(e),
            }
        }
        Driven::Stall
    }
}
