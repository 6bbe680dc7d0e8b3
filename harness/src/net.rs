//! Real sockets on the loopback: patience, raw peers, runtimes, certificates.
use crate::engine::*;
use crate::rfc::{self, Dec, Frame};
use futures::Future;
use native_tls::{Certificate, Identity, TlsAcceptor};
use std::io::{self, Read, Write};
use std::net::{Ipv4Addr, Shutdown, TcpListener, TcpStream};
use std::os::unix::io::AsRawFd;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
use std::sync::mpsc;
use std::time::{Duration, Instant};

/// how long a raw peer waits for bytes that are due
pub const WAIT: Duration = Duration::from_secs(5);

/// Runs a case in its own thread. What takes too long is tried again: only a case that stalls three
/// times in a row counts as one that never ends.
pub fn patient<C: Clone + Send + 'static>(c: &C, o: &mut Obs, f: fn(&C, &mut Obs) -> Res) -> Res {
    let mut last = Fail::Inconclusive("not run".into());
    let mut stalls = 0;
    // after a confirmed stall the smaller cases are not tried as patiently
    static STALLED: AtomicBool = AtomicBool::new(false);
    let (tries, secs) = if STALLED.load(Ordering::Relaxed) { (1, 8) } else { (3, 20) };
    for _ in 0..tries {
        let (tx, rx) = mpsc::channel();
        let c = c.clone();
        let th = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
            let mut o = Obs::default();
            let r = match no_panic(|| f(&c, &mut o)) {
                Ok(r) => r,
                Err(p) => Err(Fail::Violation(format!("panic: {}", p))),
            };
            let _ = tx.send((r, o));
        });
        if let Err(e) = th {
            last = Fail::Inconclusive(format!("no thread: {}", e));
            continue;
        }
        match rx.recv_timeout(Duration::from_secs(secs)) {
            Ok((Ok(()), ob)) => {
                o.absorb(ob);
                return Ok(());
            }
            Ok((Err(Fail::Inconclusive(m)), _)) => {
                if m.starts_with("stall") {
                    stalls += 1;
                }
                last = Fail::Inconclusive(m);
            }
            Ok((Err(v), ob)) => {
                o.absorb(ob);
                return Err(v);
            }
            Err(_) => {
                stalls += 1;
                last = Fail::Inconclusive("stall: the case does not end".into());
            }
        }
    }
    match last {
        Fail::Inconclusive(m) if stalls == tries => {
            STALLED.store(true, Ordering::Relaxed);
            Err(Fail::Violation(format!("{} ({} times)", m, tries)))
        }
        l => Err(l),
    }
}
pub fn stall<T>(what: &str) -> Result<T, Fail> {
    Err(Fail::Inconclusive(format!("stall: {}", what)))
}
pub fn env<T>(r: io::Result<T>, what: &str) -> Result<T, Fail> {
    r.map_err(|e| Fail::Inconclusive(format!("environment: {}: {}", what, e)))
}

/// A loopback address of its own for every case, so that ports never run out.
pub fn fresh_ip() -> Ipv4Addr {
    static N: AtomicU32 = AtomicU32::new(0);
    let n = N.fetch_add(1, Ordering::Relaxed).wrapping_add(std::process::id().wrapping_mul(7919)) % (60 << 16);
    Ipv4Addr::new(127, 32 + (n >> 16) as u8, (n >> 8) as u8, n as u8)
}
/// Closes without lingering in the kernel, once everything has been read.
pub fn no_linger(s: &TcpStream) {
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    // SAFETY: plain setsockopt on an open descriptor
    unsafe {
        libc::setsockopt(
            s.as_raw_fd(),
            libc::SOL_SOCKET,
            libc::SO_LINGER,
            &l as *const _ as *const libc::c_void,
            std::mem::size_of::<libc::linger>() as u32,
        );
    }
}
/// Two connected sockets.
pub fn tcp_pair() -> Result<(TcpStream, TcpStream), Fail> {
    let l = env(TcpListener::bind((fresh_ip(), 0)), "bind")?;
    let a = env(TcpStream::connect(env(l.local_addr(), "local_addr")?), "connect")?;
    let b = env(l.accept(), "accept")?.0;
    Ok((a, b))
}

/// A hand-made peer.
pub struct Raw<S> {
    pub s: S,
    pub buf: Vec<u8>,
    pub eof: bool,
}
pub fn raw(s: TcpStream) -> Raw<TcpStream> {
    let _ = s.set_read_timeout(Some(WAIT));
    let _ = s.set_write_timeout(Some(WAIT));
    let _ = s.set_nodelay(true);
    Raw { s, buf: vec![], eof: false }
}
impl<S: Read + Write> Raw<S> {
    /// reads once; false at the end of the stream
    fn more(&mut self, what: &str) -> Result<bool, Fail> {
        if self.eof {
            return Ok(false);
        }
        let mut b = [0u8; 16384];
        loop {
            return match self.s.read(&mut b) {
                Ok(0) => {
                    self.eof = true;
                    Ok(false)
                }
                Ok(n) => {
                    self.buf.extend_from_slice(&b[..n]);
                    Ok(true)
                }
                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,
                Err(ref e) if e.kind() == io::ErrorKind::WouldBlock || e.kind() == io::ErrorKind::TimedOut => {
                    stall(&format!("waiting for {}", what))
                }
                // a reset or a broken TLS session is an end as well
                Err(_) => {
                    self.eof = true;
                    Ok(false)
                }
            };
        }
    }
    pub fn need(&mut self, n: usize, what: &str) -> Result<Vec<u8>, Fail> {
        while self.buf.len() < n {
            if !self.more(what)? {
                return Err(Fail::Violation(format!("end of the stream while waiting for {}", what)));
            }
        }
        Ok(self.buf.drain(..n).collect())
    }
    pub fn head(&mut self, what: &str) -> Result<rfc::Head, Fail> {
        loop {
            if let Some(p) = self.buf.windows(4).position(|w| w == b"\r\n\r\n") {
                let b: Vec<u8> = self.buf.drain(..p + 4).collect();
                return rfc::parse_head(&b).map_err(|e| Fail::Violation(format!("{}: {}", what, e)));
            }
            if !self.more(what)? {
                return Err(Fail::Violation(format!("end of the stream while waiting for {}", what)));
            }
        }
    }
    pub fn frame(&mut self, what: &str) -> Result<Frame, Fail> {
        loop {
            match rfc::decode(&self.buf) {
                Dec::Frame(f, n) => {
                    self.buf.drain(..n);
                    return Ok(f);
                }
                Dec::Invalid(m) => return Err(Fail::Violation(format!("{}: bad frame: {}", what, m))),
                Dec::Incomplete => {}
            }
            if !self.more(what)? {
                return Err(Fail::Violation(format!("end of the stream while waiting for {}", what)));
            }
        }
    }
    /// reads to the end of the stream and returns what came before it
    pub fn end(&mut self, what: &str) -> Result<Vec<u8>, Fail> {
        while self.more(what)? {}
        Ok(std::mem::take(&mut self.buf))
    }
    pub fn put(&mut self, b: &[u8], what: &str) -> Res {
        match self.s.write_all(b).and_then(|()| self.s.flush()) {
            Ok(()) => Ok(()),
            Err(ref e) if e.kind() == io::ErrorKind::WouldBlock || e.kind() == io::ErrorKind::TimedOut => {
                stall(&format!("writing {}", what))
            }
            Err(e) => Err(Fail::Violation(format!("peer cannot write {}: {}", what, e))),
        }
    }
}
impl Raw<TcpStream> {
    /// nothing has ended the stream so far (and nothing unread but what is buffered)
    pub fn ended_now(&mut self) -> bool {
        let mut b = [0u8; 1];
        let _ = self.s.set_nonblocking(true);
        let r = self.s.peek(&mut b);
        let _ = self.s.set_nonblocking(false);
        matches!(r, Ok(0)) || matches!(r, Err(ref e) if e.kind() != io::ErrorKind::WouldBlock)
    }
    pub fn finish(&self) {
        let _ = self.s.shutdown(Shutdown::Write);
    }
    /// closes with a reset
    pub fn reset(self) {
        no_linger(&self.s);
    }
}
/// whether the socket is in non-blocking mode
pub fn is_nonblocking(s: &TcpStream) -> bool {
    // SAFETY: plain fcntl on an open descriptor
    unsafe { libc::fcntl(s.as_raw_fd(), libc::F_GETFL) & libc::O_NONBLOCK != 0 }
}

/// Accepts one connection within the patience of a case.
pub fn accept_within(l: &TcpListener, d: Duration) -> Option<TcpStream> {
    let until = Instant::now() + d;
    let _ = l.set_nonblocking(true);
    loop {
        match l.accept() {
            Ok((s, _)) => {
                let _ = s.set_nonblocking(false);
                return Some(s);
            }
            Err(_) if Instant::now() > until => return None,
            Err(_) => std::thread::sleep(Duration::from_micros(300)),
        }
    }
}
/// Runs a future on a fresh single-threaded runtime.
pub fn on_runtime<F: Future>(f: F) -> Result<Result<F::Item, F::Error>, Fail> {
    let mut rt = env(tokio::runtime::current_thread::Runtime::new(), "runtime")?;
    Ok(rt.block_on(f))
}
/// A server thread whose panic is noticed.
pub struct Side<T> {
    rx: mpsc::Receiver<Result<Result<T, Fail>, String>>,
}
pub fn side<T: Send + 'static>(f: impl FnOnce() -> Result<T, Fail> + Send + 'static) -> Side<T> {
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let _ = tx.send(no_panic(f));
    });
    Side { rx }
}
/// A result that has come already.
pub struct Ready<T>(Result<Result<T, Fail>, String>);
impl<T> Ready<T> {
    pub fn take(self, what: &str) -> Result<T, Fail> {
        match self.0 {
            Ok(r) => r,
            Err(p) => Err(Fail::Violation(format!("panic in {}: {}", what, p))),
        }
    }
}
impl<T> Side<T> {
    pub fn ready(&self) -> Option<Ready<T>> {
        self.rx.try_recv().ok().map(Ready)
    }
    pub fn join(self, what: &str) -> Result<T, Fail> {
        self.join_within(Duration::from_secs(20), what)
    }
    pub fn join_within(self, d: Duration, what: &str) -> Result<T, Fail> {
        match self.rx.recv_timeout(d) {
            Ok(Ok(r)) => r,
            Ok(Err(p)) => Err(Fail::Violation(format!("panic in {}: {}", what, p))),
            Err(_) => stall(&format!("{} does not end", what)),
        }
    }
}

// ------------------------------------------------------------------------------- certificates

use serde::{Deserialize, Serialize};
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Cert {
    /// localhost and 127.0.0.1, issued by the trusted authority
    Good,
    Name,
    Addr,
    Wrong,
    Untrusted,
    Expired,
}
pub const CERTS: &[Cert] = &[Cert::Good, Cert::Name, Cert::Addr, Cert::Wrong, Cert::Untrusted, Cert::Expired];
impl Cert {
    pub fn identity(self) -> Identity {
        let b: &[u8] = match self {
            Cert::Good => include_bytes!("../fixtures/good.p12"),
            Cert::Name => include_bytes!("../fixtures/name.p12"),
            Cert::Addr => include_bytes!("../fixtures/addr.p12"),
            Cert::Wrong => include_bytes!("../fixtures/wrong.p12"),
            Cert::Untrusted => include_bytes!("../fixtures/untrusted.p12"),
            Cert::Expired => include_bytes!("../fixtures/expired.p12"),
        };
        Identity::from_pkcs12(b, "x").expect("fixture")
    }
    pub fn acceptor(self) -> TlsAcceptor {
        TlsAcceptor::new(self.identity()).expect("acceptor")
    }
    pub fn matches(self, host: &str) -> bool {
        match self {
            Cert::Good | Cert::Untrusted | Cert::Expired => true,
            Cert::Name => host == "localhost",
            Cert::Addr => host == "127.0.0.1",
            Cert::Wrong => false,
        }
    }
}
pub fn root(trusted: bool) -> Certificate {
    let b: &[u8] = if trusted {
        include_bytes!("../fixtures/trusted.pem")
    } else {
        include_bytes!("../fixtures/other.pem")
    };
    Certificate::from_pem(b).expect("fixture")
}
