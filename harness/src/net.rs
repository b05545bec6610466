//! N01, N02, N03: the event bus, the reactor on real sockets, and its timers.
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::io::{Read, Write};
use std::net::{self, SocketAddr};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::thread;
use std::time::{Duration, Instant};

use crossbeam_channel as chan;
use nakamoto_common::block::time::{LocalDuration, LocalTime};
use nakamoto_net::event::{self, Emitter, Publisher};
use nakamoto_net::{Disconnect, Io, Link, Reactor as _, Service, StateMachine, Waker as _};
use nakamoto_net_poll::time::TimeoutManager;

use crate::check;
use crate::core::*;
use crate::msgs;

type Reactor = nakamoto_net_poll::Reactor<net::TcpStream>;

// ---------------------------------------------------------------------------------------------
// A service that records what the reactor tells it, and does what it is told.

#[derive(Clone, Debug, PartialEq)]
pub enum Note {
    Init,
    Dial(SocketAddr),
    Attempted(SocketAddr),
    Up(SocketAddr, SocketAddr, Link),
    Down(SocketAddr, &'static str),
    /// Number of bytes (the bytes themselves are in `Shared::data`).
    Data(SocketAddr, usize),
    Written(SocketAddr, usize),
    Drop(SocketAddr),
    SetTimer(Duration),
    Timer,
    Cmd(u64),
}

#[derive(Default)]
pub struct Shared {
    pub notes: Vec<(Instant, Note)>,
    pub data: BTreeMap<SocketAddr, Vec<u8>>,
    /// Complaints of the service itself.
    pub wrong: Vec<String>,
}

pub enum Cmd {
    Dial(SocketAddr),
    Write(SocketAddr, Vec<u8>),
    Drop(SocketAddr),
    Timer(Duration),
    Emit(u64),
    Mark(u64),
    /// Keep the reactor's thread busy.
    Stall(Duration),
}

#[derive(Clone, Debug)]
pub struct Reason;

impl std::fmt::Display for Reason {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "dropped by the service")
    }
}

impl From<Reason> for Disconnect<Reason> {
    fn from(r: Reason) -> Self {
        Disconnect::StateMachine(r)
    }
}

pub struct Probe {
    pub shared: Arc<Mutex<Shared>>,
    out: VecDeque<Io<Vec<u8>, u64, Reason>>,
    time: Option<LocalTime>,
}

impl Probe {
    fn note(&self, n: Note) {
        self.shared.lock().unwrap().notes.push((Instant::now(), n));
    }
}

impl Iterator for Probe {
    type Item = Io<Vec<u8>, u64, Reason>;

    fn next(&mut self) -> Option<Self::Item> {
        let io = self.out.pop_front()?;
        match &io {
            Io::Connect(a) => self.note(Note::Dial(*a)),
            Io::Write(a, b) => self.note(Note::Written(*a, b.len())),
            Io::Disconnect(a, _) => self.note(Note::Drop(*a)),
            Io::SetTimer(d) => self.note(Note::SetTimer((*d).into())),
            Io::Event(_) => {}
        }
        Some(io)
    }
}

impl StateMachine for Probe {
    type Message = [u8];
    type Event = u64;
    type DisconnectReason = Reason;

    fn initialize(&mut self, t: LocalTime) {
        self.time = Some(t);
        self.note(Note::Init);
    }
    fn message_received(&mut self, a: &SocketAddr, m: Cow<[u8]>) {
        self.note(Note::Data(*a, m.len()));
        self.shared.lock().unwrap().data.entry(*a).or_default().extend_from_slice(&m);
    }
    fn attempted(&mut self, a: &SocketAddr) {
        self.note(Note::Attempted(*a));
    }
    fn connected(&mut self, a: SocketAddr, l: &SocketAddr, link: Link) {
        self.note(Note::Up(a, *l, link));
    }
    fn disconnected(&mut self, a: &SocketAddr, r: Disconnect<Reason>) {
        let kind = match r {
            Disconnect::DialError(_) => "dial",
            Disconnect::ConnectionError(_) => "connection",
            Disconnect::StateMachine(_) => "service",
        };
        self.note(Note::Down(*a, kind));
    }
    fn tick(&mut self, t: LocalTime) {
        self.time = Some(t);
    }
    fn timer_expired(&mut self) {
        self.note(Note::Timer);
    }
}

impl Service for Probe {
    type Command = Cmd;

    fn command_received(&mut self, c: Cmd) {
        match c {
            Cmd::Dial(a) => self.out.push_back(Io::Connect(a)),
            Cmd::Write(a, b) => self.out.push_back(Io::Write(a, b)),
            Cmd::Drop(a) => self.out.push_back(Io::Disconnect(a, Reason)),
            Cmd::Timer(d) => self.out.push_back(Io::SetTimer(LocalDuration::from_millis(d.as_millis()))),
            Cmd::Emit(n) => self.out.push_back(Io::Event(n)),
            Cmd::Mark(n) => self.note(Note::Cmd(n)),
            Cmd::Stall(d) => thread::sleep(d),
        }
    }
}

pub struct Nowhere;

impl Publisher<u64> for Nowhere {
    fn publish(&mut self, _: u64) {}
}

/// A running reactor.
pub struct Running {
    pub shared: Arc<Mutex<Shared>>,
    pub cmds: chan::Sender<Cmd>,
    pub waker: <Reactor as nakamoto_net::Reactor>::Waker,
    pub addr: SocketAddr,
    shutdown: chan::Sender<()>,
    done: chan::Receiver<Result<Result<(), String>, Violation>>,
    thread: Option<thread::JoinHandle<()>>,
    pub tid: Arc<AtomicU64>,
}

impl Running {
    pub fn start(publisher: impl Publisher<u64> + 'static) -> Running {
        let shared: Arc<Mutex<Shared>> = Default::default();
        let (cmds, crx) = chan::unbounded();
        let (shutdown, srx) = chan::bounded(1);
        let (ltx, lrx) = chan::bounded(1);
        let (dtx, done) = chan::bounded(1);
        let probe = Probe { shared: shared.clone(), out: VecDeque::new(), time: None };
        let mut reactor = Reactor::new(srx, ltx).expect("reactor");
        let waker = reactor.waker();
        let tid = Arc::new(AtomicU64::new(0));
        let t = tid.clone();
        let thread = thread::spawn(move || {
            t.store(unsafe { libc::pthread_self() } as u64, Ordering::SeqCst);
            let r = guard("reactor", move || reactor.run(&[([127, 0, 0, 1], 0).into()], probe, publisher, crx).map_err(|e| e.to_string()));
            dtx.send(r).ok();
        });
        let addr = lrx.recv_timeout(Duration::from_secs(20)).expect("the reactor listens");
        Running { shared, cmds, waker, addr, shutdown, done, thread: Some(thread), tid }
    }

    pub fn cmd(&self, c: Cmd) {
        self.cmds.send(c).ok();
        self.waker.wake().ok();
    }

    /// Wait for something to be noted.
    pub fn until(&self, limit: Duration, mut f: impl FnMut(&Shared) -> bool) -> bool {
        let t = Instant::now();
        let mut nap = 50;
        loop {
            if f(&self.shared.lock().unwrap()) {
                return true;
            }
            if t.elapsed() > limit {
                return false;
            }
            thread::sleep(Duration::from_micros(nap));
            nap = (nap * 2).min(3000);
        }
    }

    /// Has it ended on its own?
    pub fn ended(&self) -> Res {
        match self.done.try_recv() {
            Ok(Err(v)) => Err(v),
            Ok(Ok(r)) => viol("reactor-ended", format!("the reactor stopped on its own: {r:?}")),
            Err(_) => Ok(()),
        }
    }

    pub fn stop(mut self) -> Res {
        self.ended()?;
        self.shutdown.send(()).ok();
        self.waker.wake().ok();
        match self.done.recv_timeout(Duration::from_secs(20)) {
            Ok(Ok(Ok(()))) => {}
            Ok(Ok(Err(e))) => return viol("reactor-error", format!("the reactor ended with an error: {e}")),
            Ok(Err(v)) => return Err(v),
            Err(_) => return viol("no-shutdown", "the reactor didn't stop within 20 s of a shutdown request"),
        }
        self.thread.take().map(|t| t.join());
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// N02

/// Byte `i` of stream `seed`.
fn fill(seed: u64, off: usize, buf: &mut [u8]) {
    for (k, b) in buf.iter_mut().enumerate() {
        let i = off + k;
        *b = (seed.wrapping_mul(31).wrapping_add(i as u64).wrapping_mul(0x9E3779B97F4A7C15) >> 56) as u8;
    }
}

fn stream(seed: u64, off: usize, n: usize) -> Vec<u8> {
    let mut v = vec![0; n];
    fill(seed, off, &mut v);
    v
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum End {
    /// The remote closes once everything was sent and received.
    Close,
    /// The remote sends everything and closes at once; nothing is sent to it.
    SendAndClose,
    /// The remote goes away with unread data.
    Reset,
    /// The service disconnects.
    Drop,
}

#[derive(Clone, Debug)]
struct Plan {
    seed: u64,
    outbound: bool,
    to_service: usize,
    to_remote: usize,
    chunk: usize,
    /// Pause before reading, and between reads, in milliseconds.
    stall: u64,
    slow: u64,
    end: End,
}

#[derive(Debug)]
struct Outcome {
    received: Vec<u8>,
    /// Everything was written.
    sent: bool,
    error: Option<String>,
}

/// What a remote does with its connection.
fn remote(s: net::TcpStream, p: &Plan) -> Outcome {
    s.set_nodelay(true).ok();
    s.set_read_timeout(Some(Duration::from_secs(25))).ok();
    s.set_write_timeout(Some(Duration::from_secs(25))).ok();
    let mut w = s.try_clone().expect("clone");
    let (seed, total, chunk) = (p.seed, p.to_service, p.chunk);
    let writer = thread::spawn(move || {
        let rng = fastrand::Rng::with_seed(seed);
        let mut off = 0;
        while off < total {
            let n = rng.usize(1..=chunk).min(total - off);
            if w.write_all(&stream(seed, off, n)).is_err() {
                return false;
            }
            off += n;
            if rng.u8(0..20) == 0 {
                thread::sleep(Duration::from_micros(rng.u64(0..1500)));
            }
        }
        true
    });
    let mut out = Outcome { received: vec![], sent: false, error: None };
    if p.end == End::Reset {
        // With unread data in its buffer, closing a socket resets the connection.
        thread::sleep(Duration::from_millis(p.stall + 20));
        s.shutdown(net::Shutdown::Both).ok();
        out.sent = writer.join().unwrap_or(false);
        return out;
    }
    thread::sleep(Duration::from_millis(p.stall));
    let rng = fastrand::Rng::with_seed(p.seed ^ 7);
    let mut buf = vec![0; 1 << 16];
    let mut r = &s;
    loop {
        if matches!(p.end, End::Close | End::SendAndClose) && out.received.len() >= p.to_remote {
            break;
        }
        let n = rng.usize(1..=buf.len());
        match r.read(&mut buf[..n]) {
            Ok(0) => break,
            Ok(n) => out.received.extend_from_slice(&buf[..n]),
            Err(e) => {
                out.error = Some(e.to_string());
                break;
            }
        }
        if p.slow > 0 {
            thread::sleep(Duration::from_micros(p.slow * 100));
        }
    }
    out.sent = writer.join().unwrap_or(false);
    s.shutdown(net::Shutdown::Both).ok();
    out
}

fn plan(rng: &fastrand::Rng, big: bool) -> Plan {
    let sizes: &[usize] = if big { &[0, 1, 1000, 300_000, 2_000_000, 6_000_000] } else { &[0, 1, 100, 1000, 70_000, 300_000] };
    let end = *msgs::pick(&[End::Close, End::Close, End::Close, End::SendAndClose, End::Reset, End::Drop], rng);
    let mut p = Plan {
        seed: rng.u64(..),
        outbound: rng.bool(),
        to_service: *msgs::pick(sizes, rng),
        to_remote: *msgs::pick(sizes, rng),
        chunk: *msgs::pick(&[1, 50, 5000, 200_000, 500_000], rng),
        stall: *msgs::pick(&[0, 0, 0, 5, 30, 150], rng),
        slow: *msgs::pick(&[0, 0, 0, 1, 3], rng),
        end,
    };
    if p.chunk <= 50 {
        let most = if p.chunk == 1 { 3000 } else { 70_000 };
        p.to_service = p.to_service.min(most);
        p.to_remote = p.to_remote.min(most);
    }
    if p.end == End::SendAndClose {
        p.to_remote = 0;
        p.to_service = p.to_service.max(1);
    }
    p
}

struct Session {
    plan: Plan,
    addr: SocketAddr,
    done: chan::Receiver<Outcome>,
    written: usize,
    dropped: bool,
}

fn wire(rng: &mut fastrand::Rng, obs: &mut Obs, big: bool, signals: bool) -> Res {
    let r = Running::start(Nowhere);
    let stop = Arc::new(AtomicBool::new(false));
    let interrupts = Arc::new(AtomicU64::new(0));
    let signaller = signals.then(|| {
        install_handler();
        let (stop, tid, n, seed) = (stop.clone(), r.tid.clone(), interrupts.clone(), rng.u64(..));
        thread::spawn(move || {
            let rng = fastrand::Rng::with_seed(seed);
            while !stop.load(Ordering::SeqCst) {
                unsafe { libc::pthread_kill(tid.load(Ordering::SeqCst) as libc::pthread_t, libc::SIGUSR1) };
                n.fetch_add(1, Ordering::SeqCst);
                thread::sleep(Duration::from_micros(rng.u64(20..4000)));
            }
        })
    });
    let res = sessions(&r, rng, obs, big);
    stop.store(true, Ordering::SeqCst);
    if let Some(s) = signaller {
        s.join().ok();
        obs.add("signals", interrupts.load(Ordering::SeqCst));
    }
    let shared = r.shared.clone();
    let ended = r.ended();
    let stopped = r.stop();
    ended.and(res).and(stopped).and_then(|_| lifecycle(&shared.lock().unwrap(), obs)).map_err(|v| {
        let s = shared.lock().unwrap();
        for (t, n) in s.notes.iter().rev().take(400).rev() {
            obs.trace(format!("{:?} {n:?}", t.duration_since(s.notes[0].0)));
        }
        v
    })
}

fn install_handler() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| unsafe {
        extern "C" fn nothing(_: libc::c_int) {}
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = nothing as extern "C" fn(libc::c_int) as usize;
        libc::sigemptyset(&mut a.sa_mask);
        a.sa_flags = 0;
        libc::sigaction(libc::SIGUSR1, &a, std::ptr::null_mut());
    });
}

/// An address for one remote only: ports are given out again as soon as they are free.
fn own_ip() -> net::Ipv4Addr {
    static NEXT: AtomicU64 = AtomicU64::new(1);
    let n = NEXT.fetch_add(1, Ordering::SeqCst);
    net::Ipv4Addr::new(127, 10 + ((n >> 16) % 50) as u8, (n >> 8) as u8, n as u8)
}

fn connect_from(ip: net::Ipv4Addr, to: SocketAddr) -> std::io::Result<net::TcpStream> {
    use std::os::fd::FromRawFd;
    let SocketAddr::V4(to) = to else { panic!("an IPv4 address is expected") };
    let raw = |ip: &net::Ipv4Addr, port: u16| {
        let mut a: libc::sockaddr_in = unsafe { std::mem::zeroed() };
        a.sin_family = libc::AF_INET as libc::sa_family_t;
        a.sin_port = port.to_be();
        a.sin_addr.s_addr = u32::from_ne_bytes(ip.octets());
        a
    };
    let len = std::mem::size_of::<libc::sockaddr_in>() as libc::socklen_t;
    let ok = |r: libc::c_int| if r < 0 { Err(std::io::Error::last_os_error()) } else { Ok(r) };
    unsafe {
        let fd = ok(libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0))?;
        let s = net::TcpStream::from_raw_fd(fd);
        ok(libc::bind(fd, &raw(&ip, 0) as *const _ as *const libc::sockaddr, len))?;
        ok(libc::connect(fd, &raw(to.ip(), to.port()) as *const _ as *const libc::sockaddr, len))?;
        Ok(s)
    }
}

/// An address nobody listens on. Nb. Neither the address nor the port is one that is given to
/// the sockets of cases that run at the same time.
fn closed_port(rng: &fastrand::Rng) -> SocketAddr {
    if rng.u8(0..3) == 0 {
        // Nothing can be dialed here: it fails at once.
        return ([224, 0, rng.u8(..), rng.u8(..)], rng.u16(200..1000)).into();
    }
    ([127, rng.u8(70..90), rng.u8(1..255), rng.u8(1..255)], rng.u16(200..1000)).into()
}

const LIMIT: Duration = Duration::from_secs(30);

fn sessions(r: &Running, rng: &fastrand::Rng, obs: &mut Obs, big: bool) -> Res {
    let mut all: Vec<Session> = vec![];
    let mut refused: Vec<SocketAddr> = vec![];
    let n = rng.usize(1..=if big { 3 } else { 6 });
    let mut plans: VecDeque<Plan> = (0..n).map(|_| plan(rng, big)).collect();
    let mut idle = 0;
    let (mut up, mut met, mut seen) = (BTreeSet::new(), BTreeSet::new(), 0);
    loop {
        r.ended()?;
        let mut busy = false;
        if (rng.u8(0..3) == 0 || all.is_empty()) && !plans.is_empty() {
            busy = true;
            let p = plans.pop_front().unwrap();
            obs.distinct((p.outbound, p.end, p.to_service, p.to_remote, p.chunk, p.stall, p.slow));
            obs.inc(match p.end {
                End::Close => "connections closed by the peer",
                End::SendAndClose => "connections closed right after sending",
                End::Reset => "connections reset",
                End::Drop => "connections dropped by the service",
            });
            let (tx, done) = chan::bounded(1);
            let q = p.clone();
            let addr = if p.outbound {
                let l = net::TcpListener::bind((own_ip(), 0)).expect("bind");
                let a = l.local_addr().unwrap();
                thread::spawn(move || {
                    if let Ok((s, _)) = l.accept() {
                        tx.send(remote(s, &q)).ok();
                    }
                });
                r.cmd(Cmd::Dial(a));
                a
            } else {
                let s = connect_from(own_ip(), r.addr).expect("the reactor accepts connections");
                let a = s.local_addr().unwrap();
                thread::spawn(move || tx.send(remote(s, &q)).ok());
                a
            };
            all.push(Session { plan: p, addr, done, written: 0, dropped: false });
        }
        if rng.u8(0..12) == 0 && refused.len() < 4 {
            let a = closed_port(rng);
            if !all.iter().any(|s| s.addr == a) && !refused.contains(&a) {
                refused.push(a);
                r.cmd(Cmd::Dial(a));
            }
        }
        {
            let s = r.shared.lock().unwrap();
            for (_, n) in &s.notes[seen..] {
                match n {
                    Note::Up(a, ..) => {
                        up.insert(*a);
                        met.insert(*a);
                    }
                    Note::Down(a, _) => {
                        up.remove(a);
                    }
                    _ => {}
                }
            }
            seen = s.notes.len();
        }
        for s in all.iter_mut() {
            if !up.contains(&s.addr) || s.dropped {
                continue;
            }
            if s.written < s.plan.to_remote {
                busy = true;
                let k = rng.usize(1..=s.plan.chunk).min(s.plan.to_remote - s.written);
                r.cmd(Cmd::Write(s.addr, stream(s.plan.seed ^ 1, s.written, k)));
                s.written += k;
            }
            if s.plan.end == End::Drop && (rng.u8(0..30) == 0 || s.written == s.plan.to_remote) {
                busy = true;
                s.dropped = true;
                r.cmd(Cmd::Drop(s.addr));
                if rng.bool() {
                    // Too late.
                    r.cmd(Cmd::Write(s.addr, vec![0; 100]));
                    r.cmd(Cmd::Drop(s.addr));
                }
            }
        }
        if rng.u8(0..200) == 0 {
            r.cmd(Cmd::Stall(Duration::from_millis(rng.u64(0..20))));
        }
        if !busy {
            idle += 1;
            thread::sleep(Duration::from_micros(300));
        }
        let over = plans.is_empty()
            && all.iter().all(|s| {
                s.plan.end == End::Reset || s.dropped || s.written == s.plan.to_remote
            })
            && all.iter().all(|s| met.contains(&s.addr));
        if over {
            break;
        }
        check!(idle < 100_000, "no-connection", "connections weren't established within 30 s: {:?}", all.iter().map(|s| (s.addr, &s.plan)).collect::<Vec<_>>());
    }
    for s in &all {
        let o = s.done.recv_timeout(LIMIT);
        let Ok(o) = o else {
            r.ended()?;
            return viol("stuck", format!("{}: the remote isn't done after {LIMIT:?} ({:?})", s.addr, s.plan));
        };
        // What the remote received.
        let want = stream(s.plan.seed ^ 1, 0, s.plan.to_remote);
        obs.add("bytes received by remotes", o.received.len() as u64);
        let k = o.received.iter().zip(&want).take_while(|(a, b)| a == b).count();
        check!(
            k == o.received.len(),
            "corrupted-out",
            "{}: byte {k} of {} received by the remote is wrong ({:?})",
            s.addr,
            o.received.len(),
            s.plan
        );
        if matches!(s.plan.end, End::Close | End::SendAndClose) {
            check!(
                o.received.len() == want.len() && o.error.is_none(),
                "lost-out",
                "{}: the remote received {} of {} bytes ({:?}, {:?})",
                s.addr,
                o.received.len(),
                want.len(),
                o.error,
                s.plan
            );
            check!(o.sent, "blocked-in", "{}: the remote couldn't send its {} bytes", s.addr, s.plan.to_service);
        }
        // What the service was told.
        let gone = r.until(LIMIT, |sh| sh.notes.iter().any(|(_, n)| matches!(n, Note::Down(a, _) if *a == s.addr)));
        r.ended()?;
        check!(gone, "no-disconnection", "{}: the connection ended ({:?}), but the service wasn't told", s.addr, s.plan.end);
        let sh = r.shared.lock().unwrap();
        let got = sh.data.get(&s.addr).map_or(&[][..], |v| v);
        obs.add("bytes received by the service", got.len() as u64);
        let want = stream(s.plan.seed, 0, s.plan.to_service);
        let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
        check!(k == got.len(), "corrupted-in", "{}: byte {k} of {} received by the service is wrong ({:?})", s.addr, got.len(), s.plan);
        if matches!(s.plan.end, End::Close | End::SendAndClose) {
            check!(
                got.len() == want.len(),
                "lost-in",
                "{}: the service received {} of {} bytes ({:?})",
                s.addr,
                got.len(),
                want.len(),
                s.plan
            );
        }
        for (_, n) in &sh.notes {
            if let Note::Up(a, l, link) = n {
                if *a == s.addr {
                    check!(link.is_outbound() == s.plan.outbound, "wrong-link", "{}: {link:?} reported", s.addr);
                    if !s.plan.outbound {
                        check!(*l == r.addr, "wrong-local", "{}: local address {l} reported instead of {}", s.addr, r.addr);
                    }
                }
            }
        }
    }
    for a in &refused {
        obs.inc("refused dials");
        let down = r.until(LIMIT, |sh| sh.notes.iter().any(|(_, n)| matches!(n, Note::Down(b, _) if a == b)));
        check!(down, "no-failure", "{a}: nobody listens there, but the service wasn't told within {LIMIT:?}");
        let sh = r.shared.lock().unwrap();
        check!(!sh.notes.iter().any(|(_, n)| matches!(n, Note::Up(b, ..) if a == b)), "false-connection", "{a}: nobody listens there, but a connection was reported");
    }
    Ok(())
}

/// The order of notices about each address.
fn lifecycle(s: &Shared, obs: &mut Obs) -> Res {
    #[derive(Debug, PartialEq, Clone, Copy)]
    enum St {
        Idle,
        Dialed,
        Attempted,
        Up,
    }
    let mut st: BTreeMap<SocketAddr, St> = BTreeMap::new();
    check!(matches!(s.notes.first(), Some((_, Note::Init))), "no-init", "the service wasn't initialized first");
    for (i, (_, n)) in s.notes.iter().enumerate() {
        obs.inc("notices");
        let mut go = |a: &SocketAddr, f: &dyn Fn(St) -> Option<St>| -> Res {
            let e = st.entry(*a).or_insert(St::Idle);
            match f(*e) {
                Some(x) => *e = x,
                None => return viol("lifecycle", format!("{a}: {n:?} (notice {i}) while {:?}", *e)),
            }
            Ok(())
        };
        match n {
            Note::Dial(a) => go(a, &|e| (e == St::Idle).then_some(St::Dialed))?,
            Note::Attempted(a) => go(a, &|e| (e == St::Dialed).then_some(St::Attempted))?,
            Note::Up(a, _, l) if l.is_outbound() => go(a, &|e| (e == St::Attempted).then_some(St::Up))?,
            Note::Up(a, ..) => go(a, &|e| (e == St::Idle).then_some(St::Up))?,
            Note::Data(a, n) => {
                check!(*n > 0, "no-data", "{a}: an empty read was passed on");
                go(a, &|e| (e == St::Up).then_some(St::Up))?
            }
            Note::Down(a, k) => {
                let k = *k;
                go(a, &|e| match (e, k) {
                    (St::Dialed | St::Attempted, "dial" | "connection") => Some(St::Idle),
                    (St::Attempted, "service") => Some(St::Idle),
                    (St::Up, "connection" | "service") => Some(St::Idle),
                    _ => None,
                })?
            }
            Note::Init => check!(i == 0, "lifecycle", "the service was initialized again"),
            _ => {}
        }
    }
    Ok(())
}

fn n02_wire(rng: &mut fastrand::Rng, obs: &mut Obs, _tier: Tier) -> Res {
    wire(rng, obs, false, false)
}

fn n02_big(rng: &mut fastrand::Rng, obs: &mut Obs, _tier: Tier) -> Res {
    wire(rng, obs, true, false)
}

fn n02_signals(rng: &mut fastrand::Rng, obs: &mut Obs, _tier: Tier) -> Res {
    wire(rng, obs, rng.u8(0..4) == 0, true)
}

// ---------------------------------------------------------------------------------------------
// N03

/// The timeout queue next to a plain list.
fn n03_queue(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let threshold = *msgs::pick(&[0u64, 1, 10, 1000, 1000, 1000, 60_000], rng);
    let mut q: TimeoutManager<u64> = TimeoutManager::new(LocalDuration::from_millis(threshold as u128));
    let mut model: Vec<(u64, u64)> = vec![]; // (time, key)
    let base = 1_600_000_000_000u64;
    let at = |ms: u64| LocalTime::from_secs(0) + LocalDuration::from_millis(ms as u128);
    let mut now = base;
    let mut key = 0;
    let mut fired: BTreeSet<u64> = BTreeSet::new();
    let n = if tier == Tier::Quick { 400 } else { 3000 };
    for _ in 0..n {
        match rng.u8(0..6) {
            0..=2 => {
                let d = match rng.u8(0..6) {
                    0 => 0,
                    1 => rng.u64(0..2 * threshold + 3),
                    2 => threshold,
                    3 => rng.u64(0..100_000),
                    4 => threshold.saturating_sub(1),
                    _ => rng.u64(0..4000),
                };
                // Sometimes relative to another timer.
                let t = if !model.is_empty() && rng.bool() {
                    let b = msgs::pick(&model, rng).0;
                    if rng.bool() { b + d } else { b.saturating_sub(d).max(base - 200_000) }
                } else {
                    now + d
                };
                key += 1;
                let taken = model.iter().all(|(x, _)| x.abs_diff(t) >= threshold);
                let r = guard("register", || q.register(key, at(t)))?;
                check!(
                    r == taken,
                    "register",
                    "timer at {t} with others at {:?} and threshold {threshold}: registered = {r}",
                    model.iter().map(|m| m.0).collect::<Vec<_>>()
                );
                if taken {
                    model.push((t, key));
                    obs.inc("timers registered");
                } else {
                    obs.inc("timers coalesced");
                }
            }
            3 => now += rng.u64(0..*msgs::pick(&[2, 100, 3000, 100_000], rng)),
            4 => {
                // As the reactor does: sleep until the next one.
                if let Some(d) = guard("next", || q.next(at(now)))? {
                    if rng.bool() {
                        now += d.as_millis() as u64;
                    }
                }
            }
            _ => {
                let mut woken = vec![];
                let k = guard("wake", || q.wake(at(now), &mut woken))?;
                model.sort();
                let due: Vec<u64> = model.iter().filter(|(t, _)| *t <= now).map(|(_, k)| *k).collect();
                model.retain(|(t, _)| *t > now);
                check!(k == woken.len(), "wake-count", "wake() returned {k} for {} keys", woken.len());
                let same = if threshold > 0 { woken == due } else { woken.iter().collect::<BTreeSet<_>>() == due.iter().collect::<BTreeSet<_>>() };
                check!(same, "wake", "woke {woken:?} instead of {due:?} at {now}");
                for w in &woken {
                    check!(fired.insert(*w), "wake-twice", "timer {w} woken twice");
                }
                obs.add("timers woken", k as u64);
            }
        }
        check!(q.len() == model.len() && q.is_empty() == model.is_empty(), "len", "{} timers instead of {}", q.len(), model.len());
        let next = guard("next", || q.next(at(now)))?.map(|d| d.as_millis() as u64);
        let want = model.iter().map(|(t, _)| t.saturating_sub(now)).min();
        check!(next == want, "next", "next in {next:?} instead of {want:?}");
        obs.distinct((model.len(), threshold, want));
    }
    Ok(())
}

/// How much the machine itself delays things.
struct Heartbeat {
    stop: Arc<AtomicBool>,
    worst: Arc<AtomicU64>,
    thread: Option<thread::JoinHandle<()>>,
}

impl Heartbeat {
    fn start() -> Self {
        let (stop, worst) = (Arc::new(AtomicBool::new(false)), Arc::new(AtomicU64::new(0)));
        let (s, w) = (stop.clone(), worst.clone());
        let thread = thread::spawn(move || {
            while !s.load(Ordering::SeqCst) {
                let t = Instant::now();
                thread::sleep(Duration::from_millis(10));
                w.fetch_max(t.elapsed().as_millis() as u64 - 10, Ordering::SeqCst);
            }
        });
        Heartbeat { stop, worst, thread: Some(thread) }
    }
    fn end(mut self) -> u64 {
        self.stop.store(true, Ordering::SeqCst);
        self.thread.take().map(|t| t.join());
        self.worst.load(Ordering::SeqCst)
    }
}

/// Timers of the real reactor, with and without traffic. A busy machine may starve the reactor's thread without
/// the heartbeat noticing, so what's judged by the clock has to go wrong each time the case is run.
fn n03_reactor(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    static AGAIN: Mutex<()> = Mutex::new(());
    let seed = rng.u64(..);
    let mut r = n03_timers(&mut fastrand::Rng::with_seed(seed), obs, tier);
    for _ in 0..4 {
        match &r {
            Err(v) if ["late", "imprecise", "early"].contains(&v.sig.as_str()) => {
                let _lock = AGAIN.lock();
                obs.inc("cases run again");
                r = n03_timers(&mut fastrand::Rng::with_seed(seed), obs, tier);
            }
            _ => break,
        }
    }
    r
}

fn n03_timers(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let beat = Heartbeat::start();
    let r = Running::start(Nowhere);
    let stop = Arc::new(AtomicBool::new(false));
    let traffic = rng.u8(0..5);
    let mut threads = vec![];
    for _ in 0..if traffic == 0 { 0 } else { rng.usize(1..4) } {
        let (stop, addr) = (stop.clone(), r.addr);
        let pause = *msgs::pick(&[0u64, 0, 50, 2000], rng);
        threads.push(thread::spawn(move || {
            let Ok(mut s) = net::TcpStream::connect(addr) else { return };
            s.set_write_timeout(Some(Duration::from_millis(500))).ok();
            s.set_nodelay(true).ok();
            while !stop.load(Ordering::SeqCst) {
                if s.write_all(b"x").is_err() {
                    break;
                }
                if pause > 0 {
                    thread::sleep(Duration::from_micros(pause));
                }
            }
        }));
    }
    if traffic == 2 {
        // Wake-ups without anything to do.
        let (stop, w) = (stop.clone(), r.waker.clone());
        threads.push(thread::spawn(move || {
            while !stop.load(Ordering::SeqCst) {
                w.wake().ok();
                thread::sleep(Duration::from_micros(100));
            }
        }));
    }
    let secs = if tier == Tier::Quick { 2500 } else { rng.u64(2000..8000) };
    // Something to wait for, longer than the rest.
    let long = rng.u64(3500..4500);
    if rng.bool() {
        r.cmd(Cmd::Timer(Duration::from_millis(long)));
    }
    let t0 = Instant::now();
    while t0.elapsed() < Duration::from_millis(secs) {
        let d = match rng.u8(0..5) {
            0 => rng.u64(0..50),
            4 => rng.u64(2500..4000),
            1 => rng.u64(900..1100),
            _ => rng.u64(0..2500),
        };
        r.cmd(Cmd::Timer(Duration::from_millis(d)));
        thread::sleep(Duration::from_millis(*msgs::pick(&[0, 1, 50, 300, 800], rng)));
    }
    // Let the last ones fire.
    let t1 = Instant::now();
    let settle = Duration::from_millis(6300);
    while t1.elapsed() < settle {
        let quiet = {
            let s = r.shared.lock().unwrap();
            let due = s.notes.iter().filter_map(|(t, n)| if let Note::SetTimer(d) = n { Some(*t + *d) } else { None }).max();
            due.map_or(true, |due| Instant::now() > due + Duration::from_millis(400)) && pending(&s, Duration::from_millis(1100)).is_none()
        };
        if quiet {
            break;
        }
        thread::sleep(Duration::from_millis(20));
    }
    stop.store(true, Ordering::SeqCst);
    let shared = r.shared.clone();
    let ended = r.ended();
    let end = r.stop();
    for t in threads {
        t.join().ok();
    }
    let jitter = beat.end();
    ended?;
    end?;
    let s = shared.lock().unwrap();
    obs.add("bytes of traffic", s.data.values().map(|v| v.len() as u64).sum());
    let wakes: Vec<Instant> = s.notes.iter().filter(|(_, n)| *n == Note::Timer).map(|(t, _)| *t).collect();
    let asked: Vec<(Instant, Duration)> = s.notes.iter().filter_map(|(t, n)| if let Note::SetTimer(d) = n { Some((*t, *d)) } else { None }).collect();
    obs.add("timers requested", asked.len() as u64);
    obs.add("timer wake-ups", wakes.len() as u64);
    check!(wakes.len() <= asked.len(), "too-many", "{} wake-ups for {} timers", wakes.len(), asked.len());
    if jitter > 300 {
        obs.inc("cases not judged (machine too slow)");
        return Ok(());
    }
    obs.distinct((asked.len(), wakes.len(), traffic));
    let slack = Duration::from_millis(1100 + 700 + 2 * jitter);
    if let Some((t, d)) = pending(&s, slack) {
        let next = wakes.iter().find(|w| **w > t).map(|w| w.duration_since(t));
        return viol("late", format!("a timer of {d:?} was requested; the next wake-up came {next:?} later (machine jitter {jitter} ms)"));
    }
    // A timer that's far from all those requested before it has nothing to coalesce with.
    for (i, (t, d)) in asked.iter().enumerate() {
        let due = *t + *d;
        let gap = |x: Instant| if x > due { x - due } else { due - x };
        if asked[..i].iter().any(|(u, e)| gap(*u + *e) < Duration::from_millis(1200 + 2 * jitter)) {
            continue;
        }
        obs.inc("timers far from others");
        let (from, to) = (due - Duration::from_millis(30), due + Duration::from_millis(250 + 2 * jitter));
        let next = wakes.iter().find(|w| **w >= from);
        check!(next.map_or(false, |w| *w <= to), "imprecise", "a timer of {d:?} was requested, with no other within a second of it; the wake-up came {:?} after the request (machine jitter {jitter} ms)", next.map(|w| w.duration_since(*t)));
    }
    for w in &wakes {
        // Somebody must have asked for about this time.
        let ok = asked.iter().any(|(t, d)| {
            let due = *t + *d;
            *t <= *w && due.checked_duration_since(*w).map_or(true, |x| x < Duration::from_millis(30))
        });
        check!(ok, "early", "a wake-up that nobody asked for, {:?} after the start", w.duration_since(s.notes[0].0));
    }
    Ok(())
}

/// A request that wasn't followed by a wake-up in time.
fn pending(s: &Shared, slack: Duration) -> Option<(Instant, Duration)> {
    let wakes: Vec<Instant> = s.notes.iter().filter(|(_, n)| *n == Note::Timer).map(|(t, _)| *t).collect();
    s.notes.iter().find_map(|(t, n)| match n {
        Note::SetTimer(d) => {
            let from = (*t + *d).checked_sub(Duration::from_millis(1100)).map_or(*t, |x| x.max(*t));
            let to = *t + *d + slack;
            (!wakes.iter().any(|w| *w >= from && *w <= to)).then_some((*t, *d))
        }
        _ => None,
    })
}

// ---------------------------------------------------------------------------------------------
// N01

/// Publishers and subscribers on many threads.
fn n01_bus(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let emitters = rng.usize(1..4);
    let per = match (tier, rng.u8(0..60)) {
        // More than anybody would buffer.
        (_, 0) => rng.usize(5_000..40_000),
        (Tier::Quick, _) => rng.usize(1..400),
        _ => rng.usize(1..4000),
    };
    let readers = rng.usize(1..6);
    let (mut bus, sub) = event::broadcast(|e: u64, p: &Emitter<u64>| {
        // Zero, one or two.
        for k in 0..e % 3 {
            p.emit(e * 4 + k);
        }
    });
    // A subscriber from the beginning to the end: its view is the reference.
    let reference = sub.subscribe();
    let direct: Emitter<(usize, u64)> = Emitter::default();
    let dsub = direct.subscriber();
    let dref = dsub.subscribe();
    // Events started and finished, per emitter.
    let started: Arc<Vec<AtomicUsize>> = Arc::new((0..=emitters).map(|_| AtomicUsize::new(0)).collect());
    let finished: Arc<Vec<AtomicUsize>> = Arc::new((0..=emitters).map(|_| AtomicUsize::new(0)).collect());
    let stop = Arc::new(AtomicBool::new(false));
    let mut threads = vec![];
    for i in 0..emitters {
        let (e, s, f, seed) = (direct.clone(), started.clone(), finished.clone(), rng.u64(..));
        threads.push(thread::spawn(move || {
            let rng = fastrand::Rng::with_seed(seed);
            for k in 0..per as u64 {
                s[i].fetch_add(1, Ordering::SeqCst);
                e.emit((i, k));
                f[i].fetch_add(1, Ordering::SeqCst);
                match rng.u8(0..16) {
                    0 => thread::yield_now(),
                    1 => thread::sleep(Duration::from_micros(rng.u64(0..60))),
                    _ => {}
                }
            }
        }));
    }
    let (s, f, seed) = (started.clone(), finished.clone(), rng.u64(..));
    threads.push(thread::spawn(move || {
        let rng = fastrand::Rng::with_seed(seed);
        for k in 0..per as u64 {
            s[emitters].fetch_add(1, Ordering::SeqCst);
            bus.broadcast(k);
            f[emitters].fetch_add(1, Ordering::SeqCst);
            if rng.u8(0..16) == 0 {
                thread::sleep(Duration::from_micros(rng.u64(0..60)));
            }
        }
    }));
    // Subscribers that come and go.
    type Seen = (Vec<usize>, Vec<usize>, Vec<(usize, u64)>, Vec<u64>, bool);
    let results: Arc<Mutex<Vec<Seen>>> = Default::default();
    let mut rthreads = vec![];
    for _ in 0..readers {
        let (a, b, s, f, stop, res, seed) = (dsub.clone(), sub.clone(), started.clone(), finished.clone(), stop.clone(), results.clone(), rng.u64(..));
        rthreads.push(thread::spawn(move || {
            let rng = fastrand::Rng::with_seed(seed);
            loop {
                let before: Vec<usize> = f.iter().map(|x| x.load(Ordering::SeqCst)).collect();
                let (ra, rb) = (a.subscribe(), b.subscribe());
                let after: Vec<usize> = s.iter().map(|x| x.load(Ordering::SeqCst)).collect();
                if rng.u8(0..4) == 0 {
                    // Dropped without being read.
                    drop(ra);
                    drop(rb);
                    thread::sleep(Duration::from_micros(rng.u64(0..200)));
                    if stop.load(Ordering::SeqCst) {
                        break;
                    }
                    continue;
                }
                let whole = rng.bool();
                let (mut va, mut vb) = (vec![], vec![]);
                let quota = rng.usize(1..200);
                let fin = loop {
                    let ended = stop.load(Ordering::SeqCst);
                    va.extend(ra.try_iter());
                    vb.extend(rb.try_iter());
                    if ended {
                        break true;
                    }
                    if !whole && va.len() > quota {
                        break false;
                    }
                    thread::sleep(Duration::from_micros(rng.u64(0..300)));
                };
                res.lock().unwrap().push((before, after, va, vb, fin));
                if stop.load(Ordering::SeqCst) {
                    break;
                }
            }
        }));
    }
    for t in threads {
        check!(t.join().is_ok(), "panic", "a publishing thread panicked");
    }
    stop.store(true, Ordering::SeqCst);
    for t in rthreads {
        check!(t.join().is_ok(), "panic", "a subscribing thread panicked");
    }
    let dref: Vec<_> = dref.try_iter().collect();
    let bref: Vec<u64> = reference.try_iter().collect();
    let want: Vec<u64> = (0..per as u64).flat_map(|e| (0..e % 3).map(move |k| e * 4 + k)).collect();
    check!(bref == want, "broadcast", "a subscriber from the beginning received {} of {} events, or in another order", bref.len(), want.len());
    check!(dref.len() == per * emitters, "emitted", "a subscriber from the beginning received {} of {} events", dref.len(), per * emitters);
    for i in 0..emitters {
        let mine: Vec<u64> = dref.iter().filter(|(x, _)| *x == i).map(|(_, k)| *k).collect();
        check!(mine == (0..per as u64).collect::<Vec<_>>(), "order", "events of one publisher were lost or reordered");
    }
    let pos: BTreeMap<(usize, u64), usize> = dref.iter().enumerate().map(|(i, e)| (*e, i)).collect();
    for (before, after, va, vb, fin) in results.lock().unwrap().iter() {
        obs.inc("subscriptions");
        obs.add("events received", (va.len() + vb.len()) as u64);
        // A contiguous part of the reference.
        if let Some(first) = va.first() {
            let i = pos[first];
            let same = dref[i..].iter().zip(va).filter(|(a, b)| a == b).count();
            check!(same == va.len(), "window", "a subscriber saw {} events, of which only {same} are the next ones after its first", va.len());
            if *fin {
                check!(i + va.len() == dref.len(), "tail", "a subscriber missed the last {} events", dref.len() - i - va.len());
            }
        }
        for e in 0..emitters {
            let first = va.iter().find(|(x, _)| *x == e).map(|(_, k)| *k as usize);
            match first {
                Some(k) => {
                    check!(k <= after[e], "missed", "publisher {e}: first event seen is {k}, but the subscription was there before event {}", after[e]);
                    check!(k >= before[e], "replayed", "publisher {e}: event {k} was received, although {} were published before subscribing", before[e]);
                }
                None if *fin => check!(after[e] >= per, "missed", "publisher {e}: no event seen, but the subscription was there before event {}", after[e]),
                None => {}
            }
        }
        if let Some(first) = vb.first() {
            let Some(i) = want.iter().position(|x| x == first) else {
                return viol("foreign", format!("event {first} was never published"));
            };
            check!(want[i..].iter().zip(vb).all(|(a, b)| a == b), "window", "broadcast events were lost, repeated or reordered for a subscriber");
            if *fin {
                check!(i + vb.len() == want.len(), "tail", "a subscriber missed the last broadcast events");
            }
            check!(first / 4 >= before[emitters] as u64, "replayed", "an event published before subscribing was received");
            let lost = want[..i].iter().filter(|x| **x / 4 >= after[emitters] as u64).count();
            check!(lost == 0, "missed", "{lost} broadcast events published after subscribing weren't received");
        }
        obs.distinct((before.clone(), after.clone(), va.len()));
    }
    // Closing ends every subscription, after what was published.
    let last: Vec<_> = (0..rng.usize(1..6)).map(|_| dsub.subscribe()).collect();
    let other = direct.clone();
    other.emit((9, 9));
    direct.close();
    if rng.bool() {
        other.emit((9, 10));
    }
    for last in &last {
        check!(last.try_recv() == Ok((9, 9)), "close", "the last event before closing wasn't received");
        check!(last.try_recv() == Err(chan::TryRecvError::Disconnected), "close", "a subscriber isn't disconnected by closing");
        obs.inc("subscriptions closed");
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "N01",
            rule: "distinct by the points at which a subscriber joined and left",
            assumptions: &["thread interleavings are those produced by the scheduler with random pauses"],
            level: "exploration",
            groups: vec![Group { name: "bus", quick: 6_000, thorough: 40_000, threads: 0, run: n01_bus },
                Group { name: "client", quick: 1_000, thorough: 20_000, threads: 0, run: crate::client::n01_client }],
        },
        Property {
            id: "N02",
            rule: "distinct by direction, sizes, pace and end of the connection",
            assumptions: &["loopback TCP of this kernel"],
            level: "exploration",
            groups: vec![
                Group { name: "wire", quick: 4_000, thorough: 40_000, threads: 32, run: n02_wire },
                Group { name: "big", quick: 300, thorough: 3_000, threads: 24, run: n02_big },
                Group { name: "signals", quick: 1_000, thorough: 8_000, threads: 32, run: n02_signals },
            ],
        },
        Property {
            id: "N03",
            rule: "distinct by number of timers and time to the next",
            assumptions: &["the system clock isn't stepped; cases in which the machine itself is late by more than 300 ms aren't judged"],
            level: "exploration",
            groups: vec![
                Group { name: "queue", quick: 2_000, thorough: 100_000, threads: 0, run: n03_queue },
                Group { name: "reactor", quick: 16, thorough: 600, threads: 4, run: n03_reactor },
            ],
        },
    ]
}
