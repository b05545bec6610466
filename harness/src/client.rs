//! N04, and the parts of N01 and S02 that need the whole client: `Client` with its handles, its
//! reactor, real files in a scratch directory and real sockets on the loopback interface.
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::io::{Read, Write};
use std::net::{self, SocketAddr};
use std::path::Path;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::thread;
use std::time::{Duration, Instant};

use crossbeam_channel as chan;
use nakamoto_client::handle::Handle as _;
use nakamoto_client::{Client, Command, Config, Domain, Event, Loading};
use nakamoto_common::bitcoin::consensus::encode::{deserialize, serialize};
use nakamoto_common::bitcoin::network::address::Address;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::{NetworkMessage, RawNetworkMessage};
use nakamoto_common::bitcoin::network::message_blockdata::{GetHeadersMessage, Inventory};
use nakamoto_common::bitcoin::network::message_filter::{CFHeaders, CFilter};
use nakamoto_common::bitcoin::network::message_network::VersionMessage;
use nakamoto_common::bitcoin::{Block, Txid};
use nakamoto_common::bitcoin_hashes::Hash;
use nakamoto_common::block::filter::{BlockFilter, FilterHash, FilterHeader};
use nakamoto_common::block::time::LocalTime;
use nakamoto_common::block::tree::ImportResult;
use nakamoto_common::block::{BlockHash, BlockHeader, Height};
use nakamoto_common::network::Network;
use nakamoto_net::{Disconnect, Io, Link, Service, StateMachine};

use crate::blocks::{self, Forest};
use crate::check;
use crate::core::*;
use crate::msgs;
use crate::sim;
use crate::stores::Scratch;

type Reactor = nakamoto_net_poll::Reactor<net::TcpStream>;
type Waker = <Reactor as nakamoto_net::Reactor>::Waker;
type Handle = nakamoto_client::Handle<Waker>;

/// Nothing here takes nearly as long, unless it never ends.
const LIMIT: Duration = Duration::from_secs(30);

// ---------------------------------------------------------------------------------------------
// The true chains, for use by many threads.

pub struct Entry {
    pub block: Block,
    pub hash: BlockHash,
    pub height: Height,
    pub parent: Option<usize>,
    pub filter: Vec<u8>,
    pub fhash: FilterHash,
    pub fheader: FilterHeader,
}

pub struct Ledger {
    pub nodes: Vec<Entry>,
    pub index: HashMap<BlockHash, usize>,
}

impl Ledger {
    pub fn new(f: &Forest) -> Self {
        let nodes = f
            .nodes
            .iter()
            .map(|n| Entry {
                block: n.block.clone(),
                hash: n.hash,
                height: n.height,
                parent: n.parent,
                filter: n.filter.content.clone(),
                fhash: n.fhash,
                fheader: n.fheader,
            })
            .collect();
        Ledger { nodes, index: f.index.clone() }
    }
    pub fn chain(&self, tip: usize) -> Vec<usize> {
        let mut v = vec![tip];
        while let Some(p) = self.nodes[v[v.len() - 1]].parent {
            v.push(p);
        }
        v.reverse();
        v
    }
    pub fn header(&self, i: usize) -> BlockHeader {
        self.nodes[i].block.header
    }
    /// The ancestor of `tip` at some height.
    pub fn at(&self, tip: usize, h: Height) -> Option<usize> {
        let mut i = tip;
        while self.nodes[i].height > h {
            i = self.nodes[i].parent?;
        }
        (self.nodes[i].height == h).then_some(i)
    }
    pub fn on(&self, tip: usize, i: usize) -> bool {
        self.at(tip, self.nodes[i].height) == Some(i)
    }
}

// ---------------------------------------------------------------------------------------------
// A running client.

type Ended = Result<Result<(), String>, Violation>;

pub struct Node {
    pub handle: Handle,
    pub addr: SocketAddr,
    done: chan::Receiver<Ended>,
    /// What was reported while the client was loading.
    loading: chan::Receiver<Loading>,
}

fn config(root: &Path) -> Config {
    Config {
        network: Network::Regtest,
        domains: vec![Domain::IPV4],
        connect: vec![],
        listen: vec![([127, 0, 0, 1], 0).into()],
        root: root.to_path_buf(),
        verify: true,
        user_agent: "/vh/",
        ..Config::default()
    }
}

impl Node {
    /// Start a client. Its events are those from the very first one.
    fn start(root: &Path) -> Result<(Node, chan::Receiver<Event>), Violation> {
        Self::start_with(root, true)
    }

    fn start_with(root: &Path, verify: bool) -> Result<(Node, chan::Receiver<Event>), Violation> {
        let client = Client::<Reactor>::new().map_err(|e| Violation { sig: "start".into(), detail: e.to_string() })?;
        let mut handle = client.handle();
        let events = handle.events();
        let (tx, done) = chan::bounded(1);
        let (ltx, loading) = chan::unbounded();
        let cfg = Config { verify, ..config(root) };
        thread::spawn(move || {
            tx.send(guard("client", move || client.load(cfg, ltx).and_then(|c| c.run()).map_err(|e| e.to_string()))).ok();
        });
        handle.set_timeout(LIMIT);
        let Ok(addr) = handle.listening() else {
            return match done.try_recv() {
                Ok(Err(v)) => Err(v),
                Ok(Ok(r)) => viol("start", format!("the client ended at once: {r:?}")),
                Err(_) => viol("start", "the client doesn't listen"),
            };
        };
        Ok((Node { handle, addr, done, loading }, events))
    }

    fn alive(&self) -> Res {
        match self.done.try_recv() {
            Ok(Err(v)) => Err(v),
            Ok(Ok(r)) => viol("ended", format!("the client ended on its own: {r:?}")),
            Err(_) => Ok(()),
        }
    }

    /// Wait for the run loop to end, after a shutdown request.
    fn ends(&self) -> Res {
        match self.done.recv_timeout(LIMIT) {
            Ok(Err(v)) => Err(v),
            Ok(Ok(Ok(()))) => Ok(()),
            Ok(Ok(Err(e))) => viol("ended", format!("the client ended with an error: {e}")),
            Err(_) => viol("no-shutdown", format!("the run loop didn't end within {LIMIT:?} of a shutdown request")),
        }
    }
}

/// Run something that isn't allowed to block.
fn timed<T: Send + 'static>(what: &str, f: impl FnOnce() -> T + Send + 'static) -> Result<T, Violation> {
    let (tx, rx) = chan::bounded(1);
    let w = what.to_owned();
    thread::spawn(move || {
        tx.send(guard(&w, f)).ok();
    });
    match rx.recv_timeout(LIMIT) {
        Ok(r) => r,
        Err(_) => viol("blocked", format!("{what} didn't return within {LIMIT:?}")),
    }
}

// ---------------------------------------------------------------------------------------------
// Threads that ask about the chain, and what they were told.

/// Written by queries, in the order the client runs them.
#[derive(Clone, Debug)]
struct Mark {
    thread: usize,
    seq: usize,
    tip: BlockHash,
    branch: Option<Found>,
}

type Found = Option<(Height, Vec<BlockHash>)>;

#[derive(Clone, Debug)]
enum Answer {
    Tip(Height, BlockHash),
    ByHeight(Height, Option<BlockHash>),
    ByHash(BlockHash, Option<(Height, BlockHash)>),
    Branch(BlockHash, Found),
    /// The new tip, if it changed.
    Import(Option<(BlockHash, Height)>),
}

#[derive(Clone, Debug)]
struct Record {
    thread: usize,
    /// Queries sent before and after the call.
    before: usize,
    after: usize,
    answer: Answer,
}

#[derive(Default)]
struct Log {
    marks: Mutex<Vec<Mark>>,
}

struct Worker {
    id: usize,
    handle: Handle,
    ledger: Arc<Ledger>,
    tips: Vec<usize>,
    log: Arc<Log>,
    rng: fastrand::Rng,
    sent: usize,
    records: Vec<Record>,
}

type Gone = nakamoto_client::handle::Error;

impl Worker {
    fn mark(&mut self, find: Option<BlockHash>) -> Result<(), Gone> {
        let (log, thread, seq) = (self.log.clone(), self.id, self.sent);
        self.handle.query_tree(move |t| {
            let branch = find.map(|h| t.find_branch(&h).map(|(h, b)| (h, b.iter().map(|x| x.block_hash()).collect())));
            log.marks.lock().unwrap().push(Mark { thread, seq, tip: t.tip().0, branch });
        })?;
        self.sent += 1;
        Ok(())
    }

    fn some_hash(&self) -> BlockHash {
        match self.rng.u8(0..12) {
            0 => BlockHash::hash(&self.rng.u64(..).to_le_bytes()),
            _ => msgs::pick(&self.ledger.nodes, &self.rng).hash,
        }
    }

    /// One question between two marks.
    fn step(&mut self, import: bool) -> Result<(), Gone> {
        let kind = self.rng.u8(0..if import { 12 } else { 9 });
        let hash = self.some_hash();
        let find = (kind == 8).then_some(hash);
        self.mark(find)?;
        let before = self.sent - 1;
        let answer = match kind {
            0..=2 => {
                let (h, header, _) = self.handle.get_tip()?;
                Answer::Tip(h, header.block_hash())
            }
            3 | 4 => {
                let h = self.rng.u64(0..self.ledger.nodes.len() as u64 + 2);
                Answer::ByHeight(h, self.handle.get_block_by_height(h)?.map(|x| x.block_hash()))
            }
            5 | 6 => Answer::ByHash(hash, self.handle.get_block(&hash)?.map(|(h, x)| (h, x.block_hash()))),
            7 => {
                // A burst.
                for _ in 0..self.rng.usize(1..30) {
                    self.mark(None)?;
                }
                let (h, header, _) = self.handle.get_tip()?;
                Answer::Tip(h, header.block_hash())
            }
            8 => Answer::Branch(hash, self.handle.find_branch(&hash)?.map(|(h, b)| (h, b.iter().map(|x| x.block_hash()).collect()))),
            _ => {
                let tip = *msgs::pick(&self.tips, &self.rng);
                let chain = self.ledger.chain(tip);
                let a = self.rng.usize(..chain.len());
                let b = self.rng.usize(a..chain.len()) + 1;
                let a = if self.rng.bool() { a.min(1) } else { a };
                let hs: Vec<_> = chain[a..b].iter().map(|i| self.ledger.header(*i)).collect();
                match self.handle.import_headers(hs)? {
                    Ok(ImportResult::TipChanged { hash, height, .. }) => Answer::Import(Some((hash, height))),
                    Ok(ImportResult::TipUnchanged) | Err(_) => Answer::Import(None),
                }
            }
        };
        self.mark(find)?;
        self.records.push(Record { thread: self.id, before, after: self.sent - 1, answer });
        match self.rng.u8(0..10) {
            0 => thread::sleep(Duration::from_micros(self.rng.u64(0..2000))),
            1 => thread::yield_now(),
            _ => {}
        }
        Ok(())
    }
}

/// Judge what was answered against the history of tips.
fn judge(
    ledger: &Ledger,
    versions: &[usize],
    marks: &[Mark],
    records: &[Record],
    sent: &BTreeMap<usize, usize>,
    // If the client wasn't stopped early: changes of the tip reported to other imports.
    complete: Option<usize>,
    obs: &mut Obs,
) -> Res {
    let number: HashMap<BlockHash, usize> = versions.iter().enumerate().map(|(v, i)| (ledger.nodes[*i].hash, v)).collect();
    let mut next: BTreeMap<usize, usize> = BTreeMap::new();
    let mut last = 0;
    let mut at: HashMap<(usize, usize), usize> = HashMap::new();
    let mut branch: HashMap<(usize, usize), &Option<Found>> = HashMap::new();
    for m in marks {
        obs.inc("queries run");
        let n = next.entry(m.thread).or_insert(0);
        check!(m.seq >= *n, "repeated", "query {} of thread {} was run twice, or late: {} were already run", m.seq, m.thread, n);
        check!(m.seq == *n, "order", "query {} of thread {} was run, but {} is next", m.seq, m.thread, n);
        *n += 1;
        let Some(v) = number.get(&m.tip) else {
            return viol("unknown-tip", format!("a query saw the tip {}, which no event reported", m.tip));
        };
        check!(*v >= last, "backwards", "a query saw an older tip than the one before it");
        last = *v;
        at.insert((m.thread, m.seq), *v);
        branch.insert((m.thread, m.seq), &m.branch);
    }
    for (t, n) in sent {
        let ran = next.get(t).copied().unwrap_or(0);
        check!(ran <= *n, "repeated", "thread {t} sent {n} queries, of which {ran} were run");
        if complete.is_some() {
            check!(ran == *n, "lost", "thread {t} sent {n} queries, of which {ran} were run");
        }
    }
    let mut claimed: BTreeSet<BlockHash> = BTreeSet::new();
    for r in records {
        obs.inc("answers");
        let Some(a) = at.get(&(r.thread, r.before)).copied() else {
            return viol("order", format!("{r:?}: answered before an earlier query was run"));
        };
        let b = at.get(&(r.thread, r.after)).copied().unwrap_or(versions.len() - 1);
        let some = |f: &dyn Fn(usize) -> bool| versions[a..=b].iter().any(|t| f(*t));
        let hash = |i: Option<usize>| i.map(|i| ledger.nodes[i].hash);
        let ok = match &r.answer {
            Answer::Tip(h, x) => some(&|t| ledger.nodes[t].hash == *x && ledger.nodes[t].height == *h),
            Answer::ByHeight(h, x) => some(&|t| hash(ledger.at(t, *h)) == *x),
            Answer::ByHash(x, y) => some(&|t| {
                let i = ledger.index.get(x).copied().filter(|i| ledger.on(t, *i));
                i.map(|i| (ledger.nodes[i].height, *x)) == *y
            }),
            Answer::Branch(x, y) => {
                if a == b {
                    let seen: Vec<_> = [r.before, r.after].iter().filter_map(|k| branch.get(&(r.thread, *k)).and_then(|x| x.as_ref())).collect();
                    // Blocks that aren't on the active chain can become known meanwhile.
                    seen.len() < 2 || seen.iter().any(|s| *s == y)
                } else {
                    y.as_ref().map_or(true, |(_, p)| p.last() == Some(x))
                }
            }
            Answer::Import(Some((x, h))) => {
                check!(claimed.insert(*x), "import-twice", "the change of the tip to {x} was reported to two imports");
                a < b && versions[a + 1..=b].iter().any(|t| ledger.nodes[*t].hash == *x && ledger.nodes[*t].height == *h)
            }
            Answer::Import(None) => true,
        };
        check!(
            ok,
            "answer",
            "{r:?} is true of none of the tips {:?} the client had in between",
            versions[a..=b].iter().map(|t| (ledger.nodes[*t].height, ledger.nodes[*t].hash)).collect::<Vec<_>>()
        );
        obs.distinct((format!("{:?}", std::mem::discriminant(&r.answer)), a, b - a));
    }
    if let Some(n) = complete {
        check!(claimed.len() + n + 1 == versions.len(), "import-lost", "the tip changed {} times, but imports reported {} changes", versions.len() - 1, claimed.len() + n);
    }
    Ok(())
}

/// The tips, in order.
fn versions(ledger: &Ledger, start: usize, events: &[Event]) -> Result<Vec<usize>, Violation> {
    let mut v = vec![start];
    for e in events {
        if let Event::BlockHeadersImported { hash, height, .. } = e {
            let Some(i) = ledger.index.get(hash) else {
                return viol("foreign-tip", format!("tip {hash} isn't a block of any chain"));
            };
            check!(ledger.nodes[*i].height == *height, "height", "tip {hash} is reported at height {height}");
            check!(!v.contains(i), "tip-again", "{hash} became the tip twice");
            v.push(*i);
        }
    }
    Ok(v)
}

/// Everything a handle does, on a client that is gone.
fn all_gone(handle: &Handle, obs: &mut Obs) -> Res {
    type Call = fn(Handle) -> bool;
    let calls: [(&str, Call); 18] = [
        ("get_tip", |h| h.get_tip().is_err()),
        ("get_block", |h| h.get_block(&BlockHash::all_zeros()).is_err()),
        ("get_block_by_height", |h| h.get_block_by_height(0).is_err()),
        ("query_tree", |h| h.query_tree(|_| {}).is_err()),
        ("find_branch", |h| h.find_branch(&BlockHash::all_zeros()).is_err()),
        ("request_block", |h| h.request_block(&BlockHash::all_zeros()).is_err()),
        ("request_filters", |h| h.request_filters(0..=1).is_err()),
        ("get_peers", |h| h.get_peers(ServiceFlags::NONE).is_err()),
        ("import_headers", |h| h.import_headers(vec![]).is_err()),
        ("connect", |h| h.connect(([127, 0, 0, 1], 1).into()).is_err()),
        ("wait_for_height", |h| h.wait_for_height(1_000_000).is_err()),
        ("broadcast", |h| h.broadcast(NetworkMessage::SendHeaders, |_| true).is_err()),
        ("disconnect", |h| h.disconnect(([127, 0, 0, 1], 1).into()).is_err()),
        ("import_addresses", |h| h.import_addresses(vec![]).is_err()),
        ("get_submitted_transaction", |h| h.get_submitted_transaction(&Txid::all_zeros()).is_err()),
        ("rescan", |h| h.rescan(.., std::iter::empty()).is_err()),
        ("watch", |h| h.watch(std::iter::empty()).is_err()),
        ("shutdown", |h| h.shutdown().is_err()),
    ];
    for (name, f) in calls {
        obs.inc("calls after the end");
        let h = handle.clone();
        check!(timed(name, move || f(h))?, "no-error", "{name} succeeded after the client ended");
    }
    Ok(())
}

fn drained(events: &chan::Receiver<Event>) -> Vec<Event> {
    events.try_iter().collect()
}

/// Several threads using one client without any peers.
fn local(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier, early: bool, restart: bool) -> Res {
    let dir = Scratch::new();
    let len = rng.usize(3..if tier == Tier::Quick { 40 } else { 120 });
    let ch = sim::chains(rng, len, rng.usize(0..4), 0);
    let ledger = Arc::new(Ledger::new(&ch.forest.borrow()));
    let (node, events) = Node::start(&dir.0)?;
    let log: Arc<Log> = Default::default();
    let n = rng.usize(1..6);
    let steps = rng.usize(3..if tier == Tier::Quick { 30 } else { 120 });
    let stop = Arc::new(AtomicBool::new(false));
    let mut workers = vec![];
    for id in 0..n {
        let mut w = Worker {
            id,
            handle: node.handle.clone(),
            ledger: ledger.clone(),
            tips: ch.tips.clone(),
            log: log.clone(),
            rng: fastrand::Rng::with_seed(rng.u64(..)),
            sent: 0,
            records: vec![],
        };
        let stop = stop.clone();
        let (tx, rx) = chan::bounded(1);
        thread::spawn(move || {
            let mut k = 0;
            let gone = loop {
                match guard("handle", || w.step(true)) {
                    Err(v) => break Err(v),
                    Ok(Err(e)) => break Ok(Some(e.to_string())),
                    Ok(Ok(())) => {}
                }
                k += 1;
                if k >= steps && (!early || stop.load(Ordering::SeqCst)) {
                    break Ok(None);
                }
            };
            tx.send((gone, w)).ok();
        });
        workers.push(rx);
    }
    // Some wait for a height that is going to be reached.
    let best = ch.tips.iter().map(|t| ledger.nodes[*t].height).max().unwrap();
    let mut waiters = vec![];
    for _ in 0..rng.usize(0..3) {
        let h = if rng.bool() { best } else { rng.u64(0..=best) };
        let handle = node.handle.clone();
        let (tx, rx) = chan::bounded(1);
        let delay = rng.u64(0..3000);
        thread::spawn(move || {
            thread::sleep(Duration::from_micros(delay));
            tx.send((h, handle.wait_for_height(h).map_err(|e| e.to_string()))).ok();
        });
        waiters.push(rx);
    }
    if early {
        thread::sleep(Duration::from_micros(rng.u64(0..if rng.bool() { 500 } else { 20_000 })));
        let k = if rng.u8(0..4) == 0 { 2 } else { 1 };
        for _ in 0..k {
            let h = node.handle.clone();
            thread::spawn(move || h.shutdown());
        }
        node.ends()?;
        stop.store(true, Ordering::SeqCst);
    }
    let mut records = vec![];
    let mut sent = BTreeMap::new();
    for w in &workers {
        let Ok((gone, w)) = w.recv_timeout(LIMIT) else {
            node.alive()?;
            return viol("blocked", format!("a thread's call didn't return within {LIMIT:?} (shutdown requested: {early})"));
        };
        if let Some(e) = gone? {
            node.alive()?;
            check!(early, "error", "a call failed although the client is running: {e}");
            obs.inc("threads that saw the end");
        }
        records.extend(w.records);
        sent.insert(w.id, w.sent);
    }
    let (mut got, mut imported) = (vec![], 0);
    if !early {
        // Everything, such that nobody waits in vain.
        for t in &ch.tips {
            let hs: Vec<_> = ledger.chain(*t)[1..].iter().map(|i| ledger.header(*i)).collect();
            let h = node.handle.clone();
            let r = timed("import_headers", move || h.import_headers(hs))?;
            node.alive()?;
            check!(r.is_ok(), "error", "import_headers failed although the client is running");
            if let Ok(Ok(ImportResult::TipChanged { .. })) = r {
                imported += 1;
            }
        }
        for w in &waiters {
            let Ok((h, r)) = w.recv_timeout(LIMIT + Duration::from_secs(5)) else {
                return viol("blocked", "wait_for_height doesn't return");
            };
            match r {
                Ok(x) => got.push((h, x)),
                Err(e) => return viol("wait-for-height", format!("wait_for_height({h}) failed ({e}), although the chain has that height")),
            }
        }
        if rng.u8(0..4) == 0 {
            // The client ends with commands still waiting.
            for _ in 0..rng.usize(1..50) {
                node.handle.query_tree(|_| {}).ok();
            }
        }
        let h = node.handle.clone();
        timed("shutdown", move || h.shutdown().ok())?;
        node.ends()?;
    }
    let all = drained(&events);
    let vs = versions(&ledger, 0, &all)?;
    for (h, x) in got {
        obs.inc("heights waited for");
        check!(
            vs.iter().any(|t| ledger.at(*t, h).map_or(false, |i| ledger.nodes[i].hash == x)),
            "wait-for-height",
            "wait_for_height({h}) returned {x}, which was never at that height"
        );
    }
    let marks = log.marks.lock().unwrap().clone();
    judge(&ledger, &vs, &marks, &records, &sent, (!early).then_some(imported), obs)?;
    all_gone(&node.handle, obs)?;
    if restart {
        reload(&dir.0, &ledger, *vs.last().unwrap(), obs)?;
    }
    Ok(())
}

/// Start again from the same files.
fn reload(root: &Path, ledger: &Ledger, tip: usize, obs: &mut Obs) -> Res {
    let (node, _) = Node::start(root)?;
    let h = node.handle.clone();
    let r = timed("get_tip", move || h.get_tip())?;
    node.alive()?;
    let (height, header, _) = r.map_err(|e| Violation { sig: "error".into(), detail: e.to_string() })?;
    obs.inc("restarts");
    check!(
        header.block_hash() == ledger.nodes[tip].hash && height == ledger.nodes[tip].height,
        "restart",
        "the tip was {} at height {}; after a restart it is {} at height {height}",
        ledger.nodes[tip].hash,
        ledger.nodes[tip].height,
        header.block_hash()
    );
    for i in ledger.chain(tip) {
        let h = node.handle.clone();
        let k = ledger.nodes[i].height;
        let r = timed("get_block_by_height", move || h.get_block_by_height(k))?;
        check!(matches!(&r, Ok(Some(x)) if *x == ledger.header(i)), "restart", "after a restart, the block at height {k} is {r:?}");
    }
    let h = node.handle.clone();
    timed("shutdown", move || h.shutdown().ok())?;
    node.ends()
}

fn n04_threads(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    local(rng, obs, tier, false, false)
}

fn n04_shutdown(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    local(rng, obs, tier, true, false)
}

pub fn s02_client(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    local(rng, obs, tier, rng.bool(), true)
}

// ---------------------------------------------------------------------------------------------
// Peers on real sockets.

#[derive(Default)]
struct Seen {
    handshakes: usize,
    /// Connections that ended.
    ended: usize,
    open: usize,
    fees: BTreeSet<i64>,
    txs: BTreeSet<Txid>,
    streams: Vec<net::TcpStream>,
}

/// A full node that answers everything.
struct Mini {
    addr: SocketAddr,
    tip: Arc<AtomicUsize>,
    seen: Arc<Mutex<Seen>>,
    stop: Arc<AtomicBool>,
    ledger: Arc<Ledger>,
    services: ServiceFlags,
}

const MAGIC: fn() -> u32 = || Network::Regtest.magic();

fn post(s: &net::TcpStream, m: NetworkMessage) {
    let b = serialize(&RawNetworkMessage { magic: MAGIC(), payload: m });
    let mut w = s;
    w.write_all(&b).ok();
}

fn fetch(mut s: &net::TcpStream) -> Option<NetworkMessage> {
    let mut head = [0; 24];
    s.read_exact(&mut head).ok()?;
    let n = u32::from_le_bytes(head[16..20].try_into().unwrap()) as usize;
    let mut b = head.to_vec();
    b.resize(24 + n, 0);
    s.read_exact(&mut b[24..]).ok()?;
    deserialize::<RawNetworkMessage>(&b).ok().map(|m| m.payload)
}

fn serve_headers(l: &Ledger, tip: usize, m: &GetHeadersMessage) -> Vec<BlockHeader> {
    let from = m.locator_hashes.iter().filter_map(|h| l.index.get(h)).find(|i| l.on(tip, **i)).map_or(0, |i| l.nodes[*i].height as usize);
    l.chain(tip).iter().skip(from + 1).take(2000).map(|i| l.header(*i)).collect()
}

impl Mini {
    /// Nb. All peers share their tip: the client drops peers that don't have the filter headers
    /// of blocks it heard of from others.
    fn new(i: usize, case: u64, ledger: Arc<Ledger>, tip: Arc<AtomicUsize>, services: ServiceFlags) -> Mini {
        // A loopback address of its own, as the client tells peers apart by address.
        let ip = [127, 10 + (case % 50) as u8, (case / 50 % 250) as u8, 1 + i as u8];
        let listener = net::TcpListener::bind(SocketAddr::from((ip, 0))).expect("bind");
        let m = Mini {
            addr: listener.local_addr().unwrap(),
            tip,
            seen: Default::default(),
            stop: Default::default(),
            ledger,
            services,
        };
        listener.set_nonblocking(true).expect("nonblocking");
        let (stop, seen, tip, ledger) = (m.stop.clone(), m.seen.clone(), m.tip.clone(), m.ledger.clone());
        thread::spawn(move || {
            while !stop.load(Ordering::SeqCst) {
                match listener.accept() {
                    Ok((s, _)) => {
                        s.set_nonblocking(false).ok();
                        Self::session(s, false, seen.clone(), tip.clone(), ledger.clone(), services);
                    }
                    Err(_) => thread::sleep(Duration::from_millis(1)),
                }
            }
        });
        m
    }

    /// Connect to the client.
    fn dial(&self, to: SocketAddr) -> SocketAddr {
        let s = net::TcpStream::connect(to).expect("the client accepts connections");
        let a = s.local_addr().unwrap();
        Self::session(s, true, self.seen.clone(), self.tip.clone(), self.ledger.clone(), self.services);
        a
    }

    fn session(s: net::TcpStream, first: bool, seen: Arc<Mutex<Seen>>, tip: Arc<AtomicUsize>, l: Arc<Ledger>, services: ServiceFlags) {
        s.set_nodelay(true).ok();
        {
            let mut x = seen.lock().unwrap();
            x.open += 1;
            x.streams.push(s.try_clone().expect("clone"));
        }
        let version = {
            let l = l.clone();
            let tip = tip.clone();
            move |s: &net::TcpStream| {
                let a = s.peer_addr().unwrap_or(([127, 0, 0, 1], 1).into());
                NetworkMessage::Version(VersionMessage {
                    version: 70016,
                    services,
                    timestamp: std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64,
                    receiver: Address::new(&a, ServiceFlags::NONE),
                    sender: Address::new(&s.local_addr().unwrap_or(a), services),
                    nonce: fastrand::u64(..),
                    user_agent: "/mini/".into(),
                    start_height: l.nodes[tip.load(Ordering::SeqCst)].height as i32,
                    relay: true,
                })
            }
        };
        thread::spawn(move || {
            use NetworkMessage as M;
            if first {
                post(&s, version(&s));
            }
            while let Some(m) = fetch(&s) {
                let t = tip.load(Ordering::SeqCst);
                let has = |h: &BlockHash| l.index.get(h).copied().filter(|i| l.on(t, *i));
                match m {
                    M::Version(_) => {
                        if !first {
                            post(&s, version(&s));
                        }
                        post(&s, M::Verack);
                    }
                    M::Verack => seen.lock().unwrap().handshakes += 1,
                    M::Ping(n) => post(&s, M::Pong(n)),
                    M::GetHeaders(m) => post(&s, M::Headers(serve_headers(&l, t, &m))),
                    M::GetCFHeaders(m) => {
                        if let Some(i) = has(&m.stop_hash) {
                            let chain = l.chain(i);
                            let a = m.start_height as usize;
                            if a < chain.len() {
                                post(
                                    &s,
                                    M::CFHeaders(CFHeaders {
                                        filter_type: 0,
                                        stop_hash: m.stop_hash,
                                        previous_filter_header: if a == 0 { FilterHeader::all_zeros() } else { l.nodes[chain[a - 1]].fheader },
                                        filter_hashes: chain[a..].iter().map(|i| l.nodes[*i].fhash).collect(),
                                    }),
                                );
                            }
                        }
                    }
                    M::GetCFilters(m) => {
                        if let Some(i) = has(&m.stop_hash) {
                            for i in l.chain(i).iter().skip(m.start_height as usize) {
                                post(&s, M::CFilter(CFilter { filter_type: 0, block_hash: l.nodes[*i].hash, filter: l.nodes[*i].filter.clone() }));
                            }
                        }
                    }
                    M::GetData(v) => {
                        for i in v {
                            match i {
                                Inventory::Block(h) | Inventory::WitnessBlock(h) => match has(&h) {
                                    Some(k) => post(&s, M::Block(l.nodes[k].block.clone())),
                                    None => post(&s, M::NotFound(vec![i])),
                                },
                                _ => post(&s, M::NotFound(vec![i])),
                            }
                        }
                    }
                    M::Inv(v) => {
                        let want: Vec<_> = v
                            .iter()
                            .filter_map(|i| match i {
                                Inventory::Transaction(t) => Some(Inventory::WitnessTransaction(*t)),
                                Inventory::WitnessTransaction(_) | Inventory::WTx(_) => Some(*i),
                                _ => None,
                            })
                            .collect();
                        if !want.is_empty() {
                            post(&s, M::GetData(want));
                        }
                    }
                    M::Tx(t) => {
                        seen.lock().unwrap().txs.insert(t.txid());
                    }
                    M::FeeFilter(n) => {
                        seen.lock().unwrap().fees.insert(n);
                    }
                    _ => {}
                }
            }
            s.shutdown(net::Shutdown::Both).ok();
            let mut x = seen.lock().unwrap();
            x.open -= 1;
            x.ended += 1;
        });
    }

    /// Tell the client about a better chain.
    fn announce(&self, to: usize) {
        self.tip.store(to, Ordering::SeqCst);
        let hash = self.ledger.nodes[to].hash;
        for s in &self.seen.lock().unwrap().streams {
            post(s, NetworkMessage::Inv(vec![Inventory::Block(hash)]));
        }
    }

    fn hang_up(&self) {
        for s in self.seen.lock().unwrap().streams.drain(..) {
            s.shutdown(net::Shutdown::Both).ok();
        }
    }

    fn until(&self, f: impl Fn(&Seen) -> bool) -> bool {
        let t = Instant::now();
        while t.elapsed() < LIMIT {
            if f(&self.seen.lock().unwrap()) {
                return true;
            }
            thread::sleep(Duration::from_micros(500));
        }
        false
    }
}

impl Drop for Mini {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
        self.hang_up();
    }
}

/// Wait for something to show up in a list of events that another thread receives.
struct Feed {
    seen: Arc<Mutex<Vec<Event>>>,
}

impl Feed {
    fn new(rx: chan::Receiver<Event>, stop: Arc<AtomicBool>) -> Feed {
        let seen: Arc<Mutex<Vec<Event>>> = Default::default();
        let s = seen.clone();
        thread::spawn(move || loop {
            let last = stop.load(Ordering::SeqCst);
            let got: Vec<_> = rx.try_iter().collect();
            s.lock().unwrap().extend(got);
            if last {
                break;
            }
            thread::sleep(Duration::from_micros(300));
        });
        Feed { seen }
    }
    fn until(&self, f: impl Fn(&[Event]) -> bool) -> bool {
        let t = Instant::now();
        while t.elapsed() < LIMIT {
            if f(&self.seen.lock().unwrap()) {
                return true;
            }
            thread::sleep(Duration::from_micros(300));
        }
        false
    }
}

/// Peers that have completed the handshake, after some events.
fn negotiated(events: &[Event]) -> BTreeSet<SocketAddr> {
    let mut up = BTreeSet::new();
    for e in events {
        match e {
            Event::PeerNegotiated { addr, .. } => {
                up.insert(*addr);
            }
            Event::PeerDisconnected { addr, .. } => {
                up.remove(addr);
            }
            _ => {}
        }
    }
    up
}

static CASE: AtomicU64 = AtomicU64::new(0);

/// A client with peers, used by several threads.
fn live(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let dir = Scratch::new();
    let len = rng.usize(8..if tier == Tier::Quick { 40 } else { 300 });
    let scripts: Vec<_> = (0..3).map(|_| blocks::script(rng)).collect();
    let mut f = Forest::new(Network::Regtest);
    let main = f.grow(0, len, 2, &scripts, rng);
    let ledger = Arc::new(Ledger::new(&f));
    let chain = ledger.chain(main);
    let case = CASE.fetch_add(1, Ordering::SeqCst);
    let full = ServiceFlags::NETWORK | ServiceFlags::WITNESS | ServiceFlags::COMPACT_FILTERS;
    let n = rng.usize(2..5);
    let tip = Arc::new(AtomicUsize::new(chain[rng.usize(..chain.len() / 2)]));
    let mut minis: Vec<Mini> =
        (0..n).map(|i| Mini::new(i, case, ledger.clone(), tip.clone(), full)).collect();
    let (node, events) = Node::start(&dir.0)?;
    let (blocks_rx, filters_rx, again) = (node.handle.blocks(), node.handle.filters(), node.handle.events());
    let stop: Arc<AtomicBool> = Default::default();
    let feed = Feed::new(events, stop.clone());
    let res = live_session(rng, obs, &node, &mut minis, &ledger, &chain, &feed);
    node.alive()?;
    res?;
    // The end.
    let h = node.handle.clone();
    timed("shutdown", move || h.shutdown().ok())?;
    node.ends()?;
    for m in &minis {
        check!(m.until(|s| s.open == 0), "still-open", "the client ended, but its connection to {} didn't", m.addr);
    }
    all_gone(&node.handle, obs)?;
    stop.store(true, Ordering::SeqCst);
    thread::sleep(Duration::from_millis(5));
    let fd = Instant::now();
    while Arc::strong_count(&feed.seen) > 1 && fd.elapsed() < LIMIT {
        thread::sleep(Duration::from_millis(1));
    }
    let all = feed.seen.lock().unwrap().clone();
    // All streams tell the same story.
    let again: Vec<_> = again.try_iter().collect();
    let show = |v: &[Event]| v.iter().map(|e| format!("{e:?}")).collect::<Vec<_>>();
    let (a, b) = (show(&all), show(&again));
    check!(a.ends_with(&b) && a.len() - b.len() <= 8, "streams", "two subscribers to the same events received {} and {}", a.len(), b.len());
    let late = a.len() - b.len();
    let want: Vec<_> = all[late..].iter().filter_map(|e| if let Event::BlockProcessed { block, height, .. } = e { Some((block.block_hash(), *height)) } else { None }).collect();
    let got: Vec<_> = blocks_rx.try_iter().map(|(b, h)| (b.block_hash(), h)).collect();
    check!(want == got, "streams", "blocks processed: {want:?}; blocks received: {got:?}");
    obs.add("blocks received", got.len() as u64);
    let want: Vec<_> = all[late..].iter().filter_map(|e| if let Event::FilterReceived { block, height, filter, .. } = e { Some((filter.content.clone(), *block, *height)) } else { None }).collect();
    let got: Vec<_> = filters_rx.try_iter().map(|(f, b, h)| (f.content, b, h)).collect();
    check!(want == got, "streams", "{} filters were reported, {} received", want.len(), got.len());
    for (content, block, height) in got {
        obs.inc("filters received");
        let ok = ledger.index.get(&block).map_or(false, |i| ledger.nodes[*i].height == height && ledger.nodes[*i].filter == content);
        check!(ok, "filter", "a wrong filter was received for {block} at height {height}");
    }
    let vs = versions(&ledger, 0, &all)?;
    if rng.u8(0..4) == 0 {
        reload(&dir.0, &ledger, *vs.last().unwrap(), obs)?;
    }
    Ok(())
}

/// Meanwhile, somebody waits for something about an address nobody listens on, next to `addr`.
fn decoy(h: &Handle, addr: SocketAddr, f: fn(Handle, SocketAddr) -> bool) -> chan::Receiver<bool> {
    let (tx, rx) = chan::bounded(1);
    let mut h = h.clone();
    thread::spawn(move || {
        h.set_timeout(Duration::from_millis(100));
        tx.send(f(h, SocketAddr::new(addr.ip(), 1))).ok();
    });
    thread::sleep(Duration::from_millis(3));
    rx
}

fn live_session(rng: &fastrand::Rng, obs: &mut Obs, node: &Node, minis: &mut [Mini], ledger: &Arc<Ledger>, chain: &[usize], feed: &Feed) -> Res {
    let err = |what: &str, e: &dyn std::fmt::Display| Violation { sig: what.to_owned(), detail: format!("{what} failed: {e}") };
    let mut up: BTreeSet<usize> = BTreeSet::new();
    let mut fee = 0;
    // Another thread that asks all the time.
    let log: Arc<Log> = Default::default();
    let quit: Arc<AtomicBool> = Default::default();
    let mut w = Worker {
        id: 0,
        handle: node.handle.clone(),
        ledger: ledger.clone(),
        tips: vec![],
        log: log.clone(),
        rng: fastrand::Rng::with_seed(rng.u64(..)),
        sent: 0,
        records: vec![],
    };
    let q = quit.clone();
    let (wtx, wrx) = chan::bounded(1);
    thread::spawn(move || {
        let r = loop {
            match guard("handle", || w.step(false)) {
                Err(v) => break Err(v),
                Ok(Err(e)) => break Ok(Some(e.to_string())),
                Ok(Ok(())) => {}
            }
            if q.load(Ordering::SeqCst) {
                break Ok(None);
            }
            thread::sleep(Duration::from_micros(1500));
        };
        wtx.send((r, w)).ok();
    });
    for _ in 0..rng.usize(3..16) {
        let i = rng.usize(..minis.len());
        let m = &minis[i];
        let addr = m.addr;
        let h = node.handle.clone();
        node.alive()?;
        match rng.u8(0..9) {
            0 | 1 if !up.contains(&i) => {
                let decoy = rng.bool().then(|| decoy(&node.handle, addr, |h, a| h.connect(a).is_err()));
                let r = timed("connect", move || h.connect(addr))?;
                let link = r.map_err(|e| err("connect", &e))?;
                check!(link == Link::Outbound, "link", "connect returned {link:?}");
                obs.inc("connect");
                if let Some(d) = decoy {
                    check!(d.recv_timeout(LIMIT).unwrap_or(false), "other-peer", "connecting to {addr} was taken for a connection to another address");
                    obs.inc("failed connects");
                }
                check!(feed.until(|e| negotiated(e).contains(&addr)), "no-handshake", "{addr}: no handshake after connecting");
                up.insert(i);
            }
            2 if up.contains(&i) => {
                let ended = m.seen.lock().unwrap().ended;
                let decoy = rng.bool().then(|| decoy(&node.handle, addr, |h, a| h.disconnect(a).is_err()));
                timed("disconnect", move || h.disconnect(addr))?.map_err(|e| err("disconnect", &e))?;
                check!(m.until(|s| s.ended > ended), "no-disconnect", "{addr}: disconnected, but the peer's connection doesn't end");
                up.remove(&i);
                obs.inc("disconnect");
                if let Some(d) = decoy {
                    check!(d.recv_timeout(LIMIT).unwrap_or(false), "other-peer", "disconnecting from {addr} was taken for a disconnection from another address");
                    obs.inc("failed disconnects");
                }
            }
            3 if up.contains(&i) => {
                m.hang_up();
                check!(feed.until(|e| !negotiated(e).contains(&addr)), "no-notice", "{addr} hung up, but no event says so");
                up.remove(&i);
                obs.inc("hang-ups");
            }
            4 | 5 if up.contains(&i) => {
                // A better chain, by someone the client is connected to.
                let t = m.tip.load(Ordering::SeqCst);
                let k = ledger.nodes[t].height as usize;
                let k = rng.usize(k..chain.len());
                let (want, to) = (ledger.nodes[chain[k]].hash, chain[k]);
                let wait = rng.u64(0..=k as u64);
                let (tx, rx) = chan::bounded(1);
                let (h2, early) = (h.clone(), rng.bool());
                if early {
                    thread::spawn(move || tx.send(h2.wait_for_height(wait)).ok());
                    m.announce(to);
                } else {
                    m.announce(to);
                    thread::spawn(move || tx.send(h2.wait_for_height(wait)).ok());
                }
                match rx.recv_timeout(LIMIT + Duration::from_secs(5)) {
                    Ok(Ok(x)) => check!(x == ledger.nodes[chain[wait as usize]].hash, "wait-for-height", "wait_for_height({wait}) returned {x}"),
                    Ok(Err(e)) => {
                        let tip = timed("get_tip", move || h.get_tip())?.map(|t| t.0).ok();
                        return viol("wait-for-height", format!("wait_for_height({wait}) failed: {e}; the tip's height is {tip:?}, {addr} announced {k} ({want})"));
                    }
                    Err(_) => return viol("blocked", "wait_for_height doesn't return"),
                }
                obs.inc("wait_for_height");
            }
            6 if !up.is_empty() => {
                // A block that all connected peers have.
                let low = up.iter().map(|i| ledger.nodes[minis[*i].tip.load(Ordering::SeqCst)].height).min().unwrap();
                let tip = timed("get_tip", {
                    let h = h.clone();
                    move || h.get_tip()
                })?
                .map_err(|e| err("get_tip", &e))?;
                let k = rng.u64(0..=low.min(tip.0)) as usize;
                let hash = ledger.nodes[chain[k]].hash;
                let rx = h.blocks();
                timed("request_block", move || h.request_block(&hash))?.map_err(|e| err("request_block", &e))?;
                let t = Instant::now();
                let mut ok = false;
                while t.elapsed() < LIMIT && !ok {
                    if let Ok((b, x)) = rx.recv_timeout(Duration::from_millis(20)) {
                        if b.block_hash() == hash {
                            check!(x == k as u64 && b == ledger.nodes[chain[k]].block, "block", "block {hash} was delivered with other content or height {x}");
                            ok = true;
                        }
                    }
                }
                check!(ok, "no-block", "block {hash} was requested, but isn't delivered");
                obs.inc("request_block");
            }
            7 if !up.is_empty() => {
                let tx = blocks::random_tx(rng);
                let (id, tx2, h2) = (tx.txid(), tx.clone(), h.clone());
                let to = timed("submit_transaction", move || h.submit_transaction(tx2))?.map_err(|e| err("submit_transaction", &e))?;
                for a in to.iter() {
                    let Some(m) = minis.iter().find(|m| m.addr == *a) else {
                        return viol("submit", format!("a transaction was announced to {a}, which isn't a peer"));
                    };
                    check!(up.iter().any(|i| minis[*i].addr == *a), "submit", "a transaction was announced to {a}, which isn't connected");
                    check!(m.until(|s| s.txs.contains(&id)), "no-tx", "{a} was never sent the submitted transaction");
                }
                let r = timed("get_submitted_transaction", move || h2.get_submitted_transaction(&id))?;
                check!(matches!(&r, Ok(Some(t)) if *t == tx), "submit", "the submitted transaction isn't found: {r:?}");
                obs.inc("submit_transaction");
            }
            8 => {
                fee += 1;
                let (n, before) = (fee, up.clone());
                let to = timed("broadcast", move || h.broadcast(NetworkMessage::FeeFilter(n), |p| p.is_outbound()))?.map_err(|e| err("broadcast", &e))?;
                let to: BTreeSet<_> = to.into_iter().collect();
                let want: BTreeSet<_> = before.iter().map(|i| minis[*i].addr).collect();
                check!(to == want, "broadcast", "broadcast to {to:?}, but the outbound peers are {want:?}");
                for i in before {
                    check!(minis[i].until(|s| s.fees.contains(&n)), "broadcast", "{}: the broadcast message doesn't arrive", minis[i].addr);
                }
                obs.inc("broadcast");
            }
            _ => {
                // Wait for peers that come and go.
                let (need, have) = (up.len() + 1, up.len());
                let free: Vec<usize> = (0..minis.len()).filter(|i| !up.contains(i)).collect();
                if free.is_empty() {
                    let r = timed("wait_for_peers", move || h.wait_for_peers(have, ServiceFlags::NETWORK))?.map_err(|e| err("wait_for_peers", &e))?;
                    check!(r.len() >= have, "wait-for-peers", "{} of {have} peers were returned", r.len());
                    continue;
                }
                let (tx, rx) = chan::bounded(1);
                let h2 = h.clone();
                thread::spawn(move || tx.send(h2.wait_for_peers(need, ServiceFlags::NETWORK)).ok());
                thread::sleep(Duration::from_millis(rng.u64(0..30)));
                // One leaves, before any other comes.
                let mut join = 1;
                if have > 0 && free.len() > 1 && rng.bool() {
                    let i = *up.iter().next().unwrap();
                    let a = minis[i].addr;
                    minis[i].hang_up();
                    check!(feed.until(|e| !negotiated(e).contains(&a)), "no-notice", "{a} hung up, but no event says so");
                    up.remove(&i);
                    join = 2;
                }
                for i in free.iter().take(join) {
                    let a = minis[*i].addr;
                    let h2 = h.clone();
                    timed("connect", move || h2.connect(a))?.map_err(|e| err("connect", &e))?;
                    check!(feed.until(|e| negotiated(e).contains(&a)), "no-handshake", "{a}: no handshake after connecting");
                    up.insert(*i);
                }
                match rx.recv_timeout(LIMIT + Duration::from_secs(5)) {
                    Ok(Ok(r)) => {
                        let got: BTreeSet<SocketAddr> = r.iter().map(|x| x.0).collect();
                        check!(got.len() >= need && r.iter().all(|x| x.2.has(ServiceFlags::NETWORK)), "wait-for-peers", "wait_for_peers({need}) returned {r:?}");
                        let seen = feed.seen.lock().unwrap();
                        let ever = (0..=seen.len()).any(|k| got.is_subset(&negotiated(&seen[..k])));
                        check!(ever, "wait-for-peers", "wait_for_peers({need}) returned peers that were never connected at the same time: {got:?}");
                    }
                    Ok(Err(e)) => return viol("wait-for-peers", format!("wait_for_peers({need}) failed ({e}), although {} peers are connected", up.len())),
                    Err(_) => return viol("blocked", "wait_for_peers doesn't return"),
                }
                obs.inc("wait_for_peers");
            }
        }
        obs.distinct((up.clone(), ledger.nodes.len()));
    }
    // A peer that dials the client.
    if rng.bool() {
        let a = minis[0].dial(node.addr);
        check!(feed.until(|e| negotiated(e).contains(&a)), "no-handshake", "{a}: no handshake with an inbound peer");
        let h = node.handle.clone();
        let r = timed("get_peers", move || h.get_peers(ServiceFlags::NETWORK))?.map_err(|e| err("get_peers", &e))?;
        let got: BTreeSet<_> = r.iter().map(|p| p.addr).collect();
        let mut want: BTreeSet<_> = up.iter().map(|i| minis[*i].addr).collect();
        want.insert(a);
        check!(got == want, "get-peers", "get_peers returned {got:?}, but the peers are {want:?}");
        obs.inc("inbound peers");
    }
    quit.store(true, Ordering::SeqCst);
    let Ok((gone, w)) = wrx.recv_timeout(LIMIT) else {
        return viol("blocked", format!("a thread's call didn't return within {LIMIT:?}"));
    };
    if let Some(e) = gone? {
        return viol("error", format!("a call failed although the client is running: {e}"));
    }
    // All its queries were run before this.
    let h = node.handle.clone();
    timed("get_tip", move || h.get_tip().is_ok())?;
    thread::sleep(Duration::from_millis(3));
    let vs = versions(ledger, 0, &feed.seen.lock().unwrap())?;
    let marks: Vec<_> = log.marks.lock().unwrap().clone();
    let sent: BTreeMap<usize, usize> = [(0, w.sent)].into();
    let ran = marks.len();
    check!(ran == w.sent, "lost", "{} queries were sent, {ran} were run", w.sent);
    judge(ledger, &vs, &marks, &w.records, &sent, None, obs)
}

/// Start from files of any length, with peers that have moved on meanwhile.
pub fn s02_start(rng: &mut fastrand::Rng, obs: &mut Obs, _tier: Tier) -> Res {
    start(rng, obs, false)
}

/// A crash in the middle of a re-organization: the headers were replaced, the filter headers not yet.
pub fn s02_torn(rng: &mut fastrand::Rng, obs: &mut Obs, _tier: Tier) -> Res {
    start(rng, obs, true)
}

fn start(rng: &mut fastrand::Rng, obs: &mut Obs, torn: bool) -> Res {
    use nakamoto_chain::block::store::{self, Store as _};
    use nakamoto_chain::filter::cache::StoredHeader;
    let dir = Scratch::new();
    let d = dir.0.join(".nakamoto").join(Network::Regtest.as_str());
    std::fs::create_dir_all(&d).expect("scratch directory");
    let scripts: Vec<_> = (0..3).map(|_| blocks::script(rng)).collect();
    let mut f = Forest::new(Network::Regtest);
    let n = rng.usize(2..30);
    let a = f.grow(0, n, 1, &scripts, rng);
    let from = f.chain(a)[rng.usize(..n)];
    let back = n - f.nodes[from].height as usize;
    let b = f.grow(from, back + rng.usize(1..6), 1, &scripts, rng);
    let ledger = Arc::new(Ledger::new(&f));
    let chain = ledger.chain(a);
    // What is left of the files: whole records, or less.
    let (k, m) = if torn { (ledger.nodes[b].height as usize, rng.usize(n - back + 1..=n)) } else { (rng.usize(0..=n), rng.usize(0..=n)) };
    let hchain = if torn { ledger.chain(b) } else { chain.clone() };
    let (hp, fp) = (d.join("headers.db"), d.join("filters.db"));
    {
        let mut s = store::File::create(&hp, ledger.header(0)).expect("store");
        s.put(hchain[1..=k].iter().map(|i| ledger.header(*i))).expect("put");
        let g = StoredHeader { hash: ledger.nodes[0].fhash, header: ledger.nodes[0].fheader };
        let mut s = store::File::create(&fp, g).expect("store");
        s.put(chain[1..=m].iter().map(|i| StoredHeader { hash: ledger.nodes[*i].fhash, header: ledger.nodes[*i].fheader })).expect("put");
    }
    let mut whole = [k, m];
    for (i, (p, size)) in [(&hp, 80), (&fp, 64)].into_iter().enumerate() {
        if !torn && rng.bool() && whole[i] > 0 {
            let x = std::fs::read(p).expect("read");
            check!(x.len() == size * whole[i], "record-size", "{} bytes for {} records", x.len(), whole[i]);
            std::fs::write(p, &x[..x.len() - rng.usize(1..size)]).expect("write");
            whole[i] -= 1;
        }
    }
    let [k, m] = whole;
    let to = if !torn && rng.bool() { a } else { b };
    let case = CASE.fetch_add(1, Ordering::SeqCst);
    let full = ServiceFlags::NETWORK | ServiceFlags::WITNESS | ServiceFlags::COMPACT_FILTERS;
    let mini = Mini::new(0, case, ledger.clone(), Arc::new(AtomicUsize::new(to)), full);
    let verify = rng.bool();
    if rng.u8(..) < 64 {
        // Loading is given up when nobody listens any more; nothing is lost by that.
        let client = Client::<Reactor>::new().map_err(|e| Violation { sig: "start".into(), detail: e.to_string() })?;
        let ltx = chan::unbounded::<Loading>().0;
        let cfg = Config { verify, ..config(&dir.0) };
        let r = timed("load", move || client.load(cfg, ltx).map(|_| ()).map_err(|e| e.to_string()))?;
        check!(r.is_err() || k == 0, "interrupt", "{k} headers were loaded, though nobody listens");
        obs.inc("loads that were given up");
    }
    let (node, events) = Node::start_with(&dir.0, verify)?;
    let loaded: Vec<_> = node.loading.try_iter().collect();
    let hs: Vec<_> = loaded.iter().filter_map(|e| if let Loading::BlockHeaderLoaded { height } = e { Some(*height) } else { None }).collect();
    let fs: Vec<_> = loaded.iter().filter_map(|e| if let Loading::FilterHeaderLoaded { height } = e { Some(*height) } else { None }).collect();
    check!(hs == (1..=k as Height).collect::<Vec<_>>(), "loading", "{k} headers were stored; reported as loaded: {hs:?}");
    check!(fs == (1..=m.min(k) as Height).collect::<Vec<_>>(), "loading", "{k} headers and {m} filter headers were stored; filter headers reported as loaded: {fs:?}");
    obs.inc(if m > k { "starts with more filter headers than headers" } else { "starts" });
    obs.distinct((n, k, m, to == a, back));
    let h = node.handle.clone();
    let tip = timed("get_tip", move || h.get_tip())?.map_err(|e| Violation { sig: "error".into(), detail: e.to_string() })?;
    check!(tip.0 == k as Height && tip.1 == ledger.header(hchain[k]), "restart", "{k} headers were stored; the tip's height is {}", tip.0);
    let (h, addr) = (node.handle.clone(), mini.addr);
    timed("connect", move || h.connect(addr).is_ok())?;
    // Everything is fetched.
    let best = ledger.nodes[to].height.max(k as Height);
    let end = if ledger.nodes[to].height >= k as Height { to } else { hchain[k] };
    let h = node.handle.clone();
    let r = timed("wait_for_height", move || h.wait_for_height(best))?;
    node.alive()?;
    check!(matches!(r, Ok(x) if x == ledger.nodes[end].hash), "resync", "wait_for_height({best}) returned {r:?}");
    let rx = node.handle.filters();
    let t = Instant::now();
    loop {
        let h = node.handle.clone();
        let r = timed("request_filters", move || h.request_filters(1..=best))?;
        node.alive()?;
        if r.is_ok() {
            break;
        }
        check!(
            t.elapsed() < if torn { Duration::from_secs(5) } else { LIMIT },
            if torn { "filters-of-torn-reorg" } else { "filter-resync" },
            "{k} headers and {m} filter headers were stored; the chain was synced to height {best}, but not the filter headers: {r:?} (events: {:?})",
            drained(&events).iter().map(|e| e.to_string()).collect::<Vec<_>>()
        );
        thread::sleep(Duration::from_millis(5));
    }
    let mut missing: BTreeSet<Height> = (1..=best).collect();
    let t = Instant::now();
    while !missing.is_empty() && t.elapsed() < LIMIT {
        if let Ok((f, b, h)) = rx.recv_timeout(Duration::from_millis(20)) {
            let i = ledger.at(end, h);
            check!(i.map_or(false, |i| ledger.nodes[i].hash == b && ledger.nodes[i].filter == f.content), "filter", "a wrong filter was received for {b} at height {h}");
            missing.remove(&h);
        }
    }
    check!(missing.is_empty(), "filter-resync", "{k} headers and {m} filter headers were stored; filters {missing:?} were requested, but aren't received");
    let h = node.handle.clone();
    timed("shutdown", move || h.shutdown().ok())?;
    node.ends()?;
    reload(&dir.0, &ledger, end, obs)
}

// ---------------------------------------------------------------------------------------------
// N01: the streams of a client, with a service that publishes what it is told to.

struct Script {
    out: VecDeque<Io<Vec<u8>, Event, nakamoto_p2p::DisconnectReason>>,
    blocks: Arc<Vec<Block>>,
    /// Everything handed over for publication.
    log: Arc<Mutex<Vec<u64>>>,
    next: u64,
}

/// Which content an event has: some have the same as the previous one of their kind, as when a block is
/// processed again.
fn content(n: u64) -> u64 {
    if mix(n, 5) % 4 == 0 {
        (n.saturating_sub(12)..n).rev().find(|m| kind(*m) == kind(n)).unwrap_or(n)
    } else {
        n
    }
}

/// Heights go up and down, as in a re-organisation, and are repeated.
fn height(c: u64) -> Height {
    mix(c, 3) % 64
}

/// The content of an event, if it's one that was published.
fn number(e: &Event, blocks: &[Block]) -> Option<u64> {
    let (c, ok) = match e {
        Event::BlockProcessed { block, height: h, .. } => (block.header.nonce as u64, *h == height(block.header.nonce as u64)),
        Event::BlockMatched { block, height: h } => (block.header.nonce as u64, *h == height(block.header.nonce as u64)),
        Event::FilterReceived { filter, height: h, block, .. } => {
            let c = u64::from_le_bytes(filter.content.clone().try_into().ok()?);
            (c, *h == height(c) && *block == blocks[c as usize % blocks.len()].block_hash())
        }
        Event::PeerHeightUpdated { height } => (*height, true),
        _ => return None,
    };
    (ok && format!("{e:?}") == format!("{:?}", event(c, blocks))).then_some(c)
}

/// The event with this content.
fn event(c: u64, blocks: &[Block]) -> Event {
    let mut block = blocks[c as usize % blocks.len()].clone();
    let hash = block.block_hash();
    block.header.nonce = c as u32;
    match kind(c) {
        0 => Event::BlockProcessed { block, height: height(c), fees: None },
        1 => Event::FilterReceived { from: ([1, 2, 3, 4], 5).into(), filter: BlockFilter::new(&c.to_le_bytes()), height: height(c), block: hash },
        2 => Event::PeerHeightUpdated { height: c },
        _ => Event::BlockMatched { block, height: height(c) },
    }
}

impl Iterator for Script {
    type Item = Io<Vec<u8>, Event, nakamoto_p2p::DisconnectReason>;

    fn next(&mut self) -> Option<Self::Item> {
        let io = self.out.pop_front()?;
        if let Io::Event(e) = &io {
            self.log.lock().unwrap().push(number(e, &self.blocks).unwrap());
        }
        Some(io)
    }
}

impl StateMachine for Script {
    type Message = [u8];
    type Event = Event;
    type DisconnectReason = nakamoto_p2p::DisconnectReason;

    fn initialize(&mut self, _: LocalTime) {}
    fn message_received(&mut self, _: &SocketAddr, _: Cow<[u8]>) {}
    fn attempted(&mut self, _: &SocketAddr) {}
    fn connected(&mut self, _: SocketAddr, _: &SocketAddr, _: Link) {}
    fn disconnected(&mut self, _: &SocketAddr, _: Disconnect<Self::DisconnectReason>) {}
    fn tick(&mut self, _: LocalTime) {}
    fn timer_expired(&mut self) {}
}

/// What event number `n` is.
fn kind(n: u64) -> u64 {
    mix(n, 77) % 4
}

impl Service for Script {
    type Command = Command;

    fn command_received(&mut self, c: Command) {
        // "Publish the next so many events".
        if let Command::GetBlockByHeight(count, _) = c {
            for _ in 0..count {
                let n = self.next;
                self.next += 1;
                let e = event(content(n), &self.blocks);
                self.out.push_back(Io::Event(e));
            }
        }
    }
}

/// A subscription, its bounds, and what it received.
struct Sub {
    what: usize,
    least: u64,
    most: u64,
    got: Vec<u64>,
    whole: bool,
}

pub fn n01_client(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let client = Client::<Reactor>::new().map_err(|e| Violation { sig: "start".into(), detail: e.to_string() })?;
    let mut handle = client.handle();
    let log: Arc<Mutex<Vec<u64>>> = Default::default();
    let blocks: Arc<Vec<Block>> = {
        let mut f = Forest::new(Network::Regtest);
        f.grow(0, 3, 0, &[], rng);
        Arc::new(f.nodes.iter().map(|n| n.block.clone()).collect())
    };
    let service = Script { out: VecDeque::new(), blocks: blocks.clone(), log: log.clone(), next: 0 };
    let (tx, done) = chan::bounded(1);
    thread::spawn(move || {
        tx.send(guard("client", move || client.run_service(&[([127, 0, 0, 1], 0).into()], service).map_err(|e| e.to_string()))).ok();
    });
    handle.set_timeout(LIMIT);
    check!(handle.listening().is_ok(), "start", "the client doesn't listen");
    let stop: Arc<AtomicBool> = Default::default();
    let mut readers = vec![];
    // What a subscriber receives must be right, whatever it subscribed to.
    fn take(rx: &Rx, blocks: &[Block], out: &mut Vec<u64>) -> Res {
        let mut add = |e: Event| -> Res {
            let Some(n) = number(&e, blocks) else {
                return viol("foreign", format!("{e:?} was never published"));
            };
            out.push(n);
            Ok(())
        };
        match rx {
            Rx::Events(r) => r.try_iter().try_for_each(|e| add(e))?,
            Rx::Blocks(r) => r.try_iter().try_for_each(|(block, height)| add(Event::BlockProcessed { block, height, fees: None }))?,
            Rx::Filters(r) => r.try_iter().try_for_each(|(filter, block, height)| add(Event::FilterReceived { from: ([1, 2, 3, 4], 5).into(), filter, height, block }))?,
        }
        Ok(())
    }
    enum Rx {
        Events(chan::Receiver<Event>),
        Blocks(chan::Receiver<(Block, Height)>),
        Filters(chan::Receiver<(BlockFilter, BlockHash, Height)>),
    }
    for _ in 0..rng.usize(1..6) {
        let (handle, log, stop, blocks, seed) = (handle.clone(), log.clone(), stop.clone(), blocks.clone(), rng.u64(..));
        let (tx, rx) = chan::bounded(1);
        thread::spawn(move || {
            let rng = fastrand::Rng::with_seed(seed);
            let mut subs: Vec<Sub> = vec![];
            let r = guard("subscriber", || -> Res {
                loop {
                    let ended = stop.load(Ordering::SeqCst);
                    // Nb. The last event that was handed over may not be published yet.
                    let least = (log.lock().unwrap().len() as u64).saturating_sub(1);
                    let what = rng.usize(0..3);
                    let sub = match what {
                        0 => Rx::Events(handle.events()),
                        1 => Rx::Blocks(handle.blocks()),
                        _ => Rx::Filters(handle.filters()),
                    };
                    let most = log.lock().unwrap().len() as u64;
                    let mut s = Sub { what, least, most, got: vec![], whole: true };
                    if rng.u8(0..4) == 0 {
                        drop(sub);
                        thread::sleep(Duration::from_micros(rng.u64(0..300)));
                    } else {
                        let quota = if rng.bool() { usize::MAX } else { rng.usize(1..300) };
                        let lazy = rng.u8(0..3) == 0;
                        loop {
                            let over = stop.load(Ordering::SeqCst);
                            if over || !lazy {
                                take(&sub, &blocks, &mut s.got)?;
                            }
                            if over {
                                break;
                            }
                            if s.got.len() > quota {
                                s.whole = false;
                                break;
                            }
                            thread::sleep(Duration::from_micros(rng.u64(0..200)));
                        }
                        subs.push(s);
                    }
                    if ended {
                        return Ok(());
                    }
                }
            });
            tx.send(r.and_then(|r| r).map(|_| subs)).ok();
        });
        readers.push(rx);
    }
    let total = if tier == Tier::Quick { rng.u64(1..3000) } else { rng.u64(1..40_000) };
    let mut sent = 0;
    while sent < total {
        let k = rng.u64(1..60).min(total - sent);
        sent += k;
        let r = handle.command(Command::GetBlockByHeight(k, chan::bounded(1).0));
        check!(r.is_ok(), "error", "a command failed: {:?}", r.err());
        if rng.u8(0..4) == 0 {
            thread::sleep(Duration::from_micros(rng.u64(0..300)));
        }
    }
    let t = Instant::now();
    let last = handle.events();
    while (log.lock().unwrap().len() as u64) < total {
        check!(t.elapsed() < LIMIT, "stuck", "{} of {total} events were taken from the service", log.lock().unwrap().len());
        thread::sleep(Duration::from_micros(300));
    }
    // Shutting down is the only way to know that the last event is published.
    timed("shutdown", move || handle.shutdown().ok())?;
    match done.recv_timeout(LIMIT) {
        Ok(Err(v)) => return Err(v),
        Ok(Ok(Ok(()))) => {}
        Ok(Ok(Err(e))) => return viol("ended", e),
        Err(_) => return viol("no-shutdown", "the run loop doesn't end"),
    }
    drop(last);
    stop.store(true, Ordering::SeqCst);
    for r in readers {
        let Ok(subs) = r.recv_timeout(LIMIT) else {
            return viol("blocked", "a subscriber's thread doesn't end");
        };
        for s in subs? {
            obs.inc("client subscriptions");
            obs.add("client events received", s.got.len() as u64);
            let mine = |n: &u64| match s.what {
                0 => true,
                1 => kind(*n) == 0,
                _ => kind(*n) == 1,
            };
            // At least those after `most`, at most those after `least`, without a gap.
            let from = |from: u64| (from..total).filter(mine).map(content).take(if s.whole { usize::MAX } else { s.got.len() });
            let fits = (s.least..=s.most.min(total)).any(|f| (s.got.is_empty() || from(f).next() == s.got.first().copied()) && from(f).eq(s.got.iter().copied()));
            if !fits {
                let want: Vec<u64> = from(s.least).collect();
                let first = s.got.first().map_or(0, |x| want.iter().position(|w| w == x).unwrap_or(0));
                return viol(
                    "stream",
                    format!(
                        "stream {}: {} events were received, which aren't the {} that were published since it was opened (between events {} and {}; the first that differs: {:?})",
                        s.what,
                        s.got.len(),
                        want.len(),
                        s.least,
                        s.most,
                        want[first..].iter().zip(&s.got).find(|(a, b)| a != b)
                    ),
                );
            }
            obs.distinct((s.what, s.least, s.got.len()));
        }
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "N04",
            rule: "cases are generated from the seed: a client with its own files, threads with cloned handles that query, import and wait; peers on loopback sockets; shutdown at any moment",
            assumptions: &["calls that don't return within 30 s are taken to block", "threads are scheduled by the operating system"],
            level: "exploration",
            groups: vec![
                Group { name: "threads", quick: 1_200, thorough: 40_000, threads: 16, run: n04_threads },
                Group { name: "shutdown", quick: 3_000, thorough: 100_000, threads: 16, run: n04_shutdown },
                Group { name: "live", quick: 300, thorough: 20_000, threads: 64, run: live },
            ],
        },
    ]
}
