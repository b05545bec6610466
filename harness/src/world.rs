//! A discrete-event simulation around the real protocol state machine.
//!
//! The state machine is the code under test; everything else (reactor contract, clock, remote
//! peers) is simulated here with virtual time. Every input and output is recorded as a `Rec`, which
//! the monitors consume.
use std::borrow::Cow;
use std::cell::{RefCell, UnsafeCell};
use std::collections::{BTreeMap, HashSet};
use std::io;
use std::net;
use std::ops::{Bound, RangeInclusive};
use std::rc::Rc;
use std::sync::Arc;

use nakamoto_chain::block::cache::BlockCache;
use nakamoto_chain::block::store::Memory;
use nakamoto_chain::filter::cache::{FilterCache, StoredHeader};
use nakamoto_common::bitcoin::consensus::params::Params;
use nakamoto_common::bitcoin::network::address::Address;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::{NetworkMessage, RawNetworkMessage};
use nakamoto_common::bitcoin::network::message_blockdata::{GetHeadersMessage, Inventory};
use nakamoto_common::bitcoin::network::message_filter::{CFHeaders, CFilter};
use nakamoto_common::bitcoin::network::message_network::VersionMessage;
use nakamoto_common::bitcoin::util::uint::Uint256;
use nakamoto_common::bitcoin::{Block, BlockHeader, Script, Transaction, Txid, Witness};
use nakamoto_common::bitcoin_hashes::Hash;
use nakamoto_common::block::filter::{self, FilterHash, FilterHeader, Filters};
use nakamoto_common::block::time::{AdjustedTime, Clock, LocalDuration, LocalTime, RefClock};
use nakamoto_common::block::tree::{BlockReader, BlockTree, Error as TreeError, ImportResult};
use nakamoto_common::block::{BlockHash, Height};
use nakamoto_common::network::Network;
use nakamoto_common::nonempty::NonEmpty;
use nakamoto_common::p2p::peer::{KnownAddress, Store as PeerStore};
use nakamoto_net::{Disconnect, StateMachine as _};
use nakamoto_p2p::{Command, Config, DisconnectReason, Event, Io, Link, PeerId, StateMachine};

use crate::blocks::Forest;
use crate::check;
use crate::core::*;
use crate::msgs;

// ---------------------------------------------------------------------------------------------
// Shared handles: the state machine owns one clone, the monitors read through another.

pub struct Sh<T>(Rc<UnsafeCell<T>>);

impl<T> Clone for Sh<T> {
    fn clone(&self) -> Self {
        Sh(self.0.clone())
    }
}

impl<T> Sh<T> {
    pub fn new(t: T) -> Self {
        Sh(Rc::new(UnsafeCell::new(t)))
    }
    /// Only called while the state machine is not running (single-threaded, no re-entrancy).
    pub fn get(&self) -> &T {
        unsafe { &*self.0.get() }
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get_mut(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}

impl Sh<Tree> {
    pub fn get_tip(&self) -> Option<BlockHash> {
        Some(self.get().tip().0)
    }
}

pub type Tree = BlockCache<Memory<BlockHeader>>;
pub type FilterChain = FilterCache<Memory<StoredHeader>>;

impl BlockReader for Sh<Tree> {
    fn get_block(&self, hash: &BlockHash) -> Option<(Height, &BlockHeader)> {
        self.get().get_block(hash)
    }
    fn get_block_by_height(&self, height: Height) -> Option<&BlockHeader> {
        self.get().get_block_by_height(height)
    }
    fn find_branch(&self, to: &BlockHash) -> Option<(Height, NonEmpty<BlockHeader>)> {
        self.get().find_branch(to)
    }
    fn chain_work(&self) -> Uint256 {
        self.get().chain_work()
    }
    fn iter<'a>(&'a self) -> Box<dyn DoubleEndedIterator<Item = (Height, BlockHeader)> + 'a> {
        BlockReader::iter(self.get())
    }
    fn range<'a>(&'a self, range: std::ops::Range<Height>) -> Box<dyn Iterator<Item = (Height, BlockHash)> + 'a> {
        BlockReader::range(self.get(), range)
    }
    fn height(&self) -> Height {
        self.get().height()
    }
    fn tip(&self) -> (BlockHash, BlockHeader) {
        self.get().tip()
    }
    fn last_checkpoint(&self) -> Height {
        self.get().last_checkpoint()
    }
    fn checkpoints(&self) -> BTreeMap<Height, BlockHash> {
        BlockReader::checkpoints(self.get())
    }
    fn is_known(&self, hash: &BlockHash) -> bool {
        self.get().is_known(hash)
    }
    fn contains(&self, hash: &BlockHash) -> bool {
        self.get().contains(hash)
    }
    fn locate_headers(&self, l: &[BlockHash], stop: BlockHash, max: usize) -> Vec<BlockHeader> {
        self.get().locate_headers(l, stop, max)
    }
    fn locator_hashes(&self, from: Height) -> Vec<BlockHash> {
        self.get().locator_hashes(from)
    }
}

impl BlockTree for Sh<Tree> {
    fn import_blocks<I: Iterator<Item = BlockHeader>, C: Clock>(
        &mut self,
        chain: I,
        context: &C,
    ) -> Result<ImportResult, TreeError> {
        self.get_mut().import_blocks(chain, context)
    }
    fn extend_tip<C: Clock>(&mut self, header: BlockHeader, context: &C) -> Result<ImportResult, TreeError> {
        self.get_mut().extend_tip(header, context)
    }
}

impl Filters for Sh<FilterChain> {
    fn get_headers(&self, range: RangeInclusive<Height>) -> Vec<(FilterHash, FilterHeader)> {
        self.get().get_headers(range)
    }
    fn get_header(&self, height: Height) -> Option<(FilterHash, FilterHeader)> {
        self.get().get_header(height)
    }
    fn import_headers(&mut self, headers: Vec<(FilterHash, FilterHeader)>) -> Result<Height, filter::Error> {
        self.get_mut().import_headers(headers)
    }
    fn tip(&self) -> (&FilterHash, &FilterHeader) {
        self.get().tip()
    }
    fn height(&self) -> Height {
        self.get().height()
    }
    fn get_prev_header(&self, height: Height) -> Option<FilterHeader> {
        self.get().get_prev_header(height)
    }
    fn rollback(&mut self, height: Height) -> Result<(), filter::Error> {
        self.get_mut().rollback(height)
    }
    fn clear(&mut self) -> Result<(), filter::Error> {
        self.get_mut().clear()
    }
}

pub type Book = BTreeMap<net::IpAddr, KnownAddress>;

thread_local! {
    /// Insertions (true) and removals in this thread's address book, when someone wants to know.
    pub static BOOK_OPS: RefCell<Option<Vec<(bool, net::IpAddr)>>> = const { RefCell::new(None) };
}

impl PeerStore for Sh<Book> {
    fn get(&self, ip: &net::IpAddr) -> Option<&KnownAddress> {
        Sh::get(self).get(ip)
    }
    fn get_mut(&mut self, ip: &net::IpAddr) -> Option<&mut KnownAddress> {
        Sh::get_mut(self).get_mut(ip)
    }
    fn insert(&mut self, ip: net::IpAddr, ka: KnownAddress) -> bool {
        let book = Sh::get_mut(self);
        if book.contains_key(&ip) {
            return false;
        }
        book.insert(ip, ka);
        BOOK_OPS.with(|o| o.borrow_mut().iter_mut().for_each(|v| v.push((true, ip))));
        true
    }
    fn remove(&mut self, ip: &net::IpAddr) -> Option<KnownAddress> {
        BOOK_OPS.with(|o| o.borrow_mut().iter_mut().for_each(|v| v.push((false, *ip))));
        Sh::get_mut(self).remove(ip)
    }
    fn iter<'a>(&'a self) -> Box<dyn Iterator<Item = (&net::IpAddr, &KnownAddress)> + 'a> {
        Box::new(Sh::get(self).iter())
    }
    fn len(&self) -> usize {
        Sh::get(self).len()
    }
    fn clear(&mut self) {
        Sh::get_mut(self).clear()
    }
    fn flush<'a>(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub type Clk = RefClock<AdjustedTime<PeerId>>;
pub type Fsm = StateMachine<Sh<Tree>, Sh<FilterChain>, Sh<Book>, Clk>;

// ---------------------------------------------------------------------------------------------

/// One observation at the state machine's boundary.
#[derive(Clone, Debug)]
pub enum Rec {
    // Inputs.
    Attempted(PeerId),
    Up(PeerId, Link),
    Down(PeerId, Disconnect<DisconnectReason>),
    In(PeerId, NetworkMessage),
    /// A message with another network's magic.
    Foreign(PeerId, NetworkMessage),
    Timer,
    Cmd(Act, String),
    // Outputs.
    Out(PeerId, NetworkMessage),
    /// A message to a peer which isn't connected; the reactor drops it.
    Lost(PeerId, NetworkMessage),
    Dial(PeerId),
    Drop(PeerId, DisconnectReason),
    Ev(Event),
    SetTimer(LocalDuration),
    /// All outputs of this turn were drained.
    Turn,
}

/// What a user asked for.
#[derive(Clone, Debug)]
pub enum Act {
    Rescan(Bound<Height>, Bound<Height>, Vec<Script>),
    Watch(Vec<Script>),
    Submit(Transaction),
    RequestBlock(BlockHash),
    RequestFilters(RangeInclusive<Height>),
    ImportAddresses(Vec<Address>),
    Connect(PeerId),
    Disconnect(PeerId),
    Broadcast,
    Other,
}

impl Act {
    fn of(c: &Command) -> Act {
        match c {
            Command::Rescan { from, to, watch } => Act::Rescan(*from, *to, watch.clone()),
            Command::Watch { watch } => Act::Watch(watch.clone()),
            Command::SubmitTransaction(t, _) => Act::Submit(t.clone()),
            Command::RequestBlock(h) => Act::RequestBlock(*h),
            Command::RequestFilters(r, _) => Act::RequestFilters(r.clone()),
            Command::ImportAddresses(a) => Act::ImportAddresses(a.clone()),
            Command::Connect(a) => Act::Connect(*a),
            Command::Disconnect(a) => Act::Disconnect(*a),
            Command::Broadcast(..) => Act::Broadcast,
            _ => Act::Other,
        }
    }
}

pub fn brief(m: &NetworkMessage) -> String {
    use NetworkMessage as M;
    match m {
        M::Headers(h) => format!("headers({})", h.len()),
        M::GetHeaders(g) => format!("getheaders({}..., stop {})", g.locator_hashes.len(), short(&g.stop_hash)),
        M::CFHeaders(c) => format!("cfheaders({} to {})", c.filter_hashes.len(), short(&c.stop_hash)),
        M::GetCFHeaders(c) => format!("getcfheaders({} to {})", c.start_height, short(&c.stop_hash)),
        M::CFilter(c) => format!("cfilter({})", short(&c.block_hash)),
        M::GetCFilters(c) => format!("getcfilters({} to {})", c.start_height, short(&c.stop_hash)),
        M::Block(b) => format!("block({})", short(&b.block_hash())),
        M::Inv(v) => format!("inv({}, {:?})", v.len(), v.first()),
        M::GetData(v) => format!("getdata({}, {:?})", v.len(), v.first()),
        M::Addr(v) => format!("addr({})", v.len()),
        M::Ping(n) => format!("ping({n:x})"),
        M::Pong(n) => format!("pong({n:x})"),
        M::Version(v) => format!("version({} {} h={} n={:x})", v.version, v.services, v.start_height, v.nonce),
        M::Tx(t) => format!("tx({})", t.txid()),
        m => m.cmd().to_string(),
    }
}

pub fn short(h: &BlockHash) -> String {
    h.to_string().chars().rev().take(6).collect::<String>().chars().rev().collect()
}

impl std::fmt::Display for Rec {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Rec::Attempted(a) => write!(f, "-> attempted {a}"),
            Rec::Up(a, l) => write!(f, "-> connected {a} {l:?}"),
            Rec::Down(a, r) => write!(f, "-> disconnected {a} ({r})"),
            Rec::In(a, m) => write!(f, "-> {a} {}", brief(m)),
            Rec::Foreign(a, m) => write!(f, "-> {a} (foreign) {}", brief(m)),
            Rec::Timer => write!(f, "-> timer"),
            Rec::Cmd(_, c) => write!(f, "-> command {c}"),
            Rec::Out(a, m) => write!(f, "   <- {a} {}", brief(m)),
            Rec::Lost(a, m) => write!(f, "   <- (lost) {a} {}", brief(m)),
            Rec::Dial(a) => write!(f, "   <- dial {a}"),
            Rec::Drop(a, r) => write!(f, "   <- disconnect {a} ({r})"),
            Rec::Ev(e) => match e {
                Event::FilterProcessed { height, block, matched, valid, cached } => write!(
                    f,
                    "   <- event FilterProcessed {height} {} matched={matched} valid={valid} cached={cached}",
                    short(block)
                ),
                Event::PeerNegotiated { addr, .. } => write!(f, "   <- event PeerNegotiated {addr}"),
                e => write!(f, "   <- event {}: {e}", event_name(e)),
            },
            Rec::SetTimer(d) => write!(f, "   <- set timer {d}"),
            Rec::Turn => write!(f, "   ."),
        }
    }
}

pub fn event_name(e: &Event) -> String {
    let s = format!("{e:?}");
    s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}

// ---------------------------------------------------------------------------------------------
// Remote peers.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// Follows the protocol.
    Honest,
    /// Completes the handshake, answers pings, and nothing else.
    Silent,
    /// Completes the handshake and answers nothing at all.
    Dead,
    /// Never says anything, not even `version`.
    Mute,
    /// Sends its `version`, but no `verack`.
    HalfMute,
    /// Sends arbitrary messages at any time (and usually handshakes).
    Hostile,
    /// Driven entirely by the test.
    Puppet,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum DialOutcome {
    Accept,
    /// The connection attempt fails after a while.
    Refuse,
    /// The connection attempt hangs forever.
    Hang,
    /// `connect()` itself fails.
    Error,
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub kind: Kind,
    pub services: ServiceFlags,
    /// Tip of this peer's chain (index in the forest).
    pub tip: usize,
    /// Height announced in the version message, if it isn't the true one.
    pub claim: Option<i32>,
    pub version: u32,
    pub relay: bool,
    pub wtxid: bool,
    /// Latency range in milliseconds.
    pub lat: (u64, u64),
    /// Probability of dropping an answer (0..1).
    pub lossy: f64,
    /// Probability of not answering a request for a block.
    pub lossy_blocks: f64,
    /// Never answers requests for filters.
    pub no_filters: bool,
    /// Probability of duplicating an answer.
    pub dup: f64,
    /// Answers a set of filters in shuffled order.
    pub shuffle: bool,
    /// Reply to getheaders with an empty message when there's nothing to send.
    pub empty_headers: bool,
    pub dial: DialOutcome,
    pub nonce: u64,
    pub time_offset: i64,
    /// Asks for everything it is announced.
    pub fetch_txs: bool,
    /// Corrupts filters / filter headers / blocks with this probability.
    pub corrupt: f64,
    /// How pings are answered.
    pub pong: Pong,
    /// Sends pings of its own, starting right after its `verack`.
    pub pings: u32,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pong {
    Right,
    /// Right, after this many milliseconds.
    Late(u64),
    Never,
    WrongNonce,
    /// A stray pong, then the right one, twice.
    Noisy,
    /// Answers this many pings, then stops.
    Only(u32),
    /// Answers this many pings, then with a wrong nonce.
    Wrong(u32),
}

impl Spec {
    pub fn honest(tip: usize, rng: &fastrand::Rng) -> Self {
        Spec {
            kind: Kind::Honest,
            services: full(),
            tip,
            claim: None,
            version: 70016,
            relay: true,
            wtxid: rng.bool(),
            lat: *msgs::pick(&[(0, 0), (1, 20), (20, 400), (200, 3000)], rng),
            lossy: 0.,
            lossy_blocks: 0.,
            no_filters: false,
            dup: 0.,
            shuffle: false,
            empty_headers: rng.bool(),
            dial: DialOutcome::Accept,
            nonce: rng.u64(..),
            time_offset: 0,
            fetch_txs: true,
            corrupt: 0.,
            pong: Pong::Right,
            pings: 0,
        }
    }
}

pub fn full() -> ServiceFlags {
    ServiceFlags::NETWORK | ServiceFlags::COMPACT_FILTERS | ServiceFlags::WITNESS
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ConnState {
    Connecting,
    Connected,
}

#[derive(Clone, Debug)]
pub struct Conn {
    pub link: Link,
    pub state: ConnState,
    pub epoch: u64,
    pub spec: Spec,
    pub local: net::SocketAddr,
    // Remote's view of the handshake.
    pub sent_version: bool,
    pub got_version: bool,
    pub sent_verack: bool,
    pub got_verack: bool,
    /// Time of the last scheduled delivery from this remote (keeps the stream in order).
    pub last: LocalTime,
    pub seen_txs: HashSet<Txid>,
    pub announced: HashSet<BlockHash>,
    /// The nonce of the version message this remote received.
    pub their_nonce: Option<u64>,
}

impl Conn {
    pub fn ready(&self) -> bool {
        self.sent_version && self.got_version && self.sent_verack && self.got_verack
    }
}

#[derive(Clone, Debug)]
pub enum Ev {
    Deliver(PeerId, u64, NetworkMessage),
    DialDone(PeerId, u64, bool),
    Accept(PeerId, Spec),
    Close(PeerId, u64),
    /// Picked up by the test through `World::user`.
    User(u32),
}

pub struct World {
    pub fsm: Fsm,
    pub tree: Sh<Tree>,
    pub filters: Sh<FilterChain>,
    pub book: Sh<Book>,
    pub clock: Clk,
    pub now: LocalTime,
    pub start: LocalTime,
    pub rng: fastrand::Rng,
    pub forest: Rc<RefCell<Forest>>,
    pub specs: BTreeMap<PeerId, Spec>,
    pub conns: BTreeMap<PeerId, Conn>,
    pub queue: BTreeMap<(u64, u64), Ev>,
    pub timers: Vec<u64>,
    pub log: Vec<(LocalTime, Rec)>,
    /// Transactions remote peers know of.
    pub txs: BTreeMap<Txid, Transaction>,
    pub batch: usize,
    pub magic: u32,
    pub trace: Vec<String>,
    pub tracing: bool,
    pub local: net::SocketAddr,
    seq: u64,
    epoch: u64,
    pub outputs: u64,
    /// User events that became due in this step.
    pub user: Vec<u32>,
    pub coarse: bool,
    /// How wrong the clocks of the remotes are, in seconds.
    pub skew: Option<std::ops::Range<i64>>,
    pub max_in: usize,
    pub target_out: usize,
    pub required: ServiceFlags,
    pub persistent: Vec<PeerId>,
    /// Addresses the user asked to connect to.
    pub trusted: HashSet<net::IpAddr>,
}

/// Everything needed to set up a node.
pub struct Setup {
    pub network: Network,
    pub config: Config,
    /// Headers known at start (after genesis) and filter headers known at start.
    pub known: usize,
    pub known_filters: Height,
    pub book: Book,
    pub start: LocalTime,
}

pub fn time_at(secs: u64) -> LocalTime {
    LocalTime::from_secs(secs)
}

pub fn millis(t: LocalTime) -> u64 {
    (t - LocalTime::from_secs(0)).as_millis() as u64
}

impl World {
    pub fn new(s: Setup, forest: Rc<RefCell<Forest>>, rng: fastrand::Rng) -> Result<World, Violation> {
        let f = forest.borrow();
        let chain = f.chain(s.known);
        let genesis = f.nodes[0].block.header;
        let mut store = NonEmpty::new(genesis);
        for i in &chain[1..] {
            store.push(f.nodes[*i].block.header);
        }
        let params = Params::new(s.network.into());
        let cache = BlockCache::new(Memory::new(store), params, &[]).expect("block cache opens");
        let cache = cache.load().expect("block cache loads");
        let mut fstore = NonEmpty::new(StoredHeader { hash: f.nodes[0].fhash, header: f.nodes[0].fheader });
        for i in chain[1..].iter().take(s.known_filters as usize) {
            fstore.push(StoredHeader { hash: f.nodes[*i].fhash, header: f.nodes[*i].fheader });
        }
        let fcache = FilterCache::load(Memory::new(fstore)).expect("filter cache loads");
        drop(f);
        let tree = Sh::new(cache);
        let filters = Sh::new(fcache);
        let book = Sh::new(s.book);
        let clock: Clk = RefClock::from(AdjustedTime::<PeerId>::new(s.start));
        let magic = s.network.magic();
        let max_in = s.config.limits.max_inbound_peers;
        let target_out = s.config.limits.max_outbound_peers;
        let required = s.config.required_services;
        let persistent = s.config.connect.clone();
        let frng = fastrand::Rng::with_seed(rng.u64(..));
        let (t, fl, b, c, cfg) = (tree.clone(), filters.clone(), book.clone(), clock.clone(), s.config);
        let fsm = guard("StateMachine::new", move || StateMachine::new(t, fl, b, c, frng, cfg))?;
        Ok(World {
            fsm,
            tree,
            filters,
            book,
            clock,
            now: s.start,
            start: s.start,
            rng,
            forest,
            specs: BTreeMap::new(),
            conns: BTreeMap::new(),
            queue: BTreeMap::new(),
            timers: Vec::new(),
            log: Vec::new(),
            txs: BTreeMap::new(),
            batch: 1,
            magic,
            trace: Vec::new(),
            tracing: true,
            local: ([99, 99, 99, 99], 18333).into(),
            seq: 0,
            epoch: 0,
            outputs: 0,
            user: Vec::new(),
            coarse: true,
            skew: None,
            max_in,
            target_out,
            required,
            persistent,
            trusted: HashSet::new(),
        })
    }

    pub fn rec(&mut self, r: Rec) {
        if self.tracing {
            if self.trace.len() > 6000 {
                self.trace.drain(..3000);
            }
            let dt = self.now - self.start;
            if std::env::var_os("VH_TRACE").is_some() { eprintln!("{:>10.3} {r}", dt.as_millis() as f64 / 1000.); }
            self.trace.push(format!("{:>10.3} {r}", dt.as_millis() as f64 / 1000.));
        }
        self.log.push((self.now, r));
    }

    pub fn initialize(&mut self) -> Res {
        let now = self.node_time();
        let f = &mut self.fsm;
        guard("initialize", || f.initialize(now))?;
        self.drain()
    }

    /// Active chain of the node, by hash.
    pub fn active(&self) -> Vec<BlockHash> {
        BlockReader::iter(self.tree.get()).map(|(_, h)| h.block_hash()).collect()
    }

    // -----------------------------------------------------------------------------------------
    // Reactor contract.

    /// The time the node sees: the production clock has a resolution of one second.
    pub fn node_time(&self) -> LocalTime {
        if self.coarse {
            LocalTime::from_secs(self.now.as_secs())
        } else {
            self.now
        }
    }

    pub fn tick(&mut self) -> Res {
        let now = self.node_time();
        let f = &mut self.fsm;
        guard("tick", || f.tick(now))
    }

    pub fn timer(&mut self) -> Res {
        self.rec(Rec::Timer);
        let f = &mut self.fsm;
        guard("timer_expired", || f.timer_expired())
    }

    pub fn accept(&mut self, addr: PeerId, spec: Spec) -> Res {
        if self.conns.contains_key(&addr) {
            return Ok(());
        }
        self.epoch += 1;
        self.conns.insert(
            addr,
            Conn {
                link: Link::Inbound,
                state: ConnState::Connected,
                epoch: self.epoch,
                spec,
                local: self.local,
                sent_version: false,
                got_version: false,
                sent_verack: false,
                got_verack: false,
                last: self.now,
                seen_txs: HashSet::new(),
                announced: HashSet::new(),
                their_nonce: None,
            },
        );
        self.rec(Rec::Up(addr, Link::Inbound));
        let (f, l) = (&mut self.fsm, self.local);
        guard("connected", || f.connected(addr, &l, Link::Inbound))?;
        self.remote_up(addr);
        Ok(())
    }

    fn dial_done(&mut self, addr: PeerId, epoch: u64, ok: bool) -> Res {
        match self.conns.get_mut(&addr) {
            Some(c) if c.epoch == epoch && c.state == ConnState::Connecting => {
                if ok {
                    c.state = ConnState::Connected;
                    let l = c.local;
                    self.rec(Rec::Up(addr, Link::Outbound));
                    let f = &mut self.fsm;
                    guard("connected", || f.connected(addr, &l, Link::Outbound))?;
                    self.remote_up(addr);
                } else {
                    self.conns.remove(&addr);
                    let r = Disconnect::ConnectionError(Arc::new(io::Error::from(io::ErrorKind::ConnectionRefused)));
                    self.rec(Rec::Down(addr, r.clone()));
                    let f = &mut self.fsm;
                    guard("disconnected", || f.disconnected(&addr, r))?;
                }
            }
            _ => {}
        }
        Ok(())
    }

    /// The remote closes the connection.
    pub fn close(&mut self, addr: PeerId) -> Res {
        if self.conns.remove(&addr).is_some() {
            let r = Disconnect::ConnectionError(Arc::new(io::Error::from(io::ErrorKind::ConnectionReset)));
            self.rec(Rec::Down(addr, r.clone()));
            let f = &mut self.fsm;
            guard("disconnected", || f.disconnected(&addr, r))?;
        }
        Ok(())
    }

    /// A message arrives from a connected peer.
    pub fn deliver(&mut self, addr: PeerId, msg: NetworkMessage) -> Res {
        let magic = self.magic;
        self.deliver_raw(addr, magic, msg)
    }

    pub fn deliver_raw(&mut self, addr: PeerId, magic: u32, payload: NetworkMessage) -> Res {
        match self.conns.get(&addr) {
            Some(c) if c.state == ConnState::Connected => {}
            _ => return Ok(()),
        }
        self.rec(if magic == self.magic { Rec::In(addr, payload.clone()) } else { Rec::Foreign(addr, payload.clone()) });
        let f = &mut self.fsm;
        let what = "message_received";
        guard(what, || f.message_received(&addr, Cow::Owned(RawNetworkMessage { magic, payload })))
    }

    pub fn command(&mut self, cmd: Command) -> Res {
        let d: String = format!("{cmd:?}").chars().take(160).collect();
        self.rec(Rec::Cmd(Act::of(&cmd), d));
        if let Command::Connect(a) = &cmd {
            self.trusted.insert(a.ip());
        }
        let f = &mut self.fsm;
        guard("command", || f.command(cmd))
    }

    /// Process all outputs, as the reactor does after each turn.
    pub fn drain(&mut self) -> Res {
        let mut n = 0u64;
        loop {
            let f = &mut self.fsm;
            let out = guard("output", || f.next())?;
            let Some(out) = out else { break };
            n += 1;
            self.outputs += 1;
            check!(n < 2_000_000, "livelock", "more than {n} outputs in one turn");
            match out {
                Io::Write(addr, raw) => {
                    let ok = matches!(self.conns.get(&addr), Some(c) if c.state == ConnState::Connected);
                    check!(raw.magic == self.magic, "magic", "message with wrong magic to {addr}");
                    if ok {
                        self.rec(Rec::Out(addr, raw.payload.clone()));
                        self.remote_received(addr, raw.payload);
                    } else {
                        self.rec(Rec::Lost(addr, raw.payload));
                    }
                }
                Io::Connect(addr) => {
                    self.rec(Rec::Dial(addr));
                    let spec = self.specs.get(&addr).cloned();
                    let outcome = spec.as_ref().map(|s| s.dial).unwrap_or(DialOutcome::Refuse);
                    if outcome == DialOutcome::Error {
                        let r = Disconnect::DialError(Arc::new(io::Error::from(io::ErrorKind::Other)));
                        self.rec(Rec::Down(addr, r.clone()));
                        let f = &mut self.fsm;
                        guard("disconnected", || f.disconnected(&addr, r))?;
                        continue;
                    }
                    // The reactor replaces whatever socket was registered under that address.
                    self.epoch += 1;
                    let epoch = self.epoch;
                    let spec = spec.unwrap_or_else(|| Spec::honest(0, &self.rng));
                    let lat = self.rng.u64(spec.lat.0..=spec.lat.1);
                    self.conns.insert(
                        addr,
                        Conn {
                            link: Link::Outbound,
                            state: ConnState::Connecting,
                            epoch,
                            spec,
                            local: self.local,
                            sent_version: false,
                            got_version: false,
                            sent_verack: false,
                            got_verack: false,
                            last: self.now,
                            seen_txs: HashSet::new(),
                            announced: HashSet::new(),
                their_nonce: None,
                        },
                    );
                    self.rec(Rec::Attempted(addr));
                    let f = &mut self.fsm;
                    guard("attempted", || f.attempted(&addr))?;
                    match outcome {
                        DialOutcome::Accept => self.at(lat, Ev::DialDone(addr, epoch, true)),
                        DialOutcome::Refuse => self.at(lat, Ev::DialDone(addr, epoch, false)),
                        _ => {}
                    }
                }
                Io::Disconnect(addr, reason) => {
                    self.rec(Rec::Drop(addr, reason.clone()));
                    if self.conns.remove(&addr).is_some() {
                        let r = Disconnect::StateMachine(reason);
                        self.rec(Rec::Down(addr, r.clone()));
                        let f = &mut self.fsm;
                        guard("disconnected", || f.disconnected(&addr, r))?;
                    }
                }
                Io::SetTimer(d) => {
                    self.rec(Rec::SetTimer(d));
                    let at = millis(self.node_time() + d);
                    if !self.timers.contains(&at) {
                        self.timers.push(at);
                    }
                }
                Io::Event(e) => self.rec(Rec::Ev(e)),
            }
        }
        self.rec(Rec::Turn);
        Ok(())
    }

    // -----------------------------------------------------------------------------------------
    // Scheduling.

    pub fn at(&mut self, ms: u64, ev: Ev) {
        self.seq += 1;
        self.queue.insert((millis(self.now) + ms, self.seq), ev);
    }

    pub fn next_time(&self) -> Option<u64> {
        let q = self.queue.keys().next().map(|k| k.0);
        let t = self.timers.iter().min().copied();
        match (q, t) {
            (Some(a), Some(b)) => Some(a.min(b)),
            (a, b) => a.or(b),
        }
    }

    /// Advance to the next thing that happens (not beyond `limit`), and let it happen. Returns
    /// false if nothing happens before the limit.
    pub fn step(&mut self, limit: LocalTime) -> Result<bool, Violation> {
        self.user.clear();
        let Some(t) = self.next_time().filter(|t| *t <= millis(limit)) else {
            self.now = self.now.max(limit);
            return Ok(false);
        };
        if t > millis(self.now) {
            self.now = LocalTime::from_secs(0) + LocalDuration::from_millis(t as u128);
        }
        self.tick()?;
        let due = self.queue.keys().next().map_or(false, |k| k.0 <= millis(self.now));
        if due {
            // One turn of the reactor: one or several readiness events.
            let n = if self.batch > 1 { self.rng.usize(1..=self.batch) } else { 1 };
            for _ in 0..n {
                let Some(k) = self.queue.keys().next().copied().filter(|k| k.0 <= millis(self.now)) else { break };
                let ev = self.queue.remove(&k).unwrap();
                self.apply(ev)?;
            }
            if self.user.is_empty() {
                self.drain()?;
            }
        } else {
            let now = millis(self.now);
            self.timers.retain(|t| *t > now);
            self.timer()?;
            self.drain()?;
        }
        Ok(true)
    }

    fn apply(&mut self, ev: Ev) -> Res {
        match ev {
            Ev::Deliver(addr, epoch, msg) => {
                if self.conns.get(&addr).map_or(false, |c| c.epoch == epoch) {
                    self.deliver(addr, msg)?;
                }
            }
            Ev::DialDone(addr, epoch, ok) => self.dial_done(addr, epoch, ok)?,
            Ev::Accept(addr, spec) => self.accept(addr, spec)?,
            Ev::Close(addr, epoch) => {
                if self.conns.get(&addr).map_or(false, |c| c.epoch == epoch) {
                    self.close(addr)?;
                }
            }
            Ev::User(n) => self.user.push(n),
        }
        Ok(())
    }

    // -----------------------------------------------------------------------------------------
    // Remote behaviour.

    /// Schedule a message from a remote, respecting stream order.
    pub fn send(&mut self, addr: PeerId, msg: NetworkMessage) {
        let now = self.now;
        let lat = match self.conns.get(&addr) {
            Some(c) => self.rng.u64(c.spec.lat.0..=c.spec.lat.1),
            None => return,
        };
        let c = self.conns.get_mut(&addr).unwrap();
        let t = (now + LocalDuration::from_millis(lat as u128)).max(c.last);
        c.last = t;
        let epoch = c.epoch;
        self.seq += 1;
        self.queue.insert((millis(t), self.seq), Ev::Deliver(addr, epoch, msg));
    }

    fn answer(&mut self, addr: PeerId, msg: NetworkMessage) {
        let (lossy, dup) = match self.conns.get(&addr) {
            Some(c) => (c.spec.lossy, c.spec.dup),
            None => return,
        };
        if self.rng.f64() < lossy {
            return;
        }
        if self.rng.f64() < dup {
            self.send(addr, msg.clone());
        }
        self.send(addr, msg);
    }

    pub fn version_of(&self, spec: &Spec, addr: PeerId) -> VersionMessage {
        let h = self.forest.borrow().nodes[spec.tip].height as i32;
        VersionMessage {
            version: spec.version,
            services: spec.services,
            timestamp: self.now.block_time() as i64 + self.skew.clone().map_or(spec.time_offset, |s| self.rng.i64(s)),
            receiver: Address::new(&self.local, ServiceFlags::NONE),
            sender: Address::new(&addr, spec.services),
            nonce: spec.nonce,
            user_agent: "/sim:1.0/".to_owned(),
            start_height: spec.claim.unwrap_or(h),
            relay: spec.relay,
        }
    }

    fn remote_up(&mut self, addr: PeerId) {
        let c = &self.conns[&addr];
        if matches!(c.spec.kind, Kind::Mute | Kind::Puppet) {
            return;
        }
        // The dialing side speaks first.
        if c.link == Link::Inbound {
            let v = self.version_of(&c.spec, addr);
            self.conns.get_mut(&addr).unwrap().sent_version = true;
            self.send(addr, NetworkMessage::Version(v));
        }
    }

    /// Headers a remote with the given tip serves for a request.
    pub fn serve_headers(&self, tip: usize, m: &GetHeadersMessage) -> Vec<BlockHeader> {
        let f = self.forest.borrow();
        let chain = f.chain(tip);
        let mut from = 0;
        for l in &m.locator_hashes {
            if let Some(n) = f.get(l) {
                if chain.get(n.height as usize).map_or(false, |i| f.nodes[*i].hash == *l) {
                    from = n.height as usize;
                    break;
                }
            }
        }
        let mut v = Vec::new();
        for i in chain.iter().skip(from + 1).take(2000) {
            v.push(f.nodes[*i].block.header);
            if f.nodes[*i].hash == m.stop_hash {
                break;
            }
        }
        v
    }

    fn remote_received(&mut self, addr: PeerId, msg: NetworkMessage) {
        use NetworkMessage as M;
        let kind = self.conns[&addr].spec.kind;
        let tip = self.conns[&addr].spec.tip;
        let link = self.conns[&addr].link;
        if matches!(kind, Kind::Puppet | Kind::Mute) {
            return;
        }
        match &msg {
            M::Version(v) => {
                self.conns.get_mut(&addr).unwrap().their_nonce = Some(v.nonce);
                self.conns.get_mut(&addr).unwrap().got_version = true;
                if link == Link::Outbound {
                    let v = self.version_of(&self.conns[&addr].spec, addr);
                    self.conns.get_mut(&addr).unwrap().sent_version = true;
                    self.send(addr, M::Version(v));
                }
                if kind == Kind::HalfMute {
                    return;
                }
                if self.conns[&addr].spec.wtxid {
                    self.send(addr, M::WtxidRelay);
                }
                self.conns.get_mut(&addr).unwrap().sent_verack = true;
                self.send(addr, M::Verack);
                for _ in 0..self.conns[&addr].spec.pings {
                    self.send(addr, M::Ping(self.rng.u64(..)));
                }
                return;
            }
            M::Verack => {
                self.conns.get_mut(&addr).unwrap().got_verack = true;
                return;
            }
            _ => {}
        }
        if matches!(kind, Kind::Dead | Kind::HalfMute) {
            return;
        }
        if let M::Ping(n) = msg {
            if self.conns[&addr].spec.pings > 0 {
                self.send(addr, M::Ping(self.rng.u64(..)));
            }
            // Pongs aren't lost: this models a live peer.
            match self.conns[&addr].spec.pong {
                Pong::Right => self.send(addr, M::Pong(n)),
                Pong::Late(ms) => {
                    // Other messages may overtake it: answers come from different threads.
                    let epoch = self.conns[&addr].epoch;
                    self.at(ms, Ev::Deliver(addr, epoch, M::Pong(n)));
                }
                Pong::Never => {}
                Pong::WrongNonce => self.send(addr, M::Pong(n ^ 1)),
                Pong::Noisy => {
                    self.send(addr, M::Pong(self.rng.u64(..)));
                    self.send(addr, M::Pong(n));
                    self.send(addr, M::Pong(n));
                }
                Pong::Only(0) => {}
                Pong::Wrong(0) => self.send(addr, M::Pong(n.wrapping_add(self.rng.u64(1..)))),
                Pong::Wrong(k) => {
                    self.conns.get_mut(&addr).unwrap().spec.pong = Pong::Wrong(k - 1);
                    self.send(addr, M::Pong(n));
                }
                Pong::Only(k) => {
                    self.conns.get_mut(&addr).unwrap().spec.pong = Pong::Only(k - 1);
                    self.send(addr, M::Pong(n));
                }
            }
            return;
        }
        if kind == Kind::Silent {
            return;
        }
        let corrupt = self.rng.f64() < self.conns[&addr].spec.corrupt;
        match msg {
            M::GetHeaders(m) => {
                let hs = self.serve_headers(tip, &m);
                if !hs.is_empty() || self.conns[&addr].spec.empty_headers {
                    if let Some(h) = hs.last() {
                        let h = h.block_hash();
                        self.conns.get_mut(&addr).unwrap().announced.insert(h);
                    }
                    self.answer(addr, M::Headers(hs));
                }
            }
            M::GetCFHeaders(m) => {
                let reply = {
                    let f = self.forest.borrow();
                    // Only blocks this peer has.
                    self.has(tip, &m.stop_hash).and_then(|stop| {
                        let chain = f.chain(stop);
                        let start = m.start_height as usize;
                        if m.filter_type != 0 || start >= chain.len() || chain.len() - start > 2000 {
                            return None;
                        }
                        let prev = if start == 0 { FilterHeader::all_zeros() } else { f.nodes[chain[start - 1]].fheader };
                        Some(CFHeaders {
                            filter_type: 0,
                            stop_hash: m.stop_hash,
                            previous_filter_header: prev,
                            filter_hashes: chain[start..].iter().map(|i| f.nodes[*i].fhash).collect(),
                        })
                    })
                };
                if let Some(r) = reply {
                    self.answer(addr, M::CFHeaders(r));
                }
            }
            M::GetCFilters(m) => {
                let mut reply = {
                    let f = self.forest.borrow();
                    self.has(tip, &m.stop_hash)
                        .map(|stop| {
                            let chain = f.chain(stop);
                            let start = m.start_height as usize;
                            if m.filter_type != 0 || start >= chain.len() || chain.len() - start > 1000 {
                                return vec![];
                            }
                            chain[start..]
                                .iter()
                                .map(|i| CFilter {
                                    filter_type: 0,
                                    block_hash: f.nodes[*i].hash,
                                    filter: f.nodes[*i].filter.content.clone(),
                                })
                                .collect::<Vec<_>>()
                        })
                        .unwrap_or_default()
                };
                if self.conns[&addr].spec.shuffle {
                    self.rng.shuffle(&mut reply);
                }
                for mut r in reply {
                    if corrupt {
                        match self.rng.u8(0..3) {
                            0 => r.filter.push(1),
                            1 => r.filter = vec![0],
                            _ => {
                                let n = r.filter.len();
                                r.filter[self.rng.usize(..n)] ^= 1 << self.rng.u8(0..8);
                            }
                        }
                    }
                    if !self.conns[&addr].spec.no_filters {
                        self.answer(addr, M::CFilter(r));
                    }
                }
            }
            M::GetData(invs) => {
                let mut missing = Vec::new();
                for inv in invs {
                    let full_block = |b: &BlockHash| -> Option<Block> {
                        let f = self.forest.borrow();
                        self.has(tip, b).map(|i| f.nodes[i].block.clone())
                    };
                    match inv {
                        Inventory::Block(h) | Inventory::WitnessBlock(h) => match full_block(&h) {
                            Some(mut b) => {
                                // BIP 144: without the witness flag, witness data is left out.
                                if matches!(inv, Inventory::Block(_)) {
                                    strip(&mut b);
                                }
                                if corrupt {
                                    match self.rng.u8(0..3) {
                                        0 => {
                                            b.txdata.pop();
                                        }
                                        1 => b.txdata.push(crate::blocks::random_tx(&self.rng)),
                                        _ => {
                                            let n = b.txdata.len();
                                            b.txdata[self.rng.usize(..n)].version ^= 4;
                                        }
                                    }
                                }
                                let p = self.conns[&addr].spec.lossy_blocks;
                                if p == 0. || self.rng.f64() >= p {
                                    self.answer(addr, M::Block(b));
                                }
                            }
                            None => missing.push(inv),
                        },
                        _ => missing.push(inv),
                    }
                }
                if !missing.is_empty() {
                    self.answer(addr, M::NotFound(missing));
                }
            }
            M::Inv(invs) => {
                if !self.conns[&addr].spec.fetch_txs || !self.conns[&addr].spec.relay {
                    return;
                }
                let want: Vec<Inventory> = invs
                    .into_iter()
                    .filter_map(|i| match i {
                        Inventory::Transaction(t) => Some(Inventory::WitnessTransaction(t)),
                        Inventory::WitnessTransaction(_) | Inventory::WTx(_) => Some(i),
                        _ => None,
                    })
                    .collect();
                if !want.is_empty() {
                    self.answer(addr, M::GetData(want));
                }
            }
            M::Tx(t) => {
                let id = t.txid();
                self.conns.get_mut(&addr).unwrap().seen_txs.insert(id);
                self.txs.insert(id, t);
            }
            _ => {}
        }
    }

    /// Whether a peer on `tip` knows this block (its own chain only).
    pub fn has(&self, tip: usize, h: &BlockHash) -> Option<usize> {
        let f = self.forest.borrow();
        let ix = *f.index.get(h)?;
        let height = f.nodes[ix].height;
        let mut i = tip;
        if f.nodes[i].height < height {
            return None;
        }
        while f.nodes[i].height > height {
            i = f.nodes[i].parent?;
        }
        (i == ix).then_some(ix)
    }

    /// A remote's chain moves to another tip; it announces the new blocks the way Bitcoin Core does.
    pub fn advance_remote(&mut self, addr: PeerId, tip: usize, by_inv: bool) {
        let Some(c) = self.conns.get_mut(&addr) else { return };
        let old = c.spec.tip;
        c.spec.tip = tip;
        if let Some(s) = self.specs.get_mut(&addr) {
            s.tip = tip;
        }
        let c = &self.conns[&addr];
        if c.spec.kind != Kind::Honest || !c.ready() {
            return;
        }
        let f = self.forest.borrow();
        // New blocks since the common ancestor.
        let a: HashSet<usize> = f.chain(old).into_iter().collect();
        let fresh: Vec<usize> = f.chain(tip).into_iter().filter(|i| !a.contains(i)).collect();
        if fresh.is_empty() {
            return;
        }
        let msg = if by_inv || fresh.len() > 8 {
            // "The final block hash provided should be the highest."
            let mut v = vec![];
            if self.rng.bool() {
                let known = f.chain(old);
                let n = self.rng.usize(0..4).min(known.len());
                v.extend(known[known.len() - n..].iter().map(|i| Inventory::Block(f.nodes[*i].hash)));
                v.extend(fresh.iter().rev().skip(1).take(self.rng.usize(0..20)).rev().map(|i| Inventory::Block(f.nodes[*i].hash)));
            }
            v.push(Inventory::Block(f.nodes[tip].hash));
            NetworkMessage::Inv(v)
        } else {
            NetworkMessage::Headers(fresh.iter().map(|i| f.nodes[*i].block.header).collect())
        };
        drop(f);
        self.send(addr, msg);
    }

    pub fn hostile_message(&self) -> NetworkMessage {
        let f = self.forest.borrow();
        let txs: Vec<Transaction> = self.txs.values().take(8).cloned().collect();
        let addrs: Vec<_> = self.specs.keys().copied().collect();
        let ctx = msgs::Ctx { forest: &f, txs: &txs, addrs: &addrs, now: self.now.block_time() };
        ctx.message(&self.rng)
    }
}

pub fn strip(b: &mut Block) {
    for t in &mut b.txdata {
        for i in &mut t.input {
            i.witness = Witness::new();
        }
    }
}

/// A routable IPv4 address number `n`, spread over address groups.
pub fn ip(n: usize) -> PeerId {
    let n = n as u32;
    net::SocketAddr::from(([(20 + n % 50) as u8, (n / 50 % 250) as u8 + 1, (n * 7 % 250) as u8, (n % 250) as u8 + 1], 8333))
}
