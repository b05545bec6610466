//! A minimal driver of the protocol state machine, for demonstrations.
#![allow(dead_code)]
use std::borrow::Cow;
use std::collections::HashMap;
use std::net;

use nakamoto_chain::block::cache::BlockCache;
use nakamoto_chain::block::store::Memory;
use nakamoto_chain::filter::cache::{FilterCache, StoredHeader};
use nakamoto_common::bitcoin::blockdata::transaction::{OutPoint, TxIn, TxOut};
use nakamoto_common::bitcoin::network::address::Address;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::{NetworkMessage, RawNetworkMessage};
use nakamoto_common::bitcoin::network::message_network::VersionMessage;
use nakamoto_common::bitcoin::util::bip158::BlockFilter;
use nakamoto_common::bitcoin::{Block, BlockHeader, PackedLockTime, Script, Sequence, Transaction, TxMerkleNode, Witness};
use nakamoto_common::bitcoin_hashes::Hash;
use nakamoto_common::block::filter::{FilterHash, FilterHeader};
use nakamoto_common::block::time::{AdjustedTime, LocalDuration, LocalTime, RefClock};
use nakamoto_common::block::BlockHash;
use nakamoto_common::network::Network;
use nakamoto_common::nonempty::NonEmpty;
use nakamoto_common::p2p::peer::{KnownAddress, Source};
use nakamoto_common::p2p::Domain;
use nakamoto_net::{Disconnect, StateMachine as _};
use nakamoto_p2p::fsm::Limits;
pub use nakamoto_p2p::{Command, Config, DisconnectReason, Event, Io, Link, PeerId, StateMachine};

pub type Tree = BlockCache<Memory<BlockHeader>>;
pub type Filters = FilterCache<Memory<StoredHeader>>;
pub type Clk = RefClock<AdjustedTime<PeerId>>;
pub type Fsm = StateMachine<Tree, Filters, HashMap<net::IpAddr, KnownAddress>, Clk>;

pub fn full() -> ServiceFlags {
    ServiceFlags::NETWORK | ServiceFlags::COMPACT_FILTERS | ServiceFlags::WITNESS
}

#[derive(Clone)]
pub struct B {
    pub block: Block,
    pub filter: BlockFilter,
    pub fhash: FilterHash,
    pub fheader: FilterHeader,
}

impl B {
    pub fn hash(&self) -> BlockHash {
        self.block.block_hash()
    }
}

pub fn genesis() -> B {
    let block = Network::Regtest.genesis_block();
    let filter = BlockFilter::new_script_filter(&block, |_| Ok(Script::new())).unwrap();
    let fhash = FilterHash::hash(&filter.content);
    let fheader = fhash.filter_header(&FilterHeader::all_zeros());
    B { block, filter, fhash, fheader }
}

/// Mine a block on top of `p`. `tag` makes it unique, `pay` adds a transaction paying to it.
pub fn mine(p: &B, tag: u32, pay: Option<Script>) -> B {
    let out = |s| vec![TxOut { value: 50_000, script_pubkey: s }];
    let txin = |o| TxIn { previous_output: o, script_sig: Script::from(tag.to_le_bytes().to_vec()), sequence: Sequence(0), witness: Witness::new() };
    let mut txdata = vec![Transaction {
        version: 1,
        lock_time: PackedLockTime(0),
        input: vec![txin(OutPoint::null())],
        output: out(Script::from(vec![0x51])),
    }];
    if let Some(s) = pay {
        let o = OutPoint { txid: txdata[0].txid(), vout: 9 };
        txdata.push(Transaction { version: 1, lock_time: PackedLockTime(0), input: vec![txin(o)], output: out(s) });
    }
    let mut block = Block {
        header: BlockHeader {
            version: 1,
            prev_blockhash: p.hash(),
            merkle_root: TxMerkleNode::all_zeros(),
            time: p.block.header.time + 600,
            bits: 0x207fffff,
            nonce: 0,
        },
        txdata,
    };
    block.header.merkle_root = block.compute_merkle_root().unwrap();
    let target = block.header.target();
    while block.header.validate_pow(&target).is_err() {
        block.header.nonce += 1;
    }
    let filter = BlockFilter::new_script_filter(&block, |_| Ok(Script::new())).unwrap();
    let fhash = FilterHash::hash(&filter.content);
    let fheader = fhash.filter_header(&p.fheader);
    B { block, filter, fhash, fheader }
}

/// A chain of `n` blocks on top of `p` (not included).
pub fn chain(p: &B, n: usize, tag: u32) -> Vec<B> {
    let mut v: Vec<B> = vec![];
    for i in 0..n {
        let b = mine(v.last().unwrap_or(p), tag + i as u32, None);
        v.push(b);
    }
    v
}

pub struct Node {
    pub fsm: Fsm,
    pub now: LocalTime,
    pub clock: Clk,
    pub events: Vec<Event>,
    pub sent: Vec<(PeerId, NetworkMessage)>,
    pub dials: Vec<PeerId>,
    pub drops: Vec<(PeerId, DisconnectReason)>,
    pub up: Vec<PeerId>,
    pub seed: u64,
}

pub struct Opts {
    /// Blocks known at start, genesis first.
    pub blocks: Vec<B>,
    pub filters: usize,
    pub connect: Vec<PeerId>,
    pub book: Vec<(PeerId, ServiceFlags)>,
    pub outbound: usize,
    pub inbound: usize,
    pub cache: usize,
    pub seed: u64,
}

impl Default for Opts {
    fn default() -> Self {
        Opts { blocks: vec![genesis()], filters: 0, connect: vec![], book: vec![], outbound: 8, inbound: 16, cache: 1 << 20, seed: 1 }
    }
}

impl Node {
    pub fn new(o: Opts) -> Node {
        let headers: Vec<_> = o.blocks.iter().map(|b| b.block.header).collect();
        let last = headers.last().unwrap().time;
        let params = nakamoto_common::bitcoin::consensus::params::Params::new(Network::Regtest.into());
        let tree = BlockCache::from(Memory::new(NonEmpty::from_vec(headers).unwrap()), params, &[]).unwrap();
        let fs: Vec<_> = o.blocks.iter().take(o.filters + 1).map(|b| StoredHeader { hash: b.fhash, header: b.fheader }).collect();
        let filters = FilterCache::load(Memory::new(NonEmpty::from_vec(fs).unwrap())).unwrap();
        let now = LocalTime::from_secs(last as u64 + 600);
        let clock: Clk = RefClock::from(AdjustedTime::<PeerId>::new(now));
        let mut cfg = Config::from(Network::Regtest, o.connect);
        cfg.limits = Limits { max_outbound_peers: o.outbound, max_inbound_peers: o.inbound, filter_cache_size: o.cache };
        cfg.domains = vec![Domain::IPV4];
        let book = o.book.iter().map(|(a, s)| (a.ip(), KnownAddress::new(Address::new(a, *s), Source::Dns, None))).collect();
        let fsm = StateMachine::new(tree, filters, book, clock.clone(), fastrand::Rng::with_seed(o.seed), cfg);
        let mut n = Node { fsm, now, clock, events: vec![], sent: vec![], dials: vec![], drops: vec![], up: vec![], seed: o.seed };
        n.fsm.initialize(now);
        n.drain();
        n
    }

    pub fn drain(&mut self) {
        while let Some(io) = self.fsm.next() {
            match io {
                Io::Write(a, m) => self.sent.push((a, m.payload)),
                Io::Connect(a) => {
                    self.dials.push(a);
                    self.fsm.attempted(&a);
                }
                Io::Disconnect(a, r) => {
                    self.drops.push((a, r.clone()));
                    let dialing = self.dials.contains(&a);
                    if self.up.contains(&a) || dialing {
                        self.up.retain(|x| *x != a);
                        self.dials.retain(|x| *x != a);
                        self.fsm.disconnected(&a, Disconnect::StateMachine(r));
                    }
                }
                Io::Event(e) => self.events.push(e),
                Io::SetTimer(_) => {}
            }
        }
    }

    pub fn connected(&mut self, a: PeerId, link: Link) {
        self.dials.retain(|x| *x != a);
        self.up.push(a);
        self.fsm.connected(a, &([99, 99, 99, 99], 1).into(), link);
        self.drain();
    }

    pub fn version(&mut self, services: ServiceFlags, height: i32) -> NetworkMessage {
        self.seed += 1;
        let addr: net::SocketAddr = ([1, 2, 3, 4], 8333).into();
        NetworkMessage::Version(VersionMessage {
            version: 70016,
            services,
            timestamp: self.now.as_secs() as i64,
            receiver: Address::new(&addr, ServiceFlags::NONE),
            sender: Address::new(&addr, services),
            nonce: self.seed,
            user_agent: "/demo:1.0/".to_owned(),
            start_height: height,
            relay: true,
        })
    }

    /// A connection with its handshake.
    pub fn peer(&mut self, a: PeerId, link: Link, services: ServiceFlags, height: i32) {
        self.connected(a, link);
        let v = self.version(services, height);
        self.msg(a, v);
        self.msg(a, NetworkMessage::Verack);
    }

    pub fn msg(&mut self, a: PeerId, m: NetworkMessage) {
        self.put(a, m);
        self.drain();
    }

    /// Without draining.
    pub fn put(&mut self, a: PeerId, payload: NetworkMessage) {
        self.fsm.message_received(&a, Cow::Owned(RawNetworkMessage { magic: Network::Regtest.magic(), payload }));
    }

    pub fn close(&mut self, a: PeerId) {
        self.up.retain(|x| *x != a);
        self.dials.retain(|x| *x != a);
        let e = std::sync::Arc::new(std::io::Error::from(std::io::ErrorKind::ConnectionReset));
        self.fsm.disconnected(&a, Disconnect::ConnectionError(e));
        self.drain();
    }

    pub fn cmd(&mut self, c: Command) {
        self.fsm.command(c);
        self.drain();
    }

    /// Let time pass, in steps of a second.
    pub fn pass(&mut self, secs: u64) {
        for _ in 0..secs {
            self.now = self.now + LocalDuration::from_secs(1);
            self.fsm.tick(self.now);
            self.fsm.timer_expired();
            self.drain();
        }
    }

    pub fn clear(&mut self) {
        self.events.clear();
        self.sent.clear();
        self.drops.clear();
    }

    pub fn is_up(&self, a: &PeerId) -> bool {
        self.up.contains(a)
    }
}

pub fn addr(n: u8) -> PeerId {
    ([20 + n, n, 1, 1], 8333).into()
}

pub fn headers(bs: &[B]) -> NetworkMessage {
    NetworkMessage::Headers(bs.iter().map(|b| b.block.header).collect())
}
