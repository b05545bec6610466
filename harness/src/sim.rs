//! Workload generation for the protocol simulation: networks of peers, chains with forks, users.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::net;
use std::ops::Bound;
use std::rc::Rc;
use std::sync::Arc;

use crossbeam_channel as chan;
use nakamoto_common::bitcoin::network::address::Address;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::NetworkMessage;
use nakamoto_common::bitcoin::{Script, Transaction};
use nakamoto_common::block::time::{LocalDuration, LocalTime};
use nakamoto_common::block::Height;
use nakamoto_common::network::Network;
use nakamoto_common::p2p::peer::{KnownAddress, Source};
use nakamoto_common::p2p::Domain;
use nakamoto_p2p::fsm::Limits;
use nakamoto_p2p::{Command, Config, PeerId};

use crate::blocks::{self, Forest};
use crate::core::*;
use crate::msgs;
use crate::world::*;

pub struct Chains {
    pub forest: Rc<RefCell<Forest>>,
    /// Main tip first.
    pub tips: Vec<usize>,
    pub scripts: Vec<Script>,
}

/// A main chain of `len` blocks with `forks` branches off it.
pub fn chains(rng: &fastrand::Rng, len: usize, forks: usize, maxtx: usize) -> Chains {
    let scripts: Vec<Script> = (0..4).map(|_| blocks::script(rng)).collect();
    let mut f = Forest::new(Network::Regtest);
    let main = f.grow(0, len, maxtx, &scripts, rng);
    let mut tips = vec![main];
    for _ in 0..forks {
        let base = *msgs::pick(&tips, rng);
        let chain = f.chain(base);
        let back = if rng.bool() { rng.usize(0..chain.len().min(8)) } else { rng.usize(0..chain.len()) };
        let from = chain[chain.len() - 1 - back];
        let n = rng.usize(1..=(back + 3).min(60));
        let t = f.grow(from, n, maxtx, &scripts, rng);
        tips.push(t);
    }
    Chains { forest: Rc::new(RefCell::new(f)), tips, scripts }
}

pub struct Opts {
    /// Index of the node's initial tip, and its initial filter height.
    pub known: usize,
    pub known_filters: Height,
    pub target_out: usize,
    pub max_in: usize,
    pub persistent: Vec<PeerId>,
    pub cache: usize,
    pub services: ServiceFlags,
    pub required: ServiceFlags,
    /// Seconds between the best block and the start of the simulation.
    pub age: u64,
    pub specs: Vec<(PeerId, Spec)>,
    /// Which of `specs` are in the address book, and how.
    pub in_book: bool,
    pub domains: Vec<Domain>,
}

impl Opts {
    pub fn new(known: usize) -> Self {
        Opts {
            known,
            known_filters: 0,
            target_out: 8,
            max_in: 16,
            persistent: vec![],
            cache: 1024 * 1024,
            services: ServiceFlags::NONE,
            required: ServiceFlags::NETWORK,
            age: 300,
            specs: vec![],
            in_book: true,
            domains: vec![Domain::IPV4],
        }
    }
}

pub fn known_address(addr: &PeerId, services: ServiceFlags) -> KnownAddress {
    KnownAddress::new(Address::new(addr, services), Source::Dns, None)
}

pub fn build(rng: &fastrand::Rng, ch: &Chains, o: Opts) -> Result<World, Violation> {
    let last = {
        let f = ch.forest.borrow();
        f.nodes.iter().map(|n| n.block.header.time).max().unwrap()
    };
    let mut config = Config::from(Network::Regtest, o.persistent.clone());
    config.limits = Limits { max_outbound_peers: o.target_out, max_inbound_peers: o.max_in, filter_cache_size: o.cache };
    config.services = o.services;
    config.required_services = o.required;
    config.domains = o.domains.clone();
    let mut book = BTreeMap::new();
    if o.in_book {
        for (a, s) in &o.specs {
            book.insert(a.ip(), known_address(a, s.services));
        }
    }
    let start = LocalTime::from_secs(last as u64 + o.age);
    let setup = Setup { network: Network::Regtest, config, known: o.known, known_filters: o.known_filters, book, start };
    let mut w = World::new(setup, ch.forest.clone(), fastrand::Rng::with_seed(rng.u64(..)))?;
    w.specs = o.specs.into_iter().collect();
    w.coarse = rng.bool();
    w.batch = *msgs::pick(&[1, 1, 3, 8], rng);
    Ok(w)
}

/// A random user command.
pub fn random_command(w: &World, ch: &Chains, rng: &fastrand::Rng) -> Command {
    let f = w.forest.borrow();
    let txs: Vec<Transaction> = w.txs.values().take(8).cloned().collect();
    let addrs: Vec<_> = w.specs.keys().copied().collect();
    let ctx = msgs::Ctx { forest: &f, txs: &txs, addrs: &addrs, now: w.now.block_time() };
    use nakamoto_common::block::time::Clock;
    let height = |rng: &fastrand::Rng| match rng.u8(0..6) {
        0 => msgs::any_u64(rng),
        1 => rng.u64(0..4),
        _ => rng.u64(0..f.nodes.len() as u64 + 3),
    };
    let bound = |rng: &fastrand::Rng| match rng.u8(0..3) {
        0 => Bound::Unbounded,
        1 => Bound::Included(height(rng)),
        _ => Bound::Excluded(height(rng)),
    };
    let addr = |rng: &fastrand::Rng| {
        let live: Vec<_> = w.conns.keys().copied().collect();
        if !live.is_empty() && rng.bool() {
            *msgs::pick(&live, rng)
        } else if !addrs.is_empty() && rng.u8(0..4) > 0 {
            *msgs::pick(&addrs, rng)
        } else {
            msgs::random_sockaddr(rng)
        }
    };
    let watch: Vec<Script> =
        (0..rng.usize(0..4)).map(|_| if rng.bool() { msgs::pick(&ch.scripts, rng).clone() } else { blocks::script(rng) }).collect();
    match rng.u8(0..18) {
        0 => Command::GetBlockByHeight(height(rng), chan::unbounded().0),
        1 => Command::GetBlockByHash(ctx.hash(rng), chan::unbounded().0),
        2 => Command::GetPeers(ServiceFlags::from(rng.u64(0..128)), chan::unbounded().0),
        3 => Command::GetTip(chan::unbounded().0),
        4 | 5 => Command::RequestBlock(ctx.hash(rng)),
        6 => Command::RequestFilters(height(rng)..=height(rng), chan::unbounded().0),
        7 | 8 | 9 => Command::Rescan { from: bound(rng), to: bound(rng), watch },
        10 => Command::Watch { watch },
        11 => Command::Broadcast(ctx.message(rng), |_| true, chan::unbounded().0),
        12 => Command::QueryTree(Arc::new(|t| {
            t.height();
            t.locate_headers(&[], nakamoto_common::bitcoin_hashes::Hash::all_zeros(), 10);
        })),
        13 => Command::Connect(addr(rng)),
        14 => Command::Disconnect(addr(rng)),
        15 => {
            let chain = f.headers(rng.usize(..f.nodes.len()));
            let mut hs = match rng.u8(0..3) {
                0 => chain,
                1 => chain[rng.usize(..chain.len())..].to_vec(),
                _ => (0..rng.usize(0..5)).map(|_| ctx.header(rng)).collect(),
            };
            if rng.u8(0..4) == 0 && !hs.is_empty() {
                let i = rng.usize(..hs.len());
                hs[i].nonce ^= 1;
            }
            Command::ImportHeaders(hs, chan::unbounded().0)
        }
        16 => Command::ImportAddresses((0..rng.usize(0..20)).map(|_| msgs::random_address(rng)).collect()),
        _ => {
            let tx = if !txs.is_empty() && rng.bool() { msgs::pick(&txs, rng).clone() } else { blocks::random_tx(rng) };
            if rng.bool() {
                Command::SubmitTransaction(tx, chan::unbounded().0)
            } else {
                Command::GetSubmittedTransaction(tx.txid(), chan::unbounded().0)
            }
        }
    }
}

/// Make remotes of assorted kinds.
pub fn assorted(rng: &fastrand::Rng, ch: &Chains, n: usize, kinds: &[Kind]) -> Vec<(PeerId, Spec)> {
    (0..n)
        .map(|i| {
            let mut s = Spec::honest(*msgs::pick(&ch.tips, rng), rng);
            s.kind = *msgs::pick(kinds, rng);
            (ip(i), s)
        })
        .collect()
}

pub fn secs(n: u64) -> LocalDuration {
    LocalDuration::from_secs(n)
}

pub type Sent = BTreeMap<PeerId, Vec<NetworkMessage>>;
pub type Addrs = HashSet<net::SocketAddr>;
