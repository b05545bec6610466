//! F01-F03 and I01-I03: filter headers, filters, rescans, transactions and blocks.
//!
//! Every scenario gives the node one input per turn, so that effects can be attributed.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::ops::Bound;
use std::rc::Rc;

use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::NetworkMessage;
use nakamoto_common::bitcoin::network::message_blockdata::Inventory;
use nakamoto_common::bitcoin::network::message_filter::{CFHeaders, CFilter};
use nakamoto_common::bitcoin::{Block, Script, Transaction, Txid};
use nakamoto_common::bitcoin_hashes::Hash;
use nakamoto_common::block::filter::{FilterHash, FilterHeader, Filters};
use nakamoto_common::block::time::LocalTime;
use nakamoto_common::block::tree::BlockReader;
use nakamoto_common::block::{BlockHash, Height};
use nakamoto_p2p::fsm::event::TxStatus;
use nakamoto_p2p::{Command, Event, Link, PeerId};

use crate::blocks;
use crate::check;
use crate::core::*;
use crate::misc::{summary, FeeState};
use crate::mon::*;
use crate::msgs;
use crate::p2p::*;
use crate::serve::{all_filters, play};
use crate::sim::*;
use crate::world::*;

// ---------------------------------------------------------------------------------------------
// F01

#[derive(Default)]
struct FilterHeaders {
    /// Peers may lie: only the structure can be judged.
    lax: bool,
    entries: Vec<(FilterHash, FilterHeader)>,
    tip: Option<BlockHash>,
    asked: BTreeMap<(PeerId, BlockHash), u32>,
    answer: Vec<BlockHash>,
    removed: bool,
    k: Links,
}

/// Is this peer known to offer the given service?
fn offers(k: &Links, a: &PeerId, service: ServiceFlags) -> bool {
    k.links.get(a).and_then(|v| v.last()).map_or(false, |l| l.version.as_ref().map_or(false, |v| v.services.has(service)))
}

impl Monitor for FilterHeaders {
    fn rec(&mut self, w: &World, t: LocalTime, r: &Rec, obs: &mut Obs) -> Res {
        self.k.rec(t, r);
        if let Rec::Out(a, NetworkMessage::GetCFHeaders(_) | NetworkMessage::GetCFilters(_)) = r {
            check!(
                offers(&self.k, a, ServiceFlags::COMPACT_FILTERS),
                "asked a peer without filters",
                "{a} was asked for filters or filter headers, which it doesn't offer"
            );
        }
        match r {
            Rec::Out(a, NetworkMessage::GetCFHeaders(m)) => {
                *self.asked.entry((*a, m.stop_hash)).or_default() += 1;
            }
            Rec::In(a, NetworkMessage::CFHeaders(m)) => {
                obs.inc("filter header messages");
                if let Some(n) = self.asked.get_mut(&(*a, m.stop_hash)) {
                    self.answer.push(m.stop_hash);
                    *n -= 1;
                    if *n == 0 {
                        self.asked.remove(&(*a, m.stop_hash));
                    }
                } else {
                    obs.inc("unsolicited filter header messages");
                }
            }
            Rec::Down(a, _) => self.asked.retain(|(b, _), _| b != a),
            Rec::Ev(Event::FilterHeadersSynced { height }) => {
                check!(
                    *height == w.filters.get().height() && *height == w.tree.height(),
                    "synced height",
                    "filter headers reported synced at {height}, the chain has {}, the filters {}",
                    w.tree.height(),
                    w.filters.get().height()
                );
            }
            _ => {}
        }
        Ok(())
    }

    fn turn(&mut self, w: &World, _t: LocalTime, obs: &mut Obs) -> Res {
        self.k.turn();
        let f = w.filters.get();
        let (h, tip) = (f.height(), w.tree.get_tip());
        let last = self.entries.last().copied();
        let now = f.get_header(h);
        check!(now.is_some(), "filter chain", "no filter header at the filter height {h}");
        if self.tip == tip && last == now && self.entries.len() as u64 == h + 1 {
            self.answer.clear();
            return Ok(());
        }
        check!(h <= w.tree.height(), "filter chain", "the filter chain has height {h}, the block chain {}", w.tree.height());
        let entries = all_filters(w);
        check!(entries.len() as u64 == h + 1, "filter chain", "{} entries at height {h}", entries.len());
        let forest = w.forest.borrow();
        for (i, (hash, header)) in entries.iter().enumerate() {
            if !self.lax || i == 0 {
                let b = w.tree.get_block_by_height(i as Height).map(|b| b.block_hash());
                let Some(n) = b.and_then(|b| forest.get(&b)) else {
                    return viol("filter chain", format!("no block for entry {i}"));
                };
                check!(
                    (*hash, *header) == (n.fhash, n.fheader),
                    "filter chain",
                    "entry {i} of {h} doesn't belong to the active block {} (tip {})",
                    n.hash,
                    w.tree.height()
                );
            } else {
                check!(hash.filter_header(&entries[i - 1].1) == *header, "filter chain", "entry {i} of {h} isn't linked to the previous one");
            }
            check!(f.get_header(i as Height) == Some((*hash, *header)), "filter chain", "lookup of entry {i} disagrees with the chain");
        }
        drop(forest);
        let common = entries.iter().zip(&self.entries).take_while(|(a, b)| a == b).count();
        if !self.entries.is_empty() && entries.len() > common {
            let heights: Vec<Height> = self.answer.iter().filter_map(|b| w.tree.get_block(b)).map(|(h, _)| h).collect();
            check!(self.answer.is_empty() || heights.contains(&h), "partial filter headers", "filter headers {common}..{} were accepted, but the answer was for those up to {heights:?}", entries.len());
            check!(!self.answer.is_empty(), "unsolicited filter headers", "filter headers {common}..{} were accepted in a turn without an answer to a request", entries.len());
            obs.inc("filter header imports");
            obs.distinct((common, entries.len(), w.tree.height()));
        }
        if common < self.entries.len() {
            obs.inc("filter header rollbacks");
            self.removed = true;
        }
        self.entries = entries;
        self.tip = tip;
        self.answer.clear();
        Ok(())
    }

    fn end(&mut self, w: &World, obs: &mut Obs) -> Res {
        if !self.lax {
            check!(
                w.filters.get().height() == w.tree.height(),
                "filter headers missing",
                "the filter chain stays at {}, the block chain is at {}, with an honest peer connected",
                w.filters.get().height(),
                w.tree.height()
            );
            obs.inc("scenarios that ended in sync");
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// F02

#[derive(Default)]
struct AuthenticFilters {
    active: Vec<BlockHash>,
    filters: Height,
    ranges: Vec<(PeerId, u64, BlockHash)>,
    got: Vec<(PeerId, CFilter)>,
    reported: Vec<(PeerId, BlockHash)>,
    processed: Vec<BlockHash>,
    judged: BTreeSet<PeerId>,
    /// Authentic filters were received for these blocks.
    seen: HashSet<BlockHash>,
    k: Links,
    ready: HashSet<PeerId>,
}

impl Monitor for AuthenticFilters {
    fn rec(&mut self, w: &World, t: LocalTime, r: &Rec, obs: &mut Obs) -> Res {
        self.k.rec(t, r);
        match r {
            Rec::In(a, NetworkMessage::CFilter(c)) => self.got.push((*a, c.clone())),
            Rec::Out(a, NetworkMessage::GetCFilters(m)) => self.ranges.push((*a, m.start_height as u64, m.stop_hash)),
            Rec::Down(a, _) => {
                self.judged.insert(*a);
                self.ranges.retain(|(b, ..)| b != a);
            }
            Rec::Drop(a, _) | Rec::Ev(Event::PeerMisbehaved { addr: a, .. }) => {
                self.judged.insert(*a);
            }
            Rec::Ev(Event::FilterReceived { from, block, height, filter }) => {
                let f = w.forest.borrow();
                let Some(n) = f.get(block) else {
                    return viol("unknown filter", format!("a filter for the unknown block {block} was reported"));
                };
                check!(
                    self.got.iter().any(|(a, c)| a == from && c.block_hash == *block && c.filter == filter.content),
                    "filter not received",
                    "a filter for {block} was reported that {from} didn't send in this turn"
                );
                check!(filter.content == n.filter.content, "altered filter", "an altered filter for {block} was reported");
                check!(*height == n.height, "filter height", "the filter for {block} at {} was reported at {height}", n.height);
                check!(
                    self.active.get(*height as usize) == Some(block) && *height <= self.filters,
                    "stale filter",
                    "the filter for {block} was reported, which isn't in the active chain, or above the filter headers (height {height}, filter headers {})",
                    self.filters
                );
                self.reported.push((*from, *block));
                obs.inc("filters reported");
            }
            Rec::Ev(Event::FilterProcessed { block, height, valid, .. }) => {
                let f = w.forest.borrow();
                let n = f.get(block);
                check!(n.map_or(false, |n| n.height == *height), "filter height", "the filter of {block} was processed at {height}");
                check!(*valid, "invalid filter", "the filter of {block} at {height} was processed as invalid");
                check!(
                    w.tree.get_block(block).is_some() || self.active.get(*height as usize) == Some(block),
                    "stale filter",
                    "the filter of {block} was processed, which isn't in the active chain"
                );
                check!(
                    self.seen.contains(block) || self.got.iter().any(|(_, c)| c.block_hash == *block),
                    "filter not received",
                    "a filter of {block} was processed, but none was received"
                );
                self.processed.push(*block);
                obs.inc("filters processed");
            }
            _ => {}
        }
        Ok(())
    }

    fn turn(&mut self, w: &World, _t: LocalTime, obs: &mut Obs) -> Res {
        for (a, c) in std::mem::take(&mut self.got) {
            let f = w.forest.borrow();
            let node = f.get(&c.block_hash);
            let current = node.map_or(false, |n| self.active.get(n.height as usize) == Some(&n.hash) && n.height <= self.filters);
            let truth = node.map_or(false, |n| n.filter.content == c.filter) && c.filter_type == 0;
            let count = self.reported.iter().filter(|(b, h)| *b == a && *h == c.block_hash).count();
            if current && truth {
                let n = node.unwrap();
                self.seen.insert(n.hash);
                let asked = self.ranges.iter().any(|(b, start, stop)| {
                    *b == a && *start <= n.height && f.get(stop).map_or(false, |s| s.height >= n.height)
                });
                if asked {
                    check!(count == 1, "filter lost", "the filter of {} at {} was asked from {a}, sent, and reported {count} times", n.hash, n.height);
                    obs.inc("authentic filters asked for");
                } else {
                    check!(count <= 1, "filter repeated", "a filter was reported {count} times");
                    obs.inc("authentic filters nobody asked for");
                }
            } else {
                check!(count == 0, "bad filter", "a filter for {} was reported, which isn't authentic", c.block_hash);
                check!(
                    !self.processed.contains(&c.block_hash) || self.seen.contains(&c.block_hash),
                    "bad filter",
                    "the filter of {} was processed in the turn in which a bad one arrived",
                    c.block_hash
                );
                if current && c.filter_type == 0 && self.ready.contains(&a) {
                    check!(self.judged.contains(&a), "liar not penalised", "{a} sent an altered filter for {}, and stays", c.block_hash);
                    obs.inc("altered filters");
                    obs.distinct((self.active.len(), self.filters, w.conns.len()));
                } else if c.filter_type != 0 {
                    obs.inc("filters of another type");
                } else {
                    obs.inc("filters of stale or unknown blocks");
                }
            }
        }
        if self.active.last().copied() != w.tree.get_tip() || self.active.len() as u64 != w.tree.height() + 1 {
            self.active = w.active();
        }
        self.filters = w.filters.get().height();
        self.k.turn();
        self.ready = self.k.all_up().filter(|(_, l)| l.negotiated).map(|(a, _)| *a).collect();
        self.reported.clear();
        self.processed.clear();
        self.judged.clear();
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// F03

/// What the watch list says about a block.
fn matches(w: &World, block: &BlockHash, watch: &HashSet<Script>, txs: &BTreeMap<Txid, Vec<Script>>) -> bool {
    let f = w.forest.borrow();
    let Some(n) = f.get(block) else { return false };
    let filter = &n.filter;
    let any = !watch.is_empty() && filter.match_any(block, &mut watch.iter().map(|s| s.as_bytes())).unwrap_or(false);
    any || txs.values().any(|outs| filter.match_all(block, &mut outs.iter().map(|s| s.as_bytes())).unwrap_or(false))
}

#[derive(Default)]
struct Scan {
    active: bool,
    start: Height,
    cur: Height,
    end: Option<Height>,
    watch: HashSet<Script>,
    txs: BTreeMap<Txid, Vec<Script>>,
    /// Transactions whose status changed in this turn.
    maybe: BTreeMap<Txid, Vec<Script>>,
    all: BTreeMap<Txid, Vec<Script>>,
    announced: Option<(Height, Option<Height>)>,
    due: BTreeMap<Height, BlockHash>,
    started: u32,
    stopped: u32,
    swept: HashSet<(Height, BlockHash)>,
    /// Progress reported, and the matches delivered, in this turn.
    progress: Vec<Height>,
    delivered: Vec<Height>,
}

impl Scan {
    fn outs(t: &Transaction) -> Vec<Script> {
        t.output.iter().map(|o| o.script_pubkey.clone()).collect()
    }
}

impl Monitor for Scan {
    fn rec(&mut self, w: &World, _t: LocalTime, r: &Rec, obs: &mut Obs) -> Res {
        match r {
            Rec::Cmd(Act::Rescan(from, to, watch), _) => {
                let start = match from {
                    // Nb. a command doesn't change the chain.
                    Bound::Unbounded => w.tree.height() + 1,
                    Bound::Included(h) => *h,
                    Bound::Excluded(h) => h.saturating_add(1),
                };
                let (start, end) = match to {
                    Bound::Unbounded => (start, None),
                    Bound::Included(h) => (start, Some(*h)),
                    Bound::Excluded(0) => (start.max(1), Some(0)),
                    Bound::Excluded(h) => (start, Some(h - 1)),
                };
                self.active = true;
                self.start = start;
                self.cur = start;
                self.end = end;
                self.watch = watch.iter().cloned().collect();
                self.announced = Some((start, end));
                self.swept.clear();
                obs.inc("rescans");
            }
            Rec::Cmd(Act::Watch(v), _) => self.watch.extend(v.iter().cloned()),
            Rec::Cmd(Act::Submit(t), _) => {
                let o = Self::outs(t);
                self.all.insert(t.txid(), o.clone());
                // Whether it's watched as soon as the command is issued doesn't matter.
                self.maybe.insert(t.txid(), o.clone());
                self.txs.insert(t.txid(), o);
            }
            Rec::Ev(Event::TxStatusChanged { txid, status }) => match status {
                TxStatus::Confirmed { .. } => {
                    if let Some(o) = self.txs.remove(txid) {
                        self.maybe.insert(*txid, o);
                    }
                }
                TxStatus::Reverted { transaction } => {
                    let o = Self::outs(transaction);
                    self.maybe.insert(*txid, o.clone());
                    self.txs.insert(*txid, o);
                }
                _ => {}
            },
            Rec::Ev(Event::FilterRescanStarted { start, stop }) => {
                check!(self.announced == Some((*start, *stop)), "rescan start", "a rescan {start}..{stop:?} started, {:?} was asked for", self.announced);
                self.announced = None;
            }
            Rec::Ev(Event::FilterRescanStopped { height }) => {
                check!(self.active, "rescan stop", "a rescan stopped at {height}, but none is active");
                check!(Some(*height) == self.end, "rescan stop", "the rescan to {:?} stopped at {height}", self.end);
                check!(self.cur > *height, "rescan stop", "the rescan to {height} stopped at {}", self.cur);
                self.active = false;
                self.stopped += 1;
                obs.inc("rescans completed");
            }
            Rec::Ev(Event::BlockHeadersImported { reverted, .. }) => {
                if let Some((h, _)) = reverted.last() {
                    let h = *h;
                    self.due.retain(|k, _| *k < h);
                    self.swept.retain(|(k, _)| *k < h);
                    if self.active && self.cur > h {
                        obs.inc("rescans set back");
                        self.cur = h.max(self.start);
                    }
                }
            }
            Rec::Ev(Event::FilterProcessed { block, height, matched, .. }) => {
                check!(self.active, "scan", "filter {height} was processed, but no rescan is active");
                check!(
                    *height == self.cur,
                    "scan order",
                    "filter {height} was processed, but {} is next (rescan {}..{:?})",
                    self.cur,
                    self.start,
                    self.end
                );
                check!(self.end.map_or(true, |e| *height <= e), "scan range", "filter {height} was processed, beyond the end {:?}", self.end);
                check!(self.swept.insert((*height, *block)), "scan repeated", "block {block} at {height} was processed twice by the same rescan");
                self.cur += 1;
                let sure: BTreeMap<_, _> = self.txs.iter().filter(|(t, _)| !self.maybe.contains_key(*t)).map(|(t, o)| (*t, o.clone())).collect();
                let must = matches(w, block, &self.watch, &sure);
                let may = must || matches(w, block, &self.watch, &self.txs) || matches(w, block, &HashSet::new(), &self.maybe);
                check!(*matched || !must, "match missed", "block {block} at {height} matches the watch list, but was reported not to");
                check!(!*matched || may, "false match", "block {block} at {height} was reported to match, but doesn't");
                if *matched {
                    self.due.insert(*height, *block);
                    obs.inc("matches");
                }
                obs.inc("filters scanned");
                obs.distinct((*height, self.start, self.end, *matched, self.started));
            }
            Rec::Ev(Event::BlockMatched { height, block }) => {
                let hash = block.block_hash();
                check!(
                    self.due.get(height) == Some(&hash),
                    "match delivery",
                    "block {hash} at {height} was delivered as a match; due: {:?}",
                    self.due.get(height)
                );
                self.due.remove(height);
                self.delivered.push(*height);
                genuine(w, block, *height)?;
                obs.inc("matching blocks delivered");
            }
            Rec::Ev(Event::Scanned { height }) => self.progress.push(*height),
            _ => {}
        }
        Ok(())
    }

    fn turn(&mut self, _w: &World, _t: LocalTime, obs: &mut Obs) -> Res {
        check!(self.announced.is_none(), "rescan start", "the rescan wasn't reported to start");
        // Blocks up to the height reported don't include any that's yet to be looked at or delivered.
        let due = self.due.keys().next().copied();
        check!(self.delivered.is_empty() || !self.progress.is_empty(), "no progress", "matches were delivered at {:?}, but no progress was reported", self.delivered);
        for h in self.progress.drain(..) {
            obs.inc("progress reports");
            check!(due.map_or(true, |d| d >= h), "scanned early", "the chain was reported as scanned up to {h}, but the match at {due:?} isn't delivered yet");
            check!(!self.active || h <= self.cur.max(self.delivered.iter().max().map_or(0, |d| d + 1)), "scanned early", "the chain was reported as scanned up to {h}, but {} is the next to look at", self.cur);
        }
        self.delivered.clear();
        self.maybe.clear();
        if self.active && self.end.map_or(false, |e| self.cur > e) && self.cur > self.start {
            return viol("rescan stop", format!("the rescan to {:?} is at {} and wasn't reported to stop", self.end, self.cur));
        }
        Ok(())
    }

    fn end(&mut self, w: &World, obs: &mut Obs) -> Res {
        if let Some((h, b)) = self.due.iter().next() {
            return viol("match not delivered", format!("{} matching blocks weren't delivered, the first is {b} at {h}", self.due.len()));
        }
        let last = self.end.map_or(w.tree.height(), |e| e.min(w.tree.height()));
        if self.active {
            check!(
                self.cur > last,
                "scan incomplete",
                "the rescan {}..{:?} stays at {}, the chain is at {}",
                self.start,
                self.end,
                self.cur,
                w.tree.height()
            );
            check!(self.end.map_or(true, |e| self.cur <= e), "rescan stop", "the rescan {}..{:?} was never reported to stop", self.start, self.end);
        }
        // Every block of the active chain was looked at by the last rescan.
        if self.started > 0 || !self.swept.is_empty() {
            for h in self.start..=last {
                if self.active {
                    let b = w.tree.get_block_by_height(h).unwrap().block_hash();
                    check!(self.swept.contains(&(h, b)), "scan incomplete", "block {b} at {h} was never looked at");
                }
            }
        }
        obs.inc("scans that ended complete");
        Ok(())
    }
}

/// Check that a block is what it claims to be, and belongs to the active chain.
fn genuine(w: &World, block: &Block, height: Height) -> Res {
    let hash = block.block_hash();
    let f = w.forest.borrow();
    let Some(n) = f.get(&hash) else { return viol("block", format!("unknown block {hash} delivered")) };
    check!(n.height == height, "block height", "block {hash} at {} was delivered at {height}", n.height);
    let (a, b): (Vec<_>, Vec<_>) = (block.txdata.iter().map(|t| t.txid()).collect(), n.block.txdata.iter().map(|t| t.txid()).collect());
    check!(a == b, "altered block", "block {hash} was delivered with other transactions");
    check!(w.tree.get_block(&hash).map(|b| b.0) == Some(height), "stale block", "block {hash} isn't in the active chain");
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// I01

pub type Pool = Rc<RefCell<BTreeMap<Txid, Transaction>>>;

#[derive(Clone, Copy)]
struct Need {
    since: LocalTime,
    attempts: u32,
}

struct Relay {
    k: Links,
    pool: Pool,
    needs: BTreeMap<(PeerId, Txid), Need>,
    ready: HashSet<PeerId>,
    /// In the pool at some point in this turn.
    then: BTreeMap<Txid, Transaction>,
    asks: Vec<(PeerId, Inventory)>,
    invs: Vec<(PeerId, Inventory)>,
    sent: Vec<(PeerId, Transaction)>,
    /// Announcements since the peer last fetched something it was announced.
    rounds: HashMap<PeerId, u32>,
    last: HashMap<PeerId, LocalTime>,
    /// Transactions fetched for the first time, and acknowledgments reported.
    fetched: Vec<(PeerId, Txid)>,
    acks: Vec<(PeerId, Txid)>,
    /// Transactions whose status changed otherwise in this turn.
    moved: HashSet<Txid>,
}

impl Relay {
    fn new(pool: Pool) -> Self {
        Relay {
            k: Links::default(),
            pool,
            needs: BTreeMap::new(),
            ready: HashSet::new(),
            then: BTreeMap::new(),
            asks: vec![],
            invs: vec![],
            sent: vec![],
            rounds: HashMap::new(),
            last: HashMap::new(),
            fetched: vec![],
            acks: vec![],
            moved: HashSet::new(),
        }
    }
    fn relays(&self, a: &PeerId) -> bool {
        self.k.up(a).map_or(false, |l| l.negotiated && l.version.as_ref().map_or(false, |v| v.relay))
    }
    fn add(&mut self, t: LocalTime, tx: &Transaction) {
        let id = tx.txid();
        self.pool.borrow_mut().insert(id, tx.clone());
        self.then.insert(id, tx.clone());
        let peers: Vec<_> = self.k.all_up().map(|(a, _)| *a).filter(|a| self.relays(a)).collect();
        for a in peers {
            self.needs.entry((a, id)).or_insert(Need { since: t, attempts: 0 });
        }
    }
}

fn names(i: &Inventory, t: &Transaction) -> bool {
    match i {
        Inventory::Transaction(id) | Inventory::WitnessTransaction(id) => *id == t.txid(),
        Inventory::WTx(id) => *id == t.wtxid(),
        _ => false,
    }
}

impl Monitor for Relay {
    fn rec(&mut self, _w: &World, t: LocalTime, r: &Rec, obs: &mut Obs) -> Res {
        self.k.rec(t, r);
        match r {
            Rec::Cmd(Act::Submit(tx), _) => {
                self.moved.insert(tx.txid());
                self.add(t, tx)
            }
            // Nb. It may be given up on in the same turn as it leaves.
            Rec::Up(a, _) => {
                self.rounds.remove(a);
                self.last.remove(a);
            }
            Rec::Down(a, _) => {
                self.needs.retain(|(b, _), _| b != a)
            }
            Rec::Ev(Event::PeerTimedOut { addr }) => {
                let n = self.rounds.get(addr).copied().unwrap_or_default();
                check!(
                    n >= 2,
                    "given up on too soon",
                    "{addr} was given up on after {n} announcements since it last fetched what it was announced"
                );
                obs.inc("peers given up on");
                self.needs.retain(|(b, _), _| b != addr);
            }
            Rec::Ev(Event::PeerNegotiated { addr, .. }) => {
                if self.relays(addr) {
                    for id in self.pool.borrow().keys() {
                        self.needs.insert((*addr, *id), Need { since: t, attempts: 0 });
                    }
                }
            }
            Rec::Ev(Event::TxStatusChanged { txid, status }) => match status {
                TxStatus::Acknowledged { peer } => self.acks.push((*peer, *txid)),
                TxStatus::Confirmed { .. } => {
                    self.moved.insert(*txid);
                    self.pool.borrow_mut().remove(txid);
                    self.needs.retain(|(_, i), _| i != txid);
                }
                TxStatus::Reverted { transaction } => {
                    self.moved.insert(*txid);
                    self.add(t, transaction);
                    obs.inc("transactions announced again after a reorganisation");
                }
                _ => {}
            },
            Rec::In(a, NetworkMessage::GetData(v)) => {
                for i in v {
                    self.asks.push((*a, *i));
                    let ids: Vec<_> = self.then.values().filter(|t| names(i, t)).map(|t| t.txid()).collect();
                    for id in ids {
                        if self.needs.remove(&(*a, id)).is_some() {
                            self.rounds.remove(a);
                            self.fetched.push((*a, id));
                        }
                    }
                }
            }
            Rec::Out(a, NetworkMessage::Inv(v)) => {
                *self.rounds.entry(*a).or_default() += 1;
                self.last.insert(*a, t);
                for i in v {
                    self.invs.push((*a, *i));
                }
            }
            Rec::Out(a, NetworkMessage::Tx(tx)) => self.sent.push((*a, tx.clone())),
            Rec::Out(_, NetworkMessage::GetData(v)) => {
                check!(
                    v.iter().all(|i| matches!(i, Inventory::Block(_) | Inventory::WitnessBlock(_))),
                    "asked for transactions",
                    "a peer was asked for something other than blocks: {v:?}"
                );
            }
            _ => {}
        }
        Ok(())
    }

    fn turn(&mut self, _w: &World, t: LocalTime, obs: &mut Obs) -> Res {
        for (a, i) in std::mem::take(&mut self.invs) {
            let Some(tx) = self.then.values().find(|t| names(&i, t)) else {
                return viol("announced", format!("{a} was sent {i:?}, which isn't being broadcast"));
            };
            let id = tx.txid();
            let l = self.k.links.get(&a).and_then(|v| v.last());
            check!(
                l.map_or(false, |l| l.negotiated && l.version.as_ref().map_or(false, |v| v.relay)),
                "announced to non-relaying peer",
                "{a} doesn't relay transactions, and was sent {i:?}"
            );
            let wtxid = l.map_or(false, |l| l.wtxid);
            check!(matches!(i, Inventory::WTx(_)) == wtxid, "announced by the wrong id", "{a} (wtxid-relay: {wtxid}) was sent {i:?}");
            obs.inc("announcements");
            if let Some(n) = self.needs.get_mut(&(a, id)) {
                n.attempts += 1;
                if n.attempts > 1 {
                    obs.inc("repeated announcements");
                }
                n.since = t;
                obs.distinct((n.attempts, self.needs.len(), wtxid));
            }
        }
        for (a, tx) in &self.sent {
            check!(self.then.get(&tx.txid()) == Some(tx), "sent", "{a} was sent {}, which isn't being broadcast", tx.txid());
            check!(self.asks.iter().any(|(b, i)| a == b && names(i, tx)), "sent unasked", "{a} was sent {} without asking for it", tx.txid());
        }
        for (a, i) in std::mem::take(&mut self.asks) {
            let pool = self.pool.borrow();
            let Some(tx) = pool.values().find(|t| names(&i, t)) else { continue };
            if self.ready.contains(&a) && self.k.up(&a).is_some() {
                let n = self.sent.iter().filter(|(b, t)| *b == a && t == tx).count();
                check!(n > 0, "not served", "{a} asked for {i:?}, which is being broadcast, and got nothing");
                obs.inc("transactions served");
            }
        }
        for ((a, id), n) in &self.needs {
            // The first time, it's prompt, unless the peer hasn't fetched what it was announced lately.
            let prompt = n.attempts == 0 && self.last.get(a).map_or(true, |l| since(*l, t) > 100.);
            check!(
                since(n.since, t) < if prompt { 10. } else { 100. },
                "not announced",
                "{id} should have been announced to {a} ({} announcements before) since {} s",
                n.attempts,
                since(n.since, t)
            );
        }
        let fetched = std::mem::take(&mut self.fetched);
        let acks = std::mem::take(&mut self.acks);
        for (a, id) in &acks {
            check!(
                self.moved.contains(id) || fetched.contains(&(*a, *id)),
                "acknowledged",
                "{id} was reported acknowledged by {a}, which didn't ask for it, or had it already"
            );
        }
        for (a, id) in &fetched {
            let n = acks.iter().filter(|x| **x == (*a, *id)).count();
            if !self.moved.contains(id) && self.ready.contains(a) && self.k.up(a).is_some() {
                check!(n == 1, "not acknowledged", "{a} fetched {id} for the first time, and {n} acknowledgments were reported");
                obs.inc("acknowledgments");
            }
        }
        self.moved.clear();
        self.sent.clear();
        self.then = self.pool.borrow().clone();
        self.k.turn();
        self.ready = self.k.all_up().filter(|(_, l)| l.negotiated).map(|(a, _)| *a).collect();
        Ok(())
    }

    fn end(&mut self, w: &World, obs: &mut Obs) -> Res {
        // Everybody who asks for what it's announced has got everything.
        for (a, l) in self.k.all_up() {
            let c = &w.conns[a];
            if c.spec.kind != Kind::Honest || !l.negotiated || !c.spec.relay || !c.spec.fetch_txs {
                continue;
            }
            for id in self.pool.borrow().keys() {
                check!(c.seen_txs.contains(id), "not propagated", "{a} fetches every transaction it's announced, and never got {id}");
                obs.inc("transactions propagated");
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// I02

#[derive(Default)]
struct TxStates {
    pool: BTreeMap<Txid, Transaction>,
    confirmed: BTreeMap<Txid, (Height, BlockHash, bool)>,
    active: Vec<BlockHash>,
    // This turn.
    blocks: Vec<(Height, Block)>,
    conf: Vec<(Txid, Height, BlockHash)>,
    rev: Vec<Transaction>,
    gone: Vec<(Height, BlockHash)>,
    asks: Vec<(PeerId, Inventory)>,
    acks: Vec<(PeerId, Txid)>,
}

impl Monitor for TxStates {
    fn rec(&mut self, _w: &World, _t: LocalTime, r: &Rec, _obs: &mut Obs) -> Res {
        match r {
            Rec::Cmd(Act::Submit(tx), _) => {
                self.pool.insert(tx.txid(), tx.clone());
            }
            Rec::In(a, NetworkMessage::GetData(v)) => self.asks.extend(v.iter().map(|i| (*a, *i))),
            Rec::Ev(Event::BlockProcessed { block, height, .. }) => self.blocks.push((*height, block.clone())),
            Rec::Ev(Event::BlockHeadersImported { reverted, .. }) => self.gone.extend(reverted.iter().map(|(h, b)| (*h, b.block_hash()))),
            Rec::Ev(Event::TxStatusChanged { txid, status }) => match status {
                TxStatus::Confirmed { height, block } => self.conf.push((*txid, *height, *block)),
                TxStatus::Reverted { transaction } => {
                    check!(transaction.txid() == *txid, "reverted transaction", "{txid} was reverted with the transaction {}", transaction.txid());
                    self.rev.push(transaction.clone());
                }
                TxStatus::Acknowledged { peer } => self.acks.push((*peer, *txid)),
                _ => {}
            },
            _ => {}
        }
        Ok(())
    }

    fn turn(&mut self, w: &World, _t: LocalTime, obs: &mut Obs) -> Res {
        // Acknowledgements.
        for (a, id) in std::mem::take(&mut self.acks) {
            let Some(tx) = self.pool.get(&id) else {
                return viol("acknowledged", format!("{id} was acknowledged by {a}, but isn't being broadcast"));
            };
            check!(self.asks.iter().any(|(b, i)| *b == a && names(i, tx)), "acknowledged", "{id} was reported as acknowledged by {a}, which didn't ask for it");
            obs.inc("acknowledgements");
        }
        self.asks.clear();
        // Confirmations.
        let mut expected = BTreeSet::new();
        for (h, b) in std::mem::take(&mut self.blocks) {
            obs.inc("blocks processed");
            for tx in &b.txdata {
                if self.pool.contains_key(&tx.txid()) {
                    expected.insert((tx.txid(), h, b.block_hash()));
                }
            }
        }
        let conf = std::mem::take(&mut self.conf);
        for c in &conf {
            check!(expected.contains(c), "confirmed", "{} was reported confirmed in {} at {}, which wasn't processed, or doesn't have it", c.0, c.2, c.1);
            check!(conf.iter().filter(|d| *d == c).count() == 1, "confirmed twice", "{} was reported confirmed more than once", c.0);
        }
        for e in &expected {
            check!(conf.contains(e), "not confirmed", "{} is in the processed block {} at {}, and wasn't reported confirmed", e.0, e.2, e.1);
        }
        // Reversals, of what was confirmed before this turn.
        let rev = std::mem::take(&mut self.rev);
        for tx in &rev {
            let id = tx.txid();
            let Some((h, b, _)) = self.confirmed.get(&id) else {
                return viol("reverted", format!("{id} was reported reverted, but isn't confirmed"));
            };
            check!(self.gone.contains(&(*h, *b)), "reverted", "{id} was reported reverted, but its block {b} at {h} wasn't");
            check!(rev.iter().filter(|t| t.txid() == id).count() == 1, "reverted twice", "{id} was reported reverted more than once");
        }
        let mut back = vec![];
        for (id, (h, b, recent)) in &self.confirmed {
            if self.gone.contains(&(*h, *b)) {
                let got = rev.iter().any(|t| t.txid() == *id);
                check!(got || !*recent, "not reverted", "{id} was confirmed in {b} at {h}, which left the active chain, and wasn't reported reverted");
                back.push((*id, got));
                obs.inc("confirmed transactions whose block was reverted");
            }
        }
        for (id, _) in back {
            self.confirmed.remove(&id);
        }
        for tx in rev {
            self.pool.insert(tx.txid(), tx);
        }
        self.gone.clear();
        for (id, h, b) in conf {
            check!(w.tree.get_block(&b).map(|x| x.0) == Some(h), "confirmed in stale block", "{id} was reported confirmed in {b} at {h}, which isn't in the active chain");
            obs.inc("confirmations");
            obs.distinct((h, w.tree.height() - h, self.pool.len()));
            self.pool.remove(&id);
            self.confirmed.insert(id, (h, b, true));
        }
        let tip = w.tree.height();
        for (h, _, recent) in self.confirmed.values_mut() {
            // Deeper transactions are considered final.
            if tip.saturating_sub(*h) > 11 {
                *recent = false;
            }
        }
        let _ = &self.active;
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// I03

#[derive(Default)]
struct BlockRequests {
    /// Requested, and when. Required ones have been part of the active chain since.
    pending: HashMap<BlockHash, bool>,
    out: BTreeMap<BlockHash, (LocalTime, u32)>,
    delivered: Vec<(Height, BlockHash)>,
    asked: Vec<(PeerId, BlockHash)>,
    k: Links,
    /// Since when there's somebody to ask, and since when the blocks are wanted.
    somebody: Option<LocalTime>,
    wanted: HashMap<BlockHash, LocalTime>,
}

impl Monitor for BlockRequests {
    fn rec(&mut self, w: &World, t: LocalTime, r: &Rec, obs: &mut Obs) -> Res {
        self.k.rec(t, r);
        match r {
            Rec::Cmd(Act::RequestBlock(h), _) => {
                let active = w.tree.get_block(h).is_some();
                if !self.out.contains_key(h) && !self.pending.contains_key(h) {
                    self.wanted.insert(*h, t);
                }
                let e = self.pending.entry(*h).or_insert(false);
                *e |= active;
                obs.inc("blocks requested by the user");
            }
            Rec::Ev(Event::FilterProcessed { block, matched: true, .. }) => {
                if self.pending.insert(*block, true).is_none() && !self.out.contains_key(block) {
                    self.wanted.insert(*block, t);
                }
            }
            // It's there already, though perhaps not delivered, as another one comes before it.
            Rec::In(_, NetworkMessage::Block(b)) => {
                self.wanted.remove(&b.block_hash());
            }
            // The peer left in the same turn: somebody else is asked when the request expires.
            Rec::Lost(_, NetworkMessage::GetData(v)) => {
                for i in v {
                    if let Inventory::Block(h) | Inventory::WitnessBlock(h) = i {
                        self.wanted.remove(h);
                    }
                }
            }
            Rec::Ev(Event::BlockHeadersImported { reverted, .. }) => {
                for (_, b) in reverted {
                    if let Some(p) = self.pending.get_mut(&b.block_hash()) {
                        *p = false;
                        obs.inc("requested blocks that were reverted");
                    }
                }
            }
            Rec::Out(a, NetworkMessage::GetData(v)) => {
                for i in v {
                    if let Inventory::Block(h) | Inventory::WitnessBlock(h) = i {
                        check!(
                            offers(&self.k, a, ServiceFlags::NETWORK),
                            "asked a peer without blocks",
                            "{a} was asked for block {h}, but doesn't offer blocks"
                        );
                        self.asked.push((*a, *h));
                        if self.wanted.remove(h).is_some() {
                            obs.inc("wanted blocks asked for in time");
                        }
                        let e = self.out.entry(*h).or_insert((t, 0));
                        e.0 = t;
                        e.1 += 1;
                        if e.1 > 1 {
                            obs.inc("repeated block requests");
                        }
                        obs.inc("block requests");
                    }
                }
            }
            Rec::Ev(Event::BlockProcessed { block, height, .. }) => {
                let hash = block.block_hash();
                check!(self.pending.remove(&hash).is_some(), "block not requested", "block {hash} at {height} was delivered, but isn't awaited");
                self.out.remove(&hash);
                genuine(w, block, *height)?;
                for (p, required) in &self.pending {
                    if *required {
                        let h = w.tree.get_block(p).map(|b| b.0);
                        check!(
                            h.map_or(true, |h| h > *height),
                            "block order",
                            "block {hash} at {height} was delivered before {p} at {h:?}, which was requested earlier"
                        );
                    }
                }
                self.delivered.push((*height, hash));
                obs.inc("blocks delivered");
                obs.distinct((*height, self.pending.len(), w.tree.height()));
            }
            _ => {}
        }
        Ok(())
    }

    fn turn(&mut self, w: &World, t: LocalTime, _obs: &mut Obs) -> Res {
        self.somebody = self
            .k
            .all_up()
            .any(|(_, l)| l.negotiated && l.version.as_ref().map_or(false, |v| v.services.has(ServiceFlags::NETWORK)))
            .then(|| self.somebody.unwrap_or(t));
        self.wanted.retain(|h, _| self.pending.get(h) == Some(&true) && w.tree.get_block(h).is_some());
        if let Some(s) = self.somebody {
            for (h, x) in &self.wanted {
                check!(since(s.max(*x), t) < 10., "not asked for", "block {h} is wanted for {} s, and nobody was asked for it", since(*x, t));
            }
        }
        check!(self.delivered.windows(2).all(|v| v[0].0 < v[1].0), "block order", "blocks were delivered in the order {:?}", self.delivered);
        for (a, h) in std::mem::take(&mut self.asked) {
            check!(
                self.pending.contains_key(&h) || self.delivered.iter().any(|d| d.1 == h),
                "unwanted request",
                "{a} was asked for {h}, which isn't wanted"
            );
        }
        self.k.turn();
        self.delivered.clear();
        Ok(())
    }

    fn end(&mut self, w: &World, _obs: &mut Obs) -> Res {
        for (h, required) in &self.pending {
            check!(
                !required || w.tree.get_block(h).is_none(),
                "block not delivered",
                "block {h} at {:?} was requested and never delivered (asked {:?})",
                w.tree.get_block(h).map(|b| b.0),
                self.out.get(h)
            );
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// Workload

#[derive(Clone, Copy)]
struct Scene {
    /// At least this many blocks.
    base: usize,
    len: usize,
    forks: usize,
    steps: usize,
    rescan: u32,
    watch: u32,
    submit: u32,
    block: u32,
    /// Requests of all blocks from some height.
    run: u32,
    filters: u32,
    lookup: u32,
    /// Messages aimed at the part under test.
    meddle: u32,
    /// Peers may lie about filter headers.
    liars: bool,
    /// The same few peers stay connected, but often don't answer.
    steady: bool,
    /// All but one of them never give out blocks, or filters.
    stingy: bool,
}

const SCENE: Scene =
    Scene { base: 0, len: 30, forks: 4, steps: 120, rescan: 3, watch: 1, submit: 2, block: 2, run: 0, filters: 1, lookup: 0, meddle: 6, liars: false, steady: false, stingy: false };

fn command(w: &mut World, ch: &Chains, sc: &Scene, pool: &Option<Pool>, rng: &fastrand::Rng, obs: &mut Obs) -> Res {
    let total = sc.rescan + sc.watch + sc.submit + sc.block + sc.run + sc.filters + sc.lookup + sc.meddle;
    let mut x = rng.u32(..total);
    let mut pick = |n: u32| {
        if x < n {
            true
        } else {
            x -= n;
            false
        }
    };
    let h = w.tree.height();
    let scripts = |n: usize| -> Vec<Script> {
        (0..n).map(|_| if rng.u8(0..4) > 0 { msgs::pick(&ch.scripts, rng).clone() } else { blocks::script(rng) }).collect()
    };
    let c = if pick(sc.rescan) {
        let from = match rng.u8(0..6) {
            0 => Bound::Unbounded,
            1 => Bound::Excluded(rng.u64(0..h + 3)),
            2 => Bound::Included(0),
            _ => Bound::Included(rng.u64(0..h + 3)),
        };
        let to = match rng.u8(0..6) {
            0 => Bound::Included(rng.u64(0..h + 6)),
            1 => Bound::Excluded(rng.u64(0..h + 6)),
            _ => Bound::Unbounded,
        };
        let n = rng.usize(0..4);
        Command::Rescan { from, to, watch: scripts(n) }
    } else if pick(sc.watch) {
        let n = rng.usize(0..3);
        Command::Watch { watch: scripts(n) }
    } else if pick(sc.submit) {
        let tx = some_tx(w, rng);
        Command::SubmitTransaction(tx, crossbeam_channel::unbounded().0)
    } else if pick(sc.block) {
        let f = w.forest.borrow();
        let a = w.active();
        let n = rng.u8(0..8);
        Command::RequestBlock(match n {
            0 => f.nodes[rng.usize(..f.nodes.len())].hash,
            1 => BlockHash::from_inner([rng.u8(..); 32]),
            2 | 3 => a[a.len() - 1 - rng.usize(..a.len().min(4))],
            _ => a[rng.usize(..a.len())],
        })
    } else if pick(sc.run) {
        let a = w.active();
        let from = rng.usize(..a.len()).max(rng.usize(..a.len()));
        for h in &a[from..] {
            w.command(Command::RequestBlock(*h))?;
        }
        obs.inc("runs of blocks requested");
        return Ok(());
    } else if pick(sc.filters) {
        let a = rng.u64(0..h + 2);
        Command::RequestFilters(a..=rng.u64(a..h + 3), crossbeam_channel::unbounded().0)
    } else if pick(sc.lookup) {
        let Some(pool) = pool else { return Ok(()) };
        let ids: Vec<Txid> = pool.borrow().keys().copied().collect();
        let id = if ids.is_empty() || rng.u8(0..4) == 0 { some_tx(w, rng).txid() } else { *msgs::pick(&ids, rng) };
        let (tx, rx) = crossbeam_channel::unbounded();
        w.command(Command::GetSubmittedTransaction(id, tx))?;
        w.drain()?;
        let got = rx.try_recv();
        check!(got.is_ok(), "lookup", "looking up the submitted transaction {id} gave no answer");
        check!(got.as_ref().ok() == Some(&pool.borrow().get(&id).cloned()), "lookup", "looking up the submitted transaction {id} gave {:?}", got.ok().flatten().map(|t| t.txid()));
        obs.inc("lookups");
        return Ok(());
    } else {
        return meddle(w, sc, rng, obs);
    };
    obs.inc("commands");
    w.command(c)
}

/// A transaction that is, or may be, part of some block; or not.
fn some_tx(w: &World, rng: &fastrand::Rng) -> Transaction {
    let f = w.forest.borrow();
    if rng.u8(0..4) > 0 {
        for _ in 0..8 {
            let a = w.tree.height() as usize;
            let n = if rng.bool() {
                // Around the tip.
                let near: Vec<usize> = (0..f.nodes.len()).filter(|i| (f.nodes[*i].height as usize + 4) > a).collect();
                &f.nodes[near[rng.usize(..near.len())]]
            } else {
                &f.nodes[rng.usize(..f.nodes.len())]
            };
            if n.block.txdata.len() > 1 {
                return n.block.txdata[rng.usize(1..n.block.txdata.len())].clone();
            }
        }
    }
    blocks::random_tx(rng)
}

fn meddle(w: &mut World, sc: &Scene, rng: &fastrand::Rng, obs: &mut Obs) -> Res {
    use NetworkMessage as M;
    let l: Vec<PeerId> = w.conns.iter().filter(|(_, c)| c.ready()).map(|(a, _)| *a).collect();
    if l.is_empty() {
        return Ok(());
    }
    let a = *msgs::pick(&l, rng);
    let c = &w.conns[&a];
    let bad = c.spec.kind != Kind::Honest;
    // Peers that may be asked for filter headers mustn't lie about them.
    let askable = c.link == Link::Outbound && has(c.spec.services, ServiceFlags::COMPACT_FILTERS) && !sc.liars;
    let m = {
        let f = w.forest.borrow();
        let active = w.active();
        let n = match rng.u8(0..4) {
            0 => &f.nodes[rng.usize(..f.nodes.len())],
            1 => f.get(&active[active.len() - 1 - rng.usize(..active.len().min(3))]).unwrap_or(&f.nodes[0]),
            _ => f.get(&active[rng.usize(..active.len())]).unwrap_or(&f.nodes[0]),
        };
        match rng.u8(0..8) {
            0 | 1 => {
                let mut c = CFilter { filter_type: 0, block_hash: n.hash, filter: n.filter.content.clone() };
                if bad && rng.u8(0..3) > 0 {
                    match rng.u8(0..6) {
                        0 => c.filter_type = rng.u8(1..),
                        1 => c.filter = f.nodes[rng.usize(..f.nodes.len())].filter.content.clone(),
                        2 => c.filter.push(0),
                        3 => c.filter.clear(),
                        4 => {
                            c.filter.pop();
                        }
                        _ => {
                            let k = rng.usize(..c.filter.len());
                            c.filter[k] ^= 1 << rng.u8(0..8);
                        }
                    }
                }
                M::CFilter(c)
            }
            2 | 3 => {
                // The next filter headers, or others.
                let stop = if rng.bool() { n.hash } else { active[active.len() - 1] };
                let Some(s) = f.index.get(&stop) else { return Ok(()) };
                let past = f.chain(*s);
                let fh = w.filters.get().height() as usize;
                let start = if rng.bool() { (fh + 1).min(past.len() - 1) } else { rng.usize(..past.len()) };
                let mut c = CFHeaders {
                    filter_type: 0,
                    stop_hash: stop,
                    previous_filter_header: if start == 0 { FilterHeader::all_zeros() } else { f.nodes[past[start - 1]].fheader },
                    filter_hashes: past[start..].iter().map(|i| f.nodes[*i].fhash).collect(),
                };
                if !askable && rng.bool() {
                    match rng.u8(0..5) {
                        0 => c.filter_type = 1,
                        1 => {
                            c.filter_hashes.pop();
                        }
                        2 => c.filter_hashes.push(FilterHash::from_inner([7; 32])),
                        3 => {
                            let k = rng.usize(..c.filter_hashes.len());
                            c.filter_hashes[k] = FilterHash::from_inner([8; 32]);
                        }
                        _ => c.previous_filter_header = FilterHeader::from_inner([9; 32]),
                    }
                }
                M::CFHeaders(c)
            }
            4 | 5 => {
                let mut b = n.block.clone();
                if rng.bool() {
                    strip(&mut b);
                }
                if bad && rng.bool() {
                    match rng.u8(0..3) {
                        0 => {
                            b.txdata.pop();
                        }
                        1 => b.txdata.push(blocks::random_tx(rng)),
                        _ => b.txdata[0].lock_time = nakamoto_common::bitcoin::PackedLockTime(rng.u32(1..1000)),
                    }
                }
                M::Block(b)
            }
            6 => {
                let t: Vec<&Transaction> = w.txs.values().collect();
                let t = if t.is_empty() || rng.u8(0..3) == 0 { some_tx(w, rng) } else { t[rng.usize(..t.len())].clone() };
                M::GetData(vec![match rng.u8(0..3) {
                    0 => Inventory::Transaction(t.txid()),
                    1 => Inventory::WitnessTransaction(t.txid()),
                    _ => Inventory::WTx(t.wtxid()),
                }])
            }
            _ => {
                drop(active);
                if !bad || c.spec.kind != Kind::Hostile {
                    return Ok(());
                }
                match w.hostile_message() {
                    // Valid headers could lead to blocks nobody has.
                    M::Headers(_) => return Ok(()),
                    M::CFHeaders(_) if askable => return Ok(()),
                    m => m,
                }
            }
        }
    };
    obs.inc("meddling messages");
    w.deliver(a, m)
}

/// Stop everything unusual, and bring all peers to a new best tip.
fn calm(w: &mut World, ch: &mut Chains, steady: bool, rng: &fastrand::Rng, mons: &mut [&mut dyn Monitor], obs: &mut Obs) -> Result<usize, Violation> {
    settle(w, secs(900), mons, obs)?;
    let best = {
        let mut f = ch.forest.borrow_mut();
        let top = (0..f.nodes.len()).max_by_key(|i| (f.nodes[*i].height, std::cmp::Reverse(*i))).unwrap();
        let n = if rng.bool() { 1 } else { rng.usize(1..4) };
        f.grow(top, n, 2, &ch.scripts, rng)
    };
    let last = ch.forest.borrow().nodes[best].block.header.time as u64;
    let now = w.now.as_secs();
    if last > now {
        settle(w, secs(last - now), mons, obs)?;
    }
    for s in w.specs.values_mut() {
        s.tip = best;
        s.kind = Kind::Honest;
        s.services = full();
        s.lossy = 0.;
        s.corrupt = 0.;
        s.claim = None;
    }
    let fresh = ip(45);
    let mut s = Spec::honest(best, rng);
    s.relay = true;
    w.specs.insert(fresh, s);
    let mut silent = 0;
    for a in live(w) {
        let c = w.conns.get_mut(&a).unwrap();
        c.spec.lossy = 0.;
        c.spec.corrupt = 0.;
        if c.spec.kind == Kind::Honest {
            w.advance_remote(a, best, rng.bool());
        } else if c.spec.kind == Kind::Silent && silent < 1 && rng.bool() {
            silent += 1;
        } else {
            w.tick()?;
            w.close(a)?;
            w.drain()?;
            pump(w, mons, obs)?;
        }
    }
    if !steady {
        w.tick()?;
        w.command(Command::Connect(fresh))?;
        w.drain()?;
        pump(w, mons, obs)?;
    }
    settle(w, secs(3600), mons, obs)?;
    Ok(best)
}

fn scene(rng: &fastrand::Rng, obs: &mut Obs, tier: Tier, sc: Scene, pool: Option<Pool>, mons: &mut [&mut dyn Monitor]) -> Res {
    let (mut ch, mut o) = network(
        rng,
        sc.base + rng.usize(2..2 + sc.len),
        rng.usize(0..=sc.forks),
        rng.usize(2..8),
        &[Kind::Honest, Kind::Honest, Kind::Honest, Kind::Honest, Kind::Silent, Kind::Hostile],
    );
    o.cache = *msgs::pick(&[0, 60, 400, 4000, 1 << 20], rng);
    o.target_out = rng.usize(2..6);
    let lat = *msgs::pick(&[(0, 0), (1, 50), (20, 3000), (500, 9000)], rng);
    for (_, s) in &mut o.specs {
        if s.kind == Kind::Hostile && !sc.liars {
            s.services = ServiceFlags::NETWORK;
        }
        s.lat = lat;
        s.dup = *msgs::pick(&[0., 0., 0.4], rng);
        s.lossy = *msgs::pick(&[0., 0., 0.3], rng);
        s.corrupt = *msgs::pick(&[0., 0., 0., 0.2], rng);
        s.shuffle = rng.bool();
        s.relay = rng.u8(0..4) > 0;
        s.fetch_txs = rng.u8(0..4) > 0;
        if sc.steady {
            s.kind = Kind::Honest;
            s.services = full();
            s.lossy = 0.;
            s.corrupt = 0.;
            s.lossy_blocks = 0.7;
            s.fetch_txs = true;
            s.lat = (0, 400);
        }
    }
    if sc.steady {
        o.specs.truncate(3);
        o.target_out = 3;
        if sc.stingy {
            let giver = rng.usize(..o.specs.len());
            let what = rng.u8(0..3);
            for (i, (_, s)) in o.specs.iter_mut().enumerate() {
                s.lossy_blocks = if i != giver && what != 1 { 1. } else { 0. };
                s.no_filters = i != giver && what != 0;
            }
        }
    }
    let mut w = build(rng, &ch, o)?;
    w.batch = 1;
    // The reactor coalesces timers; the clock of the simulation does if it's coarse.
    w.coarse |= sc.liars;
    let (accept, close) = if sc.steady { (0, 0) } else { (3, 2) };
    let mix = Mix { accept, close, advance: 9, grow: 4, kinds: &[Kind::Honest, Kind::Honest, Kind::Silent, Kind::Hostile], ..CALM };
    let r = (|| {
        w.initialize()?;
        pump(&mut w, mons, obs)?;
        let n = steps(tier, rng, sc.steps);
        play(&mut w, &mut ch, n, &mix, H, rng, obs, mons, &mut |w, ch, rng, obs| command(w, ch, &sc, &pool, rng, obs))?;
        let best = calm(&mut w, &mut ch, sc.steady, rng, mons, obs)?;
        let hash = ch.forest.borrow().nodes[best].hash;
        if w.tree.get_tip() == Some(hash) {
            for m in mons.iter_mut() {
                m.end(&w, obs)?;
            }
        } else {
            obs.inc("scenarios that ended behind");
        }
        Ok(())
    })();
    finish(&mut w, obs, r)
}

fn f01_follow(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let mut m = FilterHeaders::default();
    scene(rng, obs, tier, Scene { rescan: 1, meddle: 8, ..SCENE }, None, &mut [&mut m])
}

/// More headers than fit in a message.
fn f01_long(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let mut m = FilterHeaders::default();
    scene(rng, obs, tier, Scene { base: *msgs::pick(&[1990, 2000, 3995], rng), len: 12, steps: 20, rescan: 1, meddle: 2, ..SCENE }, None, &mut [&mut m])
}

/// More filters than fit in a message.
fn f03_long(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let mut m = Scan::default();
    scene(rng, obs, tier, Scene { base: *msgs::pick(&[990, 1000, 1990, 2500], rng), len: 12, steps: 30, rescan: 2, submit: 0, block: 0, meddle: 1, ..SCENE }, None, &mut [&mut m])
}

fn f01_liars(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let mut m = FilterHeaders { lax: true, ..Default::default() };
    scene(rng, obs, tier, Scene { rescan: 1, meddle: 12, liars: true, ..SCENE }, None, &mut [&mut m])
}

fn f02_filters(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let mut m = AuthenticFilters::default();
    scene(rng, obs, tier, Scene { rescan: 3, filters: 3, meddle: 12, submit: 1, block: 0, ..SCENE }, None, &mut [&mut m])
}

fn f03_scan(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let mut m = Scan::default();
    scene(rng, obs, tier, Scene { rescan: 2, meddle: 4, ..SCENE }, None, &mut [&mut m])
}

fn i01_relay(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let pool = Pool::default();
    let mut m = Relay::new(pool.clone());
    scene(rng, obs, tier, Scene { submit: 4, lookup: 2, block: 3, len: 20, ..SCENE }, Some(pool), &mut [&mut m])
}

fn i02_status(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let mut m = TxStates::default();
    scene(rng, obs, tier, Scene { submit: 6, block: 6, rescan: 2, len: 20, meddle: 3, ..SCENE }, None, &mut [&mut m])
}

fn i03_blocks(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let mut m = BlockRequests::default();
    scene(rng, obs, tier, Scene { block: 8, submit: 1, rescan: 1, ..SCENE }, None, &mut [&mut m])
}

fn i03_steady(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let mut m = BlockRequests::default();
    scene(rng, obs, tier, Scene { block: 8, submit: 0, rescan: 1, meddle: 0, steps: 40, steady: true, ..SCENE }, None, &mut [&mut m])
}

/// Blocks are asked of other peers until one gives them out.
fn i03_stingy(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let mut m = BlockRequests::default();
    scene(rng, obs, tier, Scene { block: 8, submit: 0, rescan: 1, meddle: 0, steps: 30, steady: true, stingy: true, ..SCENE }, None, &mut [&mut m])
}

/// Filters, and blocks, are asked of other peers until one gives them out.
fn f03_stingy(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let mut m = Scan::default();
    scene(rng, obs, tier, Scene { rescan: 4, submit: 1, meddle: 0, steps: 30, steady: true, stingy: true, ..SCENE }, None, &mut [&mut m])
}

// ---------------------------------------------------------------------------------------------
// I04

/// The fee estimates reported by the node, for the blocks it processed.
#[derive(Default)]
struct Fees {
    /// Height of what was processed, and the outputs known before.
    done: Vec<(Height, FeeState)>,
    state: FeeState,
    snapshots: usize,
    /// A re-organisation deeper than supported.
    lost: bool,
}

impl Monitor for Fees {
    fn rec(&mut self, _w: &World, _t: LocalTime, r: &Rec, obs: &mut Obs) -> Res {
        match r {
            Rec::Ev(Event::BlockDisconnected { height, .. }) => {
                while self.done.last().map_or(false, |d| d.0 >= *height) {
                    let (_, before) = self.done.pop().unwrap();
                    self.state = before;
                    obs.inc("processed blocks reverted");
                    if self.snapshots == 0 {
                        self.lost = true;
                    } else {
                        self.snapshots -= 1;
                    }
                }
            }
            Rec::Ev(Event::BlockProcessed { block, height, fees }) => {
                if self.lost || *height <= self.done.last().map_or(0, |d| d.0) {
                    obs.inc("blocks processed out of order");
                    return Ok(());
                }
                self.done.push((*height, self.state.clone()));
                self.snapshots = (self.snapshots + 1).min(12);
                let want = summary(self.state.apply(block));
                let got = fees.as_ref().map(|e| (e.low, e.median, e.high));
                check!(got == want, "reported estimate", "the estimate reported for the block at height {height} is {got:?}, but its fees give {want:?}");
                obs.inc(if got.is_some() { "reported estimates" } else { "absent estimates" });
                obs.distinct((height, got));
            }
            _ => {}
        }
        Ok(())
    }

    fn turn(&mut self, _w: &World, _t: LocalTime, _obs: &mut Obs) -> Res {
        Ok(())
    }

    fn end(&mut self, _w: &World, _obs: &mut Obs) -> Res {
        Ok(())
    }
}

pub fn i04_events(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let mut m = Fees::default();
    let steady = rng.u8(0..4) > 0;
    scene(rng, obs, tier, Scene { block: 0, run: 8, submit: 0, rescan: 1, meddle: 0, watch: 0, filters: 0, steps: 60, steady, ..SCENE }, None, &mut [&mut m])
}

const SIM: &[&str] = &["the environment of the state machine (reactor, clock, peers) is simulated; its contract is that of net/poll"];
const SIM_CF: &[&str] = &[
    "the environment of the state machine (reactor, clock, peers) is simulated; its contract is that of net/poll",
    "peers asked for filter headers don't lie about them consistently (undetectable with one source), except where only the structure is judged",
];

pub fn properties() -> Vec<Property> {
    let p = |id, rule, assumptions, groups| Property { id, rule, assumptions, level: "exploration", groups };
    let g = |name, quick, thorough, run| Group { name, quick, thorough, threads: 0, run };
    vec![
        p("F01", "distinct by old and new filter height and chain height at an import", SIM_CF, vec![
            g("follow", 2500, 20_000, f01_follow as _),
            g("liars", 500, 6000, f01_liars as _),
            g("long", 16, 400, f01_long as _),
        ]),
        p("F02", "distinct by chain height, filter height and connections at an altered filter", SIM_CF, vec![g("filters", 2500, 60_000, f02_filters as _)]),
        p("F03", "distinct by height, range, and match of a processed filter", SIM_CF, vec![
            g("scan", 2500, 60_000, f03_scan as _),
            g("long", 16, 400, f03_long as _),
            g("stingy", 200, 6_000, f03_stingy as _),
        ]),
        p("I01", "distinct by attempt, number of outstanding announcements and kind", SIM, vec![g("relay", 2500, 60_000, i01_relay as _)]),
        p("I02", "distinct by height, depth and size of the pool at a confirmation", SIM, vec![g("status", 2500, 60_000, i02_status as _)]),
        p("I03", "distinct by height, outstanding requests and chain height at a delivery", SIM, vec![
            g("blocks", 2500, 60_000, i03_blocks as _),
            g("steady", 400, 10_000, i03_steady as _),
            g("stingy", 200, 6_000, i03_stingy as _),
        ]),
    ]
}
