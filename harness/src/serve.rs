//! P07 and P08: what is served to peers, and how they are judged.
use std::collections::{BTreeMap, BTreeSet, HashMap};

use nakamoto_common::bitcoin::network::message::NetworkMessage;
use nakamoto_common::bitcoin::network::message_blockdata::GetHeadersMessage;
use nakamoto_common::bitcoin::network::message_filter::{CFHeaders, GetCFHeaders};
use nakamoto_common::bitcoin_hashes::Hash;
use nakamoto_common::block::filter::{FilterHeader, Filters};
use nakamoto_common::block::time::{Clock, LocalTime};
use nakamoto_common::block::{BlockHash, BlockHeader, Height};
use nakamoto_p2p::PeerId;

use crate::check;
use crate::core::*;
use crate::mon::*;
use crate::msgs;
use crate::p2p::*;
use crate::sim::*;
use crate::world::*;

/// Steps of the network, interleaved with operations and with something specific to a scenario.
#[allow(clippy::too_many_arguments)]
pub fn play(
    w: &mut World,
    ch: &mut Chains,
    n: usize,
    mix: &Mix,
    horizons: &[u128],
    rng: &fastrand::Rng,
    obs: &mut Obs,
    mons: &mut [&mut dyn Monitor],
    custom: &mut dyn FnMut(&mut World, &mut Chains, &fastrand::Rng, &mut Obs) -> Res,
) -> Res {
    for _ in 0..n {
        match rng.u8(0..4) {
            0 | 1 => {
                let horizon = w.now + nakamoto_common::block::time::LocalDuration::from_millis(*msgs::pick(horizons, rng));
                for _ in 0..rng.usize(1..16) {
                    if !w.step(horizon)? {
                        break;
                    }
                    pump(w, mons, obs)?;
                }
            }
            k => {
                w.tick()?;
                let times = if w.batch == 1 { 1 } else { rng.usize(1..=w.batch.min(4)) };
                for _ in 0..times {
                    if k == 2 {
                        custom(w, ch, rng, obs)?;
                    } else {
                        op(w, ch, mix, rng, obs, mons, &mut no_commands)?;
                    }
                }
                if rng.u8(0..8) == 0 {
                    w.timer()?;
                }
                w.drain()?;
                pump(w, mons, obs)?;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// P07

/// Checks everything that is served against the true chain. Requires one input per turn.
#[derive(Default)]
pub struct Serve {
    k: Links,
    outstanding: BTreeMap<PeerId, LocalTime>,
    syncing: bool,
    asks: Vec<(PeerId, NetworkMessage)>,
    outs: Vec<(PeerId, NetworkMessage)>,
}

pub fn headers_for(w: &World, active: &[BlockHash], g: &GetHeadersMessage) -> Vec<BlockHeader> {
    use nakamoto_common::block::tree::BlockReader;
    let index: HashMap<BlockHash, usize> = active.iter().enumerate().map(|(i, h)| (*h, i)).collect();
    let header = |h: &BlockHash| *w.tree.get_block_by_height(index[h] as Height).unwrap();
    let height = |h: &BlockHash| index.get(h).copied();
    if g.locator_hashes.is_empty() {
        return height(&g.stop_hash).map(|_| header(&g.stop_hash)).into_iter().collect();
    }
    let from = g.locator_hashes.iter().find_map(height).unwrap_or(0);
    let mut v = vec![];
    if height(&g.stop_hash).map_or(false, |h| h <= from) {
        return v;
    }
    for h in active.iter().skip(from + 1).take(2000) {
        v.push(header(h));
        if *h == g.stop_hash {
            break;
        }
    }
    v
}

impl Monitor for Serve {
    fn rec(&mut self, w: &World, t: LocalTime, r: &Rec, _obs: &mut Obs) -> Res {
        assert!(w.batch == 1);
        self.k.rec(t, r);
        use NetworkMessage as M;
        match r {
            Rec::In(a, m @ (M::GetHeaders(_) | M::GetCFHeaders(_) | M::GetAddr)) => {
                if self.k.up(a).map_or(false, |l| l.negotiated) {
                    self.syncing = self.outstanding.values().any(|o| since(*o, t) < 100.);
                    self.asks.push((*a, m.clone()));
                }
            }
            Rec::In(a, M::Headers(_)) => {
                self.outstanding.remove(a);
            }
            Rec::Down(a, _) => {
                self.outstanding.remove(a);
            }
            Rec::Out(a, M::GetHeaders(_)) => {
                self.outstanding.insert(*a, t);
            }
            Rec::Out(a, m @ (M::Headers(_) | M::CFHeaders(_) | M::Addr(_) | M::CFilter(_) | M::Block(_))) => {
                self.outs.push((*a, m.clone()));
            }
            _ => {}
        }
        Ok(())
    }

    fn turn(&mut self, w: &World, _t: LocalTime, obs: &mut Obs) -> Res {
        use NetworkMessage as M;
        let asks = std::mem::take(&mut self.asks);
        let outs = std::mem::take(&mut self.outs);
        let active = if asks.is_empty() && outs.is_empty() { vec![] } else { w.active() };
        let at = |h: usize| w.forest.borrow().get(&active[h]).unwrap().clone();
        let asked = |a: &PeerId, c: &str| asks.iter().any(|(b, m)| b == a && m.cmd() == c);
        for (a, m) in &asks {
            let still = self.k.up(a).is_some();
            let got: Vec<&NetworkMessage> =
                outs.iter().filter(|(b, o)| b == a && matches!((m, o), (M::GetHeaders(_), M::Headers(_)) | (M::GetCFHeaders(_), M::CFHeaders(_)) | (M::GetAddr, M::Addr(_)))).map(|(_, m)| m).collect();
            check!(got.len() <= 1, "several answers", "{a} got {} answers to {}", got.len(), brief(m));
            match m {
                M::GetHeaders(g) => {
                    let want = headers_for(w, &active, g);
                    obs.distinct(("headers", active.len(), want.len(), got.len(), self.syncing));
                    match got.first() {
                        Some(M::Headers(h)) => {
                            check!(!h.is_empty(), "unsatisfiable answered", "{a} asked {}, nothing qualifies, and it got an empty answer", brief(m));
                            check!(
                                *h == want,
                                "wrong headers",
                                "{a} asked {} and got {} header(s) from {:?} to {:?}; the active chain (height {}) has {} from {:?} to {:?}",
                                brief(m),
                                h.len(),
                                h.first().map(|h| short(&h.block_hash())),
                                h.last().map(|h| short(&h.block_hash())),
                                active.len() - 1,
                                want.len(),
                                want.first().map(|h| short(&h.block_hash())),
                                want.last().map(|h| short(&h.block_hash()))
                            );
                            obs.inc("header requests answered");
                            if want.len() == 2000 {
                                obs.inc("full header answers");
                            }
                        }
                        _ => {
                            check!(
                                want.is_empty() || self.syncing || !still,
                                "no answer",
                                "{a} asked {} and got no answer, {} headers qualify and no sync is in progress",
                                brief(m),
                                want.len()
                            );
                            obs.inc("header requests not answered");
                        }
                    }
                }
                M::GetCFHeaders(g) => {
                    let stop = active.iter().position(|h| *h == g.stop_hash);
                    let start = g.start_height as usize;
                    let want = stop.filter(|s| g.filter_type == 0 && start <= *s && *s - start < 2000 && *s as Height <= w.filters.get().height()).map(|s| {
                        let prev = if start == 0 { FilterHeader::all_zeros() } else { at(start - 1).fheader };
                        CFHeaders {
                            filter_type: 0,
                            stop_hash: g.stop_hash,
                            previous_filter_header: prev,
                            filter_hashes: (start..=s).map(|h| at(h).fhash).collect(),
                        }
                    });
                    obs.distinct(("cfheaders", active.len(), start, stop));
                    match (got.first(), want) {
                        (Some(M::CFHeaders(c)), Some(want)) => {
                            check!(
                                *c == want,
                                "wrong filter headers",
                                "{a} asked {} and got {} entries to {} (expected {}), or others, or another previous header",
                                brief(m),
                                c.filter_hashes.len(),
                                short(&c.stop_hash),
                                want.filter_hashes.len()
                            );
                            obs.inc("filter header requests answered");
                            if want.filter_hashes.len() == 2000 {
                                obs.inc("full filter header answers");
                            }
                        }
                        (Some(o), _) => {
                            return viol("unsatisfiable answered", format!("{a} asked {} (type {}), which can't be satisfied, and got {}", brief(m), g.filter_type, brief(o)))
                        }
                        (None, Some(want)) => {
                            check!(!still, "no answer", "{a} asked {} and got no answer, {} entries qualify", brief(m), want.filter_hashes.len());
                        }
                        (None, None) => obs.inc("filter header requests not answered"),
                    }
                }
                _ => obs.inc("address requests"),
            }
        }
        for (a, o) in &outs {
            match o {
                M::Headers(h) if !asked(a, "getheaders") => {
                    // An announcement.
                    obs.inc("announcements to peers");
                    check!(
                        h.len() == 1 && Some(&h[0].block_hash()) == active.last(),
                        "wrong announcement",
                        "{a} was sent {} unrequested header(s) up to {:?}, the tip is {}",
                        h.len(),
                        h.last().map(|h| short(&h.block_hash())),
                        short(active.last().unwrap())
                    );
                }
                M::CFHeaders(_) => {
                    check!(asked(a, "getcfheaders"), "unrequested cfheaders", "{a} was sent filter headers it didn't ask for");
                }
                M::Addr(v) => {
                    check!(v.len() <= 1000, "too many addresses", "{} addresses in one message", v.len());
                    let mut seen = BTreeSet::new();
                    for (_, addr) in v {
                        let sock = addr.socket_addr();
                        let known = sock.as_ref().ok().and_then(|s| w.book.get().get(&s.ip()));
                        check!(
                            known.map_or(false, |k| k.addr == *addr),
                            "wrong address",
                            "{a} was sent the address {sock:?} ({}), the book has {:?}",
                            addr.services,
                            known.map(|k| k.addr.clone())
                        );
                        check!(seen.insert(sock.unwrap()), "repeated address", "{a} was sent the same address twice");
                        obs.inc("addresses served");
                    }
                }
                _ => {}
            }
        }
        self.k.turn();
        Ok(())
    }
}

fn some_hash(w: &World, rng: &fastrand::Rng) -> BlockHash {
    let f = w.forest.borrow();
    match rng.u8(0..6) {
        0 => BlockHash::from_inner(std::array::from_fn(|_| rng.u8(..))),
        1 => f.nodes[rng.usize(..f.nodes.len())].hash,
        _ => {
            let a = w.active();
            let n = a.len();
            let back = if rng.bool() { rng.usize(..n.min(30)) } else { rng.usize(..n) };
            a[n - 1 - back]
        }
    }
}

fn request(w: &mut World, ch: &mut Chains, rng: &fastrand::Rng, _obs: &mut Obs) -> Res {
    let l: Vec<_> = w.conns.iter().filter(|(_, c)| c.ready()).map(|(a, _)| *a).collect();
    if l.is_empty() {
        return Ok(());
    }
    let a = *msgs::pick(&l, rng);
    let active = w.active();
    let m = match rng.u8(0..9) {
        0..=3 => {
            let mut loc: Vec<BlockHash> = match rng.u8(0..5) {
                0 => vec![],
                1 => (0..rng.usize(1..6)).map(|_| some_hash(w, rng)).collect(),
                2 => {
                    let f = ch.forest.borrow();
                    let hs: Vec<BlockHash> = f.headers(*msgs::pick(&ch.tips, rng)).iter().map(|h| h.block_hash()).collect();
                    locators(&hs)
                }
                3 => locators(&active[..=rng.usize(..active.len())]),
                _ => vec![some_hash(w, rng)],
            };
            if rng.u8(0..6) == 0 {
                loc.reverse();
            }
            let stop = if rng.bool() { BlockHash::all_zeros() } else { some_hash(w, rng) };
            NetworkMessage::GetHeaders(GetHeadersMessage::new(loc, stop))
        }
        4..=7 => {
            let stop = some_hash(w, rng);
            let n = active.len() as u32;
            let at = active.iter().position(|h| *h == stop).unwrap_or(0) as u32;
            let start = match rng.u8(0..8) {
                0 => rng.u32(..),
                1 => rng.u32(..n + 3),
                2 => 0,
                3 => at.saturating_sub(1999),
                4 => at.saturating_sub(2000),
                5 => at + rng.u32(0..2),
                _ => rng.u32(0..=at),
            };
            let filter_type = if rng.u8(0..12) == 0 { rng.u8(1..) } else { 0 };
            NetworkMessage::GetCFHeaders(GetCFHeaders { filter_type, start_height: start, stop_hash: stop })
        }
        _ => NetworkMessage::GetAddr,
    };
    w.deliver(a, m)
}

fn p07_serve(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let (mut ch, mut o) = network(rng, rng.usize(1..60), rng.usize(0..5), rng.usize(1..8), &[Kind::Honest, Kind::Honest, Kind::Silent, Kind::Dead]);
    for (_, s) in &mut o.specs {
        if rng.u8(0..3) == 0 {
            s.lossy = 0.3;
        }
    }
    let mut w = build(rng, &ch, o)?;
    w.batch = 1;
    // Some more addresses.
    for i in 0..rng.usize(0..60) {
        let a = ip(2000 + i * rng.usize(1..40));
        w.book.get_mut().insert(a.ip(), known_address(&a, nakamoto_common::bitcoin::network::constants::ServiceFlags::from(rng.u64(0..64))));
    }
    let mut m = Serve::default();
    let mix = Mix { accept: 5, close: 1, advance: 5, grow: 2, import: 2, kinds: &[Kind::Honest, Kind::Silent, Kind::Silent], ..CALM };
    let r = w.initialize().and_then(|_| {
        pump(&mut w, &mut [&mut m], obs)?;
        play(&mut w, &mut ch, steps(tier, rng, 250), &mix, H, rng, obs, &mut [&mut m], &mut request)
    });
    finish(&mut w, obs, r)
}

fn p07_long(rng: &mut fastrand::Rng, obs: &mut Obs, _tier: Tier) -> Res {
    let len = *msgs::pick(&[1999, 2000, 2001, 2002, 2600, 4100], rng);
    let mut f = crate::blocks::Forest::new(nakamoto_common::network::Network::Regtest);
    let main = f.grow(0, len, 0, &[], rng);
    let chain = f.chain(main);
    let back = rng.usize(1..20);
    let alt = f.grow(chain[chain.len() - 1 - back], back + rng.usize(0..3), 0, &[], rng);
    let mut ch = Chains { forest: std::rc::Rc::new(std::cell::RefCell::new(f)), tips: vec![main, alt], scripts: vec![] };
    let mut o = Opts::new(*msgs::pick(&[main, alt], rng));
    let h = ch.forest.borrow().nodes[o.known].height;
    o.known_filters = *msgs::pick(&[h, h, h - 1, h - 5], rng);
    o.target_out = 2;
    o.specs = assorted(rng, &ch, 3, &[Kind::Honest, Kind::Silent]);
    let mut w = build(rng, &ch, o)?;
    w.batch = 1;
    let mut m = Serve::default();
    let mix = Mix { accept: 5, close: 1, advance: 3, grow: 1, import: 0, kinds: &[Kind::Silent], ..CALM };
    let r = w.initialize().and_then(|_| {
        pump(&mut w, &mut [&mut m], obs)?;
        play(&mut w, &mut ch, 60, &mix, H, rng, obs, &mut [&mut m], &mut request)
    });
    finish(&mut w, obs, r)
}

// ---------------------------------------------------------------------------------------------
// P08

fn mine(h: &mut BlockHeader) {
    while h.validate_pow(&h.target()).is_err() {
        h.nonce = h.nonce.wrapping_add(1);
    }
}

/// A header that doesn't meet the rules after `parent` (height given).
fn invalid_header(w: &World, height: Height, parent: &BlockHeader, rng: &fastrand::Rng) -> (BlockHeader, &'static str) {
    use nakamoto_common::block::tree::BlockReader;
    let mut times: Vec<u32> = (0..11).filter_map(|i| height.checked_sub(i)).filter_map(|h| w.tree.get_block_by_height(h)).map(|h| h.time).collect();
    times.sort_unstable();
    let mtp = times[times.len() / 2];
    let now = w.now.block_time();
    let mut h = BlockHeader {
        version: 1,
        prev_blockhash: parent.block_hash(),
        merkle_root: Hash::from_inner(std::array::from_fn(|_| rng.u8(..))),
        time: parent.time.max(mtp) + 1,
        bits: parent.bits,
        nonce: rng.u32(..),
    };
    let what = match rng.u8(0..4) {
        0 => {
            while h.validate_pow(&h.target()).is_ok() {
                h.nonce = h.nonce.wrapping_add(1);
            }
            "proof-of-work"
        }
        1 => {
            h.bits = *msgs::pick(&[0x207ffffe, 0x2070ffff, 0x201fffff], rng);
            mine(&mut h);
            "difficulty"
        }
        2 => {
            h.time = mtp - if rng.bool() { 0 } else { rng.u32(0..1000) };
            mine(&mut h);
            "time too old"
        }
        _ => {
            h.time = now + 7200 + rng.u32(3..100_000);
            mine(&mut h);
            "time too new"
        }
    };
    (h, what)
}

/// Peers asked for filter headers, and what for.
#[derive(Default)]
struct Asked {
    req: BTreeMap<BlockHash, (PeerId, LocalTime, u32)>,
    k: Links,
}

impl Monitor for Asked {
    fn turn(&mut self, _w: &World, _t: LocalTime, _obs: &mut Obs) -> Res {
        self.k.turn();
        Ok(())
    }
    fn rec(&mut self, _w: &World, t: LocalTime, r: &Rec, _obs: &mut Obs) -> Res {
        self.k.rec(t, r);
        match r {
            Rec::Out(a, NetworkMessage::GetCFHeaders(g)) => {
                self.req.insert(g.stop_hash, (*a, t, g.start_height));
            }
            Rec::In(a, NetworkMessage::CFHeaders(c)) => {
                if self.req.get(&c.stop_hash).map_or(false, |r| r.0 == *a) {
                    self.req.remove(&c.stop_hash);
                }
            }
            Rec::Down(a, _) => self.req.retain(|_, r| r.0 != *a),
            Rec::Ev(nakamoto_p2p::Event::BlockHeadersImported { reverted, .. }) if !reverted.is_empty() => self.req.clear(),
            _ => {}
        }
        Ok(())
    }
}

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
enum Verdict {
    Penalty,
    /// Must have no effect; a penalty is optional.
    NoEffect,
}

fn offence(w: &World, asked: &Asked, rng: &fastrand::Rng) -> Option<(PeerId, NetworkMessage, Verdict, String)> {
    use nakamoto_common::block::tree::BlockReader;
    use NetworkMessage as M;
    let l: Vec<_> = w.conns.iter().filter(|(a, c)| c.spec.kind == Kind::Silent && asked.k.up(a).map_or(false, |l| l.negotiated)).map(|(a, _)| *a).collect();
    if l.is_empty() {
        return None;
    }
    let a = *msgs::pick(&l, rng);
    let tip = w.tree.height();
    let fh = w.filters.get().height();
    let f = w.forest.borrow();
    Some(match rng.u8(0..10) {
        0..=3 => {
            let back = if rng.u8(0..3) > 0 { 0 } else { rng.u64(0..=tip.min(5)) };
            let parent = *w.tree.get_block_by_height(tip - back).unwrap();
            let (bad, what) = invalid_header(w, tip - back, &parent, rng);
            let mut v = vec![bad];
            // Known headers before, children after.
            let pre = rng.u64(0..4).min(tip - back);
            for i in 0..pre {
                v.insert(0, *w.tree.get_block_by_height(tip - back - i).unwrap());
            }
            for _ in 0..rng.usize(0..3) {
                let last = *v.last().unwrap();
                let mut h = BlockHeader { prev_blockhash: last.block_hash(), time: bad.time + 600, nonce: rng.u32(..), bits: parent.bits, ..last };
                mine(&mut h);
                v.push(h);
            }
            // The rules that depend on the ancestors are checked once a branch rivals the active chain.
            let verdict = if back == 0 || what == "proof-of-work" { Verdict::Penalty } else { Verdict::NoEffect };
            (a, M::Headers(v), verdict, format!("headers with an invalid one ({what}) after height {} of {tip}", tip - back))
        }
        4 => {
            let h = f.nodes[rng.usize(..f.nodes.len())].block.header;
            let n = 2000 + rng.usize(1..50);
            (a, M::Headers(vec![h; n]), Verdict::Penalty, format!("{n} headers"))
        }
        5 => {
            // An altered filter for a block whose filter header is known.
            let h = rng.u64(0..=fh.min(tip));
            let n = f.get(&w.tree.get_block_by_height(h).unwrap().block_hash())?;
            let mut content = n.filter.content.clone();
            match rng.u8(0..4) {
                0 => content.push(rng.u8(..)),
                1 => content = vec![],
                2 => {
                    let other = &f.nodes[rng.usize(..f.nodes.len())].filter.content;
                    content = if *other != content { other.clone() } else { vec![0] };
                }
                _ => {
                    let n = content.len();
                    content[rng.usize(..n)] ^= 1 << rng.u8(0..8);
                }
            }
            if content == n.filter.content {
                return None;
            }
            let c = nakamoto_common::bitcoin::network::message_filter::CFilter { filter_type: 0, block_hash: n.hash, filter: content };
            (a, M::CFilter(c), Verdict::Penalty, format!("an altered filter for height {h}"))
        }
        6 => {
            // Unsolicited filter headers, right or wrong.
            let n = &f.nodes[rng.usize(..f.nodes.len())];
            if asked.req.get(&n.hash).map_or(false, |r| r.0 == a) {
                return None;
            }
            let chain = f.chain(f.index[&n.hash]);
            let start = if rng.bool() { fh as usize + 1 } else { rng.usize(..chain.len()) };
            if start == 0 || start > chain.len() {
                return None;
            }
            let mut c = CFHeaders {
                filter_type: 0,
                stop_hash: n.hash,
                previous_filter_header: f.nodes[chain[start - 1]].fheader,
                filter_hashes: chain[start..].iter().map(|i| f.nodes[*i].fhash).collect(),
            };
            if rng.bool() && !c.filter_hashes.is_empty() {
                let i = rng.usize(..c.filter_hashes.len());
                c.filter_hashes[i] = Hash::from_inner([7; 32]);
            }
            (a, M::CFHeaders(c), Verdict::NoEffect, format!("unsolicited filter headers up to height {}", n.height))
        }
        _ => {
            // A bad answer to a request for filter headers.
            let reqs: Vec<_> = asked.req.iter().filter(|(_, (p, t, _))| l.contains(p) && since(*t, w.now) < 5.5).collect();
            if reqs.is_empty() {
                return None;
            }
            let (stop, (p, _, start)) = *msgs::pick(&reqs, rng);
            let ix = *f.index.get(stop)?;
            if !w.tree.contains(stop) {
                return None;
            }
            let chain = f.chain(ix);
            let good = CFHeaders {
                filter_type: 0,
                stop_hash: *stop,
                previous_filter_header: f.nodes[chain[*start as usize - 1]].fheader,
                filter_hashes: chain[*start as usize..].iter().map(|i| f.nodes[*i].fhash).collect(),
            };
            let mut c = good.clone();
            // If the filter chain has advanced in the meantime, the answer is merely useless.
            let current = fh + 1 == *start as u64;
            let (v, what) = match rng.u8(0..6) {
                0 => {
                    c.filter_type = rng.u8(1..);
                    (Verdict::Penalty, "of another type")
                }
                1 => {
                    c.filter_hashes.clear();
                    (Verdict::Penalty, "without entries")
                }
                2 => {
                    c.filter_hashes.pop();
                    (Verdict::Penalty, "with an entry missing")
                }
                3 => {
                    c.filter_hashes.push(Hash::from_inner([9; 32]));
                    (Verdict::Penalty, "with an extra entry")
                }
                4 => {
                    c.filter_hashes.resize(2001, Hash::from_inner([9; 32]));
                    (Verdict::Penalty, "with too many entries")
                }
                _ => {
                    c.previous_filter_header = if rng.bool() { FilterHeader::all_zeros() } else { f.nodes[rng.usize(..f.nodes.len())].fheader };
                    if c == good {
                        return None;
                    }
                    (Verdict::NoEffect, "not attaching")
                }
            };
            let v = if current { v } else { Verdict::NoEffect };
            (*p, M::CFHeaders(c), v, format!("filter headers {what}"))
        }
    })
}

fn p08_offences(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let (mut ch, mut o) = network(rng, rng.usize(3..40), rng.usize(0..4), rng.usize(2..8), &[Kind::Honest, Kind::Silent, Kind::Silent]);
    if rng.bool() {
        // Nobody else answers.
        for (_, s) in &mut o.specs {
            s.kind = Kind::Silent;
        }
        o.known_filters = 0;
    }
    let mut w = build(rng, &ch, o)?;
    w.batch = 1;
    w.initialize()?;
    let mut asked = Asked::default();
    let mut j = Judge::default();
    let mix = Mix { accept: 6, close: 1, advance: 3, grow: 1, kinds: &[Kind::Silent, Kind::Silent, Kind::Honest], ..CALM };
    let r = (|| {
        for _ in 0..steps(tier, rng, 120) {
            play(&mut w, &mut ch, rng.usize(1..4), &mix, &[0, 10, 1000, 3000], rng, obs, &mut [&mut asked, &mut j], &mut |_, _, _, _| Ok(()))?;
            w.tick()?;
            let Some((a, m, verdict, what)) = offence(&w, &asked, rng) else { continue };
            let active = w.active();
            let filters = all_filters(&w);
            let last = match &m {
                NetworkMessage::Headers(v) if v.len() < 2000 && verdict == Verdict::Penalty => v.last().map(|h| h.block_hash()),
                _ => None,
            };
            j.guilty.insert(a);
            w.deliver(a, m.clone())?;
            w.drain()?;
            let dropped = w.log.iter().any(|(_, r)| matches!(r, Rec::Drop(b, _) if *b == a) || matches!(r, Rec::Ev(nakamoto_p2p::Event::PeerMisbehaved { addr, .. }) if *addr == a));
            if verdict == Verdict::Penalty {
                check!(dropped, "not penalised", "{a} sent {what}, and was neither disconnected nor reported");
                obs.inc("offences penalised");
            } else {
                obs.inc("harmless messages without effect");
            }
            obs.distinct((what.split(|c: char| c.is_ascii_digit()).next().unwrap_or("").to_string(), verdict == Verdict::Penalty, active.len(), filters.len()));
            check!(w.active() == active, "invalid data accepted", "the active chain changed by {what}");
            check!(all_filters(&w) == filters, "invalid data accepted", "the filter headers changed by {what}");
            if let Some(h) = last {
                use nakamoto_common::block::tree::BlockReader;
                check!(!w.tree.is_known(&h), "invalid data accepted", "an invalid header is known after {what}");
            }
            check!(
                !w.log.iter().any(|(_, r)| matches!(r, Rec::Ev(nakamoto_p2p::Event::FilterReceived { .. } | nakamoto_p2p::Event::FilterProcessed { .. }))),
                "invalid data accepted",
                "a filter event followed {what}"
            );
            pump(&mut w, &mut [&mut asked, &mut j], obs)?;
        }
        Ok(())
    })();
    finish(&mut w, obs, r)
}

pub fn all_filters(w: &World) -> Vec<(nakamoto_common::block::filter::FilterHash, FilterHeader)> {
    let h = w.filters.get().height();
    w.filters.get().get_headers(0..=h)
}

/// Honest peers aren't accused.
#[derive(Default)]
pub struct Judge {
    guilty: BTreeSet<PeerId>,
    /// What peers were asked, and when.
    asked: BTreeMap<PeerId, Vec<(&'static str, LocalTime)>>,
}

impl Monitor for Judge {
    fn rec(&mut self, w: &World, t: LocalTime, r: &Rec, obs: &mut Obs) -> Res {
        use nakamoto_p2p::DisconnectReason as D;
        let (asked, least) = match r {
            Rec::Out(a, NetworkMessage::GetHeaders(_)) => (Some((a, "getheaders")), 0.),
            Rec::Out(a, NetworkMessage::GetCFHeaders(_)) => (Some((a, "getcfheaders")), 0.),
            Rec::Drop(_, D::PeerTimeout("getheaders")) => (None, 20.),
            Rec::Drop(_, D::PeerTimeout("getcfheaders")) => (None, 4.),
            _ => (None, 0.),
        };
        if let Some((a, what)) = asked {
            self.asked.entry(*a).or_default().push((what, t));
        }
        match r {
            // Nb. It may be told to go twice in the same turn.
            Rec::Up(a, _) => {
                self.asked.remove(a);
            }
            Rec::Drop(a, D::PeerTimeout(what)) if least > 0. => {
                let times: Vec<f64> = self.asked.get(a).into_iter().flatten().filter(|(w, _)| w == what).map(|(_, s)| since(*s, t)).collect();
                check!(
                    times.iter().any(|s| (least..100.).contains(s)),
                    "hurried",
                    "{a} was disconnected for not answering `{what}`, which it was asked {times:?} seconds ago"
                );
                obs.inc("time-outs judged");
            }
            _ => {}
        }
        let honest = |a: &PeerId| !self.guilty.contains(a) && w.conns.get(a).map(|c| &c.spec).or(w.specs.get(a)).map_or(false, |s| s.kind == Kind::Honest && s.corrupt == 0.);
        match r {
            Rec::Up(a, _) => {
                self.guilty.remove(a);
                if w.conns.get(a).map_or(false, |c| c.spec.kind != Kind::Honest) {
                    self.guilty.insert(*a);
                }
            }
            Rec::Ev(nakamoto_p2p::Event::PeerMisbehaved { addr, reason }) => {
                check!(!honest(addr), "honest peer accused", "{addr} follows the protocol, and was reported: {reason}");
                obs.inc("reports of misbehaviour");
            }
            Rec::Drop(a, D::PeerMisbehaving(why)) => {
                check!(!honest(a), "honest peer accused", "{a} follows the protocol, and was disconnected: {why}");
            }
            Rec::Drop(a, D::DecodeError(e)) => {
                check!(!honest(a), "honest peer accused", "{a} follows the protocol, and was disconnected: {e}");
            }
            Rec::In(..) => obs.inc("messages judged"),
            _ => {}
        }
        Ok(())
    }
}

/// Valid data nobody asked for.
fn unsolicited(w: &mut World, ch: &mut Chains, rng: &fastrand::Rng, obs: &mut Obs) -> Res {
    use nakamoto_common::bitcoin::network::message_blockdata::Inventory;
    use NetworkMessage as M;
    let l: Vec<_> = w.conns.iter().filter(|(_, c)| c.ready() && c.spec.kind == Kind::Honest).map(|(a, _)| *a).collect();
    if l.is_empty() {
        return Ok(());
    }
    let a = *msgs::pick(&l, rng);
    let tip = w.conns[&a].spec.tip;
    let m = {
        let f = ch.forest.borrow();
        let chain = f.chain(tip);
        let any = if rng.u8(0..3) == 0 { rng.usize(..f.nodes.len()) } else { chain[rng.usize(..chain.len())] };
        let past = f.chain(any);
        let start = rng.usize(..past.len());
        match rng.u8(0..14) {
            0 | 1 => {
                // Headers leading up to some block, perhaps stale.
                let n = rng.usize(1..=24.min(past.len()));
                M::Headers(past[past.len() - n..].iter().map(|i| f.nodes[*i].block.header).collect())
            }
            2 => M::Headers(f.headers(any)),
            3 => M::Headers(vec![]),
            4 | 5 => M::CFHeaders(CFHeaders {
                filter_type: 0,
                stop_hash: f.nodes[any].hash,
                previous_filter_header: if start == 0 { FilterHeader::all_zeros() } else { f.nodes[past[start - 1]].fheader },
                filter_hashes: past[start..].iter().map(|i| f.nodes[*i].fhash).collect(),
            }),
            6 | 7 => M::CFilter(nakamoto_common::bitcoin::network::message_filter::CFilter {
                filter_type: 0,
                block_hash: f.nodes[any].hash,
                filter: f.nodes[any].filter.content.clone(),
            }),
            8 => M::Block(f.nodes[any].block.clone()),
            9 => M::Inv(past.iter().rev().take(rng.usize(1..40)).map(|i| Inventory::Block(f.nodes[*i].hash)).collect()),
            10 => M::Inv((0..rng.usize(1..40)).map(|_| Inventory::Transaction(crate::blocks::random_tx(rng).txid())).collect()),
            11 => M::Tx(crate::blocks::random_tx(rng)),
            12 => M::Addr((0..rng.usize(0..10)).map(|_| (w.now.block_time(), msgs::random_address(rng))).collect()),
            _ => M::Pong(rng.u64(..)),
        }
    };
    obs.inc("unsolicited valid messages");
    w.deliver(a, m)
}

fn p08_honest(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let (mut ch, mut o) = network(rng, rng.usize(1..60), rng.usize(0..6), rng.usize(2..9), &[Kind::Honest, Kind::Honest, Kind::Honest, Kind::Hostile, Kind::Silent]);
    for (_, s) in &mut o.specs {
        s.lat = *msgs::pick(&[(0, 0), (1, 400), (200, 9000), (1000, 40_000)], rng);
        s.dup = *msgs::pick(&[0., 0.3, 1.0], rng);
        s.lossy = *msgs::pick(&[0., 0.2], rng);
        s.shuffle = rng.bool();
        if s.kind == Kind::Hostile {
            // Lies about filter headers can't be told from the truth.
            s.services = nakamoto_common::bitcoin::network::constants::ServiceFlags::NETWORK;
        }
    }
    let mut w = build(rng, &ch, o)?;
    w.initialize()?;
    let mut j = Judge::default();
    let mix = Mix { accept: 4, close: 2, advance: 8, grow: 3, hostile: 2, import: 1, kinds: &[Kind::Honest, Kind::Honest, Kind::Hostile], ..CALM };
    let rescan = rng.bool();
    let r = (|| {
        if rescan {
            let watch = ch.scripts.clone();
            w.command(nakamoto_p2p::Command::Rescan { from: std::ops::Bound::Included(0), to: std::ops::Bound::Unbounded, watch })?;
            w.drain()?;
        }
        pump(&mut w, &mut [&mut j], obs)?;
        play(&mut w, &mut ch, steps(tier, rng, 150), &mix, H, rng, obs, &mut [&mut j], &mut unsolicited)?;
        obs.distinct((w.active().len(), w.filters.get().height(), w.conns.len()));
        Ok(())
    })();
    finish(&mut w, obs, r)
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "P07",
        rule: "distinct by request kind, chain length and size of the answer",
        assumptions: &["the environment of the state machine (reactor, clock, peers) is simulated; its contract is that of net/poll"],
        level: "exploration",
        groups: vec![
            Group { name: "serve", quick: 700, thorough: 30_000, threads: 0, run: p07_serve },
            Group { name: "long", quick: 40, thorough: 1500, threads: 0, run: p07_long },
        ],
    },
    Property {
        id: "P08",
        rule: "distinct by kind of message, verdict and chain heights",
        assumptions: &["the environment of the state machine (reactor, clock, peers) is simulated; its contract is that of net/poll",
            "a peer lying about filter headers consistently can't be told from an honest one with a single source"],
        level: "exploration",
        groups: vec![
            Group { name: "offences", quick: 1500, thorough: 60_000, threads: 0, run: p08_offences },
            Group { name: "honest", quick: 1500, thorough: 60_000, threads: 0, run: p08_honest },
            Group { name: "undecodable", quick: 500, thorough: 20_000, threads: 0, run: crate::service::undecodable },
        ],
    }]
}
