//! F04 filter cache, T01 network time, D01 stream decoder, I04 fee estimates, A02 address book file.
use std::collections::{BTreeMap, HashMap, HashSet};
use std::net;

use nakamoto_client::verif::Cache;
use nakamoto_common::bitcoin::blockdata::transaction::{OutPoint, TxOut};
use nakamoto_common::bitcoin::consensus::{deserialize, serialize};
use nakamoto_common::bitcoin::network::address::Address;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::{NetworkMessage, RawNetworkMessage};
use nakamoto_common::bitcoin::{Block, Transaction};
use nakamoto_common::block::filter::BlockFilter;
use nakamoto_common::block::time::{AdjustedTime, Clock, LocalTime};
use nakamoto_common::block::Height;
use nakamoto_common::network::Network;
use nakamoto_common::p2p::peer::{KnownAddress, Source, Store};
use nakamoto_p2p::fsm::fees::FeeEstimator;
use nakamoto_p2p::fsm::filter_cache::FilterCache;
use nakamoto_p2p::stream::Decoder;

use crate::blocks::{self, bytes, Forest};
use crate::check;
use crate::core::*;
use crate::msgs::{self, Ctx};
use crate::stores::Scratch;

// F04 //////////////////////////////////////////////////////////////////////////////////////////

pub fn f04(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let capacity = match rng.u8(0..8) {
        0 => 0,
        1 => usize::MAX,
        2 => rng.usize(0..16),
        _ => rng.usize(16..400),
    };
    let mut cache = FilterCache::<BlockFilter>::new(capacity);
    let mut model: BTreeMap<Height, Vec<u8>> = BTreeMap::new();
    let base = match rng.u8(0..4) {
        0 => 0u64,
        1 => u64::MAX - 64,
        _ => rng.u64(0..1_000_000),
    };
    let steps = if tier == Tier::Quick { rng.usize(5..120) } else { rng.usize(5..600) };
    let span = *msgs::pick(&[3u64, 16, 64], rng);
    let mut next = base;
    for _ in 0..steps {
        match rng.u8(0..8) {
            0 => {
                let h = base.saturating_add(rng.u64(0..span)).saturating_sub(rng.u64(0..3));
                obs.trace(format!("rollback {h}"));
                guard("rollback", || cache.rollback(h))?;
                let before = model.len();
                model.retain(|k, _| *k <= h);
                if model.len() < before {
                    obs.inc("rollbacks that forgot filters");
                }
            }
            x => {
                let h = if x < 4 {
                    next = next.saturating_add(1);
                    if next - base > 63 {
                        next = base;
                    }
                    next
                } else {
                    base + rng.u64(0..span)
                };
                let len = match rng.u8(0..6) {
                    0 => 0,
                    1 => capacity.min(300).saturating_add(rng.usize(0..2)),
                    _ => rng.usize(0..60),
                };
                let content = bytes(rng, len);
                obs.trace(format!("push {h} len {len}"));
                let r = guard("push", || cache.push(h, BlockFilter::new(&content)))?;
                let fits = len <= capacity;
                check!(r == fits, "push-result", "push of {len} bytes into capacity {capacity} returned {r}");
                if fits {
                    if model.insert(h, content).is_some() {
                        obs.inc("replacements");
                    }
                    while model.values().map(|v| v.len()).sum::<usize>() > capacity {
                        let k = *model.keys().next().unwrap();
                        model.remove(&k);
                        obs.inc("evictions");
                    }
                } else {
                    obs.inc("refused (too large)");
                }
            }
        }
        // Everything observable agrees with the model.
        let sum: usize = model.values().map(|v| v.len()).sum();
        check!(cache.size() <= capacity, "over-capacity", "size {} > capacity {capacity}", cache.size());
        check!(cache.size() == sum, "size", "reported size {} but holds {sum}", cache.size());
        check!(cache.capacity() == capacity, "capacity", "capacity changed");
        check!(cache.len() == model.len(), "len", "len {} expected {}", cache.len(), model.len());
        check!(cache.is_empty() == model.is_empty(), "is-empty", "is_empty wrong");
        check!(cache.start() == model.keys().next().copied(), "start", "start {:?}", cache.start());
        check!(cache.end() == model.keys().next_back().copied(), "end", "end {:?}", cache.end());
        let it: Vec<_> = cache.iter().map(|(h, f)| (*h, f.content.clone())).collect();
        let want: Vec<_> = model.iter().map(|(h, f)| (*h, f.clone())).collect();
        check!(it == want, "content", "cache holds {:?}, expected {:?}", it.iter().map(|x| x.0).collect::<Vec<_>>(), want.iter().map(|x| x.0).collect::<Vec<_>>());
        check!(cache.heights().eq(model.keys().copied()), "heights", "heights() disagrees");
        for h in [base, next, base + rng.u64(0..64), rng.u64(..)] {
            check!(
                cache.get(&h).map(|f| &f.content) == model.get(&h),
                "get",
                "get({h}) disagrees with the last filter stored"
            );
        }
        obs.inc("states compared");
    }
    obs.distinct((capacity, model.iter().map(|(h, c)| (*h, c.len())).collect::<Vec<_>>()));
    Ok(())
}

// T01 //////////////////////////////////////////////////////////////////////////////////////////

pub fn t01(rng: &mut fastrand::Rng, obs: &mut Obs, _: Tier) -> Res {
    const MAX: i64 = 70 * 60;
    let t0 = match rng.u8(0..4) {
        0 => rng.u32(0..8000),
        1 => u32::MAX - rng.u32(0..8000),
        _ => 1_600_000_000 + rng.u32(0..100_000_000),
    };
    let mut clock: AdjustedTime<u32> = AdjustedTime::new(LocalTime::from_secs(t0 as u64));
    let mut local = t0;
    let mut sources = HashSet::new();
    let mut samples = vec![0i64];
    let mut offset = 0i64;
    let n = *msgs::pick(&[3usize, 6, 12, 60, 230], rng);
    let style = rng.u8(0..6);
    let reused = if rng.bool() { u32::MAX } else { rng.u32(1..250) };
    for _ in 0..n {
        if rng.u8(0..4) == 0 {
            local = local.wrapping_add(rng.u32(0..100));
            clock.set_local_time(LocalTime::from_secs(local as u64));
        }
        let s = match style {
            0 => rng.i64(-50..50),
            1 => rng.i64(MAX - 3..MAX + 4) * if rng.bool() { 1 } else { -1 },
            2 => *msgs::pick(&[i64::MIN, i64::MAX, 0, -1, MAX, -MAX, MAX + 1, -MAX - 1], rng),
            3 => rng.i64(..),
            4 => -MAX - rng.i64(-2..2),
            _ => rng.i64(-10_000..10_000),
        };
        let src = if reused == u32::MAX { rng.u32(..) } else { rng.u32(0..reused) };
        obs.trace(format!("sample {s} from {src}"));
        guard("record_offset", || clock.record_offset(src, s))?;
        if sources.len() < 200 && sources.insert(src) {
            samples.push(s);
            if samples.len() >= 5 && samples.len() % 2 == 1 {
                let mut v = samples.clone();
                v.sort();
                let m = v[v.len() / 2];
                offset = if m.unsigned_abs() > MAX as u64 { 0 } else { m };
                obs.inc("adjustments evaluated");
                if offset != m {
                    obs.inc("medians ignored as too large");
                }
            }
        } else {
            obs.inc("samples from known or surplus peers");
        }
        check!(clock.offset() == offset, "offset", "offset is {} but the oracle says {offset} for samples {samples:?}", clock.offset());
        for l in [local, 0, u32::MAX, rng.u32(..)] {
            let got = guard("from", || clock.from(l))?;
            let want = (l as i64 + offset).clamp(0, u32::MAX as i64) as u32;
            check!(got == want, "adjusted", "network time for local {l} is {got}, expected {want} (offset {offset})");
            check!((got as i64 - l as i64).abs() <= MAX, "limit", "network time differs by more than 70 minutes");
        }
        check!(clock.get() == clock.from(local), "get", "get() is not from(local time)");
        check!(clock.block_time() == clock.get(), "block-time", "block_time() is not the network time");
        check!(clock.local_time() == LocalTime::from_secs(local as u64), "local", "local time changed");
        obs.distinct(offset);
    }
    obs.add("samples recorded", samples.len() as u64);
    Ok(())
}

// D01 //////////////////////////////////////////////////////////////////////////////////////////

pub fn small_forest(rng: &fastrand::Rng) -> Forest {
    let mut f = Forest::new(Network::Regtest);
    let t = f.grow(0, 6, 2, &[], rng);
    let _ = t;
    f.grow(2, 2, 1, &[], rng);
    f
}

/// One frame of the stream and what a receiver must make of it.
pub enum Frame {
    Good(Vec<u8>, RawNetworkMessage),
    /// Never completes to a valid message.
    Bad(Vec<u8>, &'static str),
}

pub fn frame(rng: &fastrand::Rng, ctx: &Ctx, allow_bad: bool, big: bool, obs: &mut Obs) -> Frame {
    let msg = loop {
        let m = ctx.message(rng);
        let size = serialize(&RawNetworkMessage { magic: 0, payload: m.clone() }).len();
        if big || size < 1500 {
            break m;
        }
    };
    let magic = match rng.u8(0..4) {
        0 => rng.u32(..),
        _ => Network::Regtest.magic(),
    };
    let raw = RawNetworkMessage { magic, payload: msg };
    let mut b = serialize(&raw);
    if !allow_bad {
        let m = deserialize::<RawNetworkMessage>(&b);
        return match m {
            // Nb. rust-bitcoin does not round-trip unknown messages and error inventories.
            Ok(m) => Frame::Good(b, m),
            Err(_) => frame(rng, ctx, allow_bad, big, obs),
        };
    }
    let kind = if rng.u8(0..12) == 0 { 4 } else { *msgs::pick(&[0u8, 1, 2, 3, 5], rng) };
    match kind {
        0 => {
            // Bad checksum.
            let i = rng.usize(20..24);
            b[i] ^= 1 << rng.u8(0..8);
        }
        1 => {
            // Corrupt payload.
            if b.len() > 24 {
                let i = rng.usize(24..b.len());
                b[i] ^= 1 << rng.u8(0..8);
            }
        }
        2 => {
            // Shorter payload with a correct checksum.
            let keep = rng.usize(0..=(b.len() - 24));
            rechecksum(&mut b, keep);
        }
        3 => {
            // Mutated payload with a correct checksum.
            let n = b.len() - 24;
            if n > 0 {
                for _ in 0..rng.usize(1..4) {
                    let i = rng.usize(24..b.len());
                    b[i] = if rng.bool() { 0xff } else { rng.u8(..) };
                }
                rechecksum(&mut b, n);
            }
        }
        4 => {
            // Oversized length field.
            let len = *msgs::pick(&[4_000_001u32, 32 << 20, u32::MAX, 1 << 31], rng);
            b[16..20].copy_from_slice(&len.to_le_bytes());
            return Frame::Bad(b, "oversized");
        }
        _ => {
            // Non-UTF-8 or unterminated command.
            let i = rng.usize(4..16);
            b[i] = 0xff;
        }
    }
    match deserialize::<RawNetworkMessage>(&b) {
        Ok(m) => Frame::Good(b, m),
        Err(_) => Frame::Bad(b, "malformed"),
    }
}

fn rechecksum(b: &mut Vec<u8>, keep: usize) {
    use nakamoto_common::bitcoin_hashes::{sha256d, Hash};
    b.truncate(24 + keep);
    let sum = sha256d::Hash::hash(&b[24..]);
    b[16..20].copy_from_slice(&(keep as u32).to_le_bytes());
    b[20..24].copy_from_slice(&sum[..4]);
}

pub fn chunks(len: usize, rng: &fastrand::Rng) -> Vec<usize> {
    let mut v = Vec::new();
    let mut left = len;
    let style = rng.u8(0..5);
    while left > 0 {
        let n = match style {
            0 => 1,
            1 => left,
            2 => rng.usize(1..8),
            3 => rng.usize(1..200),
            _ => *msgs::pick(&[1, 23, 24, 25, 4, 16, 20, 1000, 4096], rng),
        };
        let n = n.min(left);
        v.push(n);
        left -= n;
    }
    v
}

pub fn d01(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let forest = small_forest(rng);
    let txs: Vec<_> = (0..3).map(|_| blocks::random_tx(rng)).collect();
    let ctx = Ctx { forest: &forest, txs: &txs, addrs: &[], now: 1_600_000_000 };
    let n = rng.usize(1..8);
    let with_bad = rng.bool();
    let mut stream = Vec::new();
    let mut want = Vec::new();
    let mut bad = None;
    for i in 0..n {
        let allow = with_bad && (i + 1 == n || rng.u8(0..6) == 0);
        match frame(rng, &ctx, allow, false, obs) {
            Frame::Good(b, m) => {
                stream.extend(b);
                want.push((stream.len(), m));
            }
            Frame::Bad(b, what) => {
                let start = stream.len();
                stream.extend(&b);
                if what == "oversized" {
                    // Keep sending; the decoder may not wait for ever.
                    stream.extend(std::iter::repeat(0xaa).take(4_200_000));
                }
                bad = Some((start, stream.len(), what));
                obs.inc(if what == "oversized" { "oversized frames" } else { "malformed frames" });
                break;
            }
        }
    }
    let truncate_at = if bad.is_none() && rng.u8(0..3) == 0 && !stream.is_empty() {
        let cut = rng.usize(0..stream.len());
        want.retain(|(end, _)| *end <= cut);
        stream.truncate(cut);
        obs.inc("streams cut in mid-message");
        true
    } else {
        false
    };
    let rounds = if tier == Tier::Quick { 3 } else { 6 };
    for _ in 0..rounds {
        let oversized = bad.map_or(false, |b| b.2 == "oversized");
        let cs = if oversized {
            let mut v = Vec::new();
            let mut left = stream.len();
            while left > 0 {
                let n = rng.usize(100_000..400_000).min(left);
                v.push(n);
                left -= n;
            }
            v
        } else {
            chunks(stream.len(), rng)
        };
        let mut dec = Decoder::new(*msgs::pick(&[0usize, 1, 1024], rng));
        let mut got = Vec::new();
        let mut pos = 0;
        let mut error = None;
        'feed: for c in &cs {
            dec.input(&stream[pos..pos + c]);
            pos += c;
            let mut calls = 0;
            loop {
                calls += 1;
                check!(calls < 10_000, "decode-loop", "decode_next never reports that it needs more input");
                match guard("decode_next", || dec.decode_next::<RawNetworkMessage>())? {
                    Ok(Some(m)) => {
                        let i = got.len();
                        check!(i < want.len(), "extra-message", "decoded {} although the stream holds only {} messages", m.cmd(), want.len());
                        check!(m == want[i].1, "wrong-message", "message {i} decoded as {} but {} was sent", m.cmd(), want[i].1.cmd());
                        check!(pos >= want[i].0, "early-message", "message {i} decoded before it was complete");
                        got.push(m);
                    }
                    Ok(None) => break,
                    Err(e) => {
                        error = Some(e.to_string());
                        break 'feed;
                    }
                }
            }
            // Every complete message so far was delivered.
            let complete = want.iter().filter(|w| w.0 <= pos).count();
            check!(got.len() == complete, "late-message", "{complete} messages complete after {pos} bytes but only {} delivered", got.len());
        }
        check!(got.len() == want.len(), "lost-message", "{} messages sent before the end, {} decoded", want.len(), got.len());
        match (&bad, &error) {
            (None, Some(e)) => return viol("spurious-error", format!("valid stream (cut: {truncate_at}) reported as malformed: {e}")),
            (Some((s, e, what)), None) => {
                return viol("no-error", format!("{what} data in bytes {s}..{e} was never reported"))
            }
            (Some((s, _, what)), Some(_)) => {
                check!(pos > *s, "early-error", "error before any byte of the bad frame arrived");
                if *what == "oversized" {
                    check!(pos - s <= 4_000_024 + 400_000, "unbounded", "decoder buffered {} bytes of an oversized message", pos - s);
                }
                obs.inc("errors reported");
            }
            _ => {}
        }
        obs.add("messages decoded", got.len() as u64);
        obs.add("reads", cs.len() as u64);
        obs.distinct((stream.len(), cs.len(), got.len()));
    }
    for (_, m) in &want {
        obs.distinct(m.cmd());
    }
    Ok(())
}

pub fn d01_large(rng: &mut fastrand::Rng, obs: &mut Obs, _: Tier) -> Res {
    // Messages at the upper end of the allowed sizes.
    let len = *msgs::pick(&[3_999_995usize, 2_000_000, 70_000, 300_000], rng);
    let m = RawNetworkMessage {
        magic: Network::Regtest.magic(),
        payload: NetworkMessage::Alert(bytes(rng, len)),
    };
    let b = serialize(&m);
    let tail = RawNetworkMessage { magic: Network::Regtest.magic(), payload: NetworkMessage::Ping(7) };
    let mut stream = b.clone();
    stream.extend(serialize(&tail));
    let mut dec = Decoder::new(1024);
    let mut got = Vec::new();
    let mut pos = 0;
    while pos < stream.len() {
        let n = rng.usize(1..600_000).min(stream.len() - pos);
        dec.input(&stream[pos..pos + n]);
        pos += n;
        loop {
            match guard("decode_next", || dec.decode_next::<RawNetworkMessage>())? {
                Ok(Some(x)) => got.push(x),
                Ok(None) => break,
                Err(e) => return viol("spurious-error", format!("a legal message of {} bytes was refused: {e}", b.len())),
            }
        }
    }
    check!(got == vec![m, tail], "lost-message", "large message not decoded");
    obs.inc("large messages decoded");
    obs.distinct((len, got.len()));
    Ok(())
}

// I04 //////////////////////////////////////////////////////////////////////////////////////////

#[derive(Default, Clone)]
pub struct FeeState {
    utxos: HashMap<OutPoint, TxOut>,
}

impl FeeState {
    /// Returns the fee rates of the qualifying transactions.
    pub fn apply(&mut self, block: &Block) -> Vec<u64> {
        let mut rates = Vec::new();
        for tx in &block.txdata {
            let txid = tx.txid();
            let known = !tx.is_coin_base() && tx.input.iter().all(|i| self.utxos.contains_key(&i.previous_output));
            let mut paid: u128 = 0;
            if !tx.is_coin_base() {
                for i in &tx.input {
                    if let Some(o) = self.utxos.remove(&i.previous_output) {
                        paid += o.value as u128;
                    }
                }
            }
            for (n, o) in tx.output.iter().enumerate() {
                self.utxos.insert(OutPoint { txid, vout: n as u32 }, o.clone());
            }
            let out: u128 = tx.output.iter().map(|o| o.value as u128).sum();
            if known && paid >= out {
                // Satoshis per virtual byte, to the nearest integer.
                let fee = (paid - out) as f64;
                rates.push((fee / (weight(tx) as f64 / 4.0)).round() as u64);
            }
        }
        rates
    }
}

/// Weight as defined by BIP 141.
fn weight(tx: &Transaction) -> usize {
    let mut stripped = tx.clone();
    for i in stripped.input.iter_mut() {
        i.witness = Default::default();
    }
    let base = serialize(&stripped).len();
    let total = serialize(tx).len();
    base * 3 + total
}

pub fn summary(mut rates: Vec<u64>) -> Option<(u64, u64, u64)> {
    if rates.is_empty() {
        return None;
    }
    rates.sort();
    let n = rates.len();
    let median = if n % 2 == 1 {
        rates[n / 2]
    } else {
        ((rates[n / 2 - 1] as f64 + rates[n / 2] as f64) / 2.0).round() as u64
    };
    Some((rates[0], median, rates[n - 1]))
}

pub fn i04(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let mut forest = Forest::new(Network::Regtest);
    let mut est = FeeEstimator::default();
    // What was processed and not rolled back: (height, forest node, state before).
    let mut done: Vec<(Height, usize, FeeState)> = Vec::new();
    let mut state = FeeState::default();
    let mut snapshots = 0usize;
    let mut tip = 0usize;
    let steps = if tier == Tier::Quick { rng.usize(8..40) } else { rng.usize(8..120) };
    let sparse = rng.u8(0..3) == 0;
    for _ in 0..steps {
        match rng.u8(0..6) {
            0 if !done.is_empty() && snapshots > 0 => {
                // Reorganise: roll back k processed blocks (and any skipped ones).
                let k = rng.usize(1..=snapshots.min(done.len()));
                let keep = done.len() - k;
                let lowest = done[keep].0;
                let floor = if keep == 0 { 0 } else { done[keep - 1].0 };
                let h = rng.u64(floor..lowest);
                obs.trace(format!("rollback to {h} ({k} processed blocks)"));
                // As the node does: either in one go or block by block.
                if rng.bool() {
                    guard("rollback", || est.rollback(h))?;
                } else {
                    let mut x = forest.nodes[tip].height;
                    while x > h {
                        x -= 1;
                        guard("rollback", || est.rollback(x))?;
                    }
                }
                state = done[keep].2.clone();
                done.truncate(keep);
                snapshots -= k;
                // Move the tip down to height h.
                while forest.nodes[tip].height > h {
                    tip = forest.nodes[tip].parent.unwrap();
                }
                obs.inc("rollbacks");
            }
            1 => {
                // Rolling back to or above the current height changes nothing.
                let h = forest.nodes[tip].height + rng.u64(0..3);
                guard("rollback", || est.rollback(h))?;
            }
            _ => {
                let pay = [];
                let mut txs = forest.spends(tip, rng.usize(0..6), &pay, rng);
                if rng.u8(0..3) == 0 {
                    txs.push(blocks::random_tx(rng)); // Unknown inputs.
                }
                if rng.u8(0..6) == 0 {
                    // A transaction that creates value: has no meaningful rate.
                    if let Some(t) = txs.last_mut() {
                        t.output[0].value = u64::MAX / 2;
                    }
                }
                tip = forest.extend(tip, txs, rng);
                let node = &forest.nodes[tip];
                if sparse && rng.u8(0..3) == 0 {
                    continue; // This block is never processed.
                }
                let before = state.clone();
                let want = summary(state.apply(&node.block));
                obs.trace(format!("process {} txs at {}", node.block.txdata.len(), node.height));
                let got = guard("process", || est.process(node.block.clone(), node.height))?;
                let got = got.map(|e| (e.low, e.median, e.high));
                check!(got == want, "estimate", "estimate at height {} is {got:?} but the block's fees give {want:?}", node.height);
                if let Some((l, m, h)) = got {
                    check!(l <= m && m <= h, "order", "low {l} median {m} high {h}");
                    obs.inc("estimates compared");
                } else {
                    obs.inc("absent estimates confirmed");
                }
                done.push((node.height, tip, before));
                snapshots = (snapshots + 1).min(12);
                obs.distinct(got);
                if rng.u8(0..8) == 0 {
                    // A block at or below the current height is not processed again.
                    let again = guard("process", || est.process(node.block.clone(), node.height))?;
                    check!(again.is_none(), "reprocess", "the same height produced a second estimate");
                }
            }
        }
    }
    Ok(())
}

// A02 //////////////////////////////////////////////////////////////////////////////////////////

fn known_address(rng: &fastrand::Rng) -> (net::IpAddr, KnownAddress) {
    let ip: net::IpAddr = match rng.u8(0..6) {
        0 => net::Ipv4Addr::from(rng.u32(..)).into(),
        1 => net::Ipv6Addr::from(rng.u128(..)).into(),
        2 => net::Ipv4Addr::new(8, 8, 8, rng.u8(0..4)).into(),
        3 => net::Ipv6Addr::new(0, 0, 0, 0, 0, 0xffff, rng.u16(..), rng.u16(..)).into(),
        4 => net::Ipv6Addr::new(0x2001, 0xdb8, 0, 0, 0, 0, 0, rng.u16(0..3)).into(),
        _ => net::Ipv6Addr::new(0, 0, 0, 0, 0, 0, rng.u16(..), rng.u16(..)).into(),
    };
    let port = *msgs::pick(&[0u16, 8333, 18333, 65535, rng.u16(..)], rng);
    let time = |rng: &fastrand::Rng| match rng.u8(0..4) {
        0 => None,
        1 => Some(LocalTime::from_secs(0)),
        2 => Some(LocalTime::from_secs(u32::MAX as u64)),
        _ => Some(LocalTime::from_secs(rng.u32(..) as u64)),
    };
    let services = match rng.u8(0..5) {
        0 => 0,
        1 => u64::MAX,
        2 => 1 << rng.u8(0..64),
        3 => rng.u64(..),
        _ => 1 | 64,
    };
    let source = match rng.u8(0..4) {
        0 => Source::Dns,
        1 => Source::Imported,
        _ => {
            let a = msgs::random_sockaddr(rng);
            Source::Peer(a)
        }
    };
    (
        ip,
        KnownAddress {
            addr: Address::new(&net::SocketAddr::new(ip, port), ServiceFlags::from(services)),
            source,
            last_success: time(rng),
            last_sampled: time(rng),
            last_attempt: time(rng),
            last_active: time(rng),
        },
    )
}

fn same_book(cache: &Cache, model: &HashMap<net::IpAddr, KnownAddress>) -> Res {
    check!(cache.len() == model.len(), "book-len", "{} addresses, expected {}", cache.len(), model.len());
    check!(cache.is_empty() == model.is_empty(), "book-empty", "is_empty wrong");
    let mut seen = 0;
    for (ip, ka) in Store::iter(cache) {
        seen += 1;
        match model.get(ip) {
            None => return viol("book-extra", format!("{ip} is in the book but was never stored")),
            Some(m) => {
                check!(m == ka, "book-differs", "{ip}: book has {ka:?}, stored was {m:?}");
                check!(cache.get(ip) == Some(m), "book-get", "get({ip}) disagrees with iteration");
            }
        }
    }
    check!(seen == model.len(), "book-iter", "iteration yields {seen} of {}", model.len());
    Ok(())
}

pub fn a02(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let dir = Scratch::new();
    let path = dir.path("peers.json");
    let mut cache = Cache::create(&path).map_err(|e| Violation { sig: "create".into(), detail: e.to_string() })?;
    check!(Cache::create(&path).is_err(), "create-overwrites", "create succeeded over an existing book");
    let mut model: HashMap<net::IpAddr, KnownAddress> = HashMap::new();
    let mut saved = model.clone();
    let mut writable = true;
    let steps = if tier == Tier::Quick { rng.usize(3..60) } else { rng.usize(3..300) };
    for _ in 0..steps {
        match rng.u8(0..10) {
            0 | 1 => {
                guard("flush", || cache.flush())?.map_err(|e| Violation { sig: "flush".into(), detail: e.to_string() })?;
                saved = model.clone();
                obs.inc("flushes");
                obs.trace(format!("flush {} addresses", saved.len()));
            }
            2 => {
                // Restart: only what was flushed is there.
                drop(cache);
                cache = match guard("open", || Cache::open(&path))? {
                    Ok(c) => c,
                    Err(e) => return viol("reopen", format!("opening a flushed book failed: {e}")),
                };
                model = saved.clone();
                writable = true;
                obs.inc("re-openings");
                obs.trace("reopen");
            }
            3 => {
                let ip = match model.keys().min() {
                    Some(ip) if rng.bool() => *ip,
                    _ => known_address(rng).0,
                };
                let got = cache.remove(&ip);
                let want = model.remove(&ip);
                check!(got == want, "remove", "remove({ip}) returned {got:?}, expected {want:?}");
            }
            4 => {
                let key = model.keys().min().copied();
                if let Some(ip) = key {
                    let t = Some(LocalTime::from_secs(rng.u32(..) as u64));
                    cache.get_mut(&ip).unwrap().last_attempt = t;
                    model.get_mut(&ip).unwrap().last_attempt = t;
                }
            }
            5 if rng.u8(0..10) == 0 => {
                cache.clear();
                model.clear();
            }
            _ => {
                let (ip, ka) = known_address(rng);
                let new = !model.contains_key(&ip);
                let r = cache.insert(ip, ka.clone());
                check!(r == new, "insert", "insert({ip}) returned {r}");
                if new {
                    model.insert(ip, ka);
                } else {
                    obs.inc("inserts of known addresses");
                }
            }
        }
        same_book(&cache, &model)?;
        obs.inc("books compared");
    }
    let _ = writable;
    guard("flush", || cache.flush())?.ok();
    let again = match guard("open", || Cache::open(&path))? {
        Ok(c) => c,
        Err(e) => return viol("reopen", format!("opening a flushed book failed: {e}")),
    };
    same_book(&again, &model)?;
    obs.distinct(model.len());
    let mut keys: Vec<_> = model.keys().collect();
    keys.sort();
    obs.distinct(keys);
    Ok(())
}

pub fn a02_damage(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let dir = Scratch::new();
    let path = dir.path("peers.json");
    let mut model = HashMap::new();
    {
        let mut cache = Cache::create(&path).unwrap();
        for _ in 0..rng.usize(1..12) {
            let (ip, ka) = known_address(rng);
            if cache.insert(ip, ka.clone()) {
                model.insert(ip, ka);
            }
        }
        cache.flush().unwrap();
    }
    let image = std::fs::read(&path).unwrap();
    // Every crash point of the write (or a sample of them).
    let cuts: Vec<usize> = if image.len() < 400 || tier == Tier::Thorough {
        (0..image.len()).collect()
    } else {
        (0..60).map(|_| rng.usize(0..image.len())).chain([0, 1, image.len() - 1, image.len() - 2]).collect()
    };
    for cut in cuts {
        std::fs::write(&path, &image[..cut]).unwrap();
        match guard("open", || Cache::open(&path))? {
            Err(_) => obs.inc("damage reported"),
            Ok(c) if cut == 0 => {
                check!(c.is_empty(), "empty-file", "an empty file yields addresses");
                obs.inc("empty files");
            }
            Ok(c) => {
                // Only the final newline may be missing.
                check!(cut + 1 >= image.len(), "damage-accepted", "a book cut to {cut} of {} bytes opens with {} addresses", image.len(), c.len());
                same_book(&c, &model)?;
            }
        }
    }
    // Arbitrary damage never crashes.
    for _ in 0..if tier == Tier::Quick { 60 } else { 400 } {
        let mut b = image.clone();
        for _ in 0..rng.usize(1..5) {
            match rng.u8(0..5) {
                0 => {
                    let i = rng.usize(..b.len());
                    b[i] = rng.u8(..);
                }
                1 => {
                    let i = rng.usize(..b.len());
                    b.remove(i);
                }
                2 => {
                    let i = rng.usize(..b.len());
                    b.insert(i, *msgs::pick(b"{}[]\":,0-9.e\\ntu", rng));
                }
                3 => {
                    // Swap a JSON value for another of a different kind.
                    let s = String::from_utf8_lossy(&b).into_owned();
                    let from = *msgs::pick(&["null", "\"dns\"", "\"imported\"", "\"services\":", "{", "8333", "\"source\""], rng);
                    let to = *msgs::pick(&["[]", "{}", "-1", "1e400", "18446744073709551616", "1.5", "\"\"", "true", "\"\\ud800\"", "\"x\""], rng);
                    b = s.replacen(from, to, 1).into_bytes();
                }
                _ => {
                    let i = rng.usize(..b.len());
                    let j = rng.usize(i..b.len());
                    b.drain(i..j);
                }
            }
            if b.is_empty() {
                break;
            }
        }
        std::fs::write(&path, &b).unwrap();
        obs.trace(format!("file {:?}", String::from_utf8_lossy(&b)));
        match guard("open", || Cache::open(&path))? {
            Err(_) => obs.inc("damage reported"),
            Ok(_) => obs.inc("still well-formed"),
        }
        obs.distinct(b);
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "F04",
            rule: "the cache's complete observable state is compared with a reference map after every push and rollback",
            assumptions: &["filters are byte strings; sizes up to a few hundred bytes"],
            level: "exploration",
            groups: vec![Group { name: "cache", quick: 20_000, thorough: 600_000, threads: 0, run: f04 }],
        },
        Property {
            id: "T01",
            rule: "offset and adjusted time are compared with an independently computed median after every sample",
            assumptions: &["local times are 32-bit block times; network time saturates at the ends of that range"],
            level: "exploration",
            groups: vec![
                Group { name: "samples", quick: 20_000, thorough: 600_000, threads: 0, run: t01 },
                Group { name: "node", quick: 1_500, thorough: 60_000, threads: 0, run: crate::p2p::t01_node },
            ],
        },
        Property {
            id: "D01",
            rule: "the decoded message sequence is compared, read by read, with the frames that were sent, for several chunkings of each stream",
            assumptions: &["rust-bitcoin's decoder of a single complete frame is the reference for one frame"],
            level: "exploration",
            groups: vec![
                Group { name: "stream", quick: 1_500, thorough: 60_000, threads: 0, run: d01 },
                Group { name: "large", quick: 12, thorough: 200, threads: 0, run: d01_large },
                Group { name: "service", quick: 600, thorough: 30_000, threads: 0, run: crate::service::twin },
            ],
        },
        Property {
            id: "I04",
            rule: "every estimate is compared with one computed from the same block by an independent UTXO model, across rollbacks",
            assumptions: &["blocks are processed in increasing height and rollbacks span at most 12 processed blocks"],
            level: "exploration",
            groups: vec![Group { name: "fees", quick: 3_000, thorough: 100_000, threads: 0, run: i04 }, Group { name: "events", quick: 1_200, thorough: 30_000, threads: 0, run: crate::scan::i04_events }],
        },
        Property {
            id: "A02",
            rule: "the whole address book is compared with a reference map after every operation and re-opening; every crash point of a flush and random damage are opened",
            assumptions: &["timestamps are whole seconds within the 32-bit range used by the network protocol"],
            level: "fault_enumeration",
            groups: vec![
                Group { name: "book", quick: 600, thorough: 10_000, threads: 0, run: a02 },
                Group { name: "damage", quick: 200, thorough: 3_000, threads: 0, run: a02_damage },
            ],
        },
    ]
}
