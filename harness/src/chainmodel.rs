//! Independent reference model of header consensus rules and chain selection, plus a generator
//! of header trees (valid and invalid branches).
use std::collections::{BTreeMap, HashMap};

use nakamoto_common::bitcoin::consensus::params::Params;
use nakamoto_common::bitcoin::hashes::Hash as _;
use nakamoto_common::bitcoin::util::uint::Uint256;
use nakamoto_common::bitcoin::util::BitArray as _;
use nakamoto_common::bitcoin::{Network, TxMerkleNode};
use nakamoto_common::block::time::{Clock, LocalTime};
use nakamoto_common::block::{BlockHash, BlockHeader, Height};

/// A clock the harness controls.
#[derive(Clone, Debug)]
pub struct Now(pub u32);

impl Clock for Now {
    fn block_time(&self) -> u32 {
        self.0
    }
    fn local_time(&self) -> LocalTime {
        LocalTime::from_secs(self.0 as u64)
    }
    fn from_block_time(t: u32) -> Self {
        Now(t)
    }
}

#[derive(Clone)]
pub struct Rules {
    pub params: Params,
    /// Bits of a minimum-difficulty block on this network.
    pub limit_bits: u32,
    pub checkpoints: BTreeMap<Height, BlockHash>,
}

pub fn target_of(bits: u32) -> Uint256 {
    // Own decoding of the compact format (sign bit and tiny exponents are not generated).
    let e = bits >> 24;
    let m = Uint256::from_u64((bits & 0x7fffff) as u64).unwrap();
    if e <= 3 {
        m >> (8 * (3 - e) as usize)
    } else {
        m << (8 * (e - 3) as usize)
    }
}

pub fn bits_of(t: &Uint256) -> u32 {
    let mut size = (t.bits() + 7) / 8;
    let mut m: u32 = if size <= 3 {
        (t.low_u64() << (8 * (3 - size))) as u32
    } else {
        (*t >> (8 * (size - 3))).low_u64() as u32
    };
    if m & 0x800000 != 0 {
        m >>= 8;
        size += 1;
    }
    m | (size as u32) << 24
}

pub fn work_of(h: &BlockHeader) -> Uint256 {
    let t = target_of(h.bits);
    // (~t / (t+1)) + 1
    let one = Uint256::from_u64(1).unwrap();
    (!t) / (t + one) + one
}

pub fn hash_ok(h: &BlockHeader) -> bool {
    let hash = h.block_hash();
    Uint256::from_le_bytes(hash.into_inner()) <= target_of(h.bits)
}

trait FromLe {
    fn from_le_bytes(b: [u8; 32]) -> Self;
}
impl FromLe for Uint256 {
    fn from_le_bytes(b: [u8; 32]) -> Self {
        let mut w = [0u64; 4];
        for (i, c) in b.chunks(8).enumerate() {
            w[i] = u64::from_le_bytes(c.try_into().unwrap());
        }
        Uint256(w)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Bad {
    Pow,
    Target,
    OldTime,
    FutureTime,
    Checkpoint,
}

impl Rules {
    pub fn interval(&self) -> u64 {
        self.params.pow_target_timespan / self.params.pow_target_spacing
    }

    /// Required bits for the block following `chain` (genesis first) with timestamp `time`.
    pub fn required_bits(&self, chain: &[BlockHeader], time: u32) -> u32 {
        let p = &self.params;
        let last = chain.last().unwrap();
        let height = chain.len() as u64; // Height of the new block.
        let interval = self.interval();
        if height % interval != 0 {
            if p.allow_min_difficulty_blocks {
                if time as u64 > last.time as u64 + 2 * p.pow_target_spacing {
                    return self.limit_bits;
                }
                // Last non-minimum-difficulty block of this period (or its first block).
                let mut i = chain.len() - 1;
                while i as u64 % interval != 0 && chain[i].bits == self.limit_bits && i > 0 {
                    i -= 1;
                }
                return chain[i].bits;
            }
            return last.bits;
        }
        let first = &chain[(height - interval) as usize];
        if p.no_pow_retargeting {
            return last.bits;
        }
        let mut span = last.time as i64 - first.time as i64;
        span = span.max(p.pow_target_timespan as i64 / 4);
        span = span.min(p.pow_target_timespan as i64 * 4);
        let mut t = target_of(last.bits).mul_u32(span as u32)
            / Uint256::from_u64(p.pow_target_timespan).unwrap();
        if t > p.pow_limit {
            t = p.pow_limit;
        }
        bits_of(&t)
    }

    pub fn mtp(chain: &[BlockHeader]) -> u32 {
        let n = chain.len().min(11);
        let mut ts: Vec<u32> = chain[chain.len() - n..].iter().map(|h| h.time).collect();
        ts.sort();
        ts[ts.len() / 2]
    }

    /// Validate `h` on top of `chain`.
    pub fn check(&self, chain: &[BlockHeader], h: &BlockHeader, now: u32) -> Result<(), Bad> {
        let required = self.required_bits(chain, h.time);
        if h.bits != required {
            return Err(Bad::Target);
        }
        if !hash_ok(h) {
            return Err(Bad::Pow);
        }
        let height = chain.len() as Height;
        if let Some(c) = self.checkpoints.get(&height) {
            if *c != h.block_hash() {
                return Err(Bad::Checkpoint);
            }
        }
        if h.time <= Self::mtp(chain) {
            return Err(Bad::OldTime);
        }
        if h.time as u64 > now as u64 + 7200 {
            return Err(Bad::FutureTime);
        }
        Ok(())
    }
}

/// Grind a nonce (and the version/merkle root if necessary).
pub fn mine(mut h: BlockHeader, want_valid: bool) -> BlockHeader {
    loop {
        for _ in 0..200_000u32 {
            if hash_ok(&h) == want_valid {
                return h;
            }
            h.nonce = h.nonce.wrapping_add(1);
        }
        h.version = h.version.wrapping_add(1);
    }
}

pub fn random_merkle(rng: &fastrand::Rng) -> TxMerkleNode {
    let mut b = [0u8; 32];
    for x in b.iter_mut() {
        *x = rng.u8(..);
    }
    TxMerkleNode::from_inner(b)
}

/// Known header tree with everything the model "accepted".
pub struct Model {
    pub rules: Rules,
    pub genesis: BlockHeader,
    pub stored: HashMap<BlockHash, BlockHeader>,
    /// Active chain, genesis first.
    pub active: Vec<BlockHeader>,
    /// Number of equally good tips that became available at once (mainnet: any may be chosen).
    pub tied: usize,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Expect {
    Duplicate,
    Missing,
    Invalid(Bad),
    BeforeCheckpoint,
    Unchanged,
    Changed,
}

impl Model {
    pub fn new(rules: Rules, genesis: BlockHeader) -> Self {
        Self {
            rules,
            genesis,
            stored: HashMap::new(),
            active: vec![genesis],
            tied: 0,
        }
    }

    pub fn tip(&self) -> BlockHeader {
        *self.active.last().unwrap()
    }

    pub fn height(&self) -> Height {
        self.active.len() as Height - 1
    }

    pub fn work(chain: &[BlockHeader]) -> Uint256 {
        chain.iter().fold(Uint256::zero(), |a, h| a + work_of(h))
    }

    pub fn active_height(&self, hash: &BlockHash) -> Option<Height> {
        self.active
            .iter()
            .position(|h| h.block_hash() == *hash)
            .map(|h| h as Height)
    }

    pub fn last_checkpoint(&self) -> Height {
        let h = self.height();
        self.rules
            .checkpoints
            .keys()
            .rev()
            .find(|c| **c <= h)
            .copied()
            .unwrap_or(0)
    }

    /// Chain from genesis to the given stored header, if connected.
    pub fn chain_to(&self, hash: &BlockHash) -> Option<Vec<BlockHeader>> {
        let mut v = Vec::new();
        let mut cur = *hash;
        let g = self.genesis.block_hash();
        while cur != g {
            let h = self
                .stored
                .get(&cur)
                .copied()
                .or_else(|| None)?;
            cur = h.prev_blockhash;
            v.push(h);
            if v.len() > 100_000 {
                return None;
            }
        }
        v.push(self.genesis);
        v.reverse();
        Some(v)
    }

    /// Import one header, updating the active chain; returns what the model expects.
    pub fn import(&mut self, h: BlockHeader, now: u32) -> Expect {
        let hash = h.block_hash();
        if hash == self.genesis.block_hash() || self.stored.contains_key(&hash) {
            return Expect::Duplicate;
        }
        if h.prev_blockhash == self.tip().block_hash() {
            if let Err(b) = self.rules.check(&self.active, &h, now) {
                return Expect::Invalid(b);
            }
        }
        if !hash_ok(&h) {
            return Expect::Invalid(Bad::Pow);
        }
        if target_of(h.bits) > self.rules.params.pow_limit {
            return Expect::Invalid(Bad::Target);
        }
        if let Some(ph) = self.active_height(&h.prev_blockhash) {
            if ph < self.last_checkpoint() {
                return Expect::BeforeCheckpoint;
            }
        }
        self.stored.insert(hash, h);
        let known_parent = h.prev_blockhash == self.genesis.block_hash()
            || self.stored.contains_key(&h.prev_blockhash);
        if !known_parent {
            return Expect::Missing;
        }
        // Re-select.
        let (best, tied) = self.best(now);
        self.tied = tied;
        if best.last() != self.active.last() {
            self.active = best;
            Expect::Changed
        } else {
            Expect::Unchanged
        }
    }

    /// Longest valid prefix work-wise of every stored branch.
    fn best(&self, now: u32) -> (Vec<BlockHeader>, usize) {
        let mainnet = self.rules.params.network == Network::Bitcoin;
        let mut best = self.active.clone();
        let mut best_work = Self::work(&best);
        let mut best_hash = best.last().unwrap().block_hash();
        let mut tied = 0;
        let lc = self.last_checkpoint() as usize;
        // Validity of each stored header on its own branch (memoised).
        let mut valid: HashMap<BlockHash, bool> = HashMap::new();
        let active: HashMap<BlockHash, usize> = self
            .active
            .iter()
            .enumerate()
            .map(|(i, h)| (h.block_hash(), i))
            .collect();
        let mut hashes: Vec<_> = self.stored.keys().copied().collect();
        hashes.sort();
        for tip in hashes {
            if active.contains_key(&tip) {
                continue;
            }
            let Some(chain) = self.chain_to(&tip) else { continue };
            // Fork point.
            let mut fork = 0;
            while fork + 1 < chain.len()
                && fork + 1 < self.active.len()
                && chain[fork + 1] == self.active[fork + 1]
            {
                fork += 1;
            }
            if fork < lc {
                continue;
            }
            let mut ok = true;
            for i in fork + 1..chain.len() {
                let hh = chain[i].block_hash();
                let v = match valid.get(&hh) {
                    Some(v) => *v,
                    None => {
                        let v = self.rules.check(&chain[..i], &chain[i], now).is_ok();
                        valid.insert(hh, v);
                        v
                    }
                };
                if !v {
                    ok = false;
                    break;
                }
            }
            if !ok {
                continue;
            }
            let w = Self::work(&chain);
            if mainnet && w == best_work && best_hash != self.tip().block_hash() {
                tied += 1;
            }
            if w > best_work {
                tied = 0;
            }
            let better = w > best_work || (!mainnet && w == best_work && tip < best_hash);
            if better {
                best = chain;
                best_work = w;
                best_hash = tip;
            }
        }
        (best, tied)
    }

    /// Several equally good chains became available at once, and the rules don't say which one
    /// to take: follow the implementation's choice if it is one of them.
    pub fn adopt(&mut self, actual: &[BlockHeader], now: u32) -> bool {
        let Some(tip) = actual.last().map(|h| h.block_hash()) else { return false };
        let Some(chain) = self.chain_to(&tip) else { return false };
        if chain != actual || Self::work(&chain) != Self::work(&self.active) {
            return false;
        }
        for i in 1..chain.len() {
            if self.active.get(i) != Some(&chain[i]) && self.rules.check(&chain[..i], &chain[i], now).is_err() {
                return false;
            }
        }
        self.active = chain;
        true
    }
}

/// Flavours of consensus parameters explored.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Flavor {
    /// Regtest as shipped: constant difficulty.
    Regtest,
    /// Mainnet-like retargeting with a short period.
    Retarget,
    /// Testnet-like: retargeting plus minimum-difficulty blocks.
    MinDiff,
    /// As `Retarget` but with mainnet tie-breaking.
    Mainnet,
}

pub fn rules(flavor: Flavor, rng: &fastrand::Rng) -> (Rules, BlockHeader) {
    let mut params = Params::new(Network::Regtest);
    let mut genesis = nakamoto_common::network::Network::Regtest.genesis();
    // Targets: low enough that retarget arithmetic doesn't overflow, high enough to mine.
    match flavor {
        Flavor::Regtest => {}
        Flavor::Retarget | Flavor::Mainnet => {
            if flavor == Flavor::Mainnet {
                params.network = Network::Bitcoin;
            }
            params.allow_min_difficulty_blocks = false;
            params.no_pow_retargeting = false;
            params.pow_target_spacing = 10;
            params.pow_target_timespan = 10 * rng.u64(4..13);
            params.pow_limit = target_of(0x1f7fffff);
            genesis.bits = *[0x1f7fffffu32, 0x1f3fffff].iter().nth(rng.usize(0..2)).unwrap();
        }
        Flavor::MinDiff => {
            params.allow_min_difficulty_blocks = true;
            params.no_pow_retargeting = false;
            params.pow_target_spacing = 10;
            params.pow_target_timespan = 10 * rng.u64(4..13);
            // Minimum difficulty is the network's; retargeting never exceeds pow_limit.
            params.pow_limit = target_of(0x207fffff);
            genesis.bits = 0x1f7fffff;
        }
    }
    let limit_bits = 0x207fffff;
    (
        Rules {
            params,
            limit_bits,
            checkpoints: BTreeMap::new(),
        },
        genesis,
    )
}

/// A generated header with its (generator-side) validity on its branch.
#[derive(Clone, Debug)]
pub struct Gen {
    pub header: BlockHeader,
    pub height: Height,
    pub parent: Option<usize>,
    pub valid: bool,
    pub what: &'static str,
}

pub struct Tree {
    pub nodes: Vec<Gen>,
    pub now: u32,
}

/// Generate a tree of `n` headers. `now` is the clock in force when they are delivered.
pub fn gen_tree(
    rules: &Rules,
    genesis: BlockHeader,
    rng: &fastrand::Rng,
    n: usize,
    p_invalid: f64,
    flavor: Flavor,
) -> Tree {
    let spacing = rules.params.pow_target_spacing as u32;
    let base = genesis.time;
    // The clock: far enough to accommodate all normal timestamps, close enough that the
    // future limit matters.
    let now = base + (n as u32) * spacing + rng.u32(0..spacing * 4);
    let mut nodes: Vec<Gen> = Vec::new();
    let chain_of = |nodes: &Vec<Gen>, mut i: Option<usize>| -> Vec<BlockHeader> {
        let mut v = Vec::new();
        while let Some(k) = i {
            v.push(nodes[k].header);
            i = nodes[k].parent;
        }
        v.push(genesis);
        v.reverse();
        v
    };
    // A few "growing ends" make long competing branches.
    let mut ends: Vec<Option<usize>> = vec![None];
    let style = rng.u8(0..4);
    while nodes.len() < n {
        // Choose parent.
        let r = rng.f64();
        let e = rng.usize(0..ends.len());
        let mut parent = ends[e];
        let mut new_end = false;
        if r < 0.08 && !nodes.is_empty() {
            parent = Some(rng.usize(0..nodes.len()));
            new_end = true;
        } else if r < 0.16 && !nodes.is_empty() {
            // Fork a few blocks back from an end.
            let mut back = rng.usize(1..6);
            while back > 0 {
                parent = match parent {
                    Some(p) => nodes[p].parent,
                    None => None,
                };
                back -= 1;
            }
            new_end = true;
        }
        let chain = chain_of(&nodes, parent);
        let height = chain.len() as Height;
        let parent_valid = parent.map_or(true, |p| nodes[p].valid);
        let last = chain.last().unwrap();
        let mtp = Rules::mtp(&chain);
        // Timestamp.
        let mut time = match (style, rng.u8(0..10)) {
            (0, 0..=6) => last.time.saturating_add(spacing),
            (1, 0..=6) => mtp + 1, // Slow clocks: hug the median.
            (2, 0..=6) => last.time.saturating_add(rng.u32(1..spacing * 3)),
            (3, 0..=6) => (mtp + 1).max(last.time.saturating_sub(rng.u32(0..spacing * 4))),
            (_, 7) => mtp + 1,
            (_, 8) => last.time.saturating_add(rng.u32(0..spacing * 5)),
            _ => last.time.saturating_add(rng.u32(0..spacing)),
        }
        .max(mtp + 1);
        let mut what = "valid";
        if rng.u8(0..40) == 0 {
            // Far but legal future (also makes later timestamps run backwards).
            time = (now + 7200 - rng.u32(0..3)).max(mtp + 1);
        }
        if time > now + 7200 {
            time = mtp + 1;
        }
        // Avoid a minimum-difficulty block as the last of a period (target overflow upstream
        // in real testnet rules is excluded by its lower limit).
        if flavor == Flavor::MinDiff
            && (height + 1) % rules.interval() == 0
            && time > last.time.saturating_add(2 * spacing)
        {
            time = last.time.saturating_add(spacing).max(mtp + 1);
            if time > last.time.saturating_add(2 * spacing) || time > now + 7200 {
                // Can't avoid it: abandon this parent.
                ends.retain(|x| *x != parent);
                if ends.is_empty() {
                    ends.push(None);
                }
                if parent.is_none() {
                    break;
                }
                continue;
            }
        }
        let mut bits = rules.required_bits(&chain, time);
        if flavor == Flavor::MinDiff && (height + 1) % rules.interval() == 0 && bits == rules.limit_bits {
            // The period consists of minimum-difficulty blocks only.
            ends.retain(|x| *x != parent);
            if ends.is_empty() {
                ends.push(None);
            }
            if parent.is_none() {
                break;
            }
            continue;
        }
        // Too expensive to mine: don't extend this branch.
        if target_of(bits).bits() < 256 - 14 {
            ends.retain(|x| *x != parent);
            if ends.is_empty() {
                ends.push(None);
            }
            if nodes.len() > n / 2 || parent.is_none() {
                break;
            }
            continue;
        }
        let mut want_pow = true;
        if rng.f64() < p_invalid {
            match rng.u8(0..7) {
                0 => {
                    what = "bad-pow";
                    want_pow = false;
                }
                1 => {
                    what = "time-mtp";
                    time = mtp - rng.u32(0..2).min(mtp);
                    bits = rules.required_bits(&chain, time);
                }
                2 => {
                    what = "time-old";
                    time = mtp.saturating_sub(rng.u32(1..100));
                    bits = rules.required_bits(&chain, time);
                }
                3 => {
                    what = "time-future";
                    time = now + 7200 + 1 + if rng.bool() { 0 } else { rng.u32(0..5000) };
                    bits = rules.required_bits(&chain, time);
                }
                4 => {
                    what = "bits-harder";
                    let t = target_of(bits) >> 1;
                    bits = bits_of(&t);
                }
                5 => {
                    what = "bits-easier";
                    let t = target_of(bits) << 1;
                    bits = bits_of(&t);
                    if target_of(bits) <= target_of(rules.required_bits(&chain, time)) {
                        bits = 0x2100ffff; // Above every limit.
                    }
                }
                _ => {
                    what = "bits-limit";
                    bits = if bits == rules.limit_bits { bits_of(&(target_of(bits) >> 2)) } else { rules.limit_bits };
                }
            }
            if target_of(bits).bits() < 256 - 15 {
                continue;
            }
        }
        let h = BlockHeader {
            version: 1 + rng.i32(0..3),
            prev_blockhash: last.block_hash(),
            merkle_root: random_merkle(rng),
            time,
            bits,
            nonce: rng.u32(..),
        };
        let h = mine(h, want_pow);
        let valid = parent_valid && rules.check(&chain, &h, now).is_ok();
        nodes.push(Gen {
            header: h,
            height,
            parent,
            valid,
            what,
        });
        let ix = Some(nodes.len() - 1);
        if new_end && ends.len() < 4 {
            ends.push(ix);
        } else if valid || rng.u8(0..3) == 0 {
            ends[e] = ix;
        }
    }
    Tree { nodes, now }
}

/// Delivery order of node indexes: mostly parents first, with perturbations and duplicates.
pub fn delivery(tree: &Tree, rng: &fastrand::Rng) -> Vec<usize> {
    let n = tree.nodes.len();
    let mut v: Vec<usize> = (0..n).collect();
    match rng.u8(0..4) {
        0 => {}
        1 => rng.shuffle(&mut v),
        2 => {
            // Local perturbation.
            for i in 0..n {
                let j = (i + rng.usize(0..6)).min(n - 1);
                v.swap(i, j);
            }
        }
        _ => {
            // Branch-wise: sort by height, or depth-first from a random end.
            let mut w = Vec::new();
            let mut seen = vec![false; n];
            let mut order: Vec<usize> = (0..n).collect();
            rng.shuffle(&mut order);
            for mut k in order {
                let mut path = Vec::new();
                loop {
                    if seen[k] {
                        break;
                    }
                    seen[k] = true;
                    path.push(k);
                    match tree.nodes[k].parent {
                        Some(p) => k = p,
                        None => break,
                    }
                }
                path.reverse();
                w.extend(path);
            }
            v = w;
        }
    }
    for _ in 0..rng.usize(0..4) {
        if n > 0 {
            let k = rng.usize(0..n);
            let at = rng.usize(0..=v.len());
            v.insert(at, k);
        }
    }
    v
}
