//! B01-B04: block tree monitors.
use std::collections::HashSet;

use nakamoto_chain::block::cache::BlockCache;
use nakamoto_chain::block::store::Memory;
use nakamoto_common::bitcoin::hashes::Hash as _;
use nakamoto_common::block::tree::{BlockReader, BlockTree, Error, ImportResult};
use nakamoto_common::block::{BlockHash, BlockHeader, Height};
use nakamoto_common::nonempty::NonEmpty;

use crate::chainmodel::*;
use crate::check;
use crate::core::*;

pub fn flavor(rng: &fastrand::Rng) -> Flavor {
    match rng.u8(0..5) {
        0 | 1 => Flavor::Regtest,
        2 => Flavor::Retarget,
        3 => Flavor::MinDiff,
        _ => Flavor::Mainnet,
    }
}

pub struct World {
    pub flavor: Flavor,
    pub tree: Tree,
    pub model: Model,
    pub cache: BlockCache<Memory<BlockHeader>>,
    pub genesis: BlockHeader,
    /// Deliver everything at the same clock reading.
    pub fixed_clock: bool,
}

pub fn world(rng: &fastrand::Rng, n: usize, p_invalid: f64) -> World {
    let flavor = flavor(rng);
    let (mut rules, genesis) = rules(flavor, rng);
    let tree = gen_tree(&rules, genesis, rng, n, p_invalid, flavor);
    // Checkpoints: some on a path to one valid node, occasionally bogus.
    if rng.u8(0..3) == 0 {
        let valid: Vec<usize> = (0..tree.nodes.len()).filter(|i| tree.nodes[*i].valid).collect();
        if !valid.is_empty() {
            let mut k = Some(valid[rng.usize(0..valid.len())]);
            while let Some(i) = k {
                if rng.u8(0..6) == 0 {
                    rules
                        .checkpoints
                        .insert(tree.nodes[i].height, tree.nodes[i].header.block_hash());
                }
                k = tree.nodes[i].parent;
            }
        }
    }
    let cps: Vec<(Height, BlockHash)> = rules.checkpoints.iter().map(|(h, b)| (*h, *b)).collect();
    let cache = BlockCache::new(
        Memory::new(NonEmpty::new(genesis)),
        rules.params.clone(),
        &cps,
    )
    .expect("block cache opens");
    World {
        flavor,
        model: Model::new(rules, genesis),
        tree,
        cache,
        genesis,
        fixed_clock: false,
    }
}

pub fn describe(h: &BlockHeader) -> String {
    let s = h.block_hash().to_string();
    let p = h.prev_blockhash.to_string();
    format!(
        "{}<-{} t={} bits={:08x}",
        &s[s.len() - 8..],
        &p[p.len() - 8..],
        h.time,
        h.bits
    )
}

fn active_of<T: BlockReader>(c: &T) -> Vec<BlockHeader> {
    c.iter().map(|(_, h)| h).collect()
}

pub enum Step {
    Batch(Vec<usize>),
    Extend(usize),
}

/// Drive a history; call `monitor` after each step.
pub fn drive(
    rng: &fastrand::Rng,
    obs: &mut Obs,
    w: &mut World,
    order: &[usize],
    mut monitor: impl FnMut(&mut Obs, &World, &[BlockHeader], Option<&Result<ImportResult, Error>>, bool) -> Res,
) -> Res {
    let mut i = 0;
    let vary_clock = rng.u8(0..3) == 0 && !w.fixed_clock;
    let mut now = if vary_clock {
        w.tree.now - rng.u32(0..3000)
    } else {
        w.tree.now
    };
    obs.trace(format!("flavor {:?} interval {} checkpoints {:?}", w.flavor, w.model.rules.interval(), w.model.rules.checkpoints));
    while i < order.len() {
        if vary_clock {
            now = (now + rng.u32(0..200)).min(w.tree.now);
        }
        let clock = Now(now);
        let before = w.model.active.clone();
        let k = order[i];
        let h = w.tree.nodes[k].header;
        if !w.fixed_clock && rng.u8(0..8) == 0 && !w.model.stored.contains_key(&h.block_hash()) {
            // extend_tip
            i += 1;
            obs.trace(format!("extend_tip now={now} {} ({})", describe(&h), w.tree.nodes[k].what));
            let extends = h.prev_blockhash == w.model.tip().block_hash();
            let expect = if extends {
                match w.model.rules.check(&w.model.active, &h, now) {
                    Ok(()) => {
                        w.model.stored.insert(h.block_hash(), h);
                        w.model.active.push(h);
                        Expect::Changed
                    }
                    Err(b) => Expect::Invalid(b),
                }
            } else {
                Expect::Unchanged
            };
            let r = guard("extend_tip", || w.cache.extend_tip(h, &clock))?;
            let ok = match (&expect, &r) {
                (Expect::Changed, Ok(ImportResult::TipChanged { .. })) => true,
                (Expect::Invalid(_), Err(_)) => true,
                (Expect::Unchanged, Ok(ImportResult::TipUnchanged)) => true,
                _ => false,
            };
            check!(ok, "extend-outcome", "extend_tip {}: expected {expect:?}, got {r:?}", describe(&h));
            obs.inc("extend_tip calls");
            monitor(obs, w, &before, Some(&r), false)?;
            continue;
        }
        let n = match rng.u8(0..4) {
            0 => 1,
            1 => rng.usize(1..4),
            2 => rng.usize(1..12),
            _ => rng.usize(1..40),
        }
        .min(order.len() - i);
        let batch: Vec<BlockHeader> = order[i..i + n].iter().map(|k| w.tree.nodes[*k].header).collect();
        i += n;
        let mut aborted = None;
        let mut consumed = 0;
        let mut expects = Vec::new();
        for (j, h) in batch.iter().enumerate() {
            let e = w.model.import(*h, now);
            obs.trace(format!("import now={now} {} -> model {e:?}", describe(h)));
            consumed = j + 1;
            expects.push(e.clone());
            match e {
                Expect::Invalid(_) | Expect::BeforeCheckpoint => {
                    aborted = Some(e);
                    break;
                }
                Expect::Changed => obs.inc("model tip changes"),
                _ => {}
            }
            if w.model.tied > 0 {
                // The choice between several new equally good tips is free.
                break;
            }
        }
        // Headers after the refused one were not imported: deliver them later.
        let leftover = batch.len() - consumed;
        i -= leftover;
        let sent = if aborted.is_some() { &batch[..] } else { &batch[..consumed] };
        let r = guard("import_blocks", || w.cache.import_blocks(sent.iter().copied(), &clock))?;
        obs.inc("import batches");
        if std::mem::take(&mut w.model.tied) > 0 {
            obs.inc("free choices between equal new tips");
            let actual = active_of(&w.cache);
            w.model.adopt(&actual, now);
        }
        obs.add("headers imported", consumed as u64);
        match (&aborted, &r) {
            (Some(_), Err(Error::BlockImportAborted(_, at, _))) => {
                check!(*at == consumed - 1, "abort-index", "refused header {at}, expected {}", consumed - 1);
            }
            (Some(e), Ok(r)) => {
                return viol("invalid-accepted", format!("batch ending in {} ({e:?}) was accepted: {r:?}", describe(&batch[consumed - 1])));
            }
            (None, Err(e)) => {
                return viol("valid-refused", format!("batch of {} acceptable headers refused: {e:?}", batch.len()));
            }
            (Some(e), Err(x)) => {
                return viol("error-kind", format!("expected an aborted import ({e:?}), got {x:?}"));
            }
            (None, Ok(_)) => {}
        }
        monitor(obs, w, &before, Some(&r), aborted.is_some())?;
    }
    Ok(())
}

fn fingerprint(obs: &mut Obs, w: &World, before: &[BlockHeader]) {
    if before.last() != w.model.active.last() {
        let reorg = before.iter().zip(&w.model.active).take_while(|(a, b)| a == b).count();
        obs.distinct((w.flavor, before.len(), w.model.active.len(), reorg, w.model.tip().block_hash()));
        if reorg < before.len() {
            obs.inc("reorganisations");
        }
    }
}

/// Full independent re-validation of the active chain.
fn validate_active(w: &World) -> Res {
    let a = active_of(&w.cache);
    check!(a.first() == Some(&w.genesis), "genesis", "active chain doesn't start at genesis");
    for i in 1..a.len() {
        check!(a[i].prev_blockhash == a[i - 1].block_hash(), "unlinked", "header {i} is not linked to {}", i - 1);
        if let Err(b) = w.model.rules.check(&a[..i], &a[i], w.tree.now) {
            return viol(format!("invalid-active:{b:?}"), format!("active header {i} {} violates {b:?}", describe(&a[i])));
        }
    }
    Ok(())
}

fn same_chain(w: &World) -> Res {
    let a = active_of(&w.cache);
    if a != w.model.active {
        let common = a.iter().zip(&w.model.active).take_while(|(x, y)| x == y).count();
        return viol(
            "wrong-chain",
            format!(
                "active chain has height {} work {}, tip {}; reference: height {} work {}, tip {}; common prefix {}",
                a.len() - 1,
                Model::work(&a),
                describe(a.last().unwrap()),
                w.model.height(),
                Model::work(&w.model.active),
                describe(&w.model.tip()),
                common
            ),
        );
    }
    Ok(())
}

fn size(rng: &fastrand::Rng, tier: Tier) -> usize {
    match tier {
        Tier::Quick => rng.usize(8..70),
        Tier::Thorough => rng.usize(8..160),
    }
}

pub fn b01(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let mut w = world(rng, size(rng, tier), [0.02, 0.1, 0.3][rng.usize(0..3)]);
    let order = delivery(&w.tree, rng);
    for g in &w.tree.nodes {
        obs.inc(g.what);
    }
    let rng = rng.clone();
    drive(&rng, obs, &mut w, &order, |obs, w, before, _, _| {
        fingerprint(obs, w, before);
        validate_active(w)?;
        same_chain(w)
    })
}

/// The checkpoints of the main network.
const CHECKPOINTS: &[(Height, &str)] = &[
    (11111, "0000000069e244f73d78e8fd29ba2fd2ed618bd6fa2ee92559f542fdb26e7c1d"),
    (33333, "000000002dd5588a74784eaa7ab0507a18ad16a236e7b1ce69f00d7ddfb5d0a6"),
    (74000, "0000000000573993a3c9e41ce34471c079dcf5f52a0e824a81e7f953b8661a20"),
    (105000, "00000000000291ce28027faea320c8d2b054b2e0fe44a773f3eefb151d6bdc97"),
    (134444, "00000000000005b12ffd4cd315cd34ffd4a594f430ac814c91184a0d42d2b0fe"),
    (168000, "000000000000099e61ea72015e79632f216fe6cb33d7899acb35b75c8303b763"),
    (193000, "000000000000059f452a5f7340de6682a977387c17010ff6e6c3bd83ca8b1317"),
    (210000, "000000000000048b95347e83192f69cf0366076336c639f9b7228e9ba171342e"),
    (216116, "00000000000001b4f4b433e81ee46494af945cf96014816a4e2370f11b23df4e"),
    (225430, "00000000000001c108384350f74090433e7fcf79a606b8e797f065b130575932"),
    (250000, "000000000000003887df1f29024b06fc2200b55f8af8f35453d7be294df2d214"),
    (279000, "0000000000000001ae8c72a0b0c301f67e3afca10e819efa9041e458e9bd7e40"),
    (295000, "00000000000000004d9b4ef50f0f9d686fd69db2e03af35a100370c64632a983"),
];

/// The parameters of the real networks, and the first headers of the main one.
pub fn b01_networks(rng: &mut fastrand::Rng, obs: &mut Obs, _: Tier) -> Res {
    use nakamoto_common::bitcoin::blockdata::constants::genesis_block;
    use nakamoto_common::bitcoin::consensus::{deserialize, Params};
    use nakamoto_common::bitcoin::Network as N;
    use nakamoto_common::network::Network;

    for (n, b, magic, name) in [
        (Network::Mainnet, N::Bitcoin, 0xD9B4BEF9u32, "mainnet"),
        (Network::Testnet, N::Testnet, 0x0709110B, "testnet"),
        (Network::Regtest, N::Regtest, 0xDAB5BFFA, "regtest"),
        (Network::Signet, N::Signet, 0x40CF030A, "signet"),
    ] {
        let g = genesis_block(b);
        check!(N::from(n) == b && Network::from(b).as_str() == name, "network", "{name}: is mapped to {:?}", N::from(n));
        check!(name.parse::<Network>().map(|n| N::from(n)) == Ok(b) && n.as_str() == name, "network", "{name}: is read as {:?}", name.parse::<Network>());
        check!(n.magic() == magic, "network", "{name}: the magic is {:08x}", n.magic());
        check!(n.genesis_block() == g && n.genesis() == g.header && n.genesis_hash() == g.block_hash(), "network", "{name}: genesis {}", n.genesis_hash());
        let (p, q) = (n.params(), Params::new(b));
        check!(format!("{p:?}") == format!("{q:?}"), "network", "{name}: parameters {p:?}");
        let expected: Vec<(Height, String)> = match n {
            Network::Mainnet => CHECKPOINTS.iter().map(|(h, x)| (*h, x.to_string())).collect(),
            Network::Testnet => vec![(546, "000000002a936ca763904c3c35fce2f3556c559c0214345d31b1bcebf76acb70".to_owned())],
            _ => vec![],
        };
        let mut got: Vec<_> = n.checkpoints().map(|(h, b)| (h, b.to_string())).collect();
        got.sort();
        check!(got == expected, "checkpoints", "{name}: checkpoints {got:?}");
        obs.inc("networks checked");
    }
    let real: Vec<BlockHeader> = include_bytes!("../data/mainnet-headers.bin").chunks_exact(80).map(|b| deserialize(b).unwrap()).collect();
    let genesis = genesis_block(N::Bitcoin).header;
    let cps: Vec<_> = Network::Mainnet.checkpoints().collect();
    let mut cache = BlockCache::new(Memory::new(NonEmpty::new(genesis)), Network::Mainnet.params(), &cps).expect("block cache opens");
    let clock = Now(real[real.len() - 1].time + rng.u32(0..1_000_000));
    let mut i = 0;
    while i < real.len() {
        let k = (*crate::msgs::pick(&[1, 20, 300, 2000], rng)).min(real.len() - i);
        // A tampered header doesn't get in, wherever it is.
        let mut bad = real[i];
        match rng.u8(0..5) {
            0 => bad.nonce ^= 1 << rng.u8(0..32),
            1 => bad.time ^= 1 << rng.u8(0..12),
            2 => bad.version ^= 1 << rng.u8(0..31),
            3 => bad.bits = 0x207fffff,
            _ => bad.merkle_root = nakamoto_common::bitcoin::TxMerkleNode::all_zeros(),
        }
        let tip = cache.tip().0;
        let r = guard("import_blocks", || cache.import_blocks(std::iter::once(bad), &clock))?;
        check!(r.is_err() && cache.tip().0 == tip, "tampered", "the header {} with a change was accepted: {r:?}", describe(&real[i]));
        let r = guard("import_blocks", || cache.import_blocks(real[i..i + k].iter().copied(), &clock))?;
        i += k;
        let last = real[i - 1].block_hash();
        match &r {
            Ok(ImportResult::TipChanged { hash, height, reverted, connected, .. }) => {
                check!(*hash == last && *height == i as Height && reverted.is_empty() && connected.len() == k, "real", "after {i} real headers: {r:?}");
            }
            _ => return viol("real", format!("the real headers up to height {i} weren't accepted: {r:?}")),
        }
        check!(cache.tip().0 == last && cache.height() == i as Height, "real", "the tip after {i} real headers is {:?}", cache.tip());
        obs.inc("batches of real headers");
        obs.distinct((i, k));
    }
    Ok(())
}

/// Many retarget boundaries, long linear chains with extreme timestamps.
pub fn b01_linear(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let flavor = [Flavor::Retarget, Flavor::MinDiff, Flavor::Mainnet][rng.usize(0..3)];
    let (rules, genesis) = rules(flavor, rng);
    let n = if tier == Tier::Quick { 60 } else { 150 };
    let tree = gen_tree(&rules, genesis, rng, n, 0.15, flavor);
    let cache = BlockCache::new(Memory::new(NonEmpty::new(genesis)), rules.params.clone(), &[]).unwrap();
    let mut w = World { flavor, model: Model::new(rules, genesis), tree, cache, genesis, fixed_clock: false };
    let order: Vec<usize> = (0..w.tree.nodes.len()).collect();
    // For every node, also ask the implementation for the next target on the active chain.
    let rng = rng.clone();
    drive(&rng, obs, &mut w, &order, |obs, w, before, _, _| {
        fingerprint(obs, w, before);
        validate_active(w)?;
        same_chain(w)?;
        let tip = w.model.tip();
        let h = w.model.height();
        if !w.model.rules.params.allow_min_difficulty_blocks {
            let got = guard("next_difficulty_target", || {
                w.cache.next_difficulty_target(h, tip.time, tip.target(), &w.model.rules.params)
            })?;
            let want = w.model.rules.required_bits(&w.model.active, tip.time);
            check!(got == want, "next-target", "height {h}: next bits {got:08x}, expected {want:08x}");
            obs.inc("difficulty targets compared");
            if (h + 1) % w.model.rules.interval() == 0 {
                obs.inc("retargets compared");
            }
        }
        Ok(())
    })
}

pub fn b02(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    // Few invalid headers, many forks; several delivery orders of the same tree.
    let seed = rng.u64(..);
    let n = size(rng, tier);
    let orders = 3;
    let mut tips = Vec::new();
    let mut has_cp = false;
    let mut mainnet = false;
    for o in 0..orders {
        let wr = fastrand::Rng::with_seed(seed);
        let mut w = world(&wr, n, 0.03);
        // A stored branch that was too far in the future is only reconsidered at the next import.
        w.fixed_clock = true;
        has_cp = !w.model.rules.checkpoints.is_empty();
        mainnet = w.flavor == Flavor::Mainnet;
        let r = fastrand::Rng::with_seed(mix(seed, o + 1));
        let order = delivery(&w.tree, &r);
        drive(&r, obs, &mut w, &order, |obs, w, before, _, _| {
            fingerprint(obs, w, before);
            same_chain(w)
        })?;
        // Deliver everything once more: only now is every branch known whatever was refused
        // as an aborted batch before.
        let clock = Now(w.tree.now);
        for _ in 0..2 {
            for g in &w.tree.nodes {
                let _ = guard("import_blocks", || w.cache.import_blocks(std::iter::once(g.header), &clock))?;
                if w.flavor != Flavor::Mainnet {
                    w.model.import(g.header, w.tree.now);
                }
            }
        }
        let (hash, _) = w.cache.tip();
        tips.push((hash, w.cache.chain_work()));
        obs.inc("orders compared");
    }
    // Without checkpoints, the final tip doesn't depend on the order of arrival.
    if !has_cp {
        for t in &tips {
            check!(t.1 == tips[0].1, "order-work", "final work depends on arrival order: {tips:?}");
            if !mainnet {
                check!(t.0 == tips[0].0, "order-tip", "final tip depends on arrival order: {tips:?}");
            }
        }
    }
    Ok(())
}

/// Mainnet: an equal-work rival doesn't displace the active chain.
pub fn b02_ties(rng: &mut fastrand::Rng, obs: &mut Obs, _: Tier) -> Res {
    let flavor = if rng.bool() { Flavor::Mainnet } else { Flavor::Regtest };
    let (rules, genesis) = rules(flavor, rng);
    let cache = BlockCache::new(Memory::new(NonEmpty::new(genesis)), rules.params.clone(), &[]).unwrap();
    let now = genesis.time + 4000;
    let mut chains: Vec<Vec<BlockHeader>> = vec![vec![genesis]; rng.usize(2..5)];
    let len = rng.usize(1..4.min(rules.interval() as usize));
    for c in chains.iter_mut() {
        for _ in 0..len {
            let last = *c.last().unwrap();
            let h = BlockHeader {
                version: 1,
                prev_blockhash: last.block_hash(),
                merkle_root: random_merkle(rng),
                time: last.time + 5,
                bits: rules.required_bits(c, last.time + 5),
                nonce: rng.u32(..),
            };
            c.push(mine(h, true));
        }
    }
    let mut cache = cache;
    let mut first = None;
    for c in &chains {
        let _ = guard("import", || cache.import_blocks(c[1..].iter().copied(), &Now(now)))?;
        let tip = cache.tip().0;
        if first.is_none() {
            first = Some(tip);
        }
        obs.inc("tie imports");
        obs.distinct(tip);
    }
    let tip = cache.tip().0;
    if flavor == Flavor::Mainnet {
        check!(Some(tip) == first, "tie-mainnet", "an equal-work rival displaced the active chain on mainnet");
    } else {
        let min = chains.iter().map(|c| c.last().unwrap().block_hash()).min().unwrap();
        check!(tip == min, "tie-testnet", "tie not resolved deterministically: {tip} instead of {min}");
    }
    Ok(())
}

/// A branch forking off before the last checkpoint never becomes active, even if its first
/// headers arrived before the checkpoint was reached and it carries more work.
pub fn b02_checkpoint(rng: &mut fastrand::Rng, obs: &mut Obs, _: Tier) -> Res {
    let (mut rules, genesis) = rules(Flavor::Retarget, rng);
    let now = genesis.time + 100_000;
    let interval = rules.interval() as usize;
    let build = |rng: &fastrand::Rng, rules: &Rules, base: &[BlockHeader], n: usize, dt: u32| {
        let mut c = base.to_vec();
        for _ in 0..n {
            let last = *c.last().unwrap();
            let time = (last.time + dt).max(Rules::mtp(&c) + 1);
            let bits = rules.required_bits(&c, time);
            if target_of(bits).bits() < 256 - 14 {
                break;
            }
            let h = BlockHeader { version: 1, prev_blockhash: last.block_hash(), merkle_root: random_merkle(rng), time, bits, nonce: rng.u32(..) };
            c.push(mine(h, true));
        }
        c
    };
    // Main chain: slow blocks (difficulty stays at the limit); rival: fast blocks, so more work
    // per block after the first retarget.
    let main = build(rng, &rules, &[genesis], interval * 3 - 1, 10);
    let fork_at = rng.usize(0..3);
    let rival = build(rng, &rules, &main[..=fork_at], interval * 3 - 2 - fork_at, 1);
    let cp = rng.usize(fork_at + 1..main.len() - 1).max(rival.len());
    if cp >= main.len() {
        return Ok(());
    }
    rules.checkpoints.insert(cp as Height, main[cp].block_hash());
    let cps: Vec<_> = rules.checkpoints.iter().map(|(h, b)| (*h, *b)).collect();
    let mut cache = BlockCache::new(Memory::new(NonEmpty::new(genesis)), rules.params.clone(), &cps).unwrap();
    let early = rng.usize(1..4).min(rival.len() - fork_at - 1).max(1);
    let mut model = Model::new(rules.clone(), genesis);
    // 1. start of the main chain, 2. start of the rival, 3. main past the checkpoint, 4. rival.
    let mut seq: Vec<BlockHeader> = Vec::new();
    seq.extend(&main[1..(fork_at + 2 + early).min(main.len())]);
    seq.extend(&rival[fork_at + 1..fork_at + 1 + early]);
    seq.extend(&main[1..]);
    seq.extend(&rival[fork_at + 1..]);
    obs.distinct((fork_at, cp, rival.len(), main.len()));
    if Model::work(&rival) > Model::work(&main) {
        obs.inc("heavier rivals below a checkpoint");
    }
    for h in seq {
        let _ = guard("import", || cache.import_blocks(std::iter::once(h), &Now(now)))?;
        model.import(h, now);
        if model.height() >= cp as Height {
            check!(
                cache.get_block_by_height(cp as Height).map(|h| h.block_hash()) == Some(main[cp].block_hash()),
                "reorg-below-checkpoint",
                "the block at checkpoint {cp} was reorganised away (height now {})", cache.height()
            );
        }
    }
    Ok(())
}

pub fn b03(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let mut w = world(rng, size(rng, tier), [0.0, 0.0, 0.05][rng.usize(0..3)]);
    let order = delivery(&w.tree, rng);
    let mut view: Vec<BlockHeader> = vec![w.genesis];
    let rng = rng.clone();
    drive(&rng, obs, &mut w, &order, |obs, w, before, r, aborted| {
        fingerprint(obs, w, before);
        let after = active_of(&w.cache);
        match r.unwrap() {
            Ok(ImportResult::TipChanged { header, hash, height, reverted, connected }) => {
                obs.inc("tip-changed results");
                if !reverted.is_empty() {
                    obs.inc("results with reverted blocks");
                }
                check!(*height == after.len() as Height - 1 && *header == *after.last().unwrap() && *hash == header.block_hash(),
                    "result-tip", "result names tip {hash} at {height}, actual {} at {}", after.last().unwrap().block_hash(), after.len() - 1);
                for (h, b) in reverted {
                    let top = view.len() as Height - 1;
                    check!(view.len() > 1 && *h == top && *b == view[top as usize], "result-reverted",
                        "reverted block {h} {} is not the tip of the previous chain (height {top})", describe(b));
                    view.pop();
                }
                for (h, b) in connected.iter() {
                    check!(*h == view.len() as Height && b.prev_blockhash == view.last().unwrap().block_hash(), "result-connected",
                        "connected block {h} {} doesn't extend the chain at height {}", describe(b), view.len() - 1);
                    view.push(*b);
                }
                check!(view == after, "result-fold", "applying the result to the previous chain gives height {} not {}", view.len() - 1, after.len() - 1);
                // Minimality.
                let was: HashSet<BlockHash> = before.iter().map(|h| h.block_hash()).collect();
                let is: HashSet<BlockHash> = after.iter().map(|h| h.block_hash()).collect();
                for (h, b) in connected.iter() {
                    check!(!was.contains(&b.block_hash()), "result-not-new", "block {h} reported as connected was already active");
                }
                for (h, b) in reverted.iter() {
                    check!(!is.contains(&b.block_hash()), "result-not-gone", "block {h} reported as reverted is still active");
                }
            }
            Ok(ImportResult::TipUnchanged) => {
                obs.inc("tip-unchanged results");
                check!(after == view, "result-unchanged", "unchanged-tip result but the active chain changed");
            }
            Err(_) => {
                let _ = aborted;
                // The outcome carries no chain change; resynchronise the view.
                view = after;
            }
        }
        Ok(())
    })
}

pub fn b04(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let mut w = world(rng, size(rng, tier), 0.05);
    let order = delivery(&w.tree, rng);
    let r0 = rng.clone();
    let q = fastrand::Rng::with_seed(rng.u64(..));
    drive(&r0, obs, &mut w, &order, |obs, w, before, _, _| {
        fingerprint(obs, w, before);
        queries(&q, obs, w)
    })
}

fn queries(rng: &fastrand::Rng, obs: &mut Obs, w: &World) -> Res {
    // The reference for queries is what a plain iteration yields.
    let c = &w.cache;
    let a = &w.model.active;
    let it: Vec<(Height, BlockHeader)> = c.iter().collect();
    check!(it.iter().map(|x| x.1).eq(a.iter().copied()), "iter", "iteration differs from the active chain");
    check!(it.iter().enumerate().all(|(i, x)| x.0 == i as Height), "iter-heights", "iteration yields wrong heights");
    let rev: Vec<(Height, BlockHeader)> = c.iter().rev().collect();
    check!(rev.iter().rev().eq(it.iter()), "iter-rev", "reverse iteration differs");
    // Mixed forward/backward.
    {
        let mut di = c.iter();
        let (mut f, mut b) = (Vec::new(), Vec::new());
        loop {
            let x = if rng.bool() { di.next().map(|x| f.push(x)) } else { di.next_back().map(|x| b.push(x)) };
            if x.is_none() {
                break;
            }
        }
        b.reverse();
        f.extend(b);
        check!(f == it, "iter-mixed", "double-ended iteration yields a different sequence");
    }
    let height = a.len() as Height - 1;
    check!(c.height() == height, "height", "height {} != {height}", c.height());
    check!(c.tip() == (a.last().unwrap().block_hash(), *a.last().unwrap()), "tip", "wrong tip");
    check!(c.best_block() == (height, a.last().unwrap()), "best-block", "wrong best block");
    check!(*c.genesis() == w.genesis, "genesis", "wrong genesis");
    check!(c.chain().eq(a.iter().copied()), "chain", "chain() differs");
    check!(c.chain_work() == Model::work(a), "work", "chain work {} != {}", c.chain_work(), Model::work(a));
    check!(c.last_checkpoint() == w.model.last_checkpoint(), "last-checkpoint", "last checkpoint {} != {}", c.last_checkpoint(), w.model.last_checkpoint());
    check!(c.checkpoints() == w.model.rules.checkpoints, "checkpoints", "checkpoints differ");
    for (i, h) in a.iter().enumerate() {
        let hash = h.block_hash();
        check!(c.get_block(&hash) == Some((i as Height, h)), "by-hash", "lookup of active block {i} by hash: {:?}", c.get_block(&hash));
        check!(c.get_block_by_height(i as Height) == Some(h), "by-height", "lookup of block {i} by height");
        check!(c.contains(&hash) && c.is_known(&hash), "contains", "active block {i} not contained");
    }
    for d in [1, 2, 100] {
        check!(c.get_block_by_height(height + d).is_none(), "by-height-oob", "block past the tip returned");
    }
    let active: HashSet<BlockHash> = a.iter().map(|h| h.block_hash()).collect();
    // Stale, orphan and unknown blocks.
    for g in &w.tree.nodes {
        let hash = g.header.block_hash();
        if active.contains(&hash) {
            continue;
        }
        check!(!c.contains(&hash) && c.get_block(&hash).is_none(), "stale-contains", "inactive block reported as active");
        let known = w.model.stored.contains_key(&hash);
        check!(c.is_known(&hash) == known, "is-known", "is_known({}) = {} expected {known}", describe(&g.header), !known);
        let want = if known { w.model.chain_to(&hash) } else { None };
        let got = c.find_branch(&hash);
        match (want, got) {
            (None, None) => {}
            (Some(chain), Some((fork, branch))) => {
                let f = chain.iter().zip(a).take_while(|(x, y)| x == y).count() - 1;
                let b: Vec<BlockHeader> = branch.iter().copied().collect();
                check!(fork == f as Height && b == chain[f..], "find-branch", "branch to {}: fork {fork} len {} expected fork {f} len {}", describe(&g.header), b.len(), chain.len() - f);
                obs.inc("stale branches looked up");
            }
            (want, got) => return viol("find-branch", format!("branch to {}: got {} expected {}", describe(&g.header), got.is_some(), want.is_some())),
        }
    }
    let k = rng.usize(0..a.len());
    check!(c.find_branch(&a[k].block_hash()) == Some((k as Height, NonEmpty::new(a[k]))), "find-branch-active", "branch to an active block");
    // Ranges.
    for _ in 0..4 {
        let s = rng.u64(0..=height + 2);
        let e = rng.u64(s..=height + 4);
        let got: Vec<(Height, BlockHash)> = BlockReader::range(c, s..e).collect();
        let want: Vec<(Height, BlockHash)> = (s..e.min(height + 1)).map(|i| (i, a[i as usize].block_hash())).collect();
        check!(got == want, "range", "range {s}..{e}: got {} entries, expected {}", got.len(), want.len());
    }
    // Locators.
    for _ in 0..3 {
        let from = rng.u64(0..=height);
        let ls = guard("locator_hashes", || c.locator_hashes(from))?;
        let hs: Vec<Option<Height>> = ls.iter().map(|l| w.model.active_height(l)).collect();
        check!(hs.iter().all(|h| h.is_some()), "locator-inactive", "locator not on the active chain");
        let hs: Vec<Height> = hs.into_iter().flatten().collect();
        let lc = w.model.last_checkpoint();
        if from >= lc {
            check!(hs.first() == Some(&from), "locator-start", "locators from {from} start at {:?}", hs.first());
        }
        check!(hs.windows(2).all(|p| p[1] < p[0]), "locator-order", "locators not strictly descending: {hs:?}");
        check!(hs.iter().all(|h| *h >= lc), "locator-checkpoint", "locators {hs:?} pass checkpoint {lc}");
        // The first ones are contiguous, gaps at most double afterwards, and they reach the bottom.
        for (i, p) in hs.windows(2).enumerate() {
            let gap = p[0] - p[1];
            let max = if i < 7 { 1 } else { 2u64.pow(i as u32 - 6) };
            check!(gap <= max, "locator-gap", "gap {gap} at position {i} in {hs:?}");
        }
        if lc == 0 {
            check!(hs.last() == Some(&0), "locator-genesis", "locators don't include genesis: {hs:?}");
        }
        check!(hs.len() <= 10 + 64, "locator-size", "{} locators", hs.len());
        obs.inc("locators checked");
    }
    // Header lookup.
    for _ in 0..6 {
        let mut locs: Vec<BlockHash> = Vec::new();
        for _ in 0..rng.usize(0..5) {
            locs.push(match rng.u8(0..4) {
                0 if !w.tree.nodes.is_empty() => w.tree.nodes[rng.usize(0..w.tree.nodes.len())].header.block_hash(),
                1 => BlockHash::hash(&rng.u64(..).to_le_bytes()),
                _ => a[rng.usize(0..a.len())].block_hash(),
            });
        }
        let stop = match rng.u8(0..4) {
            0 => BlockHash::all_zeros(),
            1 if !w.tree.nodes.is_empty() => w.tree.nodes[rng.usize(0..w.tree.nodes.len())].header.block_hash(),
            _ => a[rng.usize(0..a.len())].block_hash(),
        };
        let max = [0, 1, 2, 5, 17, 2000][rng.usize(0..6)];
        let got = guard("locate_headers", || c.locate_headers(&locs, stop, max))?;
        let want: Vec<BlockHeader> = if locs.is_empty() {
            // A request for that header alone.
            w.model.active_height(&stop).map(|h| a[h as usize]).into_iter().collect()
        } else {
            let s = locs.iter().find_map(|l| w.model.active_height(l)).unwrap_or(0) as usize + 1;
            let e = w.model.active_height(&stop).map(|h| h as usize + 1).unwrap_or(a.len());
            if s >= e { vec![] } else { a[s..e].iter().take(max).copied().collect() }
        };
        check!(got == want, "locate-headers", "locators {} stop {stop} max {max}: {} headers, expected {}", locs.len(), got.len(), want.len());
        obs.inc("header lookups checked");
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    const A: &[&str] = &[
        "proof-of-work is real but at low difficulty; retarget periods are shortened (4-12 blocks)",
        "headers are delivered by a single thread (the block tree is single-threaded)",
    ];
    vec![
        Property {
            id: "B01",
            rule: "a case is one import history of a generated header tree; counted when the active tip changed at least once, distinct by the sequence of (flavor, heights, fork depth, tip hash) observed",
            assumptions: A,
            level: "exploration",
            groups: vec![
                Group { name: "trees", quick: 500, thorough: 20000, threads: 0, run: b01 },
                Group { name: "linear", quick: 150, thorough: 4000, threads: 0, run: b01_linear },
                Group { name: "networks", quick: 12, thorough: 400, threads: 0, run: b01_networks },
            ],
        },
        Property {
            id: "B02",
            rule: "a case is one header tree delivered in several orders (or a tie / checkpoint scenario); distinct by the sequence of observed tip changes",
            assumptions: A,
            level: "exploration",
            groups: vec![
                Group { name: "orders", quick: 250, thorough: 8000, threads: 0, run: b02 },
                Group { name: "ties", quick: 200, thorough: 3000, threads: 0, run: b02_ties },
                Group { name: "checkpoint", quick: 60, thorough: 2000, threads: 0, run: b02_checkpoint },
            ],
        },
        Property {
            id: "B03",
            rule: "a case is one import history whose results are folded over the previous chain; distinct by the sequence of observed tip changes",
            assumptions: A,
            level: "exploration",
            groups: vec![Group { name: "fold", quick: 600, thorough: 20000, threads: 0, run: b03 }],
        },
        Property {
            id: "B04",
            rule: "a case is one import history with all queries compared after every step; distinct by the sequence of observed tip changes",
            assumptions: A,
            level: "exploration",
            groups: vec![Group { name: "queries", quick: 300, thorough: 8000, threads: 0, run: b04 }],
        },
    ]
}
