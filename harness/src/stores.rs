//! S01, S02: header stores, persistence and crash recovery.
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};

use nakamoto_chain::block::cache::BlockCache;
use nakamoto_chain::block::store::{File, Memory, Store};
use nakamoto_chain::filter::cache::{FilterCache, StoredHeader};
use nakamoto_common::bitcoin::consensus::{Decodable, Encodable};
use nakamoto_common::bitcoin::hashes::Hash as _;
use nakamoto_common::block::filter::{FilterHash, FilterHeader, Filters};
use nakamoto_common::block::store::Genesis;
use nakamoto_common::block::tree::{BlockReader, BlockTree};
use nakamoto_common::block::{BlockHash, BlockHeader, Height};
use nakamoto_common::network::Network;
use nakamoto_common::nonempty::NonEmpty;

use crate::chainmodel::*;
use crate::check;
use crate::core::*;

/// Scratch directory, removed on drop.
pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new() -> Self {
        static N: AtomicUsize = AtomicUsize::new(0);
        let base = if std::path::Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let d = base.join(format!("vh-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
    pub fn path(&self, n: &str) -> PathBuf {
        self.0.join(n)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub trait Rec: Copy + PartialEq + std::fmt::Debug + Encodable + Decodable + Genesis + 'static {
    fn random(rng: &fastrand::Rng) -> Self;
}

pub fn bytes32(rng: &fastrand::Rng) -> [u8; 32] {
    let mut b = [0u8; 32];
    for x in b.iter_mut() {
        *x = rng.u8(..);
    }
    b
}

impl Rec for BlockHeader {
    fn random(rng: &fastrand::Rng) -> Self {
        BlockHeader {
            version: rng.i32(..),
            prev_blockhash: BlockHash::from_inner(bytes32(rng)),
            merkle_root: random_merkle(rng),
            time: rng.u32(..),
            bits: rng.u32(..),
            nonce: rng.u32(..),
        }
    }
}

/// `StoredHeader` has no equality.
#[derive(Clone, Copy, Debug)]
pub struct FH(pub StoredHeader);

impl PartialEq for FH {
    fn eq(&self, o: &Self) -> bool {
        self.0.hash == o.0.hash && self.0.header == o.0.header
    }
}
impl Encodable for FH {
    fn consensus_encode<W: std::io::Write + ?Sized>(&self, e: &mut W) -> Result<usize, std::io::Error> {
        self.0.consensus_encode(e)
    }
}
impl Decodable for FH {
    fn consensus_decode<D: std::io::Read + ?Sized>(
        d: &mut D,
    ) -> Result<Self, nakamoto_common::bitcoin::consensus::encode::Error> {
        StoredHeader::consensus_decode(d).map(FH)
    }
}
impl Genesis for FH {
    fn genesis(n: Network) -> Self {
        FH(StoredHeader::genesis(n))
    }
}
impl Rec for FH {
    fn random(rng: &fastrand::Rng) -> Self {
        FH(StoredHeader { hash: FilterHash::from_inner(bytes32(rng)), header: FilterHeader::from_inner(bytes32(rng)) })
    }
}

fn batch_len(rng: &fastrand::Rng) -> usize {
    match rng.u8(0..6) {
        0 => 0,
        1 => 1,
        2 => rng.usize(2..8),
        3 => [15, 16, 17][rng.usize(0..3)],
        4 => [31, 32, 33, 48][rng.usize(0..4)],
        _ => rng.usize(1..60),
    }
}

fn eof(e: &nakamoto_common::block::store::Error) -> bool {
    matches!(e, nakamoto_common::block::store::Error::Io(e) if e.kind() == std::io::ErrorKind::UnexpectedEof)
}

fn store_ops<R: Rec, S: Store<Header = R>>(
    rng: &fastrand::Rng,
    obs: &mut Obs,
    mut s: S,
    genesis: R,
    mut reopen: impl FnMut(S) -> S,
    steps: usize,
) -> Res {
    let mut model: Vec<R> = vec![genesis];
    let mut shape = Vec::new();
    for _ in 0..steps {
        match rng.u8(0..10) {
            0..=2 => {
                let batch: Vec<R> = (0..batch_len(rng)).map(|_| R::random(rng)).collect();
                obs.trace(format!("put {}", batch.len()));
                let r = guard("put", || s.put(batch.iter().copied()))?;
                model.extend(&batch);
                match r {
                    Ok(h) => check!(h == model.len() as Height - 1, "put-height", "put returned height {h}, expected {}", model.len() - 1),
                    Err(e) => return viol("put-failed", format!("put failed: {e}")),
                }
                obs.inc("puts");
                shape.push((0u8, batch.len()));
            }
            3 => {
                let h = rng.usize(0..model.len());
                // Mostly shallow roll-backs.
                let h = if rng.u8(0..4) == 0 { h } else { model.len() - 1 - rng.usize(0..model.len().min(20)) };
                obs.trace(format!("rollback {h}"));
                if let Err(e) = guard("rollback", || s.rollback(h as Height))? {
                    return viol("rollback-failed", format!("rollback failed: {e}"));
                }
                model.truncate(h + 1);
                obs.inc("rollbacks");
                shape.push((1, h));
            }
            4 => {
                obs.trace("reopen");
                s = reopen(s);
                obs.inc("re-openings");
                shape.push((2, 0));
            }
            5 => {
                // Interleaved iterators and reads.
                let mut a = s.iter();
                let mut b = s.iter();
                let (mut i, mut j) = (0usize, 0usize);
                for _ in 0..rng.usize(1..80) {
                    match rng.u8(0..4) {
                        0 | 1 => {
                            let x = a.next();
                            check_item(x, &model, i)?;
                            i += 1;
                        }
                        2 => {
                            let x = b.next();
                            check_item(x, &model, j)?;
                            j += 1;
                        }
                        _ => {
                            let h = rng.usize(0..model.len());
                            match s.get(h as Height) {
                                Ok(x) => check!(x == model[h], "get", "get({h}) returned a different header"),
                                Err(e) => return viol("get", format!("get({h}) of {} failed: {e}", model.len())),
                            }
                        }
                    }
                    if i > model.len() || j > model.len() {
                        break;
                    }
                }
                obs.inc("interleaved iterations");
            }
            6 => {
                let _ = guard("sync", || s.sync())?;
                check!(guard("heal", || s.heal())?.is_ok(), "heal-failed", "heal of an intact store failed");
                obs.inc("heals of intact stores");
            }
            _ => {
                for _ in 0..4 {
                    let h = rng.usize(0..model.len() + 3);
                    let r = guard("get", || s.get(h as Height))?;
                    match (r, model.get(h)) {
                        (Ok(x), Some(m)) => check!(x == *m, "get", "get({h}) returned a different header"),
                        (Err(e), None) => check!(eof(&e), "get-past-end-kind", "get({h}) past the end: {e}"),
                        (Ok(_), None) => return viol("get-past-end", format!("get({h}) returned a header; length is {}", model.len())),
                        (Err(e), Some(_)) => return viol("get", format!("get({h}) failed: {e}; length is {}", model.len())),
                    }
                }
                obs.add("gets", 4);
            }
        }
        let (len, height) = (s.len(), s.height());
        check!(matches!(len, Ok(n) if n == model.len()), "len", "length {len:?}, expected {}", model.len());
        check!(matches!(height, Ok(n) if n == model.len() as Height - 1), "height", "height {height:?}, expected {}", model.len() - 1);
        check!(s.check().is_ok(), "check-failed", "check of an intact store failed");
        check!(s.genesis() == genesis, "genesis", "genesis changed");
        let all: Vec<_> = guard("iter", || s.iter().take(model.len() + 5).collect::<Vec<_>>())?;
        check!(all.len() == model.len(), "iter-len", "iteration yields {} headers, expected {}", all.len(), model.len());
        for (i, x) in all.into_iter().enumerate() {
            check_item(Some(x), &model, i)?;
        }
        if model.len() > 400 {
            let _ = s.rollback(20);
            model.truncate(21);
        }
        obs.distinct((model.len(), shape.last().copied()));
    }
    obs.distinct(shape);
    Ok(())
}

fn check_item<R: Rec>(x: Option<Result<(Height, R), nakamoto_common::block::store::Error>>, model: &[R], i: usize) -> Res {
    match (x, model.get(i)) {
        (None, None) => Ok(()),
        (Some(Ok((h, x))), Some(m)) => {
            check!(h == i as Height, "iter-height", "iteration item {i} has height {h}");
            check!(x == *m, "iter-item", "iteration item {i} differs");
            Ok(())
        }
        (x, m) => viol("iter", format!("iteration item {i}: got {:?}, expected some: {}", x.map(|r| r.is_ok()), m.is_some())),
    }
}

fn s01_for<R: Rec>(rng: &fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let steps = if tier == Tier::Quick { 40 } else { 120 };
    let genesis = R::genesis(Network::Regtest);
    let seed = rng.u64(..);
    {
        let dir = Scratch::new();
        let p = dir.path("h.db");
        let s = if rng.bool() { File::create(&p, genesis).map_err(|e| e.to_string()) } else { File::open(&p, genesis).map_err(|e| e.to_string()) };
        let s = match s {
            Ok(s) => s,
            Err(e) => return viol("open", format!("cannot open a new store: {e}")),
        };
        check!(File::<R>::create(&p, genesis).is_err(), "create-existing", "create succeeded on an existing file");
        let r = fastrand::Rng::with_seed(seed);
        store_ops(&r, obs, s, genesis, |s| { drop(s); File::open(&p, genesis).expect("open") }, steps)?;
    }
    let r = fastrand::Rng::with_seed(seed);
    store_ops(&r, obs, Memory::new(NonEmpty::new(genesis)), genesis, |s| s, steps)
}

pub fn s01(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    if rng.bool() {
        s01_for::<BlockHeader>(rng, obs, tier)
    } else {
        s01_for::<FH>(rng, obs, tier)
    }
}

/// The filter-header cache on top of a store.
pub fn s01_filters(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let genesis = StoredHeader::genesis(Network::Regtest);
    let dir = Scratch::new();
    let p = dir.path("f.db");
    let open = || File::open(&p, genesis).expect("open");
    let mut c = guard("load", || FilterCache::load(open()))?.map_err(|e| Violation { sig: "load".into(), detail: e.to_string() })?;
    let mut model: Vec<(FilterHash, FilterHeader)> = vec![(genesis.hash, genesis.header)];
    let steps = if tier == Tier::Quick { 40 } else { 150 };
    for _ in 0..steps {
        match rng.u8(0..8) {
            0..=3 => {
                let mut batch = Vec::new();
                let mut prev = model.last().unwrap().1;
                for _ in 0..batch_len(rng) {
                    let hash = FilterHash::from_inner(bytes32(rng));
                    prev = hash.filter_header(&prev);
                    batch.push((hash, prev));
                }
                let h = guard("import_headers", || c.import_headers(batch.clone()))?;
                model.extend(batch);
                check!(matches!(h, Ok(h) if h == model.len() as Height - 1), "import-height", "import returned {h:?}");
                obs.inc("filter header imports");
            }
            4 | 5 => {
                let h = rng.usize(0..model.len());
                let h = if rng.bool() { h } else { model.len() - 1 - rng.usize(0..model.len().min(20)) };
                let r = guard("rollback", || c.rollback(h as Height))?;
                check!(r.is_ok(), "rollback", "rollback failed: {r:?}");
                model.truncate(h + 1);
                obs.inc("filter header rollbacks");
            }
            6 => {
                drop(c);
                c = guard("load", || FilterCache::load(open()))?.map_err(|e| Violation { sig: "load".into(), detail: e.to_string() })?;
                obs.inc("filter cache reloads");
            }
            _ => {
                if rng.u8(0..6) == 0 {
                    check!(guard("clear", || c.clear())?.is_ok(), "clear", "clear failed");
                    model.truncate(1);
                }
            }
        }
        let height = model.len() as Height - 1;
        check!(c.height() == height, "height", "height {} expected {height}", c.height());
        let (h, f) = model.last().unwrap();
        check!(c.tip() == (h, f), "tip", "wrong filter tip");
        check!(c.verify(Network::Regtest).is_ok(), "verify", "verification of an intact chain failed");
        for i in 0..model.len() + 2 {
            check!(c.get_header(i as Height) == model.get(i).copied(), "get-header", "get_header({i}) differs");
            let prev = if i == 0 { Some(FilterHeader::all_zeros()) } else { model.get(i - 1).map(|x| x.1) };
            check!(c.get_prev_header(i as Height) == prev, "get-prev-header", "get_prev_header({i}) differs");
        }
        for _ in 0..3 {
            let a = rng.usize(0..model.len() + 2);
            let b = rng.usize(a..model.len() + 4);
            let got = guard("get_headers", || c.get_headers(a as Height..=b as Height))?;
            let want: Vec<_> = (a..=b).filter_map(|i| model.get(i).copied()).collect();
            check!(got == want, "get-headers", "get_headers({a}..={b}): {} entries, expected {}", got.len(), want.len());
        }
        obs.distinct((model.len(), model.last().unwrap().1));
    }
    Ok(())
}

fn encode_chain(chain: &[BlockHeader]) -> Vec<u8> {
    let mut v = Vec::new();
    for h in &chain[1..] {
        h.consensus_encode(&mut v).unwrap();
    }
    v
}

/// Load a header file image as a restarting node does.
fn recover(
    path: &std::path::Path,
    image: &[u8],
    rules: &Rules,
    genesis: BlockHeader,
) -> Result<(BlockCache<File<BlockHeader>>, bool), Violation> {
    std::fs::write(path, image).expect("write image");
    let store = File::open(path, genesis).map_err(|e| Violation { sig: "open".into(), detail: e.to_string() })?;
    let damaged = store.check().is_err();
    if damaged {
        let r = guard("heal", || store.heal())?;
        check_res(r, "heal-failed")?;
        if store.check().is_err() {
            return viol("heal-incomplete", "the store is still damaged after healing");
        }
    }
    let cps: Vec<_> = rules.checkpoints.iter().map(|(h, b)| (*h, *b)).collect();
    let c = guard("load", || BlockCache::new(store, rules.params.clone(), &cps).and_then(|c| c.load()))?;
    match c {
        Ok(c) => Ok((c, damaged)),
        Err(e) => viol("load-failed", format!("the node cannot load the recovered store: {e}")),
    }
}

fn check_res<E: std::fmt::Display>(r: Result<(), E>, sig: &str) -> Res {
    r.map_err(|e| Violation { sig: sig.into(), detail: e.to_string() })
}

/// Import histories on a file-backed cache: the file always is the active chain, and every crash
/// image of every file change recovers.
pub fn s02(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    // The genesis block must be the network's own for a reload.
    let (rules, genesis) = rules(Flavor::Regtest, rng);
    let n = if tier == Tier::Quick { rng.usize(8..50) } else { rng.usize(8..120) };
    let tree = gen_tree(&rules, genesis, rng, n, 0.05, Flavor::Regtest);
    let order = delivery(&tree, rng);
    let dir = Scratch::new();
    let path = dir.path("headers.db");
    let copy = dir.path("copy.db");
    let clock = Now(tree.now);
    let mut cache = BlockCache::new(File::create(&path, genesis).expect("create"), rules.params.clone(), &[])
        .expect("new cache");
    let mut image: Vec<u8> = Vec::new();
    let mut i = 0;
    while i < order.len() {
        let k = rng.usize(1..12).min(order.len() - i);
        let batch: Vec<BlockHeader> = order[i..i + k].iter().map(|k| tree.nodes[*k].header).collect();
        i += k;
        let _ = guard("import_blocks", || cache.import_blocks(batch.iter().copied(), &clock))?;
        let active: Vec<BlockHeader> = cache.chain().collect();
        let now = std::fs::read(&path).expect("read store");
        let (reloaded, damaged) = recover(&copy, &now, &rules, genesis)?;
        check!(!damaged, "torn", "the header file is damaged after a completed import");
        check!(reloaded.chain().eq(active.iter().copied()), "file-differs", "the reloaded chain (height {}) is not the active one (height {})", reloaded.height(), active.len() - 1);
        check!(reloaded.chain_work() == cache.chain_work(), "reload-work", "work changes by reloading");
        check!(reloaded.tip() == cache.tip() && reloaded.height() == cache.height(), "reload-tip", "tip changes by reloading");
        for (h, b) in active.iter().enumerate() {
            check!(reloaded.get_block(&b.block_hash()) == Some((h as Height, b)), "reload-index", "block {h} not indexed after reloading");
        }
        obs.inc("reloads compared");
        let want = encode_chain(&active);
        let rec = if active.len() > 1 { now.len() / (active.len() - 1) } else { 80 };
        if now != image && now == want {
            // Crash images: before, after truncation to the fork point, and every byte of the rewrite.
            let common = image.iter().zip(&now).take_while(|(a, b)| a == b).count() / rec * rec;
            let mut cuts: Vec<usize> = Vec::new();
            if now.len() - common <= 4 * rec {
                cuts.extend(common..=now.len());
            } else {
                for _ in 0..40 {
                    cuts.push(rng.usize(common..=now.len()));
                }
                cuts.extend([common, now.len(), common + rec, now.len() - rec, now.len() - 1, common + 1]);
            }
            if rng.u8(0..3) != 0 {
                let keep = if tier == Tier::Quick { 12 } else { 60 };
                while cuts.len() > keep {
                    let k = rng.usize(0..cuts.len());
                    cuts.swap_remove(k);
                }
            }
            for cut in cuts {
                let img = &now[..cut];
                let (mut c, damaged) = recover(&copy, img, &rules, genesis)?;
                check!(damaged == (cut % rec != 0), "check-damage", "check reports damage={damaged} for {cut} bytes");
                let whole = cut / rec;
                let got: Vec<BlockHeader> = c.chain().collect();
                check!(got[..] == active[..=whole], "heal-kept", "after a cut at byte {cut}: {} headers kept, expected {whole}", got.len() - 1);
                check!(std::fs::metadata(&copy).expect("stat").len() as usize == whole * rec, "heal-length", "file length after healing");
                // Re-synchronise.
                let r = guard("resync", || c.import_blocks(active[1..].iter().copied(), &clock))?;
                check!(r.is_ok(), "resync-refused", "re-sync refused after a cut at {cut}: {r:?}");
                check!(c.chain().eq(active.iter().copied()) && c.chain_work() == cache.chain_work(), "resync-tip", "re-sync reaches height {}, expected {}", c.height(), active.len() - 1);
                drop(c);
                let file = std::fs::read(&copy).expect("read");
                check!(file == now, "resync-file", "file after recovery and re-sync differs");
                obs.inc("crash images recovered");
                obs.distinct((active.len(), common / rec, cut % rec));
            }
        }
        check!(now == want, "file-image", "the header file ({} bytes) is not the encoding of the active chain ({} bytes)", now.len(), want.len());
        if image.len() > now.len() || image[..] != now[..image.len()] {
            obs.inc("file rewrites by reorganisation");
        }
        image = now;
        // Restart now and then: the original continues from the file.
        if rng.u8(0..5) == 0 {
            drop(cache);
            cache = guard("load", || BlockCache::from(File::open(&path, genesis).expect("open"), rules.params.clone(), &[]))?
                .map_err(|e| Violation { sig: "load-failed".into(), detail: e.to_string() })?;
            obs.inc("restarts");
        }
    }
    Ok(())
}

// --- Real faults: the kernel refuses writes past a file-size limit, at any byte.

#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(resource: i32, rlim: *const RLimit) -> i32;
    fn getrlimit(resource: i32, rlim: *mut RLimit) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
}
const RLIMIT_FSIZE: i32 = 1;
const SIGXFSZ: i32 = 25;

fn with_file_limit<T>(limit: u64, f: impl FnOnce() -> T) -> T {
    unsafe {
        signal(SIGXFSZ, 1); // SIG_IGN
        let mut old = RLimit { cur: 0, max: 0 };
        getrlimit(RLIMIT_FSIZE, &mut old);
        setrlimit(RLIMIT_FSIZE, &RLimit { cur: limit.min(old.max), max: old.max });
        let r = f();
        setrlimit(RLIMIT_FSIZE, &RLimit { cur: old.cur, max: old.max });
        r
    }
}

/// The disk fills up at an arbitrary byte during an import (real failing writes), the node dies and
/// restarts.
pub fn s02_enospc(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let (rules, genesis) = rules(Flavor::Regtest, rng);
    let n = if tier == Tier::Quick { rng.usize(8..30) } else { rng.usize(8..80) };
    let tree = gen_tree(&rules, genesis, rng, n, 0.0, Flavor::Regtest);
    let order = delivery(&tree, rng);
    let dir = Scratch::new();
    let path = dir.path("headers.db");
    let clock = Now(tree.now);
    let mut cache = BlockCache::new(File::create(&path, genesis).expect("create"), rules.params.clone(), &[]).expect("new");
    let mut delivered: Vec<BlockHeader> = Vec::new();
    let mut i = 0;
    while i < order.len() {
        let k = rng.usize(1..10).min(order.len() - i);
        let batch: Vec<BlockHeader> = order[i..i + k].iter().map(|k| tree.nodes[*k].header).collect();
        i += k;
        let before: Vec<BlockHeader> = cache.chain().collect();
        let len = std::fs::metadata(&path).expect("stat").len();
        let low = len.saturating_sub(160);
        let limit = rng.u64(low..len + 400);
        let r = guard("import", || with_file_limit(limit, || cache.import_blocks(batch.iter().copied(), &clock)))?;
        delivered.extend(&batch);
        if r.is_ok() {
            obs.inc("imports without a fault");
            continue;
        }
        obs.inc("imports with a failed write");
        let intended: Vec<BlockHeader> = cache.chain().collect();
        drop(cache);
        let image = std::fs::read(&path).expect("read");
        let (c, _) = recover(&path, &image, &rules, genesis)?;
        let got: Vec<BlockHeader> = c.chain().collect();
        // What is on disk is a prefix of the old or of the intended chain.
        let m = got.len();
        check!(
            (m <= before.len() && got[..] == before[..m]) || (m <= intended.len() && got[..] == intended[..m]),
            "fault-foreign", "after a failed write the store holds neither a prefix of the old nor of the new chain"
        );
        let common = before.iter().zip(&intended).take_while(|(a, b)| a == b).count();
        check!(m >= common, "fault-lost", "a failed write lost headers below the fork: {m} of {common} kept");
        obs.distinct((before.len(), intended.len(), common, image.len() % 80, m));
        cache = c;
        // Everything is delivered again by peers.
        let all = delivered.clone();
        for h in all {
            let _ = guard("import", || cache.import_blocks(std::iter::once(h), &clock))?;
        }
        let mut fresh = BlockCache::new(Memory::new(NonEmpty::new(genesis)), rules.params.clone(), &[]).expect("new");
        for h in &delivered {
            let _ = fresh.import_blocks(std::iter::once(*h), &clock);
        }
        check!(fresh.tip() == cache.tip() && fresh.chain_work() == cache.chain_work(), "fault-resync", "after recovery and re-sync the tip differs: height {} vs {}", cache.height(), fresh.height());
        check!(std::fs::read(&path).expect("read") == encode_chain(&cache.chain().collect::<Vec<_>>()), "fault-file", "file differs from the active chain after recovery");
    }
    Ok(())
}

/// Filter-header files: every cut heals to the whole records, which verify.
pub fn s02_filters(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let genesis = StoredHeader::genesis(Network::Regtest);
    let dir = Scratch::new();
    let p = dir.path("filters.db");
    let load = |p: &std::path::Path| -> Result<(FilterCache<File<StoredHeader>>, bool), Violation> {
        let s = File::open(p, genesis).map_err(|e| Violation { sig: "open".into(), detail: e.to_string() })?;
        let damaged = s.check().is_err();
        if damaged {
            check_res(guard("heal", || s.heal())?, "heal-failed")?;
        }
        guard("load", || FilterCache::load(s))?
            .map(|c| (c, damaged))
            .map_err(|e| Violation { sig: "load-failed".into(), detail: e.to_string() })
    };
    let (mut c, _) = load(&p)?;
    let mut model: Vec<(FilterHash, FilterHeader)> = vec![(genesis.hash, genesis.header)];
    let n = rng.usize(1..45);
    let mut prev = genesis.header;
    for _ in 0..n {
        let hash = FilterHash::from_inner(bytes32(rng));
        prev = hash.filter_header(&prev);
        model.push((hash, prev));
    }
    check_res(guard("import", || c.import_headers(model[1..].to_vec()))?.map(|_| ()), "import-failed")?;
    drop(c);
    let image = std::fs::read(&p).expect("read");
    let rec = image.len() / n;
    let mut cuts: Vec<usize> = (0..=image.len()).collect();
    let keep = if tier == Tier::Quick { 60 } else { 400 };
    while cuts.len() > keep {
        let k = rng.usize(0..cuts.len());
        cuts.swap_remove(k);
    }
    for cut in cuts {
        std::fs::write(&p, &image[..cut]).expect("write");
        let (mut c, damaged) = load(&p)?;
        check!(damaged == (cut % rec != 0), "check-damage", "check reports damage={damaged} for {cut} bytes");
        let whole = cut / rec;
        check!(c.height() == whole as Height, "heal-kept", "{} filter headers kept of {whole}", c.height());
        for (h, want) in model.iter().enumerate().take(whole + 1) {
            check!(c.get_header(h as Height) == Some(*want), "heal-content", "filter header {h} differs after healing");
        }
        check!(guard("verify", || c.verify(Network::Regtest))?.is_ok(), "verify", "verification fails after healing");
        check_res(guard("import", || c.import_headers(model[whole + 1..].to_vec()))?.map(|_| ()), "import-failed")?;
        drop(c);
        let (c, damaged) = load(&p)?;
        check!(!damaged && c.height() == n as Height && c.tip().1 == &prev, "resync", "filter chain not restored after a cut at {cut}");
        obs.inc("filter crash images recovered");
        obs.distinct((n, cut % rec, whole));
        // Altered content is detected by verification.
        if rng.u8(0..4) == 0 {
            let mut bad = image.clone();
            let at = rng.usize(0..bad.len());
            bad[at] ^= 1 << rng.u8(0..8);
            std::fs::write(&p, &bad).expect("write");
            let (c, _) = load(&p)?;
            check!(guard("verify", || c.verify(Network::Regtest))?.is_err(), "verify-missed", "verification accepts a filter header file altered at byte {at}");
            obs.inc("altered filter files detected");
        }
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "S01",
            rule: "a case is one operation sequence on a file and a memory store (or filter-header cache), distinct by the sequence of operations and resulting lengths",
            assumptions: &["single process; files on tmpfs", "rollback above the current height is documented as undefined and not exercised"],
            level: "exploration",
            groups: vec![
                Group { name: "stores", quick: 2000, thorough: 8000, threads: 0, run: s01 },
                Group { name: "filters", quick: 1000, thorough: 20000, threads: 0, run: s01_filters },
            ],
        },
        Property {
            id: "S02",
            rule: "a case is one import history on a file-backed tree with crash images of its file changes recovered; distinct by (chain length, fork point, byte offset within the record) sequences",
            assumptions: &["a crash leaves a byte prefix of the appended data (no reordering of bytes within the append)", "single-byte offsets enumerated for rewrites of up to 4 records, sampled for longer ones"],
            level: "fault_enumeration",
            groups: vec![
                Group { name: "images", quick: 800, thorough: 20000, threads: 0, run: s02 },
                Group { name: "filters", quick: 200, thorough: 5000, threads: 0, run: s02_filters },
                Group { name: "enospc", quick: 300, thorough: 2500, threads: 1, run: s02_enospc },
                Group { name: "client", quick: 300, thorough: 10_000, threads: 16, run: crate::client::s02_client },
                Group { name: "start", quick: 150, thorough: 8_000, threads: 48, run: crate::client::s02_start },
                Group { name: "torn", quick: 8, thorough: 100, threads: 48, run: crate::client::s02_torn },
            ],
        },
    ]
}
