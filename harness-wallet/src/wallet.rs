//! W01: the wallet's unspent outputs, balance and screen against a model of the same history.
use crate::check;
use crate::core::*;

use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::io;
use std::net;
use std::ops::{Bound, RangeInclusive};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};

use crossbeam_channel as chan;
use fastrand::Rng;
use termion::event::{Event as Input, Key, MouseButton, MouseEvent};

use nakamoto_client::handle::{Error as HandleError, Handle};
use nakamoto_client::{Event, Loading, Network};
use nakamoto_common::bitcoin::hashes::Hash;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::NetworkMessage;
use nakamoto_common::bitcoin::util::bip32::DerivationPath;
use nakamoto_common::bitcoin::util::uint::Uint256;
use nakamoto_common::bitcoin::{
    Address, OutPoint, PackedLockTime, Script, Sequence, TxIn, TxMerkleNode, TxOut, Txid, Witness,
};
use nakamoto_common::block::filter::BlockFilter;
use nakamoto_common::block::tree::{BlockReader, ImportResult};
use nakamoto_common::block::{Block, BlockHash, BlockHeader, Height, Transaction};
use nakamoto_common::nonempty::NonEmpty;
use nakamoto_p2p::fsm::{self, Command, Link, Peer};
use nakamoto_wallet::input::Signal;
use nakamoto_wallet::wallet::db::{Read as _, Write as _};
use nakamoto_wallet::wallet::{Db, Hw, Wallet};

/// A handle that records the commands it is given.
#[derive(Clone, Default)]
struct Recorder {
    commands: Arc<Mutex<Vec<Command>>>,
}

impl Handle for Recorder {
    fn get_tip(&self) -> Result<(Height, BlockHeader, Uint256), HandleError> {
        Err(HandleError::Disconnected)
    }
    fn get_block(&self, _: &BlockHash) -> Result<Option<(Height, BlockHeader)>, HandleError> {
        Ok(None)
    }
    fn get_block_by_height(&self, _: Height) -> Result<Option<BlockHeader>, HandleError> {
        Ok(None)
    }
    fn query_tree(&self, _: impl Fn(&dyn BlockReader) + Send + Sync + 'static) -> Result<(), HandleError> {
        Ok(())
    }
    fn find_branch(&self, _: &BlockHash) -> Result<Option<(Height, NonEmpty<BlockHeader>)>, HandleError> {
        Ok(None)
    }
    fn request_block(&self, _: &BlockHash) -> Result<(), HandleError> {
        Ok(())
    }
    fn request_filters(&self, _: RangeInclusive<Height>) -> Result<(), HandleError> {
        Ok(())
    }
    fn blocks(&self) -> chan::Receiver<(Block, Height)> {
        chan::never()
    }
    fn filters(&self) -> chan::Receiver<(BlockFilter, BlockHash, Height)> {
        chan::never()
    }
    fn events(&self) -> chan::Receiver<Event> {
        chan::never()
    }
    fn command(&self, cmd: Command) -> Result<(), HandleError> {
        self.commands.lock().unwrap().push(cmd);
        Ok(())
    }
    fn broadcast(&self, _: NetworkMessage, _: fn(Peer) -> bool) -> Result<Vec<net::SocketAddr>, HandleError> {
        Ok(vec![])
    }
    fn connect(&self, _: net::SocketAddr) -> Result<Link, HandleError> {
        Err(HandleError::Timeout)
    }
    fn disconnect(&self, _: net::SocketAddr) -> Result<(), HandleError> {
        Ok(())
    }
    fn submit_transaction(&self, _: Transaction) -> Result<NonEmpty<net::SocketAddr>, HandleError> {
        Err(HandleError::Timeout)
    }
    fn get_submitted_transaction(&self, _: &Txid) -> Result<Option<Transaction>, HandleError> {
        Ok(None)
    }
    fn import_headers(
        &self,
        _: Vec<BlockHeader>,
    ) -> Result<Result<ImportResult, nakamoto_common::block::tree::Error>, HandleError> {
        Err(HandleError::Timeout)
    }
    fn import_addresses(&self, _: Vec<nakamoto_common::bitcoin::network::Address>) -> Result<(), HandleError> {
        Ok(())
    }
    fn wait<F: FnMut(fsm::Event) -> Option<T>, T>(&self, _: F) -> Result<T, HandleError> {
        Err(HandleError::Timeout)
    }
    fn wait_for_peers(
        &self,
        _: usize,
        _: impl Into<ServiceFlags>,
    ) -> Result<Vec<(net::SocketAddr, Height, ServiceFlags)>, HandleError> {
        Err(HandleError::Timeout)
    }
    fn wait_for_height(&self, _: Height) -> Result<BlockHash, HandleError> {
        Err(HandleError::Timeout)
    }
    fn shutdown(self) -> Result<(), HandleError> {
        Ok(())
    }
}

/// A scratch directory, removed when dropped.
struct Scratch(PathBuf);

impl Scratch {
    fn new() -> Self {
        use std::sync::atomic::{AtomicUsize, Ordering};
        static N: AtomicUsize = AtomicUsize::new(0);
        let shm = PathBuf::from("/dev/shm");
        let base = if shm.is_dir() && std::fs::write(shm.join(format!("vhw-probe-{}", std::process::id())), b"").is_ok() {
            std::fs::remove_file(shm.join(format!("vhw-probe-{}", std::process::id()))).ok();
            shm
        } else {
            std::env::temp_dir()
        };
        let p = base.join(format!("vhw-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Self(p)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        std::fs::remove_dir_all(&self.0).ok();
    }
}

/// The outputs nobody spent, by the definition of the property.
type Model = BTreeMap<OutPoint, (u64, Script)>;

fn apply_model(m: &mut Model, tx: &Transaction, watch: &HashSet<Script>) {
    let txid = tx.txid();
    for (i, o) in tx.output.iter().enumerate() {
        if watch.contains(&o.script_pubkey) {
            m.entry(OutPoint { txid, vout: i as u32 }).or_insert((o.value, o.script_pubkey.clone()));
        }
    }
    for i in &tx.input {
        m.remove(&i.previous_output);
    }
}

fn net_of(n: Network) -> nakamoto_common::bitcoin::Network {
    n.into()
}

fn pick_network(rng: &mut Rng) -> Network {
    [Network::Mainnet, Network::Testnet, Network::Regtest, Network::Signet][rng.usize(..4)]
}

fn bytes<const N: usize>(rng: &mut Rng) -> [u8; N] {
    let mut b = [0u8; N];
    b.iter_mut().for_each(|b| *b = rng.u8(..));
    b
}

fn random_script(rng: &mut Rng) -> Script {
    use nakamoto_common::bitcoin::{PubkeyHash, ScriptHash, WPubkeyHash, WScriptHash};
    match rng.u8(..8) {
        0..=2 => Script::new_v0_p2wpkh(&WPubkeyHash::from_inner(bytes(rng))),
        3..=4 => Script::new_p2pkh(&PubkeyHash::from_inner(bytes(rng))),
        5 => Script::new_p2sh(&ScriptHash::from_inner(bytes(rng))),
        6 => Script::new_v0_p2wsh(&WScriptHash::from_inner(bytes(rng))),
        _ => {
            // Taproot: OP_1 <32 bytes>
            let mut v = vec![0x51, 32];
            v.extend_from_slice(&bytes::<32>(rng));
            Script::from(v)
        }
    }
}

/// Outputs that have no address.
fn odd_script(rng: &mut Rng) -> Script {
    match rng.u8(..4) {
        0 => Script::new(),
        1 => Script::new_op_return(&bytes::<20>(rng)),
        2 => Script::from(vec![0x51]),
        _ => Script::from((0..rng.usize(..60)).map(|_| rng.u8(..)).collect::<Vec<u8>>()),
    }
}

fn value(rng: &mut Rng) -> u64 {
    match rng.u8(..10) {
        0 => 0,
        1 => 1,
        2 => 546,
        3 => 21_000_000 * 100_000_000,
        4 => rng.u64(..21_000_000 * 100_000_000),
        5 => (1u64 << 32) + rng.u64(..10),
        6 => (1u64 << 31) - 5 + rng.u64(..10),
        _ => rng.u64(..100_000_000),
    }
}

/// A history of blocks: coins of ours and of others are created and spent, some of them within the
/// block that created them.
struct History {
    network: Network,
    addresses: Vec<Address>,
    watch: Vec<Script>,
    blocks: Vec<Vec<Transaction>>,
}

impl History {
    fn random(rng: &mut Rng, blocks: usize, txs: usize) -> Self {
        let network = pick_network(rng);
        let mut watch = Vec::new();
        let mut addresses = Vec::new();
        for _ in 0..rng.usize(1..12) {
            let s = random_script(rng);
            addresses.push(Address::from_script(&s, net_of(network)).expect("standard script"));
            watch.push(s);
        }
        let others: Vec<Script> = (0..3).map(|_| random_script(rng)).collect();
        let ours = rng.u8(1..9);
        // Unspent outputs of the whole history so far.
        let mut pool: Vec<OutPoint> = Vec::new();
        let mut out = Vec::new();
        for h in 0..blocks {
            let mut b = Vec::new();
            for t in 0..rng.usize(1..=txs) {
                let mut input = Vec::new();
                if t == 0 {
                    input.push(TxIn {
                        previous_output: OutPoint::null(),
                        script_sig: Script::from(vec![4, h as u8, (h >> 8) as u8, rng.u8(..), rng.u8(..)]),
                        sequence: Sequence::MAX,
                        witness: Witness::default(),
                    });
                } else {
                    for _ in 0..rng.usize(1..6) {
                        let previous_output = if pool.is_empty() || rng.u8(..5) == 0 {
                            // A coin from before the history, or of somebody else.
                            OutPoint { txid: Txid::from_inner(bytes(rng)), vout: rng.u32(..4) }
                        } else {
                            // Prefer recent coins, to get chains within a block.
                            let n = pool.len();
                            let i = if rng.bool() { n - 1 - rng.usize(..n.min(4)) } else { rng.usize(..n) };
                            pool.swap_remove(i)
                        };
                        input.push(TxIn {
                            previous_output,
                            script_sig: Script::new(),
                            sequence: Sequence::MAX,
                            witness: Witness::default(),
                        });
                    }
                }
                let output: Vec<TxOut> = (0..rng.usize(1..if rng.u8(..10) == 0 { 40 } else { 6 }))
                    .map(|_| {
                        let script_pubkey = if rng.u8(..10) < ours {
                            watch[rng.usize(..watch.len())].clone()
                        } else if rng.u8(..4) == 0 {
                            odd_script(rng)
                        } else {
                            others[rng.usize(..others.len())].clone()
                        };
                        TxOut { value: value(rng), script_pubkey }
                    })
                    .collect();
                let tx = Transaction { version: 2, lock_time: PackedLockTime::ZERO, input, output };
                let txid = tx.txid();
                for v in 0..tx.output.len() {
                    pool.push(OutPoint { txid, vout: v as u32 });
                }
                b.push(tx);
            }
            // Coins may be spent with any distance between the blocks.
            if rng.bool() {
                rng.shuffle(&mut pool);
            }
            out.push(b);
        }
        Self { network, addresses, watch, blocks: out }
    }

    fn set(&self) -> HashSet<Script> {
        self.watch.iter().cloned().collect()
    }

    /// The state after the first `n` blocks.
    fn model(&self, n: usize) -> Model {
        let w = self.set();
        let mut m = Model::new();
        for b in &self.blocks[..n] {
            for tx in b {
                apply_model(&mut m, tx, &w);
            }
        }
        m
    }
}

fn sum(m: &Model) -> u64 {
    m.values().map(|(v, _)| *v).sum()
}

fn err<T, E: std::fmt::Display>(what: &str, r: Result<T, E>) -> Result<T, Violation> {
    r.or_else(|e| viol(format!("error:{what}"), format!("{what} failed: {e}")))
}

fn judge(what: &str, db: &Db, m: &Model, obs: &mut Obs) -> Res {
    let l = err("utxos", db.utxos())?;
    obs.add("outputs compared", l.len() as u64);
    let n = l.len();
    let got: Model = l.into_iter().map(|(o, t)| (o, (t.value, t.script_pubkey))).collect();
    check!(got.len() == n, "utxo-twice", "{what}: an unspent output is listed twice");
    for (o, e) in m {
        match got.get(o) {
            None => return viol("utxo-missing", format!("{what}: {o} paying {} is unspent but not in the wallet", e.0)),
            Some(g) => check!(g == e, "utxo-differs", "{what}: {o} is {g:?}, it should be {e:?}"),
        }
    }
    for o in got.keys() {
        check!(m.contains_key(o), "utxo-extra", "{what}: the wallet has {o}, which isn't an unspent output of it");
    }
    let b = err("balance", db.balance())?;
    check!(b == sum(m), "balance", "{what}: the balance is {b}, the unspent outputs amount to {}", sum(m));
    obs.distinct((b, m.len()));
    Ok(())
}

fn hw() -> Hw {
    Hw::new(DerivationPath::default())
}

/// The database as a map of outputs and a map of addresses.
fn w01_db(rng: &mut Rng, obs: &mut Obs, _: Tier) -> Res {
    let scratch = Scratch::new();
    let path = scratch.0.join("w.db");
    let file = rng.u8(..4) > 0;
    let open = |p: &PathBuf| if file { Db::open(p) } else { Db::memory() };
    let mut db = err("open", open(&path))?;
    let network = pick_network(rng);
    let scripts: Vec<Script> = (0..6).map(|_| random_script(rng)).collect();
    let txids: Vec<Txid> = (0..rng.usize(1..6)).map(|_| Txid::from_inner(bytes(rng))).collect();
    let mut m = Model::new();
    let mut addrs: BTreeMap<String, (usize, Option<String>)> = BTreeMap::new();
    let outpoint = |rng: &mut Rng| OutPoint {
        txid: txids[rng.usize(..txids.len())],
        vout: match rng.u8(..6) {
            0 => u32::MAX,
            1 => 1 << 31,
            _ => rng.u32(..5),
        },
    };
    for _ in 0..rng.usize(10..120) {
        obs.inc("database operations");
        match rng.u8(..20) {
            0..=6 => {
                let o = outpoint(rng);
                let s = scripts[rng.usize(..scripts.len())].clone();
                let a = Address::from_script(&s, net_of(network)).unwrap();
                let v = value(rng);
                let added = err("add_utxo", db.add_utxo(o.txid, o.vout, a, v))?;
                check!(added != m.contains_key(&o), "add-result", "adding {o} returned {added}; present: {}", m.contains_key(&o));
                m.entry(o).or_insert((v, s));
            }
            7..=10 => {
                let o = outpoint(rng);
                let r = err("remove_utxo", db.remove_utxo(&o))?;
                let e = m.remove(&o).map(|(value, script_pubkey)| (o, TxOut { value, script_pubkey }));
                check!(r == e, "remove-result", "removing {o} returned {r:?}, not {e:?}");
            }
            11..=13 => {
                let o = outpoint(rng);
                let r = err("utxo", db.utxo(&o))?;
                let e = m.get(&o).cloned().map(|(value, script_pubkey)| (o, TxOut { value, script_pubkey }));
                check!(r == e, "get-result", "looking up {o} returned {r:?}, not {e:?}");
            }
            14..=15 => {
                // An address always has the same index.
                let i = rng.usize(..scripts.len());
                let a = Address::from_script(&scripts[i], net_of(network)).unwrap();
                let label = match rng.u8(..4) {
                    0 => Some("it's \"mine\"; --".to_string()),
                    1 => Some(format!("label {}", rng.u8(..))),
                    2 => Some("привет ₿".to_string()),
                    _ => None,
                };
                err("add_address", db.add_address(&a, i * 3, label.as_deref()))?;
                addrs.insert(a.to_string(), (i * 3, label));
            }
            16..=17 => {
                let l = err("addresses", db.addresses())?;
                let n = l.len();
                let got: BTreeMap<_, _> = l.into_iter().map(|a| (a.address.script_pubkey(), (a.index, a.label))).collect();
                let want: BTreeMap<_, _> = addrs
                    .iter()
                    .map(|(a, x)| (a.parse::<Address>().unwrap().script_pubkey(), x.clone()))
                    .collect();
                check!(got == want && n == want.len(), "addresses", "the addresses are {got:?}, they should be {want:?}");
            }
            18 => judge("database", &db, &m, obs)?,
            _ => {
                if file {
                    drop(db);
                    db = err("open", open(&path))?;
                    obs.inc("database re-opened");
                    judge("re-opened database", &db, &m, obs)?;
                }
            }
        }
    }
    judge("database", &db, &m, obs)
}

/// Blocks are applied in order; a rescan applies some of them again; the wallet stops anywhere and
/// starts again.
fn w01_apply(rng: &mut Rng, obs: &mut Obs, _: Tier) -> Res {
    let scratch = Scratch::new();
    let mut path = scratch.0.join("w.db");
    let (blocks, txs) = if rng.u8(..6) == 0 { (rng.usize(2..25), 12) } else { (rng.usize(1..10), 5) };
    let hist = History::random(rng, blocks, txs);
    let file = rng.u8(..3) > 0;
    let open = |p: &PathBuf| if file { Db::open(p) } else { Db::memory() };
    let mut w = Wallet::new(Recorder::default(), hist.network, err("open", open(&path))?, hw());
    let mut watch = hist.watch.clone();
    if rng.bool() {
        rng.shuffle(&mut watch);
    }
    let set = hist.set();
    // The set at each moment is what the definition gives for what has been applied, in the order
    // it was.
    let mut m = Model::new();
    let mut at = 0;
    let mut rescans = 0;
    let mut opens = 0;
    while at < hist.blocks.len() {
        for tx in &hist.blocks[at] {
            w.apply(tx, &watch);
            apply_model(&mut m, tx, &set);
            obs.inc("transactions applied");
            if rng.u8(..8) == 0 {
                let b = err("balance", w.balance())?;
                check!(b == sum(&m), "balance", "after a transaction the balance is {b}, not {}", sum(&m));
            }
        }
        at += 1;
        if file && rng.u8(..6) == 0 {
            // Another process, or a crash: what was applied is in the file.
            let copy = scratch.0.join(format!("c{opens}.db"));
            std::fs::copy(&path, &copy).expect("copy");
            let db = err("open", Db::open(&copy))?;
            judge("the file", &db, &m, obs)?;
            opens += 1;
            if rng.bool() {
                drop(db);
                path = copy;
            }
            w = Wallet::new(Recorder::default(), hist.network, err("open", open(&path))?, hw());
        }
        if rescans < 4 && rng.u8(..8) == 0 {
            let from = rng.usize(..=at);
            rescans += 1;
            obs.inc("rescans");
            at = from;
            // While scanning, outputs spent further on come back.
        }
    }
    let fin = hist.model(hist.blocks.len());
    check!(m == fin, "harness", "the model isn't idempotent");
    let b = err("balance", w.balance())?;
    check!(b == sum(&fin), "balance", "the balance is {b}, the unspent outputs amount to {}", sum(&fin));
    drop(w);
    if file {
        judge("at the end", &err("open", open(&path))?, &fin, obs)?;
    }
    obs.distinct((blocks, rescans, opens, fin.len()));
    Ok(())
}

/// What a terminal shows after some output.
#[derive(Default)]
struct Screen {
    rows: BTreeMap<u16, Vec<char>>,
    at: (u16, u16),
}

impl Screen {
    fn feed(&mut self, out: &[u8]) {
        let s = String::from_utf8_lossy(out);
        let mut it = s.chars().peekable();
        while let Some(c) = it.next() {
            if c != '\u{1b}' {
                if c == '\n' {
                    self.at = (1, self.at.1 + 1);
                    continue;
                }
                if c == '\r' {
                    self.at.0 = 1;
                    continue;
                }
                let row = self.rows.entry(self.at.1).or_default();
                let x = self.at.0.max(1) as usize;
                while row.len() < x {
                    row.push(' ');
                }
                row[x - 1] = c;
                self.at.0 += 1;
                continue;
            }
            if it.peek() != Some(&'[') {
                continue;
            }
            it.next();
            let mut p = String::new();
            let mut end = ' ';
            for c in it.by_ref() {
                if c.is_ascii_alphabetic() {
                    end = c;
                    break;
                }
                p.push(c);
            }
            let n: Vec<u16> = p.split(';').filter_map(|x| x.parse().ok()).collect();
            match end {
                'H' => self.at = (n.get(1).copied().unwrap_or(1), n.first().copied().unwrap_or(1)),
                'J' if n.first() == Some(&2) => self.rows.clear(),
                'J' => {
                    let (x, y) = self.at;
                    self.rows.retain(|r, _| *r <= y);
                    if let Some(r) = self.rows.get_mut(&y) {
                        r.truncate(x.max(1) as usize - 1);
                    }
                }
                'K' => {
                    self.rows.remove(&self.at.1);
                }
                _ => {}
            }
        }
    }
    fn row(&self, r: u16) -> String {
        self.rows.get(&r).map(|r| r.iter().collect()).unwrap_or_default()
    }
}

/// Standard output that the harness can look at while the wallet writes.
#[derive(Clone, Default)]
struct Term(Arc<Mutex<Vec<u8>>>);

impl io::Write for Term {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.lock().unwrap().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn shown(b: u64) -> String {
    format!("{:.4} BTC", b as f64 / 100_000_000.)
}

/// The wallet's own loop, fed by a client.
fn w01_run(rng: &mut Rng, obs: &mut Obs, _: Tier) -> Res {
    if termion::terminal_size().is_err() {
        obs.inc("no terminal: not run");
        return Ok(());
    }
    let scratch = Scratch::new();
    let path = scratch.0.join("w.db");
    let blocks = rng.usize(1..10);
    let hist = History::random(rng, blocks, 4);
    {
        let db = err("open", Db::open(&path))?;
        for (i, a) in hist.addresses.iter().enumerate() {
            err("add_address", db.add_address(a, i, None))?;
        }
    }
    // Sessions: each scans again from the birth, up to where the client has got.
    let sessions = rng.usize(1..4);
    let mut known = 0;
    let mut before = Model::new();
    for s in 0..sessions {
        let last = s + 1 == sessions;
        let offline = rng.u8(..8) == 0;
        let upto = if offline {
            known
        } else if last {
            blocks
        } else {
            rng.usize(known..=blocks)
        };
        let birth = rng.u64(..1000);
        let rec = Recorder::default();
        let mut w = Wallet::new(rec.clone(), hist.network, err("open", Db::open(&path))?, hw());
        let (inputs_tx, inputs) = chan::unbounded();
        let (signals_tx, signals) = chan::unbounded();
        let (loading_tx, loading) = chan::unbounded();
        let (events_tx, events) = chan::unbounded();
        let term = Term::default();
        let t = term.clone();
        let interrupt = rng.bool();

        let tabs = rng.usize(..7);
        let mut feed = Vec::new();
        for h in 0..3u64 {
            if rng.bool() {
                loading_tx.send(Loading::BlockHeaderLoaded { height: h * 1000 }).unwrap();
            }
            if rng.bool() {
                loading_tx.send(Loading::FilterHeaderLoaded { height: h * 1000 }).unwrap();
            }
            if rng.bool() {
                loading_tx.send(Loading::FilterHeaderVerified { height: h }).unwrap();
            }
        }
        let late = rng.bool();
        let mut loading_tx = Some(loading_tx);
        if !late {
            loading_tx = None;
        }
        if !offline {
            feed.push(Event::Ready {
                tip: birth,
                filter_tip: birth,
                time: nakamoto_common::block::time::LocalTime::from_secs(1_600_000_000),
            });
            for h in 0..upto {
                let height = birth + h as u64;
                if rng.u8(..4) == 0 {
                    feed.push(Event::PeerHeightUpdated { height: height + rng.u64(..10) });
                }
                let mine = hist.blocks[h].iter().any(|tx| {
                    tx.output.iter().any(|o| hist.watch.contains(&o.script_pubkey))
                }) || spends(&hist, h);
                let header = BlockHeader {
                    version: 1,
                    prev_blockhash: BlockHash::from_inner(bytes(rng)),
                    merkle_root: TxMerkleNode::from_inner(bytes(rng)),
                    time: 0,
                    bits: 0,
                    nonce: 0,
                };
                let block = Block { header, txdata: hist.blocks[h].clone() };
                let hash = block.block_hash();
                feed.push(Event::FilterProcessed {
                    block: hash,
                    height,
                    matched: mine,
                    valid: true,
                    cached: rng.bool(),
                });
                // Blocks that don't concern us may be matched as well.
                if mine || rng.u8(..4) == 0 {
                    feed.push(Event::BlockMatched { height, block });
                    obs.inc("blocks matched");
                }
                if rng.u8(..3) == 0 {
                    feed.push(Event::Scanned { height });
                }
            }
        }
        let pace = rng.u8(..4);
        let inputs_n = tabs;
        let mut keys = Vec::new();
        let mut tab = 0i32;
        for _ in 0..inputs_n {
            keys.push(match rng.u8(..5) {
                0 | 1 => {
                    tab += 1;
                    Input::Key(if rng.bool() { Key::Right } else { Key::Char('\t') })
                }
                2 => {
                    tab -= 1;
                    Input::Key(Key::Left)
                }
                3 => Input::Mouse(MouseEvent::Press(MouseButton::Left, 3, 3)),
                _ => Input::Key(Key::Char('x')),
            });
        }
        // Come back to the list of outputs.
        while tab.rem_euclid(3) != 0 {
            tab += 1;
            keys.push(Input::Key(Key::Right));
        }
        let resizes = rng.usize(..3);
        let seed = rng.u64(..);
        let result = std::thread::scope(|sc| {
            let feeder = sc.spawn(move || {
                let rng = Rng::with_seed(seed);
                let mut ev = feed.into_iter();
                let mut k = keys.into_iter();
                let mut r = resizes;
                let mut ltx = loading_tx;
                loop {
                    let mut more = false;
                    match rng.u8(..4) {
                        0 => {
                            if let Some(x) = k.next() {
                                inputs_tx.send(x).ok();
                                more = true;
                            }
                        }
                        1 if r > 0 => {
                            r -= 1;
                            signals_tx.send(Signal::WindowResized).ok();
                            more = true;
                        }
                        _ => {
                            if let Some(x) = ev.next() {
                                events_tx.send(x).ok();
                                more = true;
                            }
                        }
                    }
                    if rng.u8(..5) == 0 {
                        ltx = None;
                    }
                    if pace == 0 {
                        std::thread::sleep(std::time::Duration::from_micros(rng.u64(..300)));
                    }
                    if !more {
                        // Send the rest.
                        for x in k {
                            inputs_tx.send(x).ok();
                        }
                        for _ in 0..r {
                            signals_tx.send(Signal::WindowResized).ok();
                        }
                        for x in ev {
                            events_tx.send(x).ok();
                        }
                        break;
                    }
                }
                drop(ltx);
                // Once everything is taken, end the session.
                let t0 = std::time::Instant::now();
                while (!inputs_tx.is_empty() || !events_tx.is_empty() || !signals_tx.is_empty())
                    && t0.elapsed().as_secs() < 60
                {
                    std::thread::sleep(std::time::Duration::from_micros(100));
                }
                let drained = inputs_tx.is_empty() && events_tx.is_empty() && signals_tx.is_empty();
                if interrupt {
                    signals_tx.send(Signal::Interrupted).ok();
                    // Hold the other channels open until the wallet is done.
                    (drained, Some((inputs_tx, events_tx, signals_tx)))
                } else {
                    drop(events_tx);
                    let (a, _) = chan::unbounded();
                    (drained, Some((inputs_tx, a, signals_tx)))
                }
            });
            // The feeder ends first only after the wallet has taken everything; its channels stay
            // open in the join handle.
            let r = guard("wallet", || w.run(birth, inputs, signals, loading, events, offline, t));
            let drained = feeder.join().map(|(d, _)| d).unwrap_or(false);
            (r, drained)
        });
        let (r, drained) = result;
        match r? {
            Ok(()) => check!(interrupt, "run-ended", "the wallet stopped by itself"),
            Err(e) => check!(!interrupt, "run-error", "the wallet stopped with an error: {e}"),
        }
        check!(drained, "run-stuck", "the wallet stopped without handling what it was sent");
        obs.inc("sessions");

        // It asked for what it needs.
        let cmds = std::mem::take(&mut *rec.commands.lock().unwrap());
        if offline {
            check!(cmds.is_empty(), "offline-command", "an offline wallet gave the client {} commands", cmds.len());
        } else {
            // What the client has been told to watch, and from where to scan.
            let mut watched: BTreeSet<Script> = BTreeSet::new();
            let mut scans = 0;
            for c in &cmds {
                match c {
                    Command::Rescan { from, to, watch } => {
                        scans += 1;
                        check!(
                            matches!(from, Bound::Included(h) if *h <= birth)
                                || matches!(from, Bound::Excluded(h) if *h < birth)
                                || matches!(from, Bound::Unbounded),
                            "scan-range", "the scan starts at {from:?}, the wallet's birth is {birth}"
                        );
                        check!(matches!(to, Bound::Unbounded), "scan-range", "the scan ends at {to:?}");
                        watched.extend(watch.iter().cloned());
                    }
                    Command::Watch { watch } => watched.extend(watch.iter().cloned()),
                    _ => {}
                }
            }
            check!(scans >= 1, "no-scan", "the wallet didn't ask for a scan");
            for s in &hist.watch {
                check!(watched.contains(s), "unwatched", "the wallet didn't have its address {s} watched");
            }
        }

        if !offline {
            known = known.max(upto);
        }
        // What the sessions applied, one after the other.
        let mut m = before.clone();
        if !offline {
            let w = hist.set();
            for b in &hist.blocks[..upto] {
                for tx in b {
                    apply_model(&mut m, tx, &w);
                }
            }
            check!(m == hist.model(upto), "harness", "the model isn't idempotent");
        }
        let db = err("open", Db::open(&path))?;
        judge("after the session", &db, &m, obs)?;
        drop(w);

        // And it shows it.
        let mut screen = Screen::default();
        screen.feed(&term.0.lock().unwrap());
        let head = screen.row(1);
        check!(
            head.trim_end().ends_with(&shown(sum(&m))),
            "shown-balance",
            "the screen's first row is {head:?}, the balance is {}",
            shown(sum(&m))
        );
        let mut lines: HashMap<String, usize> = HashMap::new();
        for (r, _) in screen.rows.range(3..) {
            *lines.entry(screen.row(*r).split_whitespace().collect::<Vec<_>>().join(" ")).or_default() += 1;
        }
        for (o, (v, sc)) in &m {
            // The list shows addresses in their main network form.
            let any = [net_of(Network::Mainnet), net_of(hist.network)].into_iter().any(|n| {
                let a = Address::from_script(sc, n).unwrap().to_string();
                lines.iter().any(|(l, n)| {
                    *n > 0 && l.starts_with(&o.txid.to_string()[..7]) && l.contains(&a) && l.ends_with(&shown(*v))
                })
            });
            // The last row but one holds a message.
            check!(any || m.len() > 34, "shown-output", "{o} paying {v} isn't on the screen: {lines:?}");
        }
        let listed: usize = lines.iter().filter(|(l, _)| l.ends_with(" BTC")).map(|(_, n)| n).sum();
        check!(m.len() > 34 || listed == m.len(), "shown-outputs", "the screen lists {listed} outputs of {}", m.len());
        obs.inc("screens compared");
        obs.distinct((upto, s, offline, interrupt, m.len()));
        before = m;
    }
    Ok(())
}

/// Whether block `h` spends an output of ours, of it or of an earlier block.
fn spends(hist: &History, h: usize) -> bool {
    let mut ours = HashSet::new();
    for b in &hist.blocks[..=h] {
        for tx in b {
            let txid = tx.txid();
            for (i, o) in tx.output.iter().enumerate() {
                if hist.watch.contains(&o.script_pubkey) {
                    ours.insert(OutPoint { txid, vout: i as u32 });
                }
            }
        }
    }
    hist.blocks[h].iter().any(|tx| tx.input.iter().any(|i| ours.contains(&i.previous_output)))
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "W01",
        rule: "distinct by history length, restarts, rescans and resulting balance",
        assumptions: &[
            "no hardware device is attached; addresses are in the database",
            "blocks aren't disconnected: the wallet doesn't undo blocks",
        ],
        level: "exploration",
        groups: vec![
            Group { name: "db", quick: 2_000, thorough: 60_000, threads: 0, run: w01_db },
            Group { name: "apply", quick: 3_000, thorough: 60_000, threads: 0, run: w01_apply },
            Group { name: "run", quick: 1_000, thorough: 20_000, threads: 0, run: w01_run },
        ],
    }]
}
