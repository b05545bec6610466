//! Blocks, transactions and compact filters, generated independently of the code under test.
use std::collections::HashMap;
use std::rc::Rc;

use nakamoto_common::bitcoin::blockdata::transaction::{OutPoint, TxIn, TxOut};
use nakamoto_common::bitcoin::hash_types::{PubkeyHash, ScriptHash, TxMerkleNode, Txid, WPubkeyHash};
use nakamoto_common::bitcoin::util::bip158;
use nakamoto_common::bitcoin::{Block, BlockHeader, PackedLockTime, Script, Sequence, Transaction, Witness};
use nakamoto_common::bitcoin_hashes::Hash;
use nakamoto_common::block::filter::{BlockFilter, FilterHash, FilterHeader};
use nakamoto_common::block::{BlockHash, Height};
use nakamoto_common::network::Network;

use crate::chainmodel::mine;
use crate::stores::bytes32;

pub fn bytes(rng: &fastrand::Rng, n: usize) -> Vec<u8> {
    (0..n).map(|_| rng.u8(..)).collect()
}

pub fn script(rng: &fastrand::Rng) -> Script {
    let h = &bytes32(rng)[..20];
    match rng.u8(0..4) {
        0 => Script::new_p2pkh(&PubkeyHash::from_slice(h).unwrap()),
        1 => Script::new_p2sh(&ScriptHash::from_slice(h).unwrap()),
        2 => Script::new_v0_p2wpkh(&WPubkeyHash::from_slice(h).unwrap()),
        _ => Script::from({
            // Taproot-like output.
            let mut v = vec![0x51, 0x20];
            v.extend(bytes32(rng));
            v
        }),
    }
}

pub fn txin(previous_output: OutPoint, rng: &fastrand::Rng) -> TxIn {
    let n = rng.usize(0..40);
    TxIn {
        previous_output,
        script_sig: if rng.bool() { Script::new() } else { Script::from(bytes(rng, n)) },
        sequence: Sequence(rng.u32(..)),
        witness: if rng.bool() {
            Witness::new()
        } else {
            Witness::from_vec((0..rng.usize(1..3)).map(|_| bytes(rng, rng.usize(1..72))).collect())
        },
    }
}

pub fn tx(inputs: &[OutPoint], outputs: Vec<TxOut>, rng: &fastrand::Rng) -> Transaction {
    Transaction {
        version: rng.i32(1..3),
        lock_time: PackedLockTime(0),
        input: inputs.iter().map(|o| txin(*o, rng)).collect(),
        output: outputs,
    }
}

/// A transaction spending outputs nobody knows.
pub fn random_tx(rng: &fastrand::Rng) -> Transaction {
    let ins: Vec<_> = (0..rng.usize(1..4))
        .map(|_| OutPoint { txid: Txid::from_slice(&bytes32(rng)).unwrap(), vout: rng.u32(0..5) })
        .collect();
    let outs = (0..rng.usize(1..4))
        .map(|_| TxOut { value: rng.u64(1..100_000_000), script_pubkey: script(rng) })
        .collect();
    tx(&ins, outs, rng)
}

pub fn coinbase(height: Height, value: u64, script_pubkey: Script, rng: &fastrand::Rng) -> Transaction {
    let mut sig = vec![8u8];
    sig.extend(height.to_le_bytes());
    sig.extend(bytes(rng, 6));
    Transaction {
        version: 1,
        lock_time: PackedLockTime(0),
        input: vec![TxIn {
            previous_output: OutPoint::null(),
            script_sig: Script::from(sig),
            sequence: Sequence::MAX,
            witness: Witness::new(),
        }],
        output: vec![TxOut { value, script_pubkey }],
    }
}

/// Merkle root, computed here (rust-bitcoin's own helper is a dependency, not code under test).
pub fn merkle(txs: &[Transaction]) -> TxMerkleNode {
    let r = nakamoto_common::bitcoin::util::hash::bitcoin_merkle_root(txs.iter().map(|t| t.txid().as_hash()));
    r.map(TxMerkleNode::from_hash).unwrap_or_else(TxMerkleNode::all_zeros)
}

pub type Utxos = HashMap<OutPoint, TxOut>;

#[derive(Clone)]
pub struct Node {
    pub block: Block,
    pub hash: BlockHash,
    pub height: Height,
    pub parent: Option<usize>,
    pub filter: BlockFilter,
    pub fhash: FilterHash,
    pub fheader: FilterHeader,
    pub utxos: Rc<Utxos>,
}

/// A tree of real blocks with filters, all valid.
#[derive(Clone)]
pub struct Forest {
    pub network: Network,
    pub nodes: Vec<Node>,
    pub index: HashMap<BlockHash, usize>,
}

impl Forest {
    pub fn new(network: Network) -> Self {
        let block = network.genesis_block();
        let filter = BlockFilter::new_script_filter(&block, |_| -> Result<Script, bip158::Error> {
            unreachable!()
        })
        .unwrap();
        let fhash = FilterHash::hash(&filter.content);
        let fheader = fhash.filter_header(&FilterHeader::all_zeros());
        let hash = block.block_hash();
        let mut f = Forest { network, nodes: Vec::new(), index: HashMap::new() };
        f.index.insert(hash, 0);
        f.nodes.push(Node {
            block,
            hash,
            height: 0,
            parent: None,
            filter,
            fhash,
            fheader,
            utxos: Rc::new(HashMap::new()),
        });
        f
    }

    /// Mine a block with the given (non-coinbase) transactions on top of `parent`.
    pub fn extend(&mut self, parent: usize, mut txs: Vec<Transaction>, rng: &fastrand::Rng) -> usize {
        let p = &self.nodes[parent];
        let height = p.height + 1;
        txs.insert(0, coinbase(height, 5_000_000_000, script(rng), rng));

        let header = mine(
            BlockHeader {
                version: 1,
                prev_blockhash: p.hash,
                merkle_root: merkle(&txs),
                time: p.block.header.time + rng.u32(540..660),
                bits: 0x207fffff,
                nonce: rng.u32(..),
            },
            true,
        );
        let block = Block { header, txdata: txs };
        let mut utxos = p.utxos.clone();
        let mut spent = HashMap::new();
        if block.txdata.len() > 1 {
            let u = Rc::make_mut(&mut utxos);
            for tx in &block.txdata {
                if !tx.is_coin_base() {
                    for i in &tx.input {
                        if let Some(o) = u.remove(&i.previous_output) {
                            spent.insert(i.previous_output, o);
                        }
                    }
                }
                let txid = tx.txid();
                for (n, o) in tx.output.iter().enumerate() {
                    u.insert(OutPoint { txid, vout: n as u32 }, o.clone());
                }
            }
        } else if utxos.len() < 40 {
            let u = Rc::make_mut(&mut utxos);
            let txid = block.txdata[0].txid();
            u.insert(OutPoint { txid, vout: 0 }, block.txdata[0].output[0].clone());
        }
        let filter = BlockFilter::new_script_filter(&block, |o| {
            // Unknown outputs (only in adversarial blocks) get an empty script.
            Ok::<_, bip158::Error>(spent.get(o).map(|t| t.script_pubkey.clone()).unwrap_or_default())
        })
        .unwrap();
        let fhash = FilterHash::hash(&filter.content);
        let fheader = fhash.filter_header(&p.fheader);
        let hash = block.block_hash();
        let ix = self.nodes.len();
        self.index.insert(hash, ix);
        self.nodes.push(Node { block, hash, height, parent: Some(parent), filter, fhash, fheader, utxos });
        ix
    }

    /// A few transactions spending outputs known at `parent`, chained within the block at times.
    /// Some outputs pay to `pay` scripts.
    pub fn spends(&self, parent: usize, n: usize, pay: &[Script], rng: &fastrand::Rng) -> Vec<Transaction> {
        let mut avail: Vec<(OutPoint, u64)> =
            self.nodes[parent].utxos.iter().filter(|(_, v)| v.value < 1 << 50).map(|(k, v)| (*k, v.value)).collect();
        avail.sort();
        let mut txs = Vec::new();
        for _ in 0..n {
            if avail.is_empty() {
                break;
            }
            let mut ins = Vec::new();
            let mut value = 0;
            for _ in 0..rng.usize(1..4).min(avail.len()) {
                let (o, v) = avail.swap_remove(rng.usize(..avail.len()));
                ins.push(o);
                value += v;
            }
            if value < 10_000 {
                continue;
            }
            let k = rng.u64(1..4);
            let fee = if rng.u8(0..8) == 0 { 0 } else { rng.u64(0..value / 50) };
            let each = (value - fee) / k;
            let mut outs: Vec<TxOut> = (0..k)
                .map(|i| TxOut {
                    value: if i == 0 { value - fee - each * (k - 1) } else { each },
                    script_pubkey: if !pay.is_empty() && rng.u8(0..3) == 0 {
                        pay[rng.usize(..pay.len())].clone()
                    } else {
                        script(rng)
                    },
                })
                .collect();
            if rng.u8(0..5) == 0 {
                outs.push(TxOut { value: 0, script_pubkey: script(rng) });
            }
            let t = tx(&ins, outs, rng);
            if rng.u8(0..3) == 0 {
                let txid = t.txid();
                for (n, o) in t.output.iter().enumerate().filter(|(_, o)| o.value < 1 << 50) {
                    avail.push((OutPoint { txid, vout: n as u32 }, o.value));
                }
            }
            txs.push(t);
        }
        txs
    }

    /// Extend by `n` blocks with random activity; returns the new tip.
    pub fn grow(&mut self, mut tip: usize, n: usize, max_txs: usize, pay: &[Script], rng: &fastrand::Rng) -> usize {
        for _ in 0..n {
            let k = if max_txs == 0 { 0 } else { rng.usize(0..=max_txs) };
            let txs = if k == 0 { vec![] } else { self.spends(tip, k, pay, rng) };
            tip = self.extend(tip, txs, rng);
        }
        tip
    }

    /// Indices from genesis to `tip`.
    pub fn chain(&self, tip: usize) -> Vec<usize> {
        let mut v = vec![tip];
        let mut i = tip;
        while let Some(p) = self.nodes[i].parent {
            v.push(p);
            i = p;
        }
        v.reverse();
        v
    }

    pub fn headers(&self, tip: usize) -> Vec<BlockHeader> {
        self.chain(tip).iter().map(|i| self.nodes[*i].block.header).collect()
    }

    pub fn get(&self, h: &BlockHash) -> Option<&Node> {
        self.index.get(h).map(|i| &self.nodes[*i])
    }
}
