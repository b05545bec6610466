//! Random protocol messages: every kind, with arguments that are valid, near-valid or hostile.
use std::net;

use nakamoto_common::bitcoin::hash_types::{Txid, Wtxid};
use nakamoto_common::bitcoin::network::address::{AddrV2, AddrV2Message, Address};
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::{CommandString, NetworkMessage};
use nakamoto_common::bitcoin::network::message_blockdata::{GetBlocksMessage, GetHeadersMessage, Inventory};
use nakamoto_common::bitcoin::network::message_bloom::{BloomFlags, FilterAdd, FilterLoad};
use nakamoto_common::bitcoin::network::message_compact_blocks::SendCmpct;
use nakamoto_common::bitcoin::network::message_filter::*;
use nakamoto_common::bitcoin::network::message_network::{Reject, RejectReason, VersionMessage};
use nakamoto_common::bitcoin::{Block, BlockHeader, MerkleBlock, Transaction};
use nakamoto_common::bitcoin_hashes::{sha256d, Hash};
use nakamoto_common::block::filter::{FilterHash, FilterHeader};
use nakamoto_common::block::BlockHash;

use crate::blocks::{self, bytes, Forest};
use crate::chainmodel::mine;
use crate::stores::bytes32;

/// Material that messages may refer to.
pub struct Ctx<'a> {
    pub forest: &'a Forest,
    pub txs: &'a [Transaction],
    pub addrs: &'a [net::SocketAddr],
    pub now: u32,
}

pub fn pick<'a, T>(v: &'a [T], rng: &fastrand::Rng) -> &'a T {
    &v[rng.usize(..v.len())]
}

pub fn any_u32(rng: &fastrand::Rng) -> u32 {
    match rng.u8(0..6) {
        0 => 0,
        1 => u32::MAX,
        2 => rng.u32(0..4),
        3 => rng.u32(0..300),
        4 => rng.u32(1990..2010),
        _ => rng.u32(..),
    }
}

pub fn any_u64(rng: &fastrand::Rng) -> u64 {
    match rng.u8(0..5) {
        0 => 0,
        1 => u64::MAX,
        2 => i64::MAX as u64,
        _ => rng.u64(..),
    }
}

pub fn random_sockaddr(rng: &fastrand::Rng) -> net::SocketAddr {
    let port = match rng.u8(0..4) {
        0 => 0,
        1 => rng.u16(..),
        _ => 8333,
    };
    match rng.u8(0..8) {
        0 => ([127, 0, 0, rng.u8(..)], port).into(),
        1 => ([10, rng.u8(..), 0, 1], port).into(),
        2 => ([0, 0, 0, 0], port).into(),
        3 | 4 => (net::Ipv6Addr::from(rng.u128(..)), port).into(),
        5 => (net::Ipv6Addr::from(0x2001_0000_0000_0000_0000_0000_0000_0000u128 | rng.u128(..) >> 16), port).into(),
        _ => ([rng.u8(1..224), rng.u8(..), rng.u8(..), rng.u8(..)], port).into(),
    }
}

pub fn random_address(rng: &fastrand::Rng) -> Address {
    let services = match rng.u8(0..4) {
        0 => ServiceFlags::NONE,
        1 => ServiceFlags::from(rng.u64(..)),
        2 => ServiceFlags::NETWORK,
        _ => ServiceFlags::NETWORK | ServiceFlags::COMPACT_FILTERS,
    };
    if rng.u8(0..10) == 0 {
        // Raw 16-byte address, possibly not IPv4- or IPv6-like (eg. Tor).
        let mut a = [0u16; 8];
        for x in a.iter_mut() {
            *x = rng.u16(..);
        }
        if rng.bool() {
            a[0] = 0xFD87;
            a[1] = 0xD87E;
            a[2] = 0xEB43;
        }
        Address { services, address: a, port: rng.u16(..) }
    } else {
        Address::new(&random_sockaddr(rng), services)
    }
}

impl<'a> Ctx<'a> {
    pub fn hash(&self, rng: &fastrand::Rng) -> BlockHash {
        match rng.u8(0..8) {
            0 => BlockHash::from_slice(&bytes32(rng)).unwrap(),
            1 => BlockHash::all_zeros(),
            _ => pick(&self.forest.nodes, rng).hash,
        }
    }
    pub fn header(&self, rng: &fastrand::Rng) -> BlockHeader {
        let mut h = pick(&self.forest.nodes, rng).block.header;
        match rng.u8(0..6) {
            0 => h.nonce = rng.u32(..),
            1 => h.bits = rng.u32(..),
            2 => {
                h.time = rng.u32(..);
                if rng.bool() {
                    h = mine(h, true);
                }
            }
            3 => {
                h.prev_blockhash = self.hash(rng);
                h = mine(h, true);
            }
            _ => {}
        }
        h
    }
    pub fn txid(&self, rng: &fastrand::Rng) -> Txid {
        if self.txs.is_empty() || rng.u8(0..4) == 0 {
            Txid::from_slice(&bytes32(rng)).unwrap()
        } else {
            pick(self.txs, rng).txid()
        }
    }
    pub fn wtxid(&self, rng: &fastrand::Rng) -> Wtxid {
        if self.txs.is_empty() || rng.u8(0..4) == 0 {
            Wtxid::from_slice(&bytes32(rng)).unwrap()
        } else {
            pick(self.txs, rng).wtxid()
        }
    }
    pub fn tx(&self, rng: &fastrand::Rng) -> Transaction {
        if self.txs.is_empty() || rng.bool() {
            blocks::random_tx(rng)
        } else {
            pick(self.txs, rng).clone()
        }
    }
    pub fn block(&self, rng: &fastrand::Rng) -> Block {
        let mut b = pick(&self.forest.nodes, rng).block.clone();
        match rng.u8(0..6) {
            0 => {
                b.txdata.pop();
            }
            1 => b.txdata.push(self.tx(rng)),
            2 => b.header = self.header(rng),
            _ => {}
        }
        b
    }
    pub fn inventory(&self, rng: &fastrand::Rng) -> Inventory {
        match rng.u8(0..8) {
            0 => Inventory::Error,
            1 => Inventory::Transaction(self.txid(rng)),
            2 => Inventory::Block(self.hash(rng)),
            3 => Inventory::CompactBlock(self.hash(rng)),
            4 => Inventory::WTx(self.wtxid(rng)),
            5 => Inventory::WitnessTransaction(self.txid(rng)),
            6 => Inventory::WitnessBlock(self.hash(rng)),
            _ => Inventory::Unknown { inv_type: rng.u32(..), hash: bytes32(rng) },
        }
    }
    fn count(&self, rng: &fastrand::Rng, big: usize) -> usize {
        match rng.u8(0..8) {
            0 => 0,
            1 => big,
            2 => rng.usize(0..=big),
            _ => rng.usize(1..5),
        }
    }
    pub fn version(&self, rng: &fastrand::Rng) -> VersionMessage {
        VersionMessage {
            version: match rng.u8(0..6) {
                0 => any_u32(rng),
                1 => 70011,
                2 => 70012,
                _ => 70016,
            },
            services: match rng.u8(0..4) {
                0 => ServiceFlags::NONE,
                1 => ServiceFlags::from(rng.u64(..)),
                _ => ServiceFlags::NETWORK | ServiceFlags::COMPACT_FILTERS,
            },
            timestamp: match rng.u8(0..6) {
                0 => i64::MIN,
                1 => i64::MAX,
                2 => rng.i64(..),
                _ => self.now as i64 + rng.i64(-5000..5000),
            },
            receiver: random_address(rng),
            sender: random_address(rng),
            nonce: any_u64(rng),
            user_agent: match rng.u8(0..4) {
                0 => String::new(),
                1 => "x".repeat(rng.usize(0..2000)),
                _ => "/hostile:1.0/".to_owned(),
            },
            start_height: match rng.u8(0..5) {
                0 => i32::MIN,
                1 => i32::MAX,
                2 => -1,
                _ => rng.i32(0..300),
            },
            relay: rng.bool(),
        }
    }
    pub fn cfheaders(&self, rng: &fastrand::Rng) -> CFHeaders {
        let node = pick(&self.forest.nodes, rng);
        let chain = self.forest.chain(self.forest.index[&node.hash]);
        let start = rng.usize(0..chain.len());
        let prev = if start == 0 {
            FilterHeader::all_zeros()
        } else {
            self.forest.nodes[chain[start - 1]].fheader
        };
        let mut m = CFHeaders {
            filter_type: 0,
            stop_hash: node.hash,
            previous_filter_header: prev,
            filter_hashes: chain[start..].iter().map(|i| self.forest.nodes[*i].fhash).collect(),
        };
        match rng.u8(0..6) {
            0 => m.filter_type = rng.u8(..),
            1 => m.stop_hash = self.hash(rng),
            2 => m.previous_filter_header = FilterHeader::from_slice(&bytes32(rng)).unwrap(),
            3 => m.filter_hashes = (0..self.count(rng, 2001)).map(|_| FilterHash::from_slice(&bytes32(rng)).unwrap()).collect(),
            _ => {}
        }
        m
    }
    pub fn cfilter(&self, rng: &fastrand::Rng) -> CFilter {
        let node = pick(&self.forest.nodes, rng);
        let mut m = CFilter { filter_type: 0, block_hash: node.hash, filter: node.filter.content.clone() };
        match rng.u8(0..6) {
            0 => m.filter_type = rng.u8(..),
            1 => m.block_hash = self.hash(rng),
            2 => m.filter = bytes(rng, rng.usize(0..64)),
            3 => m.filter.clear(),
            _ => {}
        }
        m
    }

    /// Any message at all.
    pub fn message(&self, rng: &fastrand::Rng) -> NetworkMessage {
        use NetworkMessage as M;
        match rng.u8(0..40) {
            0 => M::Version(self.version(rng)),
            1 => M::Verack,
            2 => M::Addr((0..self.count(rng, 1001)).map(|_| (self.addr_time(rng), random_address(rng))).collect()),
            3 => M::Inv((0..self.count(rng, 2000)).map(|_| self.inventory(rng)).collect()),
            4 => M::GetData((0..self.count(rng, 2000)).map(|_| self.inventory(rng)).collect()),
            5 => M::NotFound((0..self.count(rng, 2000)).map(|_| self.inventory(rng)).collect()),
            6 => M::GetBlocks(GetBlocksMessage {
                version: any_u32(rng),
                locator_hashes: (0..self.count(rng, 101)).map(|_| self.hash(rng)).collect(),
                stop_hash: self.hash(rng),
            }),
            7 | 8 => M::GetHeaders(GetHeadersMessage {
                version: any_u32(rng),
                locator_hashes: (0..self.count(rng, 101)).map(|_| self.hash(rng)).collect(),
                stop_hash: self.hash(rng),
            }),
            9 => M::MemPool,
            10 => M::Tx(self.tx(rng)),
            11 | 12 => M::Block(self.block(rng)),
            13 => M::Headers((0..self.count(rng, 2001)).map(|_| self.header(rng)).collect()),
            14 | 15 => {
                // A run of consecutive headers.
                let tip = rng.usize(..self.forest.nodes.len());
                let hs = self.forest.headers(tip);
                let a = rng.usize(0..hs.len());
                let mut hs = hs[a..].to_vec();
                match rng.u8(0..5) {
                    0 => hs.reverse(),
                    1 => {
                        let i = rng.usize(..hs.len());
                        hs[i] = self.header(rng);
                    }
                    2 => {
                        let i = rng.usize(..hs.len());
                        hs.remove(i);
                    }
                    _ => {}
                }
                M::Headers(hs)
            }
            16 => M::SendHeaders,
            17 => M::GetAddr,
            18 => M::Ping(any_u64(rng)),
            19 => M::Pong(any_u64(rng)),
            20 => {
                let b = &pick(&self.forest.nodes, rng).block;
                let ids = b.txdata.iter().map(|t| t.txid()).collect::<Vec<_>>();
                M::MerkleBlock(MerkleBlock::from_header_txids_with_predicate(&b.header, &ids, |_| rng.bool()))
            }
            21 => M::FilterLoad(FilterLoad {
                filter: bytes(rng, rng.usize(0..100)),
                hash_funcs: any_u32(rng),
                tweak: rng.u32(..),
                flags: BloomFlags::All,
            }),
            22 => M::FilterAdd(FilterAdd { data: bytes(rng, rng.usize(0..600)) }),
            23 => M::FilterClear,
            24 => M::GetCFilters(GetCFilters {
                filter_type: if rng.u8(0..8) == 0 { rng.u8(..) } else { 0 },
                start_height: any_u32(rng),
                stop_hash: self.hash(rng),
            }),
            25 | 26 => M::CFilter(self.cfilter(rng)),
            27 | 28 => M::GetCFHeaders(GetCFHeaders {
                filter_type: if rng.u8(0..8) == 0 { rng.u8(..) } else { 0 },
                start_height: any_u32(rng),
                stop_hash: self.hash(rng),
            }),
            29 | 30 => M::CFHeaders(self.cfheaders(rng)),
            31 => M::GetCFCheckpt(GetCFCheckpt { filter_type: 0, stop_hash: self.hash(rng) }),
            32 => M::CFCheckpt(CFCheckpt {
                filter_type: 0,
                stop_hash: self.hash(rng),
                filter_headers: (0..self.count(rng, 50)).map(|_| FilterHeader::from_slice(&bytes32(rng)).unwrap()).collect(),
            }),
            33 => M::SendCmpct(SendCmpct { send_compact: rng.bool(), version: rng.u64(0..3) }),
            34 => M::Alert(bytes(rng, rng.usize(0..200))),
            35 => M::Reject(Reject {
                message: "tx".into(),
                ccode: RejectReason::Invalid,
                reason: "nope".into(),
                hash: sha256d::Hash::from_slice(&bytes32(rng)).unwrap(),
            }),
            36 => M::FeeFilter(rng.i64(..)),
            37 => {
                if rng.bool() {
                    M::WtxidRelay
                } else {
                    M::SendAddrV2
                }
            }
            38 => M::AddrV2(
                (0..self.count(rng, 100))
                    .map(|_| AddrV2Message {
                        time: self.addr_time(rng),
                        services: ServiceFlags::from(rng.u64(..)),
                        addr: match rng.u8(0..4) {
                            0 => AddrV2::Ipv4(net::Ipv4Addr::from(rng.u32(..))),
                            1 => AddrV2::Ipv6(net::Ipv6Addr::from(
                                0x2001_0db8_0000_0000_0000_0000_0000_0000u128 | rng.u64(..) as u128,
                            )),
                            2 => AddrV2::TorV3(bytes32(rng)),
                            _ => AddrV2::I2p(bytes32(rng)),
                        },
                        port: rng.u16(..),
                    })
                    .collect(),
            ),
            _ => M::Unknown {
                command: CommandString::try_from_static("whatever").unwrap(),
                payload: bytes(rng, rng.usize(0..100)),
            },
        }
    }

    pub fn addr_time(&self, rng: &fastrand::Rng) -> u32 {
        match rng.u8(0..5) {
            0 => any_u32(rng),
            1 => self.now.saturating_add(rng.u32(0..10_000)),
            _ => self.now.saturating_sub(rng.u32(0..100_000)),
        }
    }
}
