//! The client's service (byte streams) next to a bare state machine (whole messages): both must
//! produce the same outputs, however the bytes of all peers are cut and interleaved.
use std::borrow::Cow;
use std::collections::{BTreeMap, VecDeque};
use std::net;
use std::sync::Arc;

use nakamoto_chain::block::cache::BlockCache;
use nakamoto_chain::block::store::Memory;
use nakamoto_chain::filter::cache::{FilterCache, StoredHeader};
use nakamoto_client::verif::Service;
use nakamoto_common::bitcoin::consensus::encode::serialize;
use nakamoto_common::bitcoin::consensus::params::Params;
use nakamoto_common::bitcoin::network::message::{NetworkMessage, RawNetworkMessage};
use nakamoto_common::block::time::{AdjustedTime, Clock, LocalDuration, LocalTime, RefClock};
use nakamoto_common::network::Network;
use nakamoto_common::nonempty::NonEmpty;
use nakamoto_net::{Disconnect, Io, Link, StateMachine as _};
use nakamoto_p2p::stream::Decoder;
use nakamoto_p2p::{DisconnectReason, PeerId, StateMachine};

use crate::check;
use crate::core::*;
use crate::misc::{self, Frame};
use crate::msgs::{self, Ctx};
use crate::sim::*;
use crate::world::*;

type Parts = (Sh<Tree>, Sh<FilterChain>, Sh<Book>, Clk);

fn parts(ch: &Chains, start: LocalTime) -> Parts {
    let f = ch.forest.borrow();
    let g = f.nodes[0].block.header;
    let params = Params::new(Network::Regtest.into());
    let tree = BlockCache::new(Memory::new(NonEmpty::new(g)), params, &[]).unwrap().load().unwrap();
    let filters = FilterCache::load(Memory::new(NonEmpty::new(StoredHeader { hash: f.nodes[0].fhash, header: f.nodes[0].fheader }))).unwrap();
    (Sh::new(tree), Sh::new(filters), Sh::new(Book::new()), RefClock::from(AdjustedTime::<PeerId>::new(start)))
}

enum Item {
    Good(RawNetworkMessage),
    Bad,
}

struct Peer {
    shadow: Decoder,
    up: bool,
    /// Bytes not delivered yet.
    bytes: VecDeque<u8>,
    /// Frames not completely delivered: their remaining length.
    frames: VecDeque<(usize, Item)>,
}

impl Peer {
    fn push(&mut self, b: Vec<u8>, i: Item) {
        self.frames.push_back((b.len(), i));
        self.bytes.extend(b);
    }
    fn reset(&mut self) {
        self.up = false;
        self.shadow = Decoder::new(1024);
        self.bytes.clear();
        self.frames.clear();
    }
}

pub fn twin(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    run(rng, obs, tier, 3)
}

pub fn undecodable(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    run(rng, obs, tier, 25)
}

fn run(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier, bad_rate: u32) -> Res {
    let ch = chains(rng, rng.usize(1..12), 1, 2);
    let last = ch.forest.borrow().nodes.iter().map(|n| n.block.header.time).max().unwrap();
    let mut now = LocalTime::from_secs(last as u64 + 300);
    let seed = rng.u64(..);
    let cc = nakamoto_client::Config { network: Network::Regtest, ..nakamoto_client::Config::default() };
    let (t, f, b, c) = parts(&ch, now);
    let pc = nakamoto_p2p::Config {
        network: cc.network,
        domains: cc.domains.clone(),
        connect: cc.connect.clone(),
        user_agent: cc.user_agent,
        limits: cc.limits.clone(),
        services: cc.services,
        ..nakamoto_p2p::Config::default()
    };
    let mut fsm = StateMachine::new(t, f, b, c, fastrand::Rng::with_seed(seed), pc);
    let (t, f, b, c) = parts(&ch, now);
    let mut svc = Service::new(t, f, b, c, fastrand::Rng::with_seed(seed), cc);
    fsm.initialize(now);
    svc.initialize(now);

    let local: net::SocketAddr = ([99, 99, 99, 99], 8333).into();
    let addrs: Vec<PeerId> = (0..rng.usize(2..6)).map(|i| PeerId::new(ip(i).ip(), 40_000 + i as u16)).collect();
    let mut peers: BTreeMap<PeerId, Peer> = addrs.iter().map(|a| (*a, Peer { shadow: Decoder::new(1024), up: false, bytes: VecDeque::new(), frames: VecDeque::new() })).collect();
    let magic = Network::Regtest.magic();
    let raw = |m: NetworkMessage| RawNetworkMessage { magic, payload: m };

    for _ in 0..steps_of(tier, rng) {
        let a = *msgs::pick(&addrs, rng);
        let mut crossed = vec![];
        let mut bad_touched = false;
        let mut bad_done = false;
        let mut error = None;
        let p = peers.get_mut(&a).unwrap();
        match rng.u8(0..20) {
            0 => {
                now = now + LocalDuration::from_millis(*msgs::pick(&[10, 1000, 20_000, 130_000], rng));
                svc.tick(now);
                fsm.tick(now);
                guard("timer", || svc.timer_expired())?;
                fsm.timer_expired();
            }
            1 if p.up => {
                if !p.bytes.is_empty() {
                    obs.inc("streams cut in mid-message");
                }
                p.reset();
                let r = || Disconnect::ConnectionError(Arc::new(std::io::ErrorKind::UnexpectedEof.into()));
                svc.disconnected(&a, r());
                fsm.disconnected(&a, r());
            }
            _ if !p.up => {
                p.reset();
                p.up = true;
                svc.connected(a, &local, Link::Inbound);
                fsm.connected(a, &local, Link::Inbound);
                let s = Spec::honest(0, rng);
                let f = ch.forest.borrow();
                let v = nakamoto_common::bitcoin::network::message_network::VersionMessage {
                    version: 70016,
                    services: s.services,
                    timestamp: now.block_time() as i64,
                    receiver: nakamoto_common::bitcoin::network::address::Address::new(&local, full()),
                    sender: nakamoto_common::bitcoin::network::address::Address::new(&a, full()),
                    nonce: rng.u64(..),
                    user_agent: "/twin/".into(),
                    start_height: f.nodes.len() as i32,
                    relay: rng.bool(),
                };
                for m in [NetworkMessage::Version(v), NetworkMessage::Verack] {
                    let m = raw(m);
                    p.push(serialize(&m), Item::Good(m));
                }
                obs.inc("connections");
            }
            _ => {
                // More to send?
                if p.bytes.len() < 200 || rng.u8(0..8) == 0 {
                    let f = ch.forest.borrow();
                    let ctx = Ctx { forest: &f, txs: &[], addrs: &addrs, now: now.block_time() };
                    if rng.u32(0..100) < bad_rate {
                        if let Frame::Bad(b, what) = misc::frame(rng, &ctx, true, false, obs) {
                            if what != "oversized" {
                                p.push(b, Item::Bad);
                                obs.inc("malformed frames");
                            }
                        }
                    }
                    for _ in 0..rng.usize(1..5) {
                        let m = match rng.u8(0..6) {
                            0 => Some(raw(NetworkMessage::Ping(rng.u64(..)))),
                            1 => {
                                let h = f.headers(*msgs::pick(&ch.tips, rng));
                                Some(raw(NetworkMessage::Headers(h[1..].to_vec())))
                            }
                            2 => Some(raw(NetworkMessage::GetAddr)),
                            _ => None,
                        };
                        match m {
                            Some(m) => p.push(serialize(&m), Item::Good(m)),
                            None => {
                                if let Frame::Good(b, m) = misc::frame(rng, &ctx, false, rng.u8(0..10) == 0, obs) {
                                    // Wrong networks end the connection, rarely.
                                    if m.magic == magic || rng.u8(0..10) == 0 {
                                        p.push(b, Item::Good(m));
                                    }
                                }
                            }
                        }
                    }
                }
                let n = match rng.u8(0..6) {
                    0 => 1,
                    1 => rng.usize(1..24),
                    2 => p.frames.front().map_or(1, |f| f.0),
                    3 => p.bytes.len(),
                    4 => p.frames.front().map_or(1, |f| f.0 + rng.usize(0..30)),
                    _ => rng.usize(1..600),
                }
                .clamp(1, p.bytes.len().max(1))
                .min(p.bytes.len());
                let chunk: Vec<u8> = p.bytes.drain(..n).collect();
                let mut left = n;
                while left > 0 {
                    let (len, item) = p.frames.front_mut().unwrap();
                    if let Item::Bad = item {
                        bad_touched = true;
                    }
                    if left < *len {
                        *len -= left;
                        break;
                    }
                    left -= *len;
                    match p.frames.pop_front().unwrap().1 {
                        Item::Good(m) => crossed.push(m),
                        Item::Bad => {
                            bad_done = true;
                            break;
                        }
                    }
                }
                obs.inc("chunks");
                obs.add("messages sent", crossed.len() as u64);
                // Where the decoder stops is decided by the other groups of D01.
                p.shadow.input(&chunk);
                loop {
                    match p.shadow.decode_next::<RawNetworkMessage>() {
                        Ok(Some(_)) => {}
                        Ok(None) => break,
                        Err(e) => {
                            error = Some(Arc::new(e));
                            break;
                        }
                    }
                }
                guard("message_received", || svc.message_received(&a, Cow::Owned(chunk)))?;
            }
        }
        for m in crossed {
            fsm.message_received(&a, Cow::Owned(m));
        }
        if let Some(r) = &error {
            check!(bad_touched, "spurious decode error", "undecodable data from {a} ({r}): all it sent so far is well-formed");
            obs.inc("connections ended for undecodable data");
            fsm.disconnect(a, DisconnectReason::DecodeError(r.clone()));
        }
        let show = |o: &Io<Vec<u8>, nakamoto_p2p::Event, DisconnectReason>| match o {
            Io::Write(a, b) => format!("write {a} {} bytes {:x?}", b.len(), &b[4..b.len().min(60)]),
            Io::Event(e) => format!("event {e:?}"),
            Io::Connect(a) => format!("connect {a}"),
            Io::Disconnect(a, r) => format!("disconnect {a} {r}"),
            Io::SetTimer(d) => format!("timer {d}"),
        };
        // All outputs, in lockstep; the reactor reacts to them at once.
        let mut n = 0;
        loop {
            let got = guard("output", || svc.next())?;
            let want = fsm.next().map(|o| match o {
                Io::Write(a, m) => Io::Write(a, serialize(&m)),
                Io::Event(e) => Io::Event(e),
                Io::Connect(a) => Io::Connect(a),
                Io::Disconnect(a, r) => Io::Disconnect(a, r),
                Io::SetTimer(d) => Io::SetTimer(d),
            });
            let (x, y) = (got.as_ref().map(show), want.as_ref().map(show));
            if x != y {
                let cut = |s: Option<String>| s.map(|s| s.chars().take(300).collect::<String>());
                return viol(
                    "outputs differ",
                    format!(
                        "given byte streams, the service's output number {n} is {:?}; given the same messages one by one, the state machine's is {:?}",
                        cut(x),
                        cut(y)
                    ),
                );
            }
            let Some(o) = got else { break };
            n += 1;
            match o {
                Io::Connect(b) => {
                    // Nobody is there.
                    let r = || Disconnect::DialError(Arc::new(std::io::ErrorKind::ConnectionRefused.into()));
                    svc.attempted(&b);
                    fsm.attempted(&b);
                    svc.disconnected(&b, r());
                    fsm.disconnected(&b, r());
                }
                Io::Disconnect(b, r) if peers.get(&b).map_or(false, |p| p.up) => {
                    svc.disconnected(&b, Disconnect::StateMachine(r.clone()));
                    fsm.disconnected(&b, Disconnect::StateMachine(r));
                    peers.get_mut(&b).unwrap().reset();
                }
                _ => {}
            }
        }
        obs.add("outputs compared", n);
        if bad_done {
            check!(!peers[&a].up, "undecodable data tolerated", "{a} sent a malformed message and was not disconnected");
        }
        obs.distinct((peers.values().filter(|p| p.up).count(), peers[&a].bytes.len() % 64, n));
    }
    Ok(())
}

fn steps_of(tier: Tier, rng: &fastrand::Rng) -> usize {
    if tier == Tier::Quick {
        150
    } else {
        rng.usize(100..800)
    }
}
