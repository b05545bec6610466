//! A01: the address book and the choice of addresses to connect to.
use std::collections::{BTreeMap, BTreeSet};
use std::net::{self, IpAddr};

use nakamoto_common::bitcoin::network::address::Address;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::NetworkMessage;
use nakamoto_common::block::time::{Clock, LocalDuration, LocalTime};
use nakamoto_common::p2p::peer::{KnownAddress, Source};
use nakamoto_common::p2p::Domain;
use nakamoto_net::Disconnect;
use nakamoto_p2p::fsm::{DisconnectReason, Event};
use nakamoto_p2p::{Command, PeerId};

use crate::check;
use crate::core::*;
use crate::mon::*;
use crate::msgs;
use crate::p2p::{finish, live, steps};
use crate::sim::*;
use crate::world::*;

const GROUP_SIZE: usize = 256;

fn preferred() -> ServiceFlags {
    ServiceFlags::NETWORK | ServiceFlags::COMPACT_FILTERS
}

/// The address group, as documented: the /16 of an IPv4 address, the /32 of an IPv6 one, in 255 buckets.
fn group(ip: &IpAddr) -> u32 {
    match ip {
        IpAddr::V4(a) => {
            let o = a.octets();
            (o[0] as u32 * 256 + o[1] as u32) % 255
        }
        IpAddr::V6(a) => {
            let s = a.segments();
            ((s[0] as u32) << 16 | s[1] as u32) % 255
        }
    }
}

/// Can the address be reached through the internet? (`None`: debatable.)
fn routable(ip: &IpAddr) -> Option<bool> {
    match ip {
        IpAddr::V4(a) => {
            let o = a.octets();
            match o {
                // The only two addresses of this range that are globally reachable.
                [192, 0, 0, 9 | 10] => Some(true),
                [192, 0, 0, _] => None,
                [0, ..] | [10, ..] | [127, ..] | [169, 254, ..] | [192, 168, ..] | [255, 255, 255, 255] => Some(false),
                [172, b, ..] if (16..32).contains(&b) => Some(false),
                [192, 0, 2, _] | [198, 51, 100, _] | [203, 0, 113, _] => Some(false),
                [100, b, ..] if (64..128).contains(&b) => None,
                [198, 18 | 19, ..] => None,
                [b, ..] if b >= 224 => None,
                _ => Some(true),
            }
        }
        IpAddr::V6(a) => {
            let s = a.segments();
            if a.is_unspecified() || a.is_loopback() || s[0] & 0xfe00 == 0xfc00 || s[0] & 0xffc0 == 0xfe80 || (s[0] == 0x2001 && s[1] == 0xdb8) {
                Some(false)
            } else if s[0] & 0xe000 == 0x2000 && s[0] != 0x2002 && !(s[0] == 0x2001 && s[1] < 0x200) {
                Some(true)
            } else {
                None
            }
        }
    }
}

/// A disconnection that says the peer isn't worth connecting to.
fn damning(r: &DisconnectReason) -> Option<bool> {
    match r {
        DisconnectReason::PeerMisbehaving(_)
        | DisconnectReason::PeerProtocolVersion(_)
        | DisconnectReason::PeerServices(_)
        | DisconnectReason::PeerMagic(_)
        | DisconnectReason::SelfConnection
        | DisconnectReason::DecodeError(_) => Some(true),
        DisconnectReason::PeerHeight(_) | DisconnectReason::PeerTimeout(_) | DisconnectReason::ConnectionLimit => Some(false),
        DisconnectReason::Command | DisconnectReason::Other(_) => None,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Heard {
    Peer,
    Import,
}

pub struct Addresses {
    links: Links,
    domains: Vec<Domain>,
    book: Book,
    /// IP addresses connected when the turn began.
    connected: BTreeSet<PeerId>,
    /// Chosen by the node itself: when last, and whether a handshake was completed since stored.
    attempted: BTreeMap<IpAddr, LocalTime>,
    succeeded: BTreeSet<IpAddr>,
    /// Ever dialed, connected, or the subject of a command.
    touched: BTreeSet<IpAddr>,
    banned: BTreeSet<IpAddr>,
    maybe_banned: BTreeSet<IpAddr>,
    locals: BTreeSet<PeerId>,
    // This turn.
    heard: Vec<(Heard, u32, Address, bool)>,
    dials: Vec<PeerId>,
    down: bool,
    negotiated: BTreeSet<IpAddr>,
}

impl Addresses {
    pub fn new(w: &World, domains: Vec<Domain>) -> Self {
        BOOK_OPS.with(|o| *o.borrow_mut() = Some(vec![]));
        Addresses {
            links: Links::default(),
            domains,
            book: w.book.get().clone(),
            connected: Default::default(),
            attempted: Default::default(),
            succeeded: Default::default(),
            touched: Default::default(),
            banned: Default::default(),
            maybe_banned: Default::default(),
            locals: Default::default(),
            heard: vec![],
            dials: vec![],
            down: false,
            negotiated: Default::default(),
        }
    }
}

impl Drop for Addresses {
    fn drop(&mut self) {
        BOOK_OPS.with(|o| *o.borrow_mut() = None);
    }
}

impl Monitor for Addresses {
    fn rec(&mut self, w: &World, t: LocalTime, r: &Rec, obs: &mut Obs) -> Res {
        match r {
            Rec::Down(a, Disconnect::StateMachine(reason)) if self.links.up(a).is_some() => {
                if routable(&a.ip()) == Some(true) {
                    match damning(reason) {
                        Some(true) => {
                            obs.inc("bans");
                            self.banned.insert(a.ip());
                        }
                        None => {
                            self.maybe_banned.insert(a.ip());
                        }
                        _ => obs.inc("disconnections that aren't held against the peer"),
                    }
                } else {
                    self.maybe_banned.insert(a.ip());
                }
            }
            _ => {}
        }
        self.links.rec(t, r);
        match r {
            Rec::Up(a, _) => {
                self.touched.insert(a.ip());
            }
            Rec::Down(..) | Rec::Drop(..) => self.down = true,
            Rec::In(a, NetworkMessage::Addr(v)) => {
                let ok = self.links.up(a).map_or(false, |l| l.negotiated) && (1..=1000).contains(&v.len());
                if !(1..=1000).contains(&v.len()) {
                    obs.inc("address messages of an improper size");
                } else {
                    obs.add("addresses heard", v.len() as u64);
                    self.heard.extend(v.iter().map(|(t, a)| (Heard::Peer, *t, a.clone(), ok)));
                }
            }
            Rec::Cmd(Act::ImportAddresses(v), _) => {
                self.heard.extend(v.iter().map(|a| (Heard::Import, 0, a.clone(), true)));
            }
            Rec::Cmd(Act::Connect(a) | Act::Disconnect(a), _) => {
                self.touched.insert(a.ip());
            }
            Rec::Ev(Event::PeerNegotiated { addr, receiver, .. }) => {
                self.negotiated.insert(addr.ip());
                self.succeeded.insert(addr.ip());
                if let Ok(a) = receiver.socket_addr() {
                    self.locals.insert(a);
                }
            }
            Rec::Dial(a) => {
                let ip = a.ip();
                check!(
                    self.domains.contains(&Domain::for_address(a)),
                    "dial-domain",
                    "connecting to {a}, but only {:?} are enabled",
                    self.domains
                );
                if !w.trusted.contains(&ip) && !w.persistent.contains(a) {
                    obs.inc("addresses chosen by the node");
                    let Some(ka) = self.book.get(&ip).or_else(|| w.book.get().get(&ip)) else {
                        return viol("dial-unknown", format!("connecting to {a}, which isn't in the address book"));
                    };
                    check!(
                        ka.addr.socket_addr().ok() == Some(*a),
                        "dial-other-port",
                        "connecting to {a}, but the book says {:?}",
                        ka.addr.socket_addr()
                    );
                    check!(!self.banned.contains(&ip), "dial-banned", "connecting to {a}, which was banned");
                    if let Some(c) = self.connected.iter().find(|c| c.ip() == ip) {
                        if self.links.up(c).is_some() && (routable(&ip) == Some(true) || c == a) {
                            return viol("dial-connected", format!("connecting to {a} while connected to {c}"));
                        }
                    }
                    if let Some(at) = self.attempted.get(&ip) {
                        check!(
                            self.succeeded.contains(&ip),
                            "dial-failed-before",
                            "connecting to {a} again; the attempt {:.0} s ago failed and none succeeded",
                            since(*at, t)
                        );
                        check!(
                            since(*at, t) >= 115.,
                            "dial-too-soon",
                            "connecting to {a} only {:.0} s after it was last chosen",
                            since(*at, t)
                        );
                        obs.inc("addresses chosen again");
                    }
                    self.attempted.insert(ip, t);
                    self.dials.push(*a);
                } else {
                    obs.inc("dials asked for by the user");
                }
            }
            _ => {}
        }
        Ok(())
    }

    fn turn(&mut self, w: &World, t: LocalTime, obs: &mut Obs) -> Res {
        let ops = BOOK_OPS.with(|o| o.borrow_mut().as_mut().map(std::mem::take)).unwrap_or_default();
        let changed = !ops.is_empty() || !self.heard.is_empty() || !self.negotiated.is_empty() || self.down;
        // An address without the required services is only chosen for want of a better one.
        let poor: Vec<_> = self
            .dials
            .iter()
            .filter(|a| !self.book.get(&a.ip()).map_or(true, |k| k.addr.services.has(w.required) || k.addr.services.has(preferred())))
            .copied()
            .collect();
        if !poor.is_empty() {
            obs.inc("last-resort choices");
            let better = self.book.iter().find(|(ip, k)| {
                k.addr.services.has(w.required)
                    && w.book.get().contains_key(ip)
                    && k.addr.socket_addr().map_or(false, |a| self.domains.contains(&Domain::for_address(&a)))
                    && !self.attempted.contains_key(ip)
                    && !self.touched.contains(ip)
                    && k.last_attempt.is_none()
                    && k.last_sampled.is_none()
            });
            if let Some((ip, k)) = better {
                return viol(
                    "dial-without-services",
                    format!("connecting to {} (no {} services), although {ip} ({}) was never tried", poor[0], w.required, k.addr.services),
                );
            }
        }
        if changed {
            let now = w.book.get();
            let removed: BTreeSet<IpAddr> = ops.iter().filter(|(i, _)| !i).map(|(_, ip)| *ip).collect();
            let mut groups: BTreeMap<u32, usize> = BTreeMap::new();
            for ip in now.keys() {
                *groups.entry(group(ip)).or_default() += 1;
            }
            for (g, n) in &groups {
                check!(*n <= GROUP_SIZE, "group-too-large", "{n} addresses in group {g}");
                if *n == GROUP_SIZE {
                    obs.inc("full groups seen");
                }
            }
            // What left.
            let mut before: BTreeMap<u32, usize> = BTreeMap::new();
            for ip in self.book.keys() {
                *before.entry(group(ip)).or_default() += 1;
            }
            for (ins, ip) in &ops {
                if *ins {
                    *before.entry(group(ip)).or_default() += 1;
                }
            }
            let gone: BTreeSet<IpAddr> = self.book.keys().filter(|ip| !now.contains_key(ip)).copied().collect();
            for ip in gone.iter().chain(&removed) {
                let n = before.get(&group(ip)).copied().unwrap_or(0);
                if self.banned.contains(ip) || self.maybe_banned.contains(ip) {
                    obs.inc("addresses removed by bans");
                } else {
                    check!(
                        n > GROUP_SIZE || !self.book.contains_key(ip),
                        "removed",
                        "{ip} left the book; it wasn't banned, and its group had only {n} addresses"
                    );
                    obs.inc("addresses evicted");
                }
                // A new entry starts from scratch.
                self.attempted.remove(ip);
                self.succeeded.remove(ip);
            }
            // What came, and what stayed.
            for (ip, ka) in now {
                check!(!self.banned.contains(ip), "banned-stored", "{ip} was banned but is in the book");
                match self.book.get(ip) {
                    Some(old) if !removed.contains(ip) => {
                        check!(
                            old.source == ka.source && old.addr.address == ka.addr.address && old.addr.port == ka.addr.port,
                            "overwritten",
                            "the entry of {ip} changed from {old:?} to {ka:?}"
                        );
                        check!(
                            old.addr.services == ka.addr.services || self.negotiated.contains(ip),
                            "services-changed",
                            "the services of {ip} changed from {} to {}",
                            old.addr.services,
                            ka.addr.services
                        );
                    }
                    _ => self.stored(w, t, ip, ka, obs)?,
                }
            }
            // What should have come.
            if !self.down {
                let full = |ip: &IpAddr| before.get(&group(ip)).copied().unwrap_or(0) > GROUP_SIZE;
                for (h, ts, a, ok) in &self.heard {
                    let Ok(sa) = a.socket_addr() else { continue };
                    let ip = sa.ip();
                    if *ok
                        && routable(&ip) == Some(true)
                        && self.domains.contains(&Domain::for_address(&sa))
                        && a.services.has(w.required)
                        && !a.services.has(ServiceFlags::BLOOM)
                        && !a.services.has(ServiceFlags::GETUTXO)
                        && (*h == Heard::Import || *ts > 0)
                        && (*ts as u64) < w.now.block_time() as u64 + 3600 - 65
                        && !self.banned.contains(&ip)
                        && !self.maybe_banned.contains(&ip)
                        && !self.locals.contains(&sa)
                        && !full(&ip)
                    {
                        obs.inc("eligible addresses heard");
                        check!(now.contains_key(&ip), "not-stored", "{sa} ({}, {ts}) was eligible but isn't in the book", a.services);
                    }
                }
            }
            for ip in &self.negotiated {
                if let (Some(k), true) = (now.get(ip), routable(ip) == Some(true)) {
                    check!(k.last_success.is_some() || removed.contains(ip), "no-success", "no success recorded for {ip}");
                }
            }
            obs.distinct((now.len() / 8, groups.len(), self.banned.len(), self.attempted.len()));
            self.book = now.clone();
        }
        self.connected = self.links.all_up().map(|(a, _)| *a).collect();
        self.links.turn();
        self.heard.clear();
        self.dials.clear();
        self.negotiated.clear();
        self.down = false;
        Ok(())
    }
}

impl Addresses {
    /// An address was stored.
    fn stored(&self, w: &World, _t: LocalTime, ip: &IpAddr, ka: &KnownAddress, obs: &mut Obs) -> Res {
        obs.inc("addresses stored");
        let matching: Vec<_> = self
            .heard
            .iter()
            .filter(|(_, _, a, _)| a.address == ka.addr.address && a.port == ka.addr.port)
            .filter(|(h, ..)| (*h == Heard::Import) == (ka.source == Source::Imported))
            .collect();
        check!(!matching.is_empty(), "stored-unheard", "{ip} was stored, but nobody mentioned it now ({ka:?})");
        check!(
            matching.iter().any(|(_, _, a, _)| a.services == ka.addr.services) || self.negotiated.contains(ip),
            "stored-services",
            "{ip} was stored with other services than announced: {}",
            ka.addr.services
        );
        let heard_fit = matching.iter().any(|(h, ts, a, _)| {
            (*h == Heard::Import || *ts > 0)
                && *ts as u64 <= w.now.block_time() as u64 + 3601
                && a.services.has(w.required)
                && !a.services.has(ServiceFlags::BLOOM)
                && !a.services.has(ServiceFlags::GETUTXO)
        });
        check!(heard_fit, "stored-ineligible", "{ip} was stored from {matching:?}");
        let sa = ka.addr.socket_addr();
        check!(
            sa.map_or(false, |a| a.ip() == *ip && self.domains.contains(&Domain::for_address(&a))),
            "stored-domain",
            "{ka:?} was stored for {ip}, with domains {:?}",
            self.domains
        );
        if ka.source != Source::Imported {
            check!(routable(ip) != Some(false), "stored-unroutable", "{ip} isn't routable but was stored");
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// Workload.

/// An address, of a kind chosen among many.
fn some_address(w: &World, rng: &fastrand::Rng, flood: (u8, u8)) -> Address {
    let port = *msgs::pick(&[8333, 8333, 18333, 0, 65535], rng);
    let v4 = |o: [u8; 4]| -> net::SocketAddr { (o, port).into() };
    let sa: net::SocketAddr = match rng.u8(0..20) {
        0..=4 => v4([flood.0, flood.1, rng.u8(..), rng.u8(..)]),
        5..=8 => v4([rng.u8(1..224), rng.u8(..), rng.u8(..), rng.u8(..)]),
        9 => v4(*msgs::pick(
            &[
                [192, 0, 0, 9], [192, 0, 0, 10], [10, 1, 2, 3], [127, 0, 0, 1], [172, 16, 0, 1], [172, 31, 255, 1], [172, 32, 0, 1], [192, 168, 1, 1], [169, 254, 3, 3],
                [0, 0, 0, 0], [0, 1, 2, 3], [255, 255, 255, 255], [192, 0, 2, 1], [198, 51, 100, 7], [203, 0, 113, 9], [11, 0, 0, 1],
            ],
            rng,
        )),
        10 => {
            let b: u128 = *msgs::pick(
                &[
                    0xfe80u128 << 112 | 1, 0xfc00u128 << 112 | 7, 0xfd12u128 << 112 | 7, 0x2001_0db8u128 << 96 | 3, 1, 0, 0xfebfu128 << 112 | 9,
                ],
                rng,
            );
            (net::Ipv6Addr::from(b), port).into()
        }
        11 | 12 => {
            let seg = *msgs::pick(&[0x2a01u16, 0x2600, 0x2400, 0x2a02], rng);
            (net::Ipv6Addr::new(seg, rng.u16(0..40), rng.u16(..), 0, 0, 0, 0, rng.u16(..)), port).into()
        }
        13 => (net::Ipv6Addr::new(0xfd87, 0xd87e, 0xeb43, rng.u16(..), 0, 0, 0, rng.u16(..)), port).into(),
        14 => w.local,
        15 | 16 => {
            // Peers that are or will be connected.
            let mut a = ip(rng.usize(0..60));
            if rng.u8(0..3) == 0 {
                a.set_port(rng.u16(..));
            }
            a
        }
        _ => {
            // Known already, maybe with another port.
            let b = w.book.get();
            if b.is_empty() {
                ip(rng.usize(0..60))
            } else {
                let k = b.values().nth(rng.usize(..b.len())).unwrap();
                let mut a = k.addr.socket_addr().unwrap_or_else(|_| ip(0));
                if rng.bool() {
                    a.set_port(port);
                }
                a
            }
        }
    };
    let services = match rng.u8(0..10) {
        0 => ServiceFlags::NONE,
        1 => ServiceFlags::NETWORK,
        2 => full() | ServiceFlags::BLOOM,
        3 => full() | ServiceFlags::GETUTXO,
        4 => ServiceFlags::from(rng.u64(0..2048)),
        _ => full(),
    };
    Address::new(&sa, services)
}

fn some_time(w: &World, rng: &fastrand::Rng) -> u32 {
    let now = w.now.block_time();
    match rng.u8(0..10) {
        0 => 0,
        1 => msgs::any_u32(rng),
        2 => now.saturating_add(rng.u32(3300..4200)),
        3 => now.saturating_add(rng.u32(0..3600)),
        4 => 1,
        _ => now.saturating_sub(rng.u32(0..1_000_000)),
    }
}

/// Decide how the addresses that were mentioned will behave when dialed.
fn give_lives(w: &mut World, addrs: impl Iterator<Item = PeerId>, rng: &fastrand::Rng) {
    for a in addrs {
        if w.specs.contains_key(&a) || w.specs.len() > 3000 {
            continue;
        }
        let mut s = Spec::honest(0, rng);
        s.kind = *msgs::pick(&[Kind::Honest, Kind::Silent, Kind::Silent, Kind::Mute, Kind::Dead], rng);
        s.dial = *msgs::pick(&[DialOutcome::Accept, DialOutcome::Accept, DialOutcome::Accept, DialOutcome::Refuse, DialOutcome::Hang, DialOutcome::Error], rng);
        if rng.u8(0..6) == 0 {
            s.services = ServiceFlags::from(rng.u64(0..2048));
        }
        if rng.u8(0..20) == 0 {
            s.version = 31800;
        }
        w.specs.insert(a, s);
    }
}

fn addresses(w: &mut World, rng: &fastrand::Rng, flood: (u8, u8)) -> Vec<(u32, Address)> {
    let n = match rng.u8(0..12) {
        0 => 0,
        1 => 1000,
        2 => 1001,
        3 | 4 => rng.usize(100..400),
        _ => rng.usize(1..30),
    };
    let only_flood = rng.u8(0..4) == 0;
    let v: Vec<(u32, Address)> = (0..n)
        .map(|_| {
            if only_flood {
                let sa: net::SocketAddr = ([flood.0, flood.1, rng.u8(..), rng.u8(..)], 8333).into();
                (w.now.block_time().saturating_sub(rng.u32(0..10000)), Address::new(&sa, full()))
            } else {
                (some_time(w, rng), some_address(w, rng, flood))
            }
        })
        .collect();
    let all: Vec<PeerId> = v.iter().filter_map(|(_, a)| a.socket_addr().ok()).collect();
    give_lives(w, all.into_iter(), rng);
    v
}

fn misbehave(w: &mut World, a: PeerId, rng: &fastrand::Rng) -> Res {
    match rng.u8(0..3) {
        0 => {
            let m = w.magic ^ 0x55;
            w.deliver_raw(a, m, NetworkMessage::Ping(1))
        }
        1 => {
            // A header without any work.
            let mut h = w.forest.borrow().nodes[0].block.header;
            h.prev_blockhash = h.block_hash();
            h.bits = 0x1d00_ffff;
            w.deliver(a, NetworkMessage::Headers(vec![h]))
        }
        _ => {
            let h = w.forest.borrow().nodes[0].block.header;
            w.deliver(a, NetworkMessage::Headers(vec![h; 2001]))
        }
    }
}

fn scenario(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier, crowded: bool) -> Res {
    let ch = chains(rng, rng.usize(0..4), 0, 1);
    let mut o = Opts::new(rng.usize(..ch.forest.borrow().nodes.len()));
    o.target_out = rng.usize(1..10);
    o.max_in = rng.usize(2..9);
    o.required = *msgs::pick(&[ServiceFlags::NETWORK, ServiceFlags::NETWORK, ServiceFlags::NONE, full()], rng);
    o.domains = msgs::pick(&[vec![Domain::IPV4], vec![Domain::IPV4], vec![Domain::IPV6], Domain::all(), Domain::all()], rng).clone();
    o.specs = assorted(rng, &ch, rng.usize(0..10), &[Kind::Honest, Kind::Silent, Kind::Mute, Kind::Dead]);
    for (_, s) in &mut o.specs {
        s.dial = *msgs::pick(&[DialOutcome::Accept, DialOutcome::Accept, DialOutcome::Refuse, DialOutcome::Hang, DialOutcome::Error], rng);
        if rng.u8(0..4) == 0 {
            s.services = ServiceFlags::from(rng.u64(0..2048));
        }
    }
    let domains = o.domains.clone();
    let flood = (rng.u8(20..70), rng.u8(..));
    if crowded {
        // More addresses on disk than a group may hold.
        for _ in 0..rng.usize(200..600) {
            let a: net::SocketAddr = ([flood.0, flood.1, rng.u8(..), rng.u8(..)], 8333).into();
            let mut s = Spec::honest(0, rng);
            s.kind = Kind::Silent;
            s.dial = *msgs::pick(&[DialOutcome::Accept, DialOutcome::Refuse], rng);
            o.specs.push((a, s));
        }
    }
    let mut w = build(rng, &ch, o)?;
    w.batch = 1;
    let mut m = Addresses::new(&w, domains.clone());
    let mut groups: BTreeMap<u32, usize> = BTreeMap::new();
    for ip in w.book.get().keys() {
        *groups.entry(group(ip)).or_default() += 1;
    }
    if let Some((g, n)) = groups.iter().find(|(_, n)| **n > GROUP_SIZE) {
        return viol("group-too-large", format!("{n} addresses in group {g} after loading"));
    }
    let n = steps(tier, rng, 120);
    let r = (|| -> Res {
        w.initialize()?;
        pump(&mut w, &mut [&mut m], obs)?;
        for _ in 0..n {
            let ready: Vec<PeerId> = m.links.all_up().filter(|(_, l)| l.negotiated).map(|(a, _)| *a).collect();
            w.tick()?;
            match rng.u8(0..16) {
                0..=4 if !ready.is_empty() => {
                    let a = *msgs::pick(&ready, rng);
                    let v = addresses(&mut w, rng, flood);
                    w.deliver(a, NetworkMessage::Addr(v))?;
                }
                5 => {
                    let v: Vec<Address> = addresses(&mut w, rng, flood).into_iter().take(50).map(|(_, a)| a).collect();
                    w.command(Command::ImportAddresses(v))?;
                }
                6 if !live(&w).is_empty() => {
                    let l = live(&w);
                    let a = *msgs::pick(&l, rng);
                    misbehave(&mut w, a, rng)?;
                }
                7 | 8 => {
                    let mut a = ip(rng.usize(0..60));
                    if rng.bool() && !domains.contains(&Domain::IPV4) {
                        a = (net::Ipv6Addr::new(0x2a01, rng.u16(0..40), 0, 0, 0, 0, 0, rng.u16(0..4)), 8333).into();
                    }
                    if rng.bool() {
                        a.set_port(rng.u16(1024..));
                    }
                    let mut s = Spec::honest(0, rng);
                    s.kind = *msgs::pick(&[Kind::Honest, Kind::Silent, Kind::Mute], rng);
                    w.accept(a, s)?;
                }
                9 if !live(&w).is_empty() => {
                    let l = live(&w);
                    w.close(*msgs::pick(&l, rng))?;
                }
                10 if rng.u8(0..3) == 0 => {
                    let a = ip(rng.usize(0..60));
                    give_lives(&mut w, std::iter::once(a), rng);
                    w.command(if rng.bool() { Command::Connect(a) } else { Command::Disconnect(a) })?;
                }
                _ => {
                    let horizon = w.now + LocalDuration::from_millis(*msgs::pick(&[0, 100, 3000, 15_000, 61_000, 61_000, 130_000, 400_000], rng));
                    for _ in 0..rng.usize(1..80) {
                        if !w.step(horizon)? {
                            break;
                        }
                        pump(&mut w, &mut [&mut m], obs)?;
                    }
                    continue;
                }
            }
            w.drain()?;
            pump(&mut w, &mut [&mut m], obs)?;
        }
        Ok(())
    })();
    drop(m);
    finish(&mut w, obs, r)
}

fn a01_book(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    scenario(rng, obs, tier, false)
}

fn a01_crowded(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    scenario(rng, obs, tier, true)
}

/// Among ten groups, one of which is crowded, none is drawn much more often than its share.
fn a01_fair(rng: &mut fastrand::Rng, obs: &mut Obs, _tier: Tier) -> Res {
    let ch = chains(rng, 0, 0, 1);
    let crowd = rng.usize(120..=GROUP_SIZE);
    let runs = 300;
    let (mut hits, mut total) = (0, 0);
    let v6 = rng.u8(0..3) == 0;
    let address = |g: usize, i: usize| -> PeerId {
        if v6 {
            (net::Ipv6Addr::new(0x2a01, g as u16, 0, 0, 0, 0, 0, i as u16 + 1), 8333).into()
        } else {
            ([31, g as u8, (i / 250) as u8, (i % 250) as u8 + 1], 8333).into()
        }
    };
    let heard = rng.bool();
    for _ in 0..runs {
        let mut o = Opts::new(0);
        o.target_out = 1;
        o.domains = Domain::all();
        let mut addrs: Vec<PeerId> = (0..crowd).map(|i| address(7, i)).collect();
        addrs.extend((0..9).map(|g| address(50 + g, 0)));
        let mut spec = Spec::honest(0, rng);
        spec.dial = DialOutcome::Refuse;
        if !heard {
            o.specs = addrs.iter().map(|a| (*a, spec.clone())).collect();
        }
        let mut w = build(rng, &ch, o)?;
        w.tracing = false;
        w.initialize()?;
        if heard {
            // The crowd pushes itself into the book. Flooding doesn't help either.
            w.command(Command::ImportAddresses(addrs.iter().map(|a| Address::new(a, full())).collect()))?;
            w.command(Command::ImportAddresses((0..400).map(|i| Address::new(&address(7, crowd + i), full())).collect()))?;
            w.drain()?;
            let h = w.now + LocalDuration::from_mins(2);
            while w.step(h)? {}
        }
        let first = w.log.iter().find_map(|(_, r)| if let Rec::Dial(a) = r { Some(*a) } else { None });
        let Some(first) = first else {
            return viol("no-dial", format!("no address was chosen out of {}", addrs.len()));
        };
        total += 1;
        if group(&first.ip()) == group(&address(7, 0).ip()) {
            hits += 1;
        }
    }
    obs.add("draws", total);
    obs.add("draws from the crowded group", hits);
    obs.distinct((crowd, v6, heard));
    check!(hits * 4 <= total, "crowded-out", "a group of {crowd} addresses among ten groups was drawn {hits} times out of {total}");
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "A01",
        rule: "distinct by size of the book, number of groups, bans and attempts",
        assumptions: &["the environment of the state machine (reactor, clock, peers) is simulated; its contract is that of net/poll"],
        level: "exploration",
        groups: vec![
            Group { name: "book", quick: 600, thorough: 30_000, threads: 0, run: a01_book },
            Group { name: "crowded", quick: 120, thorough: 6_000, threads: 0, run: a01_crowded },
            Group { name: "fair", quick: 8, thorough: 100, threads: 0, run: a01_fair },
        ],
    }]
}
