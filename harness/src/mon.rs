//! Online monitors over the record of everything that crosses the state machine's boundary.
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::NetworkMessage;
use nakamoto_common::bitcoin::network::message_network::VersionMessage;
use nakamoto_common::block::time::LocalTime;
use nakamoto_common::block::{BlockHash, BlockHeader, Height};
use nakamoto_p2p::{DisconnectReason, Event, Link, PeerId};

use crate::check;
use crate::core::*;
use crate::world::*;

pub trait Monitor {
    fn rec(&mut self, w: &World, t: LocalTime, r: &Rec, obs: &mut Obs) -> Res;
    /// All outputs of a turn were processed.
    fn turn(&mut self, _w: &World, _t: LocalTime, _obs: &mut Obs) -> Res {
        Ok(())
    }
    /// The scenario has ended, after a quiet period.
    fn end(&mut self, _w: &World, _obs: &mut Obs) -> Res {
        Ok(())
    }
}

/// Feed everything recorded since the last call to the monitors. Call it after every turn.
pub fn pump(w: &mut World, mons: &mut [&mut dyn Monitor], obs: &mut Obs) -> Res {
    let log = std::mem::take(&mut w.log);
    for (t, r) in &log {
        match r {
            Rec::Ev(_) => obs.inc("events observed"),
            Rec::In(..) => obs.inc("messages in"),
            Rec::Out(..) => obs.inc("messages out"),
            _ => {}
        }
        for m in mons.iter_mut() {
            m.rec(w, *t, r, obs)?;
        }
        if let Rec::Turn = r {
            obs.inc("turns");
            for m in mons.iter_mut() {
                m.turn(w, *t, obs)?;
            }
        }
    }
    Ok(())
}

/// Seconds between two times (zero if negative).
pub fn since(t: LocalTime, now: LocalTime) -> f64 {
    (millis(now) as f64 - millis(t) as f64) / 1000.
}

pub fn is_handshake(m: &NetworkMessage) -> bool {
    matches!(
        m,
        NetworkMessage::Version(_)
            | NetworkMessage::Verack
            | NetworkMessage::WtxidRelay
            | NetworkMessage::SendAddrV2
            | NetworkMessage::SendHeaders
    )
}

// ---------------------------------------------------------------------------------------------
// Connections, as the reactor sees them.

#[derive(Clone, Debug)]
pub struct Lk {
    pub link: Link,
    pub since: LocalTime,
    pub up: bool,
    pub version: Option<VersionMessage>,
    pub version_at: Option<LocalTime>,
    pub wtxid: bool,
    pub verack: bool,
    /// Reported as negotiated.
    pub negotiated: bool,
    pub negotiated_at: Option<LocalTime>,
    pub out: u64,
    pub sent_version: bool,
    pub sent_verack: bool,
    pub sent_nonce: Option<u64>,
    pub foreign: bool,
    pub foreign_first: bool,
    /// Why its version message is not acceptable (P02).
    pub bad: Option<&'static str>,
}

/// Tracks connections. `links[addr]` holds the connections that were up at some point in this turn,
/// oldest first.
#[derive(Default)]
pub struct Links {
    pub links: BTreeMap<PeerId, Vec<Lk>>,
    pub dialing: BTreeMap<PeerId, LocalTime>,
    /// Dials that ended in this turn.
    pub dialed: BTreeSet<PeerId>,
}

impl Links {
    pub fn up(&self, a: &PeerId) -> Option<&Lk> {
        self.links.get(a).and_then(|v| v.last()).filter(|l| l.up)
    }
    pub fn up_mut(&mut self, a: &PeerId) -> Option<&mut Lk> {
        self.links.get_mut(a).and_then(|v| v.last_mut()).filter(|l| l.up)
    }
    pub fn all_up(&self) -> impl Iterator<Item = (&PeerId, &Lk)> {
        self.links.iter().filter_map(|(a, v)| v.last().filter(|l| l.up).map(|l| (a, l)))
    }
    pub fn rec(&mut self, t: LocalTime, r: &Rec) {
        match r {
            Rec::Up(a, link) => {
                self.dialing.remove(a);
                self.links.entry(*a).or_default().push(Lk {
                    link: *link,
                    since: t,
                    up: true,
                    version: None,
                    version_at: None,
                    wtxid: false,
                    verack: false,
                    negotiated: false,
                    negotiated_at: None,
                    out: 0,
                    sent_version: false,
                    sent_verack: false,
                    sent_nonce: None,
                    foreign: false,
                    foreign_first: false,
                    bad: None,
                });
            }
            Rec::Dial(a) => {
                self.dialing.insert(*a, t);
            }
            Rec::Down(a, _) => {
                if let Some(l) = self.up_mut(a) {
                    l.up = false;
                }
                if self.dialing.remove(a).is_some() {
                    self.dialed.insert(*a);
                }
            }
            Rec::Foreign(a, _) => {
                if let Some(l) = self.up_mut(a) {
                    l.foreign_first |= !l.verack;
                    l.foreign = true;
                }
            }
            Rec::In(a, m) => {
                if let Some(l) = self.up_mut(a) {
                    match m {
                        NetworkMessage::Version(v) if l.version.is_none() => {
                            l.version = Some(v.clone());
                            l.version_at = Some(t);
                        }
                        NetworkMessage::WtxidRelay if l.version.is_some() && !l.verack => l.wtxid = true,
                        NetworkMessage::Verack if l.version.is_some() => l.verack = true,
                        _ => {}
                    }
                }
            }
            Rec::Out(a, m) => {
                if let Some(l) = self.up_mut(a) {
                    l.out += 1;
                    match m {
                        NetworkMessage::Version(v) => {
                            l.sent_version = true;
                            l.sent_nonce = Some(v.nonce);
                        }
                        NetworkMessage::Verack => l.sent_verack = true,
                        _ => {}
                    }
                }
            }
            Rec::Ev(Event::PeerNegotiated { addr, .. }) => {
                if let Some(l) =
                    self.links.get_mut(addr).and_then(|v| v.iter_mut().find(|l| l.version.is_some() && l.verack && !l.negotiated))
                {
                    l.negotiated = true;
                    l.negotiated_at = Some(t);
                }
            }
            _ => {}
        }
    }
    pub fn turn(&mut self) {
        for v in self.links.values_mut() {
            v.retain(|l| l.up);
        }
        self.links.retain(|_, v| !v.is_empty());
        self.dialed.clear();
    }
}

// ---------------------------------------------------------------------------------------------
// P02

#[derive(Default)]
pub struct Handshakes {
    pub k: Links,
    /// Addresses the user asked to connect to, so far.
    trusted: HashSet<std::net::IpAddr>,
}

impl Handshakes {
    /// Why this version message is not acceptable, if so.
    fn unacceptable(&self, w: &World, a: &PeerId, l: &Lk) -> Option<&'static str> {
        let v = l.version.as_ref()?;
        if v.version < 70012 {
            return Some("protocol version");
        }
        if l.link == Link::Outbound && !v.services.has(w.required) && !self.trusted.contains(&a.ip()) {
            return Some("services");
        }
        if l.link == Link::Inbound
            && self.k.all_up().any(|(_, o)| o.link == Link::Outbound && o.sent_nonce == Some(v.nonce))
        {
            return Some("self-connection");
        }
        None
    }
}

impl Monitor for Handshakes {
    fn rec(&mut self, w: &World, t: LocalTime, r: &Rec, obs: &mut Obs) -> Res {
        match r {
            Rec::Out(a, m) => {
                let Some(l) = self.k.up(a) else { return viol("tracking", format!("output to {a}, which is not up")) };
                if !(l.version.is_some() && l.verack) {
                    check!(
                        is_handshake(m),
                        "asked before handshake",
                        "{} sent to {a} before its handshake was complete",
                        brief(m)
                    );
                    obs.inc("handshake messages sent");
                }
                if l.link == Link::Outbound && l.out == 0 {
                    check!(matches!(m, NetworkMessage::Version(_)), "version first", "first message to {a} is {}", brief(m));
                }
                if l.link == Link::Inbound {
                    check!(l.version.is_some(), "inbound speaks first", "{} sent to {a} before its version", brief(m));
                }
                match m {
                    NetworkMessage::Version(v) => {
                        check!(!l.sent_version, "version twice", "second version to {a}");
                        check!(v.version == 70016, "version", "announced version {}", v.version);
                    }
                    NetworkMessage::Verack => {
                        check!(!l.sent_verack, "verack twice", "second verack to {a}");
                        check!(l.version.is_some(), "verack before version", "verack to {a} without version");
                    }
                    _ => {}
                }
            }
            Rec::Ev(Event::PeerNegotiated { addr, link, services, height, version, relay, wtxid_relay, user_agent, .. }) => {
                let l = self
                    .k
                    .links
                    .get(addr)
                    .and_then(|v| v.iter().find(|l| l.version.is_some() && l.verack && !l.negotiated));
                let Some(l) = l else {
                    return viol("negotiated without handshake", format!("{addr} was reported negotiated without a complete handshake, or twice"));
                };
                if let Some(why) = l.bad {
                    return viol("unacceptable negotiated", format!("{addr} was negotiated despite its {why}"));
                }
                let v = l.version.as_ref().unwrap();
                check!(!l.foreign_first, "foreign negotiated", "{addr} is from another network");
                check!(
                    *link == l.link
                        && *services == v.services
                        && *height == v.start_height.max(0) as Height
                        && *version == v.version.min(70016)
                        && *relay == v.relay
                        && *user_agent == v.user_agent
                        && *wtxid_relay == l.wtxid,
                    "negotiated details",
                    "negotiated event for {addr} does not match its version message: {link:?} {services} {height} {version} relay={relay} wtxid={wtxid_relay} vs {v:?} wtxid={}",
                    l.wtxid
                );
                obs.inc("negotiated");
            }
            Rec::Drop(a, reason) => {
                if let Some(l) = self.k.up(a) {
                    let bad = l.bad;
                    let age = since(l.version_at.unwrap_or(l.since), t);
                    let ok = match reason {
                        DisconnectReason::PeerProtocolVersion(_) => bad == Some("protocol version"),
                        DisconnectReason::PeerServices(_) => bad == Some("services"),
                        DisconnectReason::SelfConnection => bad == Some("self-connection"),
                        DisconnectReason::PeerMagic(_) => l.foreign,
                        DisconnectReason::PeerTimeout("handshake") => !l.verack && age > 10.9,
                        _ => true,
                    };
                    check!(ok, "wrong rejection", "{a} disconnected with '{reason}', age {age}, {l:?}");
                    obs.inc(match reason {
                        DisconnectReason::PeerProtocolVersion(_) => "rejected: version",
                        DisconnectReason::PeerServices(_) => "rejected: services",
                        DisconnectReason::SelfConnection => "rejected: self",
                        DisconnectReason::PeerMagic(_) => "rejected: network",
                        DisconnectReason::PeerTimeout("handshake") => "rejected: handshake timeout",
                        _ => "other disconnects",
                    });
                }
            }
            Rec::Cmd(Act::Connect(a), _) => {
                self.trusted.insert(a.ip());
            }
            _ => {}
        }
        let fresh = matches!(r, Rec::In(a, NetworkMessage::Version(_)) if self.k.up(a).map_or(false, |l| l.version.is_none()));
        self.k.rec(t, r);
        if let (true, Rec::In(a, _)) = (fresh, r) {
            let bad = self.k.up(a).and_then(|l| self.unacceptable(w, a, l));
            self.k.up_mut(a).unwrap().bad = bad;
            if bad.is_some() {
                obs.inc("unacceptable versions");
            }
        }
        Ok(())
    }

    fn turn(&mut self, _w: &World, t: LocalTime, obs: &mut Obs) -> Res {
        let states: Vec<_> = self
            .k
            .all_up()
            .map(|(_, l)| (l.link == Link::Inbound, l.version.is_some(), l.wtxid, l.verack, l.negotiated))
            .collect();
        obs.distinct(states);
        for (a, l) in self.k.all_up() {
            if let Some(why) = l.bad {
                return viol("unacceptable kept", format!("{a} is still connected despite its {why}"));
            }
            check!(!l.foreign, "foreign kept", "{a} sent a message of another network and is still connected");
            let done = l.version.is_some() && l.verack;
            if done {
                check!(l.negotiated, "not negotiated", "{a} completed the handshake but was not reported negotiated");
                check!(l.sent_version && l.sent_verack, "no version or verack sent", "{a} negotiated without our version and verack");
            } else {
                check!(since(l.since, t) < 40., "handshake never times out", "{a} has not completed the handshake since {}", since(l.since, t));
            }
        }
        self.k.turn();
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// P03

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Life {
    Connecting,
    Connected,
    Negotiated,
}

#[derive(Default)]
pub struct Lifecycle {
    pub k: Links,
    life: HashMap<PeerId, Life>,
    /// Connections that came up or ended, and not yet reported.
    ups: HashMap<PeerId, i32>,
    downs: HashMap<PeerId, i32>,
    /// Persistent peers: time of the last end of connection, consecutive failed attempts, if waiting.
    persistent: HashMap<PeerId, (LocalTime, u32)>,
    waiting: HashSet<PeerId>,
    /// The user issues `Connect` commands.
    pub user_connects: bool,
    pub max_out_seen: usize,
    pub down_this_turn: HashSet<PeerId>,
}

impl Monitor for Lifecycle {
    fn rec(&mut self, w: &World, t: LocalTime, r: &Rec, obs: &mut Obs) -> Res {
        match r {
            Rec::Up(a, _) => {
                *self.ups.entry(*a).or_default() += 1;
                if w.persistent.contains(a) {
                    self.persistent.insert(*a, (t, 0));
                    self.waiting.remove(a);
                }
            }
            Rec::Down(a, _) => {
                *self.downs.entry(*a).or_default() += 1;
                self.down_this_turn.insert(*a);
                if w.persistent.contains(a) {
                    let was_up = self.k.up(a).is_some();
                    let e = self.persistent.entry(*a).or_insert((t, 0));
                    e.0 = t;
                    if !was_up {
                        e.1 += 1;
                    } else {
                        e.1 = 0;
                    }
                    self.waiting.insert(*a);
                }
            }
            Rec::Dial(a) => {
                check!(self.k.up(a).is_none(), "dialed while connected", "{a} was dialed while connected");
                check!(!self.k.dialing.contains_key(a), "dialed while dialing", "{a} was dialed while a dial was in progress");
                obs.inc("dials");
                if self.waiting.remove(a) && !self.user_connects {
                    let (down, fails) = self.persistent[a];
                    // 1, 1, 2, 4, ... seconds, at most an hour; clocks have a resolution of a second.
                    let want = if fails == 0 { 1. } else { 2f64.powi((fails - 1).min(12) as i32).min(3600.) };
                    let got = since(down, t);
                    check!(
                        got >= want - 1.01,
                        "no back-off",
                        "persistent peer {a} was dialed {got} s after failure number {fails}, expected about {want} s"
                    );
                    obs.inc("persistent reconnections");
                    if fails > 3 {
                        obs.inc("backed-off reconnections");
                    }
                }
            }
            Rec::Lost(a, m) => {
                check!(
                    self.down_this_turn.contains(a),
                    "message to disconnected peer",
                    "{} was sent to {a}, which is not connected",
                    brief(m)
                );
                obs.inc("messages lost by a connection ending in the same turn");
            }
            Rec::Ev(e) => match e {
                Event::PeerConnecting { addr, .. } => {
                    check!(!self.life.contains_key(addr), "lifecycle", "connecting event for {addr} in state {:?}", self.life.get(addr));
                    self.life.insert(*addr, Life::Connecting);
                }
                Event::PeerConnected { addr, link, .. } => {
                    let n = self.ups.entry(*addr).or_default();
                    *n -= 1;
                    check!(*n >= 0, "connected event", "{addr} reported connected without a connection, or twice");
                    match self.life.get(addr) {
                        None | Some(Life::Connecting) => {}
                        s => return viol("lifecycle", format!("connected event for {addr} in state {s:?}")),
                    }
                    check!(
                        self.k.links.get(addr).map_or(false, |v| v.iter().any(|l| l.link == *link)),
                        "connected event",
                        "{addr} reported connected with the wrong direction"
                    );
                    self.life.insert(*addr, Life::Connected);
                    obs.inc("connected");
                }
                Event::PeerNegotiated { addr, .. } => {
                    check!(
                        self.life.get(addr) == Some(&Life::Connected),
                        "lifecycle",
                        "negotiated event for {addr} in state {:?}",
                        self.life.get(addr)
                    );
                    self.life.insert(*addr, Life::Negotiated);
                }
                Event::PeerDisconnected { addr, .. } => {
                    let n = self.downs.entry(*addr).or_default();
                    *n -= 1;
                    check!(*n >= 0, "disconnected event", "{addr} reported disconnected without a disconnection, or twice");
                    self.life.remove(addr);
                    obs.inc("disconnected");
                }
                Event::PeerConnectionFailed { addr, .. } => {
                    let n = self.downs.entry(*addr).or_default();
                    *n -= 1;
                    check!(*n >= 0, "failed event", "{addr} reported failed without a failure, or twice");
                    match self.life.get(addr) {
                        None | Some(Life::Connecting) => {}
                        s => return viol("lifecycle", format!("connection failed event for {addr} in state {s:?}")),
                    }
                    self.life.remove(addr);
                    obs.inc("failed");
                }
                _ => {}
            },
            _ => {}
        }
        self.k.rec(t, r);
        Ok(())
    }

    fn turn(&mut self, w: &World, t: LocalTime, obs: &mut Obs) -> Res {
        for (a, n) in self.ups.drain() {
            check!(n == 0, "connection not reported", "{a} connected but no event said so");
        }
        for (a, n) in self.downs.drain() {
            check!(n == 0, "disconnection not reported", "the connection to {a} ended or failed but no event said so");
        }
        let inbound = self.k.all_up().filter(|(_, l)| l.link == Link::Inbound).count();
        check!(inbound <= w.max_in, "too many inbound", "{inbound} inbound peers, the limit is {}", w.max_in);
        if inbound > 0 && inbound + 1 >= w.max_in {
            obs.inc("turns at the inbound limit");
        }
        let out = self.k.all_up().filter(|(_, l)| l.link == Link::Outbound).count() + self.k.dialing.len();
        self.max_out_seen = self.max_out_seen.max(out);
        if !self.user_connects && w.persistent.is_empty() {
            let max = w.target_out + w.target_out / 2;
            check!(out <= max, "too many outbound", "{out} outbound connections, the limit is {max}");
        }
        if !self.user_connects {
            for a in &self.waiting {
                let (down, fails) = self.persistent[a];
                let want = 2f64.powi(fails.min(12) as i32).min(3600.);
                check!(
                    since(down, t) < want + 5.,
                    "persistent peer given up",
                    "persistent peer {a} was not dialed for {} s after failure number {fails}",
                    since(down, t)
                );
            }
        }
        obs.distinct((inbound, out, self.k.dialing.len(), self.waiting.len()));
        self.down_this_turn.clear();
        self.k.turn();
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// P04

#[derive(Default)]
struct Pings {
    expected: Vec<u64>,
    outstanding: Option<(u64, LocalTime)>,
    /// Time at which the last ping was answered (or the peer was negotiated).
    quiet: Option<LocalTime>,
}

#[derive(Default)]
pub struct PingPong {
    pub k: Links,
    p: BTreeMap<PeerId, Pings>,
}

impl Monitor for PingPong {
    fn rec(&mut self, _w: &World, t: LocalTime, r: &Rec, obs: &mut Obs) -> Res {
        self.k.rec(t, r);
        match r {
            Rec::Up(a, _) => {
                self.p.insert(*a, Pings::default());
            }
            Rec::Down(a, _) => {
                self.p.remove(a);
            }
            Rec::In(a, m) => {
                let done = self.k.up(a).map_or(false, |l| l.version.is_some() && l.verack);
                let Some(p) = self.p.get_mut(a) else { return Ok(()) };
                match m {
                    NetworkMessage::Ping(n) if done => {
                        p.expected.push(*n);
                        obs.inc("pings received");
                    }
                    NetworkMessage::Pong(n) => {
                        if p.outstanding.map_or(false, |(o, _)| o == *n) {
                            p.outstanding = None;
                            p.quiet = Some(t);
                            obs.inc("pings answered by the peer");
                        } else {
                            obs.inc("stray pongs");
                        }
                    }
                    NetworkMessage::Verack if done && p.quiet.is_none() => p.quiet = Some(t),
                    _ => {}
                }
            }
            Rec::Out(a, m) => {
                let Some(p) = self.p.get_mut(a) else { return Ok(()) };
                match m {
                    NetworkMessage::Pong(n) => {
                        let i = p.expected.iter().position(|x| x == n);
                        let Some(i) = i else { return viol("unexpected pong", format!("pong {n:x} to {a} answers no ping")) };
                        p.expected.remove(i);
                        obs.inc("pongs sent");
                    }
                    NetworkMessage::Ping(n) => {
                        check!(p.outstanding.is_none(), "overlapping pings", "{a} was pinged while a ping was outstanding");
                        p.outstanding = Some((*n, t));
                        obs.inc("pings sent");
                    }
                    _ => {}
                }
            }
            Rec::Drop(a, DisconnectReason::PeerTimeout("ping")) => {
                if let Some(p) = self.p.get(a) {
                    let age = p.outstanding.map(|(_, s)| since(s, t));
                    check!(
                        age.map_or(false, |a| a >= 28.9),
                        "answered peer timed out",
                        "{a} was disconnected for a ping timeout, but its outstanding ping has age {age:?}"
                    );
                    obs.inc("ping timeouts");
                }
            }
            _ => {}
        }
        Ok(())
    }

    fn turn(&mut self, _w: &World, t: LocalTime, obs: &mut Obs) -> Res {
        let n = self.p.values().filter(|p| p.outstanding.is_some()).count();
        let ages: u64 = self.p.values().filter_map(|p| p.outstanding.or(p.quiet.map(|q| (0, q)))).map(|(_, s)| since(s, t) as u64 / 10).sum();
        obs.distinct((self.p.len(), n, ages));
        for (a, p) in &mut self.p {
            let Some(l) = self.k.up(a) else { continue };
            check!(p.expected.is_empty(), "ping not answered", "{} ping(s) from {a} were not answered", p.expected.len());
            if !(l.version.is_some() && l.verack) {
                continue;
            }
            if let Some((_, s)) = p.outstanding {
                check!(since(s, t) < 100., "dead peer kept", "{a} has not answered a ping for {} s", since(s, t));
            } else if let Some(q) = p.quiet {
                check!(since(q, t) < 190., "not pinged", "{a} was not pinged for {} s", since(q, t));
            }
        }
        self.k.turn();
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// P06

pub struct Fold {
    pub chain: Vec<BlockHash>,
    connected: Vec<(Height, BlockHeader)>,
    reverted: Vec<(Height, BlockHeader)>,
    turns: u64,
    last: BlockHash,
}

impl Fold {
    pub fn new(w: &World) -> Self {
        let chain = w.active();
        Fold { last: chain[0], chain, connected: vec![], reverted: vec![], turns: 0 }
    }
}

impl Monitor for Fold {
    fn rec(&mut self, _w: &World, _t: LocalTime, r: &Rec, obs: &mut Obs) -> Res {
        let Rec::Ev(e) = r else { return Ok(()) };
        match e {
            Event::BlockDisconnected { header, height } => {
                let tip = *self.chain.last().unwrap();
                check!(
                    self.connected.is_empty() && *height as usize == self.chain.len() - 1 && header.block_hash() == tip && *height > 0,
                    "disconnect order",
                    "disconnected {} at {height}, but the tip was {} at {}",
                    short(&header.block_hash()),
                    short(&tip),
                    self.chain.len() - 1
                );
                self.chain.pop();
                self.reverted.push((*height, *header));
                obs.inc("blocks disconnected");
            }
            Event::BlockConnected { header, height } => {
                let tip = *self.chain.last().unwrap();
                check!(
                    *height as usize == self.chain.len() && header.prev_blockhash == tip,
                    "connect order",
                    "connected {} at {height}, but the tip was {} at {}",
                    short(&header.block_hash()),
                    short(&tip),
                    self.chain.len() - 1
                );
                self.chain.push(header.block_hash());
                self.connected.push((*height, *header));
                obs.inc("blocks connected");
            }
            Event::BlockHeadersImported { hash, height, connected, reverted, reorg } => {
                check!(
                    *hash == *self.chain.last().unwrap() && *height as usize == self.chain.len() - 1,
                    "imported tip",
                    "imported event names {} at {height}, but the tip is {} at {}",
                    short(hash),
                    short(self.chain.last().unwrap()),
                    self.chain.len() - 1
                );
                let c: Vec<_> = connected.iter().cloned().collect();
                check!(
                    c == self.connected && *reverted == self.reverted && *reorg == !self.reverted.is_empty(),
                    "imported lists",
                    "imported event lists {} connected and {} reverted (reorg={reorg}), the events were {} and {}",
                    c.len(),
                    reverted.len(),
                    self.connected.len(),
                    self.reverted.len()
                );
                obs.inc("imports");
                if !self.reverted.is_empty() {
                    obs.inc("reorganisations");
                    obs.distinct(("reorg", self.reverted.len(), self.connected.len()));
                } else {
                    obs.distinct(("extend", self.connected.len(), self.chain.len()));
                }
                self.connected.clear();
                self.reverted.clear();
            }
            Event::BlockHeadersSynced { hash, height } => {
                check!(
                    self.chain.get(*height as usize) == Some(hash),
                    "synced event",
                    "synced event names {} at {height}, which is not on the active chain",
                    short(hash)
                );
                obs.inc("synced events");
            }
            _ => {}
        }
        Ok(())
    }

    fn turn(&mut self, w: &World, _t: LocalTime, _: &mut Obs) -> Res {
        check!(
            self.connected.is_empty() && self.reverted.is_empty(),
            "no imported event",
            "blocks were connected or disconnected without a headers-imported event"
        );
        // A tip that is unchanged leaves nothing to compare, except now and then.
        self.turns += 1;
        if self.turns % 64 > 0 && w.tree.get_tip() == Some(self.last) && self.chain.last() == Some(&self.last) {
            return Ok(());
        }
        let real = w.active();
        self.last = *real.last().unwrap();
        check!(
            real == self.chain,
            "events do not replay to the chain",
            "events fold to height {} tip {}, the active chain is at {} tip {}",
            self.chain.len() - 1,
            short(self.chain.last().unwrap()),
            real.len() - 1,
            short(real.last().unwrap())
        );
        Ok(())
    }
}

pub fn has(s: ServiceFlags, f: ServiceFlags) -> bool {
    s.has(f)
}
