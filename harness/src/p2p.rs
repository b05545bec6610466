//! P02-P06: monitors on the real protocol state machine in simulated networks.
use std::collections::{BTreeMap, BTreeSet};

use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::NetworkMessage;
use nakamoto_common::bitcoin_hashes::Hash;
use nakamoto_common::block::filter::Filters;
use nakamoto_common::block::time::{Clock, LocalDuration, LocalTime};
use nakamoto_common::block::BlockHash;
use nakamoto_p2p::{Command, Event, Link, PeerId};

use crate::check;
use crate::core::*;
use crate::mon::*;
use crate::msgs;
use crate::sim::*;
use crate::world::*;

/// Relative frequencies of what happens besides what remotes do on their own.
#[derive(Clone, Copy)]
pub struct Mix {
    pub hostile: u32,
    pub foreign: u32,
    pub handshake: u32,
    pub accept: u32,
    pub close: u32,
    pub advance: u32,
    pub grow: u32,
    pub command: u32,
    pub connect: u32,
    pub selfconn: u32,
    pub import: u32,
    /// Kinds of the inbound peers.
    pub kinds: &'static [Kind],
}

pub const CALM: Mix = Mix {
    hostile: 0,
    foreign: 0,
    handshake: 0,
    accept: 2,
    close: 1,
    advance: 6,
    grow: 2,
    command: 0,
    connect: 0,
    selfconn: 0,
    import: 0,
    kinds: &[Kind::Honest],
};

pub fn live(w: &World) -> Vec<PeerId> {
    w.conns.iter().filter(|(_, c)| c.state == ConnState::Connected).map(|(a, _)| *a).collect()
}

/// An honest remote moves to a tip with strictly more work than its own.
pub fn advance(w: &mut World, ch: &mut Chains, rng: &fastrand::Rng) {
    let honest: Vec<_> =
        w.conns.iter().filter(|(_, c)| c.spec.kind == Kind::Honest && c.state == ConnState::Connected).map(|(a, _)| *a).collect();
    if honest.is_empty() {
        return;
    }
    let a = *msgs::pick(&honest, rng);
    let old = w.conns[&a].spec.tip;
    let h = ch.forest.borrow().nodes[old].height;
    let better: Vec<usize> = ch.tips.iter().copied().filter(|t| ch.forest.borrow().nodes[*t].height > h).collect();
    if better.is_empty() {
        return;
    }
    let t = *msgs::pick(&better, rng);
    w.advance_remote(a, t, rng.u8(0..4) == 0);
}

/// A new block or branch is mined somewhere. Block times must stay below the current time.
pub fn grow(w: &World, ch: &mut Chains, rng: &fastrand::Rng) {
    let mut f = ch.forest.borrow_mut();
    let i = rng.usize(..ch.tips.len());
    let base = ch.tips[i];
    let chain = f.chain(base);
    let back = if rng.u8(0..3) == 0 { rng.usize(0..chain.len().min(5)) } else { 0 };
    let from = chain[chain.len() - 1 - back];
    let n = back + rng.usize(1..4);
    let last = f.nodes[from].block.header.time + n as u32 * 660;
    if last > w.now.block_time() + 3600 {
        return;
    }
    let t = f.grow(from, n, 2, &ch.scripts, rng);
    drop(f);
    if back == 0 {
        ch.tips[i] = t;
    } else {
        ch.tips.push(t);
    }
}

pub fn inbound_addr(w: &World, rng: &fastrand::Rng) -> PeerId {
    let mut a = ip(rng.usize(0..40));
    if rng.bool() || w.persistent.contains(&a) {
        a.set_port(rng.u16(1024..));
    }
    if rng.u8(0..4) == 0 {
        a = msgs::random_sockaddr(rng);
    }
    a
}

pub fn op(
    w: &mut World,
    ch: &mut Chains,
    mix: &Mix,
    rng: &fastrand::Rng,
    obs: &mut Obs,
    mons: &mut [&mut dyn Monitor],
    command: &mut dyn FnMut(&World, &Chains, &fastrand::Rng) -> Option<Command>,
) -> Res {
    let l = live(w);
    let mut choices: Vec<(u32, u8)> = vec![(mix.accept, 3), (mix.grow, 6), (mix.command, 7), (mix.connect, 8), (mix.selfconn, 9), (mix.import, 10)];
    if !l.is_empty() {
        choices.extend([(mix.hostile, 0), (mix.foreign, 1), (mix.handshake, 2), (mix.close, 4), (mix.advance, 5)]);
    }
    let total: u32 = choices.iter().map(|c| c.0).sum();
    if total == 0 {
        return Ok(());
    }
    let mut x = rng.u32(..total);
    let k = choices
        .iter()
        .find(|c| {
            if x < c.0 {
                true
            } else {
                x -= c.0;
                false
            }
        })
        .unwrap()
        .1;
    match k {
        0 => {
            let bad: Vec<_> = l.iter().copied().filter(|a| w.conns[a].spec.kind != Kind::Honest).collect();
            if bad.is_empty() {
                return Ok(());
            }
            let a = *msgs::pick(&bad, rng);
            let m = w.hostile_message();
            obs.inc("hostile messages");
            w.deliver(a, m)
        }
        1 => {
            let a = *msgs::pick(&l, rng);
            let m = w.hostile_message();
            w.deliver_raw(a, w.magic ^ rng.u32(1..), m)
        }
        2 => {
            let a = *msgs::pick(&l, rng);
            if w.conns[&a].spec.kind == Kind::Honest {
                return Ok(());
            }
            let mut s = w.conns[&a].spec.clone();
            s.nonce = rng.u64(..);
            let v = w.version_of(&s, a);
            for _ in 0..rng.usize(1..4) {
                match rng.u8(0..5) {
                    0 | 1 => w.deliver(a, NetworkMessage::Version(v.clone()))?,
                    2 => w.deliver(a, NetworkMessage::WtxidRelay)?,
                    3 => w.deliver(a, NetworkMessage::SendAddrV2)?,
                    _ => w.deliver(a, NetworkMessage::Verack)?,
                }
            }
            Ok(())
        }
        3 => {
            let a = inbound_addr(w, rng);
            let mut s = Spec::honest(*msgs::pick(&ch.tips, rng), rng);
            s.kind = *msgs::pick(mix.kinds, rng);
            s.relay = rng.u8(0..3) > 0;
            s.pings = rng.u32(0..2);
            if rng.u8(0..4) == 0 {
                s.services = ServiceFlags::from(rng.u64(0..2048));
            }
            if s.kind != Kind::Honest && rng.u8(0..3) == 0 {
                s.version = *msgs::pick(&[0, 60001, 70011, 70012, 70013, 70015, 80000], rng);
            }
            // The reactor keeps one socket per address: an inbound connection from the exact address
            // being dialed in the same turn is out of scope.
            w.drain()?;
            pump(w, mons, obs)?;
            w.accept(a, s)
        }
        4 => {
            let a = *msgs::pick(&l, rng);
            w.close(a)
        }
        5 => {
            advance(w, ch, rng);
            Ok(())
        }
        6 => {
            grow(w, ch, rng);
            Ok(())
        }
        7 => {
            if let Some(c) = command(w, ch, rng) {
                obs.inc("commands");
                return w.command(c);
            }
            Ok(())
        }
        8 => {
            let known: Vec<_> = w.specs.keys().copied().collect();
            let a = if known.is_empty() || rng.u8(0..8) == 0 { ip(rng.usize(60..70)) } else { *msgs::pick(&known, rng) };
            if rng.u8(0..3) == 0 && !l.is_empty() {
                let any: Vec<_> = w.conns.keys().copied().collect();
                let a = *msgs::pick(&any, rng);
                return w.command(Command::Disconnect(a));
            }
            w.command(Command::Connect(a))
        }
        9 => {
            // Our own connection, seen from the other side.
            let nonces: Vec<u64> = w.conns.values().filter(|c| c.link == Link::Outbound).filter_map(|c| c.their_nonce).collect();
            if nonces.is_empty() {
                return Ok(());
            }
            let mut s = Spec::honest(ch.tips[0], rng);
            s.nonce = *msgs::pick(&nonces, rng);
            let a = inbound_addr(w, rng);
            obs.inc("self connections");
            w.drain()?;
            pump(w, mons, obs)?;
            w.accept(a, s)
        }
        _ => {
            let f = ch.forest.borrow();
            let tip = if rng.bool() { *msgs::pick(&ch.tips, rng) } else { rng.usize(..f.nodes.len()) };
            let chain = f.headers(tip);
            let from = if rng.bool() { 0 } else { rng.usize(..chain.len()) };
            let mut hs = chain[from..].to_vec();
            if rng.u8(0..3) == 0 {
                let tip = *msgs::pick(&ch.tips, rng);
                hs.extend(f.headers(tip));
            }
            if rng.u8(0..3) == 0 && !hs.is_empty() {
                let i = rng.usize(..hs.len());
                hs[i].nonce ^= 1 + rng.u32(..7);
            }
            if rng.u8(0..6) == 0 {
                rng.shuffle(&mut hs);
            }
            drop(f);
            obs.inc("header imports by the user");
            w.command(Command::ImportHeaders(hs, crossbeam_channel::unbounded().0))
        }
    }
}

/// Let time pass until `d` from now.
pub fn settle(w: &mut World, d: LocalDuration, mons: &mut [&mut dyn Monitor], obs: &mut Obs) -> Res {
    let limit = w.now + d;
    let mut n = 0u64;
    while w.step(limit)? {
        pump(w, mons, obs)?;
        n += 1;
        check!(n < 400_000, "livelock", "the network never becomes quiet: {n} steps within {d}");
    }
    w.tick()?;
    w.drain()?;
    pump(w, mons, obs)
}

pub struct Plan {
    pub steps: usize,
    pub mix: Mix,
    pub horizons: &'static [u128],
    pub quiet: u64,
}

pub type Cmds<'a> = &'a mut dyn FnMut(&World, &Chains, &fastrand::Rng) -> Option<Command>;

pub fn drive(
    w: &mut World,
    ch: &mut Chains,
    plan: &Plan,
    rng: &fastrand::Rng,
    obs: &mut Obs,
    mons: &mut [&mut dyn Monitor],
    command: Cmds,
) -> Res {
    w.initialize()?;
    pump(w, mons, obs)?;
    for _ in 0..plan.steps {
        if rng.u8(0..3) > 0 {
            let horizon = w.now + LocalDuration::from_millis(*msgs::pick(plan.horizons, rng));
            for _ in 0..rng.usize(1..16) {
                if !w.step(horizon)? {
                    break;
                }
                pump(w, mons, obs)?;
            }
        } else {
            w.tick()?;
            let k = if w.batch == 1 { 1 } else { rng.usize(1..=w.batch.min(4)) };
            for _ in 0..k {
                op(w, ch, &plan.mix, rng, obs, mons, command)?;
            }
            if rng.u8(0..8) == 0 {
                w.timer()?;
            }
            w.drain()?;
            pump(w, mons, obs)?;
        }
    }
    settle(w, secs(plan.quiet), mons, obs)?;
    for m in mons.iter_mut() {
        m.end(w, obs)?;
    }
    Ok(())
}

pub fn finish(w: &mut World, obs: &mut Obs, r: Res) -> Res {
    if r.is_err() {
        obs.trace.append(&mut w.trace);
    }
    obs.add("outputs", w.outputs);
    r
}

pub const H: &[u128] = &[0, 10, 1000, 5000, 15_000, 61_000];
pub const HL: &[u128] = &[0, 1000, 15_000, 61_000, 700_000];

pub fn no_commands(_: &World, _: &Chains, _: &fastrand::Rng) -> Option<Command> {
    None
}

/// Any command that doesn't put words in the node's mouth.
pub fn some_command(w: &World, ch: &Chains, rng: &fastrand::Rng) -> Option<Command> {
    match random_command(w, ch, rng) {
        Command::Broadcast(..) | Command::Connect(_) | Command::Disconnect(_) => None,
        c => Some(c),
    }
}

pub fn steps(tier: Tier, rng: &fastrand::Rng, n: usize) -> usize {
    if tier == Tier::Quick {
        n
    } else {
        rng.usize(n / 2..n * 4)
    }
}

/// A varied network.
pub fn network(rng: &fastrand::Rng, len: usize, forks: usize, peers: usize, kinds: &[Kind]) -> (Chains, Opts) {
    let ch = chains(rng, len, forks, 2);
    let all = ch.forest.borrow().nodes.len();
    let mut o = Opts::new(if rng.bool() { 0 } else { rng.usize(..all) });
    let h = ch.forest.borrow().nodes[o.known].height;
    o.known_filters = if rng.bool() { h } else { rng.u64(0..=h) };
    o.target_out = rng.usize(1..6);
    o.max_in = rng.usize(2..7);
    o.age = *msgs::pick(&[0, 300, 7200], rng);
    o.specs = assorted(rng, &ch, peers, kinds);
    (ch, o)
}

const ALL: &[Kind] =
    &[Kind::Honest, Kind::Honest, Kind::Honest, Kind::Hostile, Kind::Silent, Kind::Dead, Kind::Mute, Kind::HalfMute, Kind::Puppet];

// ---------------------------------------------------------------------------------------------
// P02

fn p02_mixed(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let (mut ch, mut o) = network(rng, rng.usize(1..30), 2, rng.usize(2..14), ALL);
    for (_, s) in &mut o.specs {
        s.dial = *msgs::pick(&[DialOutcome::Accept, DialOutcome::Accept, DialOutcome::Accept, DialOutcome::Refuse, DialOutcome::Hang], rng);
        s.version = *msgs::pick(&[70016, 70016, 70016, 70016, 70012, 70011, 0, 31800, 70013, 90000], rng);
        if rng.u8(0..3) == 0 {
            s.services = ServiceFlags::from(rng.u64(0..2048));
        }
        s.wtxid = rng.bool();
        s.relay = rng.bool();
        if rng.u8(0..5) == 0 {
            s.claim = Some(*msgs::pick(&[-1, i32::MIN, i32::MAX, 7], rng));
        }
    }
    // Addresses in the book claim the right services, the peers don't always have them.
    o.required = *msgs::pick(&[ServiceFlags::NETWORK, ServiceFlags::NETWORK, ServiceFlags::NONE, full()], rng);
    let specs = o.specs.clone();
    for (_, s) in &mut o.specs {
        s.services = full();
    }
    let connects = rng.u8(0..3) == 0;
    let mut w = build(rng, &ch, o)?;
    w.specs = specs.into_iter().collect();
    let mut m = Handshakes::default();
    let plan = Plan {
        steps: steps(tier, rng, 120),
        mix: Mix {
            hostile: 10,
            foreign: 2,
            handshake: 8,
            accept: 8,
            close: 2,
            advance: 1,
            connect: if connects { 4 } else { 0 },
            selfconn: 3,
            kinds: ALL,
            ..CALM
        },
        horizons: H,
        quiet: 120,
    };
    let r = drive(&mut w, &mut ch, &plan, rng, obs, &mut [&mut m], &mut no_commands);
    finish(&mut w, obs, r)
}

/// Messages that aren't part of the handshake have no effect before it's complete.
fn p02_early(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let (mut ch, mut o) = network(rng, rng.usize(1..30), 2, 6, &[Kind::Honest, Kind::Honest, Kind::Puppet]);
    o.max_in = 8;
    let mut w = build(rng, &ch, o)?;
    w.batch = 1;
    let mut m = Handshakes::default();
    let plan = Plan { steps: 30, mix: Mix { ..CALM }, horizons: H, quiet: 1, };
    let r = drive(&mut w, &mut ch, &plan, rng, obs, &mut [&mut m], &mut some_command).and_then(|_| {
        for _ in 0..steps(tier, rng, 25) {
            // A fresh inbound peer (or a puppet we dialed).
            let a = PeerId::from(([80, rng.u8(1..), rng.u8(..), rng.u8(1..)], rng.u16(1024..)));
            if w.conns.contains_key(&a) {
                continue;
            }
            let mut s = Spec::honest(ch.tips[0], rng);
            s.kind = Kind::Puppet;
            w.tick()?;
            w.accept(a, s.clone())?;
            w.drain()?;
            pump(&mut w, &mut [&mut m], obs)?;
            let half = rng.bool();
            if half {
                let v = w.version_of(&s, a);
                w.deliver(a, NetworkMessage::Version(v))?;
                w.drain()?;
                pump(&mut w, &mut [&mut m], obs)?;
            }
            for _ in 0..rng.usize(1..5) {
                if !w.conns.contains_key(&a) {
                    break;
                }
                let msg = early_message(&w, &ch, rng);
                if is_handshake(&msg) {
                    continue;
                }
                let tree = (w.active(), w.tree.get().clone());
                let filters = w.filters.get().height();
                let book: Vec<_> = w.book.get().iter().map(|(i, k)| (*i, format!("{k:?}"))).collect();
                obs.distinct((half, msg.cmd().to_string(), w.conns.len()));
                obs.inc("early messages");
                w.deliver(a, msg.clone())?;
                w.drain()?;
                let mut dropped = false;
                for (_, r) in &w.log {
                    match r {
                        Rec::Drop(b, _) if *b == a => dropped = true,
                        Rec::Ev(Event::PeerDisconnected { .. } | Event::PeerConnecting { .. }) => {}
                        // The message itself is reported, that's all.
                        Rec::Ev(Event::MessageReceived { .. }) | Rec::Ev(Event::PeerMisbehaved { .. }) => {}
                        Rec::In(..) | Rec::Turn | Rec::SetTimer(_) | Rec::Down(..) | Rec::Dial(_) | Rec::Attempted(_) => {}
                        r => return viol("early message has effect", format!("'{}' before the handshake was complete led to: {r}", brief(&msg))),
                    }
                }
                check!(w.active() == tree.0, "early message has effect", "the active chain changed by {} before the handshake was complete", brief(&msg));
                for n in &ch.forest.borrow().nodes {
                    use nakamoto_common::block::tree::BlockReader;
                    check!(
                        w.tree.get().is_known(&n.hash) == tree.1.is_known(&n.hash),
                        "early message has effect",
                        "a block became known by {} before the handshake was complete",
                        brief(&msg)
                    );
                }
                check!(w.filters.get().height() == filters, "early message has effect", "filter headers changed by {}", brief(&msg));
                if !dropped {
                    let now: Vec<_> = w.book.get().iter().map(|(i, k)| (*i, format!("{k:?}"))).collect();
                    check!(now == book, "early message has effect", "the address book changed by {} before the handshake was complete", brief(&msg));
                }
                pump(&mut w, &mut [&mut m], obs)?;
            }
            if rng.bool() && w.conns.contains_key(&a) {
                w.close(a)?;
                w.drain()?;
            }
            pump(&mut w, &mut [&mut m], obs)?;
            let limit = w.now + secs(rng.u64(0..4));
            while w.step(limit)? {
                pump(&mut w, &mut [&mut m], obs)?;
            }
        }
        Ok(())
    });
    finish(&mut w, obs, r)
}

/// Peers that keep the connection busy without completing the handshake.
fn p02_drip(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let (mut ch, mut o) = network(rng, rng.usize(1..10), 0, 4, &[Kind::Honest, Kind::Puppet]);
    o.max_in = 12;
    let mut w = build(rng, &ch, o)?;
    let mut m = Handshakes::default();
    let plan = Plan { steps: 5, mix: Mix { ..CALM }, horizons: H, quiet: 1 };
    let r = drive(&mut w, &mut ch, &plan, rng, obs, &mut [&mut m], &mut no_commands).and_then(|_| {
        let mut ps = vec![];
        for i in 0..6u8 {
            let a = PeerId::from(([81, i + 1, rng.u8(..), rng.u8(1..)], rng.u16(1024..)));
            let mut s = Spec::honest(ch.tips[0], rng);
            s.kind = Kind::Puppet;
            w.tick()?;
            w.accept(a, s.clone())?;
            w.drain()?;
            pump(&mut w, &mut [&mut m], obs)?;
            let v = w.version_of(&s, a);
            ps.push((a, v, rng.u8(0..4)));
        }
        for _ in 0..steps(tier, rng, 20) {
            settle(&mut w, LocalDuration::from_millis(rng.u128(100..9000)), &mut [&mut m], obs)?;
            for (a, v, style) in &ps {
                if rng.u8(0..3) == 0 {
                    continue;
                }
                let got = m.k.up(a).map_or(false, |l| l.version.is_some());
                let msg = match style {
                    _ if rng.u8(0..8) == 0 => early_message(&w, &ch, rng),
                    0 if !got => early_message(&w, &ch, rng),
                    _ if !got => NetworkMessage::Version(v.clone()),
                    1 => NetworkMessage::WtxidRelay,
                    2 => NetworkMessage::SendAddrV2,
                    _ => match rng.u8(0..4) {
                        0 => NetworkMessage::WtxidRelay,
                        1 => NetworkMessage::SendAddrV2,
                        2 => NetworkMessage::SendHeaders,
                        _ => NetworkMessage::Ping(rng.u64(..)),
                    },
                };
                w.tick()?;
                w.deliver(*a, msg)?;
                obs.inc("dripped messages");
                if w.batch == 1 || rng.bool() {
                    w.drain()?;
                    pump(&mut w, &mut [&mut m], obs)?;
                }
            }
            w.drain()?;
            pump(&mut w, &mut [&mut m], obs)?;
        }
        settle(&mut w, secs(60), &mut [&mut m], obs)
    });
    finish(&mut w, obs, r)
}

/// Something that would matter if it came from a negotiated peer.
fn early_message(w: &World, ch: &Chains, rng: &fastrand::Rng) -> NetworkMessage {
    use nakamoto_common::bitcoin::network::address::Address;
    use nakamoto_common::bitcoin::network::message_blockdata::{GetHeadersMessage, Inventory};
    let f = ch.forest.borrow();
    match rng.u8(0..10) {
        0 => {
            let best = f.headers(*msgs::pick(&ch.tips, rng));
            let n = rng.usize(1..=best.len().min(20));
            NetworkMessage::Headers(best[best.len() - n..].to_vec())
        }
        1 => NetworkMessage::Addr(
            (0..rng.usize(1..10)).map(|_| (w.now.block_time(), Address::new(&ip(rng.usize(100..900)), full()))).collect(),
        ),
        2 => NetworkMessage::Ping(rng.u64(..)),
        3 => NetworkMessage::GetHeaders(GetHeadersMessage::new(vec![f.nodes[0].hash], BlockHash::all_zeros())),
        4 => NetworkMessage::Inv(vec![Inventory::Block(f.nodes[rng.usize(..f.nodes.len())].hash)]),
        5 => NetworkMessage::GetAddr,
        _ => {
            drop(f);
            w.hostile_message()
        }
    }
}

// ---------------------------------------------------------------------------------------------
// P03

fn p03_mixed(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let (mut ch, mut o) = network(rng, rng.usize(1..20), 2, rng.usize(2..24), ALL);
    for (_, s) in &mut o.specs {
        s.dial = *msgs::pick(
            &[DialOutcome::Accept, DialOutcome::Accept, DialOutcome::Accept, DialOutcome::Refuse, DialOutcome::Hang, DialOutcome::Error],
            rng,
        );
        if rng.u8(0..4) == 0 {
            s.services = ServiceFlags::from(rng.u64(0..2048)) | ServiceFlags::NETWORK;
        }
    }
    let connects = rng.u8(0..3) == 0;
    if rng.u8(0..4) == 0 {
        o.persistent = o.specs.iter().take(3).map(|s| s.0).collect();
    }
    let mut w = build(rng, &ch, o)?;
    let mut m = Lifecycle::default();
    m.user_connects = connects;
    let plan = Plan {
        steps: steps(tier, rng, 150),
        mix: Mix {
            hostile: 6,
            foreign: 1,
            handshake: 4,
            accept: 8,
            close: 5,
            advance: 1,
            command: 3,
            connect: if connects { 6 } else { 0 },
            selfconn: 1,
            kinds: ALL,
            ..CALM
        },
        horizons: H,
        quiet: 200,
    };
    let r = drive(&mut w, &mut ch, &plan, rng, obs, &mut [&mut m], &mut some_command);
    finish(&mut w, obs, r)
}

/// With enough good addresses, the target number of outbound peers is reached and kept.
fn p03_target(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let target = rng.usize(1..9);
    let losses = rng.usize(0..4);
    let good = target + target / 2 + 12 + losses;
    let bad = rng.usize(0..20);
    let (mut ch, mut o) = network(rng, rng.usize(1..10), 0, good + bad, &[Kind::Honest]);
    o.target_out = target;
    o.max_in = 8;
    let mut order: Vec<usize> = (0..good + bad).collect();
    rng.shuffle(&mut order);
    for i in &order[..bad] {
        let s = &mut o.specs[*i].1;
        match rng.u8(0..5) {
            0 => s.dial = DialOutcome::Refuse,
            1 => s.dial = DialOutcome::Hang,
            2 => s.dial = DialOutcome::Error,
            3 => s.kind = Kind::Mute,
            _ => s.kind = Kind::HalfMute,
        }
    }
    let mut w = build(rng, &ch, o)?;
    let mut m = Lifecycle::default();
    let plan = Plan {
        steps: steps(tier, rng, 40),
        mix: Mix { accept: 6, close: 0, grow: 0, advance: 0, kinds: &[Kind::Honest, Kind::Silent], ..CALM },
        horizons: H,
        quiet: 0,
    };
    let r = drive(&mut w, &mut ch, &plan, rng, obs, &mut [&mut m], &mut no_commands).and_then(|_| {
        for round in 0..=losses {
            settle(&mut w, secs(1800), &mut [&mut m], obs)?;
            let out = m.k.all_up().filter(|(_, l)| l.link == Link::Outbound && l.negotiated).count();
            check!(
                out >= target,
                "outbound target not reached",
                "{out} negotiated outbound peers after 30 quiet minutes (round {round}), the target is {target}; {good} good and {bad} bad addresses"
            );
            obs.inc("target reached");
            obs.distinct((target, good, bad, round, out));
            let l: Vec<_> = w.conns.iter().filter(|(_, c)| c.link == Link::Outbound).map(|(a, _)| *a).collect();
            for a in l.iter().take(rng.usize(1..=target)) {
                w.close(*a)?;
            }
            w.drain()?;
            pump(&mut w, &mut [&mut m], obs)?;
        }
        Ok(())
    });
    finish(&mut w, obs, r)
}

/// Persistent peers that come and go.
fn p03_persistent(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let n = rng.usize(1..5);
    let (ch, mut o) = network(rng, rng.usize(1..10), 0, n, &[Kind::Honest, Kind::Honest, Kind::Dead, Kind::Mute]);
    o.persistent = o.specs.iter().map(|s| s.0).collect();
    for (_, s) in &mut o.specs {
        s.dial = *msgs::pick(&[DialOutcome::Accept, DialOutcome::Refuse, DialOutcome::Hang, DialOutcome::Error], rng);
    }
    let addrs = o.persistent.clone();
    let mut w = build(rng, &ch, o)?;
    let mut m = Lifecycle::default();
    let r = w.initialize().and_then(|_| {
        for _ in 0..steps(tier, rng, 30) {
            let a = *msgs::pick(&addrs, rng);
            match rng.u8(0..3) {
                0 => {
                    w.close(a)?;
                    w.drain()?;
                }
                1 => {
                    w.specs.get_mut(&a).unwrap().dial =
                        *msgs::pick(&[DialOutcome::Accept, DialOutcome::Refuse, DialOutcome::Hang, DialOutcome::Error], rng);
                }
                _ => {}
            }
            pump(&mut w, &mut [&mut m], obs)?;
            settle(&mut w, LocalDuration::from_millis(*msgs::pick(&[10, 500, 4000, 70_000, 1_000_000, 9_000_000], rng)), &mut [&mut m], obs)?;
        }
        for a in &addrs {
            let s = w.specs.get_mut(a).unwrap();
            s.dial = DialOutcome::Accept;
            s.kind = Kind::Honest;
        }
        // A connection to a mute or dead peer may have to end first.
        settle(&mut w, secs(3600 + 300), &mut [&mut m], obs)?;
        for a in &addrs {
            check!(
                m.k.up(a).map_or(false, |l| l.negotiated),
                "persistent peer not connected",
                "persistent peer {a} is reachable again, but there is no connection after an hour"
            );
            obs.inc("persistent peers recovered");
        }
        Ok(())
    });
    finish(&mut w, obs, r)
}

// ---------------------------------------------------------------------------------------------
// P04

fn p04_pings(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let (mut ch, mut o) = network(rng, rng.usize(1..15), 1, rng.usize(2..10), &[Kind::Honest, Kind::Honest, Kind::Silent, Kind::Dead, Kind::Hostile, Kind::Puppet]);
    o.max_in = 8;
    for (_, s) in &mut o.specs {
        s.pong = match rng.u8(0..10) {
            9 => Pong::Wrong(rng.u32(0..4)),
            0 => Pong::Late(rng.u64(0..29_000)),
            1 => Pong::Late(rng.u64(31_000..200_000)),
            2 => Pong::Never,
            3 => Pong::WrongNonce,
            4 => Pong::Noisy,
            5 => Pong::Only(rng.u32(0..4)),
            _ => Pong::Right,
        };
        s.pings = *msgs::pick(&[0, 1, 1, 3], rng);
    }
    let mut w = build(rng, &ch, o)?;
    let mut m = PingPong::default();
    let plan = Plan {
        steps: steps(tier, rng, 120),
        mix: Mix { hostile: 12, handshake: 4, accept: 5, close: 1, advance: 3, command: 1, kinds: &[Kind::Honest, Kind::Silent, Kind::Dead, Kind::Hostile, Kind::Puppet], ..CALM },
        horizons: HL,
        quiet: 600,
    };
    let mut command = |w: &World, ch: &Chains, rng: &fastrand::Rng| some_command(w, ch, rng);
    let r = drive(&mut w, &mut ch, &plan, rng, obs, &mut [&mut m], &mut command);
    finish(&mut w, obs, r)
}

// ---------------------------------------------------------------------------------------------
// P05

/// `getheaders` discipline.
#[derive(Default)]
pub struct HeaderSync {
    outstanding: BTreeMap<PeerId, LocalTime>,
    /// Active chain at the start of this turn.
    before: BTreeSet<BlockHash>,
    before_locators: Vec<BlockHash>,
    sent: Vec<(PeerId, LocalTime, Vec<BlockHash>, BlockHash)>,
    /// Requests of the past, which may be repeated to another peer after a time-out.
    past: Vec<(LocalTime, PeerId, Vec<BlockHash>)>,
    /// Last header of the last full message, per peer.
    full: BTreeMap<PeerId, BlockHash>,
    /// Headers messages received in this turn: requests in between them are output after them.
    answers: BTreeMap<PeerId, u32>,
    /// Blocks connected in this turn.
    connected: BTreeSet<BlockHash>,
    /// Unknown blocks announced in this turn, when no request was outstanding.
    announced: Vec<(PeerId, BlockHash)>,
    k: Links,
}

/// Locators, computed here: the last ten blocks, then steps doubling, then genesis.
pub fn locators(active: &[BlockHash]) -> Vec<BlockHash> {
    let mut v = vec![];
    let mut h = active.len() as i64 - 1;
    let mut step = 1;
    while h > 0 {
        v.push(active[h as usize]);
        if v.len() >= 8 {
            step *= 2;
        }
        h -= step;
    }
    v.push(active[0]);
    v
}

impl Monitor for HeaderSync {
    fn rec(&mut self, w: &World, t: LocalTime, r: &Rec, obs: &mut Obs) -> Res {
        self.k.rec(t, r);
        match r {
            Rec::In(a, NetworkMessage::Inv(v)) if w.batch == 1 && v.len() < 1000 => {
                let usable = self.k.up(a).map_or(false, |l| {
                    l.negotiated
                        && (l.link == Link::Inbound || l.version.as_ref().map_or(false, |v| v.services.has(ServiceFlags::NETWORK)))
                });
                if usable && self.outstanding.is_empty() {
                    use nakamoto_common::block::tree::BlockReader;
                    let unknown = v.iter().rev().find_map(|i| match i {
                        nakamoto_common::bitcoin::network::message_blockdata::Inventory::Block(h) if !w.tree.get().is_known(h) => Some(*h),
                        _ => None,
                    });
                    self.announced.extend(unknown.map(|h| (*a, h)));
                }
            }
            Rec::Up(a, _) => {
                self.outstanding.remove(a);
            }
            Rec::Down(a, _) => {
                self.outstanding.remove(a);
                self.full.remove(a);
            }
            Rec::In(a, NetworkMessage::Headers(h)) => {
                *self.answers.entry(*a).or_default() += 1;
                if self.outstanding.remove(a).is_some() {
                    obs.inc("getheaders answered");
                }
                if h.len() == 2000 {
                    self.full.insert(*a, h[1999].block_hash());
                }
            }
            Rec::Ev(Event::BlockConnected { header, .. }) => {
                self.connected.insert(header.block_hash());
            }
            Rec::Out(a, NetworkMessage::GetHeaders(g)) => {
                if let Some(o) = self.outstanding.get(a) {
                    let n = self.answers.entry(*a).or_default();
                    let earlier = *n > 0;
                    *n = n.saturating_sub(1);
                    check!(
                        // With several inputs in a turn, it isn't observable which request was answered.
                        since(*o, t) > 28.9 || earlier || w.batch > 1,
                        "duplicate getheaders",
                        "{a} was sent getheaders while one was outstanding for {} s",
                        since(*o, t)
                    );
                }
                self.outstanding.insert(*a, t);
                self.sent.push((*a, t, g.locator_hashes.clone(), g.stop_hash));
                obs.inc("getheaders sent");
            }
            _ => {}
        }
        Ok(())
    }

    fn turn(&mut self, w: &World, t: LocalTime, obs: &mut Obs) -> Res {
        self.answers.clear();
        let connected = std::mem::take(&mut self.connected);
        let sent = std::mem::take(&mut self.sent);
        for (a, h) in std::mem::take(&mut self.announced) {
            check!(
                !sent.is_empty() || self.k.up(&a).is_none(),
                "announcement ignored",
                "{a} announced the unknown block {} while no request was outstanding, and nobody was asked for it",
                short(&h)
            );
            obs.inc("announcements followed up");
        }
        self.k.turn();
        if sent.is_empty() && w.tree.get_tip() == self.before_locators.first().copied() {
            return Ok(());
        }
        let active = w.active();
        let now: BTreeSet<BlockHash> = active.iter().copied().collect();
        if self.before.is_empty() {
            self.before = now.clone();
        }
        for (a, t, l, stop) in sent {
            check!(!l.is_empty(), "no locators", "getheaders to {a} without locators");
            let repeated = self.past.iter().any(|(p, b, x)| *x == l && *b != a && since(*p, t) > 28.9);
            let branch = l.len() == 1 && self.full.get(&a) == Some(&l[0]);
            let on_active = |set: &BTreeSet<BlockHash>| l.iter().all(|h| set.contains(h));
            check!(
                repeated
                    || branch
                    || on_active(&now)
                    || on_active(&self.before)
                    // Several messages in a turn: the active chain at some point in between.
                    || (w.batch > 1 && l.iter().all(|h| now.contains(h) || self.before.contains(h) || connected.contains(h))),
                "stale locators",
                "getheaders to {a} carries locators that are not on the active chain: {:?} (stop {})",
                l.iter().map(short).collect::<Vec<_>>(),
                short(&stop)
            );
            if !repeated && !branch && l.len() > 1 {
                let f = w.forest.borrow();
                let hs: Vec<_> = l.iter().filter_map(|h| f.get(h).map(|n| n.height)).collect();
                check!(
                    hs.windows(2).all(|x| x[0] > x[1]) && hs.last() == Some(&0),
                    "locator order",
                    "locators to {a} are at heights {hs:?}"
                );
                check!(
                    w.batch > 1 || l.first() == active.last() || Some(&l[0]) == self.before_locators.first(),
                    "locator tip",
                    "locators to {a} start at height {}, the tip is at {}",
                    hs[0],
                    active.len() - 1
                );
            }
            self.past.push((t, a, l));
        }
        if self.past.len() > 200 {
            self.past.retain(|p| since(p.0, t) < 4000.);
        }
        obs.distinct((active.len(), active.last().copied(), self.outstanding.len()));
        self.before = now;
        self.before_locators = vec![*active.last().unwrap()];
        Ok(())
    }
}

fn converge(w: &mut World, ch: &Chains, mons: &mut [&mut dyn Monitor], obs: &mut Obs, hours: u64) -> Res {
    // Let everything settle, then compare with the best chain served by an honest outbound peer.
    let height = |w: &World, i: usize| w.forest.borrow().nodes[i].height;
    let mut left = hours;
    loop {
        settle(w, secs(3600), mons, obs)?;
        left -= 1;
        let best = w
            .conns
            .values()
            .filter(|c| c.link == Link::Outbound && c.spec.kind == Kind::Honest && c.ready() && c.spec.services.has(ServiceFlags::NETWORK))
            .map(|c| height(w, c.spec.tip))
            .max();
        let Some(best) = best else {
            obs.inc("ended without an honest outbound peer");
            return Ok(());
        };
        let mine = w.active().len() as u64 - 1;
        if mine >= best {
            obs.inc("converged");
            obs.distinct((best, mine, ch.tips.len()));
            if left < hours - 1 {
                obs.inc("converged late");
            }
            return Ok(());
        }
        check!(
            left > 0,
            "not converged",
            "after {hours} quiet hours the active chain has height {mine}, an honest outbound peer serves height {best}"
        );
    }
}

fn p05_sync(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let (mut ch, mut o) = network(
        rng,
        *msgs::pick(&[2, 10, 40, 120], rng),
        rng.usize(0..5),
        rng.usize(2..9),
        &[Kind::Honest, Kind::Honest, Kind::Honest, Kind::Silent, Kind::Dead, Kind::Hostile],
    );
    sync_specs(rng, &mut o);
    let mut w = build(rng, &ch, o)?;
    let mut m = HeaderSync::default();
    let plan = Plan {
        steps: steps(tier, rng, 100),
        mix: Mix {
            hostile: rng.u32(0..4),
            accept: 2,
            close: 2,
            advance: 8,
            grow: 3,
            import: rng.u32(0..2),
            kinds: &[Kind::Honest, Kind::Silent],
            ..CALM
        },
        horizons: HL,
        quiet: 1,
    };
    let r = drive(&mut w, &mut ch, &plan, rng, obs, &mut [&mut m], &mut no_commands)
        .and_then(|_| converge(&mut w, &ch, &mut [&mut m], obs, 10));
    finish(&mut w, obs, r)
}

fn sync_specs(rng: &fastrand::Rng, o: &mut Opts) {
    for (_, s) in &mut o.specs {
        s.services = *msgs::pick(&[full(), full(), ServiceFlags::NETWORK, ServiceFlags::NETWORK | ServiceFlags::WITNESS], rng);
        if s.kind != Kind::Honest && rng.bool() {
            s.claim = Some(*msgs::pick(&[1_000_000, 300, 0, 5, -1], rng));
        }
        if s.kind != Kind::Honest {
            s.lossy = 0.5;
        } else if rng.u8(0..4) == 0 {
            s.dup = 0.3;
        }
    }
}

/// Chains longer than one message, and branches longer than one message.
fn p05_long(rng: &mut fastrand::Rng, obs: &mut Obs, _tier: Tier) -> Res {
    let len = *msgs::pick(&[1999, 2000, 2001, 2500, 4000, 4001], rng);
    let scripts = vec![];
    let mut f = crate::blocks::Forest::new(nakamoto_common::network::Network::Regtest);
    let main = f.grow(0, len, 0, &scripts, rng);
    let chain = f.chain(main);
    let back = *msgs::pick(&[0, 1, 15, 1990, 1999], rng);
    let from = chain[chain.len() - 1 - back];
    let alt = f.grow(from, back + rng.usize(1..3), 0, &scripts, rng);
    let mut ch = Chains { forest: std::rc::Rc::new(std::cell::RefCell::new(f)), tips: vec![main, alt], scripts };
    let mut o = Opts::new(*msgs::pick(&[0, main, alt, chain[10], chain[1500]], rng));
    o.known_filters = 0;
    o.target_out = 3;
    o.max_in = 4;
    o.age = *msgs::pick(&[0, 7200], rng);
    o.specs = assorted(rng, &ch, 4, &[Kind::Honest, Kind::Honest, Kind::Silent]);
    sync_specs(rng, &mut o);
    let mut w = build(rng, &ch, o)?;
    w.tracing = true;
    let mut m = HeaderSync::default();
    let mut fold = Fold::new(&w);
    let plan = Plan {
        steps: 12,
        mix: Mix { accept: 1, close: 1, advance: 3, grow: 1, ..CALM },
        horizons: HL,
        quiet: 1,
    };
    let r = drive(&mut w, &mut ch, &plan, rng, obs, &mut [&mut m, &mut fold], &mut no_commands)
        .and_then(|_| converge(&mut w, &ch, &mut [&mut m, &mut fold], obs, 10));
    finish(&mut w, obs, r)
}

/// Peers that don't claim to have more than the node, and don't announce it, are asked when the tip is old.
fn p05_stale(rng: &mut fastrand::Rng, obs: &mut Obs, _tier: Tier) -> Res {
    let (ch, mut o) = network(rng, rng.usize(2..40), 0, 1, &[Kind::Honest]);
    let (short, long) = {
        let mut f = ch.forest.borrow_mut();
        let short = *msgs::pick(&ch.tips, rng);
        let chain = f.chain(short);
        let back = rng.usize(..chain.len().min(6));
        let long = f.grow(chain[chain.len() - 1 - back], back + rng.usize(1..5), 0, &ch.scripts, rng);
        (short, long)
    };
    let quiet = |tip: usize, claim: i32| {
        let mut s = Spec::honest(tip, rng);
        s.services = full();
        s.claim = Some(claim);
        s
    };
    let height = ch.forest.borrow().nodes[short].height as i32;
    for (_, s) in &mut o.specs {
        *s = quiet(short, height);
    }
    o.target_out = o.specs.len();
    let mut w = build(rng, &ch, o)?;
    let mut m = HeaderSync::default();
    let r = (|| {
        let mons: &mut [&mut dyn Monitor] = &mut [&mut m];
        w.initialize()?;
        pump(&mut w, mons, obs)?;
        settle(&mut w, secs(rng.u64(0..4000)), mons, obs)?;
        for i in 0..rng.u8(1..4) {
            let a = ip(45 + i as usize);
            let tip = if i == 0 || rng.bool() { long } else { short };
            w.specs.insert(a, quiet(tip, rng.i32(0..=height)));
            w.tick()?;
            w.command(Command::Connect(a))?;
            w.drain()?;
            pump(&mut w, mons, obs)?;
            settle(&mut w, secs(rng.u64(0..4000)), mons, obs)?;
        }
        converge(&mut w, &ch, mons, obs, 4)
    })();
    finish(&mut w, obs, r)
}

// ---------------------------------------------------------------------------------------------
// P06

fn p06_fold(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let (mut ch, mut o) = network(rng, rng.usize(1..50), rng.usize(1..7), rng.usize(2..9), &[Kind::Honest, Kind::Honest, Kind::Hostile, Kind::Puppet]);
    sync_specs(rng, &mut o);
    let mut w = build(rng, &ch, o)?;
    let mut fold = Fold::new(&w);
    let plan = Plan {
        steps: steps(tier, rng, 120),
        mix: Mix { hostile: 8, handshake: 4, accept: 3, close: 1, advance: 8, grow: 4, command: 2, import: 4, kinds: ALL, ..CALM },
        horizons: HL,
        quiet: 60,
    };
    let r = drive(&mut w, &mut ch, &plan, rng, obs, &mut [&mut fold], &mut some_command);
    finish(&mut w, obs, r)
}

// ---------------------------------------------------------------------------------------------
// T01

/// The samples the node takes, and the time it makes of them.
#[derive(Default)]
struct Times {
    k: Links,
    /// The sample in the version message of the current connection.
    heard: BTreeMap<PeerId, i64>,
    sources: BTreeSet<PeerId>,
    samples: Vec<i64>,
    offset: i64,
}

impl Monitor for Times {
    fn rec(&mut self, w: &World, t: LocalTime, r: &Rec, obs: &mut Obs) -> Res {
        match r {
            Rec::In(a, NetworkMessage::Version(v)) if self.k.up(a).map_or(false, |l| l.version.is_none()) => {
                self.heard.insert(*a, v.timestamp.saturating_sub(w.clock.local_time().block_time() as i64));
            }
            Rec::Ev(Event::PeerNegotiated { addr, .. }) => {
                if self.sources.len() < 200 && self.sources.insert(*addr) {
                    if self.samples.is_empty() {
                        // Our own.
                        self.samples.push(0);
                    }
                    self.samples.push(self.heard[addr]);
                    if self.samples.len() >= 5 && self.samples.len() % 2 == 1 {
                        let mut v = self.samples.clone();
                        v.sort();
                        let m = v[v.len() / 2];
                        self.offset = if m.unsigned_abs() > 70 * 60 { 0 } else { m };
                        obs.inc("adjustments by the node");
                    }
                } else {
                    obs.inc("peers that came back");
                }
            }
            _ => {}
        }
        self.k.rec(t, r);
        Ok(())
    }

    fn turn(&mut self, w: &World, _t: LocalTime, obs: &mut Obs) -> Res {
        self.k.turn();
        let local = w.clock.local_time();
        check!(local == w.node_time(), "local", "the node's local time is {local}, it was told {}", w.node_time());
        let want = (local.block_time() as i64 + self.offset).clamp(0, u32::MAX as i64);
        let got = w.clock.block_time() as i64;
        check!(
            got == want,
            "node time",
            "network time is {got}, {} seconds from the local time, but the samples of {} peers make it {} ({:?})",
            got - local.block_time() as i64,
            self.sources.len(),
            self.offset,
            self.samples
        );
        obs.distinct((self.offset, self.samples.len()));
        Ok(())
    }

    fn end(&mut self, _w: &World, obs: &mut Obs) -> Res {
        obs.add("samples taken by the node", self.samples.len() as u64);
        Ok(())
    }
}

/// Peers with wrong clocks come and go.
pub fn t01_node(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let (mut ch, mut o) = network(rng, rng.usize(1..8), 0, rng.usize(2..14), &[Kind::Honest, Kind::Honest, Kind::Honest, Kind::HalfMute]);
    o.max_in = rng.usize(6..30);
    o.target_out = rng.usize(1..8);
    let mut w = build(rng, &ch, o)?;
    w.skew = Some(match rng.u8(0..4) {
        0 => -100..100,
        1 => 3000..5000,
        2 => -5000..-3000,
        _ => -10_000..10_000,
    });
    let mut m = Times::default();
    let plan = Plan {
        steps: steps(tier, rng, 60),
        mix: Mix { accept: 20, close: 8, handshake: 2, kinds: &[Kind::Honest, Kind::Honest, Kind::Puppet], ..CALM },
        horizons: H,
        quiet: 10,
    };
    let r = drive(&mut w, &mut ch, &plan, rng, obs, &mut [&mut m], &mut no_commands);
    finish(&mut w, obs, r)
}

pub fn properties() -> Vec<Property> {
    const SIM: &[&str] = &[
        "the environment of the state machine (reactor, clock, peers) is simulated; its contract is that of net/poll",
        "an inbound connection from the exact socket address that is being dialed in the same turn is out of scope",
    ];
    vec![
        Property {
            id: "P02",
            rule: "distinct by the sequence of monitored connection states",
            assumptions: SIM,
            level: "exploration",
            groups: vec![
                Group { name: "mixed", quick: 1500, thorough: 60_000, threads: 0, run: p02_mixed },
                Group { name: "drip", quick: 300, thorough: 10_000, threads: 0, run: p02_drip },
                Group { name: "early", quick: 600, thorough: 20_000, threads: 0, run: p02_early },
            ],
        },
        Property {
            id: "P03",
            rule: "distinct by the sequence of (inbound, outbound, dialing, waiting) counts",
            assumptions: SIM,
            level: "exploration",
            groups: vec![
                Group { name: "mixed", quick: 1500, thorough: 60_000, threads: 0, run: p03_mixed },
                Group { name: "target", quick: 300, thorough: 10_000, threads: 0, run: p03_target },
                Group { name: "persistent", quick: 300, thorough: 10_000, threads: 0, run: p03_persistent },
            ],
        },
        Property {
            id: "P04",
            rule: "distinct by outcome counts per case",
            assumptions: SIM,
            level: "exploration",
            groups: vec![Group { name: "pings", quick: 1500, thorough: 60_000, threads: 0, run: p04_pings }],
        },
        Property {
            id: "P05",
            rule: "distinct by the sequence of (height, tip, outstanding requests)",
            assumptions: SIM,
            level: "exploration",
            groups: vec![
                Group { name: "sync", quick: 700, thorough: 30_000, threads: 0, run: p05_sync },
                Group { name: "long", quick: 40, thorough: 1500, threads: 0, run: p05_long },
                Group { name: "stale", quick: 150, thorough: 6000, threads: 0, run: p05_stale },
            ],
        },
        Property {
            id: "P06",
            rule: "distinct by the sequence of tip changes (extension or reorganisation, sizes)",
            assumptions: SIM,
            level: "exploration",
            groups: vec![Group { name: "fold", quick: 1500, thorough: 60_000, threads: 0, run: p06_fold }],
        },
    ]
}
