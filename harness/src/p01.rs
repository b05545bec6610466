//! P01: nothing a peer or a caller does can crash or wedge the protocol engine.
use nakamoto_common::bitcoin::network::message::NetworkMessage;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::p2p::Domain;
use nakamoto_p2p::{Event, Link};

use crate::check;
use crate::core::*;
use crate::msgs;
use crate::sim::*;
use crate::world::*;

fn hostile(rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier) -> Res {
    let ch = chains(rng, *msgs::pick(&[1, 5, 30, 90], rng), rng.usize(0..6), rng.usize(0..3));
    let all = ch.forest.borrow().nodes.len();
    let mut o = Opts::new(rng.usize(..all));
    let h = ch.forest.borrow().nodes[o.known].height;
    o.known_filters = if rng.bool() { h } else { rng.u64(0..=h) };
    o.target_out = rng.usize(0..5);
    o.max_in = rng.usize(0..6);
    o.cache = *msgs::pick(&[0, 200, 2000, 1 << 20], rng);
    o.age = *msgs::pick(&[0, 300, 7200, 1_000_000], rng);
    o.services = *msgs::pick(&[ServiceFlags::NONE, full()], rng);
    if rng.bool() {
        o.domains = Domain::all();
    }
    let n = rng.usize(1..9);
    o.specs = assorted(
        rng,
        &ch,
        n,
        &[Kind::Honest, Kind::Honest, Kind::Hostile, Kind::Hostile, Kind::Silent, Kind::Dead, Kind::Mute, Kind::HalfMute, Kind::Puppet],
    );
    for (_, s) in &mut o.specs {
        s.dial = *msgs::pick(
            &[DialOutcome::Accept, DialOutcome::Accept, DialOutcome::Accept, DialOutcome::Refuse, DialOutcome::Hang, DialOutcome::Error],
            rng,
        );
        if rng.u8(0..3) == 0 {
            s.lossy = 0.2;
            s.dup = 0.2;
            s.corrupt = 0.2;
            s.shuffle = true;
        }
        if rng.u8(0..6) == 0 {
            s.claim = Some(*msgs::pick(&[-1, i32::MIN, i32::MAX, 0, 1_000_000], rng));
        }
        if rng.u8(0..6) == 0 {
            s.services = ServiceFlags::from(rng.u64(0..2048));
        }
        if rng.u8(0..6) == 0 {
            s.time_offset = *msgs::pick(&[i64::MIN / 2, i64::MAX / 2, -7200, 7200, 1], rng);
        }
    }
    if rng.u8(0..4) == 0 {
        o.persistent = o.specs.iter().take(2).map(|s| s.0).collect();
    }
    let mut w = build(rng, &ch, o)?;
    let r = drive(&mut w, rng, obs, tier, &ch);
    obs.trace.append(&mut w.trace);
    obs.add("outputs", w.outputs);
    r
}

fn drive(w: &mut World, rng: &mut fastrand::Rng, obs: &mut Obs, tier: Tier, ch: &Chains) -> Res {
    w.initialize()?;
    let steps = if tier == Tier::Quick { 260 } else { rng.usize(100..1500) };
    let mut now_ops = 0;
    let mut fp = 0u64;
    for _ in 0..steps {
        if rng.u8(0..3) > 0 {
            let horizon = w.now + nakamoto_common::block::time::LocalDuration::from_millis(
                *msgs::pick(&[0u128, 10, 1000, 15_000, 61_000, 700_000], rng),
            );
            let k = rng.usize(1..10);
            for _ in 0..k {
                if !w.step(horizon)? {
                    break;
                }
            }
        } else {
            now_ops += 1;
            w.tick()?;
            let batch = if rng.bool() { 1 } else { rng.usize(1..5) };
            for _ in 0..batch {
                op(w, rng, obs, ch)?;
            }
            if rng.u8(0..6) == 0 {
                w.timer()?;
            }
            w.drain()?;
        }
        for (_, r) in w.log.drain(..) {
            match r {
                Rec::Ev(e) => {
                    obs.inc("events");
                    if let Event::Error { .. } = e {
                        obs.inc("error events");
                    }
                    fp = mix(fp, event_name(&e).len() as u64);
                }
                Rec::Drop(..) => obs.inc("disconnects requested"),
                Rec::In(..) => obs.inc("messages in"),
                Rec::Out(..) => obs.inc("messages out"),
                _ => {}
            }
        }
    }
    obs.distinct((fp, w.conns.len(), w.book.get().len(), now_ops));

    // The engine still works: an honest newcomer can connect, negotiate and ping.
    let addr = crate::world::ip(700);
    let mut s = Spec::honest(ch.tips[0], rng);
    s.lat = (1, 1);
    // The newcomer needs an inbound slot; free them all.
    let peers: Vec<_> = w.conns.keys().copied().collect();
    for p in peers {
        w.close(p)?;
    }
    w.drain()?;
    w.queue.clear();
    w.log.clear();
    if w.conns.values().filter(|c| c.link == Link::Inbound).count() > 0 {
        return Ok(());
    }
    let max_in_ok = w.max_in >= 2;
    w.accept(addr, s)?;
    w.drain()?;
    let limit = w.now + secs(5);
    while w.step(limit)? {}
    let negotiated = w.log.iter().any(|(_, r)| matches!(r, Rec::Ev(Event::PeerNegotiated { addr: a, .. }) if *a == addr));
    if max_in_ok {
        check!(negotiated, "unusable after hostile traffic", "an honest inbound peer could not complete the handshake");
        w.log.clear();
        w.tick()?;
        w.deliver(addr, NetworkMessage::Ping(0xabcdef))?;
        w.drain()?;
        let pong = w.log.iter().any(|(_, r)| matches!(r, Rec::Out(a, NetworkMessage::Pong(0xabcdef)) if *a == addr));
        check!(pong, "unusable after hostile traffic", "a ping was not answered");
        obs.inc("liveness probes");
    }
    Ok(())
}

fn op(w: &mut World, rng: &mut fastrand::Rng, obs: &mut Obs, ch: &Chains) -> Res {
    let live: Vec<_> = w.conns.iter().filter(|(_, c)| c.state == ConnState::Connected).map(|(a, _)| *a).collect();
    match rng.u8(0..20) {
        0..=7 if !live.is_empty() => {
            obs.inc("hostile messages");
            let a = *msgs::pick(&live, rng);
            let m = w.hostile_message();
            w.deliver(a, m)
        }
        8 | 9 if !live.is_empty() => {
            // Finish a handshake by hand (puppets, mutes).
            let a = *msgs::pick(&live, rng);
            let mut s = w.conns[&a].spec.clone();
            s.nonce = rng.u64(..);
            let v = w.version_of(&s, a);
            w.deliver(a, NetworkMessage::Version(v))?;
            if rng.bool() {
                w.deliver(a, NetworkMessage::WtxidRelay)?;
            }
            w.deliver(a, NetworkMessage::Verack)
        }
        10 | 11 => {
            // Inbound connection: a new address, or another port of a known one.
            let mut a = ip(rng.usize(0..20));
            if rng.bool() {
                a.set_port(rng.u16(1024..));
            }
            if rng.u8(0..4) == 0 {
                a = msgs::random_sockaddr(rng);
            }
            let mut s = Spec::honest(*msgs::pick(&ch.tips, rng), rng);
            s.kind = *msgs::pick(&[Kind::Honest, Kind::Hostile, Kind::Puppet, Kind::Mute, Kind::Silent], rng);
            s.services = if rng.bool() { full() } else { ServiceFlags::from(rng.u64(0..2048)) };
            // Outstanding dials first: the reactor keeps one socket per address, so an inbound
            // connection from the exact address being dialed in the same turn is out of scope.
            w.drain()?;
            w.accept(a, s)
        }
        12 if !live.is_empty() => {
            let a = *msgs::pick(&live, rng);
            w.close(a)
        }
        13 if !live.is_empty() => {
            let a = *msgs::pick(&live, rng);
            let m = w.hostile_message();
            w.deliver_raw(a, rng.u32(..), m)
        }
        14 if !live.is_empty() => {
            let a = *msgs::pick(&live, rng);
            let t = *msgs::pick(&ch.tips, rng);
            w.advance_remote(a, t, rng.bool());
            Ok(())
        }
        _ => {
            obs.inc("commands");
            let c = random_command(w, ch, rng);
            w.command(c)
        }
    }
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "P01",
        rule: "a case counts as distinct by the sequence of events, connections and address-book size reached; each case drives the real state machine with hostile messages, connection churn, commands and virtual time",
        assumptions: &[
            "debug assertions and integer overflow checks are on, as in the repository's own test profile",
            "inputs respect the reactor's contract (messages only from connected peers, one disconnection per connection)",
        ],
        level: "exploration",
        groups: vec![Group { name: "hostile", quick: 2500, thorough: 200_000, threads: 0, run: hostile }],
    }]
}
