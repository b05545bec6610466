mod addr;
mod chain;
mod blocks;
mod chainmodel;
mod client;
mod core;
mod misc;
#[allow(dead_code)]
mod mon;
mod msgs;
mod net;
mod p01;
#[allow(dead_code)]
mod p2p;
mod scan;
mod serve;
mod service;
#[allow(dead_code)]
mod sim;
mod stores;
#[allow(dead_code)]
mod world;

use crate::core::*;

fn main() {
    let mut a = std::env::args().skip(1);
    let prop = a.next().expect("usage: vh PROPERTY quick|thorough [group:case]");
    let tier = match a.next().as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let only_case = a.next().map(|s| {
        let (g, c) = s.split_once(':').expect("group:case");
        (g.to_string(), c.parse().expect("case number"))
    });
    let args = Args {
        prop: prop.clone(),
        tier,
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        only_case,
        verif: std::env::var("VERIF_DIR").map(Into::into).unwrap_or_else(|_| "/verif".into()),
    };
    install_panic_hook();
    let mut all = Vec::new();
    all.extend(chain::properties());
    all.extend(stores::properties());
    all.extend(misc::properties());
    all.extend(p01::properties());
    all.extend(p2p::properties());
    all.extend(serve::properties());
    all.extend(scan::properties());
    all.extend(addr::properties());
    all.extend(net::properties());
    all.extend(client::properties());
    if prop == "list" {
        for p in &all {
            println!("{}", p.id);
        }
        return;
    }
    let p = all.iter().find(|p| p.id == prop).expect("unknown property");
    std::process::exit(run(&args, p));
}
