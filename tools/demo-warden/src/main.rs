#![allow(unused_imports)]
mod bank;
mod world;
use bank::*;
use world::*;
use elusiv_warden_network::{warden::*, apa::*, network::*, operator::*};
use elusiv_types::ElusivOption;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut w = World::new();
    w.register(0, ALICE);
    w.register(1, BOB);
    expect(w.warden(0).config.key == k(ALICE), "a warden is registered under its own key");
    // defects
    w.open_stats(ALICE, YEAR).unwrap();
    let tx = [payment(2, &[k(ALICE)]), payment(99, &[])];
    let r = w.track(ALICE, YEAR, true, &tx, 1);
    println!("track {:?} total {} day {}", r, w.stats(ALICE, YEAR).0.total, w.stats(ALICE,YEAR).0.activity[day()]);
    let r = w.track(BOB, YEAR, true, &tx, 1);
    println!("track {:?}", r);
    let tx = [payment(13, &[k(ALICE), k(MALLORY)]), payment(99, &[])];
    println!("track send by alice {:?}", w.track(ALICE, YEAR, true, &tx, 1));
    println!("register operator {:?}", w.register_operator(OPERATOR));
    let d = w.bank.data(&pda_of::<WardenOperatorAccount>(&k(OPERATOR), None)).clone();
    println!("operator key {:?}", &d[2..6]);
    let mut c = config(k(MALLORY)); c.warden_features.attestation = true;
    println!("self appointed {:?}", w.register_with(2, k(MALLORY), c));
    println!("attest {:?}", w.attest(2, MALLORY, 0, 0, Some(3), timezone(5), WardenRegion::Asia, true));
    let a = w.warden(0); println!("stored region {} valid {:?} asn {:?}", a.config.region == WardenRegion::Asia, a.is_metadata_valid.option(), a.asn.option());
    println!("apply {:?}", w.apply(1, BOB, [1; 558]));
    println!("complete {:?}", w.complete(1, BOB, [2; 558]));
    println!("apply {:?}", w.apply(0, ALICE, [3; 558]));
    println!("complete {:?}", w.complete(0, ALICE, [4; 558]));
    let p = ApaProposal { proponent: k(1), proponent_role: ApaProponentRole::TokenFreezingAuthority, timestamp: 0, target: k(77), level: ApaLevel::Outcast, token_constraint: ElusivOption::None, reason: String::new().try_into().unwrap() };
    println!("propose {:?}", w.propose(0, MALLORY, p, k(50)));
}
