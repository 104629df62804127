mod bank;
mod world;
use bank::*;
#[allow(unused_imports)]
use elusiv::state::proof::VerificationState;
use world::*;


use elusiv::{instruction::ElusivInstruction, state::{commitment::CommitmentHashingAccount, fee::FeeAccount, governor::PoolAccount}};
use elusiv_types::tokens::Lamports;

fn main() {
    let mut w = World::new(fee());
    w.enable_storage(1);
    w.enable_metadata(1);
    let c = deposit_request(5, 100_000_000);
    w.deposit(0, c, [9; 17]).expect("deposit");
    w.hash_step(0).expect("step");
    w.hash_step(0).expect("step");
    w.hash_finalize(0).expect("finalize");
    w.batch_setup().expect("setup");
    w.batch_init().expect("init");
    // a later fee version pays more for a transaction
    let mut later = fee();
    later.lamports_per_tx = Lamports(50_000);
    w.new_fee_version(1, later).expect("fee version");
    let rel = k(RELAYER);
    let before = w.bank.lamports(&rel);
    let metas = |f: u32| [signer(rel), ro(pda_at::<FeeAccount>(f)), ro(pda::<PoolAccount>()), ro(pda::<CommitmentHashingAccount>())];
    expect(w.ix(ElusivInstruction::ComputeCommitmentHash { fee_version: 1, nonce: 0 }, &metas(1)).is_err(), "a batch is compensated by its own fee version");
    expect(w.bank.lamports(&rel) == before, "nothing is paid out");
    expect(w.ix(ElusivInstruction::ComputeCommitmentHash { fee_version: 0, nonce: 0 }, &metas(0)).is_ok(), "a batch is compensated by its own fee version");
}
