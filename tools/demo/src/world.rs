//! The payment program set up through its own instructions, on the in-memory ledger.
#![allow(dead_code)]
use crate::bank::*;
use borsh::BorshSerialize;
use elusiv::{
    instruction::ElusivInstruction,
    processor::{BaseCommitmentHashRequest, ProofRequest},
    state::{
        commitment::{BaseCommitmentBufferAccount, BaseCommitmentHashingAccount, CommitmentHashingAccount, CommitmentBufferAccount, CommitmentQueueAccount},
        fee::{BasisPointFee, FeeAccount, ProgramFee},
        governor::{FeeCollectorAccount, GovernorAccount, PoolAccount},
        metadata::{MetadataAccount, MetadataQueueAccount},
        nullifier::NullifierAccount,
        proof::VerificationAccount,
        storage::StorageAccount,
        vkey::VKeyAccount,
    },
    types::{InputCommitment, JoinSplitPublicInputs, OptionalFee, RawU256, SendPublicInputs},
};
use elusiv_types::accounts::{PDAAccount, ParentAccount, ProgramAccount, SizedAccount};
use elusiv_types::tokens::Lamports;
use solana_program::{entrypoint::ProgramResult, pubkey::Pubkey, system_program};

pub type Meta = (Pubkey, bool);

pub fn k(n: u8) -> Pubkey {
    let mut b = [n; 32];
    b[31] = 1;
    Pubkey::new_from_array(b)
}

pub const SENDER: u8 = 10;
pub const RELAYER: u8 = 11;
pub const RECIPIENT: u8 = 12;
pub const ATTACKER: u8 = 13;
pub const COLLECTOR: u8 = 14;

pub fn pda<T: PDAAccount>() -> Pubkey {
    T::find(None).0
}

pub fn pda_at<T: PDAAccount>(i: u32) -> Pubkey {
    T::find(Some(i)).0
}

pub fn ro(k: Pubkey) -> Meta {
    (k, false)
}

pub fn signer(k: Pubkey) -> Meta {
    (k, true)
}

pub fn scalar(n: u64) -> RawU256 {
    let mut b = [0; 32];
    b[..8].copy_from_slice(&n.to_le_bytes());
    RawU256::new(b)
}

pub fn fee() -> ProgramFee {
    ProgramFee {
        lamports_per_tx: Lamports(5000),
        base_commitment_network_fee: BasisPointFee(11),
        proof_network_fee: BasisPointFee(100),
        base_commitment_subvention: Lamports(33),
        proof_subvention: Lamports(44),
        warden_hash_tx_reward: Lamports(300),
        warden_proof_reward: Lamports(700),
        proof_base_tx_count: ProgramFee::proof_base_tx_count(),
    }
}

pub struct World {
    pub bank: Bank,
    pub storage_children: Vec<Pubkey>,
    pub nullifier_children: Vec<Pubkey>,
    pub metadata_children: Vec<Pubkey>,
}

impl World {
    pub fn ix(&mut self, ix: ElusivInstruction, metas: &[Meta]) -> ProgramResult {
        self.bank.run(&ix.try_to_vec().unwrap(), metas)
    }

    /// everything an instance of the program needs, with users holding plenty
    pub fn new(fee: ProgramFee) -> Self {
        let mut w = World { bank: Bank::new(elusiv::id(), elusiv::process_instruction), storage_children: vec![], nullifier_children: vec![], metadata_children: vec![] };
        for u in [SENDER, RELAYER, RECIPIENT, ATTACKER, COLLECTOR] {
            w.bank.user(k(u), 1_000_000_000_000);
        }
        let sys = ro(system_program::id());
        let p = signer(k(RELAYER));
        w.ix(ElusivInstruction::OpenSingleInstanceAccounts, &[p, ro(pda::<PoolAccount>()), ro(pda::<FeeCollectorAccount>()), ro(pda::<CommitmentHashingAccount>()), ro(pda::<CommitmentQueueAccount>()), ro(pda::<StorageAccount>()), ro(pda::<BaseCommitmentBufferAccount>()), sys]).expect("open");
        w.ix(ElusivInstruction::CreateNewAccountsV1, &[p, ro(pda::<CommitmentBufferAccount>()), ro(pda::<MetadataQueueAccount>()), ro(pda::<MetadataAccount>()), ro(pda::<StorageAccount>()), ro(pda::<CommitmentHashingAccount>()), ro(pda::<CommitmentQueueAccount>()), sys]).expect("open v1");
        w.ix(ElusivInstruction::SetupGovernorAccount, &[p, ro(pda::<GovernorAccount>()), sys]).expect("governor");
        w.ix(ElusivInstruction::InitNewFeeVersion { fee_version: 0, program_fee: fee }, &[p, ro(pda::<GovernorAccount>()), ro(pda_at::<FeeAccount>(0)), sys]).expect("fee");
        w.bank.accounts.get_mut(&pda::<PoolAccount>()).unwrap().lamports += 1_000_000_000_000;
        w.bank.accounts.get_mut(&pda::<FeeCollectorAccount>()).unwrap().lamports += 1_000_000_000_000;
        // a verifying key whose contents do not matter here
        let vk = pda_at::<VKeyAccount>(0);
        w.bank.program_account(vk, VKeyAccount::SIZE);
        let bump = VKeyAccount::find(Some(0)).1;
        let d = w.bank.data(&vk);
        d[0] = bump;
        let mut a = VKeyAccount::new(d).unwrap();
        a.set_version(&1);
        a.set_public_inputs_count(&14);
        w
    }

    pub fn account<T, R>(&mut self, key: &Pubkey, f: impl FnOnce(&mut [u8]) -> R) -> R {
        f(self.bank.data(key))
    }

    pub fn open_nullifier(&mut self, i: u32) {
        let p = signer(k(RELAYER));
        self.ix(ElusivInstruction::OpenNullifierAccount { mt_index: i }, &[p, ro(pda_at::<NullifierAccount>(i)), ro(system_program::id())]).expect("nullifier");
    }

    pub fn enable_storage(&mut self, n: usize) {
        for i in 0..n {
            let c = Pubkey::new_from_array([100 + i as u8; 32]);
            self.bank.program_account(c, <StorageAccount as ParentAccount>::Child::SIZE);
            self.ix(ElusivInstruction::EnableStorageChildAccount { child_index: i as u32 }, &[ro(pda::<StorageAccount>()), ro(c)]).expect("storage child");
            self.storage_children.push(c);
        }
    }

    pub fn enable_nullifier(&mut self, mt: u32, n: usize) {
        for i in 0..n {
            let c = Pubkey::new_from_array([140 + 16 * mt as u8 + i as u8; 32]);
            self.bank.program_account(c, <NullifierAccount as ParentAccount>::Child::SIZE);
            self.ix(ElusivInstruction::EnableNullifierChildAccount { mt_index: mt, child_index: i as u32 }, &[ro(pda_at::<NullifierAccount>(mt)), ro(c)]).expect("nullifier child");
            self.nullifier_children.push(c);
        }
    }

    pub fn enable_metadata(&mut self, n: usize) {
        for i in 0..n {
            let c = Pubkey::new_from_array([200 + i as u8; 32]);
            self.bank.program_account(c, <MetadataAccount as ParentAccount>::Child::SIZE);
            self.ix(ElusivInstruction::EnableMetadataChildAccount { child_index: i as u32 }, &[ro(pda::<MetadataAccount>()), ro(c)]).expect("metadata child");
            self.metadata_children.push(c);
        }
    }

    // ---------------------------------------------------------------- deposits (token 0)

    pub fn deposit(&mut self, index: u32, request: BaseCommitmentHashRequest, metadata: [u8; 17]) -> ProgramResult {
        let (h, bump) = BaseCommitmentHashingAccount::find(Some(index));
        let z = ro(system_program::id());
        self.ix(
            ElusivInstruction::StoreBaseCommitment { hash_account_index: index, hash_account_bump: bump, request, metadata },
            &[signer(k(SENDER)), ro(k(SENDER)), signer(k(RELAYER)), ro(k(RELAYER)), ro(pda::<PoolAccount>()), ro(pda::<PoolAccount>()), ro(pda::<FeeCollectorAccount>()), ro(pda::<FeeCollectorAccount>()), z, z, ro(pda::<GovernorAccount>()), ro(pda::<StorageAccount>()), ro(h), ro(pda::<BaseCommitmentBufferAccount>()), z, z],
        )
    }

    pub fn hash_step(&mut self, index: u32) -> ProgramResult {
        self.ix(ElusivInstruction::ComputeBaseCommitmentHash { hash_account_index: index }, &[ro(pda_at::<BaseCommitmentHashingAccount>(index))])
    }

    pub fn hash_finalize(&mut self, index: u32) -> ProgramResult {
        self.ix(
            ElusivInstruction::FinalizeBaseCommitmentHash { hash_account_index: index, fee_version: 0 },
            &[ro(k(RELAYER)), ro(pda::<PoolAccount>()), ro(pda_at::<FeeAccount>(0)), ro(pda_at::<BaseCommitmentHashingAccount>(index)), ro(pda::<CommitmentQueueAccount>()), ro(pda::<MetadataQueueAccount>())],
        )
    }

    // ---------------------------------------------------------------- batches

    pub fn batch_setup(&mut self) -> ProgramResult {
        let mut m = vec![ro(pda::<CommitmentHashingAccount>()), ro(pda::<StorageAccount>())];
        m.extend(self.storage_children.iter().map(|c| ro(*c)));
        self.ix(ElusivInstruction::InitCommitmentHashSetup { insertion_can_fail: false }, &m)
    }

    pub fn batch_init(&mut self) -> ProgramResult {
        let mut m = vec![ro(pda::<CommitmentQueueAccount>()), ro(pda::<MetadataQueueAccount>()), ro(pda::<CommitmentHashingAccount>()), ro(pda::<MetadataAccount>())];
        m.extend(self.metadata_children.iter().map(|c| ro(*c)));
        self.ix(ElusivInstruction::InitCommitmentHash { insertion_can_fail: false }, &m)
    }

    pub fn batch_step(&mut self) -> ProgramResult {
        self.ix(ElusivInstruction::ComputeCommitmentHash { fee_version: 0, nonce: 0 }, &[signer(k(RELAYER)), ro(pda_at::<FeeAccount>(0)), ro(pda::<PoolAccount>()), ro(pda::<CommitmentHashingAccount>())])
    }

    pub fn batch_finalize(&mut self) -> ProgramResult {
        let mut m = vec![ro(pda::<CommitmentHashingAccount>()), ro(pda::<StorageAccount>())];
        m.extend(self.storage_children.iter().map(|c| ro(*c)));
        self.ix(ElusivInstruction::FinalizeCommitmentHash, &m)
    }

    // ---------------------------------------------------------------- withdrawals (token 0)

    pub fn verification(relayer: Pubkey, index: u8) -> Pubkey {
        VerificationAccount::find_with_pubkey(relayer, Some(index as u32)).0
    }

    pub fn start(&mut self, relayer: Pubkey, index: u8, trees: [u32; 2], r: &SendPublicInputs, skip: bool) -> ProgramResult {
        let dup = duplicate(&r.join_split);
        let mut m = vec![signer(relayer), ro(Self::verification(relayer, index)), ro(pda_at::<VKeyAccount>(0)), ro(dup), ro(system_program::id()), ro(system_program::id()), ro(pda::<StorageAccount>()), ro(pda::<CommitmentBufferAccount>()), ro(pda_at::<NullifierAccount>(trees[0]))];
        m.extend(self.nullifier_children.iter().map(|c| ro(*c)));
        m.push(ro(pda_at::<NullifierAccount>(trees[1])));
        self.ix(ElusivInstruction::InitVerification { verification_account_index: index, vkey_id: 0, tree_indices: trees, request: ProofRequest::Send(r.clone()), skip_nullifier_pda: skip }, &m)
    }

    pub fn pay_fee(&mut self, relayer: Pubkey, index: u8) -> ProgramResult {
        let z = ro(system_program::id());
        self.ix(
            ElusivInstruction::InitVerificationTransferFee { verification_account_index: index },
            &[signer(relayer), ro(relayer), ro(pda::<PoolAccount>()), ro(pda::<PoolAccount>()), ro(pda::<FeeCollectorAccount>()), ro(pda::<FeeCollectorAccount>()), z, z, ro(pda::<GovernorAccount>()), ro(Self::verification(relayer, index)), z, z],
        )
    }

    pub fn verif<R>(&mut self, relayer: Pubkey, index: u8, f: impl FnOnce(&mut VerificationAccount) -> R) -> R {
        let d = self.bank.data(&Self::verification(relayer, index));
        let mut a = VerificationAccount::new(d).unwrap();
        f(&mut a)
    }

    pub fn insert_nullifier(&mut self, relayer: Pubkey, index: u8, tree: u32) -> ProgramResult {
        let mut m = vec![ro(relayer), ro(Self::verification(relayer, index)), ro(pda_at::<NullifierAccount>(tree))];
        m.extend(self.nullifier_children.iter().map(|c| ro(*c)));
        self.ix(ElusivInstruction::FinalizeVerificationInsertNullifier { verification_account_index: index }, &m)
    }

    /// finalises a withdrawal whose verdict is known
    pub fn send(&mut self, relayer: Pubkey, index: u8, recipient: Pubkey, identifier: Pubkey, iv: [u8; 32], owner: [u8; 32]) -> ProgramResult {
        let data = elusiv::processor::FinalizeSendData { total_amount: 0, token_id: 0, mt_index: 0, commitment_index: 0, iv, encrypted_owner: owner };
        let sysvar = solana_program::sysvar::instructions::id();
        self.ix(
            ElusivInstruction::FinalizeVerificationSend { verification_account_index: index, data, uses_memo: false },
            &[ro(recipient), ro(identifier), ro(sysvar), ro(relayer), ro(pda::<CommitmentQueueAccount>()), ro(Self::verification(relayer, index)), ro(pda::<StorageAccount>()), ro(pda::<CommitmentBufferAccount>()), ro(sysvar)],
        )
    }

    pub fn governor<R>(&mut self, f: impl FnOnce(&mut GovernorAccount) -> R) -> R {
        let d = self.bank.data(&pda::<GovernorAccount>());
        f(&mut GovernorAccount::new(d).unwrap())
    }

    pub fn new_fee_version(&mut self, version: u32, fee: ProgramFee) -> ProgramResult {
        self.governor(|g| g.set_fee_version(&version));
        self.ix(ElusivInstruction::InitNewFeeVersion { fee_version: version, program_fee: fee }, &[signer(k(RELAYER)), ro(pda::<GovernorAccount>()), ro(pda_at::<FeeAccount>(version)), ro(system_program::id())])
    }

    pub fn payout(&mut self, relayer: Pubkey, index: u8, recipient: Pubkey, collector: Pubkey, js: &JoinSplitPublicInputs) -> ProgramResult {
        self.ix(
            ElusivInstruction::FinalizeVerificationTransferLamports { verification_account_index: index },
            &[signer(relayer), ro(recipient), ro(pda::<PoolAccount>()), ro(pda::<FeeCollectorAccount>()), ro(collector), ro(pda::<CommitmentQueueAccount>()), ro(pda::<MetadataQueueAccount>()), ro(Self::verification(relayer, index)), ro(duplicate(js)), ro(system_program::id()), ro(solana_program::sysvar::instructions::id())],
        )
    }
}

pub fn duplicate(js: &JoinSplitPublicInputs) -> Pubkey {
    let key = js.associated_nullifier_duplicate_pda_pubkey();
    elusiv::state::proof::NullifierDuplicateAccount::find_with_pubkey(key, None).0
}

/// a deposit request of token 0
pub fn deposit_request(n: u64, amount: u64) -> BaseCommitmentHashRequest {
    BaseCommitmentHashRequest { base_commitment: scalar(n), token_id: 0, amount, recent_commitment_index: 0, commitment: scalar(n + 1000), fee_version: 0, min_batching_rate: 0 }
}

/// a withdrawal request of token 0 with one input against the empty first tree
pub fn withdrawal(nullifiers: &[u64], output: u64, amount: u64, fee: u64) -> SendPublicInputs {
    SendPublicInputs {
        join_split: JoinSplitPublicInputs {
            input_commitments: nullifiers.iter().enumerate().map(|(i, n)| InputCommitment { root: if i == 0 { Some(canonical(elusiv::state::storage::EMPTY_TREE[20])) } else { None }, nullifier_hash: scalar(*n) }).collect(),
            output_commitment: scalar(output),
            recent_commitment_index: 0,
            fee_version: 0,
            amount,
            fee,
            optional_fee: OptionalFee::default(),
            token_id: 0,
            metadata: [7; 17],
        },
        recipient_is_associated_token_account: false,
        solana_pay_transfer: false,
        hashed_inputs: [1; 32],
    }
}

/// the canonical form of a stored (Montgomery) field element
pub fn canonical(stored: [u8; 32]) -> RawU256 {
    RawU256::new(elusiv::fields::fr_to_u256_le_repr(&elusiv::fields::u256_to_fr_skip_mr(&stored)))
}

impl World {
    /// a node stored in the first child account of the tree (0 is the root)
    pub fn node(&mut self, i: usize) -> [u8; 32] {
        let c = self.storage_children[0];
        self.bank.data(&c)[1 + 32 * i..33 + 32 * i].try_into().unwrap()
    }
}
