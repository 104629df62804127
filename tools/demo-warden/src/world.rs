//! The warden network program set up through its own instructions, on the in-memory ledger.
#![allow(dead_code)]
use crate::bank::*;
use borsh::{BorshDeserialize, BorshSerialize};
use elusiv_types::accounts::PDAAccount;
use elusiv_types::{BorshSerDeSized, ElusivOption, TOKENS};
use elusiv_warden_network::{
    apa::*, instruction::ElusivWardenNetworkInstruction as Ix, network::*, operator::*, warden::*,
};
use solana_program::{
    entrypoint::ProgramResult,
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
    system_program,
    sysvar::instructions,
};

pub type Meta = (Pubkey, bool);

pub const NOW: u64 = 1_700_000_000;
pub const YEAR: u16 = 2023;
/// day of the year of `NOW`, as the program counts days
pub fn day() -> usize {
    elusiv_warden_network::processor::unix_timestamp_to_day_and_year(NOW).unwrap().0 as usize
}

pub fn k(n: u8) -> Pubkey {
    let mut b = [n; 32];
    b[31] = 1;
    Pubkey::new_from_array(b)
}

pub const ALICE: u8 = 10;
pub const BOB: u8 = 11;
pub const MALLORY: u8 = 12;
pub const OPERATOR: u8 = 13;

pub fn pda<T: PDAAccount>() -> Pubkey {
    T::find(None).0
}

pub fn pda_at<T: PDAAccount>(i: u32) -> Pubkey {
    T::find(Some(i)).0
}

pub fn pda_of<T: PDAAccount>(key: &Pubkey, i: Option<u32>) -> Pubkey {
    T::find_with_pubkey(*key, i).0
}

pub fn ro(k: Pubkey) -> Meta {
    (k, false)
}

pub fn signer(k: Pubkey) -> Meta {
    (k, true)
}

pub fn payment_program() -> Pubkey {
    elusiv_types_program("elusiv")
}

/// the payment program's id, as listed in /repo/Id.toml
fn elusiv_types_program(name: &str) -> Pubkey {
    let s = std::fs::read_to_string("/repo/Id.toml").unwrap();
    let i = s.find(&format!("name = \"{}\"\n", name)).unwrap();
    let j = s[i..].find("testnet = \"").unwrap() + i + 11;
    s[j..j + s[j..].find('"').unwrap()].parse().unwrap()
}

pub fn text(s: &str) -> Identifier {
    String::from(s).try_into().unwrap()
}

pub fn timezone(area: u8) -> Timezone {
    Timezone { area, location: String::from("x").try_into().unwrap() }
}

pub fn config(key: Pubkey) -> ElusivBasicWardenConfig {
    ElusivBasicWardenConfig {
        ident: text("warden"),
        key,
        operator: Some(k(OPERATOR)).into(),
        addr: std::net::Ipv4Addr::new(1, 2, 3, 4),
        rpc_port: 80,
        tls_mode: TlsMode::Optional,
        uses_proxy: false,
        jurisdiction: 7,
        timezone: timezone(3),
        region: WardenRegion::Europe,
        version: [1, 2, 3],
        platform: text("linux"),
        warden_features: WardenFeatures::default(),
        basic_warden_features: BasicWardenFeatures { rpc: true, relay: true, instant_relay: false },
        tokens: [false; TOKENS.len()],
    }
}

pub struct World {
    pub bank: Bank,
    pub clock: u64,
}

impl World {
    pub fn new() -> Self {
        let mut bank = Bank::new(elusiv_warden_network::id(), elusiv_warden_network::process_instruction);
        for u in [ALICE, BOB, MALLORY, OPERATOR, 14, 15, 16, 17, 18, 19] {
            bank.user(k(u), 1_000_000_000_000);
        }
        bank.user(Pubkey::new_from_array([0; 32]), 0);
        let mut w = World { bank, clock: NOW };
        w.run(Ix::Init, &[signer(k(BOB)), ro(pda::<WardensAccount>()), ro(pda::<BasicWardenNetworkAccount>()), ro(pda::<ApaWardenNetworkAccount>()), ro(pda::<ApaProposalsAccount>()), ro(system_program::id())]).unwrap();
        w
    }

    pub fn run(&mut self, ix: Ix, metas: &[Meta]) -> ProgramResult {
        self.bank.run(&ix.try_to_vec().unwrap(), metas)
    }

    pub fn register_with(&mut self, id: u32, signing: Pubkey, config: ElusivBasicWardenConfig) -> ProgramResult {
        let map = pda_of::<BasicWardenMapAccount>(&config.key, None);
        self.run(
            Ix::RegisterBasicWarden { warden_id: id, config },
            &[signer(signing), ro(pda_at::<BasicWardenAccount>(id)), ro(map), ro(pda::<WardensAccount>()), ro(pda::<BasicWardenNetworkAccount>()), ro(system_program::id())],
        )
    }

    pub fn register(&mut self, id: u32, who: u8) {
        self.register_with(id, k(who), config(k(who))).unwrap()
    }

    pub fn set_state(&mut self, id: u32, who: u8, active: bool) -> ProgramResult {
        self.run(Ix::UpdateBasicWardenState { warden_id: id, is_active: active }, &[signer(k(who)), ro(pda_at::<BasicWardenAccount>(id))])
    }

    pub fn set_lut(&mut self, id: u32, who: u8, lut: Pubkey) -> ProgramResult {
        self.run(Ix::UpdateBasicWardenLut { warden_id: id }, &[signer(k(who)), ro(pda_at::<BasicWardenAccount>(id)), ro(lut)])
    }

    pub fn confirm(&mut self, id: u32, who: u8) -> ProgramResult {
        self.run(Ix::ConfirmBasicWardenOperation { warden_id: id }, &[signer(k(who)), ro(pda_at::<BasicWardenAccount>(id))])
    }

    pub fn register_operator(&mut self, who: u8) -> ProgramResult {
        self.run(
            Ix::RegisterWardenOperator { ident: text("op"), url: text("url"), jurisdiction: Some(5) },
            &[signer(k(who)), ro(pda_of::<WardenOperatorAccount>(&k(who), None)), ro(system_program::id())],
        )
    }

    pub fn open_stats(&mut self, who: u8, year: u16) -> ProgramResult {
        self.run(
            Ix::OpenBasicWardenStatsAccount { year },
            &[ro(k(who)), signer(k(BOB)), ro(pda_of::<BasicWardenStatsAccount>(&k(who), Some(year as u32))), ro(system_program::id())],
        )
    }

    /// runs the tracking instruction as number `at` of a transaction of these instructions
    pub fn track(&mut self, who: u8, year: u16, can_fail: bool, tx: &[Instruction], at: u16) -> ProgramResult {
        let ixs: Vec<_> = tx
            .iter()
            .map(|i| solana_program::sysvar::instructions::BorrowedInstruction {
                program_id: &i.program_id,
                accounts: i.accounts.iter().map(|a| solana_program::sysvar::instructions::BorrowedAccountMeta { pubkey: &a.pubkey, is_signer: a.is_signer, is_writable: a.is_writable }).collect(),
                data: &i.data,
            })
            .collect();
        let mut data = instructions::construct_instructions_data(&ixs);
        instructions::store_current_index(&mut data, at);
        self.bank.put(instructions::id(), 1, data, k(99));
        self.run(
            Ix::TrackBasicWardenStats { year, can_fail },
            &[ro(k(who)), ro(pda_of::<BasicWardenStatsAccount>(&k(who), Some(year as u32))), ro(instructions::id())],
        )
    }

    /// attaches the right to attest as its authority would
    pub fn appoint(&mut self, id: u32, who: u8) {
        let a = Pubkey::new_from_array([0; 32]);
        self.bank.user(a, 1_000_000_000_000);
        self.run(
            Ix::AddMetadataAttester { warden_id: id, attester: k(who) },
            &[signer(a), ro(pda_of::<BasicWardenAttesterMapAccount>(&k(who), None)), ro(pda_at::<BasicWardenAccount>(id)), ro(system_program::id())],
        )
        .unwrap()
    }

    pub fn attest(&mut self, by: u32, who: u8, id: u32, member: u32, asn: Option<u32>, timezone: Timezone, region: WardenRegion, uses_proxy: bool) -> ProgramResult {
        self.run(
            Ix::AttestBasicWardenMetadata { attester_warden_id: by, warden_id: id, member_index: member, asn, timezone, region, uses_proxy },
            &[signer(k(who)), ro(pda_at::<BasicWardenAccount>(by)), ro(pda_at::<BasicWardenAccount>(id)), ro(pda::<BasicWardenNetworkAccount>())],
        )
    }

    pub fn apply(&mut self, id: u32, who: u8, quote: [u8; 558]) -> ProgramResult {
        self.run(
            Ix::StartApaGenesisWardenApplication { warden_id: id, quote_start: QuoteStart(quote) },
            &[signer(k(who)), ro(pda_of::<BasicWardenMapAccount>(&k(who), None)), ro(pda_at::<ApaWardenAccount>(id)), ro(pda::<ApaWardenNetworkAccount>()), ro(system_program::id())],
        )
    }

    pub fn complete(&mut self, id: u32, who: u8, quote: [u8; 558]) -> ProgramResult {
        self.run(
            Ix::CompleteApaGenesisWardenApplication { warden_id: id, quote_end: QuoteEnd(quote) },
            &[signer(k(who)), ro(pda_of::<BasicWardenMapAccount>(&k(who), None)), ro(pda::<ApaWardenNetworkAccount>())],
        )
    }

    pub fn confirm_apa(&mut self, id: u32, key: Pubkey, message: [u8; 32]) -> ProgramResult {
        self.run(Ix::ConfirmApaGenesisNetwork { warden_id: id, confirmation_message: message }, &[signer(key), ro(pda_at::<ApaWardenAccount>(id)), ro(pda::<ApaWardenNetworkAccount>())])
    }

    pub fn propose(&mut self, id: u32, who: u8, proposal: ApaProposal, mint: Pubkey) -> ProgramResult {
        let map = pda_of::<ApaTargetMapAccount>(&proposal.target, None);
        self.run(
            Ix::ProposeApaProposal { proposal_id: id, proposal },
            &[signer(k(who)), ro(pda_at::<ApaProposalAccount>(id)), ro(pda::<ApaProposalsAccount>()), ro(map), ro(mint), ro(system_program::id())],
        )
    }

    pub fn warden(&mut self, id: u32) -> ElusivBasicWarden {
        let d = self.bank.data(&pda_at::<BasicWardenAccount>(id)).clone();
        ElusivBasicWarden::deserialize(&mut &d[2..]).unwrap()
    }

    pub fn stats(&mut self, who: u8, year: u16) -> (WardenStatistics, u64) {
        let d = self.bank.data(&pda_of::<BasicWardenStatsAccount>(&k(who), Some(year as u32))).clone();
        let n = u64::from_le_bytes(d[4..12].try_into().unwrap());
        (WardenStatistics::deserialize(&mut &d[12..]).unwrap(), n)
    }

    pub fn proposal(&mut self, id: u32) -> ApaProposal {
        let d = self.bank.data(&pda_at::<ApaProposalAccount>(id)).clone();
        ApaProposal::deserialize(&mut &d[2..]).unwrap()
    }
}

/// an instruction of the payment program as it appears in a transaction
pub fn payment(tag: u8, accounts: &[Pubkey]) -> Instruction {
    Instruction { program_id: payment_program(), accounts: accounts.iter().map(|a| AccountMeta::new(*a, false)).collect(), data: vec![tag, 0] }
}
