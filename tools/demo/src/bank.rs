//! A minimal in-process ledger that runs the programs' real entrypoint on in-memory accounts.
#![allow(dead_code)]
use solana_program::{
    account_info::AccountInfo, entrypoint::ProgramResult, instruction::Instruction, program_error::ProgramError,
    program_stubs::{set_syscall_stubs, SyscallStubs}, pubkey::Pubkey, rent::Rent, system_instruction::SystemInstruction, system_program,
};
use std::{cell::RefCell, collections::BTreeMap, rc::Rc};

pub type Entry = fn(&Pubkey, &[AccountInfo], &[u8]) -> ProgramResult;

#[derive(Clone, Debug, PartialEq)]
pub struct Acc {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
}

#[derive(Clone)]
pub struct Bank {
    pub accounts: BTreeMap<Pubkey, Acc>,
    pub program: Pubkey,
    pub entry: Entry,
}

thread_local! { static PROGRAM: RefCell<Pubkey> = RefCell::new(Pubkey::default()); }

struct Stubs;

fn leak(n: Vec<u8>) -> &'static mut [u8] {
    Box::leak(n.into_boxed_slice())
}

fn set_owner(a: &AccountInfo, o: &Pubkey) {
    unsafe { std::ptr::write_volatile(a.owner as *const Pubkey as *mut Pubkey, *o) }
}

fn set_data(a: &AccountInfo, d: Vec<u8>) {
    let s = leak(d);
    *a.data.borrow_mut() = unsafe { std::mem::transmute(s) };
}

fn move_lamports(from: &AccountInfo, to: &AccountInfo, n: u64) -> ProgramResult {
    let l = from.lamports().checked_sub(n).ok_or(ProgramError::InsufficientFunds)?;
    **from.lamports.borrow_mut() = l;
    **to.lamports.borrow_mut() += n;
    Ok(())
}

impl SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}

    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut Rent) = Rent::default() }
        0
    }

    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { (*(p as *mut solana_program::clock::Clock)).unix_timestamp = 1_700_000_000 }
        0
    }

    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        let program = PROGRAM.with(|p| *p.borrow());
        let pdas: Vec<Pubkey> = seeds.iter().map(|s| Pubkey::create_program_address(s, &program).unwrap_or_default()).collect();
        let mut l = Vec::new();
        for m in &ix.accounts {
            let i = infos.iter().find(|a| *a.key == m.pubkey).ok_or(ProgramError::NotEnoughAccountKeys)?;
            if m.is_signer && !i.is_signer && !pdas.contains(&m.pubkey) {
                return Err(ProgramError::MissingRequiredSignature);
            }
            let mut i = i.clone();
            i.is_signer = m.is_signer;
            l.push(i);
        }
        if ix.program_id == system_program::id() {
            match bincode_system(&ix.data)? {
                SystemInstruction::CreateAccount { lamports, space, owner } => {
                    if l[1].lamports() != 0 || l[1].data_len() != 0 || *l[1].owner != system_program::id() {
                        return Err(ProgramError::AccountAlreadyInitialized);
                    }
                    move_lamports(&l[0], &l[1], lamports)?;
                    set_data(&l[1], vec![0; space as usize]);
                    set_owner(&l[1], &owner);
                }
                SystemInstruction::Transfer { lamports } => {
                    if *l[0].owner != system_program::id() || l[0].data_len() != 0 {
                        return Err(ProgramError::InvalidArgument);
                    }
                    move_lamports(&l[0], &l[1], lamports)?;
                }
                SystemInstruction::Allocate { space } => set_data(&l[0], vec![0; space as usize]),
                SystemInstruction::Assign { owner } => set_owner(&l[0], &owner),
                _ => return Err(ProgramError::InvalidInstructionData),
            }
            Ok(())
        } else if ix.program_id == spl_token::id() {
            spl_token::processor::Processor::process(&ix.program_id, &l, &ix.data)
        } else if ix.program_id == spl_associated_token_account::id() {
            // payer, account, wallet, mint
            move_lamports(&l[0], &l[1], Rent::default().minimum_balance(165))?;
            set_data(&l[1], token_account(l[3].key, l[2].key, 0));
            set_owner(&l[1], &spl_token::id());
            Ok(())
        } else {
            Err(ProgramError::IncorrectProgramId)
        }
    }
}

fn u64_at(d: &[u8], i: usize) -> u64 {
    u64::from_le_bytes(d[i..i + 8].try_into().unwrap())
}

fn bincode_system(d: &[u8]) -> Result<SystemInstruction, ProgramError> {
    let key = |i: usize| Pubkey::new(&d[i..i + 32]);
    Ok(match u32::from_le_bytes(d[..4].try_into().unwrap()) {
        0 => SystemInstruction::CreateAccount { lamports: u64_at(d, 4), space: u64_at(d, 12), owner: key(20) },
        1 => SystemInstruction::Assign { owner: key(4) },
        2 => SystemInstruction::Transfer { lamports: u64_at(d, 4) },
        8 => SystemInstruction::Allocate { space: u64_at(d, 4) },
        _ => return Err(ProgramError::InvalidInstructionData),
    })
}

pub fn token_account(mint: &Pubkey, owner: &Pubkey, amount: u64) -> Vec<u8> {
    use solana_program::program_pack::Pack;
    let mut d = vec![0; 165];
    let mut a = spl_token::state::Account::default();
    a.mint = *mint;
    a.owner = *owner;
    a.amount = amount;
    a.state = spl_token::state::AccountState::Initialized;
    spl_token::state::Account::pack(a, &mut d).unwrap();
    d
}

pub fn token_amount(d: &[u8]) -> u64 {
    use solana_program::program_pack::Pack;
    spl_token::state::Account::unpack(d).map(|a| a.amount).unwrap_or(0)
}

impl Bank {
    pub fn new(program: Pubkey, entry: Entry) -> Self {
        set_syscall_stubs(Box::new(Stubs));
        PROGRAM.with(|p| *p.borrow_mut() = program);
        Bank { accounts: BTreeMap::new(), program, entry }
    }

    pub fn put(&mut self, k: Pubkey, lamports: u64, data: Vec<u8>, owner: Pubkey) {
        self.accounts.insert(k, Acc { lamports, data, owner });
    }

    /// an account of the program with zeroed data and exactly its rent
    pub fn program_account(&mut self, k: Pubkey, size: usize) {
        self.put(k, Rent::default().minimum_balance(size), vec![0; size], self.program);
    }

    pub fn user(&mut self, k: Pubkey, lamports: u64) {
        self.put(k, lamports, vec![], system_program::id());
    }

    pub fn lamports(&self, k: &Pubkey) -> u64 {
        self.accounts.get(k).map(|a| a.lamports).unwrap_or(0)
    }

    pub fn data(&mut self, k: &Pubkey) -> &mut Vec<u8> {
        &mut self.accounts.get_mut(k).unwrap().data
    }

    /// run one instruction; on failure nothing changes
    pub fn run(&mut self, data: &[u8], metas: &[(Pubkey, bool)]) -> ProgramResult {
        let mut made: BTreeMap<Pubkey, AccountInfo<'static>> = BTreeMap::new();
        let mut infos = Vec::new();
        for (k, signer) in metas {
            let a = self.accounts.get(k).cloned().unwrap_or(Acc { lamports: 0, data: vec![], owner: system_program::id() });
            let i = made.entry(*k).or_insert_with(|| AccountInfo {
                key: Box::leak(Box::new(*k)),
                is_signer: *signer,
                is_writable: true,
                lamports: Rc::new(RefCell::new(Box::leak(Box::new(a.lamports)))),
                data: Rc::new(RefCell::new(leak(a.data))),
                owner: Box::leak(Box::new(a.owner)),
                executable: false,
                rent_epoch: 0,
            });
            let mut i = i.clone();
            i.is_signer = *signer;
            infos.push(i);
        }
        let before: u128 = made.values().map(|i| i.lamports() as u128).sum();
        let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (self.entry)(&self.program, &infos, data))) {
            Ok(r) => r,
            Err(_) => return Err(ProgramError::Custom(0xdead)),
        };
        r?;
        let after: u128 = made.values().map(|i| i.lamports() as u128).sum();
        assert_eq!(before, after, "an instruction never creates or destroys lamports");
        for (k, i) in made {
            let owner = unsafe { std::ptr::read_volatile(i.owner as *const Pubkey) };
            let d = i.data.borrow().to_vec();
            self.accounts.insert(k, Acc { lamports: i.lamports(), data: d, owner });
        }
        Ok(())
    }
}

/// exit code of a demonstration: 0 if the property was seen to hold
pub fn expect(c: bool, what: &str) {
    if !c {
        eprintln!("property violated: {}", what);
        std::process::exit(1);
    }
}
