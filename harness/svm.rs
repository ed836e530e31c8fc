// The environment of a Solana instruction: accounts, clock, token program.
#![allow(dead_code)]
use super::api::*;
use anchor_lang::prelude::*;
use solana_program::instruction::Instruction;
use solana_program::program_error::ProgramError;

pub type Ai = AccountInfo<'static>;
type PR = std::result::Result<(), ProgramError>;

pub fn leak<T>(v: T) -> &'static mut T { Box::leak(Box::new(v)) }
pub fn leak_bytes(n: usize) -> &'static mut [u8] {
    let v: &'static mut [u128] = Box::leak(vec![0u128; (n + 15) / 16].into_boxed_slice());
    unsafe { std::slice::from_raw_parts_mut(v.as_mut_ptr() as *mut u8, n) }
}
/// distinct, readable keys
pub const fn key(kind: u8, n: u8) -> Pubkey { Pubkey::new_from_array([kind, n, 0x5a, 0x5a, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, kind, n, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]) }
pub const K_GROUP: u8 = 1;
pub const K_ACCOUNT: u8 = 2;
pub const K_OWNER: u8 = 3;
pub const K_BANK: u8 = 4;
pub const K_VAULT: u8 = 5;
pub const K_MINT: u8 = 6;
pub const K_ORACLE: u8 = 7;
pub const K_TOKACC: u8 = 8;
pub const K_PERP: u8 = 9;
pub const K_BIDS: u8 = 10;
pub const K_ASKS: u8 = 11;
pub const K_EVENTS: u8 = 12;
pub const K_ADMIN: u8 = 13;
pub const K_OTHER: u8 = 14;
pub const K_MINTINFO: u8 = 15;
pub const K_INSURANCE: u8 = 16;
pub const K_SERUM: u8 = 17;
pub const K_OO: u8 = 18;
pub const K_FALLBACK: u8 = 19;

pub fn ai(k: Pubkey, owner: Pubkey, data: &'static mut [u8]) -> Ai {
    AccountInfo::new(leak(k), false, true, leak(1_000_000_000u64), data, leak(owner), false, 0)
}
pub fn ai_plain(k: Pubkey) -> Ai { ai(k, solana_program::system_program::ID, leak_bytes(0)) }
pub fn signer(a: &Ai) -> Ai { let mut x = a.clone(); x.is_signer = true; x }
pub fn ro(a: &Ai) -> Ai { let mut x = a.clone(); x.is_writable = false; x }
pub fn program(k: Pubkey) -> Ai { let mut x = ai(k, solana_program::bpf_loader::ID, leak_bytes(0)); x.executable = true; x.is_writable = false; x }
pub fn token_program() -> Ai { program(anchor_spl::token::ID) }

// ---- SPL token accounts (only the fields the token program model needs) ----
pub fn token_account(k: Pubkey, mint: Pubkey, owner: Pubkey, amount: u64) -> Ai {
    let d = leak_bytes(165);
    d[0..32].copy_from_slice(mint.as_ref());
    d[32..64].copy_from_slice(owner.as_ref());
    d[64..72].copy_from_slice(&amount.to_le_bytes());
    d[108] = 1;
    ai(k, anchor_spl::token::ID, d)
}
pub fn token_amount(a: &Ai) -> u64 {
    let d = a.data.borrow();
    u64::from_le_bytes([d[64], d[65], d[66], d[67], d[68], d[69], d[70], d[71]])
}
pub fn set_token_amount(a: &AccountInfo, v: u64) { a.data.borrow_mut()[64..72].copy_from_slice(&v.to_le_bytes()) }

// ---- clock and cross-program calls ----
pub static mut CLOCK: Clock = Clock { slot: 0, epoch_start_timestamp: 0, epoch: 0, leader_schedule_epoch: 0, unix_timestamp: 0 };
/// number of token transfers made, and their total
pub static mut TRANSFERS: u64 = 0;
pub static mut MOVED: u64 = 0;
/// report failing transfers to the caller instead of discarding the path
pub static mut TOKEN_ERR: bool = false;
pub fn set_clock(ts: u64, slot: u64) { unsafe { CLOCK.unix_timestamp = ts as i64; CLOCK.slot = slot; } }

#[no_mangle]
pub fn rsym_hook_clock_get() -> std::result::Result<Clock, ProgramError> { unsafe { Ok(CLOCK.clone()) } }
#[no_mangle]
pub fn rsym_hook_rent_get() -> std::result::Result<Rent, ProgramError> { Ok(Rent::default()) }
#[no_mangle]
pub unsafe fn rsym_hook_sol_memmove(dst: *mut u8, src: *mut u8, n: usize) { std::ptr::copy(src, dst, n) }
/// hash maps are seeded with fixed keys
#[no_mangle]
pub fn rsym_hook_random_keys() -> (u64, u64) { (1, 2) }
/// stands for the hash in derived addresses: any fixed injection-like mix will do, equal inputs give equal keys
pub fn derive(seeds: &[&[u8]], program: &Pubkey) -> Pubkey {
    let mut r = [0xA5u8; 32];
    let mut n = 0usize;
    for s in seeds { for b in s.iter() { r[n & 31] = r[n & 31].wrapping_mul(31).wrapping_add(*b).wrapping_add(n as u8); n += 1; } }
    let p = program.to_bytes();
    r[31] = r[31].wrapping_add(p[0]).wrapping_add(p[1].wrapping_mul(3));
    Pubkey::new_from_array(r)
}
#[no_mangle]
pub fn rsym_hook_find_program_address(seeds: &[&[u8]], program: &Pubkey) -> (Pubkey, u8) { (derive(seeds, program), 255) }
#[no_mangle]
pub fn rsym_hook_invoke(i: &Instruction, infos: &[AccountInfo]) -> PR { rsym_hook_invoke_signed(i, infos, &[]) }
#[no_mangle]
#[inline(never)]
pub fn rsym_hook_invoke_signed(i: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> PR {
    // like solana_program::program::invoke_signed: the accounts passed must not be borrowed
    for m in i.accounts.iter() {
        for info in infos.iter() {
            if m.pubkey == *info.key {
                if m.is_writable {
                    let _ = info.try_borrow_mut_lamports()?;
                    let _ = info.try_borrow_mut_data()?;
                } else {
                    let _ = info.try_borrow_lamports()?;
                    let _ = info.try_borrow_data()?;
                }
                break;
            }
        }
    }
    if i.program_id == anchor_spl::token::ID { spl_token_model(i, infos, seeds) } else { panic!("call of an unmodelled program") }
}
fn find<'a, 'b>(infos: &'a [AccountInfo<'b>], k: &Pubkey) -> &'a AccountInfo<'b> {
    for a in infos { if a.key == k { return a; } }
    panic!("account missing from a cross-program call")
}
/// Transfer (3) of the SPL token program: balances move, the source's owner must have signed
/// (directly, or the program signs for the group with the group's seeds).
fn spl_token_model(i: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> PR {
    if i.data[0] != 3 { panic!("unmodelled token instruction"); }
    let d = &i.data;
    let amount = u64::from_le_bytes([d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8]]);
    let (from, to, auth) = (find(infos, &i.accounts[0].pubkey), find(infos, &i.accounts[1].pubkey), find(infos, &i.accounts[2].pubkey));
    let owner_ok = from.data.borrow()[32..64] == *auth.key.as_ref();
    let signed = auth.is_signer || program_signs(auth.key, seeds);
    if !(owner_ok && signed) { return Err(ProgramError::MissingRequiredSignature); }
    let mint_ok = from.data.borrow()[0..32] == to.data.borrow()[0..32];
    if !mint_ok { return Err(ProgramError::InvalidArgument); }
    let a = u64::from_le_bytes(from.data.borrow()[64..72].try_into().unwrap());
    // a failing cross-program call ends the transaction: such paths have no effect
    if unsafe { TOKEN_ERR } { if a < amount { return Err(ProgramError::Custom(1)); } } else { assume(a >= amount); }
    unsafe { TRANSFERS += 1; MOVED = MOVED.wrapping_add(amount); }
    if from.key == to.key { return Ok(()); }
    set_token_amount(from, a.wrapping_sub(amount));
    let b = u64::from_le_bytes(to.data.borrow()[64..72].try_into().unwrap());
    assume(b <= u64::MAX - amount);
    set_token_amount(to, b.wrapping_add(amount));
    Ok(())
}
/// does the calling program sign for `auth` with these seeds? (set by the harness: the program's own derived addresses)
pub static mut DERIVED: fn(&Pubkey, &[&[u8]]) -> bool = |_, _| false;
fn program_signs(auth: &Pubkey, seeds: &[&[&[u8]]]) -> bool {
    let mut r = false;
    for s in seeds { r = r || unsafe { DERIVED(auth, s) }; }
    r
}
struct Stubs;
impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, m: &str) { if std::env::var("RSYM_LOG").is_ok() { eprintln!("log: {}", m); } }
    fn sol_log_data(&self, _: &[&[u8]]) {}
    fn sol_invoke_signed(&self, i: &Instruction, a: &[AccountInfo], s: &[&[&[u8]]]) -> PR { rsym_hook_invoke_signed(i, a, s) }
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 { unsafe { std::ptr::write(p as *mut Clock, CLOCK.clone()); } 0 }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 { unsafe { std::ptr::write(p as *mut Rent, Rent::default()); } 0 }
}
/// call first
pub fn begin_svm() {
    if !symbolic() {
        solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
        panic_is_abort();
    }
}

