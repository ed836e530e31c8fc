// X01: the margin-trade program
//@crate mt-harness
//@mod svm
//@fn h_trade reach=ok,refused,loan,noloan : every amount and balance (u64), any bump, withdraw authority signing or not, the accounts' authorities and mints right or wrong, program-owned or not
//@fn h_same reach=ok : the same token account on both sides
//@fn h_succeeds reach=ok : funded and authorized: must succeed; every amount and balance
//@fn h_program reach=refused : another program instead of the token program
//@assume SPL token transfer follows its documented behaviour; the address derived from ("MarginTrade", bump) is one fixed key for one fixed bump
use super::api::*;
use super::svm::*;
use anchor_lang::prelude::*;
use anchor_lang::{AnchorSerialize, InstructionData};

const BUMP: u8 = 251;
fn derived(auth: &Pubkey, s: &[&[u8]]) -> bool { *auth == key(K_OTHER, 9) && s.len() == 2 && s[0] == b"MarginTrade" && s[1] == [BUMP] }
fn call(accs: &'static [Ai], from: u64, bump: u8, to: u64) -> bool {
    let mut d = margin_trade::instruction::MarginTrade { amount_from: from, deposit_account_owner_bump_seeds: bump, amount_to: to }.data();
    let _ = &mut d;
    margin_trade::entry(&margin_trade::ID, accs, &d).is_ok()
}
struct W { wo: Ai, w: Ai, d: Ai, dn: Ai }
fn world(w_amt: u64, d_amt: u64) -> W {
    unsafe { DERIVED = derived; TOKEN_ERR = true; }
    begin_svm();
    W { wo: ai_plain(key(K_OWNER, 0)), w: token_account(key(K_VAULT, 0), key(K_MINT, 0), key(K_OWNER, 0), w_amt), d: token_account(key(K_TOKACC, 0), key(K_MINT, 0), key(K_OTHER, 9), d_amt), dn: ai_plain(key(K_OTHER, 9)) }
}
#[no_mangle]
pub extern "C" fn h_trade() {
    let (w0, d0, from, to, bump) = (sym_u64("withdraw_balance"), sym_u64("deposit_balance"), sym_u64("amount_from"), sym_u64("amount_to"), sym_u8("bump"));
    let mut x = world(w0, d0);
    x.wo.is_signer = sym_bool("authority_signs");
    let twist = in_u8("twist", 0, 6);
    if twist == 1 { x.wo = if x.wo.is_signer { signer(&ai_plain(key(K_OWNER, 1))) } else { ai_plain(key(K_OWNER, 1)) }; }
    if twist == 2 { x.dn = ai_plain(key(K_OTHER, 8)); }
    if twist == 3 { x.d = token_account(key(K_TOKACC, 0), key(K_MINT, 1), key(K_OTHER, 9), d0); }
    if twist == 4 { let fake = x.w.clone(); x.w = fake; x.w.owner = leak(key(K_OTHER, 5)); }
    if twist == 5 { x.d.is_writable = false; }
    if twist == 6 { x.w.is_writable = false; }
    let r = call(leak(vec![x.wo.clone(), x.w.clone(), x.d.clone(), x.dn.clone(), token_program()]), from, bump, to);
    let (w1, d1) = (token_amount(&x.w), token_amount(&x.d));
    if !r { reach("refused"); return; }
    check(twist != 3, "tokens of different mints are never exchanged");
    check(twist != 4, "accounts that are not the token program's are refused");
    check(and(twist != 5, twist != 6), "read-only accounts are refused");
    check(or(from == 0, and(twist != 1, x.wo.is_signer)), "the loan is taken only with the signature of its owner");
    check(and(twist != 2, bump == BUMP), "the return is signed by the program's derived address");
    let z = |v: u64| Z::u(v as u128);
    check(z(w1).eq(z(w0) - z(from) + z(to)), "the withdraw account pays the loan and receives the return");
    check(z(d1).eq(z(d0) + z(from) - z(to)), "the deposit account receives the loan and pays the return");
    check(unsafe { TRANSFERS } == if from > 0 { 2 } else { 1 }, "no other transfer is made");
    reach("ok");
    if from > 0 { reach("loan"); } else { reach("noloan"); }
}
#[no_mangle]
pub extern "C" fn h_same() {
    let (w0, from, to) = (sym_u64("balance"), sym_u64("amount_from"), sym_u64("amount_to"));
    let mut x = world(w0, 0);
    x.wo.is_signer = true;
    // one account, owned by the derived address
    let r = call(leak(vec![x.wo.clone(), x.d.clone(), x.d.clone(), x.dn.clone(), token_program()]), from, BUMP, to);
    if r { check(token_amount(&x.d) == 0, "an account that trades with itself keeps its balance"); check(to == 0, "an empty account returns nothing"); check(from == 0, "the loan is taken only with the signature of its owner"); reach("ok"); }
}
#[no_mangle]
pub extern "C" fn h_succeeds() {
    let (w0, d0, from, to) = (sym_u64("withdraw_balance"), sym_u64("deposit_balance"), sym_u64("amount_from"), sym_u64("amount_to"));
    let mut x = world(w0, d0);
    x.wo.is_signer = true;
    let z = |v: u64| Z::u(v as u128);
    let top = Z::u(u64::MAX as u128);
    assume(from <= w0);
    assume((z(d0) + z(from)).le(top));
    assume(z(to).le(z(d0) + z(from)));
    assume((z(w0) - z(from) + z(to)).le(top));
    panic_is_violation("a funded and authorized trade succeeds");
    let r = call(leak(vec![x.wo.clone(), x.w.clone(), x.d.clone(), x.dn.clone(), token_program()]), from, BUMP, to);
    check(r, "a funded and authorized trade succeeds");
    reach("ok");
}
#[no_mangle]
pub extern "C" fn h_program() {
    let mut x = world(sym_u64("withdraw_balance"), sym_u64("deposit_balance"));
    x.wo.is_signer = true;
    let r = call(leak(vec![x.wo.clone(), x.w.clone(), x.d.clone(), x.dn.clone(), program(key(K_OTHER, 3))]), sym_u64("amount_from"), BUMP, sym_u64("amount_to"));
    check(!r, "only the token program is called");
    reach("refused");
}
