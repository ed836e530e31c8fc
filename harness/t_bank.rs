use super::api::*;
use crate::state::*;
use fixed::types::I80F48;
use anchor_lang::prelude::*;

#[no_mangle]
pub extern "C" fn h_test1() {
    let a = I80F48::from_bits(sym_i128("a"));
    let b = I80F48::from_bits(sym_i128("b"));
    assume(a >= 0); assume(b >= 0);
    let c = a * b;
    check(c >= 0, "pos");
    check((Z::fx(c) * Z::pow2(48)).le(Z::fx(a) * Z::fx(b)), "le");
}
#[no_mangle]
pub extern "C" fn h_dep() {
    let mut bank: Bank = unsafe { std::mem::zeroed() };
    bank.deposit_index = I80F48::from_bits(sym_i128("di"));
    bank.borrow_index = I80F48::from_bits(sym_i128("bi"));
    let mut pos: TokenPosition = unsafe { std::mem::zeroed() };
    pos.in_use_count = 1;
    pos.indexed_position = I80F48::from_bits(sym_i128("ip"));
    let amt = sym_u64("amt");
    let r = bank.deposit(&mut pos, I80F48::from(amt), 0);
    if let Ok(r) = r {
        check(pos.native(&bank) >= 0, "x");
    }
}
