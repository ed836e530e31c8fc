// Specification-side helpers shared by harnesses.
#![allow(dead_code)]
use super::api::*;
use super::world::*;
use crate::state::*;
use fixed::types::I80F48;

pub const S96: u32 = 96;
/// exact value of a token position in native units scaled by 2^96
pub fn exact(indexed: I80F48, b: &Bank) -> Z {
    let p = Z::fx(indexed);
    Z::ite(p.ge(Z::s(0)), p * Z::fx(b.deposit_index), p * Z::fx(b.borrow_index))
}
/// integer native amount scaled by 2^96
pub fn nat96(a: u64) -> Z { Z::u(a as u128) * Z::pow2(96) }
pub fn one96() -> Z { Z::pow2(96) }
/// I80F48 scaled by 2^96
pub fn fx96(x: I80F48) -> Z { Z::fx(x) * Z::pow2(48) }
pub fn zero() -> Z { Z::s(0) }
/// I80F48 product as the program computes it (rounded down)
pub fn mulfx(a: I80F48, b: I80F48) -> Z { (Z::fx(a) * Z::fx(b)).div_floor(Z::pow2(48)) }

/// symbolic indexes, position and totals of a bank
pub fn sym_bank(b: &mut Bank) {
    b.deposit_index = in_fx("deposit_index", ONE, ONE << 16);
    b.borrow_index = in_fx("borrow_index", ONE, ONE << 16);
    b.indexed_deposits = in_fx("indexed_deposits", 0, ONE << 46);
    b.indexed_borrows = in_fx("indexed_borrows", 0, ONE << 46);
}
/// what of a bank an operation may change
pub struct BankBefore { pub dep: I80F48, pub bor: I80F48, pub dust: I80F48, pub fees: I80F48, pub liqfees: I80F48, pub colfees: I80F48, pub di: I80F48, pub bi: I80F48 }
pub fn snap(b: &Bank) -> BankBefore {
    BankBefore { dep: b.indexed_deposits, bor: b.indexed_borrows, dust: b.dust, fees: b.collected_fees_native, liqfees: b.collected_liquidation_fees, colfees: b.collected_collateral_fees, di: b.deposit_index, bi: b.borrow_index }
}
/// the totals of the bank moved by exactly what its positions moved by (sum of indexed position changes)
pub fn check_totals(b: &Bank, s: &BankBefore, dpos: Z) {
    check((Z::fx(b.indexed_deposits) - Z::fx(s.dep) - Z::fx(b.indexed_borrows) + Z::fx(s.bor)).eq(dpos), "the bank's totals follow its positions");
    check(and(b.deposit_index == s.di, b.borrow_index == s.bi), "interest indexes are untouched");
}
