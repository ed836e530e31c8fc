// R01: oracle prices: decoding, staleness, confidence, fallback
//@mod spec
//@fn h_check reach=fresh,stale,stale_by_time,unconfident : every slot, time up to 2^50, setting -1..=u32::MAX, price 0..2^90 raw, deviation +-2^100 raw, confidence filter by case
//@fn h_stub reach=price : every stub price, deviation and slot, being the primary or the fallback account
//@fn h_pyth reach=trading,previous,negative : every price up to 2^63 at scales 10^-12..=10^0, any confidence, all five statuses, base decimals 0, 5, 6, 8 and 9
//@fn h_pyth_large reach=price : price up to 2^30 at scales 10^1..=10^9
//@fn h_pyth_v2 reach=full,partial,negative : every price, confidence, slot and time, both verification levels
//@fn h_clmm reach=price,no_quote,missing_feed : both pools, all mint pairs of usdc, sol and two others, eight square roots of prices, any feed price up to 2^40 and confidence
//@fn h_clmm_load reach=ok,refused : every discriminator and length and owner of a pool account
//@fn h_fallback reach=primary,fallback,refused,wrong_primary,wrong_fallback : stub oracles of any slot, price and deviation up to 2^60 raw, with and without fallback, any of two keys
//@fn h_perp reach=price,refused,wrong : the perp market's oracle, same ranges
//@fn h_type reach=stub,pyth,pool,other,unknown : any first eight bytes, six owners
use super::api::*;
use super::world::*;
use crate::accounts_zerocopy::*;
use crate::state::*;
use anchor_lang::prelude::*;
use fixed::types::I80F48;

fn fx(b: i128) -> I80F48 { I80F48::from_bits(b) }
type R = AccountInfoRef<'static, 'static>;
fn rf(a: &Ai) -> &'static R { leak(AccountInfoRef::borrow(leak(a.clone())).unwrap()) }
fn infos(o: &Ai) -> OracleAccountInfos<'static, R> { OracleAccountInfos { oracle: rf(o), fallback_opt: None, usdc_opt: None, sol_opt: None } }
fn config(staleness: i64) -> OracleConfig {
    // 0, 1/8, 1, 1000
    OracleConfig { conf_filter: fx(Z_CONF[case("conf_filter", 4) as usize]), max_staleness_slots: staleness, reserved: [0; 72] }
}
const Z_CONF: [i128; 4] = [0, ONE / 8, ONE, 1000 * ONE];
fn z64(v: u64) -> Z { Z::u(v as u128) }
/// is the oracle too old?
fn stale(last: Z, time: Option<Z>, max: i64, now_slot: u64, now_ts: u64) -> bool {
    let m = Z::s(max as i128);
    let by_slot = (last + m).lt(z64(now_slot).min(Z::u(u64::MAX as u128)));
    let by_time = match time { Some(t) => (t * Z::s(1000) + m * Z::s(450)).lt(z64(now_ts) * Z::s(1000)), None => false };
    and(max >= 0, or(by_slot, by_time))
}
fn unsure(price: Z, dev: Z, conf: I80F48) -> bool { dev.gt((price * Z::fx(conf)).div_floor(Z::s(ONE))) }
#[no_mangle]
pub extern "C" fn h_check() {
    begin();
    let max = in_i64("max_staleness_slots", -1, u32::MAX as i64);
    let c = config(max);
    let timed = case("timed", 2) == 1;
    let t = in_u64("time", 0, 1 << 50);
    let s = OracleState { price: in_fx("price", 0, 1 << 90), deviation: in_fx("deviation", -(1 << 100), 1 << 100), last_update_slot: sym_u64("slot"),
        last_update_time: if timed { Some(t) } else { None }, oracle_type: OracleType::PythV2 };
    let (now_slot, now_ts) = (sym_u64("now_slot"), in_u64("now_ts", 0, 1 << 50));
    let old = stale(z64(s.last_update_slot), if timed { Some(z64(t)) } else { None }, max, now_slot, now_ts);
    let vague = unsure(Z::fx(s.price), Z::fx(s.deviation), c.conf_filter);
    let a = ok(s.check_staleness(&c, now_slot, now_ts));
    let b = ok(s.check_confidence(&c));
    check(iff(a, !old), "an oracle is stale exactly when older than the configured number of slots");
    check(iff(b, !vague), "an oracle is confident exactly when its deviation is within the configured part of its price");
    let both = ok(s.check_confidence_and_maybe_staleness(&c, Some((now_ts, now_slot))));
    check(iff(both, and(!old, !vague)), "a price is valid exactly when fresh and confident");
    check(ok(s.check_confidence_and_maybe_staleness(&c, None)) == b, "without a time only the confidence is checked");
    if both { reach("fresh"); }
    if !a { if timed { reach("stale_by_time"); } else { reach("stale"); } }
    if !b { reach("unconfident"); }
}
#[no_mangle]
pub extern "C" fn h_stub() {
    begin();
    let (o, so) = stub_oracle(0, sym_fx("price"));
    so.deviation = sym_fx("deviation");
    so.last_update_slot = sym_u64("slot");
    let (other, _) = stub_oracle(1, fx(77 * ONE));
    let fb = case("as_fallback", 2) == 1;
    let mut i = infos(if fb { &other } else { &o });
    i.fallback_opt = Some(rf(if fb { &o } else { &other }));
    let d = in_u8("decimals", 0, 18);
    panic_is_violation("a stub oracle is always readable");
    let s = val(if fb { fallback_oracle_state_unchecked(&i, d) } else { oracle_state_unchecked(&i, d) });
    let s = match s { Some(s) => s, None => { check(false, "a stub oracle is readable"); return } };
    check(s.price == so.price, "the stub price is used as it is");
    check(s.deviation == if so.deviation == 0 { I80F48::MIN } else { so.deviation }, "an unset deviation is none");
    check(s.last_update_slot == if so.last_update_slot == 0 { u64::MAX } else { so.last_update_slot }, "an unset slot is never stale");
    check(s.last_update_time.is_none(), "stub oracles have no time");
    reach("price");
}
fn sym_fx(n: &'static str) -> I80F48 { fx(sym_i128(n)) }

/// one unit of 10^e, in fixed point, to the nearest
fn ten(e: i32) -> Z {
    let p = Z::u(10u128.pow(e.unsigned_abs()));
    if e >= 0 { p * Z::s(ONE) } else { (Z::s(2 * ONE) + p).div_floor(p * Z::s(2)) }
}
const DEC: [u8; 5] = [6, 0, 5, 8, 9];
pub struct Pyth { a: Ai, p: &'static mut pyth_sdk_solana::state::PriceAccount }
fn pyth(k: Pubkey, expo: i32) -> Pyth {
    let d = leak_bytes(std::mem::size_of::<pyth_sdk_solana::state::PriceAccount>());
    let p = unsafe { &mut *(d.as_mut_ptr() as *mut pyth_sdk_solana::state::PriceAccount) };
    p.magic = pyth_sdk_solana::state::MAGIC;
    p.ver = 2;
    p.atype = 3;
    p.expo = expo;
    Pyth { a: ai(k, key(K_OTHER, 9), d), p }
}
fn status(p: &mut Pyth, s: u32) { unsafe { *(&mut p.p.agg.status as *mut _ as *mut u32) = s; } }
fn pyth_check(scale: i32, range: i64, crange: u64) {
    let dec = DEC[case("decimals", 5) as usize];
    let mut p = pyth(key(K_ORACLE, 0), scale - 6 + dec as i32);
    let st = case("status", 5);
    status(&mut p, st);
    p.p.agg.price = in_i64("price", -range, range);
    p.p.agg.conf = in_u64("conf", 0, crange);
    p.p.agg.pub_slot = sym_u64("pub_slot");
    p.p.prev_price = in_i64("prev_price", -range, range);
    p.p.prev_conf = in_u64("prev_conf", 0, crange);
    p.p.prev_slot = sym_u64("prev_slot");
    p.p.last_slot = sym_u64("last_slot");
    p.p.valid_slot = sym_u64("valid_slot");
    let trading = st == 1;
    let (price, conf, slot) = if trading { (p.p.agg.price, p.p.agg.conf, p.p.agg.pub_slot) } else { (p.p.prev_price, p.p.prev_conf, p.p.prev_slot) };
    panic_is_violation("a price in range is readable");
    let r = val(oracle_state_unchecked(&infos(&p.a), dec));
    check(r.is_some() == (price >= 0), "negative prices are refused and all others are read");
    match r {
        Some(s) => {
            check(Z::fx(s.price).eq(Z::s(price as i128) * ten(scale)), "the price is that of native tokens in native quote");
            check(Z::fx(s.deviation).eq(z64(conf) * ten(scale)), "the deviation is scaled as the price is");
            check(s.last_update_slot == slot, "the slot is that of the price used");
            check(s.last_update_time.is_none(), "pyth prices age by slot");
            reach(if trading { "trading" } else { "previous" });
            reach("price");
        }
        None => reach("negative"),
    }
}
#[no_mangle]
pub extern "C" fn h_pyth() { begin(); let e = -(case("scale", 13) as i32); pyth_check(e, i64::MAX, u64::MAX) }
#[no_mangle]
pub extern "C" fn h_pyth_large() { begin(); let e = 1 + case("scale", 9) as i32; pyth_check(e, 1 << 30, 1 << 30) }
#[no_mangle]
pub extern "C" fn h_pyth_v2() {
    begin();
    let full = case("full", 2) == 1;
    let dec = DEC[case("decimals", 5) as usize];
    let scale = -(case("scale", 13) as i32);
    let expo = scale - 6 + dec as i32;
    let d = leak_bytes(134);
    let (price, conf, time, slot) = (sym_i64("price"), sym_u64("conf"), sym_i64("publish_time"), sym_u64("posted_slot"));
    let mut at = 40;
    d[..8].copy_from_slice(&[34, 241, 35, 99, 157, 126, 244, 205]);
    if full { d[at] = 1; at += 1; } else { d[at] = 0; d[at + 1] = sym_u8("signatures"); at += 2; }
    at += 32;
    for b in [price.to_le_bytes(), conf.to_le_bytes()] { d[at..at + 8].copy_from_slice(&b); at += 8; }
    d[at..at + 4].copy_from_slice(&expo.to_le_bytes()); at += 4;
    for b in [time.to_le_bytes(), sym_i64("prev_publish_time").to_le_bytes(), sym_i64("ema_price").to_le_bytes(), sym_i64("ema_conf").to_le_bytes(), slot.to_le_bytes()] { d[at..at + 8].copy_from_slice(&b); at += 8; }
    let a = ai(key(K_ORACLE, 0), pyth_solana_receiver_sdk::ID, d);
    panic_is_violation("a price in range is readable");
    let r = val(oracle_state_unchecked(&infos(&a), dec));
    check(r.is_some() == (full && price >= 0), "fully verified prices, if not negative, are read");
    match r {
        Some(s) => {
            check(Z::fx(s.price).eq(Z::s(price as i128) * ten(scale)), "the price is that of native tokens in native quote");
            check(Z::fx(s.deviation).eq(z64(conf) * ten(scale)), "the deviation is scaled as the price is");
            check(s.last_update_slot == slot, "the slot is the posted one");
            check(s.last_update_time == Some(time as u64), "the price ages by its publish time too");
            reach("full");
        }
        None => reach(if full { "negative" } else { "partial" }),
    }
}
/// square roots of prices in Q64.64, with the price and its inverse (if exact in binary)
const SQRT: [u128; 8] = [1 << 64, 1 << 65, 1 << 63, 3 << 62, 1 << 60, 1 << 70, (1 << 64) + (1 << 63), 5 << 60];
fn mints(i: u32) -> Pubkey { match i { 0 => usdc_mint_mainnet::ID, 1 => sol_mint_mainnet::ID, 2 => key(K_MINT, 0), _ => key(K_MINT, 1) } }
fn pool(raydium: bool, sqrt: u128, a: Pubkey, b: Pubkey) -> Ai {
    let d = leak_bytes(if raydium { 1544 } else { 653 });
    d[..8].copy_from_slice(&if raydium { [247, 237, 227, 245, 215, 195, 222, 70] } else { [63u8, 149, 209, 12, 225, 128, 99, 9] });
    let (p, ma, mb) = if raydium { (253, 73, 105) } else { (65, 101, 181) };
    d[p..p + 16].copy_from_slice(&sqrt.to_le_bytes());
    d[ma..ma + 32].copy_from_slice(a.as_ref());
    d[mb..mb + 32].copy_from_slice(b.as_ref());
    ai(key(K_ORACLE, 0), if raydium { raydium_mainnet::ID } else { orca_mainnet_whirlpool::ID }, d)
}
#[no_mangle]
pub extern "C" fn h_clmm() {
    begin();
    let (x, y) = (case("mint_a", 4), case("mint_b", 4));
    assume(x != y);
    let raydium = case("raydium", 2) == 1;
    let sqrt = SQRT[case("sqrt", 8) as usize];
    let o = pool(raydium, sqrt, mints(x), mints(y));
    // the quote token is usdc if present, else sol
    let quote = if x == 0 || y == 0 { 0 } else if x == 1 || y == 1 { 1 } else { 2 };
    let inverted = x == quote;
    check(iff(ok(check_is_valid_fallback_oracle(rf(&o))), quote < 2), "a pool is a valid fallback exactly when usdc or sol is a side of it");
    let (mut usdc, mut sol) = (pyth(pyth_mainnet_usdc_oracle::ID, -8), pyth(pyth_mainnet_sol_oracle::ID, -8));
    for (p, other) in [(&mut usdc, quote != 0), (&mut sol, quote != 1)] {
        status(p, 1);
        if other { p.p.agg.price = 12345; p.p.agg.conf = 678; p.p.agg.pub_slot = 99; continue; }
        p.p.agg.price = in_i64("price", 0, 1 << 40);
        p.p.agg.conf = in_u64("conf", 0, 1 << 40);
        p.p.agg.pub_slot = sym_u64("slot");
    }
    let feed = case("feed", 2) == 1;
    let mut i = infos(&o);
    if feed || quote != 0 { i.usdc_opt = Some(rf(&usdc.a)); }
    if feed || quote != 1 { i.sol_opt = Some(rf(&sol.a)); }
    let r = val(oracle_state_unchecked(&i, 9));
    check(r.is_some() == (feed && quote < 2), "a pool has a price exactly when its quote token has a feed");
    match r {
        Some(s) => {
            let q = if quote == 0 { &usdc } else { &sol };
            let unit = if quote == 0 { ten(-8) } else { ten(-11) };
            let (qp, qd) = (Z::s(q.p.agg.price as i128) * unit, z64(q.p.agg.conf) * unit);
            // sqrt^2 in Q128.128, cut to 48 bits
            let s2 = Z::u(sqrt) * Z::u(sqrt);
            let tol;
            let p = if inverted { tol = Z::s(1); (Z::pow2(176)).div_floor(s2) } else { tol = Z::s(0); s2.div_floor(Z::pow2(80)) };
            // an inverted price goes through floating point: 1 unit either way
            let within = |v: I80F48, q: Z| and(Z::fx(v).ge(((p - tol) * q).div_floor(Z::s(ONE))), Z::fx(v).le(((p + tol) * q).div_floor(Z::s(ONE))));
            check(within(s.price, qp), "the price is the pool's price times that of its quote token");
            check(within(s.deviation, qd), "the pool price is as uncertain as its quote token in proportion");
            check(s.last_update_slot == q.p.agg.pub_slot, "the price is as old as the quote token's");
            reach("price");
        }
        None => reach(if quote == 2 { "no_quote" } else { "missing_feed" }),
    }
}
#[no_mangle]
pub extern "C" fn h_clmm_load() {
    begin();
    let raydium = case("raydium", 2) == 1;
    let o = pool(raydium, 1 << 64, mints(2), mints(1));
    let full = o.data.borrow().len();
    let short = case("short", 3) as usize;
    let d = leak_bytes(full + 1 - short);
    let n = d.len().min(full);
    d[..n].copy_from_slice(&o.data.borrow()[..n]);
    let same = sym_u64("discriminator");
    d[..8].copy_from_slice(&same.to_le_bytes());
    let owner = case("owner", 3);
    let a = ai(key(K_ORACLE, 0), match owner { 0 => raydium_mainnet::ID, 1 => orca_mainnet_whirlpool::ID, _ => key(K_OTHER, 1) }, d);
    let want = u64::from_le_bytes(o.data.borrow()[..8].try_into().unwrap());
    panic_is_violation("a pool account is refused cleanly");
    let r = val(if raydium { load_raydium_pool_state(rf(&a)) } else { load_orca_pool_state(rf(&a)) });
    check(r.is_some() == (same == want && short == 1 && owner == if raydium { 0 } else { 1 }), "a pool has the discriminator, length and owner of its program");
    match r {
        Some(p) => { check(p.sqrt_price == 1 << 64 && p.token_mint_a == mints(2) && p.token_mint_b == mints(1), "the pool is read from its published layout"); reach("ok"); }
        None => reach("refused"),
    }
}
pub struct F { o: [Ai; 2], so: [&'static mut StubOracle; 2], bad: [bool; 2], now: Option<(u64, u64)>, cfg: OracleConfig }
fn two() -> F {
    let (o0, s0) = stub_oracle(0, in_fx("price", 0, 1 << 60));
    let (o1, s1) = stub_oracle_at(key(K_FALLBACK, 0), 0, in_fx("fallback_price", 0, 1 << 60));
    s0.deviation = in_fx("deviation", 1, 1 << 60);
    s0.last_update_slot = in_u64("slot", 1, u64::MAX);
    s1.deviation = in_fx("fallback_deviation", 1, 1 << 60);
    s1.last_update_slot = in_u64("fallback_slot", 1, u64::MAX);
    let max = in_i64("max_staleness_slots", -1, u32::MAX as i64);
    let cfg = config(max);
    let at = sym_u64("now_slot");
    let now = if case("timed", 2) == 1 { Some((1, at)) } else { None };
    let bad = |s: &StubOracle| or(unsure(Z::fx(s.price), Z::fx(s.deviation), cfg.conf_filter), and(now.is_some(), stale(z64(s.last_update_slot), None, max, at, 1)));
    let bad = [bad(s0), bad(s1)];
    F { o: [o0, o1], so: [s0, s1], bad, now, cfg }
}
#[no_mangle]
pub extern "C" fn h_fallback() {
    begin();
    let f = two();
    let (_, b) = bank(0);
    b.oracle_config = f.cfg;
    b.oracle = if case("oracle", 2) == 0 { key(K_ORACLE, 0) } else { key(K_ORACLE, 5) };
    b.fallback_oracle = match case("fallback_oracle", 3) { 0 => key(K_FALLBACK, 0), 1 => Pubkey::default(), _ => key(K_FALLBACK, 5) };
    let mut i = infos(&f.o[0]);
    let given = case("given", 2) == 1;
    if given { i.fallback_opt = Some(rf(&f.o[1])); }
    let right = b.oracle == key(K_ORACLE, 0);
    let fright = b.fallback_oracle == key(K_FALLBACK, 0);
    let r = val(b.oracle_price(&i, f.now));
    check(r.is_some() == and(right, or(!f.bad[0], and(given && fright, !f.bad[1]))), "a bank has a price exactly when its own oracle or, if that is bad, its own fallback oracle is valid");
    match r {
        Some(p) => {
            check(p == if !f.bad[0] { f.so[0].price } else { f.so[1].price }, "the fallback is used exactly when the oracle is invalid");
            if f.bad[0] { reach("fallback"); } else { reach("primary"); }
        }
        None => { if !right { reach("wrong_primary"); } else if given && !fright { reach("wrong_fallback"); } else { reach("refused"); } }
    }
}
#[no_mangle]
pub extern "C" fn h_perp() {
    begin();
    let f = two();
    let (_, m) = perp_market(0);
    m.oracle_config = f.cfg;
    m.oracle = if case("oracle", 2) == 0 { key(K_ORACLE, 0) } else { key(K_ORACLE, 5) };
    let mut i = infos(&f.o[0]);
    if case("given", 2) == 1 { i.fallback_opt = Some(rf(&f.o[1])); }
    let right = m.oracle == key(K_ORACLE, 0);
    let r = val(m.oracle_price(&i, f.now));
    check(r.is_some() == and(right, !f.bad[0]), "a perp market has a price exactly when its own oracle is valid");
    match r {
        Some(p) => { check(p == f.so[0].price, "the price is the oracle's"); reach("price"); }
        None => reach(if right { "refused" } else { "wrong" }),
    }
}
#[no_mangle]
pub extern "C" fn h_type() {
    begin();
    let (o, _) = stub_oracle(0, fx(ONE));
    let stub = u64::from_le_bytes(o.data.borrow()[..8].try_into().unwrap());
    let d = leak_bytes(100);
    let disc = sym_u64("discriminator");
    d[..8].copy_from_slice(&disc.to_le_bytes());
    let owner = case("owner", 7);
    let a = ai(key(K_ORACLE, 0), match owner { 0 => crate::ID, 1 => switchboard_v1_devnet_oracle::ID, 2 => switchboard_v2_mainnet_oracle::ID, 3 => switchboard_on_demand_mainnet_oracle::ID, 4 => orca_mainnet_whirlpool::ID, 5 => raydium_mainnet::ID, _ => pyth_solana_receiver_sdk::ID }, d);
    use OracleType::*;
    let swb = u64::from_le_bytes([217, 230, 65, 101, 201, 162, 27, 125]);
    let t = val(determine_oracle_type(rf(&a)));
    let is = |x: OracleType| t == Some(x);
    if disc as u32 == 0xa1b2c3d4 { check(is(Pyth), "the pyth magic makes a pyth oracle"); reach("pyth"); return; }
    if disc == stub { check(is(Stub), "the stub discriminator makes a stub oracle"); reach("stub"); return; }
    if disc == swb { check(is(SwitchboardV2), "the aggregator discriminator makes a switchboard oracle"); reach("other"); return; }
    match owner {
        0 => { check(t.is_none(), "an account of no known oracle program is refused"); reach("unknown"); }
        1 | 2 => check(is(SwitchboardV1), "the owner decides the oracle program"),
        3 => check(is(SwitchboardOnDemand), "the owner decides the oracle program"),
        4 => { check(is(OrcaCLMM), "the owner decides the oracle program"); reach("pool"); }
        5 => { check(is(RaydiumCLMM), "the owner decides the oracle program"); reach("pool"); }
        _ => check(is(PythV2), "the owner decides the oracle program"),
    }
}
