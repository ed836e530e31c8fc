// P02: perp funding and socialized losses
//@mod spec
//@fn h_rate reach=both,bid,ask,none : funding from any best bid and ask price up to 2^30 lots, oracle prices 1, 3.7, 10^5, any rate limits in [-1, 1], 1 s to 10^5 s
//@fn h_time reach=waited,done : any two times
//@fn h_impact reach=found,thin : three orders of any quantity, any impact quantity
//@fn h_matched reach=found,thin : three orders at prices 10, 11, 13, any quantity or amount up to 2^40
//@fn h_settle reach=long,short,flat : settling funding of positions -1000, -3, 0, 3, 1000 with any indexes; twice
//@fn h_zero_sum reach=ok : longs and shorts of the same size over the same funding
//@fn h_socialize reach=spread,nobody,refused : losses up to 2^40 over open interest 0, 1, 7, 2^20
use super::api::*;
use super::spec::*;
use super::world::*;
use crate::state::*;
use anchor_lang::prelude::*;
use fixed::types::I80F48;

const NOW: u64 = 1_700_000_000;
fn load<T: anchor_lang::ZeroCopy + anchor_lang::Owner>(a: &Ai) -> std::cell::RefMut<'static, T> {
    let l: &'static AccountLoader<'static, T> = leak(AccountLoader::try_from(leak(a.clone())).unwrap());
    l.load_mut().unwrap()
}
fn books() -> (Ai, Ai) {
    let (bids, b) = zc::<BookSide>(key(K_BIDS, 0));
    b.nodes.order_tree_type = 0;
    let (asks, a) = zc::<BookSide>(key(K_ASKS, 0));
    a.nodes.order_tree_type = 1;
    (bids, asks)
}
fn put(a: &Ai, side: Side, price: i64, seq: u64, q: i64) {
    let l = LeafNode::new(0, new_node_key(side, price as u64, seq), key(K_ACCOUNT, 1), q, NOW - 20, PostOrderType::Limit, 0, -1, 0);
    if load::<BookSide>(a).insert_leaf(BookSideOrderTree::Fixed, &l).is_err() { check(false, "orders can be inserted"); }
}
fn state(price: I80F48) -> OracleState { OracleState { price, last_update_slot: 7, last_update_time: None, deviation: I80F48::ZERO, oracle_type: OracleType::Stub } }
fn update(pk: &mut PerpMarket, b: &(Ai, Ai), price: I80F48, now: u64) -> bool {
    let book = Orderbook { bids: load(&b.0), asks: load(&b.1) };
    ok(pk.update_funding_and_stable_price(&book, &state(price), now))
}
#[no_mangle]
pub extern "C" fn h_rate() {
    begin();
    set_clock(NOW as i64 as u64, 1000);
    let b = books();
    let (_p, pk) = perp_market(0);
    pk.impact_quantity = 100;
    let (lo, hi) = (in_fx("min_funding", -ONE, 0), in_fx("max_funding", 0, ONE));
    pk.min_funding = lo;
    pk.max_funding = hi;
    pk.base_lot_size = 100;
    let l0 = in_fx("long", -(ONE << 40), ONE << 40);
    let s0 = in_fx("short", -(ONE << 40), ONE << 40);
    pk.long_funding = l0;
    pk.short_funding = s0;
    let dt = [1u64, 60, 3600, 100000][case("dt", 4) as usize];
    pk.funding_last_updated = NOW - dt;
    pk.stable_price_model.last_update_timestamp = NOW;
    let oracle = I80F48::from_bits([ONE, ONE * 37 / 10, ONE * 100_000][case("oracle", 3) as usize]);
    let (hb, ha) = (case("bid", 2) == 1, case("ask", 2) == 1);
    let (pb, pa) = (in_i64("bid_price", 1, 1 << 30), in_i64("ask_price", 1, 1 << 30));
    if hb { put(&b.0, Side::Bid, pb, 1, 100); } else { put(&b.0, Side::Bid, pb, 1, 99); }
    if ha { put(&b.1, Side::Ask, pa, 2, 100); }
    panic_is_violation("funding can always be updated");
    check(update(pk, &b, oracle, NOW), "funding can always be updated");
    let d = Z::fx(pk.long_funding) - Z::fx(l0);
    check(d.eq(Z::fx(pk.short_funding) - Z::fx(s0)), "longs pay what shorts receive");
    check(pk.funding_last_updated == NOW, "the update time is recorded");
    // funding = oracle * base lot * rate * time / day, at most one hour; compare in units of 2^-144 * day with the rounding of each product
    let t = dt.min(3600) as i128;
    let f = Z::fx(oracle) * Z::s(100) * Z::s(t);
    let slack = Z::fx(oracle) * Z::s(100) * Z::s(2) + Z::s(ONE) * Z::s(4);
    let near = |x: Z, rate: Z| {
        // x * 86400 * 2^48 = oracle * 100 * t * rate up to rounding of rate, time factor and products
        let e = x * Z::s(86400) * Z::s(ONE) - f * rate;
        and(e.le(slack * Z::s(86400)), e.ge(-(slack * Z::s(86400))))
    };
    let (zlo, zhi) = (Z::fx(lo), Z::fx(hi));
    match (hb, ha) {
        (false, false) => { check(d.eq(zero()), "an empty book has no funding"); reach("none"); }
        (true, false) => { check(near(d, zhi), "without asks longs pay the maximum"); reach("bid"); }
        (false, true) => { check(near(d, zlo), "without bids shorts pay the maximum"); reach("ask"); }
        (true, true) => {
            // mid price (floor of the half sum), in native: * 10 / 100
            let mid = Z::s((pb + pa) as i128 / 2);
            let book = (mid * Z::s(10 * ONE)).div_floor(Z::s(100));
            let diff = (book * Z::s(ONE)).div_floor(Z::fx(oracle)) - Z::s(ONE);
            let rate = diff.max(zlo).min(zhi);
            check(near(d, rate), "funding is the book's premium over the oracle, within the limits");
            check(implies(diff.lt(zero()), d.le(zero())), "a discount makes shorts pay");
            check(implies(diff.gt(zero()), d.ge(zero())), "a premium makes longs pay");
            reach("both");
        }
    }
}
#[no_mangle]
pub extern "C" fn h_time() {
    begin();
    let b = books();
    let (_p, pk) = perp_market(0);
    pk.impact_quantity = 1;
    pk.max_funding = I80F48::from_bits(ONE / 2);
    put(&b.0, Side::Bid, 10, 1, 100);
    let (t0, t1) = (in_u64("last", 0, 1 << 40), in_u64("now", 0, 1 << 40));
    pk.funding_last_updated = t0;
    pk.stable_price_model.last_update_timestamp = 1 << 40;
    pk.long_funding = in_fx("long", -(ONE << 40), ONE << 40);
    let l0 = pk.long_funding;
    panic_is_violation("funding can always be updated");
    check(update(pk, &b, I80F48::ONE, t1), "funding can always be updated");
    let d = Z::fx(pk.long_funding) - Z::fx(l0);
    if t1 <= t0 {
        check(and(d.eq(zero()), pk.funding_last_updated == t0), "funding is applied once per second");
        reach("waited");
    } else {
        check(pk.funding_last_updated == t1, "the update time is recorded");
        let dt = Z::u((t1 - t0) as u128).min(Z::s(3600));
        let e = d * Z::s(86400) - dt * Z::s(5 * ONE);
        check(and(e.le(zero()), e.ge(Z::s(-86400 * 16))), "funding accrues for at most an hour");
        reach("done");
    }
}
#[no_mangle]
pub extern "C" fn h_impact() {
    begin();
    let b = books();
    let side = if case("side", 2) == 0 { Side::Bid } else { Side::Ask };
    let a = if side == Side::Bid { &b.0 } else { &b.1 };
    let q = [in_i64("q0", 1, 1 << 40), in_i64("q1", 1, 1 << 40), in_i64("q2", 1, 1 << 40)];
    let p = if side == Side::Bid { [13, 11, 10] } else { [10, 11, 13] };
    for i in 0..3 { put(a, side, p[i], i as u64, q[i]); }
    let want = in_i64("impact", 1, 1 << 42);
    panic_is_violation("walking the book cannot panic");
    let s = load::<BookSide>(a);
    let r = s.impact_price(want, NOW, 10);
    let w = if want <= q[0] { Some(p[0]) } else if want <= q[0] + q[1] { Some(p[1]) } else if want <= q[0] + q[1] + q[2] { Some(p[2]) } else { None };
    check(r == w, "the impact price is where the quantity is reached");
    check(s.best_price(NOW, 10) == Some(p[0]), "the best price is the first order's");
    let lim = in_i64("limit", 1, 20);
    let n = s.quantity_at_price(lim, NOW, 10);
    let mut e = 0;
    for i in 0..3 { e += if side == Side::Bid { if p[i] >= lim { q[i] } else { 0 } } else { if p[i] <= lim { q[i] } else { 0 } }; }
    check(n == e, "the quantity up to a price is that of the orders not beyond it");
    if w.is_some() { reach("found"); } else { reach("thin"); }
}
#[no_mangle]
pub extern "C" fn h_matched() {
    begin();
    let b = books();
    let q = [in_i64("q0", 1, 1 << 40), in_i64("q1", 1, 1 << 40), in_i64("q2", 1, 1 << 40)];
    let p = [10i64, 11, 13];
    for i in 0..3 { put(&b.1, Side::Ask, p[i], i as u64, q[i]); }
    panic_is_violation("walking the book cannot panic");
    let s = load::<BookSide>(&b.1);
    if case("by", 2) == 0 {
        let n = in_i64("quantity", -5, 1 << 42);
        let r = s.matched_amount(n, NOW, 10);
        let (a, c) = (q[0] + q[1], q[0] + q[1] + q[2]);
        let w = if n <= 0 || n > c { None } else if n <= q[0] { Some(n * 10) } else if n <= a { Some(q[0] * 10 + (n - q[0]) * 11) } else { Some(q[0] * 10 + q[1] * 11 + (n - a) * 13) };
        check(r == w, "the price of a quantity is that of the orders it takes");
        if w.is_some() { reach("found"); } else { reach("thin"); }
    } else {
        let n = in_i64("amount", -5, 1 << 46);
        let r = s.matched_quantity(n, NOW, 10);
        let v = [q[0] * 10, q[0] * 10 + q[1] * 11, q[0] * 10 + q[1] * 11 + q[2] * 13];
        check(r.is_some() == and(n > 0, n <= v[2]), "a quantity is found if the book holds the amount");
        if let Some(x) = r {
            let worth = |x: i64| if x <= q[0] { x * 10 } else if x <= q[0] + q[1] { v[0] + (x - q[0]) * 11 } else { v[1] + (x - q[0] - q[1]) * 13 };
            check(and(worth(x) >= n, worth(x - 1) < n), "the quantity is the smallest worth the amount");
            reach("found");
        } else { reach("thin"); }
    }
}
#[no_mangle]
pub extern "C" fn h_settle() {
    begin();
    let (_p, pk) = perp_market(0);
    pk.long_funding = in_fx("long", -(ONE << 50), ONE << 50);
    pk.short_funding = in_fx("short", -(ONE << 50), ONE << 50);
    let m = mango_account(0, 1, 0, 1, 1, 0);
    let n = [-1000i64, -3, 0, 3, 1000][case("base", 5) as usize];
    let p = m.set_perp(0, 0, n, in_fx("quote", -(ONE << 60), ONE << 60));
    p.long_settled_funding = in_fx("long_settled", -(ONE << 50), ONE << 50);
    p.short_settled_funding = in_fx("short_settled", -(ONE << 50), ONE << 50);
    p.oneshot_settle_pnl_allowance = in_fx("allowance", -(ONE << 60), ONE << 60);
    p.realized_pnl_for_position_native = in_fx("realized", -(ONE << 60), ONE << 60);
    let b = *p;
    panic_is_violation("settling funding cannot panic");
    p.settle_funding(pk);
    let owed = if n > 0 { (Z::fx(pk.long_funding) - Z::fx(b.long_settled_funding)) * zl(n) } else { (Z::fx(pk.short_funding) - Z::fx(b.short_settled_funding)) * zl(n) };
    check((Z::fx(b.quote_position_native) - Z::fx(p.quote_position_native)).eq(owed), "a position pays the funding since it last settled, exactly");
    check((Z::fx(b.oneshot_settle_pnl_allowance) - Z::fx(p.oneshot_settle_pnl_allowance)).eq(owed), "funding is settleable at once");
    check((Z::fx(b.realized_pnl_for_position_native) - Z::fx(p.realized_pnl_for_position_native)).eq(owed), "funding is realized pnl");
    check(p.base_position_lots == n, "the base position is untouched");
    check(p.unsettled_funding(pk).is_zero(), "nothing is left to settle");
    let q = p.quote_position_native;
    p.settle_funding(pk);
    check(p.quote_position_native == q, "settling twice changes nothing");
    reach(if n > 0 { "long" } else if n < 0 { "short" } else { "flat" });
}
fn zl(x: i64) -> Z { Z::s(x as i128) }
#[no_mangle]
pub extern "C" fn h_zero_sum() {
    begin();
    let (_p, pk) = perp_market(0);
    let f0 = in_fx("before", -(ONE << 50), ONE << 50);
    let d = in_fx("funding", -(ONE << 50), ONE << 50);
    pk.long_funding = f0 + d;
    pk.short_funding = f0 + d;
    let m = mango_account(0, 1, 0, 2, 1, 0);
    let n = [1i64, 77, 1 << 20][case("size", 3) as usize];
    let q = in_fx("quote", -(ONE << 60), ONE << 60);
    for i in 0..2 { let p = m.set_perp(i, i as u16, if i == 0 { n } else { -n }, q); p.long_settled_funding = f0; p.short_settled_funding = f0; p.settle_funding(pk); }
    check((Z::fx(m.perp(0).quote_position_native) + Z::fx(m.perp(1).quote_position_native)).eq(Z::fx(q) * Z::s(2)), "funding moves value between longs and shorts only");
    reach("ok");
}
#[no_mangle]
pub extern "C" fn h_socialize() {
    begin();
    let (_p, pk) = perp_market(0);
    pk.open_interest = [0i64, 1, 7, 1 << 20][case("open_interest", 4) as usize];
    let (l0, s0) = (in_fx("long", -(ONE << 50), ONE << 50), in_fx("short", -(ONE << 50), ONE << 50));
    pk.long_funding = l0;
    pk.short_funding = s0;
    let loss = in_fx("loss", -(ONE << 40), ONE << 10);
    let r = val(pk.socialize_loss(loss));
    check(r.is_some() == (loss <= 0), "only losses are socialized");
    let (dl, ds) = (Z::fx(pk.long_funding) - Z::fx(l0), Z::fx(pk.short_funding) - Z::fx(s0));
    match r {
        None => { check(and(dl.eq(zero()), ds.eq(zero())), "a refused loss changes nothing"); reach("refused"); }
        Some(x) => {
            check(and(dl.eq(-Z::fx(x)), ds.eq(Z::fx(x))), "longs and shorts share the loss");
            if pk.open_interest == 0 { check(x.is_zero(), "without positions nobody pays"); reach("nobody"); }
            else {
                // every lot pays the same; all lots together pay the loss, up to one unit of rounding each
                let e = Z::fx(x) * zl(pk.open_interest) - Z::fx(loss);
                check(and(e.lt(zl(pk.open_interest)), e.gt(-zl(pk.open_interest))), "all open contracts together pay the loss");
                check(x <= 0, "nobody gains from a loss");
                reach("spread");
            }
        }
    }
}
