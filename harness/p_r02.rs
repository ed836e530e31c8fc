// R02: the stable price model
//@fn h_idle reach=same : any model prices, oracle price any f64, less than ten seconds or a past timestamp
//@fn h_step reach=up,down : stable and delay price from {1, 0.75, 40}, growth limits default, any positive finite oracle price (seven prices when an interval ends), elapsed 10 s to 4000 s by cases
//@fn h_delay reach=ok : one interval change after any time (cases), any oracle price: how much the delay price moves and which slots it fills
//@fn h_average reach=ok : an interval with updates 60 s, 599 s, 1800 s or 3000 s apart: the average lies between the prices seen
//@fn h_reset reach=reset,pending : resets, a pending reset waits for a nonzero price
use super::api::*;
use crate::state::StablePriceModel;

fn model(stable: f64, delay: f64, at: u64) -> StablePriceModel {
    let mut m = StablePriceModel::default();
    m.reset_to_price(delay, at);
    m.stable_price = stable;
    m.last_delay_interval_index = m.delay_interval_index(at);
    m
}
fn same(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() }
const T0: u64 = 1_700_000_400 / 86400 * 86400;
#[no_mangle]
pub extern "C" fn h_idle() {
    panic_is_violation("an update cannot fail");
    let (s, d) = (sym_f64("stable"), sym_f64("delay"));
    let mut m = model(1.0, 1.0, T0);
    m.stable_price = s;
    m.delay_prices[3] = d;
    let now = in_u64("now", 0, T0 + 9);
    m.update(now, sym_f64("oracle"));
    check(and(same(m.stable_price, s), same(m.delay_prices[3], d)), "prices stay for ten seconds after an update");
    check(and(m.last_update_timestamp == T0, and(m.delay_accumulator_time == 0, same(m.delay_accumulator_price, 0.0))), "the update time stays too");
    reach("same");
}
const DT: [u64; 4] = [10, 600, 601, 4000];
#[no_mangle]
pub extern "C" fn h_step() {
    panic_is_violation("an update cannot fail");
    let p = [1.0f64, 0.75, 40.0];
    let (s, d) = (p[case("stable", 3) as usize], p[case("delay", 3) as usize]);
    let dt = DT[case("elapsed", 4) as usize];
    // within an interval any price; into a new one, where the delay price moves too, from a list
    let cross = case("new_interval", 2) == 1;
    let at = T0;
    let mut m = model(s, d, at);
    if !cross { m.last_delay_interval_index = m.delay_interval_index(at + dt); m.delay_prices[m.last_delay_interval_index as usize] = d; } else {
        m.delay_interval_seconds = 10;
        m.delay_accumulator_time = 60;
        m.delay_accumulator_price = 60.0 * d;
    }
    let o = if cross { [1.0e-9f64, 0.74, 0.75, 1.0, 1.001, 39.0, 1.0e12][case("oracle_list", 7) as usize] } else { f64::from_bits(in_u64("oracle", 1, 0x7fef_ffff_ffff_ffff)) };
    m.update(at + dt, o);
    let n = m.stable_price;
    let lim = s * 0.0003 * (dt.min(600) as f64) * 1.000001;
    check(and(n <= s + lim, n >= s - lim), "the stable price moves by at most its growth limit for at most ten minutes");
    check(or(and(s <= n, n <= o), and(o <= n, n <= s)), "the stable price moves towards the oracle price, not past it");
    check(or(same(n, o), or(n > s, n < s)), "the stable price does move");
    check(n > 0.0, "the stable price stays positive");
    check(m.last_update_timestamp == at + dt, "the update is recorded");
    if o > s { reach("up"); } else { reach("down"); }
}
#[no_mangle]
pub extern "C" fn h_delay() {
    panic_is_violation("an update cannot fail");
    let hour = case("hour", 3) as usize * 11; // 0, 11, 22
    let dt = [60u64, 3600, 5 * 3600, 24 * 3600 + 11, 30 * 3600][case("elapsed", 5) as usize];
    let at = T0 + hour as u64 * 3600 + 3550;
    let mut m = model(1.0, 1.0, at);
    for i in 0..24 { m.delay_prices[i] = 100.0 + i as f64; }
    let before = m.delay_prices;
    let prev = before[(hour + 23) % 24];
    let o = f64::from_bits(in_u64("oracle", 1, 0x47ef_ffff_ffff_ffff));
    m.update(at + dt, o);
    let now = ((at + dt) / 3600 % 24) as usize;
    let missed = dt > 24 * 3600;
    check(m.last_delay_interval_index as usize == now, "the interval of the update is recorded");
    let filled = |i: usize| missed || if now > hour { i >= hour && i < now } else if now < hour { i >= hour || i < now } else { false };
    let mut nw = None;
    for i in 0..24 {
        if filled(i) {
            if nw.is_none() { nw = Some(m.delay_prices[i]); }
            check(same(m.delay_prices[i], nw.unwrap()), "all intervals passed get the new delay price");
        } else { check(same(m.delay_prices[i], before[i]), "other delay prices stay"); }
    }
    if let Some(n) = nw {
        if now != hour || missed {
            check(and(n <= prev * 1.0600001, n >= prev * 0.9399999), "the delay price moves by at most its growth limit between intervals");
        }
    }
    check(or(and(now == hour, !missed), and(m.delay_accumulator_time == 0, same(m.delay_accumulator_price, 0.0))), "a new interval starts a new average");
    reach("ok");
}
#[no_mangle]
pub extern "C" fn h_average() {
    panic_is_violation("an update cannot fail");
    let step = [60u64, 599, 1800, 3000][case("step", 4) as usize];
    let o = [8.0f64, 8.25, 100.0, 0.001][case("first_price", 4) as usize];
    let p = [8.0f64, 7.0, 100.0, 0.001][case("second_price", 4) as usize];
    let at = T0 + 3600 - 1;
    let mut m = model(1.0, 8.0, at);
    m.delay_growth_limit = 1.0e30;
    let k = [1u64, 9, 333][case("start", 3) as usize];
    m.update(at + 1 + k - k % 10 + 11, o); // the first update of the hour starts the average
    let t1 = m.last_update_timestamp;
    m.update(t1 + step, p);
    let two = m.delay_interval_index(t1 + step) == m.delay_interval_index(t1);
    if two { m.update(T0 + 7200 + 1, p); } 
    let n = m.delay_prices[1];
    let (lo, hi) = (o.min(p), o.max(p));
    check(and(n >= lo * 0.999999, n <= hi * 1.000001), "the delay price is an average of the prices seen in its interval");
    reach("ok");
}
#[no_mangle]
pub extern "C" fn h_reset() {
    panic_is_violation("an update cannot fail");
    let mut m = model(1.0, 1.0, T0);
    let o = f64::from_bits(in_u64("oracle", 0, 0x7fef_ffff_ffff_ffff));
    m.delay_accumulator_time = 60;
    m.delay_accumulator_price = 100.0;
    let pending = case("pending", 2) == 1;
    if pending {
        m.reset_on_nonzero_price = 1;
        m.update(T0 + 5, o);
        if o > 0.0 {
            check(and(same(m.stable_price, o), m.reset_on_nonzero_price == 0), "a pending reset takes the first nonzero price");
            check(m.last_update_timestamp == T0 + 5, "a reset counts as an update");
            reach("pending");
        } else { check(and(m.stable_price == 1.0, m.reset_on_nonzero_price == 1), "a pending reset waits for a nonzero price"); }
    } else {
        m.reset_to_price(o, T0 + 1);
        check(and(same(m.stable_price, o), and(same(m.delay_prices[0], o), same(m.delay_prices[23], o))), "a reset takes the price");
        check(and(m.delay_accumulator_time == 0, same(m.delay_accumulator_price, 0.0)), "a reset forgets the average");
        check((m.reset_on_nonzero_price == 1) == (o == 0.0), "a reset to zero is only provisional");
        reach("reset");
    }
}
