ID = "pool-partial-repay-at-supply-index"
PROP = "C07"
EDITS = [("liquidity_layer/src/utils.rs", "let payment_scaled = cache.calculate_scaled_borrow(payment_amount_actual);", "let payment_scaled = cache.calculate_scaled_supply(payment_amount_actual);")]
NEEDS = "a partial repayment after interest made the borrow and supply indexes differ"
BREAKS = "a partial repayment removes more debt than was paid"
MAIN = r'''
mod lab;
use lab::*;
fn main() {
    let mut l = Lab::new();
    let (c, p) = pool(&mut l, 18);
    l.account(user("bob"), 0, &[]);
    l.call(c, p, "supply", vec![position(1, TOK, 0), price()], &[(TOK, 0, 5000 * WAD)]).unwrap();
    let b = l.call(c, p, "borrow", vec![user("bob").to_vec(), dec(1000 * WAD, 18), position(2, TOK, 0), price()], &[]).unwrap();
    let pos = b[0].clone();
    l.time(1_731_536_000);
    l.call(c, p, "updateIndexes", vec![price()], &[]).unwrap();
    let bidx = l.get(p, "getBorrowIndex", vec![]);
    let r = l.call(c, p, "repay", vec![user("bob").to_vec(), pos.clone(), price()], &[(TOK, 0, 500 * WAD)]).unwrap();
    let cut = pos_scaled(&pos) - pos_scaled(&r[0]);
    let worth = cut as f64 / 1e27 * (bidx as f64 / 1e27);
    println!("paid 500, debt removed {}", worth);
    if (worth - 500.0).abs() > 1e-6 { std::process::exit(1); }
}
'''
