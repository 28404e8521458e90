ID = "pool-fee-minted-at-old-index"
PROP = "C04"
EDITS = [("liquidity_layer/src/utils.rs", """            cache.supply_index_ray = new_supply_index;
            cache.borrow_index_ray = new_borrow_index;

            self.internal_add_protocol_revenue(cache, protocol_fee_ray);
""", """            self.internal_add_protocol_revenue(cache, protocol_fee_ray);

            cache.supply_index_ray = new_supply_index;
            cache.borrow_index_ray = new_borrow_index;
""")]
NEEDS = "an accrual long enough for the supply index to move, with a non-zero reserve factor"
BREAKS = "the protocol's interest share is minted at the old supply index, so claims created exceed the interest owed"
MAIN = r'''
mod lab;
use lab::*;
fn main() {
    let mut l = Lab::new();
    let (c, p) = pool(&mut l, 18);
    l.account(user("bob"), 0, &[]);
    l.call(c, p, "supply", vec![position(1, TOK, 0), price()], &[(TOK, 0, 1000 * WAD)]).unwrap();
    l.call(c, p, "borrow", vec![user("bob").to_vec(), dec(900 * WAD, 18), position(2, TOK, 0), price()], &[]).unwrap();
    l.time(1_731_536_000);
    l.call(c, p, "updateIndexes", vec![price()], &[]).unwrap();
    let f = |x: u128| x as f64 / 1e27;
    let debt = f(l.get(p, "getBorrowedScaled", vec![])) * f(l.get(p, "getBorrowIndex", vec![]));
    let owed = f(l.get(p, "getSuppliedScaled", vec![])) * f(l.get(p, "getSupplyIndex", vec![]));
    let cash = l.bal(p, TOK) as f64 / 1e18;
    println!("cash+debt {} claims {}", cash + debt, owed);
    if (cash + debt - owed).abs() > 1e-6 { std::process::exit(1); }
}
'''
