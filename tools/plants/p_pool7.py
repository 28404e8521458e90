ID = "pool-partial-claim-coarse-burn"
PROP = "C12"
EDITS = [("liquidity_layer/src/liquidity.rs", "self.div_half_up(&amount_to_transfer, &treasury_actual, RAY_PRECISION);", "self.div_half_up(\n                        &amount_to_transfer,\n                        &treasury_actual,\n                        cache.parameters.asset_decimals,\n                    );")]
NEEDS = "a revenue claim larger than the pool's cash, in a token with few decimals"
BREAKS = "a partial claim burns revenue shares at the token's own precision: for small claims nothing is burned and the same revenue is paid again"
MAIN = r'''
mod lab;
use lab::*;
fn main() {
    let mut l = Lab::new();
    let (c, p) = pool(&mut l, 6);
    let m = 1_000_000u128;
    l.account(user("bob"), 0, &[]);
    l.call(c, p, "supply", vec![position(1, TOK, 0), price()], &[(TOK, 0, 1_000_000_000 * m)]).unwrap();
    l.call(c, p, "borrow", vec![user("bob").to_vec(), dec(1_000_000_000 * m, 6), position(2, TOK, 0), price()], &[]).unwrap();
    l.time(1_731_536_000);
    l.call(c, p, "updateIndexes", vec![price()], &[]).unwrap();
    // a little cash returns: far less than the revenue owed
    l.call(c, p, "supply", vec![position(1, TOK, 0), price()], &[(TOK, 0, 40)]).unwrap();
    let b0 = l.bal(c, TOK);
    let r0 = l.get(p, "getRevenueScaled", vec![]);
    l.call(c, p, "claimRevenue", vec![price()], &[]).unwrap();
    let paid = l.bal(c, TOK) - b0;
    let burned = r0 - l.get(p, "getRevenueScaled", vec![]);
    println!("paid {} burned {}", paid, burned);
    if paid > 0 && burned == 0 { std::process::exit(1); }
}
'''
