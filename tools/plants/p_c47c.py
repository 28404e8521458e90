ID = 'partial-claim-logged-before-burn'
PROP = 'C47'
EDITS = [('liquidity_layer/src/liquidity.rs', '            // Burn the calculated amount\n            cache.revenue_ray', '            // Burn the calculated amount\n            self.emit_market_update(&cache, price);\n            cache.revenue_ray'), ('liquidity_layer/src/liquidity.rs', '            cache.supplied_ray -= &actual_supplied_burn_ray;\n\n            self.emit_market_update(&cache, price);\n', '            cache.supplied_ray -= &actual_supplied_burn_ray;\n\n')]
NEEDS = 'a revenue claim that pays out'
BREAKS = 'the logged supply and revenue are those before the claim, until some other operation logs the market again'
MAIN = r'''
mod lab;
use lab::*;
fn main() {
    let mut l = Lab::new();
    let (c, p) = pool(&mut l, 18);
    l.account(user("bob"), 0, &[]);
    l.call(c, p, "supply", vec![position(1, TOK, 0), price()], &[(TOK, 0, 1000 * WAD)]).unwrap();
    l.call(c, p, "borrow", vec![user("bob").to_vec(), dec(500 * WAD, 18), position(2, TOK, 0), price()], &[]).unwrap();
    l.time(1_700_000_000 + 100 * 86400);
    l.call(c, p, "claimRevenue", vec![price()], &[]).unwrap();
    let (mut s, mut r) = (0, 0);
    for (_, t) in &l.log {
        if t[0] == b"update_market_state" {
            s = big0(&t[5]);
            r = big0(&t[7]);
        }
    }
    let (s1, r1) = (l.get(p, "getSuppliedScaled", vec![]), l.get(p, "getRevenueScaled", vec![]));
    println!("logged {} {} stored {} {}", s, r, s1, r1);
    if s != s1 || r != r1 {
        std::process::exit(1);
    }
}
'''
