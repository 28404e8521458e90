ID = "pool-bad-debt-spares-treasury"
PROP = "C11"
EDITS = [("liquidity_layer/src/utils.rs", "let total_supplied_value_ray = cache.calculate_original_supply_ray(&cache.supplied_ray);\n", "let total_supplied_value_ray = cache.calculate_original_supply_ray(\n            &(cache.supplied_ray.clone() - cache.revenue_ray.clone()),\n        );\n")]
NEEDS = "bad debt written off in a pool whose protocol revenue is not yet claimed"
BREAKS = "the loss is divided by depositors' value only while revenue shares fall with the index too: more than the bad debt is destroyed"
MAIN = r'''
mod lab;
use lab::*;
fn main() {
    let mut l = Lab::new();
    let (c, p) = pool(&mut l, 18);
    l.account(user("bob"), 0, &[]);
    l.call(c, p, "supply", vec![position(1, TOK, 0), price()], &[(TOK, 0, 1000 * WAD)]).unwrap();
    let b = l.call(c, p, "borrow", vec![user("bob").to_vec(), dec(900 * WAD, 18), position(2, TOK, 0), price()], &[]).unwrap();
    l.time(1_731_536_000);
    l.call(c, p, "updateIndexes", vec![price()], &[]).unwrap();
    let f = |x: u128| x as f64 / 1e27;
    let sheet = |l: &mut Lab| {
        let cash = l.bal(p, TOK) as f64 / 1e18;
        let debt = f(l.get(p, "getBorrowedScaled", vec![])) * f(l.get(p, "getBorrowIndex", vec![]));
        let owed = f(l.get(p, "getSuppliedScaled", vec![])) * f(l.get(p, "getSupplyIndex", vec![]));
        (cash + debt, owed)
    };
    let (a0, o0) = sheet(&mut l);
    l.call(c, p, "seizePosition", vec![b[0].clone(), price()], &[]).unwrap();
    let (a1, o1) = sheet(&mut l);
    println!("assets fell by {}, depositors' claims by {}", a0 - a1, o0 - o1);
    if ((a0 - a1) - (o0 - o1)).abs() > 1e-6 { std::process::exit(1); }
}
'''
