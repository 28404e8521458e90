ID = "pool-claim-before-accrual"
PROP = "C13"
EDITS = [("liquidity_layer/src/liquidity.rs", """        let mut cache = Cache::new(self);
        self.global_sync(&mut cache);

        let revenue_scaled = cache.revenue_ray.clone();

        if revenue_scaled == self.ray_zero() {""", """        let mut cache = Cache::new(self);
        if cache.revenue_ray > self.ray_zero() {
            self.global_sync(&mut cache);
        }

        let revenue_scaled = cache.revenue_ray.clone();

        if revenue_scaled == self.ray_zero() {""")]
NEEDS = "a revenue claim on a pool that has booked no revenue yet but has interest pending"
BREAKS = "the first claim skips accrual: interest earned so far is not claimable and indexes stay stale"
MAIN = r'''
mod lab;
use lab::*;
fn main() {
    let mut l = Lab::new();
    let (c, p) = pool(&mut l, 18);
    l.account(user("bob"), 0, &[]);
    l.call(c, p, "supply", vec![position(1, TOK, 0), price()], &[(TOK, 0, 1000 * WAD)]).unwrap();
    l.call(c, p, "borrow", vec![user("bob").to_vec(), dec(500 * WAD, 18), position(2, TOK, 0), price()], &[]).unwrap();
    l.time(1_731_536_000);
    let b0 = l.bal(c, TOK);
    l.call(c, p, "claimRevenue", vec![price()], &[]).unwrap();
    let got = l.bal(c, TOK) - b0;
    println!("claimed {}", got);
    if got == 0 { std::process::exit(1); }
}
'''
