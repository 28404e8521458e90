ID = "rates-preview-ignores-idle-debt"
PROP = "C05"
EDITS = [("common/rates/src/rates.rs", "        let delta = current_timestamp - last_timestamp;\n\n        if delta > 0 {\n            let borrowed_original", "        let delta = current_timestamp - last_timestamp;\n\n        if delta > 0 && borrowed != self.ray_zero() {\n            let borrowed_original")]
NEEDS = "a preview of a market that nobody borrows from at the moment"
BREAKS = "the previewed borrow index stands still while the executed one keeps growing at the base rate"
MAIN = r'''
mod lab;
use lab::*;
const U: &str = "USDC-123456";
fn main() {
    let mut k = Ctl::new(&[market(U, WAD)]);
    k.l.account(user("bob"), 0, &[(U, 1000 * WAD)]);
    k.supply(user("bob"), 0, U, 100 * WAD).unwrap();
    k.l.time(1_731_536_000);
    k.set_price("USDC", WAD);
    k.set_price("EGLD", WAD);
    let (o, c) = (k.owner, k.c);
    let _ = o;
    // MarketIndexView: asset, supply index, borrow index, ...
    let v = k.l.query(c, "getAllMarketIndexes", vec![U.as_bytes().to_vec()]).unwrap();
    let b = &v[0];
    let tl = u(&b[..4]) as usize;
    let mut at = 4 + tl;
    let sl = u(&b[at..at + 4]) as usize;
    let s = u(&b[at + 4..at + 4 + sl]);
    at += 4 + sl + 4;
    let bl = u(&b[at..at + 4]) as usize;
    let bi = u(&b[at + 4..at + 4 + bl]);
    k.l.call(user("bob"), c, "updateIndexes", vec![U.as_bytes().to_vec()], &[]).unwrap();
    let p = k.pool(U);
    let (s2, b2) = (k.l.get(p, "getSupplyIndex", vec![]), k.l.get(p, "getBorrowIndex", vec![]));
    println!("preview {} {} executed {} {}", s, bi, s2, b2);
    if (s, bi) != (s2, b2) { std::process::exit(1); }
}
'''
