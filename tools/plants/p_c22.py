ID = 'borrow-cap-at-supply-index'
PROP = 'C22'
EDITS = [('controller/src/positions/borrow.rs', 'let borrowed_amount = self.scaled_to_original(\n                    &total_borrow_scaled,\n                    &index.borrow_index_ray,', 'let borrowed_amount = self.scaled_to_original(\n                    &total_borrow_scaled,\n                    &index.supply_index_ray,')]
NEEDS = 'a market with a borrow cap in which interest has accrued, so that the two indexes differ'
BREAKS = 'the debt counted against the cap is valued at the smaller supply index, and loans beyond the cap go through'
MAIN = r'''
mod lab;
use lab::*;
const A: &str = "AAA-123456";
const B: &str = "BBB-123456";
fn main() {
    let mut b = market(B, WAD);
    b.bcap = 500 * WAD;
    let mut k = Ctl::new(&[market(A, WAD), b]);
    k.l.account(user("alice"), 0, &[(A, 10000 * WAD)]);
    k.l.account(user("bob"), 0, &[(B, 1000 * WAD)]);
    k.supply(user("bob"), 0, B, 1000 * WAD).unwrap();
    let n = k.supply(user("alice"), 0, A, 10000 * WAD).unwrap();
    k.borrow(user("alice"), n, B, 490 * WAD).unwrap();
    k.l.time(1_700_000_000 + 365 * 86400);
    for t in ["EGLD", "AAA", "BBB"] {
        k.set_price(t, WAD);
    }
    // the debt now is about 504: nothing more fits, and 1 more would leave 505 in debt
    let r = k.borrow(user("alice"), n, B, WAD);
    let p = k.pool(B);
    let owed = k.l.get(p, "borrowedAmount", vec![]);
    println!("{:?} borrowed {}", r.as_ref().map(|_| ()), owed);
    if r.is_ok() {
        std::process::exit(1);
    }
}
'''
