ID = 'dust-positions-dropped'
PROP = 'C46'
EDITS = [('common/structs/src/model.rs', 'self.scaled_amount_ray.into_raw_units().eq(&BigUint::zero())', 'self.scaled_amount_ray.into_raw_units() < &BigUint::from(1_000_000_000u64)')]
NEEDS = 'a repayment or withdrawal that leaves less than one raw unit of an 18-decimal token, as one unit short of the whole does once the index has grown'
BREAKS = 'the account loses the position while the market still counts it, so market totals drift away from what accounts hold'
MAIN = r'''
mod lab;
use lab::*;
const A: &str = "AAA-123456";
const B: &str = "BBB-123456";
fn main() {
    let mut k = Ctl::new(&[market(A, WAD), market(B, WAD)]);
    k.l.account(user("alice"), 0, &[(A, 1000 * WAD), (B, 1000 * WAD)]);
    k.l.account(user("bob"), 0, &[(B, 1000 * WAD)]);
    k.supply(user("bob"), 0, B, 500 * WAD).unwrap();
    let a = k.supply(user("alice"), 0, A, 1000 * WAD).unwrap();
    k.borrow(user("alice"), a, B, 100 * WAD).unwrap();
    k.l.time(1_700_000_000 + 300 * 86400);
    for t in ["EGLD", "AAA", "BBB"] {
        k.set_price(t, WAD);
    }
    let c = k.c;
    k.l.call(user("bob"), c, "updateIndexes", vec![B.as_bytes().to_vec()], &[]).unwrap();
    let owed = k.view("getBorrowAmountForToken", vec![n(a as u128), B.as_bytes().to_vec()]);
    k.repay(user("alice"), a, B, owed - 1).unwrap();
    let p = k.pool(B);
    let lent = k.l.get(p, "borrowedAmount", vec![]);
    let has = k.l.query(c, "getBorrowAmountForToken", vec![n(a as u128), B.as_bytes().to_vec()]).is_ok();
    println!("still lent {} position {}", lent, has);
    if (lent != 0) != has {
        std::process::exit(1);
    }
}
'''
