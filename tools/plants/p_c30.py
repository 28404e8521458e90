ID = 'clean-up-forgets-third-debt'
PROP = 'C30'
EDITS = [('controller/src/positions/liquidation.rs', 'for (token_id, mut position) in borrow_positions.iter() {', 'for (token_id, mut position) in borrow_positions.iter().take(self.positions(account_nonce, AccountPositionType::Deposit).len() + 1) {')]
NEEDS = 'cleaning an account with at least two more debts than deposits'
BREAKS = 'the last debts stay on the books of their pools although the account is gone, so the loss is never borne'
MAIN = r'''
mod lab;
use lab::*;
const A: &str = "AAA-123456";
const B: &str = "BBB-123456";
const C: &str = "CCC-123456";
const D: &str = "DDD-123456";
fn main() {
    let mut k = Ctl::new(&[market(A, WAD), market(B, WAD), market(C, WAD), market(D, WAD)]);
    k.l.account(user("alice"), 0, &[(A, 1000 * WAD)]);
    k.l.account(user("bob"), 0, &[(B, 1000 * WAD), (C, 1000 * WAD), (D, 1000 * WAD)]);
    for t in [B, C, D] {
        k.supply(user("bob"), 0, t, 500 * WAD).unwrap();
    }
    let a = k.supply(user("alice"), 0, A, 100 * WAD).unwrap();
    for t in [B, C, D] {
        k.borrow(user("alice"), a, t, 20 * WAD).unwrap();
    }
    k.set_price("AAA", WAD / 50);
    let c = k.c;
    k.l.call(user("bob"), c, "cleanBadDebt", vec![n(a as u128)], &[]).expect("an insolvent dust account");
    let mut bad = false;
    for t in [B, C, D] {
        let p = k.pool(t);
        let left = k.l.get(p, "borrowedAmount", vec![]);
        println!("{} still lent {}", t, left);
        bad |= left != 0;
    }
    if bad {
        std::process::exit(1);
    }
}
'''
