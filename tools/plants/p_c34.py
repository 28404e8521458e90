ID = 'repaid-debt-stays-listed'
PROP = 'C34'
EDITS = [('controller/src/positions/repay.rs', 'self.update_or_remove_position(account_nonce, &borrow_position);', 'if borrow_position.scaled_amount_ray > self.ray_zero() || self.positions(account_nonce, AccountPositionType::Borrow).len() > 1 {\n            self.store_updated_position(account_nonce, &borrow_position);\n        } else {\n            self.update_or_remove_position(account_nonce, &borrow_position);\n        }')]
NEEDS = 'repaying one of two debts in full'
BREAKS = 'the debt stays listed with nothing owed: it counts against the limits and keeps the account from closing'
MAIN = r'''
mod lab;
use lab::*;
const A: &str = "AAA-123456";
const B: &str = "BBB-123456";
const C: &str = "CCC-123456";
fn main() {
    let mut k = Ctl::new(&[market(A, WAD), market(B, WAD), market(C, WAD)]);
    k.l.account(user("alice"), 0, &[(A, 1000 * WAD), (B, WAD), (C, WAD)]);
    k.l.account(user("bob"), 0, &[(B, 1000 * WAD), (C, 1000 * WAD)]);
    k.supply(user("bob"), 0, B, 500 * WAD).unwrap();
    k.supply(user("bob"), 0, C, 500 * WAD).unwrap();
    let a = k.supply(user("alice"), 0, A, 100 * WAD).unwrap();
    k.borrow(user("alice"), a, B, 10 * WAD).unwrap();
    k.borrow(user("alice"), a, C, 10 * WAD).unwrap();
    k.repay(user("alice"), a, B, 11 * WAD).unwrap();
    // a debt that is gone can no longer be repaid, nor asked for
    let r = k.repay(user("alice"), a, B, 5);
    let c = k.c;
    let v = k.l.query(c, "getBorrowAmountForToken", vec![n(a as u128), B.as_bytes().to_vec()]);
    println!("again: {:?} listed: {:?}", r.as_ref().map(|_| ()), v.as_ref().map(|_| ()));
    if r.is_ok() || v.is_ok() {
        std::process::exit(1);
    }
}
'''
