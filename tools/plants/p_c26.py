ID = 'limit-counts-old-or-new'
PROP = 'C26'
EDITS = [('controller/src/validation.rs', 'let total_after_transaction = current_count + new_positions_count;', 'let total_after_transaction = current_count.max(new_positions_count);')]
NEEDS = 'an account that already holds positions opening further ones beyond the limit'
BREAKS = 'the limit binds only what one call opens'
MAIN = r'''
mod lab;
use lab::*;
const A: &str = "AAA-123456";
const B: &str = "BBB-123456";
const C: &str = "CCC-123456";
fn main() {
    let mut k = Ctl::new(&[market(A, WAD), market(B, WAD), market(C, WAD)]);
    k.admin("setPositionLimits", vec![n(2), n(2)]).unwrap();
    k.l.account(user("alice"), 0, &[(A, 1000 * WAD), (B, 1000 * WAD), (C, 1000 * WAD)]);
    let a = k.supply(user("alice"), 0, A, 10 * WAD).unwrap();
    k.supply(user("alice"), a, B, 10 * WAD).expect("the second deposit is within the limit");
    k.supply(user("alice"), a, A, 10 * WAD).expect("topping up is always possible");
    let r = k.supply(user("alice"), a, C, 10 * WAD);
    println!("third deposit: {:?}", r);
    if r.is_ok() {
        std::process::exit(1);
    }
}
'''
