ID = 'borrow-bulk-first-loan-uncounted'
PROP = 'C20'
EDITS = [('controller/src/utils.rs', 'if !is_bulk_borrow {\n            return;', 'if !is_bulk_borrow || borrows.is_empty() {\n            return;')]
NEEDS = 'one call borrowing two tokens on an account without debt'
BREAKS = 'the second loan of the call is checked as if the first did not exist, so twice the LTV limit can be borrowed'
MAIN = r'''
mod lab;
use lab::*;
const A: &str = "AAA-123456";
const B: &str = "BBB-123456";
const C: &str = "CCC-123456";
fn main() {
    let mut k = Ctl::new(&[market(A, WAD), market(B, WAD), market(C, WAD)]);
    k.l.account(user("alice"), 0, &[(A, 1000 * WAD)]);
    k.l.account(user("bob"), 0, &[(B, 1000 * WAD), (C, 1000 * WAD)]);
    k.supply(user("bob"), 0, B, 500 * WAD).unwrap();
    k.supply(user("bob"), 0, C, 500 * WAD).unwrap();
    let n = k.supply(user("alice"), 0, A, 100 * WAD).unwrap();
    // 75 % of 100 may be borrowed in all
    let c = k.c;
    let r = k.l.call(user("alice"), c, "borrow", vec![payment(B, 70 * WAD), payment(C, 70 * WAD)], &[(ACC, n, 1)]);
    println!("140 borrowed against 75: {:?}", r.as_ref().map(|_| ()));
    if r.is_ok() {
        std::process::exit(1);
    }
    k.l.call(user("alice"), c, "borrow", vec![payment(B, 40 * WAD), payment(C, 30 * WAD)], &[(ACC, n, 1)]).expect("70 fit");
}
'''
