ID = 'second-debt-beside-siloed-one'
PROP = 'C24'
EDITS = [('controller/src/positions/borrow.rs', 'if first_asset_config.is_siloed_borrowing() || asset_config.is_siloed_borrowing() {', 'if (borrow_positions.len() > 1 && first_asset_config.is_siloed_borrowing()) || asset_config.is_siloed_borrowing() {')]
NEEDS = 'an account that already owes a siloed token borrows an ordinary one'
BREAKS = 'a siloed debt no longer is the only debt'
MAIN = r'''
mod lab;
use lab::*;
const A: &str = "AAA-123456";
const S: &str = "SIL-123456";
const B: &str = "BBB-123456";
fn main() {
    let mut s = market(S, WAD);
    s.siloed = true;
    let mut k = Ctl::new(&[market(A, WAD), market(B, WAD), s]);
    k.l.account(user("alice"), 0, &[(A, 1000 * WAD)]);
    k.l.account(user("bob"), 0, &[(B, 1000 * WAD), (S, 1000 * WAD)]);
    k.supply(user("bob"), 0, B, 500 * WAD).unwrap();
    k.supply(user("bob"), 0, S, 500 * WAD).unwrap();
    let n = k.supply(user("alice"), 0, A, 1000 * WAD).unwrap();
    k.borrow(user("alice"), n, S, 10 * WAD).unwrap();
    k.borrow(user("alice"), n, S, 10 * WAD).expect("more of the same");
    let r = k.borrow(user("alice"), n, B, 10 * WAD);
    println!("beside a siloed debt: {:?}", r.as_ref().map(|_| ()));
    if r.is_ok() {
        std::process::exit(1);
    }
}
'''
