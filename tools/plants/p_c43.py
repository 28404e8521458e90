ID = 'price-used-at-the-age-limit'
PROP = 'C43'
EDITS = [('controller/src/oracle/mod.rs', 'self.blockchain().get_block_timestamp() - feed.timestamp < max_seconds_stale', 'self.blockchain().get_block_timestamp() - feed.timestamp <= max_seconds_stale')]
NEEDS = 'a price whose age is exactly the configured limit'
BREAKS = 'a loan goes through on a price as old as the limit'
MAIN = r'''
mod lab;
use lab::*;
const A: &str = "AAA-123456";
const B: &str = "BBB-123456";
fn main() {
    let mut k = Ctl::new(&[market(A, WAD), market(B, WAD)]);
    k.oracle(A, "AAA", 18, 600);
    k.l.account(user("alice"), 0, &[(A, 1000 * WAD)]);
    k.l.account(user("bob"), 0, &[(B, 1000 * WAD)]);
    k.supply(user("bob"), 0, B, 500 * WAD).unwrap();
    let a = k.supply(user("alice"), 0, A, 100 * WAD).unwrap();
    k.l.time(1_700_000_599);
    k.borrow(user("alice"), a, B, WAD).expect("a price 599 seconds old");
    k.l.time(1_700_000_600);
    let r = k.borrow(user("alice"), a, B, WAD);
    println!("600 seconds old: {:?}", r.as_ref().map(|_| ()));
    if r.is_ok() {
        std::process::exit(1);
    }
}
'''
