ID = 'liquidation-fee-on-the-whole-seizure'
PROP = 'C28'
EDITS = [('controller/src/positions/liquidation.rs', '&liquidation_bonus_units_ray,\n                &position.liquidation_fees_bps,', '&capped_units_with_bonus_ray,\n                &position.liquidation_fees_bps,')]
NEEDS = 'any liquidation of a position with a liquidation fee'
BREAKS = 'the protocol takes its percentage of everything seized, so that the liquidator receives less than was repaid'
MAIN = r'''
mod lab;
use lab::*;
const A: &str = "AAA-123456";
const B: &str = "BBB-123456";
fn main() {
    let mut k = Ctl::new(&[market(A, WAD), market(B, WAD)]);
    k.l.account(user("alice"), 0, &[(A, 1000 * WAD)]);
    k.l.account(user("bob"), 0, &[(B, 5000 * WAD), (A, 0)]);
    k.supply(user("bob"), 0, B, 2000 * WAD).unwrap();
    let a = k.supply(user("alice"), 0, A, 1000 * WAD).unwrap();
    k.borrow(user("alice"), a, B, 740 * WAD).unwrap();
    k.set_price("AAA", WAD * 92 / 100);
    let b0 = k.bal(user("bob"), B);
    k.liquidate(user("bob"), a, &[(B, 100 * WAD)]).unwrap();
    let paid = b0 - k.bal(user("bob"), B);
    let got = k.bal(user("bob"), A) / 100 * 92;
    println!("paid {} received {}", paid, got);
    if got < paid {
        std::process::exit(1);
    }
}
'''
