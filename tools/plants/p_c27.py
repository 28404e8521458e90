ID = 'account-at-exactly-one-shown-liquidatable'
PROP = 'C27'
EDITS = [('controller/src/views.rs', 'health_factor < self.ray()', 'health_factor <= self.ray()')]
NEEDS = 'an account whose health factor is exactly one'
BREAKS = 'the view announces a liquidation the protocol refuses'
MAIN = r'''
mod lab;
use lab::*;
const A: &str = "AAA-123456";
const B: &str = "BBB-123456";
fn main() {
    let mut k = Ctl::new(&[market(A, WAD), market(B, WAD)]);
    k.l.account(user("alice"), 0, &[(A, 1000 * WAD)]);
    k.l.account(user("bob"), 0, &[(B, 1000 * WAD)]);
    k.supply(user("bob"), 0, B, 500 * WAD).unwrap();
    let a = k.supply(user("alice"), 0, A, 1000 * WAD).unwrap();
    k.borrow(user("alice"), a, B, 300 * WAD).unwrap();
    k.set_price("AAA", WAD * 3 / 8);
    let c = k.c;
    let h = k.view("getHealthFactor", vec![n(a as u128)]);
    let v = k.l.query(c, "canBeLiquidated", vec![n(a as u128)]).unwrap();
    let r = k.liquidate(user("bob"), a, &[(B, WAD)]);
    println!("health {} view {:?} liquidation {:?}", h, v, r.as_ref().map(|_| ()));
    if u(&v[0]) != 0 || r.is_ok() || h != RAY {
        std::process::exit(1);
    }
}
'''
