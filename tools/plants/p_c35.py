ID = 'threshold-update-checks-old-threshold'
PROP = 'C35'
EDITS = [('controller/src/positions/supply.rs', 'self.store_updated_position(account_nonce, &dp);\n\n        if has_risks {', 'if has_risks {'), ('controller/src/positions/supply.rs', 'self.emit_position_update_event(\n            cache,\n            &dp.zero_decimal(),', 'self.store_updated_position(account_nonce, &dp);\n        self.emit_position_update_event(\n            cache,\n            &dp.zero_decimal(),')]
NEEDS = 'the owner lowers a liquidation threshold and somebody refreshes an indebted account that would fall below the safety margin'
BREAKS = 'health is judged before the new threshold is stored, so the refresh can push an account into liquidation'
MAIN = r'''
mod lab;
use lab::*;
const A: &str = "AAA-123456";
const B: &str = "BBB-123456";
fn edit(k: &mut Ctl, t: &str, thr: u128, coll: bool, bcap: u128, scap: u128) {
    let b = |x: bool| n(x as u128);
    k.admin(
        "editAssetConfig",
        vec![
            t.as_bytes().to_vec(), n(7000), n(thr), n(500), n(1000), b(false), n(0), b(false), b(true), n(50), b(coll), b(true), b(true), n(bcap), n(scap),
        ],
    )
    .unwrap();
}

fn main() {
    let mut k = Ctl::new(&[market(A, WAD), market(B, WAD)]);
    k.l.account(user("alice"), 0, &[(A, 1000 * WAD)]);
    k.l.account(user("bob"), 0, &[(B, 1000 * WAD)]);
    k.supply(user("bob"), 0, B, 500 * WAD).unwrap();
    let a = k.supply(user("alice"), 0, A, 100 * WAD).unwrap();
    k.borrow(user("alice"), a, B, 74 * WAD).unwrap();
    edit(&mut k, A, 7200, true, 0, 0);
    let c = k.c;
    let r = k.l.call(user("bob"), c, "updateAccountThreshold", vec![A.as_bytes().to_vec(), vec![1], n(a as u128)], &[]);
    let h = k.view("getHealthFactor", vec![n(a as u128)]);
    println!("{:?} health {}", r.as_ref().map(|_| ()), h);
    if r.is_ok() || h < RAY {
        std::process::exit(1);
    }
}
'''
