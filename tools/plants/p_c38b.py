ID = 'borrow-cap-lost-without-supply-cap'
PROP = 'C38'
EDITS = [('controller/src/config.rs', '            borrow_cap_wad: if borrow_cap == BigUint::zero() {', '            borrow_cap_wad: if borrow_cap == BigUint::zero() || (supply_cap == BigUint::zero() && !is_collateralizable) {')]
NEEDS = 'editing a market that is not collateral, with a borrow cap and no supply cap'
BREAKS = 'the borrow cap is not stored, the market lends without limit'
MAIN = r'''
mod lab;
use lab::*;
const A: &str = "AAA-123456";
const B: &str = "BBB-123456";
fn edit(k: &mut Ctl, t: &str, thr: u128, coll: bool, bcap: u128, scap: u128) {
    let b = |x: bool| n(x as u128);
    k.admin(
        "editAssetConfig",
        vec![
            t.as_bytes().to_vec(), n(7000), n(thr), n(500), n(1000), b(false), n(0), b(false), b(true), n(50), b(coll), b(true), b(true), n(bcap), n(scap),
        ],
    )
    .unwrap();
}

fn main() {
    let mut k = Ctl::new(&[market(A, WAD), market(B, WAD)]);
    k.l.account(user("alice"), 0, &[(A, 1000 * WAD)]);
    k.l.account(user("bob"), 0, &[(B, 1000 * WAD)]);
    k.supply(user("bob"), 0, B, 500 * WAD).unwrap();
    edit(&mut k, B, 8000, false, 50 * WAD, 0);
    let a = k.supply(user("alice"), 0, A, 1000 * WAD).unwrap();
    let r = k.borrow(user("alice"), a, B, 60 * WAD);
    println!("60 over a cap of 50: {:?}", r.as_ref().map(|_| ()));
    if r.is_ok() {
        std::process::exit(1);
    }
    k.borrow(user("alice"), a, B, 40 * WAD).expect("40 fit");
}
'''
