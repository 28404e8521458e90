ID = 'isolated-overpayment-releases-ceiling'
PROP = 'C23'
EDITS = [('controller/src/positions/repay.rs', 'let applied_egld_wad = self.min(current_debt_egld_wad, repay_amount_egld.clone());', 'let applied_egld_wad = if current_debt_egld_wad > self.wad_zero() { repay_amount_egld.clone() } else { current_debt_egld_wad };')]
NEEDS = 'a repayment larger than the debt of an isolated account, while another account owes against the same isolated collateral'
BREAKS = 'the refunded part is released from the debt tracker as well, so the debt ceiling no longer holds'
MAIN = r'''
mod lab;
use lab::*;
const I: &str = "ISO-123456";
const B: &str = "BBB-123456";
fn main() {
    let mut i = market(I, WAD);
    i.isolated = true;
    i.ceiling = 1000 * WAD;
    let mut k = Ctl::new(&[i, market(B, WAD)]);
    for u in ["alice", "carol"] {
        k.l.account(user(u), 0, &[(I, 1000 * WAD), (B, 1000 * WAD)]);
    }
    k.l.account(user("bob"), 0, &[(B, 5000 * WAD)]);
    k.supply(user("bob"), 0, B, 5000 * WAD).unwrap();
    let a = k.supply(user("alice"), 0, I, 1000 * WAD).unwrap();
    let c = k.supply(user("carol"), 0, I, 1000 * WAD).unwrap();
    k.borrow(user("alice"), a, B, 300 * WAD).unwrap();
    k.borrow(user("carol"), c, B, 400 * WAD).unwrap();
    let d = k.view("getIsolatedAssetDebtUsd", vec![I.as_bytes().to_vec()]);
    k.repay(user("alice"), a, B, 600 * WAD).unwrap();
    let e = k.view("getIsolatedAssetDebtUsd", vec![I.as_bytes().to_vec()]);
    println!("tracked {} then {}", d, e);
    if d != 700 * WAD || e != 400 * WAD {
        std::process::exit(1);
    }
}
'''
