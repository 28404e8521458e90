ID = 'switched-off-debts-cannot-be-repaid'
PROP = 'C45'
EDITS = [('controller/src/positions/repay.rs', '''        let total_debt = self.total_amount(&borrow_position, feed, cache);
        let actual''', '''        let total_debt = self.total_amount(&borrow_position, feed, cache);
        let asset_config = cache.cached_asset_info(token_id);
        require!(
            asset_config.can_borrow() || repay_amount >= &total_debt,
            "Asset not borrowable"
        );
        let actual''')]
NEEDS = 'a partial repayment of a debt in a market that has been closed for borrowing since'
BREAKS = 'the borrower can only pay everything at once, and is liquidated otherwise'
MAIN = r'''
mod lab;
use lab::*;
const A: &str = "AAA-123456";
const B: &str = "BBB-123456";
fn edit(k: &mut Ctl, m: &Market, borrowable: bool) {
    let b = |x: bool| n(x as u128);
    k.admin(
        "editAssetConfig",
        vec![
            m.tok.as_bytes().to_vec(), n(m.ltv), n(m.thr), n(m.bonus), n(m.fees), b(m.isolated), n(m.ceiling), b(m.siloed), b(m.flash), n(m.flash_fee),
            b(m.collateral), b(borrowable), b(m.iso_borrow), n(m.bcap), n(m.scap),
        ],
    )
    .expect("edited");
}
fn main() {
    let mb = market(B, WAD);
    let mut k = Ctl::new(&[market(A, WAD), mb.clone()]);
    k.l.account(user("alice"), 0, &[(A, 1000 * WAD), (B, 1000 * WAD)]);
    k.l.account(user("bob"), 0, &[(B, 1000 * WAD)]);
    k.supply(user("bob"), 0, B, 500 * WAD).unwrap();
    let a = k.supply(user("alice"), 0, A, 100 * WAD).unwrap();
    k.borrow(user("alice"), a, B, 50 * WAD).unwrap();
    k.repay(user("alice"), a, B, 5 * WAD).expect("repaid in part");
    edit(&mut k, &mb, false);
    let r = k.borrow(user("alice"), a, B, WAD);
    assert!(r.is_err(), "closed for borrowing");
    let r = k.repay(user("alice"), a, B, 5 * WAD);
    println!("part of the debt: {:?}", r.as_ref().map(|_| ()));
    if r.is_err() {
        std::process::exit(1);
    }
}
'''
