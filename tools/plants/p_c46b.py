ID = 'nft-keeps-e-mode-of-isolated-account'
PROP = 'C46'
EDITS = [('controller/src/positions/account.rs', '        let e_mode_category_id = if is_isolated {', '        let named_category = e_mode_category.clone().into_option().unwrap_or(0);\n        let e_mode_category_id = if is_isolated {'), ('controller/src/positions/account.rs', '            &ManagedBuffer::new(),\n            &attributes,', '            &ManagedBuffer::new(),\n            &AccountAttributes {\n                e_mode_category_id: named_category,\n                ..attributes.clone()\n            },')]
NEEDS = 'opening an isolated account while naming an e-mode category'
BREAKS = 'the NFT carries the category although the stored account has none; the two never match again and the account is locked'
MAIN = r'''
mod lab;
use lab::*;
const I: &str = "ISO-123456";
fn main() {
    let mut i = market(I, WAD);
    i.isolated = true;
    i.ceiling = 1000 * WAD;
    let mut k = Ctl::new(&[i]);
    k.l.account(user("alice"), 0, &[(I, 1000 * WAD)]);
    k.admin("addEModeCategory", vec![n(9000), n(9300), n(200)]).unwrap();
    let c = k.c;
    k.l.call(user("alice"), c, "supply", vec![vec![], n(1)], &[(I, 0, 100 * WAD)]).unwrap();
    let r = k.withdraw(user("alice"), 1, I, 50 * WAD);
    println!("{:?}", r);
    if r.is_err() {
        std::process::exit(1);
    }
}
'''
