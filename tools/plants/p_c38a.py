ID = 'leaving-one-e-mode-leaves-all'
PROP = 'C38'
EDITS = [('controller/src/config.rs', '        asset_e_modes.swap_remove(&category_id);\n', '        asset_e_modes.clear();\n')]
NEEDS = 'a market that belongs to two e-mode categories is removed from one of them'
BREAKS = 'it silently leaves the other category too: accounts of that category can no longer use it'
MAIN = r'''
mod lab;
use lab::*;
const A: &str = "AAA-123456";
const B: &str = "BBB-123456";

fn main() {
    let mut k = Ctl::new(&[market(A, WAD), market(B, WAD)]);
    k.l.account(user("alice"), 0, &[(A, 1000 * WAD)]);
    for c in 1..3u128 {
        k.admin("addEModeCategory", vec![n(9000), n(9500), n(200)]).unwrap();
        k.admin("addAssetToEModeCategory", vec![A.as_bytes().to_vec(), n(c), n(1), n(1)]).unwrap();
    }
    k.admin("removeAssetFromEModeCategory", vec![A.as_bytes().to_vec(), n(1)]).unwrap();
    let c = k.c;
    let r = k.l.call(user("alice"), c, "supply", vec![vec![], n(2)], &[(A, 0, 100 * WAD)]);
    println!("supply in the second category: {:?}", r.as_ref().map(|_| ()));
    if r.is_err() {
        std::process::exit(1);
    }
}
'''
