ID = 'released-ceiling-goes-unlogged'
PROP = 'C47'
EDITS = [('controller/src/utils.rs', '        self.update_debt_ceiling_event(asset_id, debt_mapper.get());', '        let tracked = debt_mapper.get();\n        if tracked > self.wad_zero() {\n            self.update_debt_ceiling_event(asset_id, tracked);\n        }')]
NEEDS = 'the last isolated debt against a collateral being repaid or falling below one dollar'
BREAKS = 'the debt tracker is cleared without a log entry, so whoever follows the log believes the ceiling is still used'
MAIN = r'''
mod lab;
use lab::*;
const I: &str = "ISO-123456";
const B: &str = "BBB-123456";
fn main() {
    let mut i = market(I, WAD);
    i.isolated = true;
    i.ceiling = 1000 * WAD;
    let mut k = Ctl::new(&[i, market(B, WAD)]);
    k.l.account(user("alice"), 0, &[(I, 1000 * WAD), (B, 1000 * WAD)]);
    k.l.account(user("bob"), 0, &[(B, 5000 * WAD)]);
    k.supply(user("bob"), 0, B, 5000 * WAD).unwrap();
    let a = k.supply(user("alice"), 0, I, 1000 * WAD).unwrap();
    let mut seen = 0u128;
    let mut bad = false;
    for step in 0..3 {
        match step {
            0 => k.borrow(user("alice"), a, B, 300 * WAD).unwrap(),
            1 => k.repay(user("alice"), a, B, 100 * WAD).unwrap(),
            _ => k.repay(user("alice"), a, B, 200 * WAD).unwrap(),
        };
        for (_, t) in &k.l.log {
            if t[0] == b"update_debt_ceiling" {
                seen = big0(&t[2]);
            }
        }
        let now = k.view("getIsolatedAssetDebtUsd", vec![I.as_bytes().to_vec()]);
        println!("logged {} tracked {}", seen, now);
        bad |= seen != now;
    }
    if bad {
        std::process::exit(1);
    }
}
'''
