ID = 'views-forget-the-last-hour'
PROP = 'C48'
EDITS = [('controller/src/oracle/mod.rs', '''            let parameters = self.parameters(pool_address.clone()).get();
            self.simulate_update_indexes(
''', '''            let parameters = self.parameters(pool_address.clone()).get();
            // a market accrued within the hour is current enough
            if cache.current_timestamp < last_timestamp + 3_600_000 {
                return MarketIndex {
                    borrow_index_ray: current_borrowed_index,
                    supply_index_ray: current_supply_index,
                };
            }
            self.simulate_update_indexes(
''')]
NEEDS = 'a view asked, or an account judged, between one millisecond and one hour after the market last accrued'
BREAKS = 'debts are shown and judged without the interest of the last hour, which a repayment then takes'
MAIN = r'''
mod lab;
use lab::*;
const A: &str = "AAA-123456";
const B: &str = "BBB-123456";
fn main() {
    for wait in [7200u64, 3599, 60] {
        let mut k = Ctl::new(&[market(A, WAD), market(B, WAD)]);
        k.l.account(user("alice"), 0, &[(A, 1000 * WAD), (B, 1000 * WAD)]);
        k.l.account(user("bob"), 0, &[(B, 1000 * WAD)]);
        k.supply(user("bob"), 0, B, 100 * WAD).unwrap();
        let a = k.supply(user("alice"), 0, A, 500 * WAD).unwrap();
        k.borrow(user("alice"), a, B, 90 * WAD).unwrap();
        k.l.time(1_700_000_000 + wait);
        let shown = k.view("getBorrowAmountForToken", vec![n(a as u128), B.as_bytes().to_vec()]);
        let had = k.bal(user("alice"), B);
        k.repay(user("alice"), a, B, 200 * WAD).unwrap();
        let took = had - k.bal(user("alice"), B);
        println!("after {} s: shown {} took {}", wait, shown, took);
        if shown != took {
            std::process::exit(1);
        }
    }
}
'''
