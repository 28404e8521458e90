ID = 'own-token-debt-never-checked'
PROP = 'C21'
EDITS = [('controller/src/utils.rs', '''        let deposit_positions = self.positions(account_nonce, AccountPositionType::Deposit);
        let (collateral, _, _) =
            self.calculate_collateral_values(&deposit_positions.values().collect(), cache);
''', '''        let deposit_positions = self.positions(account_nonce, AccountPositionType::Deposit);
        // a debt in the deposited token moves with its collateral: prices cannot make it unhealthy
        if safety_factor.is_none()
            && borrow_positions
                .keys()
                .all(|token_id| deposit_positions.contains_key(&token_id))
        {
            return;
        }
        let (collateral, _, _) =
            self.calculate_collateral_values(&deposit_positions.values().collect(), cache);
''')]
NEEDS = 'an account that owes only tokens it also has on deposit'
BREAKS = 'its withdrawals are not checked at all, down to a single unit of collateral'
MAIN = r'''
mod lab;
use lab::*;
const A: &str = "AAA-123456";
const B: &str = "BBB-123456";
fn main() {
    for own in [false, true] {
        let mut k = Ctl::new(&[market(A, WAD), market(B, WAD)]);
        k.l.account(user("alice"), 0, &[(A, 1000 * WAD), (B, 1000 * WAD)]);
        k.l.account(user("bob"), 0, &[(B, 1000 * WAD)]);
        k.supply(user("bob"), 0, B, 500 * WAD).unwrap();
        let a = k.supply(user("alice"), 0, if own { B } else { A }, 100 * WAD).unwrap();
        k.borrow(user("alice"), a, B, 50 * WAD).unwrap();
        k.withdraw(user("alice"), a, if own { B } else { A }, 10 * WAD).expect("what stays is enough");
        let r = k.withdraw(user("alice"), a, if own { B } else { A }, 80 * WAD);
        println!("own token {}: {:?}", own, r.as_ref().map(|_| ()));
        if r.is_ok() {
            std::process::exit(1);
        }
    }
}
'''
