ID = 'capped-withdrawals-logged-uncapped'
PROP = 'C47'
EDITS = [('controller/src/positions/withdraw.rs', '            &actual_withdrawal_amount,\n            deposit_position,', '            &amount,\n            deposit_position,'), ('controller/src/positions/withdraw.rs', '        let total_amount = self.total_amount(deposit_position, feed, cache);\n        let actual_withdrawal_amount = self.min(amount.clone(), total_amount);\n', '')]
NEEDS = 'a withdrawal that asks for more than the deposit, as every withdrawal of everything does'
BREAKS = 'the log tells of amounts that never moved'
MAIN = r'''
mod lab;
use lab::*;
const A: &str = "AAA-123456";
fn main() {
    let mut k = Ctl::new(&[market(A, WAD)]);
    k.l.account(user("alice"), 0, &[(A, 1000 * WAD)]);
    let a = k.supply(user("alice"), 0, A, 100 * WAD).unwrap();
    k.withdraw(user("alice"), a, A, 500 * WAD).unwrap();
    let got = k.bal(user("alice"), A);
    let mut told = 0;
    for (_, t) in &k.l.log {
        if t[0] == b"update_position" {
            told = big0(&t[2]);
        }
    }
    println!("balance {} logged {}", got, told);
    if got != 1000 * WAD || told != 100 * WAD {
        std::process::exit(1);
    }
}
'''
