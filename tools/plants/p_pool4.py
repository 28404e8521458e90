ID = "pool-flash-overpayment-unbooked"
PROP = "C09"
EDITS = [("liquidity_layer/src/liquidity.rs", "let protocol_fee = repayment - amount.clone();", "let protocol_fee = self.min(repayment, required_repayment) - amount.clone();")]
NEEDS = "a flash-loan receiver that returns more than the amount plus the fee"
BREAKS = "the part of a flash-loan repayment above the required fee stays in the pool but belongs to nobody"
MAIN = r'''
mod lab;
use lab::*;
// the receiver (flash_mock) always pays 50 bps on top; the pool asks for 9 bps
fn main() {
    let mut l = Lab::new();
    let (c, p) = pool(&mut l, 18);
    l.contract(sc("flash"), "str:code-f", user("x"), &[(TOK, 1000 * WAD)]);
    l.call(c, p, "supply", vec![position(1, TOK, 0), price()], &[(TOK, 0, 1000 * WAD)]).unwrap();
    let mut args = vec![TOK.as_bytes().to_vec(), dec(100 * WAD, 18), sc("flash").to_vec(), b"flash".to_vec()];
    args.push(nest(&user("bob")));
    args.push(dec(9, 4));
    args.push(price());
    let cash = l.bal(p, TOK);
    l.call(c, p, "flashLoan", args, &[]).unwrap();
    let gain = l.bal(p, TOK) - cash;
    let rev = l.get(p, "getRevenueScaled", vec![]) / 1_000_000_000;
    println!("pool gained {} and booked {}", gain, rev);
    if gain != rev { std::process::exit(1); }
}
'''
