ID = 'small-claims-stay-in-controller'
PROP = 'C39'
EDITS = [('controller/src/router.rs', '            if revenue.amount > 0 {', '            if revenue.amount > BigUint::from(1_000_000u64) {')]
NEEDS = 'a revenue claim worth a few raw units, as in markets of tokens with few decimals'
BREAKS = 'the pool pays the controller, which keeps the revenue forever'
MAIN = r'''
mod lab;
use lab::*;
mod accum {
    multiversx_sc::imports!();
    #[multiversx_sc::contract]
    pub trait Accumulator {
        #[init]
        fn init(&self) {}
        #[payable("*")]
        #[endpoint(deposit)]
        fn deposit(&self) {}
    }
}
const A: &str = "AAA-123456";
const B: &str = "BBB-123456";
fn main() {
    let mut b = market(B, WAD);
    b.dec = 6;
    let mut k = Ctl::new(&[market(A, WAD), b]);
    k.l.w.register_contract("str:code-m", accum::ContractBuilder);
    let o = k.owner;
    k.l.contract(user("accumulator"), "str:code-m", o, &[]);
    k.l.account(user("alice"), 0, &[(A, 1000 * WAD)]);
    k.l.account(user("bob"), 0, &[(B, 1000_000_000)]);
    k.supply(user("bob"), 0, B, 500_000_000).unwrap();
    let a = k.supply(user("alice"), 0, A, 1000 * WAD).unwrap();
    k.borrow(user("alice"), a, B, 100_000_000).unwrap();
    k.l.time(1_700_000_000 + 86400);
    for t in ["EGLD", "AAA", "BBB"] {
        k.set_price(t, WAD);
    }
    let p = k.pool(B);
    let before = k.bal(p, B);
    let c = k.c;
    k.l.call(user("bob"), c, "claimRevenue", vec![B.as_bytes().to_vec()], &[]).unwrap();
    let out = before - k.bal(p, B);
    let got = k.bal(user("accumulator"), B);
    println!("paid {} received {}", out, got);
    if out == 0 || got != out {
        std::process::exit(1);
    }
}
'''
