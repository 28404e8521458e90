ID = 'extended-leverage-skips-health'
PROP = 'C36'
EDITS = [('controller/src/strategy.rs', '        // Ensures the position is not immediately liquidatable due to slippage or market conditions\n        self.validate_is_healthy(account_nonce, &mut cache, None);\n', '        // Ensures the position is not immediately liquidatable due to slippage or market conditions\n        if self.positions(account_nonce, AccountPositionType::Borrow).len() <= 1 {\n            self.validate_is_healthy(account_nonce, &mut cache, None);\n        }\n')]
NEEDS = 'multiplying an account that already owes another token, through a swap that returns almost nothing'
BREAKS = 'the strategy ends with an account that can be liquidated at once'
MAIN = r'''
mod lab;
use lab::*;
// a swap router paying out whatever its arguments say
mod router {
    multiversx_sc::imports!();
    #[multiversx_sc::contract]
    pub trait Router {
        #[init]
        fn init(&self) {}
        #[payable("*")]
        #[endpoint(xo)]
        fn xo(&self, outs: MultiValueEncoded<MultiValue2<EgldOrEsdtTokenIdentifier, BigUint>>) {
            let caller = self.blockchain().get_caller();
            for o in outs {
                let (t, x) = o.into_tuple();
                self.tx().to(&caller).payment(EgldOrEsdtTokenPayment::new(t, 0, x)).transfer();
            }
        }
    }
}
fn set_router(k: &mut Ctl, funds: &[(&str, u128)]) {
    k.l.w.register_contract("str:code-r", router::ContractBuilder);
    let o = k.owner;
    k.l.contract(sc("router"), "str:code-r", o, funds);
}
fn steps(outs: &[(&str, u128)]) -> Vec<u8> {
    let mut v = vec![];
    for (t, x) in outs {
        v.extend(nest(t.as_bytes()));
        v.extend(nest(&n(*x)));
    }
    v
}

const A: &str = "AAA-123456";
const B: &str = "BBB-123456";
const C: &str = "CCC-123456";
fn main() {
    let mut k = Ctl::new(&[market(A, WAD), market(B, WAD), market(C, WAD)]);
    set_router(&mut k, &[(A, 10_000 * WAD), (B, 10_000 * WAD)]);
    k.l.account(user("alice"), 0, &[(A, 1000 * WAD)]);
    k.l.account(user("bob"), 0, &[(B, 2000 * WAD), (C, 2000 * WAD)]);
    k.supply(user("bob"), 0, B, 2000 * WAD).unwrap();
    k.supply(user("bob"), 0, C, 2000 * WAD).unwrap();
    let c = k.c;
    let tb = |t: &str| t.as_bytes().to_vec();
    k.l.call(
        user("alice"), c, "multiply",
        vec![vec![], tb(A), n(50 * WAD), tb(B), vec![2], steps(&[(A, 49 * WAD)])],
        &[(A, 0, 1000 * WAD)],
    )
    .expect("opened");
    let a = u(&k.l.query(c, "getAccountNonce", vec![]).unwrap()[0]) as u64;
    // a good swap goes through, a swap that returns a single unit for 1500 C must not
    let r = k.l.call(
        user("alice"), c, "multiply",
        vec![vec![], tb(A), n(1500 * WAD), tb(C), vec![2], steps(&[(A, 1)])],
        &[(ACC, a, 1)],
    );
    let h = k.view("getHealthFactor", vec![n(a as u128)]);
    println!("{:?} health {}", r.as_ref().map(|_| ()), h);
    if r.is_ok() || h < RAY {
        std::process::exit(1);
    }
}
'''
