ID = 'swap-leftovers-kept-by-controller'
PROP = 'C36'
EDITS = [('controller/src/strategy.rs', 'refunds.push(payment.clone());', 'if payment.token_identifier != *from_token || payment.amount >= *from_amount {\n                    refunds.push(payment.clone());\n                }')]
NEEDS = 'a swap router that returns part of the token it was given'
BREAKS = 'the unspent part stays in the controller instead of returning to the user'
MAIN = r'''
mod lab;
use lab::*;
// a swap router paying out whatever its arguments say
mod router {
    multiversx_sc::imports!();
    #[multiversx_sc::contract]
    pub trait Router {
        #[init]
        fn init(&self) {}
        #[payable("*")]
        #[endpoint(xo)]
        fn xo(&self, outs: MultiValueEncoded<MultiValue2<EgldOrEsdtTokenIdentifier, BigUint>>) {
            let caller = self.blockchain().get_caller();
            for o in outs {
                let (t, x) = o.into_tuple();
                self.tx().to(&caller).payment(EgldOrEsdtTokenPayment::new(t, 0, x)).transfer();
            }
        }
    }
}
fn set_router(k: &mut Ctl, funds: &[(&str, u128)]) {
    k.l.w.register_contract("str:code-r", router::ContractBuilder);
    let o = k.owner;
    k.l.contract(sc("router"), "str:code-r", o, funds);
}
fn steps(outs: &[(&str, u128)]) -> Vec<u8> {
    let mut v = vec![];
    for (t, x) in outs {
        v.extend(nest(t.as_bytes()));
        v.extend(nest(&n(*x)));
    }
    v
}

const A: &str = "AAA-123456";
const B: &str = "BBB-123456";
fn main() {
    let mut k = Ctl::new(&[market(A, WAD), market(B, WAD)]);
    set_router(&mut k, &[(A, 10_000 * WAD), (B, 10_000 * WAD)]);
    k.l.account(user("alice"), 0, &[(A, 1000 * WAD)]);
    k.l.account(user("bob"), 0, &[(B, 2000 * WAD)]);
    k.supply(user("bob"), 0, B, 2000 * WAD).unwrap();
    let c = k.c;
    let tb = |t: &str| t.as_bytes().to_vec();
    k.l.call(
        user("alice"), c, "multiply",
        vec![vec![], tb(A), n(500 * WAD), tb(B), vec![2], steps(&[(A, 480 * WAD), (B, 7 * WAD)])],
        &[(A, 0, 1000 * WAD)],
    )
    .expect("opened");
    let (kept, got) = (k.bal(c, B), k.bal(user("alice"), B));
    println!("controller keeps {} alice got {}", kept, got);
    if kept != 0 || got != 7 * WAD {
        std::process::exit(1);
    }
}
'''
