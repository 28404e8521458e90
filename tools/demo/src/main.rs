mod lab;
use lab::*;
const U: &str = "USDC-123456";
const X: &str = "XOXNO-123456";
const Y: &str = "PEPE-123456";
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let (al, bo) = (user("alice"), user("bob"));
    {
        // D17
        let mut k = Ctl::new(&[market(U, WAD), market(X, WAD), market(Y, WAD)]);
        k.l.account(al, 0, &[(U, 1000 * WAD), (X, 1000 * WAD)]);
        k.l.account(bo, 0, &[(U, 1000 * WAD), (X, 1000 * WAD), (Y, 1000 * WAD)]);
        k.supply(bo, 0, X, 500 * WAD).unwrap();
        k.supply(bo, 0, Y, 500 * WAD).unwrap();
        let a = k.supply(al, 0, U, 300 * WAD).unwrap();
        k.borrow(al, a, X, 100 * WAD).unwrap();
        k.borrow(al, a, Y, 100 * WAD).unwrap();
        k.set_price("USDC", WAD * 70 / 100);
        let (u0, x0) = (k.bal(bo, U), k.bal(bo, X));
        println!("{:?}", k.liquidate(bo, a, &[(X, 99 * WAD), (X, 99 * WAD)]));
        println!("paid {} got {}", (x0 - k.bal(bo, X)) as f64 / 1e18, (k.bal(bo, U) - u0) as f64 / 1e18);
    }
    {
        // D21
        let mut k = Ctl::new(&[market(U, WAD), market(X, WAD / 10_000_000_000)]);
        let s: u128 = 1_000_000_000_000 * WAD;
        k.l.account(al, 0, &[(U, 1000 * WAD), (X, s)]);
        k.l.account(bo, 0, &[(U, 1000 * WAD), (X, 10 * s)]);
        k.supply(bo, 0, X, 5 * s).unwrap();
        let a = k.supply(al, 0, U, 100 * WAD).unwrap();
        k.borrow(al, a, X, s / 2).unwrap();
        k.set_price("USDC", WAD * 60 / 100);
        let (u0, x0) = (k.bal(bo, U), k.bal(bo, X));
        println!("{:?}", k.liquidate(bo, a, &[(X, 1)]));
        println!("paid {} got {}", x0 - k.bal(bo, X), (k.bal(bo, U) - u0) as f64 / 1e18);
    }
}
