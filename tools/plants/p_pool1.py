ID = "pool-exact-withdrawal-leaves-dust"
PROP = "C06"
EDITS = [("liquidity_layer/src/utils.rs", "if *requested_amount_actual >= current_supply_actual {", "if *requested_amount_actual > current_supply_actual {")]
NEEDS = "a withdrawal of exactly the position's current value once the supply index is no longer 1"
BREAKS = "asking for exactly the whole position does not close it: rounding leaves scaled dust (or reverts)"
MAIN = r'''
mod lab;
use lab::*;
// alice deposits, bob borrows, a year passes; alice then withdraws exactly what she has
fn main() {
    let mut bad = 0;
    for x in [3u128, 7, 11, 13, 1001] {
        let mut l = Lab::new();
        let (c, p) = pool(&mut l, 18);
        l.account(user("alice"), 0, &[]);
        let a = l.call(c, p, "supply", vec![position(1, TOK, 0), price()], &[(TOK, 0, x * WAD / 3)]).unwrap();
        let pos = a[0].clone();
        l.call(c, p, "supply", vec![position(1, TOK, 0), price()], &[(TOK, 0, 5000 * WAD)]).unwrap();
        l.call(c, p, "borrow", vec![user("alice").to_vec(), dec(900 * WAD, 18), position(2, TOK, 0), price()], &[]).unwrap();
        l.time(1_731_536_000 + x as u64);
        l.call(c, p, "updateIndexes", vec![price()], &[]).unwrap();
        let b0 = l.bal(user("alice"), TOK);
        // learn the exact value on a copy of the world
        let mut probe = Lab::new();
        let (c2, p2) = pool(&mut probe, 18);
        probe.account(user("alice"), 0, &[]);
        probe.call(c2, p2, "supply", vec![position(1, TOK, 0), price()], &[(TOK, 0, x * WAD / 3)]).unwrap();
        probe.call(c2, p2, "supply", vec![position(1, TOK, 0), price()], &[(TOK, 0, 5000 * WAD)]).unwrap();
        probe.call(c2, p2, "borrow", vec![user("alice").to_vec(), dec(900 * WAD, 18), position(2, TOK, 0), price()], &[]).unwrap();
        probe.time(1_731_536_000 + x as u64);
        let pb = probe.bal(user("alice"), TOK);
        probe.call(c2, p2, "withdraw", vec![user("alice").to_vec(), dec(1 << 100, 18), pos.clone(), vec![], vec![], price()], &[]).unwrap();
        let exact = probe.bal(user("alice"), TOK) - pb;
        let r = l.call(c, p, "withdraw", vec![user("alice").to_vec(), dec(exact, 18), pos.clone(), vec![], vec![], price()], &[]);
        match r {
            Ok(o) => {
                let left = pos_scaled(&o[0]);
                let got = l.bal(user("alice"), TOK) - b0;
                println!("x={} exact={} got={} scaled left={}", x, exact, got, left);
                if left != 0 || got != exact { bad += 1; }
            }
            Err(e) => { println!("x={} refused: {}", x, e); bad += 1; }
        }
    }
    if bad > 0 { println!("a withdrawal of the exact position value did not close the position"); std::process::exit(1); }
}
'''
