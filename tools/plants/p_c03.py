ID = 'fifth-term-divided-by-a-hundred'
PROP = 'C03'
EDITS = [('common/rates/src/rates.rs', 'let factor_120 = self.to_decimal(BigUint::from(120u64), 0);', 'let factor_120 = self.to_decimal(BigUint::from(100u64), 0);')]
NEEDS = 'a high rate over a long time without accrual'
BREAKS = 'the fifth term of the series is a fifth too large'
MAIN = r'''
mod lab;
use lab::*;
fn main() {
    let mut l = Lab::new();
    let (c, p) = pool(&mut l, 18);
    l.account(user("bob"), 0, &[]);
    l.call(c, p, "supply", vec![position(1, TOK, 0), price()], &[(TOK, 0, 1000 * WAD)]).unwrap();
    l.call(c, p, "borrow", vec![user("bob").to_vec(), dec(1000 * WAD, 18), position(2, TOK, 0), price()], &[]).unwrap();
    let rate = l.get(p, "borrowRate", vec![]) as f64; // per millisecond, ray
    let ms = 365.0 * 86400.0 * 1000.0;
    l.time(1_700_000_000 + 365 * 86400);
    l.call(c, p, "updateIndexes", vec![price()], &[]).unwrap();
    let x = rate / 1e27 * ms;
    let want = 1.0 + x + x * x / 2.0 + x.powi(3) / 6.0 + x.powi(4) / 24.0 + x.powi(5) / 120.0;
    let got = l.get(p, "getBorrowIndex", vec![]) as f64 / 1e27;
    println!("x {} index {} series {}", x, got, want);
    if (got - want).abs() > 1e-6 {
        std::process::exit(1);
    }
}
'''
