//! Accounts with many positions, calls with many entries, tokens of few decimals.
use super::access::bob;
use super::ctrl::{amount, lin_mkt, same_except};
use crate::engine::*;
use crate::env::*;
use crate::env_ctrl::*;
use crate::term::*;
use crate::vm::*;

pub const N: u64 = 70_001;
pub const W: [&str; 10] = [
    "W0AA-000000",
    "W1AA-111111",
    "W2AA-222222",
    "W3AA-333333",
    "W4AA-444444",
    "W5AA-555555",
    "W6AA-666666",
    "W7AA-777777",
    "W8AA-888888",
    "W9AA-999999",
];
pub const DEC: [u32; 10] = [18, 6, 0, 8, 2, 18, 3, 12, 18, 1];
const CENTS: [i64; 10] = [250, 99, 4010, 100, 733, 1250, 310, 95, 1500, 42];
fn cents(n: i64) -> T {
    k(p10(16) * n)
}
fn i_of(t: &str) -> usize {
    W.iter().position(|w| *w == t).unwrap()
}
pub fn markets() -> Vec<Mkt> {
    (0..10).map(|i| lin_mkt(W[i], DEC[i], cents(CENTS[i]), 1300 - 31 * i as i64, 1100 - 7 * i as i64)).collect()
}
fn units(n: i64) -> T {
    k(p10(27) * n)
}
/// deposits in the first six markets; those named have any size
pub fn deposits(free: &[usize]) -> Vec<Pos> {
    (0..6)
        .map(|i| {
            let h = 100 + 37 * i as i64;
            let mut d = deposit(W[i], if free.contains(&i) { var(&format!("dep{}", i), 1, p10(40), p10(27) * h) } else { units(h) });
            d.ltv = k(7500 - 300 * i as i64);
            d.threshold = k(8100 - 250 * i as i64);
            d.bonus = k(400 + 100 * i as i64);
            d.fees = k(1000 + 50 * i as i64);
            d
        })
        .collect()
}
/// debts in the last four markets and in the second
pub fn debts(free: &[usize]) -> Vec<Pos> {
    [6usize, 7, 8, 9, 1]
        .iter()
        .map(|i| {
            let h = 150 + 41 * *i as i64;
            debt(W[*i], if free.contains(i) { var(&format!("debt{}", i), 1, p10(40), p10(27) * h) } else { units(h) })
        })
        .collect()
}
fn open(free_d: &[usize], free_b: &[usize]) -> Proto {
    let p = Proto::new(markets());
    must(&p.owner, &p.c, "setPositionLimits", vec![top_u(10), top_u(10)], vec![]);
    let mut all = deposits(free_d);
    all.extend(debts(free_b));
    p.account(&p.user, N, &normal(), &all);
    p.add_user(bob());
    p
}
fn nth(i: &[usize]) -> String {
    i.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

/// a loan, or several, beside five debts and six deposits
pub fn borrow(list: &'static [usize]) -> Scenario {
    Scenario::new(format!("crowded account borrows {}", nth(list)), move || {
        let p = open(&[3, 5], &[8]);
        let xs: Vec<T> = list.iter().enumerate().map(|(j, i)| amount(&format!("x{}", j), DEC[*i])).collect();
        let before = p.positions(N, BORROW);
        let deps = p.positions(N, DEPOSIT);
        let limit = p.weighted(&deps, |q| q.ltv);
        let r = p.borrow(N, list.iter().zip(&xs).map(|(i, x)| (W[*i], *x)).collect());
        let after = p.positions(N, BORROW);
        same_except("deposits untouched", &deps, &p.positions(N, DEPOSIT), &[]);
        if r.ok() {
            // each loan may round once more when its scaled amount is added up
            check("all debts stay within the LTV-weighted collateral", le(p.total(&after), add(limit, k(300))));
            for i in 0..10 {
                let t = W[i];
                let of: Vec<T> = list.iter().zip(&xs).filter(|(j, _)| **j == i).map(|(_, x)| *x).collect();
                let sum = of.iter().fold(k(0), |a, x| add(a, *x));
                let was = before.iter().find(|q| q.asset == t.as_bytes()).map_or(k(0), |q| q.scaled);
                let owes = of.iter().fold(was, |a, x| add(a, rdiv(to_ray(*x, DEC[i]), p.m(t).st.bidx)));
                check("each debt grows by the loans in it", eq(p.sc(N, BORROW, t), owes));
                check("each loan is paid out", eq(sub(p.bal(&p.user, t), k(p10(BIG))), sum));
                checkb("no debt without a loan", p.pos(N, BORROW, t).is_some() == (!of.is_empty() || before.iter().any(|q| q.asset == t.as_bytes())));
            }
            reach("crowded loan");
        } else {
            let mut owed = add(p.total(&before), k(300));
            let mut why = vec![];
            for (i, x) in list.iter().zip(&xs) {
                owed = add(owed, p.val(&debt(W[*i], rdiv(to_ray(*x, DEC[*i]), p.m(W[*i]).st.bidx))));
                why.push(eq(*x, k(0)));
            }
            for i in 0..10 {
                let sum = list.iter().zip(&xs).filter(|(j, _)| **j == i).fold(k(0), |a, (_, x)| add(a, *x));
                why.push(gt(sum, p.m(W[i]).cash));
            }
            why.push(gt(owed, limit));
            check("a crowded account is refused only for a reason", or(&why));
            same_except("a refused loan leaves debts alone", &before, &after, &[]);
            reach("crowded loan refused");
        }
    })
}
/// withdrawals beside five debts
pub fn withdraw(list: &'static [usize]) -> Scenario {
    Scenario::new(format!("crowded account withdraws {}", nth(list)), move || {
        let p = open(&[list[list.len() - 1]], &[]);
        for t in W {
            assume(le(p.sc(N, DEPOSIT, t), p.m(t).st.supplied));
        }
        // one withdrawal of any size, the others of a few whole units
        let last = list.len() - 1;
        let xs: Vec<T> = list.iter().enumerate().map(|(j, i)| if j == last { amount(&format!("x{}", j), DEC[*i]) } else { k(p10(DEC[*i]) * (31 + 7 * j as i64)) }).collect();
        let (d0, b0) = (p.positions(N, DEPOSIT), p.positions(N, BORROW));
        let r = p.withdraw(N, list.iter().zip(&xs).map(|(i, x)| (W[*i], *x)).collect());
        let d1 = p.positions(N, DEPOSIT);
        let owed = p.total(&b0);
        if r.ok() {
            check("a crowded account stays healthy", ge(p.health(p.weighted(&d1, |q| q.threshold), owed), kray()));
            for (i, x) in list.iter().zip(&xs) {
                let t = W[*i];
                let q = d0.iter().find(|q| q.asset == t.as_bytes()).unwrap();
                let worth = from_ray(rmul(q.scaled, p.m(t).st.sidx), DEC[*i]);
                check("pays the smaller of the request and the deposit", eq(sub(p.bal(&p.user, t), k(p10(BIG))), min(*x, worth)));
                check("the deposit falls by what the pool books", eq(sub(q.scaled, p.sc(N, DEPOSIT, t)), sub(p.m(t).st.supplied, p.state(t).supplied)));
            }
            let toks: Vec<&str> = list.iter().map(|i| W[*i]).collect();
            same_except("other deposits untouched", &d0, &d1, &toks);
            reach("crowded withdrawal");
        } else {
            same_except("a refused withdrawal keeps the deposits", &d0, &d1, &[]);
            let left: Vec<Pos> = d0
                .iter()
                .map(|q| {
                    let mut q = q.clone();
                    let t = String::from_utf8(q.asset.clone()).unwrap();
                    if let Some(j) = list.iter().position(|i| W[*i] == t) {
                        let worth = from_ray(rmul(q.scaled, p.m(&t).st.sidx), p.m(&t).dec);
                        let part = sub(q.scaled, rdiv(to_ray(xs[j], p.m(&t).dec), p.m(&t).st.sidx));
                        q.scaled = ite(ge(xs[j], worth), k(0), part);
                    }
                    q
                })
                .collect();
            let mut why: Vec<B> = xs.iter().map(|x| eq(*x, k(0))).collect();
            why.push(lt(p.health(p.weighted(&left, |q| q.threshold), owed), kray()));
            check("a crowded account's withdrawal is refused only for a reason", or(&why));
            reach("crowded withdrawal refused");
        }
        same_except("debts untouched", &b0, &p.positions(N, BORROW), &[]);
    })
}
/// everything out at once, without debt
pub fn leave() -> Scenario {
    Scenario::new("crowded account leaves", move || {
        let p = Proto::new(markets());
        p.account(&p.user, N, &normal(), &deposits(&[4]));
        for t in W {
            assume(le(p.sc(N, DEPOSIT, t), p.m(t).st.supplied));
        }
        let worth: Vec<T> = (0..6).map(|i| from_ray(rmul(p.sc(N, DEPOSIT, W[i]), p.m(W[i]).st.sidx), DEC[i])).collect();
        let x = amount("x", DEC[4]);
        let order = [5usize, 0, 3, 1, 4, 2];
        let r = p.withdraw(N, order.iter().map(|i| (W[*i], if *i == 4 { x } else { k(p10(BIG)) })).collect());
        if !r.ok() {
            check("leaving needs no reason", eq(x, k(0)));
            reach("crowded account cannot leave");
            return;
        }
        for i in 0..6 {
            let got = sub(p.bal(&p.user, W[i]), k(p10(BIG)));
            check("each deposit is paid out", eq(got, if i == 4 { min(x, worth[4]) } else { worth[i] }));
        }
        let empty = p.positions(N, DEPOSIT).is_empty();
        checkb("the account lives exactly as long as it has positions", p.active(N) != empty && p.attrs(N).is_none() == empty);
        checkb("the account NFT is returned, or burnt with the account", p.holds(&p.user, N) != empty);
        reach("crowded account left");
    })
}
/// five debts are repaid in one call, one of them in part
pub fn repay(payers: &'static str) -> Scenario {
    Scenario::new(format!("crowded account is repaid by {}", payers), move || {
        let p = open(&[], &[8]);
        for t in W {
            assume(le(p.sc(N, BORROW, t), p.m(t).st.borrowed));
        }
        let payer = if payers == "its owner" { p.user } else { bob() };
        let x = amount("x", DEC[8]);
        let (d0, b0) = (p.positions(N, DEPOSIT), p.positions(N, BORROW));
        let order = [9usize, 6, 8, 1, 7];
        let big = |i: usize| k(p10(DEC[i]) * 100_000);
        let r = p.repay_by(&payer, N, order.iter().map(|i| (W[*i], if *i == 8 { x } else { big(*i) })).collect());
        if !r.ok() {
            check("repaying needs no reason", eq(x, k(0)));
            same_except("a refused repayment changes nothing", &b0, &p.positions(N, BORROW), &[]);
            reach("crowded repayment refused");
            return;
        }
        for i in order {
            let t = W[i];
            let q = b0.iter().find(|q| q.asset == t.as_bytes()).unwrap();
            let owed = from_ray(rmul(q.scaled, p.m(t).st.bidx), DEC[i]);
            let spent = sub(k(p10(BIG)), p.bal(&payer, t));
            check("each debt costs what is owed, or the payment", eq(spent, if i == 8 { min(x, owed) } else { owed }));
            check("each debt falls by what the pool books", eq(sub(q.scaled, p.sc(N, BORROW, t)), sub(p.m(t).st.borrowed, p.state(t).borrowed)));
            if i != 8 {
                checkb("a fully repaid debt is removed", p.pos(N, BORROW, t).is_none());
            }
        }
        same_except("deposits untouched", &d0, &p.positions(N, DEPOSIT), &[]);
        reach("crowded repayment");
    })
}
/// five deposits in one call open an account, or add to one
pub fn supply(fresh: bool) -> Scenario {
    Scenario::new(format!("many deposits{}", if fresh { ", new account" } else { "" }), move || {
        let mut ms = markets();
        for m in ms.iter_mut() {
            m.cfg.scap = Some(k(p10(40)));
        }
        let p = Proto::new(ms);
        let had = p.m(W[0]).tok.clone();
        if fresh {
            p.account(&p.owner, N - 1, &normal(), &[deposit(W[0], units(1))]);
        } else {
            p.account(&p.user, N, &normal(), &deposits(&[2]));
        }
        let list = [2usize, 9, 0, 6, 3, 2];
        let xs: Vec<T> = list.iter().enumerate().map(|(j, i)| if j == 2 || j == 5 { amount(&format!("x{}", j), DEC[*i]) } else { k(p10(DEC[*i]) * (j as i64 + 3)) }).collect();
        let d0 = p.positions(N, DEPOSIT);
        let r = p.supply(if fresh { 0 } else { N }, None, list.iter().zip(&xs).map(|(i, x)| (W[*i], *x)).collect());
        if !r.ok() {
            check("deposits are refused only for a reason", or(&xs.iter().map(|x| eq(*x, k(0))).collect::<Vec<_>>()));
            reach("many deposits refused");
            return;
        }
        let _ = had;
        for i in 0..10 {
            let t = W[i];
            let of: Vec<T> = list.iter().zip(&xs).filter(|(j, _)| **j == i).map(|(_, x)| *x).collect();
            let was = d0.iter().find(|q| q.asset == t.as_bytes()).map_or(k(0), |q| q.scaled);
            let now = of.iter().fold(was, |a, x| add(a, rdiv(to_ray(*x, DEC[i]), p.m(t).st.sidx)));
            check("each deposit is credited", eq(p.sc(N, DEPOSIT, t), now));
            check("each deposit is booked by the pool", eq(sub(now, was), sub(p.state(t).supplied, p.m(t).st.supplied)));
            check("each payment is kept in full", eq(sub(k(p10(BIG)), p.bal(&p.user, t)), of.iter().fold(k(0), |a, x| add(a, *x))));
            checkb("no deposit without a payment", p.pos(N, DEPOSIT, t).is_some() == (!of.is_empty() || d0.iter().any(|q| q.asset == t.as_bytes())));
        }
        checkb("the account and its NFT", p.active(N) && p.holds(&p.user, N) && p.attrs(N) == Some(normal()));
        reach("many deposits");
    })
}
/// the totals of a crowded account, as the views give them and as a liquidation uses them
pub fn totals() -> Scenario {
    Scenario::new("crowded account's totals", move || {
        let p = open(&[3, 5], &[8, 1]);
        let (d, b) = (p.positions(N, DEPOSIT), p.positions(N, BORROW));
        let n = vec![top_u(N)];
        let wadd = |x: T| div_hu(x, k(p10(9)));
        let owed = p.total(&b);
        check("total borrow", eq(p.viewd("getTotalBorrowInEgld", n.clone()), wadd(owed)));
        check("liquidation collateral", eq(p.viewd("getLiquidationCollateralAvailable", n.clone()), wadd(p.weighted(&d, |q| q.threshold))));
        check("LTV collateral", eq(p.viewd("getLtvCollateralInEgld", n.clone()), wadd(p.weighted(&d, |q| q.ltv))));
        let tot = d.iter().fold(k(0), |a, q| add(a, wadd(p.val(q))));
        check("total collateral", eq(p.viewd("getTotalCollateralInEgld", n.clone()), tot));
        for i in 0..6 {
            let a = from_ray(rmul(p.sc(N, DEPOSIT, W[i]), p.m(W[i]).st.sidx), DEC[i]);
            check("collateral amount", eq(p.viewd("getCollateralAmountForToken", vec![top_u(N), W[i].as_bytes().to_vec()]), a));
        }
        for q in &b {
            let i = i_of(std::str::from_utf8(&q.asset).unwrap());
            let a = from_ray(rmul(q.scaled, p.m(W[i]).st.bidx), DEC[i]);
            check("debt amount", eq(p.viewd("getBorrowAmountForToken", vec![top_u(N), W[i].as_bytes().to_vec()]), a));
        }
        reach("crowded totals");
    })
}
pub fn healthy() -> Scenario {
    Scenario::new("crowded healthy account", move || {
        let p = open(&[3, 5], &[]);
        let (d, b) = (p.positions(N, DEPOSIT), p.positions(N, BORROW));
        let h = p.health(p.weighted(&d, |q| q.threshold), p.total(&b));
        check("health factor", eq(p.viewd("getHealthFactor", vec![top_u(N)]), h));
        let can = p.view("canBeLiquidated", vec![top_u(N)]).out()[0] == vec![1u8];
        check("liquidatable exactly below one", if can { lt(h, kray()) } else { ge(h, kray()) });
        if can {
            reach("crowded account can be liquidated");
            return;
        }
        let i = [6usize, 1, 9][pick("paid", 3)];
        let r = p.liquidate_by(&bob(), N, vec![(W[i], amount("x", DEC[i]))]);
        checkb("a crowded healthy account is refused", !r.ok());
        same_except("deposits untouched", &d, &p.positions(N, DEPOSIT), &[]);
        same_except("debts untouched", &b, &p.positions(N, BORROW), &[]);
        reach("crowded healthy account refused");
    })
}

/// revenue of many markets in one call, one of them named twice
pub fn claim_all() -> Scenario {
    Scenario::new("claim revenue of seven markets of ten", || {
        let mut ms = markets();
        for (i, m) in ms.iter_mut().enumerate() {
            let free = i == 2 || i == 9 || i == 5;
            m.st.supplied = units(5000 + i as i64);
            m.st.revenue = if free { var(&format!("R{}", i), 0, p10(30), p10(27) * 3) } else { units(2 + i as i64) };
            m.cash = if free { var(&format!("cash{}", i), 0, p10(36), p10(DEC[i]) * 2) } else { k(p10(DEC[i]) * 4) };
            m.st.supplied = add(m.st.supplied, m.st.revenue);
        }
        let p = Proto::new(ms);
        super::admin::accumulator(&p);
        for m in &p.mkts {
            set_balance(&p.c, m.tok.as_bytes(), 0, k(0));
            set_balance(&p.accum, m.tok.as_bytes(), 0, k(0));
        }
        let list = [9usize, 0, 2, 5, 2, 7, 4, 1];
        let r = p.call(&p.user, "claimRevenue", list.iter().map(|i| W[*i].as_bytes().to_vec()).collect(), vec![]);
        checkb("anyone may claim", r.ok());
        if !r.ok() {
            return;
        }
        for (i, m) in p.mkts.iter().enumerate() {
            let got = p.bal(&p.accum, &m.tok);
            check("all of it reaches the accumulator", eq(got, sub(m.cash, p.cash(&m.tok))));
            let due = from_ray(rmul(m.st.revenue, m.st.sidx), m.dec);
            // what the first claim leaves for the second: the rest of a rounding at most
            let slack = if i == 2 { k(1) } else { k(0) };
            let want = if list.contains(&i) { min(due, m.cash) } else { k(0) };
            check("the revenue of exactly the markets named, as far as there is cash", and(&[ge(got, want), le(got, add(want, slack))]));
            check("nobody else is paid", and(&[eq(p.bal(&p.user, &m.tok), k(p10(BIG))), eq(p.bal(&p.c, &m.tok), k(0))]));
        }
        reach("many claimed");
    })
}
/// accrual of many markets in one call
pub fn accrue_all() -> Scenario {
    Scenario::new("accrual of seven markets of ten", || {
        let mut ms = markets();
        for (i, m) in ms.iter_mut().enumerate() {
            m.st.supplied = units(5000);
            m.st.borrowed = units([3000, 0, 10, 4990][i % 4]);
        }
        let p = Proto::new(ms);
        let later = T0 + [1u64, 3_600_000, 31_556_926_000, 100_000_000_000][pick("elapsed", 4)];
        set_time_ms(later);
        let before: Vec<_> = W.iter().map(|t| (p.state(t), p.cash(t))).collect();
        let list = [3usize, 0, 8, 5, 0, 6, 1, 9];
        let r = p.call(&p.user, "updateIndexes", list.iter().map(|i| W[*i].as_bytes().to_vec()).collect(), vec![]);
        checkb("anyone may have interest accrued", r.ok());
        for (i, t) in W.iter().enumerate() {
            let (s1, (s0, c0)) = (p.state(t), &before[i]);
            check("no tokens move", eq(p.cash(t), *c0));
            check("indexes never fall", and(&[ge(s1.bidx, s0.bidx), ge(s1.sidx, s0.sidx), ge(s1.revenue, s0.revenue)]));
            if list.contains(&i) {
                checkb("accrued up to now", s1.last == later);
                if i % 4 == 3 {
                    check("interest of a used market", gt(s1.bidx, s0.bidx));
                }
            } else {
                super::ctrl::same_state("a market not named", s0, &s1);
            }
        }
        reach("many accrued");
    })
}
/// eight or nine positions, calls that open or top up one or two
pub fn limits(supply_side: bool) -> Scenario {
    Scenario::new(format!("many positions, limit on {}", if supply_side { "deposits" } else { "debts" }), move || {
        let p = Proto::new(markets());
        let held = 8 + pick("held", 2);
        let lim = [7u64, 8, 9, 10, 255][pick("limit", 5)];
        let other = [0u64, 3, 10][pick("other limit", 3)];
        let (mb, ms) = if supply_side { (other, lim) } else { (lim, other) };
        must(&p.owner, &p.c, "setPositionLimits", vec![top_u(mb), top_u(ms)], vec![]);
        let t = if supply_side { DEPOSIT } else { BORROW };
        let mut all: Vec<Pos> = (0..held).map(|i| if supply_side { deposit(W[i], units(5)) } else { debt(W[i], units(1)) }).collect();
        if !supply_side {
            all.push(deposit(W[2], units(1_000_000)));
        }
        p.account(&p.user, N, &normal(), &all);
        let list: &[usize] = [&[0usize][..], &[9], &[8], &[9, 9], &[0, 9], &[8, 9], &[7, 0, 7], &[8, 0, 9]][pick("entries", 8)];
        let last = list.len() - 1;
        let x = var("x", 1, p10(30), p10(9));
        let of = |j: usize| if j == last { x } else { k(p10(DEC[list[j]])) };
        let pays: Vec<(&str, T)> = list.iter().enumerate().map(|(j, i)| (W[*i], of(j))).collect();
        let r = if supply_side { p.supply(N, None, pays) } else { p.borrow(N, pays) };
        let now = p.positions(N, t);
        let mut fresh: Vec<usize> = list.iter().filter(|i| **i >= held).cloned().collect();
        let counted = fresh.len();
        fresh.sort();
        fresh.dedup();
        if r.ok() {
            checkb("never more positions than the limit", now.len() as u64 <= lim || fresh.is_empty());
            checkb("every new token has its position", now.len() == held + fresh.len());
            reach("many positions within the limit");
        } else {
            checkb("a refused call adds nothing", now.len() == held);
            // a small entry next to a large deposit: nothing else stands in the way
            if (held + counted) as u64 <= lim {
                check("topping up and filling up to the limit go through", gt(x, k(p10(DEC[list[last]]) * 10)));
            }
            reach("many positions refused");
        }
    })
}
/// one of eleven positions has no current price
pub fn stale(op: &'static str) -> Scenario {
    Scenario::new(format!("{} with one of many prices too old", op), move || {
        let p = Proto::new(markets());
        must(&p.owner, &p.c, "setPositionLimits", vec![top_u(10), top_u(10)], vec![]);
        let mut all = deposits(&[]);
        let hurt = op == "liquidate";
        all.extend(debts(&[]).into_iter().map(|q| Pos { scaled: if hurt { mul(q.scaled, k(8)) } else { div(q.scaled, k(4)) }, ..q }));
        p.account(&p.user, N, &normal(), &all);
        p.add_user(bob());
        let i = pick("token", 10);
        let t = W[i];
        let max = 600u64;
        let age = [0u64, max - 1, max, 2 * max][pick("age", 4)];
        let mut o = agg_oracle(p.agg, t, DEC[i]);
        o.stale = max;
        p.set_oracle(t, &o);
        p.set_round(t, cents(CENTS[i]), T0 / 1000 - age);
        // tokens the operation itself touches
        let x = var("x", 1, p10(20), p10(3));
        let ok = match op {
            "borrow" => p.borrow(N, vec![(W[7], x)]).ok(),
            "withdraw" => p.withdraw(N, vec![(W[4], x)]).ok(),
            _ => p.liquidate_by(&bob(), N, vec![(W[9], x)]).ok(),
        };
        if age >= max {
            checkb("refused without a current price of every position", !ok);
            reach("crowded account without a price");
        } else if ok {
            reach(&format!("crowded {} with current prices", op));
        }
    })
}
/// what these accounts and tokens add to a property
pub fn wide(id: &str, thorough: bool) -> Vec<Scenario> {
    use super::{ctrl, liq, pool};
    let _ = thorough;
    match id {
        "C20" => vec![borrow(&[5]), borrow(&[9, 9]), borrow(&[5, 5]), borrow(&[9, 0, 6, 0, 9]), borrow(&[2, 4]), ctrl::borrow_one("first debt", &[], 2), ctrl::borrow_one("same token again", &["BBB-222222"], 0)],
        "C21" => vec![withdraw(&[3]), withdraw(&[0, 5]), withdraw(&[4, 2, 1]), leave(), ctrl::withdraw_one("one debt", 2, false, &["CCC-333333"]), ctrl::withdraw_one("no debt, two deposits", 0, true, &[])],
        "C22" => vec![supply(true), supply(false), ctrl::supply_cap(2, true), ctrl::borrow_cap(0)],
        "C23" => vec![ctrl::iso_borrow_of(0), ctrl::iso_borrow_of(2), ctrl::iso_repay_of(0), ctrl::iso_repay_of(2), ctrl::iso_loans(&["BBB-222222", "CCC-333333"]), ctrl::iso_loans(&["BBB-222222", "BBB-222222"]), ctrl::iso_payments(&["BBB-222222", "CCC-333333"]), ctrl::iso_payments(&["CCC-333333", "CCC-333333"])],
        "C26" => vec![limits(true), limits(false)],
        "C43" => vec![stale("borrow"), stale("withdraw"), stale("liquidate")],
        "C27" => vec![healthy(), totals()],
        "C39" => vec![claim_all(), accrue_all(), super::admin::claim(&["AAA-111111", "BBB-222222"], 0)],
        "C30" => vec![liq::crowd_cleanup()],
        "C35" => vec![super::ctrl::threshold_crowd(true), super::ctrl::threshold_crowd(false)],
        "C48" => vec![totals()],
        "C28" => vec![liq::crowd("one debt paid", &[6], 130, 6), liq::crowd("two debts paid", &[9, 7], 130, 6), liq::crowd("four payments, three debts", &[8, 6, 8, 7], 130, 6), liq::crowd("deep", &[8, 9], 150, 4), liq::own("shallow", 840_000, 18), liq::own("deep", 960_000, 2), liq::fixed("whole tokens", 2_100_000, 8000, 500, 0, 2), liq::fixed("cents", 2_330_000, 8000, 500, 2, 0)],
        "C34" => vec![repay("its owner"), repay("a stranger"), ctrl::repay_one("by someone else", 2, false), ctrl::repay_one("by the owner", 0, true)],
        "C06" => vec![pool::supply(0), pool::withdraw(2), pool::withdraw(0)],
        "C07" => vec![pool::borrow(2), pool::repay(0)],
        _ => vec![],
    }
}

/// the situations these scenarios must have reached
pub fn reach_of(id: &str) -> &'static [&'static str] {
    match id {
        "C20" => &["crowded loan", "crowded loan refused"],
        "C21" => &["crowded withdrawal", "crowded withdrawal refused", "crowded account left"],
        "C22" => &["many deposits", "many deposits refused"],
        "C23" => &["several isolated loans", "several isolated repayments"],
        "C26" => &["many positions within the limit", "many positions refused"],
        "C43" => &["crowded account without a price", "crowded borrow with current prices", "crowded withdraw with current prices", "crowded liquidate with current prices"],
        "C27" => &["crowded healthy account refused", "crowded account can be liquidated", "crowded totals"],
        "C28" => &["crowded liquidation", "own token liquidated"],
        "C30" => &["crowded account cleaned"],
        "C34" => &["crowded repayment"],
        "C35" => &["eight accounts", "eight accounts refused"],
        "C39" => &["many claimed", "many accrued"],
        "C48" => &["crowded totals"],
        _ => &[],
    }
}
pub fn bounds_of(id: &str) -> &'static str {
    match id {
        "C20" | "C21" | "C22" | "C34" => "; accounts of six deposits and five debts in ten markets of 0, 1, 2, 3, 6, 8, 12 and 18 decimals (two or three positions and one or more amounts symbolic, prices and indexes fixed), calls of up to six entries with repeated tokens, account number 70001",
        "C27" | "C48" => "; an account of six deposits and five debts in markets of 0 to 18 decimals, four positions symbolic",
        "C23" => "; debts of 0 and 2 decimals, two loans or two repayments of one call",
        "C26" => "; eight or nine positions, limits of 7 to 255, up to three entries per call with repeated tokens, the other limit 0, 3 or 10",
        "C43" => "; an account of six deposits and five debts, any one of the ten prices of age 0, 599, 600 or 1200 s at a limit of 600 s",
        "C28" => "; accounts of four or six collaterals and four debts in markets of 0 to 18 decimals, fixed positions, up to four payments, the last of any size; one account holding and owing the same token",
        "C30" => "; an account of six deposits and five debts, three of them symbolic",
        "C35" => "; eight accounts in one call, two of them with six deposits, numbers above 65535",
        "C39" => "; ten markets of 0 to 18 decimals of which seven are named in one call of eight entries, three with symbolic revenue and cash; accrual after 1 ms, an hour, a year and three years",
        "C06" | "C07" => "; tokens of 0 and 2 decimals",
        _ => "",
    }
}
