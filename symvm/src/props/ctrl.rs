//! The controller with its pools: user operations on accounts.
use super::live::*;
use super::{Cfg, Prop};
use crate::engine::*;
use crate::env::*;
use crate::env_ctrl::*;
use crate::term::*;
use crate::vm::*;

pub const A: &str = "AAA-111111";
pub const B: &str = "BBB-222222";
pub const C: &str = "CCC-333333";
const N: u64 = 70_001;
/// an e-mode category
const E: u8 = 201;

/// everything symbolic about a market's valuation
pub fn sym_mkt(t: &str, d: u32) -> Mkt {
    let mut m = mkt(t, d, var(&format!("price{}", &t[..1]), p10(6), p10(30), p10(18) * 3));
    m.st.bidx = var(&format!("bidx{}", &t[..1]), p10(27), p10(29), frac_ray(12, 10));
    m.st.sidx = var(&format!("sidx{}", &t[..1]), p10(26), p10(29), frac_ray(11, 10));
    m.st.supplied = var(&format!("S{}", &t[..1]), 0, p10(40), p10(36));
    m.st.borrowed = var(&format!("B{}", &t[..1]), 0, p10(40), p10(35));
    m.st.revenue = var(&format!("R{}", &t[..1]), 0, p10(40), p10(30));
    assume(le(m.st.revenue, m.st.supplied));
    m.cash = var(&format!("cash{}", &t[..1]), 0, p10(36), p10(30));
    m
}
pub fn amount(n: &str, d: u32) -> T {
    var(n, 0, p10(36), p10(d) * 3)
}
pub fn scaled(n: &str, hint: i64) -> T {
    var(n, 1, p10(40), p10(27) * hint)
}
fn same_pos(a: &Pos, b: &Pos) -> B {
    if a.ptype != b.ptype || a.asset != b.asset || a.nonce != b.nonce {
        return fls();
    }
    and(&[eq(a.scaled, b.scaled), eq(a.threshold, b.threshold), eq(a.bonus, b.bonus), eq(a.fees, b.fees), eq(a.ltv, b.ltv)])
}
/// the two position lists agree, except in the assets named
pub fn same_except(n: &str, a: &[Pos], b: &[Pos], but: &[&str]) {
    let f = |v: &[Pos]| -> Vec<Pos> { v.iter().filter(|p| !but.iter().any(|t| t.as_bytes() == p.asset)).cloned().collect() };
    let (x, y) = (f(a), f(b));
    let same = x.len() == y.len() && x.iter().all(|p| y.iter().any(|q| q.asset == p.asset));
    checkb(n, same);
    if same {
        let c: Vec<B> = x.iter().map(|p| same_pos(p, y.iter().find(|q| q.asset == p.asset).unwrap())).collect();
        check(n, and(&c));
    }
}
pub fn same_state(n: &str, a: &PState, b: &PState) {
    checkb(n, a.last == b.last);
    check(
        n,
        and(&[eq(a.supplied, b.supplied), eq(a.borrowed, b.borrowed), eq(a.revenue, b.revenue), eq(a.bidx, b.bidx), eq(a.sidx, b.sidx)]),
    );
}

// ------------------------------------------------------------------ C20 borrowing
pub fn borrow_one(name: &str, existing: &'static [&'static str], d: u32) -> Scenario {
    Scenario::new(format!("borrow {} dec={}", name, d), move || {
        let mut ms = vec![sym_mkt(A, 18), sym_mkt(B, d)];
        if existing.contains(&C) {
            ms.push(sym_mkt(C, 18));
        }
        let p = Proto::new(ms);
        let mut dep = deposit(A, scaled("depA", 1000));
        dep.ltv = var("ltvA", 0, 10000, 7500);
        let mut all = vec![dep.clone()];
        for t in existing {
            all.push(debt(t, scaled(&format!("debt{}", &t[..1]), 5)));
        }
        p.account(&p.user, N, &normal(), &all);
        let before = p.positions(N, BORROW);
        let x = amount("x", d);
        let bal0 = p.bal(&p.user, B);
        let m = p.m(B).clone();
        let r = p.borrow(N, vec![(B, x)]);
        match r {
            TxRes::Ok(_) => {
                let limit = p.weighted(&[dep.clone()], |q| q.ltv);
                let owed = p.total(&before);
                let v = rmul(to_ray(x, d), mul(m.price, k(p10(9))));
                check("debt value including the new loan stays within the LTV-weighted collateral", le(add(owed, v), limit));
                check("the borrower receives exactly the amount", eq(p.bal(&p.user, B), add(bal0, x)));
                check("paid out of the pool's cash", eq(p.cash(B), sub(m.cash, x)));
                let n = p.state(B);
                let inc = sub(p.sc(N, BORROW, B), before.iter().find(|q| q.asset == B.as_bytes()).map_or(k(0), |q| q.scaled));
                check("the account owes what the pool books", eq(inc, sub(n.borrowed, m.st.borrowed)));
                check("the debt is the amount at the borrow index", eq(inc, rdiv(to_ray(x, d), m.st.bidx)));
                same_except("other debts untouched", &before, &p.positions(N, BORROW), &[B]);
                same_except("deposits untouched", &[dep_n(&dep)], &p.positions(N, DEPOSIT), &[]);
                checkb("the account NFT is back with the borrower", p.holds(&p.user, N));
                check("suppliers' side untouched", and(&[eq(n.supplied, m.st.supplied), eq(n.revenue, m.st.revenue)]));
                observe("inc", inc);
                reach("borrowed");
            }
            TxRes::Err(_) => {
                check("a rejected loan pays nothing", eq(p.bal(&p.user, B), bal0));
                checkb("a rejected loan leaves the account NFT with its owner", p.holds(&p.user, N));
                same_except("a rejected loan leaves debts alone", &before, &p.positions(N, BORROW), &[]);
                reach("refused");
            }
        }
    })
}
fn dep_n(p: &Pos) -> Pos {
    let mut q = p.clone();
    q.nonce = N;
    q
}


/// fixed, uneven indexes and prices (so that sums stay linear in the amounts)
pub fn lin_mkt(t: &str, d: u32, price: T, b: i64, s: i64) -> Mkt {
    let mut m = mkt(t, d, price);
    m.st.bidx = k(frac_ray(b, 1000) + 7);
    m.st.sidx = k(frac_ray(s, 1000) + 3);
    m
}
fn cents(n: i64) -> T {
    k(p10(16) * n)
}
pub fn one_deposit(name: &str, hint: i64, ltv: i64) -> Pos {
    let mut d = deposit(A, scaled(name, hint));
    d.ltv = k(ltv);
    d
}
/// several loans in one call, in one token or in two
pub fn borrow_bulk(name: &'static str, t2: &'static str, held: bool) -> Scenario {
    Scenario::new(format!("borrow bulk {}", name), move || {
        let p = Proto::new(vec![
            lin_mkt(A, 18, cents(250), 1300, 1100),
            lin_mkt(B, 6, cents(99), 1203, 1050),
            lin_mkt(C, 18, cents(4010), 1007, 1001),
        ]);
        let dep = one_deposit("depA", 1000, 7300);
        let mut all = vec![dep.clone()];
        if held {
            all.push(debt(B, scaled("debtB", 5)));
        }
        p.account(&p.user, N, &normal(), &all);
        let (x, y) = (amount("x", 6), amount("y", 6));
        let (s0, t0) = (p.state(B), p.state(C));
        let r = p.borrow(N, vec![(B, x), (t2, y)]);
        if let TxRes::Ok(_) = r {
            let limit = p.weighted(&[dep.clone()], |q| q.ltv);
            let owed = p.total(&p.positions(N, BORROW));
            observe("owed", owed);
            check("all debts together stay within the LTV-weighted collateral", le(owed, add(limit, k(200))));
            let got = |t: &str| sub(p.bal(&p.user, t), k(p10(BIG)));
            let inc = |t: &str, s: &PState| sub(p.state(t).borrowed, s.borrowed);
            let own = |t: &str, h: T| sub(p.sc(N, BORROW, t), h);
            let h = if held { all[1].scaled } else { k(0) };
            check("first token booked to the account", eq(own(B, h), inc(B, &s0)));
            check("second token booked to the account", eq(own(C, k(0)), inc(C, &t0)));
            if t2 == B {
                check("both amounts paid", eq(got(B), add(x, y)));
            } else {
                check("both amounts paid", and(&[eq(got(B), x), eq(got(t2), y)]));
            }
            reach("bulk borrowed");
        }
    })
}
/// time has passed since the last accrual: positions count with their interest
pub fn borrow_later() -> Scenario {
    Scenario::new("borrow after thirty days", move || {
        let mut ma = lin_mkt(A, 18, cents(250), 1300, 1100);
        let mut mb = lin_mkt(B, 18, cents(99), 1203, 1050);
        for m in [&mut ma, &mut mb] {
            m.st.supplied = k(p10(36));
            m.st.borrowed = k(p10(35) * 9);
        }
        let p = Proto::new(vec![ma, mb]);
        let dep = one_deposit("depA", 1000, 7300);
        let dbt = debt(B, scaled("debtB", 500));
        p.account(&p.user, N, &normal(), &[dep.clone(), dbt.clone()]);
        set_time_ms(T0 + 30 * 86_400_000);
        for t in [A, B, "EGLD"] {
            p.set_price(t, if t == "EGLD" { kwad() } else { p.m(t).price });
        }
        let x = amount("x", 18);
        if let TxRes::Ok(_) = p.borrow(N, vec![(B, x)]) {
            // the collateral's pool has not been touched: the accrued index comes from a sync
            must(&p.user, &p.c, "updateIndexes", vec![A.as_bytes().to_vec()], vec![]);
            let (sa, sb) = (p.state(A), p.state(B));
            checkb("interest was charged", as_const(sb.bidx).unwrap() > as_const(p.m(B).st.bidx).unwrap());
            let price = |t: &str| mul(p.m(t).price, k(p10(9)));
            let limit = rmul(rmul(rmul(dep.scaled, sa.sidx), price(A)), k(p10(23) * 7300));
            let owed = rmul(rmul(dbt.scaled, sb.bidx), price(B));
            check(
                "debts count with accrued interest against the collateral's current value",
                le(add(owed, rmul(to_ray(x, 18), price(B))), limit),
            );
            reach("borrowed later");
        }
    })
}

// ------------------------------------------------------------------ C21 withdrawing
pub fn withdraw_one(name: &str, d: u32, second: bool, debts: &'static [&'static str]) -> Scenario {
    Scenario::new(format!("withdraw {} dec={}", name, d), move || {
        let mut ms = vec![sym_mkt(A, d)];
        if second || debts.contains(&B) {
            ms.push(sym_mkt(B, 18));
        }
        if debts.contains(&C) {
            ms.push(sym_mkt(C, 6));
        }
        let p = Proto::new(ms);
        let mut dep = deposit(A, scaled("depA", 1000));
        dep.threshold = var("thrA", 0, 10000, 8000);
        let mut all = vec![dep.clone()];
        if second {
            let mut d2 = deposit(B, scaled("depB", 100));
            d2.threshold = k(6500);
            all.push(d2);
        }
        for t in debts {
            all.push(debt(t, scaled(&format!("debt{}", &t[..1]), 5)));
        }
        p.account(&p.user, N, &normal(), &all);
        let (d0, b0) = (p.positions(N, DEPOSIT), p.positions(N, BORROW));
        let m = p.m(A).clone();
        let bal0 = p.bal(&p.user, A);
        let x = amount("x", d);
        let worth = from_ray(rmul(dep.scaled, m.st.sidx), d);
        match p.withdraw(N, vec![(A, x)]) {
            TxRes::Ok(_) => {
                let (d1, b1) = (p.positions(N, DEPOSIT), p.positions(N, BORROW));
                if !debts.is_empty() {
                    let h = p.health(p.weighted(&d1, |q| q.threshold), p.total(&b0));
                    let nodebt = eq(p.total(&b0), k(0));
                    check("an account with debt stays healthy", or(&[nodebt, ge(h, kray())]));
                }
                check("pays the smaller of the request and the deposit", eq(p.bal(&p.user, A), add(bal0, min(x, worth))));
                check("paid out of the pool's cash", eq(sub(m.cash, p.cash(A)), sub(p.bal(&p.user, A), bal0)));
                let dec_ = sub(dep.scaled, p.sc(N, DEPOSIT, A));
                check("the account gives up what the pool books", eq(dec_, sub(m.st.supplied, p.state(A).supplied)));
                same_except("other deposits untouched", &d0, &d1, &[A]);
                same_except("debts untouched", &b0, &b1, &[]);
                let gone = p.pos(N, DEPOSIT, A).is_none();
                check("the deposit is removed exactly when it is used up", eq(bool_t(gone), ite(eq(dec_, dep.scaled), k(1), k(0))));
                let empty = d1.is_empty() && b1.is_empty();
                checkb("the account lives exactly as long as it has positions", p.active(N) != empty && p.attrs(N).is_none() == empty);
                checkb("the account NFT is returned, or burnt with the account", p.holds(&p.user, N) != empty);
                checkb("no NFT is left behind", !p.holds(&p.c, N));
                reach(if empty { "account closed" } else if debts.is_empty() { "withdrawn free" } else { "withdrawn with debt" });
            }
            TxRes::Err(_) => {
                check("a refused withdrawal moves nothing", eq(p.bal(&p.user, A), bal0));
                same_except("a refused withdrawal keeps the deposits", &d0, &p.positions(N, DEPOSIT), &[]);
                checkb("a refused withdrawal leaves the NFT", p.holds(&p.user, N));
                reach("withdrawal refused");
            }
        }
    })
}
pub fn bool_t(b: bool) -> T {
    k(b as i32)
}
pub fn withdraw_two() -> Scenario {
    Scenario::new("withdraw two deposits at once", move || {
        let p = Proto::new(vec![
            lin_mkt(A, 18, cents(250), 1300, 1100),
            lin_mkt(B, 6, cents(99), 1203, 1050),
            lin_mkt(C, 18, cents(4010), 1007, 1001),
        ]);
        let (mut a, mut b) = (deposit(A, scaled("depA", 1000)), deposit(B, scaled("depB", 1000)));
        a.threshold = k(8100);
        b.threshold = k(6100);
        let c = debt(C, scaled("debtC", 5));
        p.account(&p.user, N, &normal(), &[a, b, c.clone()]);
        let (x, y) = (amount("x", 18), amount("y", 6));
        if let TxRes::Ok(_) = p.withdraw(N, vec![(A, x), (B, y)]) {
            let left = p.weighted(&p.positions(N, DEPOSIT), |q| q.threshold);
            let owed = p.total(&[c.clone()]);
            check("healthy after both withdrawals", or(&[eq(owed, k(0)), ge(p.health(left, owed), kray())]));
            // (2L >= ray*debt - 1: the same without the rounding of the quotient)
            check("weighted collateral covers the debt", ge(add(mul(k(2), mul(left, kray())), owed), mul(k(2), mul(owed, kray()))));
            reach("two withdrawn");
        }
    })
}

// ------------------------------------------------------------------ C22 caps
pub fn supply_cap(d: u32, fresh: bool) -> Scenario {
    Scenario::new(format!("supply cap dec={}{}", d, if fresh { " new account" } else { "" }), move || {
        let mut m = sym_mkt(A, d);
        let cap = var("cap", 1, p10(36), p10(d) * 20_000_000_000i64);
        m.cfg.scap = Some(cap);
        let p = Proto::new(vec![m]);
        if !fresh {
            p.account(&p.user, N, &normal(), &[deposit(A, scaled("depA", 10))]);
        } else {
            // many accounts came before
            p.account(&p.owner, N - 1, &normal(), &[deposit(A, k(p10(20)))]);
        }
        let x = amount("x", d);
        let m = p.m(A).clone();
        let old = p.sc(N, DEPOSIT, A);
        if let TxRes::Ok(_) = p.supply(if fresh { 0 } else { N }, None, vec![(A, x)]) {
            let n = N;
            let before = from_ray(rmul(m.st.supplied, m.st.sidx), d);
            check("total deposits stay within the supply cap", le(add(before, x), cap));
            let inc = sub(p.sc(n, DEPOSIT, A), old);
            check("the account is credited what the pool books", eq(inc, sub(p.state(A).supplied, m.st.supplied)));
            check("credit is the amount at the supply index", eq(inc, rdiv(to_ray(x, d), m.st.sidx)));
            check("the pool receives exactly the payment", eq(p.cash(A), add(m.cash, x)));
            check("the payer pays exactly the payment", eq(sub(k(p10(BIG)), p.bal(&p.user, A)), x));
            checkb("the supplier holds the account NFT", p.holds(&p.user, n) && p.active(n) && !p.holds(&p.c, n));
            checkb("a new account gets the next number", p.attrs(n).is_some() && untop_u(&p.get(&[b"account_nonce".to_vec()])) == n);
            reach("supplied under the cap");
        } else {
            reach("supply refused");
        }
    })
}
fn supply_cap_bulk() -> Scenario {
    Scenario::new("supply cap, same token twice", move || {
        let mut m = lin_mkt(A, 6, cents(250), 1300, 1100);
        m.st.supplied = var("S", 0, p10(40), p10(36));
        let cap = var("cap", 1, p10(36), p10(6) * 20_000_000_000i64);
        m.cfg.scap = Some(cap);
        let p = Proto::new(vec![m]);
        let (x, y) = (amount("x", 6), amount("y", 6));
        if let TxRes::Ok(_) = p.supply(0, None, vec![(A, x), (A, y)]) {
            let after = from_ray(rmul(p.state(A).supplied, p.m(A).st.sidx), 6);
            check("both payments count against the cap", le(after, add(cap, k(1))));
            reach("bulk under the cap");
        }
    })
}
pub fn borrow_cap(d: u32) -> Scenario {
    Scenario::new(format!("borrow cap dec={}", d), move || {
        let mut m = sym_mkt(B, d);
        let cap = var("cap", 1, p10(36), p10(d) * 20_000_000_000i64);
        m.cfg.bcap = Some(cap);
        let p = Proto::new(vec![lin_mkt(A, 18, cents(250), 1300, 1100), m]);
        p.account(&p.user, N, &normal(), &[one_deposit("depA", 100_000, 7300)]);
        let x = amount("x", d);
        let m = p.m(B).clone();
        if let TxRes::Ok(_) = p.borrow(N, vec![(B, x)]) {
            let before = from_ray(rmul(m.st.borrowed, m.st.bidx), d);
            check("total debt stays within the borrow cap", le(add(before, x), cap));
            reach("borrowed under the cap");
        } else {
            reach("borrow refused");
        }
    })
}
fn borrow_cap_bulk() -> Scenario {
    Scenario::new("borrow cap, same token twice", move || {
        let mut m = lin_mkt(B, 6, cents(99), 1203, 1050);
        m.st.borrowed = var("B", 0, p10(40), p10(35));
        let cap = var("cap", 1, p10(36), p10(6) * 20_000_000_000i64);
        m.cfg.bcap = Some(cap);
        let p = Proto::new(vec![lin_mkt(A, 18, cents(250), 1300, 1100), m]);
        p.account(&p.user, N, &normal(), &[one_deposit("depA", 100_000, 7300)]);
        let (x, y) = (amount("x", 6), amount("y", 6));
        if let TxRes::Ok(_) = p.borrow(N, vec![(B, x), (B, y)]) {
            let after = from_ray(rmul(p.state(B).borrowed, p.m(B).st.bidx), 6);
            check("both loans count against the cap", le(after, add(cap, k(1))));
            reach("bulk borrowed under the cap");
        }
    })
}

// ------------------------------------------------------------------ C23 isolation
const USD: i64 = 40;
/// 1 EGLD = 40 USD; A may be isolated with a debt ceiling
fn iso_proto(ceiling: T, iso_b: bool, a_isolated: bool, dec: u32) -> Proto {
    let mut a = lin_mkt(A, 6, cents(250), 1300, 1100);
    a.cfg.isolated = a_isolated;
    a.cfg.ceiling = ceiling;
    let mut b = sym_mkt(B, dec);
    b.st.bidx = k(frac_ray(1203, 1000));
    b.st.sidx = k(frac_ray(1050, 1000));
    b.cfg.iso_borrow = iso_b;
    let p = Proto::new(vec![a, b, lin_mkt(C, 18, cents(4010), 1007, 1001)]);
    p.set_price("EGLD", k(p10(18) * USD));
    for m in &p.mkts {
        p.set_price(&m.tok, mul(m.price, k(USD)));
    }
    p
}
/// USD value (wad) of an amount, rounded as documented: EGLD in wad first, then USD
fn usd_value(p: &Proto, t: &str, x: T) -> T {
    let m = p.m(t);
    let egld = div_hu(rmul(to_ray(x, m.dec), mul(m.price, k(p10(9)))), k(p10(9)));
    div_hu(rmul(mul(egld, k(p10(9))), k(p10(27) * USD)), k(p10(9)))
}
pub fn iso_borrow() -> Scenario {
    iso_borrow_of(6)
}
pub fn iso_borrow_of(dec: u32) -> Scenario {
    Scenario::new(format!("isolated account borrows{}", few(dec)), move || {
        let ceiling = var("ceiling", 0, p10(36), p10(18) * 1_000_000i64);
        let allowed = flag("isolation_borrow", true);
        let p = iso_proto(ceiling, allowed, true, dec);
        let mut all = vec![one_deposit("depA", 100_000, 7300)];
        match pick("already owes", 3) {
            0 => {}
            1 => all.push(debt(B, scaled("debtB", 3))),
            _ => all.push(debt(C, scaled("debtC", 3))),
        }
        p.account(&p.user, N, &isolated(A), &all);
        let had = var("tracked", 0, p10(36), p10(18) * 10);
        p.set_iso_debt(A, had);
        let x = amount("x", dec);
        if let TxRes::Ok(_) = p.borrow(N, vec![(B, x)]) {
            checkb("only tokens enabled for isolation can be borrowed", allowed);
            let now = p.iso_debt(A);
            observe("tracked", now);
            check("the tracker grows by the loan's USD value", eq(now, add(had, usd_value(&p, B, x))));
            check("the tracked debt stays within the ceiling", or(&[eq(now, had), le(now, ceiling)]));
            check("other trackers untouched", and(&[eq(p.iso_debt(B), k(0)), eq(p.iso_debt(C), k(0))]));
            reach("isolated loan");
        } else {
            check("a refused loan is not tracked", eq(p.iso_debt(A), had));
            reach("isolated loan refused");
        }
    })
}
fn free_borrow() -> Scenario {
    Scenario::new("ordinary account is not tracked", move || {
        let p = iso_proto(k(0), false, false, 6);
        p.account(&p.user, N, &normal(), &[one_deposit("depA", 100_000, 7300)]);
        let had = var("tracked", 0, p10(36), p10(18) * 10);
        p.set_iso_debt(A, had);
        let x = amount("x", 6);
        if let TxRes::Ok(_) = p.borrow(N, vec![(B, x)]) {
            check("tracker untouched", eq(p.iso_debt(A), had));
            reach("ordinary loan");
        }
    })
}
fn few(dec: u32) -> String {
    if dec == 6 { String::new() } else { format!(", a token of {} decimals", dec) }
}
/// several loans of one call, each counted
pub fn iso_loans(list: &'static [&'static str]) -> Scenario {
    Scenario::new(format!("isolated account borrows {}", list.join(" and ")), move || {
        let ceiling = var("ceiling", 0, p10(36), p10(18) * 1_000_000i64);
        let p = iso_proto(ceiling, true, true, 6);
        p.account(&p.user, N, &isolated(A), &[one_deposit("depA", 100_000, 7300)]);
        let had = var("tracked", 0, p10(36), p10(18) * 10);
        p.set_iso_debt(A, had);
        let xs: Vec<(&str, T)> = list.iter().enumerate().map(|(i, t)| (*t, amount(&format!("x{}", i), p.m(t).dec))).collect();
        let r = p.borrow(N, xs.clone());
        let now = p.iso_debt(A);
        observe("tracked", now);
        if r.ok() {
            let all = xs.iter().fold(had, |z, (t, x)| add(z, usd_value(&p, t, *x)));
            check("the tracker grows by every loan's USD value", eq(now, all));
            check("the tracked debt stays within the ceiling", or(&[eq(now, had), le(now, ceiling)]));
            reach("several isolated loans");
        } else {
            check("refused loans are not tracked", eq(now, had));
        }
    })
}
/// several repayments of one call
pub fn iso_payments(list: &'static [&'static str]) -> Scenario {
    Scenario::new(format!("isolated debts are repaid with {}", list.join(" and ")), move || {
        let p = iso_proto(k(0), true, true, 6);
        let ds = [debt(B, k(p10(27) * 50)), debt(C, k(p10(27) * 3))];
        p.account(&p.user, N, &isolated(A), &[one_deposit("depA", 100_000, 7300), ds[0].clone(), ds[1].clone()]);
        let had = var("tracked", 0, p10(36), p10(18) * 1_000_000);
        p.set_iso_debt(A, had);
        let xs: Vec<(&str, T)> = list.iter().enumerate().map(|(i, t)| (*t, amount(&format!("x{}", i), p.m(t).dec))).collect();
        if let TxRes::Ok(_) = p.repay_by(&p.user, N, xs.clone()) {
            let now = p.iso_debt(A);
            observe("tracked", now);
            let taken = |t: &str| sub(k(p10(BIG)), p.bal(&p.user, t));
            let usd = add(usd_value(&p, B, taken(B)), usd_value(&p, C, taken(C)));
            // one unit of each token per payment, in USD
            let room = add(mul(k(4), add(usd_value(&p, B, k(1)), usd_value(&p, C, k(1)))), k(1000));
            let want = sub(had, min(had, usd));
            check(
                "the tracker falls by the value of everything repaid, dust below 1 USD dropped",
                or(&[le(abs_diff(now, want), room), and(&[eq(now, k(0)), le(want, add(kwad(), room))])]),
            );
            reach("several isolated repayments");
        }
    })
}
fn iso_repay() -> Scenario {
    iso_repay_of(6)
}
pub fn iso_repay_of(dec: u32) -> Scenario {
    Scenario::new(format!("isolated debt is repaid{}", few(dec)), move || {
        let p = iso_proto(k(0), true, true, dec);
        let b = debt(B, scaled("debtB", 50));
        p.account(&p.user, N, &isolated(A), &[one_deposit("depA", 100_000, 7300), b.clone()]);
        let had = var("tracked", 0, p10(36), p10(18) * 1000);
        p.set_iso_debt(A, had);
        let x = amount("x", dec);
        if let TxRes::Ok(_) = p.repay_by(&p.user, N, vec![(B, x)]) {
            let m = p.m(B).clone();
            // what the debt is worth, and what is paid, in EGLD (wad)
            let owed = div_hu(rmul(rmul(b.scaled, m.st.bidx), mul(m.price, k(p10(9)))), k(p10(9)));
            let paid = div_hu(rmul(to_ray(x, dec), mul(m.price, k(p10(9)))), k(p10(9)));
            let usd = div_hu(rmul(mul(min(owed, paid), k(p10(9))), k(p10(27) * USD)), k(p10(9)));
            let left = sub(had, min(had, usd));
            let want = ite(and(&[gt(usd, k(0)), lt(left, kwad())]), k(0), left);
            observe("tracked", p.iso_debt(A));
            check("the tracker falls by the value actually repaid, dust below 1 USD dropped", eq(p.iso_debt(A), want));
            reach("isolated repayment");
        }
    })
}
/// liquidating an isolated account releases what was repaid, not what was offered
fn iso_liquidation() -> Scenario {
    Scenario::new("isolated account is liquidated", move || {
        let mut a = lin_mkt(A, 6, cents(250), 1300, 1100);
        a.cfg.isolated = true;
        let p = Proto::new(vec![a, lin_mkt(B, 6, cents(99), 1203, 1050), lin_mkt(C, 18, cents(4010), 1007, 1001)]);
        p.set_price("EGLD", k(p10(18) * USD));
        for m in &p.mkts {
            p.set_price(&m.tok, mul(m.price, k(USD)));
        }
        let mut da = deposit(A, k(p10(27) * 1100));
        da.bonus = k(500);
        // 3025 EGLD of collateral at 80%
        let debts = [debt(B, k(p10(24) * 1_800_000)), debt(C, k(p10(27) * 10))];
        p.account(&p.user, N, &isolated(A), &[da, debts[0].clone(), debts[1].clone()]);
        let had = var("tracked", p10(24), p10(36), p10(24) * 7);
        p.set_iso_debt(A, had);
        p.add_user(user_addr("bob"));
        let bob = user_addr("bob");
        let (x, y) = (amount("x", 6), amount("y", 18));
        let list = match pick("order", 3) {
            0 => vec![(B, x)],
            1 => vec![(B, x), (C, y)],
            _ => vec![(C, y), (B, x)],
        };
        if p.liquidate_by(&bob, N, list).ok() {
            let spent = |t: &str| sub(k(p10(BIG)), p.bal(&bob, t));
            let released = sub(had, p.iso_debt(A));
            let usd = add(usd_value(&p, B, spent(B)), usd_value(&p, C, spent(C)));
            observe("released", released);
            // one unit of each token, in USD
            let room = add(mul(k(3), add(usd_value(&p, B, k(1)), usd_value(&p, C, k(1)))), k(1000));
            check("the tracker falls by what was repaid", le(abs_diff(released, usd), room));
            reach("isolated liquidation");
        } else {
            check("a refused liquidation releases nothing", eq(p.iso_debt(A), had));
            reach("isolated liquidation refused");
        }
    })
}
/// who may put what into which account
pub fn iso_supply() -> Scenario {
    Scenario::new("isolated and ordinary collateral never mix", move || {
        let a_iso = flag("A isolated", true);
        let mut a = lin_mkt(A, 18, cents(250), 1300, 1100);
        a.cfg.isolated = a_iso;
        let b_iso = flag("B isolated", false);
        let mut b = lin_mkt(B, 18, cents(99), 1203, 1050);
        b.cfg.isolated = b_iso;
        let p = Proto::new(vec![a, b]);
        let kind = pick("choice1", 3);
        let (nonce, attrs) = match kind {
            0 => (0, None),
            1 => (N, Some(isolated(A))),
            _ => (N, Some(normal())),
        };
        if let Some(at) = &attrs {
            p.account(&p.user, N, at, &[deposit(A, scaled("depA", 10))]);
        }
        let (x, y) = (amount("x", 18), amount("y", 18));
        let pays = match pick("choice2", 4) {
            0 => vec![(A, x)],
            1 => vec![(B, x)],
            2 => vec![(A, x), (B, y)],
            _ => vec![(B, x), (A, y)],
        };
        let r = p.supply(nonce, None, pays);
        if r.ok() {
            let n = if nonce == 0 { 1 } else { N };
            let at = p.attrs(n).unwrap();
            let toks: Vec<String> = p.positions(n, DEPOSIT).iter().map(|q| String::from_utf8_lossy(&q.asset).to_string()).collect();
            if let Some(old) = attrs {
                checkb("attributes are fixed for an account's life", at == old);
            } else {
                let first_iso = if toks.len() == 1 { if toks[0] == A { a_iso } else { b_iso } } else { false };
                checkb("an account opened with isolated collateral is isolated", at.isolated == first_iso);
                checkb("isolated accounts record their token", at.token.is_some() == at.isolated);
            }
            if at.isolated {
                checkb("an isolated account holds its one collateral", toks.len() == 1 && Some(&toks[0]) == at.token.as_ref());
                reach("isolated account");
            } else {
                // (a legacy deposit may have become isolated later: kind 2 starts with A deposited)
                let fresh = |t: &str| toks.iter().any(|x| x == t) && !(kind == 2 && t == A);
                checkb("no isolated collateral enters an ordinary account", !(fresh(A) && a_iso) && !(fresh(B) && b_iso));
                reach("ordinary account");
            }
        } else {
            reach("mix refused");
        }
    })
}

// ------------------------------------------------------------------ C24 siloed debt
pub fn siloed() -> Scenario {
    Scenario::new("siloed debt stays alone", move || {
        let (sb, sc_) = (flag("B siloed", true), flag("C siloed", false));
        let mut b = lin_mkt(B, 6, cents(99), 1203, 1050);
        b.cfg.siloed = sb;
        let mut c = lin_mkt(C, 18, cents(4010), 1007, 1001);
        c.cfg.siloed = sc_;
        let p = Proto::new(vec![lin_mkt(A, 18, cents(250), 1300, 1100), b, c, lin_mkt("DDD-444444", 18, cents(100), 1000, 1000)]);
        // C may have become siloed only after it was borrowed beside another token
        let held: &[&str] = match pick("choice3", 6) {
            0 => &[],
            1 => &[B],
            2 => &[C],
            3 => &["DDD-444444"],
            4 => &[C, "DDD-444444"],
            _ => &["DDD-444444", C],
        };
        let mut all = vec![one_deposit("depA", 100_000, 7300)];
        for t in held {
            all.push(debt(t, scaled(&format!("debt{}", &t[..1]), 5)));
        }
        p.account(&p.user, N, &normal(), &all);
        let (x, y) = (amount("x", 6), amount("y", 6));
        let list = match pick("choice4", 5) {
            0 => vec![(B, x)],
            1 => vec![(C, x)],
            2 => vec![(B, x), (C, y)],
            3 => vec![(C, x), (B, y)],
            _ => vec![(B, x), (B, y)],
        };
        if p.borrow(N, list).ok() {
            let toks: Vec<Vec<u8>> = p.positions(N, BORROW).iter().map(|q| q.asset.clone()).collect();
            let any = toks.iter().any(|t| (t == B.as_bytes() && sb) || (t == C.as_bytes() && sc_));
            checkb("a siloed debt is the account's only debt", !any || toks.len() == 1);
            reach(if any { "siloed loan" } else { "ordinary loan" });
        } else {
            reach("silo refused");
        }
    })
}

// ------------------------------------------------------------------ C25 e-mode
pub fn emode_supply() -> Scenario {
    Scenario::new("e-mode supply", move || {
        let mut a = lin_mkt(A, 18, cents(250), 1300, 1100);
        let own = flag("A collateral outside e-mode", true);
        a.cfg.coll = own;
        a.cfg.isolated = flag("A isolated", false);
        let cfg = a.cfg.clone();
        let p = Proto::new(vec![a]);
        let (ltv, thr, bonus) = (var("eltv", 0, 10000, 9000), var("ethr", 0, 10000, 9300), var("ebonus", 0, 2000, 150));
        let dep_ = flag("deprecated", false);
        let member = flag("A is in the category", true);
        let ecoll = flag("A collateral in the category", true);
        p.emode(E, ltv, thr, bonus, dep_, if member { vec![(A, ecoll, true)] } else { vec![] }.as_slice());
        let req = [0, E, 2][pick("choice5", 3)]; // none, the category, an unknown one
        let fresh = flag("new account", true);
        if !fresh {
            if req == 2 {
                return;
            }
            p.account(&p.user, N, &if req == E { emode(E) } else { normal() }, &[deposit(A, scaled("depA", 7))]);
        }
        let old = p.pos(N, DEPOSIT, A);
        let x = amount("x", 18);
        let r = p.supply(if fresh { 0 } else { N }, Some(req), vec![(A, x)]);
        if r.ok() {
            let n = if fresh { 1 } else { N };
            let at = p.attrs(n).unwrap();
            let q = p.pos(n, DEPOSIT, A).unwrap();
            if cfg.isolated && fresh {
                checkb("isolated accounts are never in e-mode", at.isolated && at.emode == 0);
            } else {
                checkb("the account is in the requested category", at.emode == req);
            }
            if at.emode == E {
                checkb("only assets of a live category enter its accounts", member && !dep_);
                checkb("the category decides whether the asset is collateral", ecoll);
                checkb("isolated assets stay out of e-mode", !cfg.isolated);
                check("the category's LTV and bonus apply", and(&[eq(q.ltv, ltv), eq(q.bonus, bonus), eq(q.fees, cfg.fees)]));
                check("threshold: the category's when opened, else unchanged", eq(q.threshold, old.map_or(thr, |o| o.threshold)));
                reach("e-mode deposit");
            } else {
                checkb("the asset itself must be collateral", own);
                check("the asset's own LTV, bonus and fee apply", and(&[eq(q.ltv, cfg.ltv), eq(q.bonus, cfg.bonus), eq(q.fees, cfg.fees)]));
                check("threshold: the asset's when opened, else unchanged", eq(q.threshold, old.map_or(cfg.thr, |o| o.threshold)));
                reach("plain deposit");
            }
        } else {
            reach("e-mode supply refused");
        }
    })
}
/// several deposits at once: the category's settings go to each of them
fn emode_bulk(seq: &'static [&'static str]) -> Scenario {
    Scenario::new(format!("e-mode supply of {}", seq.join(", ")), move || {
        let (mut a, mut b) = (lin_mkt(A, 18, cents(250), 1300, 1100), lin_mkt(B, 6, cents(99), 1203, 1050));
        (a.cfg.fees, b.cfg.fees) = (k(700), k(1100));
        (b.cfg.ltv, b.cfg.thr, b.cfg.bonus) = (k(5100), k(6100), k(900));
        let p = Proto::new(vec![a, b]);
        let (ltv, thr, bonus) = (var("eltv", 0, 10000, 9000), var("ethr", 0, 10000, 9300), var("ebonus", 0, 2000, 150));
        let coll = [flag("A collateral in the category", true), flag("B collateral in the category", true)];
        let member = flag("B is in the category", true);
        let mut ms = vec![(A, coll[0], true)];
        if member {
            ms.push((B, coll[1], true));
        }
        p.emode(1, ltv, thr, bonus, false, &ms);
        let fresh = flag("new account", true);
        if !fresh {
            p.account(&p.user, N, &emode(1), &[deposit(A, scaled("depA", 7))]);
        }
        let old = p.pos(N, DEPOSIT, A);
        let xs: Vec<T> = seq.iter().enumerate().map(|(i, t)| amount(&format!("x{}", i), p.m(t).dec)).collect();
        let r = p.supply(if fresh { 0 } else { N }, Some(1), seq.iter().zip(&xs).map(|(t, x)| (*t, *x)).collect());
        let n = if fresh { 1 } else { N };
        if r.ok() {
            for t in [A, B] {
                if !seq.contains(&t) {
                    continue;
                }
                checkb("every asset is collateral in the category", if t == A { coll[0] } else { member && coll[1] });
                let q = p.pos(n, DEPOSIT, t).unwrap();
                check("every deposit gets the category's LTV and bonus", and(&[eq(q.ltv, ltv), eq(q.bonus, bonus), eq(q.fees, k(if t == A { 700 } else { 1100 }))]));
                let kept = if t == A { old.clone() } else { None };
                check("every new deposit gets the category's threshold", eq(q.threshold, kept.map_or(thr, |o| o.threshold)));
            }
            reach("several e-mode deposits");
        } else {
            let good = seq.iter().all(|t| if *t == A { coll[0] } else { member && coll[1] });
            check("deposits of the category's collateral are taken", or(&[bool_b(!good), or(&xs.iter().map(|x| le(*x, k(0))).collect::<Vec<_>>())]));
        }
    })
}
pub fn emode_borrow() -> Scenario {
    Scenario::new("e-mode borrow", move || {
        let mut b = lin_mkt(B, 6, cents(99), 1203, 1050);
        let own = flag("B borrowable outside e-mode", true);
        b.cfg.borr = own;
        b.cfg.isolated = flag("B isolated", false);
        let b_iso = b.cfg.isolated;
        let p = Proto::new(vec![lin_mkt(A, 18, cents(250), 1300, 1100), b]);
        let dep_ = flag("deprecated", false);
        let member = flag("B is in the category", true);
        let eb = flag("B borrowable in the category", true);
        let mut list = vec![(A, true, true)];
        if member {
            list.push((B, true, eb));
        }
        p.emode(E, k(9000), k(9300), k(150), dep_, &list);
        p.emode(2, k(9000), k(9300), k(150), false, &[(A, true, true), (B, true, true)]);
        let inside = flag("account in e-mode", true);
        p.account(&p.user, N, &if inside { emode(E) } else { normal() }, &[one_deposit("depA", 100_000, 7300)]);
        let x = amount("x", 6);
        if p.borrow(N, vec![(B, x)]).ok() {
            if inside {
                checkb("only borrowable assets of a live category are lent to its accounts", member && eb && !dep_);
                checkb("isolated assets stay out of e-mode", !b_iso);
                reach("e-mode loan");
            } else {
                checkb("the asset itself must be borrowable", own);
                reach("plain loan");
            }
        } else {
            reach("e-mode loan refused");
        }
    })
}

/// no way into a deprecated category, strategies included
fn emode_deprecated() -> Scenario {
    Scenario::new("a category is deprecated while accounts use it", move || {
        use super::access::{bob, router_mock, steps};
        let p = Proto::new(vec![lin_mkt(A, 18, cents(250), 1300, 1100), lin_mkt(B, 6, cents(99), 1203, 1050), lin_mkt(C, 18, cents(100), 1007, 1001)]);
        for m in &p.mkts {
            set_balance(&p.c, m.tok.as_bytes(), 0, k(0));
        }
        add_account(p.router, router_mock(), p.owner, true);
        p.add_user(bob());
        p.emode(1, k(9000), k(9300), k(150), false, &[(A, true, true), (B, true, true), (C, true, true)]);
        p.account(&p.user, N, &Attrs { mode: 2, ..emode(1) }, &[deposit(A, k(p10(27) * 1000)), debt(B, k(p10(27) * 100))]);
        let gone = flag("deprecated", true);
        if gone {
            let args = vec![super::admin::category(1, k(9000), k(9300), k(150), true)];
            must(&p.owner, &p.c, "editEModeCategory", args, vec![]);
        }
        let x = var("x", 0, p10(30), p10(6) * 5);
        let out = |t: &str, d: u32| steps(&[(t, k(p10(d) * 30))]);
        let nft = || pay_nft(ACC, N);
        let b_of = |t: &str| t.as_bytes().to_vec();
        let (name, r) = match pick("operation", 7) {
            0 => ("supply", p.supply(N, None, vec![(A, x)])),
            1 => ("supply a new account", p.supply(0, Some(1), vec![(A, x)])),
            2 => ("borrow", p.borrow(N, vec![(B, x)])),
            3 => ("multiply", p.call(&p.user, "multiply", vec![vec![], b_of(A), enc_u(x), b_of(B), vec![2], out(A, 18)], vec![nft()])),
            4 => ("swapDebt", p.call(&p.user, "swapDebt", vec![b_of(B), enc_u(mul(x, k(p10(12)))), b_of(C), out(B, 6)], vec![nft()])),
            5 => ("swapCollateral", p.call(&p.user, "swapCollateral", vec![b_of(A), enc_u(mul(x, k(p10(12)))), b_of(C), out(C, 18)], vec![nft()])),
            _ => ("multiply a new account", p.call(&p.user, "multiply", vec![vec![1], b_of(A), enc_u(x), b_of(B), vec![2], out(A, 18)], vec![pay(A, k(p10(18) * 50))])),
        };
        if r.ok() {
            checkb("a deprecated category takes no deposit and lends nothing", !gone);
            reach(&format!("{} in a live category", name));
        } else {
            reach("deprecated category refuses");
        }
    })
}
/// isolated collateral never opens an e-mode account, whatever is asked for
fn isolated_multiply() -> Scenario {
    Scenario::new("multiply with isolated collateral and a category", move || {
        use super::access::{router_mock, steps};
        let mut a = lin_mkt(A, 18, cents(250), 1300, 1100);
        let iso = flag("A isolated", true);
        a.cfg.isolated = iso;
        a.cfg.ceiling = k(p10(30));
        let mut b = lin_mkt(B, 6, cents(99), 1203, 1050);
        b.cfg.iso_borrow = true;
        let p = Proto::new(vec![a, b]);
        for m in &p.mkts {
            set_balance(&p.c, m.tok.as_bytes(), 0, k(0));
        }
        add_account(p.router, router_mock(), p.owner, true);
        p.emode(1, k(9000), k(9300), k(150), false, &[(A, true, true), (B, true, true)]);
        let x = var("x", 0, p10(30), p10(6) * 5);
        let cat_ = pick("category", 2) as u8;
        let args = vec![vec![cat_], A.as_bytes().to_vec(), enc_u(x), B.as_bytes().to_vec(), vec![2], steps(&[(A, k(p10(18) * 3))])];
        if p.call(&p.user, "multiply", args, vec![pay(A, k(p10(18) * 50))]).ok() {
            let at = p.attrs(1).unwrap();
            checkb("isolated collateral opens an isolated account", at.isolated == iso);
            checkb("it is in the category asked for, an isolated one in none", at.emode == if iso { 0 } else { cat_ });
            checkb("an isolated account records its token", at.token == if iso { Some(A.to_string()) } else { None });
            let q = p.pos(1, DEPOSIT, A).unwrap();
            let own = &p.m(A).cfg;
            check("its parameters", if at.emode == 1 { and(&[eq(q.ltv, k(9000)), eq(q.threshold, k(9300)), eq(q.bonus, k(150))]) } else { and(&[eq(q.ltv, own.ltv), eq(q.threshold, own.thr), eq(q.bonus, own.bonus)]) });
            reach(if iso { "isolated strategy" } else if cat_ == 1 { "e-mode strategy" } else { "plain strategy" });
        } else {
            check("refused only for a reason", or(&[eq(x, k(0)), gt(x, k(p10(6) * 60))]));
            reach("strategy refused");
        }
    })
}

// ------------------------------------------------------------------ C26 position limits
pub fn limits(supply_side: bool) -> Scenario {
    Scenario::new(format!("position limit: {}", if supply_side { "deposits" } else { "debts" }), move || {
        const D: &str = "DDD-444444";
        let names = [B, C, D];
        let p = Proto::new(vec![
            lin_mkt(A, 18, cents(250), 1300, 1100),
            lin_mkt(B, 6, cents(99), 1203, 1050),
            lin_mkt(C, 18, cents(4010), 1007, 1001),
            lin_mkt(D, 18, cents(100), 1000, 1000),
        ]);
        let lim = pick("choice6", 4) as u8;
        let (mb, ms) = if supply_side { (9, lim) } else { (lim, 9) };
        must(&p.owner, &p.c, "setPositionLimits", vec![top_u(mb as u64), top_u(ms as u64)], vec![]);
        let held = pick("choice7", 3);
        let t = if supply_side { DEPOSIT } else { BORROW };
        let mut all: Vec<Pos> = names[..held].iter().map(|n| Pos::new(t, n, scaled(&format!("pos{}", &n[..1]), 7))).collect();
        if !supply_side {
            all.push(one_deposit("depA", 1_000_000, 7300));
        }
        p.account(&p.user, N, &normal(), &all);
        let (x, y) = (amount("x", 6), amount("y", 6));
        let list = match pick("choice8", 4) {
            0 => vec![(B, x)],
            1 => vec![(D, x)],
            2 => vec![(B, x), (D, y)],
            _ => vec![(C, x), (D, y)],
        };
        let toks: Vec<&str> = list.iter().map(|q| q.0).collect();
        let r = if supply_side { p.supply(N, None, list) } else { p.borrow(N, list) };
        let n = p.positions(N, t).len();
        if r.ok() {
            checkb("never more positions than the limit", n <= lim as usize);
            reach("within the limit");
        } else {
            checkb("a refused call adds nothing", n == held);
            if held + toks.iter().filter(|t| !names[..held].contains(*t)).count() <= lim as usize {
                // small amounts next to a large deposit: nothing else stands in the way
                let fits = |v: T| and(&[ge(v, k(1)), le(v, k(p10(6)))]);
                let small: Vec<B> = [x].into_iter().chain(if toks.len() > 1 { Some(y) } else { None }).map(fits).collect();
                let pos: Vec<B> = all.iter().map(|q| if q.ptype == t { le(q.scaled, k(p10(29))) } else { ge(q.scaled, k(p10(36))) }).collect();
                check("topping up and filling up to the limit go through", not(and(&[and(&small), and(&pos)])));
            }
            reach("over the limit");
        }
    })
}

// ------------------------------------------------------------------ C34 repaying
pub fn repay_one(name: &'static str, d: u32, by_owner: bool) -> Scenario {
    Scenario::new(format!("repay {} dec={}", name, d), move || {
        let p = Proto::new(vec![sym_mkt(A, 18), sym_mkt(B, d), lin_mkt(C, 18, cents(4010), 1007, 1001)]);
        let b = debt(B, scaled("debtB", 5));
        p.account(&p.user, N, &normal(), &[deposit(A, scaled("depA", 1000)), b.clone(), debt(C, scaled("debtC", 2))]);
        let (d0, b0) = (p.positions(N, DEPOSIT), p.positions(N, BORROW));
        let payer = if by_owner { p.user } else { user_addr("bob") };
        if !by_owner {
            p.add_user(payer);
        }
        let m = p.m(B).clone();
        // no more is owed in total than the sum of the parts
        assume(le(b.scaled, m.st.borrowed));
        let x = amount("x", d);
        let owed = from_ray(rmul(b.scaled, m.st.bidx), d);
        let cash0 = m.cash;
        match p.repay_by(&payer, N, vec![(B, x)]) {
            TxRes::Ok(_) => {
                let spent = sub(k(p10(BIG)), p.bal(&payer, B));
                observe("spent", spent);
                check("the payer spends at most the debt; any excess comes back", eq(spent, min(x, owed)));
                check("the pool keeps exactly what was spent", eq(sub(p.cash(B), cash0), spent));
                let dec_ = sub(b.scaled, p.sc(N, BORROW, B));
                check("the account's debt falls by what the pool books", eq(dec_, sub(m.st.borrowed, p.state(B).borrowed)));
                if fork(ge(x, owed)) {
                    checkb("a fully repaid debt is removed", p.pos(N, BORROW, B).is_none());
                    reach("repaid in full");
                } else {
                    check("the debt falls by the amount at the borrow index", eq(dec_, rdiv(to_ray(x, d), m.st.bidx)));
                    reach("repaid in part");
                }
                same_except("other debts untouched", &b0, &p.positions(N, BORROW), &[B]);
                same_except("deposits untouched", &d0, &p.positions(N, DEPOSIT), &[]);
                checkb("the account stays with its owner", p.holds(&p.user, N) && p.active(N));
            }
            TxRes::Err(_) => {
                check("a refused repayment costs nothing", eq(p.bal(&payer, B), k(p10(BIG))));
                reach("repayment refused");
            }
        }
    })
}
pub fn repay_foreign() -> Scenario {
    Scenario::new("repay a token that is not owed", move || {
        let p = Proto::new(vec![lin_mkt(A, 18, cents(250), 1300, 1100), lin_mkt(B, 6, cents(99), 1203, 1050), lin_mkt(C, 18, cents(4010), 1007, 1001)]);
        p.account(&p.user, N, &normal(), &[deposit(A, scaled("depA", 1000)), debt(B, scaled("debtB", 5))]);
        let x = amount("x", 18);
        let list = match pick("choice9", 2) {
            0 => vec![(C, x)],
            _ => vec![(B, k(1)), (C, x)],
        };
        let n = match pick("choice10", 2) {
            0 => N,
            _ => N + 1,
        };
        let r = p.repay_by(&p.user, n, list);
        checkb("a payment for a debt that does not exist is refused", !r.ok());
        reach("refused");
    })
}

// ------------------------------------------------------------------ C35 threshold updates
pub fn threshold_update(risky: bool) -> Scenario {
    Scenario::new(format!("update account parameters{}", if risky { ", threshold" } else { "" }), move || {
        let mut a = sym_mkt(A, 18);
        a.cfg.ltv = var("newltv", 0, 10000, 7000);
        a.cfg.thr = var("newthr", 0, 10000, 7500);
        a.cfg.bonus = var("newbonus", 0, 2000, 400);
        a.cfg.fees = var("newfees", 0, 10000, 900);
        let cfg = a.cfg.clone();
        let p = Proto::new(vec![a, sym_mkt(B, 6), lin_mkt(C, 18, cents(4010), 1007, 1001)]);
        let em = flag("account in e-mode", false);
        let dep_ = if em { flag("deprecated", false) } else { false };
        let (eltv, ethr, ebonus) = (k(9000), k(9300), k(150));
        p.emode(1, eltv, ethr, ebonus, dep_, &[(A, true, true), (B, true, true), (C, true, true)]);
        let mut da = deposit(A, scaled("depA", 1000));
        da.threshold = var("oldthr", 0, 10000, 8000);
        da.ltv = var("oldltv", 0, 10000, 7500);
        let dc = deposit(C, scaled("depC", 3));
        let with_debt = flag("has debt", true);
        let mut all = vec![da.clone(), dc];
        if with_debt {
            all.push(debt(B, scaled("debtB", 700)));
            if flag("two debts", false) {
                all.push(debt(C, scaled("debtC", 1)));
            }
        }
        p.account(&p.user, N, &if em { emode(1) } else { normal() }, &all);
        let (d0, b0) = (p.positions(N, DEPOSIT), p.positions(N, BORROW));
        let bob = user_addr("bob");
        p.add_user(bob);
        let r = p.call(&bob, "updateAccountThreshold", vec![A.as_bytes().to_vec(), top_bool(risky), top_u(N)], vec![]);
        let d1 = p.positions(N, DEPOSIT);
        if r.ok() {
            checkb("accounts of a deprecated category are not touched", !dep_);
            let q = p.pos(N, DEPOSIT, A).unwrap();
            let (l, t, b, f) = if em { (eltv, ethr, ebonus, cfg.fees) } else { (cfg.ltv, cfg.thr, cfg.bonus, cfg.fees) };
            if risky {
                check("the threshold becomes the current one", eq(q.threshold, t));
                check("nothing else changes", and(&[eq(q.ltv, da.ltv), eq(q.bonus, da.bonus), eq(q.fees, da.fees), eq(q.scaled, da.scaled)]));
                if with_debt {
                    let owed = p.total(&b0);
                    let h = p.health(p.weighted(&d1, |q| q.threshold), owed);
                    check("the account keeps a five percent safety margin", or(&[eq(owed, k(0)), ge(h, k(frac_ray(105, 100)))]));
                    reach("threshold moved under debt");
                } else {
                    reach("threshold moved");
                }
            } else {
                check("LTV, bonus and fee become the current ones", and(&[eq(q.ltv, l), eq(q.bonus, b), eq(q.fees, f)]));
                check("threshold and amount stay", and(&[eq(q.threshold, da.threshold), eq(q.scaled, da.scaled)]));
                reach("parameters refreshed");
            }
            same_except("other deposits untouched", &d0, &d1, &[A]);
        } else {
            same_except("a refused update changes nothing", &d0, &d1, &[]);
            reach("update refused");
        }
        same_except("debts untouched", &b0, &p.positions(N, BORROW), &[]);
        checkb("the NFT stays", p.holds(&p.user, N));
    })
}
/// several accounts in one call: each gets its own parameters
fn threshold_batch(risky: bool) -> Scenario {
    Scenario::new(format!("update several accounts{}", if risky { ", threshold" } else { "" }), move || {
        let mut a = lin_mkt(A, 18, cents(250), 1300, 1100);
        a.cfg.ltv = var("newltv", 0, 10000, 7000);
        a.cfg.thr = var("newthr", 0, 10000, 7500);
        a.cfg.bonus = var("newbonus", 0, 2000, 400);
        a.cfg.fees = var("newfees", 0, 10000, 900);
        let cfg = a.cfg.clone();
        let p = Proto::new(vec![a, lin_mkt(B, 6, cents(99), 1203, 1050)]);
        p.emode(1, k(9000), k(9300), k(150), false, &[(A, true, true), (B, true, true)]);
        p.emode(2, k(8800), k(9100), k(250), false, &[(A, true, true)]);
        let who = [("u6", 6u64, emode(1)), ("u7", 7, normal()), ("u8", 8, emode(2)), ("u9", 9, normal())];
        let owing = [None, Some(6u64), Some(7), Some(8)][pick("who owes", 4)];
        for (u, n, at) in &who {
            p.add_user(user_addr(u));
            let mut d = deposit(if *n == 9 { B } else { A }, k(p10(27) * 50));
            (d.ltv, d.threshold, d.bonus, d.fees) = (k(6000), k(6500), k(300), k(800));
            let mut all = vec![d];
            if owing == Some(*n) {
                all.push(debt(B, scaled("debtB", 60)));
            }
            p.account(&user_addr(u), *n, at, &all);
        }
        // the indebted account's health before and after the update would be
        let risk = |t: T| {
            let n = owing.unwrap();
            let d: Vec<Pos> = p.positions(n, DEPOSIT).into_iter().map(|mut q| { if q.asset == A.as_bytes() { q.threshold = t } q }).collect();
            let owed = p.total(&p.positions(n, BORROW));
            or(&[eq(owed, k(0)), ge(p.health(p.weighted(&d, |q| q.threshold), owed), k(frac_ray(105, 100)))])
        };
        let order: &[u64] = match pick("order", 3) {
            0 => &[6, 7, 8, 9],
            1 => &[9, 8, 7, 6],
            _ => &[7, 6, 7, 8],
        };
        let mut args = vec![A.as_bytes().to_vec(), top_bool(risky)];
        args.extend(order.iter().map(|n| top_u(*n)));
        if p.call(&user_addr("u7"), "updateAccountThreshold", args, vec![]).ok() {
            for (_, n, at) in who[..3].iter() {
                let q = p.pos(*n, DEPOSIT, A).unwrap();
                let (l, t, b) = match at.emode {
                    1 => (k(9000), k(9300), k(150)),
                    2 => (k(8800), k(9100), k(250)),
                    _ => (cfg.ltv, cfg.thr, cfg.bonus),
                };
                if risky {
                    check("each account gets its own threshold", and(&[eq(q.threshold, t), eq(q.ltv, k(6000)), eq(q.bonus, k(300)), eq(q.fees, k(800))]));
                } else {
                    check("each account gets its own parameters", and(&[eq(q.threshold, k(6500)), eq(q.ltv, l), eq(q.bonus, b), eq(q.fees, cfg.fees)]));
                }
            }
            let q = p.pos(9, DEPOSIT, B).unwrap();
            check("accounts without the asset are left alone", and(&[eq(q.threshold, k(6500)), eq(q.ltv, k(6000)), eq(q.bonus, k(300)), eq(q.fees, k(800))]));
            if let (true, Some(n)) = (risky && order.contains(&owing.unwrap_or(0)), owing) {
                check("every account keeps a five percent safety margin", risk(p.pos(n, DEPOSIT, A).unwrap().threshold));
                reach("several accounts, one in debt");
            } else {
                reach("several accounts");
            }
        } else if risky && owing.is_some() {
            let t = match owing.unwrap() {
                6 => k(9300),
                8 => k(9100),
                _ => cfg.thr,
            };
            check("refused only to keep somebody safe", not(risk(t)));
            reach("several accounts refused");
        } else {
            fail("an update of accounts without debt is accepted");
        }
    })
}
/// eight accounts in one call, two of them with many positions
pub fn threshold_crowd(risky: bool) -> Scenario {
    use super::wide::{debts, deposits, markets, W};
    Scenario::new(format!("update eight accounts{}", if risky { ", threshold" } else { "" }), move || {
        let mut ms = markets();
        ms[4].cfg.ltv = var("newltv", 0, 10000, 7000);
        ms[4].cfg.thr = var("newthr", 0, 10000, 7500);
        ms[4].cfg.bonus = var("newbonus", 0, 2000, 400);
        ms[4].cfg.fees = var("newfees", 0, 10000, 900);
        let cfg = ms[4].cfg.clone();
        let p = Proto::new(ms);
        let all: Vec<u64> = (300..306).chain([65_537, 70_003]).collect();
        let rich = [303u64, 70_003];
        let owing = [0, 303u64, 70_003][pick("who owes", 3)];
        for n in &all {
            let who = user_addr(&format!("u{}", n));
            p.add_user(who);
            let mut ps = if rich.contains(n) { deposits(&[]) } else { vec![deposit(W[4], units_of(50))] };
            for q in ps.iter_mut().filter(|q| q.asset == W[4].as_bytes()) {
                (q.ltv, q.threshold, q.bonus, q.fees) = (k(6000), k(6500), k(300), k(800));
            }
            if owing == *n {
                let mut ds = debts(&[8]);
                ds.truncate(4);
                ps.extend(ds);
            }
            p.account(&who, *n, &normal(), &ps);
        }
        let before: Vec<Vec<Pos>> = all.iter().map(|n| p.positions(*n, DEPOSIT)).collect();
        let mut args = vec![W[4].as_bytes().to_vec(), top_bool(risky)];
        args.extend(all.iter().map(|n| top_u(*n)));
        let ok = p.call(&user_addr("u300"), "updateAccountThreshold", args, vec![]).ok();
        let safe = |thr: T| {
            let d: Vec<Pos> = p.positions(owing, DEPOSIT).into_iter().map(|mut q| { if q.asset == W[4].as_bytes() { q.threshold = thr } q }).collect();
            let owed = p.total(&p.positions(owing, BORROW));
            or(&[eq(owed, k(0)), ge(p.health(p.weighted(&d, |q| q.threshold), owed), k(frac_ray(105, 100)))])
        };
        for (n, d0) in all.iter().zip(&before) {
            let d1 = p.positions(*n, DEPOSIT);
            if !ok {
                same_except("a refused update changes nothing", d0, &d1, &[]);
                continue;
            }
            let q = p.pos(*n, DEPOSIT, W[4]).unwrap();
            if risky {
                check("each account gets the threshold", and(&[eq(q.threshold, cfg.thr), eq(q.ltv, k(6000)), eq(q.bonus, k(300)), eq(q.fees, k(800))]));
            } else {
                check("each account gets the parameters", and(&[eq(q.threshold, k(6500)), eq(q.ltv, cfg.ltv), eq(q.bonus, cfg.bonus), eq(q.fees, cfg.fees)]));
            }
            same_except("other deposits untouched", d0, &d1, &[W[4]]);
        }
        if ok {
            if risky && owing != 0 {
                check("every account keeps a five percent safety margin", safe(cfg.thr));
            }
            reach("eight accounts");
        } else {
            checkb("an update of accounts without risk is accepted", risky && owing != 0);
            if owing != 0 {
                check("refused only to keep somebody safe", not(safe(cfg.thr)));
            }
            reach("eight accounts refused");
        }
    })
}
fn units_of(n: i64) -> T {
    k(p10(27) * n)
}
fn prop(id: &'static str, scen: fn(&Cfg) -> Vec<Scenario>, reach: &'static [&'static str], bounds: &'static str) -> Prop {
    Prop { id, scen, reach, bounds, assumptions: &[] }
}

pub fn props() -> Vec<Prop> {
    vec![
        prop(
            "C20",
            |_| {
                vec![
                    borrow_one("first debt", &[], 18),
                    borrow_one("same token again", &[B], 6),
                    borrow_one("other debt held", &[C], 18),
                    borrow_bulk("same token twice", B, false),
                    borrow_bulk("two tokens", C, false),
                    borrow_bulk("two tokens, one held", C, true),
                    borrow_later(),
                    borrow_list(&[C], &[B, B]),
                    borrow_list(&[C, A], &[B, B]),
                ]
            },
            &["borrowed", "refused", "bulk borrowed", "borrowed later"],
            "one loan or two in a bulk call; accounts with one deposit and none, one (same token) or one other debt; prices, indexes, scaled positions, cash, LTV and amounts symbolic up to 1e30/1e40/1e36; borrow_later: one elapsed day, concrete amounts of position, symbolic loan; calls of three and four loans with fixed positions",
        ),
        prop(
            "C21",
            |_| {
                vec![
                    withdraw_one("no debt", 18, false, &[]),
                    withdraw_one("no debt, two deposits", 6, true, &[]),
                    withdraw_one("one debt", 6, false, &[C]),
                    withdraw_one("same token owed", 18, false, &[A]),
                    withdraw_one("two deposits, one debt", 18, true, &[C]),
                    withdraw_one("two debts", 18, false, &[B, C]),
                    withdraw_two(),
                ]
            },
            &["account closed", "withdrawn free", "withdrawn with debt", "withdrawal refused", "two withdrawn"],
            "one or two withdrawals; accounts with one or two deposits and none, one or two debts; prices, indexes, positions, cash, thresholds and amounts symbolic up to 1e30/1e40/1e36",
        ),
        prop(
            "C22",
            |_| vec![supply_cap(18, true), supply_cap(6, false), supply_cap_bulk(), borrow_cap(18), borrow_cap(6), borrow_cap_bulk(), supply_any(true, 18, true), borrow_any(&[], 18, true)],
            &["supplied under the cap", "supply refused", "bulk under the cap", "borrowed under the cap", "borrow refused", "bulk borrowed under the cap"],
            "single and double payments/loans in one call; caps, totals, indexes, cash and amounts symbolic up to 1e36/1e40; fresh and existing accounts; 6 and 18 decimals; a deposit or loan exactly up to the cap must go through",
        ),
        prop(
            "C23",
            |_| vec![iso_borrow(), free_borrow(), iso_repay(), iso_liquidation(), iso_supply(), iso_any()],
            &["isolated loan", "isolated loan refused", "ordinary loan", "isolated repayment", "isolated liquidation", "isolated account", "ordinary account", "mix refused"],
            "one isolated collateral, none or one other debt, one loan or repayment, liquidation of one fixed account by any payments in two debts; ceilings, tracked debt, prices, indexes, amounts and flags symbolic; supply of two payments with every combination of isolation flags; loans exactly up to the ceiling must go through",
        ),
        prop("C24", |_| vec![siloed(), silo_any(), super::strategy::late_silo()], &["siloed loan", "ordinary loan", "silo refused", "strategy beside ordinary debts", "strategy beside a siloed debt refused"], "accounts with none, one or two debts, one or two loans in a call, every combination of siloed flags; permitted combinations must go through"),
        prop(
            "C25",
            |_| vec![emode_supply(), emode_bulk(&[A, B]), emode_bulk(&[B, A, B]), emode_borrow(), emode_deprecated(), isolated_multiply(), emode_any(), supply_any(true, 18, false)],
            &["e-mode deposit", "several e-mode deposits", "plain deposit", "e-mode supply refused", "e-mode loan", "plain loan", "e-mode loan refused", "supply in a live category", "supply a new account in a live category", "borrow in a live category", "multiply in a live category", "swapDebt in a live category", "swapCollateral in a live category", "multiply a new account in a live category", "deprecated category refuses", "isolated strategy", "e-mode strategy", "plain strategy"],
            "every operation and strategy that adds a deposit or debt; one category (live, deprecated or missing), every combination of membership and asset flags, fresh and existing accounts, up to three deposits at once; LTV, threshold and bonus symbolic; permitted loans and deposits must go through",
        ),
        prop("C26", |_| vec![limits(true), limits(false)], &["within the limit", "over the limit"], "limits 0..3, 0..2 positions held, one or two new assets, in any order of old and new; refusal only beyond the limit (small amounts)"),
        prop(
            "C34",
            |_| vec![repay_one("by the owner", 18, true), repay_one("by someone else", 6, false), repay_foreign(), repay_any(false, true)],
            &["repaid in full", "repaid in part", "repayment refused", "refused"],
            "one payment by the owner or a stranger; debt, price, indexes, cash and amount symbolic up to 1e40/1e36; a payment in a token the account does not owe; any positive repayment of an owed token must go through",
        ),
        prop(
            "C35",
            |_| vec![threshold_update(true), threshold_update(false), threshold_batch(true), threshold_batch(false)],
            &["threshold moved under debt", "threshold moved", "parameters refreshed", "update refused", "several accounts", "several accounts, one in debt", "several accounts refused"],
            "two deposits, with none, one or two debts; old and new LTV, threshold, bonus and fee symbolic; with and without an e-mode category (live or deprecated); called by a stranger; batches of up to four accounts in different categories, one of them in debt",
        ),
    ]
}
