//! Leveraged strategies: multiply, swapDebt, swapCollateral, repayDebtWithCollateral.
use super::access::{bob, leveraged, router_mock, steps};
use super::ctrl::*;
use super::ctrl::{A, B, C};
use super::{Cfg, Prop};
use crate::engine::*;
use crate::env::*;
use crate::env_ctrl::*;
use crate::term::*;
use crate::vm::*;

const N: u64 = 5;
const D: &str = "DDD-444444";
fn cents(n: i64) -> T {
    k(p10(16) * n)
}
fn scaled(n: &str, hint: i64) -> T {
    var(n, 1, p10(40), p10(27) * hint)
}
struct S {
    p: Proto,
    before: Vec<(PState, T)>,
}
const JUNK: &str = "JUNK-999999";
impl S {
    fn new(ms: Vec<Mkt>) -> S {
        let p = Proto::new(ms);
        for t in p.mkts.iter().map(|m| m.tok.clone()).chain([JUNK.to_string()]) {
            set_balance(&p.c, t.as_bytes(), 0, k(0));
        }
        add_account(p.router, router_mock(), p.owner, true);
        p.add_user(bob());
        p.account(&bob(), 3, &leveraged(), &[deposit(A, scaled("bobA", 700)), debt(B, scaled("bobB", 30))]);
        S { before: p.mkts.iter().map(|m| (m.st.clone(), m.cash)).collect(), p }
    }
    fn was(&self, t: &str) -> &(PState, T) {
        let i = self.p.mkts.iter().position(|m| m.tok == t).unwrap();
        &self.before[i]
    }
    fn spent(&self, t: &str) -> T {
        sub(k(p10(BIG)), self.p.bal(&self.p.user, t))
    }
    /// what holds after any successful strategy
    fn common(&self, n: u64, has_debt: bool) {
        let p = &self.p;
        for m in &p.mkts {
            check("the controller keeps nothing", eq(p.bal(&p.c, &m.tok), k(0)));
            let (s1, s0) = (p.state(&m.tok), &self.was(&m.tok).0);
            check("interest indexes are not moved by a strategy", and(&[eq(s1.sidx, s0.sidx), eq(s1.bidx, s0.bidx)]));
        }
        check("the controller keeps nothing", eq(p.bal(&p.c, JUNK), k(0)));
        let (d, b) = (p.positions(n, DEPOSIT), p.positions(n, BORROW));
        if has_debt && !b.is_empty() {
            let w = p.weighted(&d, |q| q.threshold);
            let owed = p.total(&b);
            check("the position ends healthy", or(&[eq(owed, k(0)), ge(p.health(w, max(owed, k(1))), kray())]));
            observe("owed", owed);
        }
        let other = p.positions(3, DEPOSIT);
        checkb("other accounts are untouched", other.len() == 1 && p.positions(3, BORROW).len() == 1 && p.active(3));
    }
    /// the account's positions change by exactly what the pools book
    fn books(&self, n: u64, d0: &[Pos], b0: &[Pos]) {
        let p = &self.p;
        let of = |v: &[Pos], t: &str| v.iter().find(|q| q.asset == t.as_bytes()).map_or(k(0), |q| q.scaled);
        for m in &p.mkts {
            let t = &m.tok;
            let (s1, s0) = (p.state(t), &self.was(t).0);
            check("debt is owed where the pool books it", eq(sub(p.sc(n, BORROW, t), of(b0, t)), sub(s1.borrowed, s0.borrowed)));
            check(
                "deposits are owned where the pool books them",
                eq(sub(p.sc(n, DEPOSIT, t), of(d0, t)), sub(sub(s1.supplied, s0.supplied), sub(s1.revenue, s0.revenue))),
            );
        }
    }
}
fn quad() -> Vec<Mkt> {
    vec![
        lin_mkt(A, 18, cents(250), 1300, 1100),
        lin_mkt(B, 6, cents(99), 1203, 1050),
        lin_mkt(C, 18, cents(4010), 1007, 1001),
        lin_mkt(D, 8, cents(730), 1150, 1030),
    ]
}
fn fee_of(x: T, bps: T) -> T {
    div(mul(x, bps), k(10000))
}

/// opening or extending a leveraged position
pub fn multiply(name: &'static str, pay_in: Option<&'static str>, mode: u8, dc: u32, dd: u32) -> Scenario {
    Scenario::new(format!("multiply {}", name), move || {
        let mut b = sym_mkt(B, dd);
        let bps = var("feeBps", 0, 10000, 50);
        b.cfg.flash_fee = bps;
        b.cfg.borr = flag("borrowable", true);
        let mut a = sym_mkt(A, dc);
        a.cfg.coll = flag("collateral", true);
        let (coll_ok, borr_ok) = (a.cfg.coll, b.cfg.borr);
        let s = S::new(vec![a, b, lin_mkt(C, 18, cents(4010), 1007, 1001)]);
        let p = &s.p;
        // one EGLD is 40 dollars
        p.set_price("EGLD", k(p10(18) * 40));
        for m in &p.mkts {
            p.set_price(&m.tok, mul(m.price, k(40)));
        }
        let x = var("loan", 0, p10(36), p10(dd) * 2);
        let out = var("swapped", 0, p10(36), p10(dc) * 2);
        let y = if pay_in.is_some() { var("paid", 0, p10(36), p10(18) * 40) } else { k(0) };
        let first = var("swapped0", 0, p10(36), p10(dc) * 9);
        let junk = var("junk", 0, 1, 0);
        let third = pay_in == Some(C);
        let left = if third { var("unswapped", 0, p10(30), p10(15)) } else { k(0) };
        let junk2 = if third { var("junk2", 0, 10, 3) } else { k(0) };
        // the router may return part of what it was given
        let back = var("unspent", 0, p10(30), p10(dd) / 100);
        let mut args = vec![vec![], A.as_bytes().to_vec(), enc_u(x), B.as_bytes().to_vec(), vec![mode], steps(&[(A, out), (B, back), (JUNK, junk)])];
        let (n, pays, d0, b0) = match pay_in {
            None => {
                let d0 = vec![deposit(A, scaled("depA", 1000))];
                let b0 = vec![debt(B, scaled("debtB", 5))];
                let at = if mode == 1 { normal() } else { leveraged() };
                p.account(&p.user, N, &at, &[d0[0].clone(), b0[0].clone()]);
                (N, vec![pay_nft(ACC, N)], d0, b0)
            }
            Some(t) => {
                if t == C {
                    args.push(steps(&[(C, left), (A, first), (JUNK, junk2)]));
                }
                (4, vec![pay(t, y)], vec![], vec![])
            }
        };
        let r = p.call(&p.user, "multiply", args, pays);
        if r.ok() {
            checkb("only in a leverage mode", mode >= 2);
            checkb("only borrowable debt", borr_ok);
            checkb("only usable collateral", coll_ok);
            check("a payment is needed to open one", gt(y, k(if pay_in.is_some() { 0 } else { -1 })));
            s.common(n, true);
            s.books(n, &d0, &b0);
            let fee = fee_of(x, bps);
            let (b1, (bs, bc)) = (p.state(B), s.was(B).clone());
            check("the whole loan is owed", eq(sub(b1.borrowed, bs.borrowed), rdiv(to_ray(x, dd), bs.bidx)));
            check("the fee is protocol revenue", eq(sub(b1.revenue, bs.revenue), rdiv(to_ray(fee, dd), bs.sidx)));
            check("the pool pays out the loan less the fee", eq(sub(bc, p.cash(B)), sub(x, fee)));
            check("the pool had the cash", ge(bc, sub(x, fee)));
            let extra = match pay_in {
                Some(t) if t == A => y,
                Some(t) if t == C => first,
                _ => k(0),
            };
            let got = add(out, extra);
            check("everything received is deposited", eq(sub(p.cash(A), s.was(A).1), got));
            check(
                "the deposit is credited in full",
                eq(sub(p.sc(n, DEPOSIT, A), d0.iter().fold(k(0), |z, q| add(z, q.scaled))), rdiv(to_ray(got, dc), s.was(A).0.sidx)),
            );
            for t in [A, B, C] {
                let given = if Some(t) == pay_in { y } else { k(0) };
                check("only the payment is taken from the user, what a swap leaves over returns", eq(s.spent(t), if t == B { sub(given, back) } else if t == C { sub(given, left) } else { given }));
            }
            check("leftovers of the swap go to the user", eq(p.bal(&p.user, JUNK), add(junk, junk2)));
            checkb("the account belongs to the caller", p.holds(&p.user, n) && p.active(n) && p.attrs(n).map(|a| a.mode) == Some(if pay_in.is_some() { mode } else { 2 }));
            reach("multiplied");
        } else {
            for t in [A, B, C] {
                check("a refused strategy takes nothing", eq(s.spent(t), k(0)));
            }
            reach("multiply refused");
        }
    })
}
/// the checks every new debt passes also hold for strategies
fn multiply_limits() -> Scenario {
    Scenario::new("multiply under caps, isolation, e-mode, silos and position limits", move || {
        let mut a = lin_mkt(A, 18, cents(250), 1300, 1100);
        let mut b = lin_mkt(B, 6, cents(99), 1203, 1050);
        let mut c = lin_mkt(C, 18, cents(4010), 1007, 1001);
        let cap = var("cap", 1, p10(30), p10(14));
        let what = pick("rule", 7);
        match what {
            0 => b.cfg.bcap = Some(cap),
            1 => {
                a.cfg.isolated = true;
                a.cfg.ceiling = cap;
            }
            2 => b.cfg.siloed = true,
            3 => c.cfg.siloed = true,
            4 => a.cfg.scap = Some(cap),
            5 => {
                a.cfg.isolated = true;
                b.cfg.iso_borrow = false;
            }
            _ => {}
        }
        b.cfg.flash_fee = k(0);
        let s = S::new(vec![a, b, c]);
        let p = &s.p;
        p.set_iso_debt(A, k(0));
        let iso = what == 1 || what == 5;
        let at = if iso { Attrs { mode: 2, ..isolated(A) } } else { leveraged() };
        let mut all = vec![deposit(A, k(p10(27) * 100_000))];
        if what != 2 && !iso {
            all.push(debt(C, k(p10(27))));
        }
        if what == 2 {
            all.push(debt(C, k(p10(27))));
        }
        p.account(&p.user, N, &at, &all);
        if what == 6 {
            must(&p.owner, &p.c, "setPositionLimits", vec![top_u(1), top_u(1)], vec![]);
        }
        let x = var("loan", 1, p10(30), p10(6) * 20);
        let out = var("swapped", 0, p10(36), p10(18) * 8);
        let args = vec![vec![], A.as_bytes().to_vec(), enc_u(x), B.as_bytes().to_vec(), vec![2], steps(&[(A, out)])];
        if p.call(&p.user, "multiply", args, vec![pay_nft(ACC, N)]).ok() {
            match what {
                0 => {
                    let total = rmul(p.state(B).borrowed, p.m(B).st.bidx);
                    check("borrow cap", le(total, add(to_ray(cap, 6), k(p10(21)))));
                }
                1 => {
                    let v = div_hu(rmul(to_ray(x, 6), mul(p.m(B).price, k(p10(9)))), k(p10(9)));
                    check("isolated debt is tracked", eq(p.iso_debt(A), v));
                    check("isolated debt ceiling", le(v, cap));
                }
                2 => checkb("a siloed token is borrowed alone", false),
                3 => checkb("nothing is borrowed beside a siloed token", false),
                4 => check("supply cap", le(rmul(p.state(A).supplied, p.m(A).st.sidx), add(to_ray(cap, 18), k(p10(9))))),
                5 => checkb("only tokens enabled for isolation", false),
                _ => checkb("position limit", false),
            }
            reach("within the rule");
        } else {
            reach("rule refused");
        }
    })
}
/// nothing new is borrowed beside a debt that became siloed after it was taken
pub fn late_silo() -> Scenario {
    Scenario::new("strategies beside a debt siloed later", move || {
        let mut ms = vec![lin_mkt(A, 18, cents(250), 1300, 1100), lin_mkt(B, 6, cents(99), 1203, 1050), lin_mkt(C, 18, cents(4010), 1007, 1001)];
        ms.push(lin_mkt("DDD-444444", 18, cents(100), 1000, 1000));
        ms[2].cfg.siloed = flag("C siloed", true);
        let silo = ms[2].cfg.siloed;
        for m in ms.iter_mut() {
            m.cfg.flash_fee = k(0);
        }
        let p = Proto::new(ms);
        set_balance(&p.c, b"DDD-444444", 0, k(0));
        for t in [A, B, C] {
            set_balance(&p.c, t.as_bytes(), 0, k(0));
        }
        add_account(p.router, router_mock(), p.owner, true);
        let (b, c) = (debt(B, k(p10(27) * 20)), debt(C, k(p10(27))));
        let mut all = vec![deposit(A, k(p10(27) * 100_000))];
        all.extend(if flag("siloed first", true) { [c, b] } else { [b, c] });
        p.account(&p.user, N, &leveraged(), &all);
        let x = var("loan", 1, p10(30), p10(18) * 20);
        let out = var("swapped", 1, p10(30), p10(6) * 20);
        let tb = |t: &str| t.as_bytes().to_vec();
        let nft = pay_nft(ACC, N);
        let r = if pick("strategy", 2) == 0 {
            p.call(&p.user, "multiply", vec![vec![], tb(A), enc_u(x), tb("DDD-444444"), vec![2], steps(&[(A, out)])], vec![nft])
        } else {
            p.call(&p.user, "swapDebt", vec![tb(B), enc_u(x), tb("DDD-444444"), steps(&[(B, out)])], vec![nft])
        };
        if r.ok() {
            checkb("nothing is borrowed beside a siloed debt", !silo);
            reach("strategy beside ordinary debts");
        } else {
            reach("strategy beside a siloed debt refused");
        }
    })
}
pub fn swap_debt(extra_pay: bool, dold: u32, dnew: u32) -> Scenario {
    Scenario::new(format!("swapDebt {}", if extra_pay { "with an extra payment" } else { "" }), move || {
        let mut b = sym_mkt(B, dold);
        b.cfg.siloed = flag("old siloed", false);
        let mut c = sym_mkt(C, dnew);
        c.cfg.siloed = flag("new siloed", false);
        c.cfg.borr = flag("borrowable", true);
        let bps = var("feeBps", 0, 10000, 50);
        c.cfg.flash_fee = bps;
        let (silo, borr) = (b.cfg.siloed || c.cfg.siloed, c.cfg.borr);
        let s = S::new(vec![lin_mkt(A, 18, cents(250), 1300, 1100), b, c]);
        let p = &s.p;
        let (d0, b0) = (vec![deposit(A, scaled("depA", 1000))], vec![debt(B, scaled("debtB", 5))]);
        assume(le(b0[0].scaled, s.was(B).0.borrowed));
        p.account(&p.user, N, &leveraged(), &[d0[0].clone(), b0[0].clone()]);
        let x = var("loan", 0, p10(36), p10(dnew) * 2);
        let out = var("swapped", 0, p10(36), p10(dold) * 2);
        let y = if extra_pay { var("paid", 0, p10(36), p10(dold)) } else { k(0) };
        let back = var("unspent", 0, p10(30), p10(dnew) / 100);
        let mut pays = vec![pay_nft(ACC, N)];
        if extra_pay {
            pays.push(pay(B, y));
        }
        let r = p.call(&p.user, "swapDebt", vec![B.as_bytes().to_vec(), enc_u(x), C.as_bytes().to_vec(), steps(&[(C, back), (B, out)])], pays);
        if r.ok() {
            checkb("siloed debts are not swapped", !silo);
            checkb("only borrowable debt", borr);
            s.common(N, true);
            s.books(N, &d0, &b0);
            same_except("collateral untouched", &[Pos { nonce: N, ..d0[0].clone() }], &p.positions(N, DEPOSIT), &[]);
            let fee = fee_of(x, bps);
            let (c1, (cs, cc)) = (p.state(C), s.was(C).clone());
            check("the whole new loan is owed", eq(sub(c1.borrowed, cs.borrowed), rdiv(to_ray(x, dnew), cs.bidx)));
            check("the pool pays out the loan less the fee", eq(sub(cc, p.cash(C)), sub(x, fee)));
            let paid = add(out, y);
            let owed = from_ray(rmul(b0[0].scaled, s.was(B).0.bidx), dold);
            let repaid = sub(p.cash(B), s.was(B).1);
            check("the old debt is repaid with what came back, the rest refunded", le(repaid, paid));
            check("what is not used to repay goes to the user", eq(sub(y, s.spent(B)), sub(paid, repaid)));
            let left = p.sc(N, BORROW, B);
            check("the old debt falls by the payment", or(&[eq(left, k(0)), eq(repaid, paid)]));
            observe("owedB", owed);
            check("new-debt tokens reach the user only as what the swap leaves over", eq(s.spent(C), neg(back)));
            checkb("the NFT is back", p.holds(&p.user, N));
            reach("debt swapped");
        } else {
            for t in [A, B, C] {
                check("a refused strategy takes nothing", eq(s.spent(t), k(0)));
            }
            reach("swapDebt refused");
        }
    })
}
pub fn swap_collateral(with_debt: bool, iso: bool) -> Scenario {
    Scenario::new(format!("swapCollateral{}{}", if with_debt { " under debt" } else { "" }, if iso { ", isolated account" } else { "" }), move || {
        let mut c = sym_mkt(C, 18);
        c.cfg.isolated = flag("C isolated", false);
        c.cfg.coll = flag("C collateral", true);
        let (ciso, ccoll) = (c.cfg.isolated, c.cfg.coll);
        let s = S::new(vec![sym_mkt(A, 6), lin_mkt(B, 6, cents(99), 1203, 1050), c]);
        let p = &s.p;
        let d0 = vec![deposit(A, scaled("depA", 1000))];
        let b0 = if with_debt { vec![debt(B, scaled("debtB", 5))] } else { vec![] };
        assume(le(d0[0].scaled, s.was(A).0.supplied));
        let mut all = d0.clone();
        all.extend(b0.clone());
        let at = if iso { Attrs { mode: 2, ..isolated(A) } } else { leveraged() };
        p.account(&p.user, N, &at, &all);
        let x = var("x", 0, p10(36), p10(6) * 20);
        let out = var("swapped", 0, p10(36), p10(18) * 20);
        let back = var("unspent", 0, p10(30), p10(4));
        let r = p.call(&p.user, "swapCollateral", vec![A.as_bytes().to_vec(), enc_u(x), C.as_bytes().to_vec(), steps(&[(A, back), (C, out)])], vec![pay_nft(ACC, N)]);
        if r.ok() {
            checkb("isolated accounts keep their collateral", !iso);
            checkb("no isolated collateral enters", !ciso);
            checkb("only usable collateral", ccoll);
            s.common(N, true);
            s.books(N, &d0, &b0);
            let sold = sub(s.was(A).1, p.cash(A));
            let held = from_ray(rmul(d0[0].scaled, s.was(A).0.sidx), 6);
            check("no more than the deposit is sold", and(&[le(sold, held), or(&[le(sold, x), eq(x, k(0))])]));
            check("all the proceeds are deposited", eq(sub(p.cash(C), s.was(C).1), out));
            check("the deposit is credited in full", eq(p.sc(N, DEPOSIT, C), rdiv(to_ray(out, 18), s.was(C).0.sidx)));
            for t in [A, B, C] {
                check("the user gets only what the swap leaves over", eq(s.spent(t), if t == A { neg(back) } else { k(0) }));
            }
            checkb("the NFT is back", p.holds(&p.user, N));
            reach("collateral swapped");
        } else {
            reach("swapCollateral refused");
        }
    })
}
pub fn repay_with(name: &'static str, same: bool, close: bool) -> Scenario {
    Scenario::new(format!("repayDebtWithCollateral {}", name), move || {
        let s = S::new(vec![sym_mkt(A, 18), sym_mkt(B, 6), lin_mkt(C, 18, cents(4010), 1007, 1001)]);
        let p = &s.p;
        let from = if same { B } else { A };
        let df = if same { 6 } else { 18 };
        let d0 = vec![deposit(from, scaled("dep", 1000)), deposit(C, scaled("depC", 3))];
        let b0 = vec![debt(B, scaled("debtB", 5))];
        assume(le(d0[0].scaled, s.was(from).0.supplied));
        assume(le(d0[1].scaled, s.was(C).0.supplied));
        assume(le(b0[0].scaled, s.was(B).0.borrowed));
        p.account(&p.user, N, &leveraged(), &[d0[0].clone(), d0[1].clone(), b0[0].clone()]);
        let x = var("x", 0, p10(36), p10(df) * if close { 6 } else { 2 });
        let out = var("swapped", 0, p10(36), p10(6) * if close { 9 } else { 2 });
        let back = if same { k(0) } else { var("unspent", 0, p10(30), p10(12)) };
        let mut args = vec![from.as_bytes().to_vec(), enc_u(x), B.as_bytes().to_vec(), top_bool(close)];
        if !same {
            args.push(steps(&[(B, out), (A, back)]));
        }
        let r = p.call(&p.user, "repayDebtWithCollateral", args, vec![pay_nft(ACC, N)]);
        if r.ok() {
            s.common(N, true);
            let (d1, b1) = (p.positions(N, DEPOSIT), p.positions(N, BORROW));
            check("no debt grows", le(p.sc(N, BORROW, B), b0[0].scaled));
            check("no deposit grows", and(&[le(p.sc(N, DEPOSIT, from), d0[0].scaled), le(p.sc(N, DEPOSIT, C), d0[1].scaled)]));
            if !(close && b1.is_empty()) {
                s.books(N, &d0, &b0);
                same_except("other collateral untouched", &[Pos { nonce: N, ..d0[1].clone() }], &d1, &[from]);
                check("the user receives the collateral only as what the swap leaves over", eq(s.spent(A), neg(back)));
                check("the user receives no other collateral", eq(s.spent(C), k(0)));
                check("only what exceeds the debt is refunded", le(neg(s.spent(B)), if same { x } else { out }));
                if b1.len() == 1 {
                    if same {
                        check("all of it repays", eq(s.spent(B), k(0)));
                    } else {
                        check("all of it repays", and(&[eq(s.spent(B), k(0)), eq(sub(p.cash(B), s.was(B).1), out)]));
                    }
                }
                checkb("the account stays open", p.active(N) && p.holds(&p.user, N));
                reach("repaid with collateral");
            } else {
                checkb("a closed account has no positions", d1.is_empty());
                checkb("and is gone", !p.active(N) && p.attrs(N).is_none() && !p.holds(&p.user, N));
                for (t, dd) in [(C, 18u32)] {
                    let back = from_ray(rmul(d0[1].scaled, s.was(C).0.sidx), dd);
                    check("remaining collateral is returned in full", eq(neg(s.spent(t)), back));
                }
                reach("closed");
            }
        } else {
            for t in [A, B, C] {
                check("a refused strategy takes nothing", eq(s.spent(t), k(0)));
            }
            reach("repay refused");
        }
    })
}
/// the market moves while the swap runs: the position has to be healthy at the prices of the end
fn moving(what: u8) -> Scenario {
    let name = ["multiply", "swapDebt", "swapCollateral", "repayDebtWithCollateral"][what as usize];
    Scenario::new(format!("{} while a price moves", name), move || {
        let mut ms = vec![lin_mkt(A, 18, cents(250), 1300, 1100), lin_mkt(B, 6, cents(99), 1203, 1050), lin_mkt(C, 18, cents(4010), 1007, 1001)];
        for m in ms.iter_mut() {
            m.cfg.flash_fee = k(0);
        }
        let mut s = S::new(ms);
        let which = pick("moved", 3) as usize;
        let tok = [A, B, C][which];
        let now = var("price now", 1, p10(24), p10(16) * [250, 99, 4010][which]);
        {
            let at = s.p.quote_key(tok);
            let agg = s.p.agg;
            let ts = w(|w| w.now_ms) / 1000;
            add_account(
                s.p.router,
                Kind::Mock(std::rc::Rc::new(move |c: &Call| {
                    if c.func == "xo" {
                        storage_set(&agg, &at, cat(&[nu(now), u64b(ts), u32b(1)]));
                        for o in c.args.chunks(2) {
                            transfer(&c.me, &c.caller, &pay(std::str::from_utf8(&o[0]).unwrap(), dec_u(&o[1])));
                        }
                    }
                    vec![]
                })),
                s.p.owner,
                true,
            );
        }
        let (d0, b0) = (vec![deposit(A, k(p10(27) * 1000))], vec![debt(B, k(p10(27) * 900))]);
        s.p.account(&s.p.user, N, &leveraged(), &[d0[0].clone(), b0[0].clone()]);
        // the value coming back stays symbolic where its own price stands still
        let amount = |n: &str, t: &str, unit: num_bigint::BigInt| {
            if t == tok {
                k(unit)
            } else {
                var(n, 1, unit.clone() * 1000, unit)
            }
        };
        let nft = pay_nft(ACC, N);
        let p = &s.p;
        let tb = |t: &str| t.as_bytes().to_vec();
        let r = match what {
            0 => {
                let (x, out) = (amount("loan", B, p10(8)), amount("out", A, p10(19) * 4));
                p.call(&p.user, "multiply", vec![vec![], tb(A), enc_u(x), tb(B), vec![2], steps(&[(A, out)])], vec![nft])
            }
            1 => {
                let (x, out) = (amount("loan", C, p10(18)), amount("out", B, p10(7) * 4));
                p.call(&p.user, "swapDebt", vec![tb(B), enc_u(x), tb(C), steps(&[(B, out)])], vec![nft])
            }
            2 => {
                let (x, out) = (amount("x", A, p10(19)), amount("out", C, p10(17) * 6));
                p.call(&p.user, "swapCollateral", vec![tb(A), enc_u(x), tb(C), steps(&[(C, out)])], vec![nft])
            }
            _ => {
                let (x, out) = (amount("x", A, p10(19)), amount("out", B, p10(7) * 2));
                p.call(&p.user, "repayDebtWithCollateral", vec![tb(A), enc_u(x), tb(B), top_bool(false), steps(&[(B, out)])], vec![nft])
            }
        };
        let done = r.ok();
        s.p.mkts[which].price = now;
        if done {
            s.common(N, true);
            reach("healthy at the new price");
        } else {
            reach("refused at the new price");
        }
    })
}
/// swapped debts are new debts: caps, isolation and position limits hold for them too
fn swap_debt_limits() -> Scenario {
    Scenario::new("swapDebt under caps, isolation and position limits", move || {
        let mut a = lin_mkt(A, 18, cents(250), 1300, 1100);
        let mut b = lin_mkt(B, 6, cents(99), 1203, 1050);
        let mut c = lin_mkt(C, 18, cents(4010), 1007, 1001);
        let cap = var("cap", 1, p10(30), p10(20));
        let what = pick("rule", 4);
        match what {
            0 => c.cfg.bcap = Some(cap),
            1 | 2 => {
                a.cfg.isolated = true;
                a.cfg.ceiling = cap;
                c.cfg.iso_borrow = what == 1;
            }
            _ => {}
        }
        b.cfg.flash_fee = k(0);
        c.cfg.flash_fee = k(0);
        let s = S::new(vec![a, b, c]);
        let p = &s.p;
        let had = if what == 1 { var("tracked", 0, p10(30), p10(20)) } else { k(p10(20)) };
        p.set_iso_debt(A, had);
        let iso = what == 1 || what == 2;
        let at = if iso { Attrs { mode: 2, ..isolated(A) } } else { leveraged() };
        let d = debt(B, k(p10(27) * 100));
        p.account(&p.user, N, &at, &[deposit(A, k(p10(27) * 100_000)), d.clone()]);
        if what == 3 {
            must(&p.owner, &p.c, "setPositionLimits", vec![top_u(1), top_u(1)], vec![]);
        }
        let x = var("loan", 1, p10(30), p10(18) * 2);
        let out = var("swapped", 0, p10(36), p10(6) * 80);
        let r = p.call(&p.user, "swapDebt", vec![B.as_bytes().to_vec(), enc_u(x), C.as_bytes().to_vec(), steps(&[(B, out)])], vec![pay_nft(ACC, N)]);
        if r.ok() {
            let value = |t: &str, x: T, dd: u32| div_hu(rmul(to_ray(x, dd), mul(p.m(t).price, k(p10(9)))), k(p10(9)));
            match what {
                0 => {
                    let total = rmul(p.state(C).borrowed, p.m(C).st.bidx);
                    check("borrow cap", le(total, add(to_ray(cap, 18), k(p10(9)))));
                }
                1 => {
                    let owed = div_hu(rmul(rmul(d.scaled, p.m(B).st.bidx), mul(p.m(B).price, k(p10(9)))), k(p10(9)));
                    let up = add(had, value(C, x, 18));
                    check("isolated debt ceiling", le(up, cap));
                    let usd = min(owed, value(B, out, 6));
                    let left = sub(up, min(up, usd));
                    let want = ite(and(&[gt(usd, k(0)), lt(left, kwad())]), k(0), left);
                    check("isolated debt follows the swap", eq(p.iso_debt(A), want));
                }
                2 => checkb("only tokens enabled for isolation", false),
                _ => checkb("position limit", p.positions(N, BORROW).len() == 1),
            }
            reach("debt swapped within the rule");
        } else {
            check("a refused swap is not tracked", eq(p.iso_debt(A), had));
            reach("debt swap refused by the rule");
        }
    })
}
/// swapped collateral is a deposit; anything paid along is deposited too
fn swap_collateral_limits() -> Scenario {
    Scenario::new("swapCollateral under caps and position limits, with a payment along", move || {
        let a = lin_mkt(A, 18, cents(250), 1300, 1100);
        let b = lin_mkt(B, 6, cents(99), 1203, 1050);
        let mut c = lin_mkt(C, 18, cents(4010), 1007, 1001);
        let cap = var("cap", 1, p10(30), p10(20));
        let what = pick("rule", 4);
        if what == 0 {
            c.cfg.scap = Some(cap);
        }
        let s = S::new(vec![a, b, c]);
        let p = &s.p;
        let d = deposit(A, k(p10(27) * 1000));
        let owed = debt(B, k(p10(27) * 100));
        p.account(&p.user, N, &leveraged(), &[d.clone(), owed.clone()]);
        if what == 1 {
            must(&p.owner, &p.c, "setPositionLimits", vec![top_u(1), top_u(1)], vec![]);
        }
        let x = var("x", 1, p10(30), p10(18) * 20);
        let out = var("swapped", 0, p10(36), p10(18) * 2);
        let y = var("paid", 1, p10(30), p10(18));
        let along = [None, None, Some(C), Some(A)][what as usize];
        let mut pays = vec![pay_nft(ACC, N)];
        if let Some(t) = along {
            pays.push(pay(t, y));
        }
        let r = p.call(&p.user, "swapCollateral", vec![A.as_bytes().to_vec(), enc_u(x), C.as_bytes().to_vec(), steps(&[(C, out)])], pays);
        if r.ok() {
            s.common(N, true);
            s.books(N, &[d.clone()], &[owed]);
            let paid = |t: &str| if along == Some(t) { y } else { k(0) };
            match what {
                0 => check("supply cap", le(rmul(p.state(C).supplied, p.m(C).st.sidx), add(to_ray(cap, 18), k(p10(9))))),
                1 => checkb("position limit", p.positions(N, DEPOSIT).len() == 1),
                _ => {
                    check("payment and proceeds are deposited", eq(sub(p.cash(C), s.was(C).1), add(out, paid(C))));
                    for t in [A, B, C] {
                        check("the payment along is taken exactly", eq(s.spent(t), paid(t)));
                    }
                    let sold = min(x, from_ray(rmul(d.scaled, s.was(A).0.sidx), 18));
                    check("the sale leaves the pool, a payment along enters it", eq(sub(s.was(A).1, p.cash(A)), sub(sold, paid(A))));
                }
            }
            reach("collateral swapped within the rule");
        } else {
            reach("collateral swap refused by the rule");
        }
    })
}
/// debts repaid from collateral and from a payment along; isolated accounts release their tracker
fn repay_with_along(iso: bool) -> Scenario {
    Scenario::new(format!("repayDebtWithCollateral with a payment along{}", if iso { ", isolated account" } else { "" }), move || {
        let mut a = lin_mkt(A, 18, cents(250), 1300, 1100);
        a.cfg.isolated = iso;
        let s = S::new(vec![a, lin_mkt(B, 6, cents(99), 1203, 1050), lin_mkt(C, 18, cents(4010), 1007, 1001)]);
        let p = &s.p;
        let d0 = vec![deposit(A, k(p10(27) * 1000))];
        let b0 = vec![debt(B, k(p10(27) * 100))];
        let at = if iso { Attrs { mode: 2, ..isolated(A) } } else { leveraged() };
        p.account(&p.user, N, &at, &[d0[0].clone(), b0[0].clone()]);
        let had = var("tracked", 0, p10(30), p10(20) * 3);
        p.set_iso_debt(A, had);
        let x = if iso { k(p10(18) * 20) } else { var("x", 1, p10(30), p10(18) * 20) };
        let out = var("swapped", 0, p10(30), p10(6) * 40);
        let y = var("paid", 1, p10(30), p10(6) * 5);
        let args = vec![A.as_bytes().to_vec(), enc_u(x), B.as_bytes().to_vec(), top_bool(false), steps(&[(B, out)])];
        let r = p.call(&p.user, "repayDebtWithCollateral", args, vec![pay_nft(ACC, N), pay(B, y)]);
        if r.ok() {
            let alive = p.active(N);
            s.common(N, alive);
            let paid = add(out, y);
            let repaid = sub(p.cash(B), s.was(B).1);
            check("no more is repaid than was paid", le(repaid, paid));
            check("what exceeds the debt is refunded", eq(sub(y, s.spent(B)), sub(paid, repaid)));
            let left = p.sc(N, BORROW, B);
            check("the debt falls by all of it or is gone", or(&[eq(left, k(0)), eq(repaid, paid)]));
            if alive {
                s.books(N, &d0, &b0);
            }
            let sold = min(x, from_ray(rmul(d0[0].scaled, s.was(A).0.sidx), 18));
            check("only what was asked for is sold", eq(sub(s.was(A).1, p.cash(A)), sold));
            check("the tracker of an ordinary account stands still, an isolated one's never grows", if iso { le(p.iso_debt(A), had) } else { eq(p.iso_debt(A), had) });
            if iso {
                let usd = |z: T| div_hu(rmul(to_ray(z, 6), mul(p.m(B).price, k(p10(9)))), k(p10(9)));
                // each of the two payments is rounded on its own
                let fell = sub(had, p.iso_debt(A));
                let worth = usd(repaid);
                let room = k(p10(13));
                check("an isolated account releases what was repaid", or(&[
                    le(abs_diff(fell, worth), room),
                    and(&[eq(p.iso_debt(A), k(0)), le(fell, add(worth, kwad()))]),
                ]));
            }
            reach("repaid with a payment along");
        } else {
            check("a refused strategy takes nothing", and(&[eq(s.spent(A), k(0)), eq(s.spent(B), k(0)), eq(p.iso_debt(A), had)]));
            reach("repay refused");
        }
    })
}
/// accounts holding several deposits and debts, swapping one of them for another: nothing else moves
fn crowded(what: u8) -> Scenario {
    let name = ["multiply", "swapDebt", "swapCollateral", "repayDebtWithCollateral"][what as usize];
    Scenario::new(format!("{} on an account with many positions", name), move || {
        let mut ms = quad();
        for m in ms.iter_mut() {
            m.cfg.flash_fee = k(0);
        }
        let s = S::new(ms);
        let p = &s.p;
        let ray = |n: i64| k(p10(27) * n);
        let d0 = vec![deposit(A, ray(4000)), deposit(C, ray(30)), deposit(D, ray(300))];
        let b0 = vec![debt(B, ray(500)), debt(D, ray(200)), debt(A, ray(100))];
        let mut all = d0.clone();
        all.extend(b0.clone());
        p.account(&p.user, N, &leveraged(), &all);
        let dec = |t: &str| p.m(t).dec;
        let (from, to) = match what {
            // collateral, debt
            0 => [(A, D), (C, B), (B, C), (D, A)],
            // old debt, new debt
            1 => [(B, D), (D, C), (A, B), (D, A)],
            // old collateral, new collateral
            2 => [(A, C), (D, A), (C, B), (A, B)],
            // collateral, debt
            _ => [(A, B), (D, D), (C, D), (D, A)],
        }[pick("pair", 4) as usize];
        let tb = |t: &str| t.as_bytes().to_vec();
        let worth = |t: &str| num_bigint::BigInt::from(match t { A => 160, B => 400, C => 10, _ => 55 });
        let amount = |n: &str, t: &str| var(n, 1, p10(dec(t)) * worth(t) * 400, p10(dec(t)) * worth(t) / 10);
        let nft = pay_nft(ACC, N);
        let r = match what {
            0 => {
                let (x, out) = (amount("loan", to), amount("out", from));
                p.call(&p.user, "multiply", vec![vec![], tb(from), enc_u(x), tb(to), vec![2], steps(&[(from, out)])], vec![nft])
            }
            1 => {
                let (x, out) = (amount("loan", to), amount("out", from));
                p.call(&p.user, "swapDebt", vec![tb(from), enc_u(x), tb(to), steps(&[(from, out)])], vec![nft])
            }
            2 => {
                let (x, out) = (amount("x", from), amount("out", to));
                p.call(&p.user, "swapCollateral", vec![tb(from), enc_u(x), tb(to), steps(&[(to, out)])], vec![nft])
            }
            _ => {
                let x = amount("x", from);
                let mut args = vec![tb(from), enc_u(x), tb(to), top_bool(pick("close", 2) == 1)];
                if from != to {
                    args.push(steps(&[(to, amount("out", to))]));
                }
                p.call(&p.user, "repayDebtWithCollateral", args, vec![nft])
            }
        };
        if r.ok() {
            s.common(N, true);
            s.books(N, &d0, &b0);
            let (dm, bm): (&[&str], &[&str]) = match what {
                0 => (&[from], &[to]),
                1 => (&[], &[from, to]),
                2 => (&[from, to], &[]),
                _ => (&[from], &[to]),
            };
            let with_n = |v: &[Pos]| v.iter().map(|q| Pos { nonce: N, ..q.clone() }).collect::<Vec<_>>();
            same_except("other deposits untouched", &with_n(&d0), &p.positions(N, DEPOSIT), dm);
            same_except("other debts untouched", &with_n(&b0), &p.positions(N, BORROW), bm);
            checkb("the account stays with its owner", p.holds(&p.user, N) && p.active(N));
            reach("many positions, one swapped");
        } else {
            for t in [A, B, C, D] {
                check("a refused strategy takes nothing", eq(s.spent(t), k(0)));
            }
            reach("many positions, refused");
        }
    })
}
/// a closed account gets everything back, however much of it there is; debts left over keep it open
fn close_many() -> Scenario {
    Scenario::new("repayDebtWithCollateral closing an account with four deposits", move || {
        let s = S::new(quad());
        let p = &s.p;
        let ray = |n: i64| k(p10(27) * n);
        let d0 = vec![deposit(A, ray(900)), deposit(C, scaled("depC", 30)), deposit(D, scaled("depD", 300)), deposit(B, scaled("depB", 700))];
        for d in &d0[1..] {
            let t = std::str::from_utf8(&d.asset).unwrap();
            assume(and(&[le(d.scaled, s.was(t).0.supplied), le(rmul(d.scaled, s.was(t).0.sidx), to_ray(s.was(t).1, p.m(t).dec))]));
        }
        let second = pick("debts", 2) == 1;
        let mut b0 = vec![debt(B, scaled("debtB", 50))];
        if second {
            b0.push(debt(D, ray(20)));
        }
        assume(le(b0[0].scaled, s.was(B).0.borrowed));
        let mut all = d0.clone();
        all.extend(b0.clone());
        p.account(&p.user, N, &leveraged(), &all);
        let x = k(p10(18) * 40);
        let out = var("swapped", 1, p10(30), p10(6) * 100);
        let args = vec![A.as_bytes().to_vec(), enc_u(x), B.as_bytes().to_vec(), top_bool(true), steps(&[(B, out)])];
        let mut pays = vec![pay_nft(ACC, N)];
        if second {
            pays.push(pay(D, var("paid", 1, p10(20), p10(8) * 30)));
        }
        let r = p.call(&p.user, "repayDebtWithCollateral", args, pays);
        if r.ok() {
            let left = p.positions(N, BORROW);
            if left.is_empty() {
                checkb("a closed account has no positions", p.positions(N, DEPOSIT).is_empty());
                checkb("and is gone", !p.active(N) && p.attrs(N).is_none() && !p.holds(&p.user, N));
                let full = |q: &Pos, t: &str| from_ray(rmul(q.scaled, s.was(t).0.sidx), p.m(t).dec);
                check("remaining collateral is returned in full", eq(neg(s.spent(C)), full(&d0[1], C)));
                check("what was not sold is returned", eq(neg(s.spent(A)), sub(full(&d0[0], A), x)));
                // B and D also come back as refunds
                let owed = |q: &Pos, t: &str| from_ray(rmul(q.scaled, s.was(t).0.bidx), p.m(t).dec);
                check("remaining collateral is returned in full", eq(neg(s.spent(B)), add(full(&d0[3], B), sub(out, owed(&b0[0], B)))));
                if second {
                    check("remaining collateral is returned in full, less the debt", eq(neg(s.spent(D)), sub(full(&d0[2], D), owed(&b0[1], D))));
                } else {
                    check("remaining collateral is returned in full", eq(neg(s.spent(D)), full(&d0[2], D)));
                }
                reach("closed with many deposits");
            } else {
                s.common(N, true);
                checkb("an account in debt stays", p.active(N) && p.holds(&p.user, N) && p.positions(N, DEPOSIT).len() == 4);
                let with_n = |v: &[Pos]| v.iter().map(|q| Pos { nonce: N, ..q.clone() }).collect::<Vec<_>>();
                same_except("other deposits untouched", &with_n(&d0), &p.positions(N, DEPOSIT), &[A]);
                reach("left open with a debt");
            }
        } else {
            for t in [A, B, C, D] {
                check("a refused strategy takes nothing", eq(s.spent(t), k(0)));
            }
            reach("closing refused");
        }
    })
}
/// every payment sent along repays the debt in its own token
fn several_along(what: u8) -> Scenario {
    let name = ["swapDebt", "repayDebtWithCollateral"][what as usize];
    Scenario::new(format!("{} with several payments along", name), move || {
        let mut ms = quad();
        for m in ms.iter_mut() {
            m.cfg.flash_fee = k(0);
        }
        let s = S::new(ms);
        let p = &s.p;
        let ray = |n: i64| k(p10(27) * n);
        let d0 = vec![deposit(A, ray(4000))];
        let b0 = vec![debt(B, ray(200)), debt(C, ray(20)), debt(D, ray(200))];
        let mut all = d0.clone();
        all.extend(b0.clone());
        p.account(&p.user, N, &leveraged(), &all);
        let order: &[&str] = [&[B, D][..], &[D, B], &[C, B, D], &[D, C], &[A, B]][pick("payments", 5) as usize];
        let ys: Vec<T> = order.iter().map(|t| var(&format!("paid{}", &t[..1]), 1, p10(p.m(t).dec) * 400, p10(p.m(t).dec) * 10)).collect();
        let mut pays = vec![pay_nft(ACC, N)];
        for (t, y) in order.iter().zip(&ys) {
            pays.push(pay(t, *y));
        }
        let tb = |t: &str| t.as_bytes().to_vec();
        let out = var("swapped", 1, p10(9), p10(7));
        let (r, loan) = if what == 0 {
            let x = k(p10(16));
            (p.call(&p.user, "swapDebt", vec![tb(B), enc_u(x), tb(C), steps(&[(B, out)])], pays), x)
        } else {
            (p.call(&p.user, "repayDebtWithCollateral", vec![tb(A), enc_u(k(p10(18))), tb(B), top_bool(false), steps(&[(B, out)])], pays), k(0))
        };
        if r.ok() {
            checkb("a payment must be in a token owed", !order.contains(&A));
            s.common(N, true);
            s.books(N, &d0, &b0);
            for (t, b) in [(B, &b0[0]), (C, &b0[1]), (D, &b0[2])] {
                let dec = p.m(t).dec;
                let given = order.iter().position(|o| *o == t).map_or(k(0), |i| ys[i]);
                let swapped = if t == B { out } else { k(0) };
                // what the user is out of is what the payment was, less refunds
                let repaid = add(sub(p.cash(t), s.was(t).1), if t == C { loan } else { k(0) });
                check("what is paid repays or returns", eq(sub(add(given, swapped), repaid), sub(given, s.spent(t))));
                let left = p.sc(N, BORROW, t);
                check("a payment repays all it can of its debt", or(&[eq(left, k(0)), eq(repaid, add(given, swapped))]));
                let bidx = s.was(t).0.bidx;
                let down = sub(add(b.scaled, if t == C { rdiv(to_ray(loan, dec), bidx) } else { k(0) }), left);
                check("and the debt falls by it", or(&[eq(left, k(0)), le(abs_diff(down, div(mul(to_ray(repaid, dec), kray()), bidx)), k(3))]));
            }
            reach("several payments along");
        } else {
            for t in [A, B, C, D] {
                check("a refused strategy takes nothing", eq(s.spent(t), k(0)));
            }
            reach("several payments along, refused");
        }
    })
}
pub fn props() -> Vec<Prop> {
    fn scen(cfg: &Cfg) -> Vec<Scenario> {
        let mut v = vec![
            multiply("paying collateral", Some(A), 2, 18, 6),
            multiply("paying debt", Some(B), 3, 6, 18),
            multiply("paying another token", Some(C), 4, 18, 6),
            multiply("existing account", None, 2, 18, 6),
            multiply("ordinary account", None, 1, 18, 6),
            multiply("as an ordinary position", Some(A), 1, 18, 6),
            multiply_limits(),
            swap_debt(false, 6, 18),
            swap_debt(true, 18, 6),
            swap_collateral(true, false),
            swap_collateral(false, false),
            swap_collateral(true, true),
            repay_with("in part", false, false),
            repay_with("and close", false, true),
            repay_with("of the same token", true, false),
            moving(0),
            moving(1),
            moving(2),
            moving(3),
            swap_debt_limits(),
            swap_collateral_limits(),
            repay_with_along(false),
            repay_with_along(true),
            crowded(0),
            crowded(1),
            crowded(2),
            crowded(3),
            close_many(),
            several_along(0),
            several_along(1),
        ];
        if cfg.thorough {
            v.push(multiply("paying collateral", Some(A), 2, 6, 18));
            v.push(multiply("existing account", None, 2, 6, 6));
            v.push(swap_debt(false, 18, 18));
            v.push(repay_with("of the same token and close", true, true));
        }
        v
    }
    vec![Prop {
        id: "C36",
        scen,
        reach: &[
            "multiplied", "multiply refused", "within the rule", "rule refused", "debt swapped", "swapDebt refused", "collateral swapped",
            "swapCollateral refused", "repaid with collateral", "closed", "repay refused", "healthy at the new price", "refused at the new price", "debt swapped within the rule", "debt swap refused by the rule", "collateral swapped within the rule", "collateral swap refused by the rule", "repaid with a payment along", "many positions, one swapped", "many positions, refused", "closed with many deposits", "left open with a debt", "closing refused", "several payments along", "several payments along, refused",
        ],
        bounds: "multiply (three modes; payments in collateral, debt, third token or none), swapDebt, swapCollateral, repayDebtWithCollateral (with and without closing) with a router returning any amount of the wanted token, of the token it was given and of a third one; amounts symbolic, prices and indexes fixed; each strategy again with the price of one of its three tokens changed to a symbolic one by the swap itself (final health must be judged at the new price); swapDebt and swapCollateral under every cap, ceiling and limit; payments sent along; each strategy on an account with three deposits and three debts, over several token pairs; closing an account with four deposits; two or three payments along",
        assumptions: &[],
    }]
}
