//! What the rules allow goes through: operations are refused for a stated reason only.
use super::access::{add_bot, bob, bot, leveraged, router_mock, steps};
use super::ctrl::*;
use super::ctrl::{A, B, C};
use super::{Cfg, Prop};
use crate::engine::*;
use crate::env::*;
use crate::env_ctrl::*;
use crate::term::*;
use crate::vm::*;

const N: u64 = 5;
const D: &str = "DDD-444444";
fn cents(n: i64) -> T {
    k(p10(16) * n)
}
/// a refusal must have one of these reasons
fn reasons(r: &TxRes, name: &str, v: &[B]) -> bool {
    if r.ok() {
        reach(name);
        return true;
    }
    check(&format!("{}: refused only for a reason", name), or(v));
    reach(&format!("{} refused", name));
    false
}
fn zero(x: T) -> B {
    eq(x, k(0))
}
fn quad() -> Vec<Mkt> {
    vec![
        lin_mkt(A, 18, cents(250), 1300, 1100),
        lin_mkt(B, 6, cents(99), 1203, 1050),
        lin_mkt(C, 18, cents(4010), 1007, 1001),
        lin_mkt(D, 18, cents(100), 1010, 1020),
    ]
}

/// what the owner may change while positions are open: nothing of it stands in the way of leaving
pub fn since(p: &Proto, n: u64) {
    let normal = p.attrs(n).map_or(false, |a| !a.isolated && a.emode == 0);
    match pick("since then", if normal { 3 } else { 2 }) {
        0 => {}
        1 => {
            for m in &p.mkts {
                let mut c = m.cfg.clone();
                (c.coll, c.borr, c.flash, c.iso_borrow, c.siloed, c.isolated) = (false, false, false, false, true, true);
                (c.ltv, c.ceiling, c.bcap, c.scap) = (k(0), k(0), Some(k(1)), Some(k(1)));
                p.set_cfg(&m.tok, &c);
            }
            must(&p.owner, &p.c, "setPositionLimits", vec![top_u(0), top_u(0)], vec![]);
            reach("everything switched off");
        }
        _ => {
            let all: Vec<(&str, bool, bool)> = p.mkts.iter().map(|m| (m.tok.as_str(), false, false)).collect();
            p.emode(3, k(0), k(1), k(0), true, &all);
            p.account(&p.user, n, &emode(3), &[]);
            reach("category deprecated");
        }
    }
}
/// a loan within LTV, cash and cap
pub fn borrow_any(existing: &'static [&'static str], d: u32, capped: bool) -> Scenario {
    Scenario::new(format!("borrow dec={} beside {:?}{}", d, existing, if capped { ", capped" } else { "" }), move || {
        let mut b = sym_mkt(B, d);
        let cap = var("cap", 1, p10(36), p10(d) * 20_000_000_000i64);
        if capped {
            b.cfg.bcap = Some(cap);
        }
        let mut ms = vec![sym_mkt(A, 18), b];
        if existing.contains(&C) {
            ms.push(sym_mkt(C, 18));
        }
        let p = Proto::new(ms);
        let mut dep = deposit(A, scaled("depA", 1000));
        dep.ltv = var("ltvA", 0, 10000, 7500);
        let mut all = vec![dep.clone()];
        for t in existing {
            all.push(debt(t, scaled(&format!("debt{}", &t[..1]), 5)));
        }
        p.account(&p.user, N, &normal(), &all);
        let before = p.positions(N, BORROW);
        let x = amount("x", d);
        let m = p.m(B).clone();
        let r = p.borrow(N, vec![(B, x)]);
        let limit = p.weighted(&[dep], |q| q.ltv);
        let v = rmul(to_ray(x, d), mul(m.price, k(p10(9))));
        let mut why = vec![zero(x), gt(x, m.cash), gt(add(p.total(&before), v), limit)];
        if capped {
            why.push(gt(add(from_ray(rmul(m.st.borrowed, m.st.bidx), d), x), cap));
        }
        reasons(&r, "loan", &why);
    })
}
pub fn borrow_list(held: &'static [&'static str], list: &'static [&'static str]) -> Scenario {
    Scenario::new(format!("borrow {:?} beside {:?}", list, held), move || {
        let mut ms = quad();
        for m in ms.iter_mut() {
            m.cash = var(&format!("cash{}", &m.tok[..1]), 0, p10(36), p10(30));
        }
        let p = Proto::new(ms);
        let dep = one_deposit("depA", 100_000, 7300);
        let mut all = vec![dep.clone()];
        for t in held {
            all.push(debt(t, scaled(&format!("debt{}", &t[..1]), 5)));
        }
        p.account(&p.user, N, &normal(), &all);
        let before = p.positions(N, BORROW);
        let xs: Vec<T> = (0..list.len()).map(|i| amount(&format!("x{}", i), p.m(list[i]).dec)).collect();
        let cash: Vec<T> = list.iter().map(|t| p.cash(t)).collect();
        let r = p.borrow(N, list.iter().zip(&xs).map(|(t, x)| (*t, *x)).collect());
        let mut owed = add(p.total(&before), k(300));
        let mut why = vec![];
        for (i, t) in list.iter().enumerate() {
            owed = add(owed, p.val(&debt(t, rdiv(to_ray(xs[i], p.m(t).dec), p.m(t).st.bidx))));
            why.push(zero(xs[i]));
            let of_t = (0..list.len()).filter(|j| list[*j] == *t).fold(k(0), |a, j| add(a, xs[j]));
            why.push(gt(of_t, cash[i]));
        }
        why.push(gt(owed, p.weighted(&[dep], |q| q.ltv)));
        reasons(&r, "several loans", &why);
        if r.ok() {
            let toks = p.positions(N, BORROW).len();
            let mut all: Vec<&str> = held.iter().chain(list.iter()).copied().collect();
            all.sort();
            all.dedup();
            checkb("one debt per token", toks == all.len());
        }
    })
}
pub fn withdraw_any(debts: &'static [&'static str], d: u32) -> Scenario {
    Scenario::new(format!("withdraw dec={} owing {:?}", d, debts), move || {
        let mut ms = vec![sym_mkt(A, d)];
        if debts.contains(&B) {
            ms.push(sym_mkt(B, 6));
        }
        let p = Proto::new(ms);
        let mut dep = deposit(A, scaled("depA", 1000));
        dep.threshold = var("thrA", 0, 10000, 8000);
        let mut all = vec![dep.clone()];
        for t in debts {
            all.push(debt(t, scaled(&format!("debt{}", &t[..1]), 5)));
        }
        p.account(&p.user, N, &normal(), &all);
        let b0 = p.positions(N, BORROW);
        let m = p.m(A).clone();
        assume(le(dep.scaled, m.st.supplied));
        let x = amount("x", d);
        let worth = from_ray(rmul(dep.scaled, m.st.sidx), d);
        since(&p, N);
        let r = p.withdraw(N, vec![(A, x)]);
        let mut why = vec![zero(x), gt(min(x, worth), m.cash)];
        if !debts.is_empty() {
            let full = ge(x, worth);
            let rem = ite(full, k(0), sub(dep.scaled, rdiv(to_ray(x, d), m.st.sidx)));
            let left = Pos { scaled: rem, ..dep.clone() };
            let h = p.health(p.weighted(&[left], |q| q.threshold), p.total(&b0));
            why.push(and(&[gt(p.total(&b0), k(0)), lt(h, kray())]));
        }
        reasons(&r, if debts.is_empty() { "withdrawal without debt" } else { "withdrawal with debt" }, &why);
    })
}
fn withdraw_all() -> Scenario {
    Scenario::new("withdrawing every deposit at once", move || {
        let p = Proto::new(quad());
        p.account(&p.user, N, &normal(), &[deposit(A, scaled("depA", 7)), deposit(B, scaled("depB", 8)), deposit(C, scaled("depC", 9))]);
        for t in [A, B, C] {
            assume(le(p.sc(N, DEPOSIT, t), p.state(t).supplied));
        }
        let (x, y, z) = (amount("x", 18), amount("y", 6), amount("z", 18));
        let cash = [p.cash(A), p.cash(B), p.cash(C)];
        since(&p, N);
        let r = p.withdraw(N, vec![(A, x), (C, z), (B, y)]);
        let mut why = vec![];
        for (q, c) in [x, y, z].iter().zip(&cash) {
            why.push(zero(*q));
            why.push(gt(*q, *c));
        }
        reasons(&r, "withdrawal of everything", &why);
    })
}
pub fn supply_any(fresh: bool, d: u32, capped: bool) -> Scenario {
    Scenario::new(format!("supply dec={}{}{}", d, if fresh { ", new account" } else { "" }, if capped { ", capped" } else { "" }), move || {
        let mut m = sym_mkt(A, d);
        let cap = var("cap", 1, p10(36), p10(d) * 20_000_000_000i64);
        if capped {
            m.cfg.scap = Some(cap);
        }
        let coll = flag("collateral", true);
        m.cfg.coll = coll;
        m.cfg.borr = flag("borrowable", false);
        let p = Proto::new(vec![m, lin_mkt(B, 6, cents(99), 1203, 1050)]);
        if !fresh {
            p.account(&p.user, N, &normal(), &[deposit(B, scaled("depB", 10)), debt(B, scaled("debtB", 1000))]);
        }
        let by_nonce = if fresh { false } else { flag("by number", false) };
        let x = amount("x", d);
        let m = p.m(A).clone();
        let r = if by_nonce {
            p.add_user(bob());
            p.call(&bob(), "supply", vec![top_u(N)], vec![pay(A, x)])
        } else {
            p.supply(if fresh { 0 } else { N }, None, vec![(A, x)])
        };
        let mut why = vec![zero(x), if coll { fls() } else { tru() }];
        if capped {
            why.push(gt(add(from_ray(rmul(m.st.supplied, m.st.sidx), d), x), cap));
        }
        reasons(&r, if by_nonce { "deposit for another account" } else { "deposit" }, &why);
    })
}
pub fn repay_any(by_owner: bool, iso: bool) -> Scenario {
    Scenario::new(format!("repay by {}{}", if by_owner { "the owner" } else { "a stranger" }, if iso { ", isolated" } else { "" }), move || {
        let p = Proto::new(vec![sym_mkt(A, 18), sym_mkt(B, 6), lin_mkt(C, 18, cents(4010), 1007, 1001)]);
        let (b, c) = (debt(B, scaled("debtB", 5)), debt(C, scaled("debtC", 2)));
        p.account(&p.user, N, &if iso { isolated(A) } else { normal() }, &[deposit(A, scaled("depA", 1)), b.clone(), c]);
        let had = var("tracked", 0, p10(36), p10(18) * 10);
        if iso {
            p.set_iso_debt(A, had);
        }
        assume(le(b.scaled, p.m(B).st.borrowed));
        let payer = if by_owner { p.user } else { bob() };
        if !by_owner {
            p.add_user(payer);
        }
        let x = amount("x", 6);
        since(&p, N);
        reasons(&p.repay_by(&payer, N, vec![(B, x)]), "repayment", &[zero(x)]);
    })
}
fn repay_many() -> Scenario {
    Scenario::new("repaying several debts", move || {
        let p = Proto::new(quad());
        p.account(&p.user, N, &normal(), &[deposit(A, scaled("depA", 1)), debt(B, scaled("debtB", 5)), debt(C, scaled("debtC", 2)), debt(D, scaled("debtD", 3))]);
        for t in [B, C, D] {
            assume(le(p.sc(N, BORROW, t), p.state(t).borrowed));
        }
        let (x, y, z) = (amount("x", 6), amount("y", 18), amount("z", 18));
        since(&p, N);
        reasons(&p.repay_by(&p.user, N, vec![(D, z), (B, x), (C, y)]), "several repayments", &[zero(x), zero(y), zero(z)]);
    })
}
/// an asset the category enables is accepted from its accounts, whatever its own flags
pub fn emode_any() -> Scenario {
    Scenario::new("e-mode account supplies and borrows", move || {
        let mut a = lin_mkt(A, 18, cents(250), 1300, 1100);
        a.cfg.coll = flag("A collateral outside e-mode", false);
        let mut b = lin_mkt(B, 6, cents(99), 1203, 1050);
        b.cfg.borr = flag("B borrowable outside e-mode", false);
        let p = Proto::new(vec![a, b]);
        p.emode(1, k(9000), k(9300), k(150), false, &[(A, true, false), (B, false, true)]);
        let x = amount("x", 18);
        if reasons(&p.supply(0, Some(1), vec![(A, x)]), "e-mode deposit", &[zero(x)]) {
            let y = amount("y", 6);
            let dep = p.positions(1, DEPOSIT);
            let v = rmul(to_ray(y, 6), mul(p.m(B).price, k(p10(9))));
            let lim = p.weighted(&dep, |q| q.ltv);
            let cash = p.cash(B);
            check("the category's LTV counts", eq(lim, rmul(p.val(&dep[0]), k(p10(23) * 9000))));
            reasons(&p.borrow(1, vec![(B, y)]), "e-mode loan", &[zero(y), gt(v, lim), gt(y, cash)]);
        }
    })
}
/// flash loans of enabled assets
pub fn flash_any(d: u32) -> Scenario {
    Scenario::new(format!("flash loan dec={}", d), move || {
        let mut m = sym_mkt(B, d);
        let bps = var("feeBps", 0, 10000, 50);
        m.cfg.flash = true;
        m.cfg.flash_fee = bps;
        let p = Proto::new(vec![m.clone()]);
        p.add_user(bob());
        let x = var("x", 0, p10(36), p10(d) * 50);
        let extra = var("extra", 0, p10(36), p10(d) * 2);
        add_bot(&p, extra, Default::default());
        let r = p.call(&bob(), "flashLoan", vec![B.as_bytes().to_vec(), enc_u(x), bot().to_vec(), b"go".to_vec(), vec![]], vec![]);
        let fee = sub(div_hu(mul(x, add(k(10000), bps)), k(10000)), x);
        reasons(&r, "flash loan", &[zero(x), gt(x, m.cash), lt(extra, fee)]);
    })
}
/// isolated accounts may top up and borrow up to the ceiling
pub fn iso_any() -> Scenario {
    Scenario::new("isolated account", move || {
        let ceiling = var("ceiling", 0, p10(36), p10(18) * 1_000_000i64);
        let had = var("tracked", 0, p10(36), p10(18) * 10);
        let mut a = lin_mkt(A, 18, cents(250), 1300, 1100);
        a.cfg.isolated = true;
        a.cfg.ceiling = ceiling;
        let mut b = lin_mkt(B, 6, cents(99), 1203, 1050);
        b.cfg.iso_borrow = true;
        let p = Proto::new(vec![a, b]);
        p.set_iso_debt(A, had);
        let dep = one_deposit("depA", 100_000, 7300);
        p.account(&p.user, N, &isolated(A), &[dep.clone()]);
        let (x, y) = (amount("x", 6), amount("y", 18));
        if reasons(&p.supply(N, None, vec![(A, y)]), "isolated deposit", &[zero(y)]) {
            let cash = p.cash(B);
            let lim = p.weighted(&p.positions(N, DEPOSIT), |q| q.ltv);
            let v = rmul(to_ray(x, 6), mul(p.m(B).price, k(p10(9))));
            let usd = div_hu(v, k(p10(9)));
            reasons(&p.borrow(N, vec![(B, x)]), "isolated loan", &[zero(x), gt(x, cash), gt(v, lim), gt(add(had, usd), ceiling)]);
        }
    })
}
/// a siloed token is lent to an account without other debts, again and again
pub fn silo_any() -> Scenario {
    Scenario::new("siloed loan", move || {
        let mut ms = quad();
        ms[1].cfg.siloed = true;
        let p = Proto::new(ms);
        let dep = one_deposit("depA", 100_000, 7300);
        let mut all = vec![dep.clone()];
        if flag("already owes it", true) {
            all.push(debt(B, scaled("debtB", 5)));
        }
        p.account(&p.user, N, &normal(), &all);
        let b0 = p.positions(N, BORROW);
        let (x, cash) = (amount("x", 6), p.cash(B));
        let v = rmul(to_ray(x, 6), mul(p.m(B).price, k(p10(9))));
        let lim = p.weighted(&[dep], |q| q.ltv);
        reasons(&p.borrow(N, vec![(B, x)]), "loan of a siloed token", &[zero(x), gt(x, cash), gt(add(v, p.total(&b0)), lim)]);
    })
}
/// a strategy that keeps every rule goes through, whatever its swap leaves over
fn strategy_any(what: u8) -> Scenario {
    let name = ["multiply", "swapDebt", "swapCollateral", "repayDebtWithCollateral"][what as usize];
    Scenario::new(format!("{} within the rules", name), move || {
        let mut ms = quad();
        for m in ms.iter_mut() {
            m.cfg.flash_fee = k(0);
        }
        let dest = [A, C, C, B][what as usize];
        let from = [B, D, A, A][what as usize];
        let i = ms.iter().position(|m| m.tok == from).unwrap();
        ms[i].cash = var("cash", 0, p10(36), p10(30));
        let p = Proto::new(ms);
        for t in [A, B, C, D, JUNK] {
            set_balance(&p.c, t.as_bytes(), 0, k(0));
        }
        add_account(p.router, router_mock(), p.owner, true);
        let ray = |n: i64| k(p10(27) * n);
        let d0 = vec![deposit(A, ray(1000)), deposit(D, ray(50))];
        let b0 = vec![debt(B, ray(200)), debt(C, ray(2))];
        let mut all = d0.clone();
        all.extend(b0.clone());
        p.account(&p.user, N, &leveraged(), &all);
        let (df, dt) = (p.m(from).dec, p.m(dest).dec);
        let unit = |t: &str| if t == C { 1 } else { 20 };
        let x = var("x", 0, p10(30), p10(df) * unit(from));
        let out = var("out", 0, p10(30), p10(dt) * unit(dest));
        let back = var("unspent", 0, p10(20), p10(df - 3));
        let junk = var("junk", 0, 5, 2);
        let y = var("paid", 0, p10(30), p10(p.m(dest).dec));
        let along = what != 0 && flag("payment along", true);
        let tb = |t: &str| t.as_bytes().to_vec();
        let st = steps(&[(from, back), (dest, out), (JUNK, junk)]);
        let mut pays = vec![pay_nft(ACC, N)];
        if along {
            pays.push(pay(dest, y));
        }
        if what == 3 {
            since(&p, N);
        }
        let cash = p.cash(from);
        let got = if along { add(out, y) } else { out };
        let (d, b) = (p.positions(N, DEPOSIT), p.positions(N, BORROW));
        let more = |q: &Pos, t: &str, z: T, i: T| Pos { scaled: add(q.scaled, rdiv(to_ray(z, p.m(t).dec), i)), ..q.clone() };
        let less = |q: &Pos, t: &str, z: T, i: T| {
            let whole = from_ray(rmul(q.scaled, i), p.m(t).dec);
            Pos { scaled: ite(ge(z, whole), k(0), sub(q.scaled, rdiv(to_ray(z, p.m(t).dec), i))), ..q.clone() }
        };
        let bidx = |t: &str| p.m(t).st.bidx;
        let sidx = |t: &str| p.m(t).st.sidx;
        let at = |v: &[Pos], t: &str| v.iter().find(|q| q.asset == t.as_bytes()).unwrap().clone();
        let fresh = |q: Pos| Pos { nonce: N, ..q };
        let new = |t: &str, z: T, i: T, dep: bool| {
            let s = rdiv(to_ray(z, p.m(t).dec), i);
            fresh(if dep { deposit(t, s) } else { debt(t, s) })
        };
        let (r, want_d, want_b, paid_out) = match what {
            0 => {
                let r = p.call(&p.user, "multiply", vec![vec![], tb(A), enc_u(x), tb(B), vec![2], st], pays);
                (r, vec![more(&at(&d, A), A, got, sidx(A)), at(&d, D)], vec![more(&at(&b, B), B, x, bidx(B)), at(&b, C)], x)
            }
            1 => {
                let r = p.call(&p.user, "swapDebt", vec![tb(C), enc_u(x), tb(D), st], pays);
                (r, d.clone(), vec![at(&b, B), less(&at(&b, C), C, got, bidx(C)), new(D, x, bidx(D), false)], x)
            }
            2 => {
                let r = p.call(&p.user, "swapCollateral", vec![tb(A), enc_u(x), tb(C), st], pays);
                let sold = min(x, from_ray(rmul(at(&d, A).scaled, sidx(A)), 18));
                (r, vec![less(&at(&d, A), A, x, sidx(A)), at(&d, D), new(C, got, sidx(C), true)], b.clone(), sold)
            }
            _ => {
                let r = p.call(&p.user, "repayDebtWithCollateral", vec![tb(A), enc_u(x), tb(B), top_bool(false), st], pays);
                let sold = min(x, from_ray(rmul(at(&d, A).scaled, sidx(A)), 18));
                (r, vec![less(&at(&d, A), A, x, sidx(A)), at(&d, D)], vec![less(&at(&b, B), B, got, bidx(B)), at(&b, C)], sold)
            }
        };
        let owed = p.total(&want_b);
        let h = p.health(p.weighted(&want_d, |q| q.threshold), max(owed, k(1)));
        let mut why = vec![zero(x), zero(out), gt(paid_out, cash), and(&[gt(owed, k(0)), lt(h, add(kray(), k(p10(12))))])];
        if along {
            why.push(zero(y));
            if what == 1 || what == 3 {
                // the payment alone clears the debt: the proceeds have nothing to repay
                let q = at(&b, dest);
                why.push(ge(y, from_ray(rmul(q.scaled, bidx(dest)), dt)));
            }
        }
        reasons(&r, &format!("strategy {}", name), &why);
    })
}
const JUNK: &str = "JUNK-999999";
pub fn props() -> Vec<Prop> {
    fn scen(cfg: &Cfg) -> Vec<Scenario> {
        let mut v = vec![
            borrow_any(&[], 18, true),
            borrow_any(&[B], 6, false),
            borrow_any(&[C], 6, true),
            borrow_list(&[], &[B, B]),
            borrow_list(&[C], &[B, B]),
            borrow_list(&[C, D], &[B, B]),
            borrow_list(&[C], &[B, C]),
            withdraw_any(&[], 18),
            withdraw_any(&[], 6),
            withdraw_any(&[B], 18),
            withdraw_all(),
            supply_any(true, 18, true),
            supply_any(false, 6, false),
            repay_any(true, true),
            repay_any(false, false),
            repay_many(),
            emode_any(),
            flash_any(6),
            iso_any(),
            silo_any(),
            strategy_any(0),
            strategy_any(1),
            strategy_any(2),
            strategy_any(3),
        ];
        if cfg.thorough {
            v.push(borrow_any(&[B, C], 18, true));
            v.push(borrow_list(&[B, C], &[D, B, D]));
            v.push(borrow_list(&[D], &[B, C, B]));
            v.push(withdraw_any(&[B], 6));
            v.push(supply_any(false, 18, true));
            v.push(flash_any(18));
        }
        v
    }
    vec![Prop {
        id: "C45",
        scen,
        reach: &[
            "everything switched off", "category deprecated", "loan", "loan refused", "several loans", "several loans refused", "withdrawal without debt", "withdrawal without debt refused",
            "withdrawal with debt", "withdrawal with debt refused", "withdrawal of everything", "deposit", "deposit refused",
            "deposit for another account", "repayment", "repayment refused", "several repayments", "e-mode deposit", "e-mode loan",
            "e-mode loan refused", "flash loan", "flash loan refused", "isolated deposit", "isolated loan", "isolated loan refused",
            "loan of a siloed token", "loan of a siloed token refused",
            "strategy multiply", "strategy multiply refused", "strategy swapDebt", "strategy swapDebt refused", "strategy swapCollateral",
            "strategy swapCollateral refused", "strategy repayDebtWithCollateral", "strategy repayDebtWithCollateral refused",
        ],
        bounds: "one operation, or one call with up to three payments or loans, on accounts with up to one deposit and three debts (or three deposits); prices, indexes, positions, cash, caps, LTV, thresholds, fees and amounts symbolic up to 1e30/1e40/1e36 in the single-operation scenarios, indexes and prices fixed in the others; each strategy on an account with two deposits and two debts, loan, proceeds, leftovers in two tokens, payment along and cash symbolic; withdrawals, repayments and repayment with collateral also after every market was switched off, siloed, isolated and capped at one unit, the position limits set to zero, or the account's category deprecated",
        assumptions: &[],
    }]
}
