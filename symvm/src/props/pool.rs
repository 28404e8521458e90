//! The liquidity pool: deposits, withdrawals, debt, fees, losses, revenue, access.
use super::rates::{spec_accrue, sym_params};
use super::{Cfg, Prop};
use crate::engine::*;
use crate::env::*;
use crate::term::*;
use crate::vm::*;
use std::rc::Rc;

pub const TOK: &str = "TOKEN-123456";
pub const OTHER: &str = "OTHER-abcdef";

/// any pool state (no time passed since the last accrual): totals up to 1e40 scaled units,
/// borrow index 1..1000, supply index 0.001..1000 (deposits may have taken losses)
pub fn any_state() -> PState {
    let st = PState {
        supplied: var("S", 0, p10(40), p10(30)),
        borrowed: var("B", 0, p10(40), p10(29) * 5),
        revenue: var("R", 0, p10(40), p10(27)),
        bidx: var("bidx", p10(27), p10(30), frac_ray(12, 10)),
        sidx: var("sidx", p10(24), p10(30), frac_ray(11, 10)),
        last: T0,
    };
    assume(le(st.revenue, st.supplied));
    st
}
pub struct Setup {
    pub p: Pool,
    pub st: PState,
    pub cash: T,
    pub pos: Pos,
    pub user: Addr,
    pub params: Params,
}
/// pool in any state, with one account's position in it (`ptype`)
pub fn setup(dec_: u32, ptype: u8) -> Setup {
    let params = std_params(dec_);
    let p = Pool::deploy(TOK, &params);
    let st = any_state();
    p.set(&st);
    let cash = var("cash", 0, p10(36), p10(dec_) * 1000);
    p.set_bal(cash);
    let x = var("pos", 0, p10(40), p10(27) * 7);
    let mut pos = Pos::new(ptype, TOK, x);
    pos.nonce = 7;
    pos.threshold = k(8100);
    pos.ltv = k(7300);
    if ptype == DEPOSIT {
        assume(le(add(x, st.revenue), st.supplied));
    } else {
        assume(le(x, st.borrowed));
    }
    let user = user_addr("alice");
    add_account(user, Kind::User, [0; 32], false);
    Setup { p, st, cash, pos, user, params }
}
/// half-up share of `amount` at `idx`
pub fn shares(a: T, d: u32, idx: T) -> T {
    rdiv(to_ray(a, d), idx)
}
pub fn value(s: T, idx: T, d: u32) -> T {
    from_ray(rmul(s, idx), d)
}
/// the share count is the amount at the index, rounded to nearest
fn fair_shares(n: &str, sh: T, a: T, d: u32, idx: T) {
    check(n, le(mul(k(2), abs_diff(mul(sh, idx), mul(to_ray(a, d), kray()))), idx));
}
fn same_terms(n: &str, a: &Pos, b: &Pos) {
    checkb(n, a.ptype == b.ptype && a.asset == b.asset && a.nonce == b.nonce);
    check(n, and(&[eq(a.threshold, b.threshold), eq(a.bonus, b.bonus), eq(a.fees, b.fees), eq(a.ltv, b.ltv)]));
}
fn idx_same(a: &PState, b: &PState) {
    check("indexes unchanged when no time passes", and(&[eq(a.bidx, b.bidx), eq(a.sidx, b.sidx)]));
}
/// value held for suppliers is covered by cash + debt: the operation moved both sides equally,
/// up to `units` raw token units
fn balance_sheet(s: &Setup, a: &PState, b: &PState, cash0: T, cash1: T, units: i64) {
    let d = s.params.dec;
    let side = |st: &PState, c: T| sub(add(mul(to_ray(c, d), kray()), mul(st.borrowed, st.bidx)), mul(st.supplied, st.sidx));
    let tol = k(p10(27 - d) * p10(27) * units);
    check("no value appears or disappears", le(abs_diff(side(a, cash0), side(b, cash1)), tol));
}

// ------------------------------------------------------------------ C06
pub fn supply(d: u32) -> Scenario {
    Scenario::new(format!("supply dec={}", d), move || {
        let s = setup(d, DEPOSIT);
        let a = var("amount", 1, p10(36), p10(d) * 3);
        let r = s.p.supply(&s.pos, a);
        checkb("supply always accepted", r.ok());
        if !r.ok() {
            return;
        }
        let q = Pos::parse(&r.out()[0]);
        let n = s.p.state();
        observe_state("n", &n);
        observe("pos", q.scaled);
        same_terms("position terms unchanged", &q, &s.pos);
        idx_same(&n, &s.st);
        check("pool receives exactly the payment", eq(s.p.bal(), add(s.cash, a)));
        let credit = sub(q.scaled, s.pos.scaled);
        check("total and position are credited alike", eq(sub(n.supplied, s.st.supplied), credit));
        fair_shares("credit is the payment at the current index", credit, a, d, s.st.sidx);
        check("debt and revenue untouched", and(&[eq(n.borrowed, s.st.borrowed), eq(n.revenue, s.st.revenue)]));
        balance_sheet(&s, &s.st, &n, s.cash, s.p.bal(), 1);
        reach("supplied");
    })
}
pub fn withdraw(d: u32) -> Scenario {
    Scenario::new(format!("withdraw dec={}", d), move || {
        let s = setup(d, DEPOSIT);
        let a = var("amount", 0, p10(36), p10(d) * 3);
        let v = value(s.pos.scaled, s.st.sidx, d);
        let pay_ = min(a, v);
        let r = s.p.withdraw(&s.user, a, &s.pos, false, None);
        match r {
            TxRes::Ok(o) => {
                let q = Pos::parse(&o[0]);
                let n = s.p.state();
                observe_state("n", &n);
                let got = s.p.user_bal(&s.user);
                observe("got", got);
                same_terms("position terms unchanged", &q, &s.pos);
                idx_same(&n, &s.st);
                check("pays the smaller of the request and the position's value", eq(got, pay_));
                check("paid from the pool's cash", eq(s.p.bal(), sub(s.cash, got)));
                let burn = sub(s.pos.scaled, q.scaled);
                check("total and position are debited alike", eq(sub(s.st.supplied, n.supplied), burn));
                check("debt and revenue untouched", and(&[eq(n.borrowed, s.st.borrowed), eq(n.revenue, s.st.revenue)]));
                check("nothing was overdrawn", and(&[ge(q.scaled, k(0)), ge(n.supplied, n.revenue), ge(s.p.bal(), k(0))]));
                if fork(ge(a, v)) {
                    check("asking for everything closes the position", eq(q.scaled, k(0)));
                    reach("full withdrawal");
                } else {
                    fair_shares("debit is the payment at the current index", burn, a, d, s.st.sidx);
                    reach("partial withdrawal");
                }
                balance_sheet(&s, &s.st, &n, s.cash, s.p.bal(), 1);
            }
            TxRes::Err(_) => {
                check("refused only for lack of cash", lt(s.cash, pay_));
                check("a refused withdrawal pays nothing", eq(s.p.user_bal(&s.user), k(0)));
                reach("illiquid");
            }
        }
    })
}
pub fn round_trip(dec_: u32) -> Scenario {
    Scenario::new(format!("supply then withdraw all dec={}", dec_), move || {
        let s = setup(dec_, DEPOSIT);
        let a = var("amount", 1, p10(36), p10(19));
        let pos = Pos::new(DEPOSIT, TOK, k(0));
        let r = s.p.supply(&pos, a);
        if !r.ok() {
            fail("supply always accepted");
            return;
        }
        let pos = Pos::parse(&r.out()[0]);
        let r = s.p.withdraw(&s.user, k(p10(40)), &pos, false, None);
        checkb("an immediate withdrawal is always possible", r.ok());
        if !r.ok() {
            return;
        }
        let pos2 = Pos::parse(&r.out()[0]);
        check("position empty", eq(pos2.scaled, k(0)));
        check("round trip gives back exactly the deposit", eq(s.p.user_bal(&s.user), a));
        check("totals restored", eq(s.p.state().supplied, s.st.supplied));
        reach("round trip");
    })
}
/// two partial withdrawals never pay more than one
fn split_withdraw(dec_: u32) -> Scenario {
    Scenario::new(format!("split withdrawal dec={}", dec_), move || {
        let s = setup(dec_, DEPOSIT);
        let a = var("a1", 0, p10(36), p10(dec_));
        let b = var("a2", 0, p10(36), p10(dec_) * 2);
        let v = value(s.pos.scaled, s.st.sidx, dec_);
        let r = s.p.withdraw(&s.user, a, &s.pos, false, None);
        if !r.ok() {
            return;
        }
        let q = Pos::parse(&r.out()[0]);
        let r = s.p.withdraw(&s.user, b, &q, false, None);
        if !r.ok() {
            return;
        }
        check("two withdrawals pay at most the position's value plus one unit", le(s.p.user_bal(&s.user), add(v, k(1))));
        reach("two withdrawals");
    })
}

// ------------------------------------------------------------------ C07
pub fn borrow(d: u32) -> Scenario {
    Scenario::new(format!("borrow dec={}", d), move || {
        let s = setup(d, BORROW);
        let a = var("amount", 0, p10(36), p10(d) * 3);
        let r = s.p.borrow(&s.user, a, &s.pos);
        match r {
            TxRes::Ok(o) => {
                let q = Pos::parse(&o[0]);
                let n = s.p.state();
                observe_state("n", &n);
                same_terms("position terms unchanged", &q, &s.pos);
                idx_same(&n, &s.st);
                check("the borrower receives exactly the amount", eq(s.p.user_bal(&s.user), a));
                check("paid from the pool's cash", eq(s.p.bal(), sub(s.cash, a)));
                check("cash sufficed", ge(s.cash, a));
                let debt = sub(q.scaled, s.pos.scaled);
                check("total and position owe the same more", eq(sub(n.borrowed, s.st.borrowed), debt));
                fair_shares("debt is the amount at the current index", debt, a, d, s.st.bidx);
                check("supply and revenue untouched", and(&[eq(n.supplied, s.st.supplied), eq(n.revenue, s.st.revenue)]));
                balance_sheet(&s, &s.st, &n, s.cash, s.p.bal(), 1);
                reach("borrowed");
            }
            TxRes::Err(_) => {
                check("refused only for lack of cash", lt(s.cash, a));
                reach("illiquid");
            }
        }
    })
}
pub fn repay(d: u32) -> Scenario {
    Scenario::new(format!("repay dec={}", d), move || {
        let s = setup(d, BORROW);
        let a = var("amount", 1, p10(36), p10(d) * 3);
        let owed = value(s.pos.scaled, s.st.bidx, d);
        let r = s.p.repay(&s.user, &s.pos, a);
        checkb("repayment always accepted", r.ok());
        if !r.ok() {
            return;
        }
        let q = Pos::parse(&r.out()[0]);
        let n = s.p.state();
        observe_state("n", &n);
        let back = s.p.user_bal(&s.user);
        same_terms("position terms unchanged", &q, &s.pos);
        idx_same(&n, &s.st);
        check("excess over the debt is refunded exactly", eq(back, max(sub(a, owed), k(0))));
        check("the rest stays in the pool", eq(s.p.bal(), sub(add(s.cash, a), back)));
        let cut = sub(s.pos.scaled, q.scaled);
        check("total and position fall alike", eq(sub(s.st.borrowed, n.borrowed), cut));
        check("debt does not go negative", and(&[ge(q.scaled, k(0)), ge(n.borrowed, k(0))]));
        check("supply and revenue untouched", and(&[eq(n.supplied, s.st.supplied), eq(n.revenue, s.st.revenue)]));
        if fork(ge(a, owed)) {
            check("paying the debt clears it", eq(q.scaled, k(0)));
            reach("repaid in full");
        } else {
            fair_shares("debt falls by the payment at the current index", cut, a, d, s.st.bidx);
            reach("repaid in part");
        }
        balance_sheet(&s, &s.st, &n, s.cash, s.p.bal(), 1);
    })
}
fn borrow_repay(d: u32) -> Scenario {
    Scenario::new(format!("borrow then repay dec={}", d), move || {
        let s = setup(d, BORROW);
        let a = var("amount", 1, p10(36), p10(d) * 3);
        assume(ge(s.cash, a));
        let pos = Pos::new(BORROW, TOK, k(0));
        let r = s.p.borrow(&s.user, a, &pos);
        if !r.ok() {
            fail("borrow accepted");
            return;
        }
        let q = Pos::parse(&r.out()[0]);
        let r = s.p.repay(&s.user, &q, a);
        checkb("repayment always accepted", r.ok());
        if !r.ok() {
            return;
        }
        let q = Pos::parse(&r.out()[0]);
        check("repaying the same amount at once clears the debt", eq(q.scaled, k(0)));
        check("nothing is refunded", eq(s.p.user_bal(&s.user), a));
        check("totals restored", eq(s.p.state().borrowed, s.st.borrowed));
        reach("round trip");
    })
}

// ------------------------------------------------------------------ C08 liquidation fee
pub fn liq_withdraw(d: u32, with_fee: bool) -> Scenario {
    Scenario::new(format!("liquidation withdrawal dec={} fee={}", d, with_fee), move || {
        let s = setup(d, DEPOSIT);
        let a = var("amount", 0, p10(36), p10(d) * 3);
        let fee = if with_fee { var("fee", 0, p10(36), p10(d) / 10) } else { k(0) };
        let v = value(s.pos.scaled, s.st.sidx, d);
        let gross = min(a, v);
        let r = s.p.withdraw(&s.user, a, &s.pos, true, if with_fee { Some(fee) } else { None });
        match r {
            TxRes::Ok(o) => {
                let q = Pos::parse(&o[0]);
                let n = s.p.state();
                observe_state("n", &n);
                let got = s.p.user_bal(&s.user);
                check("the fee never exceeds the seized amount", le(fee, gross));
                check("liquidator receives the seized amount minus the fee", eq(got, sub(gross, fee)));
                check("paid from the pool's cash", eq(s.p.bal(), sub(s.cash, got)));
                let fs = sub(n.revenue, s.st.revenue);
                fair_shares("the fee becomes protocol revenue", fs, fee, d, s.st.sidx);
                let burn = sub(s.pos.scaled, q.scaled);
                check("supply falls by the seized shares and rises by the fee shares", eq(n.supplied, add(sub(s.st.supplied, burn), fs)));
                check("debt untouched", eq(n.borrowed, s.st.borrowed));
                check("nothing was overdrawn", and(&[ge(q.scaled, k(0)), ge(n.supplied, n.revenue)]));
                if fork(ge(a, v)) {
                    check("seizing everything closes the position", eq(q.scaled, k(0)));
                } else {
                    fair_shares("shares seized match the amount", burn, a, d, s.st.sidx);
                }
                balance_sheet(&s, &s.st, &n, s.cash, s.p.bal(), 2);
                reach("seized");
                if with_fee && fork(gt(fee, k(0))) {
                    reach("seized with fee");
                }
            }
            TxRes::Err(_) => {
                check("refused only for lack of cash or an excessive fee", or(&[gt(fee, gross), lt(s.cash, sub(gross, fee))]));
                reach("refused");
            }
        }
    })
}
fn plain_withdraw_ignores_fee(d: u32) -> Scenario {
    Scenario::new(format!("fee argument outside liquidation dec={}", d), move || {
        let s = setup(d, DEPOSIT);
        let a = var("amount", 0, p10(36), p10(d) * 3);
        let fee = var("fee", 0, p10(36), p10(d) / 10);
        let v = value(s.pos.scaled, s.st.sidx, d);
        let r = s.p.withdraw(&s.user, a, &s.pos, false, Some(fee));
        if r.ok() {
            check("no fee outside liquidations", eq(s.p.user_bal(&s.user), min(a, v)));
            check("no revenue outside liquidations", eq(s.p.state().revenue, s.st.revenue));
            reach("no fee");
        }
    })
}

// ------------------------------------------------------------------ C09 flash loans (pool)
#[derive(Clone, Copy, PartialEq)]
pub enum Flash {
    Pay,
    Nothing,
    WrongToken,
    Two,
    Reenter,
}
pub fn flash(d: u32, mode: Flash) -> Scenario {
    Scenario::new(
        format!(
            "flash loan dec={} borrower {}",
            d,
            match mode {
                Flash::Pay => "pays back any amount",
                Flash::Nothing => "pays nothing",
                Flash::WrongToken => "pays another token",
                Flash::Two => "pays twice",
                Flash::Reenter => "re-enters",
            }
        ),
        move || {
            let s = setup(d, DEPOSIT);
            let a = var("amount", 0, p10(36), p10(d) * 100);
            let feebps = var("fee", 0, 10000, 50);
            let back = var("back", 0, p10(37), p10(d) * 101);
            let bot = sc_addr("bot");
            let seen: Rc<std::cell::RefCell<Vec<T>>> = Default::default();
            let seen2 = seen.clone();
            let (pool, token, owner) = (s.p.addr, s.p.token.clone(), s.p.owner);
            add_account(
                bot,
                Kind::Mock(Rc::new(move |c: &Call| {
                    for p in c.pays {
                        seen2.borrow_mut().push(p.amount);
                    }
                    match mode {
                        Flash::Pay => transfer(&c.me, &c.caller, &pay(&token, back)),
                        Flash::Nothing => {}
                        Flash::WrongToken => transfer(&c.me, &c.caller, &pay(OTHER, back)),
                        Flash::Two => {
                            transfer(&c.me, &c.caller, &pay(&token, back));
                            transfer(&c.me, &c.caller, &pay(&token, back));
                        }
                        Flash::Reenter => {
                            // the pool's owner-only entry points stay closed to the borrower
                            for f in ["updateIndexes", "claimRevenue"] {
                                let _ = owner;
                                call(&c.me, &pool, vec![], f, vec![dec(kwad(), 18)], false);
                            }
                            transfer(&c.me, &c.caller, &pay(&token, back));
                        }
                    }
                    vec![]
                })),
                user_addr("evil"),
                true,
            );
            let r = s.p.call(
                "flashLoan",
                vec![TOK.as_bytes().to_vec(), s.p.d(a), bot.to_vec(), b"run".to_vec(), vec![0, 0, 0, 0], dec(feebps, 4), s.p.price()],
                vec![],
            );
            // required: amount * (1 + fee) rounded half up to token units
            let req = from_ray(rmul(to_ray(a, d), mul(add(k(10000), feebps), k(p10(23)))), d);
            match r {
                TxRes::Ok(_) => {
                    let n = s.p.state();
                    observe_state("n", &n);
                    checkb("succeeds only with a single repayment in the borrowed token", mode == Flash::Pay);
                    check("repaid at least the loan plus the fee", ge(back, req));
                    check("fee is never negative", ge(back, a));
                    check("the pool gained what came back beyond the loan", eq(s.p.bal(), sub(add(s.cash, back), a)));
                    let fs = sub(n.revenue, s.st.revenue);
                    fair_shares("everything beyond the loan becomes protocol revenue", fs, sub(back, a), d, s.st.sidx);
                    check("revenue is backed by supply", eq(sub(n.supplied, s.st.supplied), fs));
                    check("debt untouched", eq(n.borrowed, s.st.borrowed));
                    idx_same(&n, &s.st);
                    let v = seen.borrow();
                    check("the borrower received the loan", if v.len() == 1 { eq(v[0], a) } else { eq(a, k(0)) });
                    balance_sheet(&s, &s.st, &n, s.cash, s.p.bal(), 1);
                    reach("flash loan repaid");
                }
                TxRes::Err(_) => {
                    if mode == Flash::Pay {
                        check("refused only for lack of cash or insufficient repayment", or(&[gt(a, s.cash), lt(back, req), eq(back, k(0))]));
                    }
                    check("a failed flash loan changes nothing", eq(s.p.bal(), s.cash));
                    reach("flash loan refused");
                }
            }
        },
    )
}

// ------------------------------------------------------------------ C10 strategy
pub fn strategy(d: u32) -> Scenario {
    Scenario::new(format!("create strategy dec={}", d), move || {
        let s = setup(d, BORROW);
        let a = var("amount", 0, p10(36), p10(d) * 30);
        let fee = var("fee", 0, p10(36), p10(d) / 10);
        let before = s.p.user_bal(&s.p.owner);
        w(|w| w.accts.get_mut(&s.p.owner).unwrap().unlimited = false);
        let r = s.p.call("createStrategy", vec![s.pos.enc(), s.p.d(a), s.p.d(fee), s.p.price()], vec![]);
        match r {
            TxRes::Ok(o) => {
                let q = Pos::parse(&o[0]);
                let n = s.p.state();
                observe_state("n", &n);
                let got = sub(s.p.user_bal(&s.p.owner), before);
                check("fee within the amount", le(fee, a));
                check("the caller receives the amount minus the fee", eq(got, sub(a, fee)));
                check("paid from the pool's cash", eq(s.p.bal(), sub(s.cash, got)));
                check("cash sufficed for the whole amount", ge(s.cash, a));
                let debt = sub(q.scaled, s.pos.scaled);
                check("total and position owe the same more", eq(sub(n.borrowed, s.st.borrowed), debt));
                fair_shares("the whole amount is owed", debt, a, d, s.st.bidx);
                let fs = sub(n.revenue, s.st.revenue);
                fair_shares("the fee becomes protocol revenue", fs, fee, d, s.st.sidx);
                check("revenue is backed by supply", eq(sub(n.supplied, s.st.supplied), fs));
                same_terms("position terms unchanged", &q, &s.pos);
                idx_same(&n, &s.st);
                balance_sheet(&s, &s.st, &n, s.cash, s.p.bal(), 2);
                reach("strategy created");
            }
            TxRes::Err(_) => {
                check("refused only for lack of cash or an excessive fee", or(&[gt(a, s.cash), gt(fee, a)]));
                reach("strategy refused");
            }
        }
    })
}

// ------------------------------------------------------------------ C11 losses
fn bad_debt(d: u32) -> Scenario {
    Scenario::new(format!("bad debt dec={}", d), move || {
        let s = setup(d, BORROW);
        let r = s.p.call("seizePosition", vec![s.pos.enc(), s.p.price()], vec![]);
        checkb("bad debt can always be written off", r.ok());
        if !r.ok() {
            return;
        }
        let q = Pos::parse(&r.out()[0]);
        let n = s.p.state();
        observe_state("n", &n);
        same_terms("position terms unchanged", &q, &s.pos);
        check("the debt is gone", eq(q.scaled, k(0)));
        check("total debt falls by the position", eq(n.borrowed, sub(s.st.borrowed, s.pos.scaled)));
        check("shares and revenue untouched", and(&[eq(n.supplied, s.st.supplied), eq(n.revenue, s.st.revenue)]));
        check("no tokens move", eq(s.p.bal(), s.cash));
        check("supply index never rises", le(n.sidx, max(s.st.sidx, k(1))));
        check("supply index stays positive", ge(n.sidx, k(1)));
        check("borrow index unchanged", eq(n.bidx, s.st.bidx));
        let debt = rmul(s.pos.scaled, s.st.bidx);
        let total = rmul(s.st.supplied, s.st.sidx);
        // index' = index * (1 - debt / total), never below one
        let loss = min(debt, total);
        if fork(gt(total, k(0))) {
            let keep = rdiv(sub(total, loss), total);
            check("every deposit loses the same fraction", eq(n.sidx, max(rmul(s.st.sidx, keep), k(1))));
            reach("written off");
            if fork(ge(debt, total)) {
                check("a loss beyond the deposits leaves only the floor", eq(n.sidx, k(1)));
                reach("wiped out");
            }
        } else {
            check("nothing to lose", le(n.sidx, s.st.sidx));
            reach("no deposits");
        }
    })
}
/// value version, on the code's own reduction
fn bad_debt_value(d: u32) -> Scenario {
    Scenario::new(format!("bad debt value dec={}", d), move || {
        let s = setup(d, BORROW);
        assume(ge(s.st.supplied, k(p10(27))));
        let r = s.p.call("seizePosition", vec![s.pos.enc(), s.p.price()], vec![]);
        if !r.ok() {
            fail("bad debt can always be written off");
            return;
        }
        let n = s.p.state();
        let debt = rmul(s.pos.scaled, s.st.bidx);
        let total = rmul(s.st.supplied, s.st.sidx);
        let lost = mul(s.st.supplied, sub(s.st.sidx, n.sidx)); // x RAY
        let loss = mul(min(debt, total), kray());
        let tol = add(mul(s.st.supplied, k(2)), add(mul(total, k(2)), kray()));
        check("suppliers together lose the bad debt, no more", le(lost, add(loss, tol)));
        check("suppliers together lose the bad debt, no less", ge(lost, sub(loss, tol)));
        reach("loss measured");
    })
}
pub fn dust(d: u32) -> Scenario {
    Scenario::new(format!("seize dust deposit dec={}", d), move || {
        let s = setup(d, DEPOSIT);
        let r = s.p.call("seizePosition", vec![s.pos.enc(), s.p.price()], vec![]);
        checkb("dust can always be seized", r.ok());
        if !r.ok() {
            return;
        }
        let q = Pos::parse(&r.out()[0]);
        let n = s.p.state();
        observe_state("n", &n);
        check("the deposit is gone", eq(q.scaled, k(0)));
        check("its shares become revenue", eq(n.revenue, add(s.st.revenue, s.pos.scaled)));
        check("total supply unchanged", eq(n.supplied, s.st.supplied));
        check("revenue stays within supply", le(n.revenue, n.supplied));
        idx_same(&n, &s.st);
        check("debt untouched", eq(n.borrowed, s.st.borrowed));
        check("no tokens move", eq(s.p.bal(), s.cash));
        reach("dust seized");
    })
}

// ------------------------------------------------------------------ C12 revenue
pub fn claim(d: u32) -> Scenario {
    Scenario::new(format!("claim revenue dec={}", d), move || {
        let s = setup(d, DEPOSIT);
        w(|w| w.accts.get_mut(&s.p.owner).unwrap().unlimited = false);
        let r = s.p.call("claimRevenue", vec![s.p.price()], vec![]);
        checkb("claiming never fails", r.ok());
        if !r.ok() {
            return;
        }
        let n = s.p.state();
        observe_state("n", &n);
        let got = s.p.user_bal(&s.p.owner);
        let treasury = value(s.st.revenue, s.st.sidx, d);
        check("pays the revenue's value, limited by the cash", eq(got, min(treasury, s.cash)));
        check("paid from the pool's cash", eq(s.p.bal(), sub(s.cash, got)));
        let out = Rd(&r.out()[0]).payment();
        check("reports what it paid", eq(out.amount, got));
        checkb("reports the pool's token", out.token == TOK.as_bytes());
        let burn = sub(s.st.revenue, n.revenue);
        check("supply falls with the revenue", eq(sub(s.st.supplied, n.supplied), burn));
        check("revenue stays between zero and supply", and(&[ge(n.revenue, k(0)), le(n.revenue, n.supplied), ge(burn, k(0))]));
        check("debt untouched", eq(n.borrowed, s.st.borrowed));
        idx_same(&n, &s.st);
        if fork(ge(s.cash, treasury)) {
            if fork(gt(treasury, k(0))) {
                check("a full claim leaves no revenue", eq(n.revenue, k(0)));
                reach("claimed in full");
            }
        } else {
            // burned shares are worth what was paid, to the ratio's precision
            let tol = add(mul(s.st.revenue, k(4)), mul(k(4), add(s.st.sidx, kray())));
            let lhs = mul(mul(burn, treasury), k(2));
            let rhs = mul(mul(s.st.revenue, got), k(2));
            let _ = (tol, lhs, rhs);
            check("burned shares are proportional to the payment", le(abs_diff(mul(burn, treasury), mul(s.st.revenue, got)), mul(treasury, add(k(2), div(s.st.revenue, k(p10(27)))))));
            reach("claimed in part");
        }
    })
}
pub fn rewards(d: u32) -> Scenario {
    Scenario::new(format!("add rewards dec={}", d), move || {
        let s = setup(d, DEPOSIT);
        let a = var("amount", 1, p10(36), p10(d) * 3);
        let r = s.p.call("addRewards", vec![s.p.price()], vec![pay(TOK, a)]);
        checkb("rewards always accepted", r.ok());
        if !r.ok() {
            return;
        }
        let n = s.p.state();
        observe_state("n", &n);
        check("pool receives exactly the payment", eq(s.p.bal(), add(s.cash, a)));
        check("only the supply index moves", and(&[eq(n.supplied, s.st.supplied), eq(n.borrowed, s.st.borrowed), eq(n.revenue, s.st.revenue), eq(n.bidx, s.st.bidx)]));
        check("supply index never falls", ge(n.sidx, s.st.sidx));
        let total = rmul(s.st.supplied, s.st.sidx);
        if fork(gt(total, k(0))) {
            let q = rdiv(to_ray(a, d), total);
            check("every deposit gains the same fraction", le(abs_diff(n.sidx, rmul(s.st.sidx, add(kray(), q))), k(1)));
            reach("rewards shared");
        } else {
            check("no deposits: unchanged", eq(n.sidx, s.st.sidx));
        }
    })
}

// ------------------------------------------------------------------ C13 accrue first
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Supply,
    Borrow,
    Withdraw,
    LiqWithdraw,
    Repay,
    AddRewards,
    Flash,
    Strategy,
    SeizeBorrow,
    SeizeDeposit,
    Claim,
    Params,
}
pub const OPS: [Op; 12] = [
    Op::Supply,
    Op::Borrow,
    Op::Withdraw,
    Op::LiqWithdraw,
    Op::Repay,
    Op::AddRewards,
    Op::Flash,
    Op::Strategy,
    Op::SeizeBorrow,
    Op::SeizeDeposit,
    Op::Claim,
    Op::Params,
];
fn run_op(op: Op, s: &Setup, a: T, fee: T, wrong: bool) -> TxRes {
    let mut pos = s.pos.clone();
    let tk = if wrong { OTHER } else { TOK };
    if wrong {
        pos.asset = OTHER.as_bytes().to_vec();
    }
    let p = &s.p;
    match op {
        Op::Supply => p.call("supply", vec![s.pos.enc(), p.price()], vec![pay(tk, a)]),
        Op::Borrow => p.borrow(&s.user, a, &pos),
        Op::Withdraw => p.withdraw(&s.user, a, &pos, false, None),
        Op::LiqWithdraw => p.withdraw(&s.user, a, &pos, true, Some(fee)),
        Op::Repay => p.call("repay", vec![s.user.to_vec(), s.pos.enc(), p.price()], vec![pay(tk, a)]),
        Op::AddRewards => p.call("addRewards", vec![p.price()], vec![pay(tk, a)]),
        Op::Flash => p.call(
            "flashLoan",
            vec![tk.as_bytes().to_vec(), p.d(a), sc_addr("bot").to_vec(), b"run".to_vec(), vec![0, 0, 0, 0], dec(k(100), 4), p.price()],
            vec![],
        ),
        Op::Strategy => p.call("createStrategy", vec![pos.enc(), p.d(a), p.d(fee), p.price()], vec![]),
        Op::SeizeBorrow | Op::SeizeDeposit => p.call("seizePosition", vec![pos.enc(), p.price()], vec![]),
        Op::Claim => p.call("claimRevenue", vec![p.price()], vec![]),
        Op::Params => {
            let mut q = s.params.clone();
            q.s1 = k(frac_ray(7, 100));
            q.base = k(frac_ray(2, 100));
            q.rf = k(1000);
            p.call("updateParams", q.update_args(), vec![])
        }
    }
}
fn op_ptype(op: Op) -> u8 {
    match op {
        Op::Borrow | Op::Repay | Op::Strategy | Op::SeizeBorrow => BORROW,
        _ => DEPOSIT,
    }
}
fn flash_bot(back: T) {
    add_account(
        sc_addr("bot"),
        Kind::Mock(Rc::new(move |c: &Call| {
            transfer(&c.me, &c.caller, &pay(TOK, back));
            vec![]
        })),
        user_addr("evil"),
        true,
    );
}
/// elapsed time + operation == accrual, then the operation at the same instant
fn accrue_first(op: Op, conc: Option<u64>) -> Scenario {
    Scenario::new(format!("accrue first: {:?} {}", op, conc.map_or("any time".into(), |d| format!("{} ms", d))), move || {
        feas_budget(60);
        let s = setup(18, op_ptype(op));
        let a = var("amount", 1, p10(36), p10(18) * 3);
        let fee = var("fee", 0, p10(36), p10(17));
        flash_bot(var("back", 1, p10(37), p10(19)));
        let d = match conc {
            Some(c) => k(c),
            None => var("delta", 1, 100_000_000_000u64, 86_400_000),
        };
        sym_time(T0, d);
        let snap = w(|w| w.clone());
        let r1 = s.p.call("updateIndexes", vec![s.p.price()], vec![]);
        checkb("accrual never fails", r1.ok());
        let r1 = run_op(op, &s, a, fee, false);
        let n1 = s.p.state();
        let (b1, u1) = (s.p.bal(), s.p.user_bal(&s.user));
        let par1 = storage_get(&s.p.addr, b"params");
        w(|w| *w = snap);
        let r2 = run_op(op, &s, a, fee, false);
        let n2 = s.p.state();
        let (b2, u2) = (s.p.bal(), s.p.user_bal(&s.user));
        let par2 = storage_get(&s.p.addr, b"params");
        checkb("same acceptance as after an explicit accrual", r1.ok() == r2.ok());
        if r1.ok() && r2.ok() {
            observe_state("n2", &n2);
            check("same state as after an explicit accrual", and(&[
                eq(n1.supplied, n2.supplied), eq(n1.borrowed, n2.borrowed), eq(n1.revenue, n2.revenue), eq(n1.bidx, n2.bidx), eq(n1.sidx, n2.sidx),
            ]));
            checkb("accrual time recorded", n2.last == w(|w| w.now_ms) && n1.last == n2.last);
            check("same payments as after an explicit accrual", and(&[eq(b1, b2), eq(u1, u2)]));
            if r1.out().len() == 1 && op_ptype(op) != 0 && !matches!(op, Op::Claim | Op::Params) && !r1.out()[0].is_empty() {
                check("same position", eq(Pos::parse(&r1.out()[0]).scaled, Pos::parse(&r2.out()[0]).scaled));
            }
            checkb("same parameters", par1 == par2);
            reach("accrued first");
        }
    })
}
/// parameters: interest up to the change is charged at the old rates
fn params_sync() -> Scenario {
    Scenario::new("parameter change accrues at the old rates", || {
        let s = setup(18, DEPOSIT);
        let d = var("delta", 1, 100_000_000_000u64, 86_400_000);
        sym_time(T0, d);
        let q = sym_params(18);
        let r = s.p.call("updateParams", q.update_args(), vec![]);
        checkb("valid parameters are accepted", r.ok());
        if !r.ok() {
            return;
        }
        let n = s.p.state();
        let e = spec_accrue(&s.st, &s.params, d);
        check("interest so far uses the old parameters", and(&[eq(n.bidx, e.bidx), eq(n.sidx, e.sidx), eq(n.revenue, e.revenue), eq(n.supplied, e.supplied)]));
        let g = Params::parse(&storage_get(&s.p.addr, b"params"));
        check("new parameters are stored", and(&g.list().iter().zip(q.list()).map(|(x, y)| eq(*x, y)).collect::<Vec<_>>()));
        checkb("decimals unchanged", g.dec == s.params.dec);
        reach("parameters changed");
    })
}

// ------------------------------------------------------------------ C14 ledger induction
pub fn ledger(op: Op, d: u32) -> Scenario {
    Scenario::new(format!("ledger: {:?} dec={}", op, d), move || {
        let s = setup(d, op_ptype(op));
        let a = var("amount", 1, p10(36), p10(d) * 3);
        let fee = var("fee", 0, p10(36), p10(d) / 10);
        let back = var("back", 1, p10(37), p10(d) * 10);
        flash_bot(back);
        w(|w| w.accts.get_mut(&s.p.owner).unwrap().unlimited = matches!(op, Op::Supply | Op::Repay | Op::AddRewards));
        let r = run_op(op, &s, a, fee, false);
        if !r.ok() {
            check("a refused operation changes nothing", and(&[
                eq(s.p.bal(), s.cash), eq(s.p.state().supplied, s.st.supplied), eq(s.p.state().borrowed, s.st.borrowed),
                eq(s.p.state().revenue, s.st.revenue), eq(s.p.state().sidx, s.st.sidx), eq(s.p.state().bidx, s.st.bidx),
            ]));
            return;
        }
        let n = s.p.state();
        observe_state("n", &n);
        let has_pos = !matches!(op, Op::AddRewards | Op::Flash | Op::Claim | Op::Params);
        let dp = if has_pos { sub(Pos::parse(&r.out()[0]).scaled, s.pos.scaled) } else { k(0) };
        let (dd, db) = if op_ptype(op) == DEPOSIT { (dp, k(0)) } else { (k(0), dp) };
        check("total supply = deposits + revenue", eq(sub(n.supplied, s.st.supplied), add(dd, sub(n.revenue, s.st.revenue))));
        check("total debt = sum of debts", eq(sub(n.borrowed, s.st.borrowed), db));
        check("revenue within supply", and(&[le(n.revenue, n.supplied), ge(n.revenue, k(0))]));
        check("totals never negative", and(&[ge(n.supplied, k(0)), ge(n.borrowed, k(0)), ge(s.p.bal(), k(0))]));
        check("indexes stay positive", and(&[ge(n.bidx, kray()), ge(n.sidx, k(1))]));
        if !matches!(op, Op::SeizeBorrow | Op::AddRewards) {
            idx_same(&n, &s.st);
            if op != Op::Claim {
                balance_sheet(&s, &s.st, &n, s.cash, s.p.bal(), 2);
            }
        }
        reach("ledger step");
    })
}

// ------------------------------------------------------------------ C15 access
fn access() -> Scenario {
    Scenario::new("only the controller", || {
        let s = setup(18, DEPOSIT);
        flash_bot(k(p10(20)));
        let evil = user_addr("evil");
        add_account(evil, Kind::User, [0; 32], true);
        let a = var("amount", 1, p10(36), p10(18));
        let p = Pool { owner: evil, ..s.p.clone() };
        let s2 = Setup { p, st: s.st.clone(), cash: s.cash, pos: s.pos.clone(), user: evil, params: s.params.clone() };
        for op in OPS {
            let r = run_op(op, &s2, a, k(0), false);
            checkb(&format!("{:?} refused to strangers", op), !r.ok());
        }
        let r = s2.p.call("updateIndexes", vec![s.p.price()], vec![]);
        checkb("accrual refused to strangers", !r.ok());
        check("no cash left", eq(s.p.bal(), s.cash));
        reach("strangers tried");
    })
}
pub fn wrong_asset(op: Op) -> Scenario {
    Scenario::new(format!("wrong asset: {:?}", op), move || {
        let s = setup(18, op_ptype(op));
        flash_bot(var("back", 1, p10(37), p10(20)));
        set_balance(&s.p.addr, OTHER.as_bytes(), 0, k(p10(30)));
        let a = var("amount", 1, p10(36), p10(18));
        let r = run_op(op, &s, a, k(0), true);
        checkb("another asset is refused", !r.ok());
        // a position of another asset with the right payment
        if matches!(op, Op::Supply | Op::Repay) {
            let mut q = s.pos.clone();
            q.asset = OTHER.as_bytes().to_vec();
            let r = if op == Op::Supply { s.p.supply(&q, a) } else { s.p.repay(&s.user, &q, a) };
            checkb("a position of another asset is refused", !r.ok());
            // and no or two payments
            let args = if op == Op::Supply { vec![s.pos.enc(), s.p.price()] } else { vec![s.user.to_vec(), s.pos.enc(), s.p.price()] };
            let f = if op == Op::Supply { "supply" } else { "repay" };
            let r = s.p.call(f, args.clone(), vec![pay(OTHER, a), pay(TOK, a)]);
            checkb("two payments are refused", !r.ok());
        }
        reach("wrong asset tried");
    })
}
fn params_valid(init: bool) -> Scenario {
    Scenario::new(if init { "constructor validation" } else { "parameter update validation" }, move || {
        let m = p10(29);
        let p = Params {
            max: var("p.max", 0, m.clone(), frac_ray(1, 1)),
            base: var("p.base", 0, m.clone(), frac_ray(1, 100)),
            s1: var("p.s1", 0, m.clone(), frac_ray(4, 100)),
            s2: var("p.s2", 0, m.clone(), frac_ray(10, 100)),
            s3: var("p.s3", 0, m.clone(), frac_ray(3, 1)),
            mid: var("p.mid", 0, m.clone(), frac_ray(65, 100)),
            opt: var("p.opt", 0, m, frac_ray(90, 100)),
            rf: var("p.rf", 0, 100000, 2000),
            dec: 18,
        };
        let valid = and(&[gt(p.max, p.base), gt(p.opt, p.mid), lt(p.opt, kray()), lt(p.rf, k(10000))]);
        let (r, addr) = if init {
            let owner = user_addr("ctrl");
            let addr = sc_addr("fresh");
            add_account(owner, Kind::User, [0; 32], true);
            add_account(addr, pool_kind(), owner, false);
            set_time_ms(T0);
            (tx(&owner, &addr, "init", p.init_args(TOK), vec![]), addr)
        } else {
            let s = setup(18, DEPOSIT);
            (s.p.call("updateParams", p.update_args(), vec![]), s.p.addr)
        };
        match r {
            TxRes::Ok(_) => {
                check("only a consistent curve is accepted", valid);
                let g = Params::parse(&storage_get(&addr, b"params"));
                check("stored as given", and(&g.list().iter().zip(p.list()).map(|(x, y)| eq(*x, y)).collect::<Vec<_>>()));
                if init {
                    let n = pool_state(&addr);
                    check("a new pool is empty with unit indexes", and(&[eq(n.supplied, k(0)), eq(n.borrowed, k(0)), eq(n.revenue, k(0)), eq(n.bidx, kray()), eq(n.sidx, kray())]));
                    checkb("accrual starts now", n.last == T0);
                }
                reach(if init { "constructed" } else { "updated" });
            }
            TxRes::Err(_) => {
                check("a consistent curve is not refused", not(valid));
                reach("refused parameters");
            }
        }
    })
}

pub fn props() -> Vec<Prop> {
    const B: &str = "pool state: scaled supply/debt/revenue 0..1e40 (revenue <= supply), borrow index 1..1000, supply index 0.001..1000, cash 0..1e36 raw units; position any part of its total; amounts up to 1e36 raw units; token decimals 6 and 18 (thorough: also 2, 8, 12)";
    fn decs(c: &Cfg) -> Vec<u32> {
        if c.thorough {
            vec![18, 6, 8, 2, 12]
        } else {
            vec![18, 6]
        }
    }
    vec![
        Prop {
            id: "C06",
            scen: |c: &Cfg| decs(c).into_iter().flat_map(|d| vec![supply(d), withdraw(d), round_trip(d), split_withdraw(d)]).collect(),
            reach: &["supplied", "full withdrawal", "partial withdrawal", "illiquid", "round trip", "two withdrawals"],
            bounds: B,
            assumptions: &[],
        },
        Prop {
            id: "C07",
            scen: |c: &Cfg| decs(c).into_iter().flat_map(|d| vec![borrow(d), repay(d), borrow_repay(d)]).collect(),
            reach: &["borrowed", "illiquid", "repaid in full", "repaid in part", "round trip"],
            bounds: B,
            assumptions: &[],
        },
        Prop {
            id: "C08",
            scen: |c: &Cfg| decs(c).into_iter().flat_map(|d| vec![liq_withdraw(d, true), liq_withdraw(d, false), plain_withdraw_ignores_fee(d)]).collect(),
            reach: &["seized", "seized with fee", "refused", "no fee"],
            bounds: B,
            assumptions: &[],
        },
        Prop {
            id: "C09",
            scen: |c: &Cfg| {
                let mut v: Vec<Scenario> = decs(c).into_iter().map(|d| flash(d, Flash::Pay)).collect();
                for m in [Flash::Nothing, Flash::WrongToken, Flash::Two, Flash::Reenter] {
                    v.push(flash(18, m));
                }
                v
            },
            reach: &["flash loan repaid", "flash loan refused"],
            bounds: B,
            assumptions: &[],
        },
        Prop {
            id: "C10",
            scen: |c: &Cfg| decs(c).into_iter().map(strategy).collect(),
            reach: &["strategy created", "strategy refused"],
            bounds: B,
            assumptions: &[],
        },
        Prop {
            id: "C11",
            scen: |c: &Cfg| decs(c).into_iter().flat_map(|d| vec![bad_debt(d), bad_debt_value(d), dust(d)]).collect(),
            reach: &["written off", "wiped out", "no deposits", "loss measured", "dust seized"],
            bounds: B,
            assumptions: &[],
        },
        Prop {
            id: "C12",
            scen: |c: &Cfg| decs(c).into_iter().flat_map(|d| vec![claim(d), rewards(d)]).collect(),
            reach: &["claimed in full", "claimed in part", "rewards shared"],
            bounds: B,
            assumptions: &[],
        },
        Prop {
            id: "C13",
            scen: |_c: &Cfg| {
                let mut v = vec![params_sync()];
                for op in OPS {
                    v.push(accrue_first(op, None));
                }
                v
            },
            reach: &["accrued first", "parameters changed"],
            bounds: B,
            assumptions: &[],
        },
        Prop {
            id: "C14",
            scen: |c: &Cfg| decs(c).into_iter().flat_map(|d| OPS.iter().map(move |o| ledger(*o, d))).collect(),
            reach: &["ledger step"],
            bounds: B,
            assumptions: &[],
        },
        Prop {
            id: "C15",
            scen: |_c: &Cfg| {
                let mut v = vec![access(), params_valid(true), params_valid(false)];
                for op in [Op::Supply, Op::Borrow, Op::Withdraw, Op::LiqWithdraw, Op::Repay, Op::AddRewards, Op::Flash, Op::Strategy, Op::SeizeBorrow, Op::SeizeDeposit] {
                    v.push(wrong_asset(op));
                }
                v
            },
            reach: &["strangers tried", "wrong asset tried", "constructed", "updated", "refused parameters"],
            bounds: B,
            assumptions: &[],
        },
    ]
}
