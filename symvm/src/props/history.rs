//! Whole histories: markets filled from nothing and emptied again, and loans that are gone for good.
use super::access::{bob, bot};
use super::ctrl::lin_mkt;
use super::{Cfg, Prop};
use crate::engine::*;
use crate::env::*;
use crate::env_ctrl::*;
use crate::term::*;
use crate::vm::*;
use std::rc::Rc;

const A: &str = "AAA-111111";
const B: &str = "BBB-222222";
const C: &str = "CCC-333333";
const DAY: u64 = 86_400_000;

fn cents(n: i64) -> T {
    k(p10(16) * n)
}
/// markets nobody uses yet (their indexes have moved before)
fn empty(da: u32, db: u32) -> Proto {
    let mut ms = vec![lin_mkt(A, da, cents(250), 1300, 1100), lin_mkt(B, db, cents(99), 1203, 1050)];
    for m in ms.iter_mut() {
        m.st.supplied = k(0);
        m.st.borrowed = k(0);
        m.st.revenue = k(0);
        m.cash = k(0);
    }
    let p = Proto::new(ms);
    p.add_user(bob());
    p
}
fn net(p: &Proto, u: &Addr, t: &str) -> T {
    sub(p.bal(u, t), k(p10(BIG)))
}
fn leave(p: &Proto, u: &Addr, n: u64, t: &str) -> TxRes {
    tx(u, &p.c, "withdraw", vec![payment_arg(t, 0, k(p10(BIG)))], vec![pay_nft(ACC, n)])
}
fn revenue_worth(p: &Proto, t: &str) -> T {
    let s = p.state(t);
    from_ray(rmul(s.revenue, s.sidx), p.m(t).dec)
}
/// the markets are as empty as they were, but for the protocol's revenue
fn emptied(p: &Proto, units: i64) {
    for t in [A, B] {
        let s = p.state(t);
        check("no debt is left", eq(s.borrowed, k(0)));
        check("only the protocol's share is left", eq(s.supplied, s.revenue));
        let w_ = revenue_worth(p, t);
        check("the cash left covers the protocol's revenue", ge(add(p.cash(t), k(units)), w_));
        check("and nothing is stuck", le(p.cash(t), add(w_, k(units))));
    }
    for n in 1..=2 {
        checkb("no account is left", !p.active(n) && p.attrs(n).is_none());
        checkb("nor its NFT", !p.holds(&p.user, n) && !p.holds(&bob(), n));
        checkb("nor any position", p.positions(n, DEPOSIT).is_empty() && p.positions(n, BORROW).is_empty());
    }
}
/// lend, borrow against it, something in between, repay, leave
pub fn in_and_out(da: u32, db: u32, rounds: usize) -> Scenario {
    Scenario::new(format!("from empty to empty dec={},{}, {} steps between", da, db, rounds), move || {
        let p = empty(da, db);
        // (over two steps and more, plenty of collateral)
        let x = if rounds > 1 { k(p10(34)) } else { var("x", 1, p10(30), p10(da) * 100) };
        let (y, z) = (var("y", 1, p10(30), p10(db) * 500), var("z", 1, p10(30), p10(db) * 90));
        if !p.supply_by(&bob(), 0, None, vec![(B, y)]).ok() || !p.supply(0, None, vec![(A, x)]).ok() {
            fail("deposits into empty markets are taken");
            return;
        }
        p.borrow(2, vec![(B, z)]);
        for i in 0..rounds {
        let v = var(&format!("v{}", i), 1, p10(30), p10(db) * 7);
        let what = pick(&format!("meanwhile{}", i), if i == 0 { 7 } else { 6 });
        note(["withdraw", "supply", "borrow", "repay", "flash loan", "withdraw collateral", "nothing"][what]);
        match what {
            0 => {
                if p.active(1) && tx(&bob(), &p.c, "withdraw", vec![payment_arg(B, 0, v)], vec![pay_nft(ACC, 1)]).ok() {
                    reach("a part withdrawn");
                    if !p.active(1) {
                        reach("left early");
                    }
                }
            }
            1 => {
                if p.active(1) && !p.supply_by(&bob(), 1, None, vec![(B, v)]).ok() {
                    fail("more deposits are taken");
                }
            }
            2 => {
                if p.active(2) && p.borrow(2, vec![(B, v)]).ok() {
                    reach("a second loan");
                }
            }
            3 => {
                if !p.positions(2, BORROW).is_empty() && !p.repay_by(&p.user, 2, vec![(B, v)]).ok() {
                    fail("a part of the debt can be repaid");
                }
            }
            4 => {
                let e = var(&format!("extra{}", i), 0, p10(24), p10(db));
                add_account(
                    bot(),
                    Kind::Mock(Rc::new(move |k_: &Call| {
                        for q in k_.pays {
                            transfer(&k_.me, &k_.caller, &pay(B, add(q.amount, e)));
                        }
                        vec![]
                    })),
                    user_addr("evil"),
                    true,
                );
                let r = p.call(&bob(), "flashLoan", vec![B.as_bytes().to_vec(), enc_u(v), bot().to_vec(), b"go".to_vec(), vec![]], vec![]);
                if r.ok() {
                    reach("a flash loan");
                }
            }
            5 => {
                if p.active(2) && p.withdraw(2, vec![(A, v)]).ok() {
                    reach("some collateral withdrawn");
                }
            }
            _ => {}
        }
        }
        if !p.positions(2, BORROW).is_empty() {
            if !p.repay_by(&bob(), 2, vec![(B, k(p10(44)))]).ok() {
                fail("a debt can be repaid");
                return;
            }
            reach("repaid");
        }
        // bob paid alice's debt: what he has spent on it is what she has taken
        let taken = net(&p, &p.user, B);
        if p.active(2) && !leave(&p, &p.user, 2, A).ok() {
            fail("a deposit without debt can be withdrawn");
            return;
        }
        if p.active(1) && !leave(&p, &bob(), 1, B).ok() {
            fail("the last depositor can leave");
            return;
        }
        check("collateral comes back in full", le(abs_diff(net(&p, &p.user, A), k(0)), k(1)));
        check("deposits come back in full", le(abs_diff(add(net(&p, &bob(), B), taken), k(0)), k(2)));
        emptied(&p, 3);
        reach("emptied");
    })
}
/// with interest: what debtors pay is what depositors and the protocol get
pub fn with_time(db: u32) -> Scenario {
    Scenario::new(format!("from empty to empty with interest dec={}", db), move || {
        let p = empty(18, db);
        let x = var("x", 1, p10(30), p10(18) * 1000);
        let (y, part) = [(1000, 900), (1000, 3), (7_000_000, 123_456)][pick("amounts", 3)];
        let (y, z) = (k(p10(db) * y), k(p10(db) * part + 7));
        if !p.supply_by(&bob(), 0, None, vec![(B, y)]).ok() || !p.supply(0, None, vec![(A, x)]).ok() {
            fail("deposits into empty markets are taken");
            return;
        }
        if !p.borrow(2, vec![(B, z)]).ok() {
            return;
        }
        let refresh = |d: u64| {
            set_time_ms(T0 + d);
            for t in [A, B] {
                p.set_price(t, p.m(t).price);
            }
            p.set_price("EGLD", kwad());
        };
        let mut given = k(0);
        match pick("meanwhile", 5) {
            0 => {}
            1 => {
                refresh(30 * DAY);
                must(&p.user, &p.c, "updateIndexes", vec![B.as_bytes().to_vec()], vec![]);
            }
            2 => {
                refresh(100 * DAY);
                if !p.call(&p.owner, "claimRevenue", vec![B.as_bytes().to_vec()], vec![]).ok() {
                    fail("revenue can be claimed");
                }
            }
            3 => {
                refresh(10 * DAY);
                given = k(p10(db) * 5);
                set_balance(&p.owner, B.as_bytes(), 0, given);
                if !p.call(&p.owner, "addRewards", vec![], vec![pay(B, given)]).ok() {
                    fail("rewards are taken");
                }
            }
            _ => {
                refresh(100 * DAY);
                tx(&bob(), &p.c, "withdraw", vec![payment_arg(B, 0, k(p10(db) * 50))], vec![pay_nft(ACC, 1)]);
            }
        }
        refresh([101 * DAY, 101 * DAY + 1, 700 * DAY][pick("until", 3)]);
        let before = p.bal(&p.user, B);
        if !p.repay_by(&p.user, 2, vec![(B, k(p10(44)))]).ok() {
            fail("a debt can be repaid");
            return;
        }
        let cost = sub(before, p.bal(&p.user, B));
        check("interest is charged", gt(cost, z));
        if !leave(&p, &p.user, 2, A).ok() || !leave(&p, &bob(), 1, B).ok() {
            fail("everybody can leave");
            return;
        }
        check("collateral comes back in full", le(abs_diff(net(&p, &p.user, A), k(0)), k(1)));
        let gain = net(&p, &bob(), B);
        check("depositors gain", ge(gain, k(0)));
        check("no more than debtors pay", le(gain, add(add(sub(cost, z), given), k(2))));
        emptied(&p, 4);
        let due = revenue_worth(&p, B);
        let was = p.bal(&p.accum, B);
        if !p.call(&p.owner, "claimRevenue", vec![B.as_bytes().to_vec()], vec![]).ok() {
            fail("revenue can be claimed");
        }
        check("the protocol gets its revenue", le(abs_diff(sub(p.bal(&p.accum, B), was), min(due, add(due, k(0)))), k(4)));
        check("every token is accounted for", le(p.cash(B), k(4)));
        check("nothing is left of the market", le(rmul(p.state(B).supplied, p.state(B).sidx), k(p10(27 - db) * 4)));
        reach("emptied with interest");
    })
}

/// a loan that was repaid leaves no trace: the next one is judged as if it had never been
pub fn no_trace(kind: &'static str) -> Scenario {
    Scenario::new(format!("a repaid loan leaves no trace: {}", kind), move || {
        let mut ms = vec![lin_mkt(A, 18, cents(250), 1300, 1100), lin_mkt(B, 6, cents(99), 1203, 1050), lin_mkt(C, 18, cents(4010), 1107, 1001)];
        match kind {
            "isolated" => {
                ms[0].cfg.isolated = true;
                ms[0].cfg.ceiling = var("ceiling", 0, p10(30), p10(20));
                ms[1].cfg.iso_borrow = true;
                ms[2].cfg.iso_borrow = true;
            }
            "siloed" => ms[1].cfg.siloed = true,
            "capped" => {
                ms[1].cfg.bcap = Some(var("capB", 0, p10(24), p10(8)));
                for m in ms.iter_mut() {
                    m.st.borrowed = k(p10(27));
                }
            }
            _ => {}
        }
        let p = Proto::new(ms);
        p.add_user(bob());
        if kind == "limited" {
            p.set(&[b"position_limits".to_vec()], vec![10, 1]);
        }
        let at = match kind {
            "isolated" => isolated(A),
            "in e-mode" => {
                p.emode(1, k(9000), k(9300), k(150), false, &[(A, true, true), (B, true, true), (C, true, true)]);
                emode(1)
            }
            _ => normal(),
        };
        p.account(&p.user, 7, &at, &[deposit(A, var("depA", 1, p10(36), p10(27) * 1000))]);
        let first = var("first", 1, p10(24), p10(7) * 5);
        let (t2, second) = if flag("the same token", true) { (B, var("second", 1, p10(24), p10(7) * 3)) } else { (C, var("secondC", 1, p10(24), p10(18))) };
        // straight away
        let start = w(|w| w.clone());
        let plain = p.borrow(7, vec![(t2, second)]).ok();
        w(|w| *w = start);
        // after another loan has come and gone
        let (s0, d0) = (p.state(B), p.positions(7, DEPOSIT));
        if !p.borrow(7, vec![(B, first)]).ok() {
            reach("no first loan");
            return;
        }
        let payer = if flag("repaid by somebody else", false) { bob() } else { p.user };
        if flag("in two payments", false) {
            let half = div(first, k(2));
            if fork(gt(half, k(0))) && !p.repay_by(&payer, 7, vec![(B, half)]).ok() {
                fail("half the debt can be repaid");
            }
        }
        if !p.repay_by(&payer, 7, vec![(B, k(p10(40)))]).ok() {
            fail("the debt can be repaid");
            return;
        }
        checkb("no debt is listed", p.positions(7, BORROW).is_empty());
        check("nothing isolated is owed", eq(p.iso_debt(A), k(0)));
        check("the market has its debt back", eq(p.state(B).borrowed, s0.borrowed));
        check("the borrower kept nothing and lost nothing", eq(add(net(&p, &p.user, B), net(&p, &bob(), B)), k(0)));
        let d1 = p.positions(7, DEPOSIT);
        checkb("the deposits are untouched", d0.len() == d1.len() && d0.iter().zip(&d1).all(|(a, b)| a.enc() == b.enc()));
        checkb("and so is the account", p.active(7) && p.holds(&p.user, 7) && p.attrs(7).unwrap().enc() == at.enc());
        let after = p.borrow(7, vec![(t2, second)]).ok();
        checkb("the next loan is judged as if the first had never been", plain == after);
        if after {
            reach(&format!("a second loan, {}", kind));
        } else {
            reach(&format!("no second loan, {}", kind));
        }
    })
}
const KINDS: [&str; 6] = ["plain", "isolated", "siloed", "capped", "limited", "in e-mode"];

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C49",
        scen: |c: &Cfg| {
            let mut v: Vec<Scenario> = vec![in_and_out(18, 6, 2), in_and_out(6, 18, 1), with_time(6), with_time(18)];
            if c.thorough {
                v.extend([in_and_out(8, 8, 2), in_and_out(0, 18, 2), in_and_out(18, 6, 3), with_time(0), with_time(27)]);
            }
            v.extend(KINDS.into_iter().map(no_trace));
            v
        },
        reach: &[
            "emptied",
            "repaid",
            "a part withdrawn",
            "left early",
            "a second loan",
            "a flash loan",
            "some collateral withdrawn",
            "emptied with interest",
            "no first loan",
            "a second loan, plain",
            "a second loan, isolated",
            "a second loan, siloed",
            "a second loan, capped",
            "a second loan, limited",
            "a second loan, in e-mode",
            "no second loan, isolated",
            "no second loan, capped",
        ],
        bounds: "two empty markets, two users; deposits, loan and every step's amount symbolic 1..1e30; one step (any collateral) or two steps (ample collateral) between loan and repayment, out of seven (withdrawal, deposit, second loan, part repayment, flash loan with any overpayment, collateral withdrawal, nothing), three in the thorough run; with interest: any collateral, three deposit and loan sizes, five kinds of step, up to 700 days; six kinds of account for a second loan after a repaid first one",
        assumptions: &[],
    }]
}
