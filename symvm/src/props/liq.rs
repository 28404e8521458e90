//! Liquidation and bad-debt clean-up, over the whole protocol.
use super::ctrl::*;
use super::ctrl::{A, B, C};
use super::{Cfg, Prop};
use crate::engine::*;
use crate::env::*;
use crate::env_ctrl::*;
use crate::term::*;
use crate::vm::*;
use num_bigint::BigInt;

const N: u64 = 5;
fn cents(n: i64) -> T {
    k(p10(16) * n)
}
fn tokens(n: i64) -> T {
    k(p10(27) * n)
}
fn pp(p: &Proto, t: &str) -> T {
    mul(p.m(t).price, k(p10(9)))
}
fn dep(t: &str, s: T, thr: i64, bonus: i64, fees: i64) -> Pos {
    let mut d = deposit(t, s);
    d.threshold = k(thr);
    d.bonus = k(bonus);
    d.fees = k(fees);
    d
}
/// everything the account's positions are worth before and after, and who paid what
struct Run {
    p: Proto,
    d0: Vec<Pos>,
    b0: Vec<Pos>,
    payer: Addr,
    before: Vec<(String, PState, T)>,
}
impl Run {
    fn new(p: Proto, deps: Vec<Pos>, debts: Vec<Pos>) -> Run {
        Run::with(p, normal(), deps, debts)
    }
    fn with(p: Proto, at: Attrs, deps: Vec<Pos>, debts: Vec<Pos>) -> Run {
        let mut all = deps;
        all.extend(debts);
        p.account(&p.user, N, &at, &all);
        let payer = user_addr("bob");
        p.add_user(payer);
        let before = p.mkts.iter().map(|m| (m.tok.clone(), p.state(&m.tok), p.cash(&m.tok))).collect();
        Run { d0: p.positions(N, DEPOSIT), b0: p.positions(N, BORROW), p, payer, before }
    }
    fn health0(&self) -> (T, T, T) {
        let w = self.p.weighted(&self.d0, |q| q.threshold);
        let d = self.p.total(&self.b0);
        (w, d, self.p.health(w, d))
    }
    fn st(&self, t: &str) -> &PState {
        &self.before.iter().find(|x| x.0 == t).unwrap().1
    }
    /// tokens the payer ended up spending (negative: received)
    fn spent(&self, t: &str) -> T {
        sub(k(p10(BIG)), self.p.bal(&self.payer, t))
    }
    /// value (ray EGLD) of raw units, exact up to the division
    fn worth(&self, t: &str, raw: T) -> T {
        rmul(to_ray(raw, self.p.m(t).dec), pp(&self.p, t))
    }
    fn unit(&self, t: &str) -> T {
        add(self.worth(t, k(1)), k(2))
    }
    /// after a successful liquidation
    fn economics(&self, debts: &[&str], colls: &[&str], min_bonus: i64) {
        let p = &self.p;
        let tol_c = colls.iter().fold(k(1000), |a, t| add(a, mul(k(3), self.unit(t))));
        let tol_d = debts.iter().fold(k(1000), |a, t| add(a, mul(k(3), self.unit(t))));
        let mut repaid = k(0);
        for t in debts {
            let s = self.spent(t);
            let b = self.b0.iter().find(|q| q.asset == t.as_bytes()).unwrap();
            let owed = from_ray(rmul(b.scaled, self.st(t).bidx), p.m(t).dec);
            check("the liquidator never pays more than the debt", and(&[ge(s, k(0)), le(s, owed)]));
            let fell = sub(b.scaled, p.sc(N, BORROW, t));
            check("the account's debt falls by what the pool books", eq(fell, sub(self.st(t).borrowed, p.state(t).borrowed)));
            let want = rdiv(to_ray(s, p.m(t).dec), self.st(t).bidx);
            check("the debt falls by the payment", or(&[eq(fell, want), and(&[eq(fell, b.scaled), eq(s, owed)])]));
            repaid = add(repaid, self.worth(t, s));
        }
        let (mut seized, mut got) = (k(0), k(0));
        let mut fees = vec![];
        for t in colls {
            let d = self.d0.iter().find(|q| q.asset == t.as_bytes()).unwrap();
            let v0 = p.val(d);
            let v1 = p.pos(N, DEPOSIT, t).map_or(k(0), |q| p.val(&q));
            seized = add(seized, sub(v0, v1));
            let g = neg(self.spent(t));
            check("seized collateral never exceeds the deposit", le(g, from_ray(rmul(d.scaled, self.st(t).sidx), p.m(t).dec)));
            got = add(got, self.worth(t, g));
            let fee = sub(sub(v0, v1), self.worth(t, g));
            fees.push((d.clone(), v0, fee));
            let (s1, s0) = (p.state(t), self.st(t));
            let booked = rmul(rmul(sub(s1.revenue, s0.revenue), s0.sidx), pp(p, t));
            check("the fee is booked as protocol revenue", le(abs_diff(booked, fee), mul(k(3), self.unit(t))));
            check("the pool's cash falls by what is handed over", eq(sub(self.before.iter().find(|x| x.0 == *t).unwrap().2, p.cash(t)), g));
        }
        observe("repaid", repaid);
        observe("seized", seized);
        check("the borrower loses at most the repaid value plus fifteen percent", le(mul(k(100), seized), add(mul(k(115), repaid), mul(k(230), add(tol_c, tol_d)))));
        check(
            "the borrower loses no less than the base bonus",
            ge(add(mul(k(10000), seized), mul(k(30000), add(tol_c, tol_d))), mul(k(10000 + min_bonus.min(1500)), repaid)),
        );
        check("the protocol's fee comes out of the bonus only", ge(add(got, mul(k(2), add(tol_c, tol_d))), repaid));
        // the bonus is spread over the deposits by value, and each pays its own fee rate on its share
        let total = fees.iter().fold(k(0), |a, f| add(a, f.1));
        for (d, v0, fee) in &fees {
            let want = mul(mul(*v0, d.fees), sub(seized, repaid));
            let room = mul(mul(k(30000), total), add(tol_c, tol_d));
            check("the fee is the configured share of the bonus", le(abs_diff(mul(mul(*fee, total), k(10000)), want), room));
        }
    }
    fn untouched(&self, debts: &[&str], colls: &[&str]) {
        same_except("other debts untouched", &self.b0, &self.p.positions(N, BORROW), debts);
        same_except("other deposits untouched", &self.d0, &self.p.positions(N, DEPOSIT), colls);
        checkb("the account NFT stays with its owner", self.p.holds(&self.p.user, N));
    }
}

// ------------------------------------------------------------------ C27
/// a healthy account (weighted collateral at least its debt) cannot be liquidated
pub fn healthy(two: bool) -> Scenario {
    Scenario::new(format!("healthy account{}", if two { ", two of each" } else { "" }), move || {
        let (mut ms, mut deps, mut debts) = (vec![sym_mkt(A, 18), sym_mkt(B, 6)], vec![], vec![]);
        let sc = |n: &str, h: i64| var(n, 1, p10(40), p10(27) * h);
        let mut da = deposit(A, sc("depA", 1000));
        da.threshold = var("thrA", 0, 10000, 8000);
        deps.push(da);
        debts.push(debt(B, sc("debtB", 900)));
        if two {
            ms.push(lin_mkt(C, 18, cents(4010), 1007, 1001));
            deps.push(dep(C, sc("depC", 2), 7000, 400, 800));
            debts.push(debt(C, sc("debtC", 5)));
        }
        let r = Run::new(Proto::new(ms), deps, debts);
        let (_, owed, h) = r.health0();
        assume(gt(owed, k(0)));
        assume(ge(h, kray()));
        let x = amount("x", 6);
        let res = r.p.liquidate_by(&r.payer, N, vec![(B, x)]);
        checkb("refused", !res.ok());
        same_except("deposits untouched", &r.d0, &r.p.positions(N, DEPOSIT), &[]);
        same_except("debts untouched", &r.b0, &r.p.positions(N, BORROW), &[]);
        reach("healthy account refused");
    })
}
/// what the views say is what the liquidation uses
pub fn liquidatable() -> Scenario {
    Scenario::new("canBeLiquidated and getHealthFactor", move || {
        let p = Proto::new(vec![sym_mkt(A, 18), sym_mkt(B, 6), lin_mkt(C, 18, cents(4010), 1007, 1001)]);
        let sc = |n: &str, h: i64| var(n, 1, p10(40), p10(27) * h);
        let mut da = deposit(A, sc("depA", 1000));
        da.threshold = var("thrA", 0, 10000, 8000);
        da.ltv = var("ltvA", 0, 10000, 7000);
        let r = Run::new(p, vec![da, dep(C, sc("depC", 2), 7000, 400, 800)], vec![debt(B, sc("debtB", 900)), debt(C, sc("debtC", 5))]);
        let (w, owed, h) = r.health0();
        assume(gt(owed, k(0)));
        let n = vec![top_u(N)];
        check("health factor", eq(r.p.viewd("getHealthFactor", n.clone()), h));
        let can = r.p.view("canBeLiquidated", n.clone()).out()[0] == vec![1u8];
        if can {
            check("liquidatable only below one", lt(h, kray()));
            reach("liquidatable");
        } else {
            check("not liquidatable from one on", ge(h, kray()));
            reach("not liquidatable");
        }
        let wadd = |x: T| div_hu(x, k(p10(9)));
        check("total borrow", eq(r.p.viewd("getTotalBorrowInEgld", n.clone()), wadd(owed)));
        check("liquidation collateral", eq(r.p.viewd("getLiquidationCollateralAvailable", n.clone()), wadd(w)));
        let l = r.p.weighted(&r.d0, |q| q.ltv);
        check("LTV collateral", eq(r.p.viewd("getLtvCollateralInEgld", n.clone()), wadd(l)));
        let tot = r.d0.iter().fold(k(0), |a, q| add(a, wadd(r.p.val(q))));
        check("total collateral", eq(r.p.viewd("getTotalCollateralInEgld", n), tot));
        let nt = |t: &str| vec![top_u(N), t.as_bytes().to_vec()];
        let q = &r.d0.iter().find(|q| q.asset == A.as_bytes()).unwrap();
        check("collateral amount", eq(r.p.viewd("getCollateralAmountForToken", nt(A)), from_ray(rmul(q.scaled, r.st(A).sidx), 18)));
        let q = &r.b0.iter().find(|q| q.asset == B.as_bytes()).unwrap();
        check("debt amount", eq(r.p.viewd("getBorrowAmountForToken", nt(B)), from_ray(rmul(q.scaled, r.st(B).bidx), 6)));
    })
}

// ------------------------------------------------------------------ C28
fn proto(da: u32, db: u32) -> Proto {
    Proto::new(vec![
        lin_mkt(A, da, cents(250), 1300, 1100),
        lin_mkt(B, db, cents(99), 1203, 1050),
        lin_mkt(C, 18, cents(4010), 1007, 1001),
    ])
}
/// a fixed account (chosen per recovery tier), any payment
pub fn fixed(name: &'static str, milli_debt: i64, thr: i64, bonus: i64, da: u32, db: u32) -> Scenario {
    Scenario::new(format!("{}: fixed account, any payment", name), move || {
        // deposit worth 1100 A = 2750 * 1.1 = 3025 EGLD
        let r = Run::new(
            proto(da, db),
            vec![dep(A, tokens(1100), thr, bonus, 1000)],
            vec![debt(B, k(p10(24) * milli_debt))],
        );
        let (_, _, h) = r.health0();
        let x = amount("x", db);
        let res = r.p.liquidate_by(&r.payer, N, vec![(B, x)]);
        if res.ok() {
            check("only an unhealthy account is liquidated", lt(h, kray()));
            r.economics(&[B], &[A], bonus);
            r.untouched(&[B], &[A]);
            check("the liquidator never pays more than offered", le(r.spent(B), x));
            let left = r.p.total(&r.p.positions(N, BORROW));
            let w1 = r.p.weighted(&r.p.positions(N, DEPOSIT), |q| q.threshold);
            // 1.02 * debt, with room for one unit of each token (an account without collateral left is not restored)
            let room = mul(k(3), add(r.unit(A), r.unit(B)));
            check(
                "liquidation stops at the target health",
                or(&[eq(left, k(0)), le(mul(k(100), sub(w1, room)), mul(k(102), add(left, room)))]),
            );
            reach("liquidated");
        } else {
            check("an unhealthy account's payment is taken", or(&[ge(h, kray()), le(r.worth(B, x), k(p10(18)))]));
            reach("liquidation refused");
        }
    })
}
/// two collaterals, two debts, one or two payments
pub fn fixed_two(name: &'static str, pays: &'static [&'static str], milli: i64) -> Scenario {
    Scenario::new(format!("{}: two collaterals, two debts", name), move || {
        let mut ms = proto(18, 6).mkts;
        ms.push(lin_mkt("DDD-444444", 8, cents(150), 1010, 1020));
        clear_world();
        let r = Run::new(
            Proto::new(ms),
            vec![dep(A, tokens(1100), 7800, 400, 1000), dep("DDD-444444", tokens(700), 7000, 600, 1500)],
            vec![debt(B, k(p10(24) * milli)), debt(C, k(p10(27) * 30))],
        );
        let (_, _, h) = r.health0();
        let xs: Vec<T> = (0..pays.len()).map(|i| amount(&format!("x{}", i), r.p.m(pays[i]).dec)).collect();
        let res = r.p.liquidate_by(&r.payer, N, pays.iter().zip(&xs).map(|(t, x)| (*t, *x)).collect());
        if res.ok() {
            check("only an unhealthy account is liquidated", lt(h, kray()));
            let mut ds: Vec<&str> = pays.to_vec();
            ds.sort();
            ds.dedup();
            r.economics(&ds, &[A, "DDD-444444"], 400);
            r.untouched(&ds, &[A, "DDD-444444"]);
            for t in &ds {
                let offered = pays.iter().zip(&xs).filter(|(u, _)| *u == t).fold(k(0), |a, (_, x)| add(a, *x));
                check("the liquidator never pays more than offered", le(r.spent(t), offered));
            }
            // each collateral gives up the same share of its value
            let cut = |t: &str| {
                let d = r.d0.iter().find(|q| q.asset == t.as_bytes()).unwrap();
                let v0 = r.p.val(d);
                (v0, sub(v0, r.p.pos(N, DEPOSIT, t).map_or(k(0), |q| r.p.val(&q))))
            };
            let ((va, ca), (vd, cd)) = (cut(A), cut("DDD-444444"));
            let room = mul(k(3), add(r.unit(A), r.unit("DDD-444444")));
            check("collaterals are seized in proportion", le(abs_diff(mul(ca, vd), mul(cd, va)), mul(room, add(va, vd))));
            reach("liquidated");
        } else {
            let worth = pays.iter().zip(&xs).fold(k(0), |a, (t, x)| add(a, r.worth(t, *x)));
            let none = or(&xs.iter().map(|x| le(*x, k(0))).collect::<Vec<_>>());
            check("an unhealthy account's payments are taken", or(&[ge(h, kray()), none, le(worth, k(p10(18)))]));
            reach("liquidation refused");
        }
    })
}
/// collateral and debt in the same token: the liquidator pays and receives it in one call
pub fn own(name: &'static str, milli: i64, dec: u32) -> Scenario {
    Scenario::new(format!("own token, {}", name), move || {
        let r = Run::new(proto(dec, 6), vec![dep(A, tokens(700), 7800, 400, 1000), dep(C, tokens(20), 7000, 600, 1500)], vec![debt(A, k(p10(24) * milli))]);
        let (_, _, h) = r.health0();
        let x = amount("x", dec);
        let res = r.p.liquidate_by(&r.payer, N, vec![(A, x)]);
        if !res.ok() {
            check("an unhealthy account's payment is taken", or(&[ge(h, kray()), le(r.worth(A, x), k(p10(18)))]));
            reach("liquidation refused");
            return;
        }
        check("only an unhealthy account is liquidated", lt(h, kray()));
        let p = &r.p;
        let fell = |q: &Pos, t: u8| {
            let tok = std::str::from_utf8(&q.asset).unwrap();
            let now = p.sc(N, t, tok);
            check("positions only fall", le(now, q.scaled));
            let mut rest = q.clone();
            rest.scaled = now;
            sub(p.val(q), p.val(&rest))
        };
        let repaid = fell(&r.b0[0], BORROW);
        let seized: Vec<T> = r.d0.iter().map(|q| fell(q, DEPOSIT)).collect();
        let all = add(seized[0], seized[1]);
        let unit = add(r.unit(A), r.unit(C));
        check("the borrower loses at most the repaid value plus fifteen percent", le(mul(k(100), all), add(mul(k(115), repaid), mul(k(1500), unit))));
        check("the borrower loses no less than the base bonus", ge(add(mul(k(10000), all), mul(k(150_000), unit)), mul(k(10400), repaid)));
        let fee = rmul(rmul(sub(p.state(A).revenue, r.st(A).revenue), r.st(A).sidx), pp(p, A));
        let net = add(sub(repaid, seized[0]), fee);
        let paid = r.worth(A, r.spent(A));
        check("the liquidator pays the debt and receives the collateral less the fee", le(abs_diff(paid, net), mul(k(6), unit)));
        check("the debt falls by what the pool books", eq(sub(r.b0[0].scaled, p.sc(N, BORROW, A)), sub(r.st(A).borrowed, p.state(A).borrowed)));
        let cash0 = r.before.iter().find(|b| b.0 == A).unwrap().2;
        check("the pool's cash moves by the net payment", eq(sub(p.cash(A), cash0), r.spent(A)));
        check("the liquidator pays no more than offered", le(r.spent(A), x));
        r.untouched(&[A], &[A, C]);
        reach("own token liquidated");
    })
}
/// six collaterals and five debts of 0 to 18 decimals; the debts scaled by percent
pub fn crowd(name: &'static str, pays: &'static [usize], percent: i64, nd: usize) -> Scenario {
    use super::wide::{debts, deposits, DEC, W};
    Scenario::new(format!("crowded account, {}", name), move || {
        let p = Proto::new(super::wide::markets());
        must(&p.owner, &p.c, "setPositionLimits", vec![top_u(10), top_u(10)], vec![]);
        let mut deps = deposits(&[]);
        deps.truncate(nd);
        // every token on one side only, so that what the liquidator spends and receives can be told apart
        let mut ds: Vec<Pos> = debts(&[]).into_iter().filter(|q| q.asset != W[1].as_bytes()).collect();
        for q in ds.iter_mut() {
            q.scaled = div(mul(q.scaled, k(percent)), k(100));
        }
        let r = Run::new(p, deps, ds);
        let (w0, d0, h) = r.health0();
        observe("weighted collateral", w0);
        observe("debt", d0);
        let last = pays.len() - 1;
        let xs: Vec<T> = (0..pays.len()).map(|i| if i == last { amount("x", DEC[pays[i]]) } else { k(p10(DEC[pays[i]]) * (11 + 5 * i as i64)) }).collect();
        let res = r.p.liquidate_by(&r.payer, N, pays.iter().zip(&xs).map(|(i, x)| (W[*i], *x)).collect());
        if res.ok() {
            check("only an unhealthy account is liquidated", lt(h, kray()));
            let mut ds: Vec<&str> = pays.iter().map(|i| W[*i]).collect();
            ds.sort();
            ds.dedup();
            let cs = &W[..nd];
            r.economics(&ds, cs, 400);
            r.untouched(&ds, cs);
            for t in &ds {
                let offered = pays.iter().zip(&xs).filter(|(i, _)| W[**i] == *t).fold(k(0), |a, (_, x)| add(a, *x));
                check("the liquidator never pays more than offered", le(r.spent(t), offered));
            }
            let cut = |t: &str| {
                let d = r.d0.iter().find(|q| q.asset == t.as_bytes()).unwrap();
                let v0 = r.p.val(d);
                (v0, sub(v0, r.p.pos(N, DEPOSIT, t).map_or(k(0), |q| r.p.val(&q))))
            };
            let (va, ca) = cut(W[0]);
            for t in &cs[1..] {
                let (vd, cd) = cut(t);
                let room = mul(k(3), add(r.unit(W[0]), r.unit(t)));
                check("collaterals are seized in proportion", le(abs_diff(mul(ca, vd), mul(cd, va)), mul(room, add(va, vd))));
            }
            reach("crowded liquidation");
        } else {
            let worth = pays.iter().zip(&xs).fold(k(0), |a, (i, x)| add(a, r.worth(W[*i], *x)));
            let none = or(&xs.iter().map(|x| le(*x, k(0))).collect::<Vec<_>>());
            check("an unhealthy account's payments are taken", or(&[ge(h, kray()), none, le(worth, k(p10(18)))]));
            reach("liquidation refused");
        }
    })
}
/// a payment that is worth nothing in the protocol's precision seizes nothing
fn worthless() -> Scenario {
    Scenario::new("payment without value", move || {
        let p = Proto::new(vec![lin_mkt(A, 18, cents(250), 1300, 1100), lin_mkt(B, 18, k(p10(8)), 1203, 1050)]);
        let r = Run::new(p, vec![dep(A, tokens(1), 8000, 500, 1000)], vec![debt(B, k(p10(37) * 4))]);
        let (_, _, h) = r.health0();
        check("the account is unhealthy", lt(h, kray()));
        let x = var("x", 0, 1000, 1);
        let res = r.p.liquidate_by(&r.payer, N, vec![(B, x)]);
        if res.ok() {
            let got = neg(r.spent(A));
            // ray value of what was paid, rounded up, plus fifteen percent, plus one raw unit of A
            let paid = add(r.worth(B, r.spent(B)), k(1));
            check("what is seized is covered by what was paid", le(mul(k(100), r.worth(A, max(sub(got, k(1)), k(0)))), mul(k(115), paid)));
            check("nothing is seized for nothing", implies(eq(r.spent(B), k(0)), eq(got, k(0))));
            reach("tiny liquidation");
        } else {
            reach("worthless payment refused");
        }
    })
}

// ------------------------------------------------------------------ C30 bad-debt clean-up
pub fn cleanup(nd: usize, nb: usize, iso: bool) -> Scenario {
    Scenario::new(format!("clean-up of {} deposits and {} debts{}", nd, nb, if iso { ", isolated" } else { "" }), move || {
        let mut ms = vec![sym_mkt(A, 18), sym_mkt(B, 6)];
        for m in &ms {
            // the debt and the deposit are part of what the pools book
            assume(ge(m.st.supplied, k(0)));
        }
        let sc = |n: &str, h: i64| var(n, 1, p10(40), p10(26) * h);
        let (mut deps, mut debts) = (vec![deposit(A, sc("depA", 4))], vec![debt(B, sc("debtB", 900))]);
        if nd > 1 || nb > 1 {
            ms.push(lin_mkt(C, 18, cents(4010), 1007, 1001));
        }
        if nd > 1 {
            deps.push(dep(C, sc("depC", 0), 7000, 400, 800));
        }
        if nb > 1 {
            debts.push(debt(C, sc("debtC", 5)));
        }
        if nd > 2 || nb > 2 {
            ms.push(lin_mkt("DDD-444444", 8, cents(150), 1010, 1020));
        }
        if nd > 2 {
            deps.push(dep("DDD-444444", sc("depD", 0), 6000, 700, 500));
        }
        if nb > 2 {
            debts.push(debt("DDD-444444", sc("debtD", 3)));
        }
        let egld = var("egldUsd", p10(15), p10(22), p10(17) * 3);
        let ms2 = ms.clone();
        let mut p = Proto::new(ms);
        p.set_price("EGLD", egld);
        for m in p.mkts.iter_mut().filter(|m| enc_name(m.tok.as_bytes()) != b"EGLD") {
            // market prices are quoted in USD; the controller's are in EGLD
            m.price = div_hu(div_hu(mul(mul(m.price, k(p10(9))), kray()), mul(egld, k(p10(9)))), k(p10(9)));
        }
        for m in &ms2 {
            for q in deps.iter().chain(debts.iter()) {
                if q.asset == m.tok.as_bytes() {
                    assume(le(q.scaled, if q.ptype == DEPOSIT { m.st.supplied } else { m.st.borrowed }));
                }
            }
        }
        let attrs = if iso { isolated(A) } else { normal() };
        let mut all = deps;
        all.extend(debts);
        p.account(&p.user, N, &attrs, &all);
        let iso0 = var("isoDebt", 0, p10(30), p10(20));
        if iso {
            p.set_iso_debt(A, iso0);
        }
        let r = Run { d0: p.positions(N, DEPOSIT), b0: p.positions(N, BORROW), payer: user_addr("bob"), before: ms2.iter().map(|m| (m.tok.clone(), m.st.clone(), m.cash)).collect(), p };
        let p = &r.p;
        p.add_user(r.payer);
        let coll = p.total(&r.d0);
        let owed = p.total(&r.b0);
        // values in EGLD times the EGLD price, in the protocol's usd precision
        let (cu, du) = (rmul(coll, mul(egld, k(p10(9)))), rmul(owed, mul(egld, k(p10(9)))));
        let wadd = |x: T| div_hu(x, k(p10(9)));
        let (cu, du) = (wadd(cu), wadd(du));
        let res = p.call(&r.payer, "cleanBadDebt", vec![top_u(N)], vec![]);
        match res {
            TxRes::Ok(_) => {
                check("only accounts that owe more than they hold", gt(du, cu));
                check("only accounts holding at most five dollars", le(cu, k(p10(18) * 5)));
                checkb("no position is left", p.positions(N, DEPOSIT).is_empty() && p.positions(N, BORROW).is_empty());
                checkb("the account is closed", !p.active(N) && p.attrs(N).is_none());
                for (t, s0, cash0) in &r.before {
                    let s1 = p.state(t);
                    let mine = |ps: &[Pos]| ps.iter().find(|q| q.asset == t.as_bytes()).map(|q| q.scaled);
                    check("the pool writes off exactly this debt", eq(sub(s0.borrowed, s1.borrowed), mine(&r.b0).unwrap_or(k(0))));
                    check("nothing is paid out", eq(p.cash(t), *cash0));
                    check("deposits of others stay booked", eq(s1.supplied, s0.supplied));
                    if let Some(x) = mine(&r.d0) {
                        check("the remaining collateral becomes revenue", ge(sub(s1.revenue, s0.revenue), x));
                    }
                    if mine(&r.b0).is_some() {
                        check("suppliers bear the loss", le(s1.sidx, s0.sidx));
                    }
                }
                if iso {
                    let mut want = iso0;
                    for q in &r.b0 {
                        let v = wadd(rmul(p.val(q), mul(egld, k(p10(9)))));
                        let left = sub(want, min(want, v));
                        want = ite(and(&[gt(v, k(0)), lt(left, kwad())]), k(0), left);
                    }
                    check("the isolated debt is released", eq(p.iso_debt(A), want));
                }
                checkb("the closed account takes no deposits", !p.supply(N, None, vec![(A, k(p10(18)))]).ok());
                reach("cleaned");
            }
            TxRes::Err(_) => {
                check("an account with bad debt and dust is cleaned", or(&[le(du, cu), gt(cu, k(p10(18) * 5))]));
                same_except("deposits untouched", &r.d0, &p.positions(N, DEPOSIT), &[]);
                same_except("debts untouched", &r.b0, &p.positions(N, BORROW), &[]);
                for (t, s0, _) in &r.before {
                    same_state("pools untouched", s0, &p.state(t));
                }
                reach("refused");
            }
        }
    })
}

/// six collaterals and five debts cleaned at once
pub fn crowd_cleanup() -> Scenario {
    use super::wide::{debts, deposits, markets, W};
    Scenario::new("clean-up of six deposits and five debts", || {
        let p = Proto::new(markets());
        must(&p.owner, &p.c, "setPositionLimits", vec![top_u(10), top_u(10)], vec![]);
        let mut all = deposits(&[3, 5]);
        for q in all.iter_mut() {
            if ![W[3], W[5]].contains(&std::str::from_utf8(&q.asset).unwrap()) {
                q.scaled = div(q.scaled, k(100_000));
            }
        }
        let mut ds = debts(&[8]);
        for q in ds.iter_mut() {
            if q.asset != W[8].as_bytes() {
                q.scaled = div(q.scaled, k(50_000));
            }
        }
        all.extend(ds);
        for m in &p.mkts {
            for q in all.iter().filter(|q| q.asset == m.tok.as_bytes()) {
                assume(le(q.scaled, if q.ptype == DEPOSIT { m.st.supplied } else { m.st.borrowed }));
            }
        }
        p.account(&p.user, N, &normal(), &all);
        p.add_user(user_addr("bob"));
        let (d0, b0) = (p.positions(N, DEPOSIT), p.positions(N, BORROW));
        let before: Vec<(PState, T)> = W.iter().map(|t| (p.state(t), p.cash(t))).collect();
        let wadd = |x: T| div_hu(x, k(p10(9)));
        let usd = kwad(); // the reference price of EGLD
        let (cu, du) = (wadd(rmul(p.total(&d0), mul(usd, k(p10(9))))), wadd(rmul(p.total(&b0), mul(usd, k(p10(9))))));
        let res = p.call(&user_addr("bob"), "cleanBadDebt", vec![top_u(N)], vec![]);
        if !res.ok() {
            check("an account with bad debt and dust is cleaned", or(&[le(du, cu), gt(cu, k(p10(18) * 5))]));
            same_except("deposits untouched", &d0, &p.positions(N, DEPOSIT), &[]);
            same_except("debts untouched", &b0, &p.positions(N, BORROW), &[]);
            reach("refused");
            return;
        }
        check("only accounts that owe more than they hold", gt(du, cu));
        check("only accounts holding at most five dollars", le(cu, k(p10(18) * 5)));
        checkb("no position is left", p.positions(N, DEPOSIT).is_empty() && p.positions(N, BORROW).is_empty());
        checkb("the account is closed", !p.active(N) && p.attrs(N).is_none());
        for (t, (s0, cash0)) in W.iter().zip(&before) {
            let s1 = p.state(t);
            let mine = |ps: &[Pos]| ps.iter().find(|q| q.asset == t.as_bytes()).map(|q| q.scaled);
            check("the pool writes off exactly this debt", eq(sub(s0.borrowed, s1.borrowed), mine(&b0).unwrap_or(k(0))));
            check("nothing is paid out", eq(p.cash(t), *cash0));
            check("deposits of others stay booked", eq(s1.supplied, s0.supplied));
            check("the remaining collateral becomes revenue", ge(sub(s1.revenue, s0.revenue), mine(&d0).unwrap_or(k(0))));
            check("suppliers of a written-off debt bear the loss", if mine(&b0).is_some() { le(s1.sidx, s0.sidx) } else { eq(s1.sidx, s0.sidx) });
        }
        reach("crowded account cleaned");
    })
}

// ------------------------------------------------------------------ C29
const BANDS: i32 = 250;
const WIDTH: u32 = 1005;
/// an unhealthy account with more than dust left can be liquidated, at any collateral price
fn live(step: i32, name: &'static str, debt_price: bool, from: i64, thr: i64, bonus: i64, da: u32, db: u32) -> Scenario {
    Scenario::new(format!("any price: {}", name), move || {
        feas_budget(600);
        // the price range is cut into bands, so that intervals decide most comparisons
        let (mut pa, mut pb) = (cents(250), cents(99));
        let band = pick("band", BANDS / step) as u32 * step as u32;
        let at = |i: u32, base: i64| (p10(16) * base * BigInt::from(WIDTH).pow(i)) / BigInt::from(1000).pow(i);
        if debt_price {
            pb = var("priceB", at(band, from), at(band + 1, from), (at(band, from) + at(band + 1, from)) / 2);
        } else {
            let (lo, hi) = (BigInt::from(1000).pow(band), BigInt::from(WIDTH).pow(band));
            let (lo1, hi1) = (BigInt::from(1000).pow(band + 1), BigInt::from(WIDTH).pow(band + 1));
            let (l, h): (BigInt, BigInt) = (p10(16) * from * lo1 / hi1, p10(16) * from * lo / hi);
            pa = var("priceA", l.clone(), h.clone(), (l + h) / 2);
        }
        let p = Proto::new(vec![lin_mkt(A, da, pa, 1300, 1100), lin_mkt(B, db, pb, 1203, 1050)]);
        let r = Run::new(p, vec![dep(A, tokens(1100), thr, bonus, 1000)], vec![debt(B, k(p10(24) * 2_000_000))]);
        let (_, _, h) = r.health0();
        if name.ends_with("since changed") {
            super::live::since(&r.p, N);
        }
        // pays everything owed and a bit more
        let res = r.p.liquidate_by(&r.payer, N, vec![(B, k(p10(db) * 2500))]);
        if !res.ok() {
            let worth = r.p.total(&r.d0);
            check("only a healthy or worthless account is refused", or(&[ge(h, kray()), le(worth, k(p10(28)))]));
            reach("healthy or worthless");
        } else {
            check("the account was unhealthy", lt(h, kray()));
            check("something was repaid", gt(r.spent(B), k(0)));
            reach("liquidated at any price");
        }
    })
}
/// what the estimate promises is what the liquidation then does
fn estimate(name: &'static str, pays: &'static [&'static str], milli: i64, thr: i64, bonus: i64) -> Scenario {
    Scenario::new(format!("estimate: {}", name), move || {
        let r = Run::new(
            proto(18, 6),
            vec![dep(A, tokens(1100), thr, bonus, 1000)],
            vec![debt(B, k(p10(24) * milli)), debt(C, k(p10(27) * 30))],
        );
        let xs: Vec<T> = (0..pays.len()).map(|i| amount(&format!("x{}", i), r.p.m(pays[i]).dec)).collect();
        let mut arg = vec![];
        for (t, x) in pays.iter().zip(&xs) {
            arg.extend(payment_arg(t, 0, *x));
        }
        let v = r.p.view("liquidationEstimations", vec![top_u(N), arg]);
        let res = r.p.liquidate_by(&r.payer, N, pays.iter().zip(&xs).map(|(t, x)| (*t, *x)).collect());
        if !res.ok() {
            let worth = pays.iter().zip(&xs).fold(k(0), |a, (t, x)| add(a, r.worth(t, *x)));
            let none = or(&xs.iter().map(|x| le(*x, k(0))).collect::<Vec<_>>());
            check("payments worth something are not refused", or(&[none, le(worth, k(p10(18)))]));
            reach("nothing to compare");
            return;
        }
        checkb("an estimate exists for what succeeds", v.ok());
        if !v.ok() {
            return;
        }
        let out = v.out()[0].clone();
        let mut rd = Rd(&out);
        let mut lists = vec![];
        for _ in 0..3 {
            let n = rd.u32();
            let mut l: Vec<(Vec<u8>, T)> = vec![];
            for _ in 0..n {
                let t = rd.bytes();
                checkb("fungible", rd.u64() == 0);
                l.push((t, rd.big()));
            }
            lists.push(l);
        }
        let (most, bonus) = (rd.decv(), rd.decv());
        checkb("nothing else", rd.done());
        let of = |l: &Vec<(Vec<u8>, T)>, t: &str| l.iter().filter(|(u, _)| u == t.as_bytes()).fold(k(0), |a, (_, x)| add(a, *x));
        check("the estimated collateral less the fee is received", eq(neg(r.spent(A)), sub(of(&lists[0], A), of(&lists[1], A))));
        check("the estimated collateral leaves the account and pool", eq(sub(r.before[0].2, r.p.cash(A)), sub(of(&lists[0], A), of(&lists[1], A))));
        for t in [B, C] {
            let offered = pays.iter().zip(&xs).filter(|(u, _)| **u == t).fold(k(0), |a, (_, x)| add(a, *x));
            check("the estimated refunds come back", eq(sub(offered, r.spent(t)), of(&lists[2], t)));
        }
        // the value repaid is the payment's, up to the precision of the tokens paid
        let mut paid = k(0);
        let mut room = k(p10(10));
        for t in [B, C] {
            paid = add(paid, r.worth(t, r.spent(t)));
            room = add(room, mul(k(2), r.unit(t)));
        }
        check("the estimated repayment is what is paid", le(abs_diff(mul(most, k(p10(9))), paid), room));
        check("the bonus is at most fifteen percent", and(&[le(bonus, k(1500)), ge(bonus, k(100))]));
        reach("estimated");
    })
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C29",
            scen: |c| {
                let st = if c.thorough { 5 } else { 50 };
                vec![
                    live(st, "collateral", false, 248, 8000, 500, 18, 6),
                    live(st, "debt", true, 99, 8000, 500, 18, 6),
                    live(st, "collateral, high bonus", false, 265, 7500, 1500, 6, 18),
                    live(st, "debt, low threshold", true, 62, 5000, 100, 6, 18),
                    live(st, "debt, high threshold", true, 121, 9700, 400, 18, 6),
                    live(st, "collateral, bonus above the maximum", false, 265, 7500, 2500, 18, 6),
                    live(st, "collateral, settings since changed", false, 248, 8000, 500, 6, 18),
                    estimate("one debt", &[B], 1_950_000, 8000, 500),
                    estimate("two debts", &[B, C], 1_950_000, 8000, 500),
                    estimate("twice the same", &[B, B], 2_100_000, 8000, 500),
                    estimate("deep", &[C, B], 2_500_000, 7500, 1400),
                    estimate("three payments", &[C, B, C], 1_950_000, 8000, 500),
                ]
            },
            reach: &["healthy or worthless", "liquidated at any price", "estimated", "everything switched off", "category deprecated"],
            bounds: "seven accounts (thresholds 50..97%, bonuses 1..25%, 6 and 18 decimals) with fixed positions; the price of the collateral or of the debt symbolic over a factor of 3.4 below health one, cut into 250 bands of 0.5% (the quick run decides every fiftieth band, the thorough run every fifth); payment above the whole debt; one of the accounts also after every market was switched off, siloed, isolated and capped at one unit, or its category deprecated",
            assumptions: &[],
        },
        Prop {
            id: "C27",
            scen: |_| vec![healthy(false), healthy(true), liquidatable()],
            reach: &["healthy account refused", "liquidatable", "not liquidatable"],
            bounds: "one or two collaterals and debts; prices, indexes, positions and thresholds symbolic; any payment",
            assumptions: &[],
        },
        Prop {
            id: "C28",
            scen: |_| {
                vec![
                    fixed("recoverable to 1.02", 2_100_000, 8000, 500, 18, 6),
                    fixed("barely unhealthy", 2_034_000, 8000, 500, 18, 18),
                    fixed("recoverable to 1.01", 2_330_000, 8000, 500, 6, 18),
                    fixed("unrecoverable", 2_480_000, 8000, 500, 18, 18),
                    fixed("under water", 3_000_000, 8000, 500, 6, 6),
                    fixed("high bonus", 2_300_000, 7500, 1400, 18, 6),
                    fixed("low threshold, far below one", 1_600_000, 3000, 500, 18, 6),
                    fixed("high threshold", 2_480_000, 9700, 400, 18, 6),
                    fixed("high threshold, deep", 2_640_000, 9700, 400, 6, 18),
                    fixed("bonus above the maximum", 2_400_000, 7500, 2500, 18, 6),
                    fixed("bonus above the maximum, deep", 2_900_000, 7500, 2500, 18, 6),
                    fixed_two("one debt paid", &[B], 1_650_000),
                    fixed_two("both debts paid", &[B, C], 1_650_000),
                    fixed_two("one debt paid twice", &[B, B], 1_650_000),
                    fixed_two("deep", &[B, C], 2_100_000),
                    fixed_two("three payments, two debts", &[B, C, B], 1_650_000),
                    worthless(),
                ]
            },
            reach: &["liquidated", "liquidation refused", "tiny liquidation", "worthless payment refused"],
            bounds: "accounts fixed at one representative of every recovery tier (1.02, 1.01, unrecoverable, under water, high bonus) with concrete positions, prices and indexes, thresholds 30..97%, bonuses 4..25%; up to three payments of 0..1e36 in one or two tokens (repeats included); 6, 8 and 18 decimals",
            assumptions: &[],
        },
        Prop {
            id: "C30",
            scen: |_| {
                vec![
                    cleanup(1, 1, false),
                    cleanup(2, 2, false),
                    cleanup(2, 3, false),
                    cleanup(1, 3, false),
                    cleanup(3, 1, false),
                    cleanup(1, 1, true),
                    cleanup(1, 3, true),
                ]
            },
            reach: &["cleaned", "refused"],
            bounds: "accounts with one to three collaterals and one to three debts (seven combinations), isolated or not; positions, prices and indexes symbolic",
            assumptions: &[],
        },
    ]
}
