//! What the read-outs tell: the books as they are, and the amounts operations then move.
use super::access::{bob, bot};
use super::ctrl::lin_mkt;
use super::pool::{any_state, TOK};
use super::{Cfg, Prop};
use crate::engine::*;
use crate::env::*;
use crate::env_ctrl::*;
use crate::term::*;
use crate::vm::*;
use num_bigint::BigInt;
use std::rc::Rc;

const A: &str = "AAA-111111";
const B: &str = "BBB-222222";
const C: &str = "CCC-333333";
const N: u64 = 7;
const DAY: u64 = 86_400_000;

fn cents(n: i64) -> T {
    k(p10(16) * n)
}
/// what a pool reads out is its state, in the token's own units
pub fn pool_views(d: u32) -> Scenario {
    Scenario::new(format!("a pool's read-outs dec={}", d), move || {
        let params = std_params(d);
        let p = Pool::deploy(TOK, &params);
        let st = any_state();
        p.set(&st);
        let cash = var("cash", 0, p10(36), p10(d) * 1000);
        p.set_bal(cash);
        let late = [0, 1, 6_000, 31 * DAY][pick("elapsed", 4)];
        set_time_ms(T0 + late);
        let one = |f: &str| {
            let r = query(&p.addr, f, vec![]);
            checkb("every view answers", r.ok());
            r.out()[0].clone()
        };
        let num = |f: &str, units: u32| {
            let (v, dec_) = undec(&one(f));
            checkb("in the expected precision", dec_ == units || as_const(v) == Some(BigInt::from(0)));
            v
        };
        let own = |s: T, i: T| from_ray(rmul(s, i), d);
        check("reserves are the cash", eq(num("reserves", d), cash));
        check("supplied is what deposits are worth", eq(num("suppliedAmount", d), own(st.supplied, st.sidx)));
        check("borrowed is what debts are worth", eq(num("borrowedAmount", d), own(st.borrowed, st.bidx)));
        check("revenue is what the protocol's share is worth", eq(num("protocolRevenue", d), own(st.revenue, st.sidx)));
        checkb("time since the last accrual", untop_u(&one("deltaTime")) == late);
        check("scaled supply", eq(num("getSuppliedScaled", 27), st.supplied));
        check("scaled debt", eq(num("getBorrowedScaled", 27), st.borrowed));
        check("scaled revenue", eq(num("getRevenueScaled", 27), st.revenue));
        check("supply index", eq(num("getSupplyIndex", 27), st.sidx));
        check("borrow index", eq(num("getBorrowIndex", 27), st.bidx));
        checkb("time of the last accrual", untop_u(&one("getLastTimestamp")) == T0);
        let g = Params::parse(&one("getParameters"));
        check("the market's settings", and(&g.list().iter().zip(params.list()).map(|(x, y)| eq(*x, y)).collect::<Vec<_>>()));
        reach("pool read-outs");
    })
}

fn markets() -> Vec<Mkt> {
    let mut ms = vec![lin_mkt(A, 18, cents(250), 1300, 1100), lin_mkt(B, 6, cents(99), 1203, 1050), lin_mkt(C, 8, cents(4010), 1107, 1001)];
    for (m, use_) in ms.iter_mut().zip([50, 90, 12]) {
        m.st.supplied = k(p10(38));
        m.st.borrowed = k(p10(36) * use_);
    }
    ms
}
fn later(p: &Proto) -> u64 {
    let late = [0, 1, 3_000_000, DAY, 400 * DAY][pick("elapsed", 5)];
    set_time_ms(T0 + late);
    for m in &p.mkts {
        p.set_price(&m.tok, m.price);
    }
    p.set_price("EGLD", kwad());
    late
}
fn nt(t: &str) -> Vec<Vec<u8>> {
    vec![top_u(N), t.as_bytes().to_vec()]
}
/// the indexes `getAllMarketIndexes` shows, per asset, in the order asked
fn indexes(p: &Proto, ts: &[&str]) -> Vec<(T, T)> {
    let r = p.view("getAllMarketIndexes", ts.iter().map(|t| t.as_bytes().to_vec()).collect());
    checkb("the market overview answers", r.ok());
    let out = r.out().concat();
    let mut rd = Rd(&out);
    let v = ts
        .iter()
        .map(|t| {
            checkb("assets in the order asked", rd.bytes() == t.as_bytes());
            let v: Vec<T> = (0..8).map(|_| rd.decv()).collect();
            (rd.bool(), rd.bool());
            (v[0], v[1])
        })
        .collect();
    checkb("nothing else", rd.done());
    v
}
/// views asked some time after the last accrual tell what operations then use
pub fn foretold(d: u32) -> Scenario {
    Scenario::new(format!("views and the operations after them dec={}", d), move || {
        let mut ms = markets();
        ms[1].dec = d;
        ms[1].params = std_params(d);
        let p = Proto::new(ms);
        p.add_user(bob());
        let then = pick("then", 4);
        let any = |n: &str, max_: u32, hint: i64, free: bool| if free { var(n, 1, p10(max_), p10(27) * hint) } else { k(p10(27) * hint) };
        let (da, db) = (any("depA", 36, 1000, then == 2), any("debtB", 36, 700, then != 1 && then != 2));
        p.account(&p.user, N, &normal(), &[deposit(A, da), deposit(C, k(p10(27) * 3)), debt(B, db)]);
        // a second account, free of debt
        let da8 = any("depA8", 36, 50, then == 1);
        p.account(&bob(), 8, &normal(), &[deposit(A, da8)]);
        let late = later(&p);
        let n = vec![top_u(N)];
        const SUMS: [&str; 5] = ["getHealthFactor", "getTotalBorrowInEgld", "getTotalCollateralInEgld", "getLiquidationCollateralAvailable", "getLtvCollateralInEgld"];
        let sums = || SUMS.iter().map(|f| p.viewd(f, n.clone())).collect::<Vec<T>>();
        let can = || p.view("canBeLiquidated", n.clone()).out()[0] == vec![1u8];
        let owed = || p.viewd("getBorrowAmountForToken", nt(B));
        match then {
            0 => {
                let o = owed();
                checkb("a token the account does not owe has no amount", !p.view("getBorrowAmountForToken", nt(A)).ok());
                if p.repay_by(&bob(), N, vec![(B, k(p10(BIG)))]).ok() {
                    check("a debt costs what the view says", eq(sub(k(p10(BIG)), p.bal(&bob(), B)), o));
                    reach("debt foretold");
                } else {
                    fail("an overpayment is taken");
                }
            }
            1 => {
                let held = p.viewd("getCollateralAmountForToken", vec![top_u(8), A.as_bytes().to_vec()]);
                checkb("a token the account does not hold has no amount", !p.view("getCollateralAmountForToken", nt(B)).ok());
                if tx(&bob(), &p.c, "withdraw", vec![payment_arg(A, 0, k(p10(BIG)))], vec![pay_nft(ACC, 8)]).ok() {
                    check("a deposit pays out what the view says", eq(sub(p.bal(&bob(), A), k(p10(BIG))), held));
                    reach("deposit foretold");
                } else {
                    fail("a free deposit can be taken out");
                }
            }
            2 => {
                let (s0, c0, o) = (sums(), can(), owed());
                let some = [vec![A], vec![C, B], vec![A, B, C]][pick("refreshed", 3)].clone();
                must(&p.user, &p.c, "updateIndexes", some.iter().map(|t| t.as_bytes().to_vec()).collect(), vec![]);
                for (x, y) in sums().iter().zip(&s0) {
                    check("refreshing the indexes changes no total", eq(*x, *y));
                }
                checkb("nor whether the account can be liquidated", can() == c0);
                check("nor what is owed", eq(owed(), o));
                reach("totals foretold");
            }
            _ => {
                let (idx, h, c, o) = (indexes(&p, &[C, A, B]), sums()[0], can(), owed());
                must(&p.user, &p.c, "updateIndexes", [A, B, C].iter().map(|t| t.as_bytes().to_vec()).collect(), vec![]);
                for (t, (s, b)) in [C, A, B].iter().zip(&idx) {
                    check("the indexes shown are the ones stored next", and(&[eq(p.state(t).sidx, *s), eq(p.state(t).bidx, *b)]));
                }
                let mut now = p.clone();
                for m in now.mkts.iter_mut() {
                    m.st = p.state(&m.tok);
                }
                let (ds, bs) = (p.positions(N, DEPOSIT), p.positions(N, BORROW));
                let (w_, z) = (now.weighted(&ds, |q| q.threshold), now.total(&bs));
                check("the health shown counts interest to date", eq(h, now.health(w_, z)));
                check("liquidatable below one", if c { lt(h, kray()) } else { ge(h, kray()) });
                check("what is owed counts interest to date", eq(o, from_ray(rmul(db, p.state(B).bidx), d)));
                if late > 0 {
                    checkb("interest was due", as_const(p.state(B).bidx) > as_const(p.m(B).st.bidx));
                }
                reach("indexes foretold");
            }
        }
    })
}
/// asking changes nothing, even when a contract asks within a transaction
pub fn read_only() -> Scenario {
    Scenario::new("asking changes nothing", move || {
        let p = Proto::new(markets());
        p.add_user(bob());
        let est = flag("a liquidation is estimated", false);
        // healthy, or (for the estimate) unhealthy
        let owed = if est { k(p10(27) * 2100) } else { var("debtB", 1, p10(36), p10(27) * 700) };
        p.account(&p.user, N, &normal(), &[deposit(A, k(p10(30))), deposit(C, k(p10(27) * 3)), debt(B, owed)]);
        later(&p);
        let pay_ = payment_arg(B, 0, var("x", 0, p10(36), p10(8)));
        let all = || [A, B, C].iter().map(|t| t.as_bytes().to_vec()).collect::<Vec<_>>();
        let asks: Vec<(Addr, &str, Vec<Vec<u8>>)> = vec![
            (p.c, "getHealthFactor", vec![top_u(N)]),
            (p.c, "canBeLiquidated", vec![top_u(N)]),
            (p.c, "getTotalBorrowInEgld", vec![top_u(N)]),
            (p.c, "getTotalCollateralInEgld", vec![top_u(N)]),
            (p.c, "getLiquidationCollateralAvailable", vec![top_u(N)]),
            (p.c, "getLtvCollateralInEgld", vec![top_u(N)]),
            (p.c, "getCollateralAmountForToken", nt(A)),
            (p.c, "getBorrowAmountForToken", nt(B)),
            (p.c, "getAllMarketIndexes", all()),
            (p.c, "getAllMarkets", all()),
            (p.c, "getTokenPriceUSD", vec![A.as_bytes().to_vec()]),
            (p.c, "getTokenPriceEGLD", vec![A.as_bytes().to_vec()]),
            (pool_of(A), "capitalUtilisation", vec![]),
            (pool_of(A), "reserves", vec![]),
            (pool_of(B), "depositRate", vec![]),
            (pool_of(B), "borrowRate", vec![]),
            (pool_of(C), "protocolRevenue", vec![]),
            (pool_of(C), "suppliedAmount", vec![]),
            (pool_of(C), "borrowedAmount", vec![]),
            (pool_of(C), "deltaTime", vec![]),
        ];
        let (to, f, args) = if est { (p.c, "liquidationEstimations", vec![top_u(N), pay_]) } else { asks[pick("view", asks.len() as i32)].clone() };
        let was = w(|w| w.accts.iter().map(|(a, x)| (*a, x.storage.clone(), x.bal.clone())).collect::<Vec<_>>());
        let r = tx(&bob(), &to, f, args, vec![]);
        checkb("anyone may ask", r.ok());
        if est && r.ok() {
            reach("asked for an estimate");
        }
        for (a, st, bal) in was {
            let (same, held) = w(|w| (w.accts[&a].storage == st, w.accts[&a].bal.clone()));
            checkb("no record is written", same);
            for (t, x) in held {
                check("nothing moves", eq(x, bal.get(&t).copied().unwrap_or(k(0))));
            }
        }
        reach("asked");
    })
}
/// the controller's own records, as they are after real operations
fn records() -> Scenario {
    Scenario::new("the controller's records", move || {
        let mut ms = markets();
        let iso = flag("A isolated", false);
        ms[0].cfg.isolated = iso;
        ms[0].cfg.ceiling = k(p10(40));
        ms[1].cfg.iso_borrow = true;
        let p = Proto::new(ms);
        p.emode(1, k(9000), k(9300), k(150), false, &[(A, true, true), (B, true, true)]);
        p.emode(2, k(8800), k(9100), k(250), true, &[(C, true, false)]);
        let em = if iso { 0 } else { pick("category", 2) as u8 };
        let (x, y) = (var("x", p10(18), p10(30), p10(21)), var("y", 1, p10(6), p10(5)));
        if !p.supply(0, Some(em), vec![(A, x)]).ok() {
            fail("a plain deposit is taken");
            return;
        }
        if !p.borrow(1, vec![(B, y)]).ok() {
            fail("a small loan is granted");
            return;
        }
        let one = |f: &str, args: Vec<Vec<u8>>| p.view(f, args).out().concat();
        let list = |f: &str, args: Vec<Vec<u8>>| p.view(f, args).out().to_vec();
        let id = |t: &str| t.as_bytes().to_vec();
        for (ty, t) in [(DEPOSIT, A), (BORROW, B)] {
            let l = list("getPositions", vec![top_u(1), vec![ty]]);
            checkb("one position of each kind", l.len() == 2 && l[0] == id(t));
            let q = Pos::parse(&l[1]);
            let st = p.state(t);
            let (sc, amt) = if ty == DEPOSIT { (rdiv(to_ray(x, 18), st.sidx), x) } else { (rdiv(to_ray(y, 6), st.bidx), y) };
            checkb("a position names its kind, asset and account", q.ptype == ty && q.asset == id(t) && q.nonce == 1);
            check("a position holds the amount given or taken", and(&[eq(q.scaled, sc), gt(amt, k(0))]));
        }
        checkb("an account without positions has none", list("getPositions", vec![top_u(2), vec![DEPOSIT]]).is_empty());
        let at = Attrs::parse(&one("getAccountAttributes", vec![top_u(1)]));
        checkb("the account's attributes", at.isolated == iso && at.emode == em);
        checkb("the accounts", list("getAccounts", vec![]) == vec![top_u(1)] && untop_u(&one("getAccountNonce", vec![])) == 1);
        check(
            "isolated debt in dollars",
            eq(undec(&one("getIsolatedAssetDebtUsd", vec![id(A)])).0, if iso { div_hu(mul(mul(y, k(p10(12))), p.m(B).price), kwad()) } else { k(0) }),
        );
        for m in &p.mkts {
            checkb("each asset's pool", one("getPoolAddress", vec![id(&m.tok)]) == pool_of(&m.tok).to_vec());
            checkb("each asset's oracle", Oracle::parse(&one("getTokenOracle", vec![id(&m.tok)])).enc() == p.oracle(&m.tok).enc());
            super::admin::check_cfg("each asset's configuration", &ACfg::parse(&one("getAssetConfig", vec![id(&m.tok)])), &m.cfg);
        }
        checkb("all pools", list("getPools", vec![]) == p.mkts.iter().map(|m| pool_of(&m.tok).to_vec()).collect::<Vec<_>>());
        let cats = list("getEModes", vec![]);
        checkb("the categories", cats.len() == 4 && cats[0] == vec![1] && cats[2] == vec![2] && untop_u(&one("lastEModeCategoryId", vec![])) == 2);
        checkb("a category's assets", list("getEModesAssets", vec![vec![1]]) == vec![id(A), vec![1, 1], id(B), vec![1, 1]]);
        checkb("an asset's categories", list("getAssetEModes", vec![id(C)]) == vec![vec![2]] && list("getAssetEModes", vec![id(A)]) == vec![vec![1]]);
        checkb("position limits", one("getPositionLimits", vec![]) == vec![10, 10]);
        for (f, a) in [
            ("getPriceAggregatorAddress", p.agg),
            ("getAccumulatorAddress", p.accum),
            ("getSwapRouterAddress", p.router),
            ("getSafePriceAddress", p.view),
            ("getLiqPoolTemplateAddress", sc_addr("template")),
        ] {
            checkb("the addresses in use", one(f, vec![]) == a.to_vec());
        }
        checkb("no flash loan is under way", one("isFlashLoanOngoing", vec![]).is_empty());
        let c = p.c;
        add_account(
            bot(),
            Kind::Mock(Rc::new(move |k_: &Call| {
                let v = call(&k_.me, &c, vec![], "isFlashLoanOngoing", vec![], false);
                checkb("a flash loan is under way", v.concat() == vec![1]);
                for q in k_.pays {
                    transfer(&k_.me, &k_.caller, &pay(B, mul(q.amount, k(2))));
                }
                vec![]
            })),
            user_addr("evil"),
            true,
        );
        if p.call(&p.user, "flashLoan", vec![b_of(B), enc_u(k(1000)), bot().to_vec(), b"go".to_vec(), vec![]], vec![]).ok() {
            checkb("and then no more", one("isFlashLoanOngoing", vec![]).is_empty());
            reach("flash loan shown");
        }
        reach("records");
    })
}
fn b_of(t: &str) -> Vec<u8> {
    t.as_bytes().to_vec()
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C48",
        scen: |c: &Cfg| {
            let mut v: Vec<Scenario> = if c.thorough { vec![0, 6, 8, 18, 27] } else { vec![6, 18] }.into_iter().map(pool_views).collect();
            v.extend([foretold(6), foretold(18), read_only(), records()]);
            v
        },
        reach: &["pool read-outs", "debt foretold", "deposit foretold", "totals foretold", "indexes foretold", "asked", "asked for an estimate", "records", "flash loan shown"],
        bounds: "pool totals up to 1e40 scaled units, indexes 0.001..1000, 6 and 18 decimals (0, 8, 27 in the thorough run); an account with two deposits and a debt of any size, read 0, 1 or 400 days after the last accrual of markets at 50%, 90% and 12% utilization; all 13 computed controller views and 8 pool views asked within a transaction",
        assumptions: &[],
    }]
}
