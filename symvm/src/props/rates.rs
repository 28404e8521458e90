#![cfg_attr(not(feature = "lib"), allow(dead_code, unused_imports))]
//! Interest-rate model, compounding, accrual.
use super::{Cfg, Prop};
use crate::engine::*;
use crate::env::*;
use crate::lib_ctx::*;
use crate::term::*;
use crate::vm::*;
#[cfg(feature = "lib")]
use common_rates::InterestRates;
use num_bigint::BigInt;

const TOK: &str = "TOKEN-123456";
pub const MSY: u64 = 31_556_926_000;

#[cfg(feature = "lib")]
fn obj() -> liquidity_layer::ContractObj<SymApi> {
    liquidity_layer::contract_obj::<SymApi>()
}

/// every parameter set the constructor accepts (rates up to 1000% a year)
pub fn sym_params(dec: u32) -> Params {
    let r10 = p10(28);
    let p = Params {
        max: var("p.max", 1, r10.clone(), frac_ray(1, 1)),
        base: var("p.base", 0, r10.clone(), frac_ray(1, 100)),
        s1: var("p.s1", 0, r10.clone(), frac_ray(4, 100)),
        s2: var("p.s2", 0, r10.clone(), frac_ray(10, 100)),
        s3: var("p.s3", 0, r10, frac_ray(3, 1)),
        mid: var("p.mid", 0, p10(27), frac_ray(65, 100)),
        opt: var("p.opt", 0, p10(27) - 1, frac_ray(90, 100)),
        rf: var("p.rf", 0, 9999, 2000),
        dec,
    };
    assume(gt(p.max, p.base));
    assume(gt(p.opt, p.mid));
    p
}

/// annual rate before the cap, as documented: three linear segments
pub fn spec_annual(u: T, p: &Params) -> T {
    if fork(lt(u, p.mid)) {
        add(p.base, div(mul(u, p.s1), p.mid))
    } else if fork(lt(u, p.opt)) {
        add(add(p.base, p.s1), div(mul(sub(u, p.mid), p.s2), sub(p.opt, p.mid)))
    } else {
        add(add(add(p.base, p.s1), p.s2), div(mul(sub(u, p.opt), p.s3), sub(kray(), p.opt)))
    }
}
pub fn spec_rate(u: T, p: &Params) -> T {
    let a = spec_annual(u, p);
    let c = if fork(gt(a, p.max)) { p.max } else { a };
    div_hu(c, k(MSY))
}
pub fn spec_factor(rate: T, delta: T) -> T {
    let x = mul(rate, delta);
    let x2 = rmul(x, x);
    let x3 = rmul(x2, x);
    let x4 = rmul(x3, x);
    let x5 = rmul(x4, x);
    let h = |t: T, n: u32| div_hu(t, k(n));
    [x, h(x2, 2), h(x3, 6), h(x4, 24), h(x5, 120)].iter().fold(kray(), |a, t| add(a, *t))
}
/// what one accrual over `delta` ms does to the pool's totals and indexes
pub fn spec_accrue(s: &PState, p: &Params, delta: T) -> PState {
    let debt = rmul(s.borrowed, s.bidx);
    let sup = rmul(s.supplied, s.sidx);
    let u = if fork(eq(sup, k(0))) { k(0) } else { rdiv(debt, sup) };
    let f = spec_factor(spec_rate(u, p), delta);
    let bidx = rmul(s.bidx, f);
    let interest = sub(rmul(s.borrowed, bidx), debt);
    let fee = div_hu(mul(interest, p.rf), k(10000));
    let rewards = sub(interest, fee);
    let sidx = if fork(or(&[eq(sup, k(0)), eq(rewards, k(0))])) {
        s.sidx
    } else {
        rmul(s.sidx, add(kray(), rdiv(rewards, sup)))
    };
    let fs = rdiv(fee, sidx);
    PState { supplied: add(s.supplied, fs), borrowed: s.borrowed, revenue: add(s.revenue, fs), bidx, sidx, last: s.last }
}

#[cfg(feature = "lib")]
fn rate_curve() -> Scenario {
    Scenario::new("borrow rate curve", || {
        let p = sym_params(18);
        let u = var("u", 0, p10(28), frac_ray(70, 100));
        let r = lib("InterestRates::calculate_borrow_rate", || {
            tmd(&obj().calculate_borrow_rate(md(u, 27), mparams(&p, TOK)))
        });
        checkb("a rate exists for every utilization", r.is_ok());
        if let Ok(r) = r {
            observe("rate", r);
            let a = spec_annual(u, &p);
            check("never above the cap", le(r, div_hu(p.max, k(MSY))));
            check("never below the base rate", ge(r, div_hu(p.base, k(MSY))));
            check("piecewise linear rate", eq(r, div_hu(min(a, p.max), k(MSY))));
            reach("rate");
            if fork(lt(u, p.mid)) {
                reach("first segment");
            } else if fork(lt(u, p.opt)) {
                reach("second segment");
            } else {
                reach("third segment");
            }
            if fork(gt(a, p.max)) {
                reach("capped");
            }
        }
    })
}
#[cfg(feature = "lib")]
fn rate_monotone() -> Scenario {
    Scenario::new("borrow rate monotone", || {
        let p = sym_params(18);
        let u1 = var("u1", 0, p10(28), frac_ray(60, 100));
        let u2 = var("u2", 0, p10(28), frac_ray(80, 100));
        assume(le(u1, u2));
        let r = lib("InterestRates::calculate_borrow_rate", || {
            let o = obj();
            (
                tmd(&o.calculate_borrow_rate(md(u1, 27), mparams(&p, TOK))),
                tmd(&o.calculate_borrow_rate(md(u2, 27), mparams(&p, TOK))),
            )
        });
        if let Ok((a, b)) = r {
            // the annual rates, which the two results are the roundings of
            let (x, y) = (min(spec_annual(u1, &p), p.max), min(spec_annual(u2, &p), p.max));
            lemma("annual rate does not fall as utilization rises", le(x, y));
            check("rate does not fall as utilization rises", le(a, b));
            reach("two utilizations");
        }
    })
}
/// the market views report the same curve
fn rate_views() -> Scenario {
    Scenario::new("rate views", || {
        let p = std_params(18);
        let pool = Pool::deploy(TOK, &p);
        let st = PState {
            supplied: var("S", 0, p10(40), p10(30)),
            borrowed: var("B", 0, p10(40), p10(29)),
            revenue: k(0),
            bidx: var("bidx", p10(27), p10(29), frac_ray(12, 10)),
            sidx: var("sidx", p10(26), p10(29), frac_ray(11, 10)),
            last: T0,
        };
        pool.set(&st);
        let (ru, rb, rd) = (
            query(&pool.addr, "capitalUtilisation", vec![]),
            query(&pool.addr, "borrowRate", vec![]),
            query(&pool.addr, "depositRate", vec![]),
        );
        checkb("views answer", ru.ok() && rb.ok() && rd.ok());
        if !(ru.ok() && rb.ok() && rd.ok()) {
            return;
        }
        let sup = rmul(st.supplied, st.sidx);
        let u = if fork(eq(sup, k(0))) { k(0) } else { rdiv(rmul(st.borrowed, st.bidx), sup) };
        let (vu, vb, vd) = (undec(&ru.out()[0]).0, undec(&rb.out()[0]).0, undec(&rd.out()[0]).0);
        check("utilization view", eq(vu, u));
        check("borrow rate view", eq(vb, spec_rate(u, &p)));
        let d = rmul(rmul(u, vb), mul(sub(k(10000), p.rf), k(p10(23))));
        check("deposit rate is utilization x borrow rate x (1 - reserve factor)", eq(vd, ite(eq(u, k(0)), k(0), d)));
        reach("views");
    })
}

#[cfg(feature = "lib")]
fn compound(lo_x: bool) -> Scenario {
    Scenario::new(if lo_x { "compound factor" } else { "compound factor monotone" }, move || {
        // per-ms rate: up to 1000% a year; elapsed up to ~3 years
        let rmax: BigInt = p10(28) / MSY + 1;
        let rate = var("rate", 0, rmax, p10(27) / MSY / 20);
        let d1 = var("d1", 0, 100_000_000_000u64, 86_400_000);
        let call = |d: T| {
            let v = match as_const(d) {
                Some(c) => {
                    use num_traits::ToPrimitive;
                    c.to_u64().unwrap()
                }
                None => {
                    let s = TIME_SENTINEL + if lo_x { 0 } else { eval_tag() };
                    sentinel(s as i64, d);
                    s
                }
            };
            lib("InterestRates::calculate_compounded_interest", || {
                tmd(&obj().calculate_compounded_interest(md(rate, 27), v))
            })
        };
        if lo_x {
            if let Ok(f) = call(d1) {
                observe("f", f);
                check("simple interest is the floor", ge(f, add(kray(), mul(rate, d1))));
                // the fractional digits are exact to the last place of the five-term series
                check("five-term series", le(abs_diff(f, spec_factor(rate, d1)), k(4)));
                reach("compounded");
            } else {
                fail("compounding never fails");
            }
        } else {
            let d2 = var("d2", 0, 100_000_000_000u64, 96_400_000);
            assume(le(d1, d2));
            if let (Ok(a), Ok(b)) = (call(d1), call(d2)) {
                // monotone term by term
                let (mut x, mut y) = (mul(rate, d1), mul(rate, d2));
                let (x1, y1) = (x, y);
                lemma("order 1", le(x, y));
                for i in 2..6 {
                    lemma(&format!("order {} product", i), le(mul(x, x1), mul(y, y1)));
                    x = rmul(x, x1);
                    y = rmul(y, y1);
                    lemma(&format!("order {}", i), le(x, y));
                }
                check("longer time never gives a smaller factor", le(a, b));
                reach("two durations");
            }
        }
    })
}
thread_local! { static TAG: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
#[cfg(feature = "lib")]
fn eval_tag() -> u64 {
    TAG.with(|t| {
        t.set((t.get() + 1) % 1000);
        t.get() * 0x1_0000_0001
    })
}
#[cfg(feature = "lib")]
fn compound_zero() -> Scenario {
    Scenario::new("compound factor, no time", || {
        let rate = var("rate", 0, p10(27), p10(15));
        let r = lib("InterestRates::calculate_compounded_interest", || {
            tmd(&obj().calculate_compounded_interest(md(rate, 27), 0))
        });
        match r {
            Ok(f) => check("no time, no interest", eq(f, kray())),
            Err(_) => fail("compounding never fails"),
        }
    })
}
/// concrete durations (so that conversions the sentinel cannot follow are still covered)
#[cfg(feature = "lib")]
fn compound_conc(ms: u64) -> Scenario {
    Scenario::new(format!("compound factor over {} ms", ms), move || {
        let rmax: BigInt = p10(28) / MSY + 1;
        let rate = var("rate", 0, rmax, p10(27) / MSY / 20);
        let r = lib("InterestRates::calculate_compounded_interest", || {
            tmd(&obj().calculate_compounded_interest(md(rate, 27), ms))
        });
        match r {
            Ok(f) => {
                observe("f", f);
                check("simple interest is the floor", ge(f, add(kray(), mul(rate, k(ms)))));
                check("five-term series", le(abs_diff(f, spec_factor(rate, k(ms))), k(4)));
            }
            Err(_) => fail("compounding never fails"),
        }
    })
}

// ------------------------------------------------------------------ accrual
fn sym_state(last: u64) -> PState {
    PState {
        supplied: var("S", 0, p10(40), p10(30)),
        borrowed: var("B", 0, p10(40), p10(29) * 5),
        revenue: var("R", 0, p10(40), p10(27)),
        bidx: var("bidx", p10(27), p10(30), frac_ray(12, 10)),
        sidx: var("sidx", 1, p10(30), frac_ray(11, 10)),
        last,
    }
}
#[cfg(feature = "lib")]
fn rewards_split() -> Scenario {
    Scenario::new("interest split", || {
        let b = var("B", 0, p10(40), p10(29));
        let i0 = var("i0", p10(27), p10(30), frac_ray(12, 10));
        let i1 = var("i1", p10(27), p10(31), frac_ray(13, 10));
        assume(le(i0, i1));
        let mut p = std_params(18);
        p.rf = var("p.rf", 0, 9999, 2000);
        let r = lib("InterestRates::calculate_supplier_rewards", || {
            let (s, f) = obj().calculate_supplier_rewards(mparams(&p, TOK), &md(b, 27), &md(i1, 27), &md(i0, 27));
            (tmd(&s), tmd(&f))
        });
        match r {
            Ok((s, f)) => {
                let interest = sub(rmul(b, i1), rmul(b, i0));
                check("suppliers and protocol share exactly the interest the borrowers owe", eq(add(s, f), interest));
                check("protocol share is the reserve factor", le(abs_diff(mul(f, k(20000)), mul(k(2), mul(interest, p.rf))), k(10000)));
                reach("split");
            }
            Err(_) => fail("splitting never fails"),
        }
    })
}
#[cfg(feature = "lib")]
fn index_growth() -> Scenario {
    Scenario::new("supply index growth", || {
        let s = var("S", 0, p10(40), p10(29));
        let i0 = var("i0", p10(24), p10(30), frac_ray(12, 10));
        let rw = var("rewards", 0, p10(40), p10(26));
        let total = rmul(s, i0);
        let r = lib("InterestRates::update_supply_index", || tmd(&obj().update_supply_index(md(s, 27), md(i0, 27), md(rw, 27))));
        match r {
            Ok(i1) => {
                observe("i1", i1);
                check("supply index never falls", ge(i1, i0));
                // suppliers together gain the rewards: i1 = i0 (1 + rewards / total)
                if fork(and(&[gt(total, k(0)), gt(rw, k(0))])) {
                    let q = rdiv(rw, total);
                    check("index grows by the reward ratio", le(abs_diff(i1, add(i0, rmul(i0, q))), k(1)));
                    reach("growth");
                } else {
                    check("no suppliers or no rewards: unchanged", eq(i1, i0));
                }
            }
            Err(_) => fail("never fails"),
        }
    })
}
fn accrue_endpoint(dec_: u32, sym: bool, conc: Option<u64>) -> Scenario {
    Scenario::new(
        format!("updateIndexes dec={} {} {}", dec_, if sym { "any parameters" } else { "reference parameters" }, conc.map_or("any time".into(), |d| format!("{} ms", d))),
        move || {
            let p = if sym { sym_params(dec_) } else { std_params(dec_) };
            let pool = Pool::deploy(TOK, &p);
            let st = sym_state(T0);
            pool.set(&st);
            let d = match conc {
                Some(c) => k(c),
                None => var("delta", 1, 100_000_000_000u64, 86_400_000),
            };
            sym_time(T0, d);
            let r = pool.call("updateIndexes", vec![pool.price()], vec![]);
            match r {
                TxRes::Ok(_) => {
                    let s1 = pool.state();
                    observe_state("s1", &s1);
                    let e = spec_accrue(&st, &p, d);
                    check("borrow index", eq(s1.bidx, e.bidx));
                    check("supply index", eq(s1.sidx, e.sidx));
                    check("the fee is added to the revenue", eq(s1.revenue, e.revenue));
                    check("the fee is backed by supply", eq(sub(s1.supplied, st.supplied), sub(s1.revenue, st.revenue)));
                    check("borrowed shares unchanged", eq(s1.borrowed, st.borrowed));
                    check("borrow index never falls", ge(s1.bidx, st.bidx));
                    check("supply index never falls", ge(s1.sidx, st.sidx));
                    checkb("accrual time recorded", s1.last == w(|w| w.now_ms));
                    check("no tokens move", eq(pool.bal(), k(0)));
                    reach("accrued");
                    // a second accrual at the same time changes nothing
                    let r2 = pool.call("updateIndexes", vec![pool.price()], vec![]);
                    checkb("accrual is repeatable", r2.ok());
                    let s2 = pool.state();
                    check("idempotent", and(&[eq(s2.bidx, s1.bidx), eq(s2.sidx, s1.sidx), eq(s2.supplied, s1.supplied), eq(s2.revenue, s1.revenue)]));
                }
                TxRes::Err(_) => fail("accrual never fails"),
            }
        },
    )
}
/// borrowers' extra debt = suppliers' gain + protocol fee, in value
#[cfg(feature = "lib")]
fn conservation() -> Scenario {
    Scenario::new("interest conservation", || {
        // composed from the same functions the pool uses, cut at the interest amount
        let st = sym_state(T0);
        assume(ge(st.supplied, k(p10(27))));
        let total = rmul(st.supplied, st.sidx);
        let interest = var("interest", 0, p10(40), p10(25));
        let mut p = std_params(18);
        p.rf = var("p.rf", 0, 9999, 2000);
        assume(le(interest, mul(total, k(10))));
        let fee = div_hu(mul(interest, p.rf), k(10000));
        let rewards = sub(interest, fee);
        let r = lib("InterestRates::update_supply_index", || tmd(&obj().update_supply_index(md(st.supplied, 27), md(st.sidx, 27), md(rewards, 27))));
        if let Ok(i1) = r {
            // gain of all suppliers together, exact (scaled by RAY)
            let gain = mul(st.supplied, sub(i1, st.sidx));
            // rounding of the index is at most one unit either way, of the ratio half a unit
            let slack = add(mul(st.supplied, k(2)), add(total, kray()));
            check("suppliers do not gain more than the rewards", le(gain, add(mul(rewards, kray()), mul(slack, k(2)))));
            check("suppliers do not gain less than the rewards", ge(gain, sub(mul(rewards, kray()), mul(slack, k(2)))));
            reach("conserved");
        }
    })
}
/// preview = execution
#[cfg(feature = "lib")]
fn preview(sym: bool, conc: Option<u64>) -> Scenario {
    Scenario::new(
        format!("preview vs accrual {} {}", if sym { "any parameters" } else { "reference parameters" }, conc.map_or("any time".into(), |d| format!("{} ms", d))),
        move || {
            let p = if sym { sym_params(18) } else { std_params(18) };
            let pool = Pool::deploy(TOK, &p);
            let st = sym_state(T0);
            pool.set(&st);
            let d = match conc {
                Some(c) => k(c),
                None => var("delta", 1, 100_000_000_000u64, 86_400_000),
            };
            sym_time(T0, d);
            let now = w(|w| w.now_ms);
            let sim = lib("InterestRates::simulate_update_indexes", || {
                let m = obj().simulate_update_indexes(
                    now,
                    T0,
                    md(st.borrowed, 27),
                    md(st.bidx, 27),
                    md(st.supplied, 27),
                    md(st.sidx, 27),
                    mparams(&p, TOK),
                );
                (tmd(&m.supply_index_ray), tmd(&m.borrow_index_ray))
            });
            let r = pool.call("updateIndexes", vec![pool.price()], vec![]);
            match (sim, r) {
                (Ok((s, b)), TxRes::Ok(_)) => {
                    let s1 = pool.state();
                    check("previewed supply index is the executed one", eq(s, s1.sidx));
                    check("previewed borrow index is the executed one", eq(b, s1.bidx));
                    reach("previewed");
                }
                (Err(_), TxRes::Err(_)) => {}
                _ => fail("preview fails exactly when accrual fails"),
            }
        },
    )
}

#[cfg(feature = "lib")]
pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C02",
            scen: |_c: &Cfg| vec![rate_curve(), rate_monotone(), rate_views()],
            reach: &["rate", "first segment", "second segment", "third segment", "capped", "two utilizations", "views"],
            bounds: "all parameter sets the constructor accepts with rates up to 1000% a year; utilization 0..10 (1000%); views: pools up to 1e40 raw scaled units with the reference parameters",
            assumptions: &[],
        },
        Prop {
            id: "C03",
            scen: |_c: &Cfg| vec![compound(true), compound(false), compound_zero(), compound_conc(1), compound_conc(1000), compound_conc(86_400_000), compound_conc(MSY)],
            reach: &["compounded", "two durations"],
            bounds: "per-ms rate up to 1000% a year, elapsed 0..1e11 ms (3 years)",
            assumptions: &[],
        },
        Prop {
            id: "C04",
            scen: |_c: &Cfg| {
                vec![
                    rewards_split(),
                    index_growth(),
                    conservation(),
                    accrue_endpoint(18, false, None),
                    accrue_endpoint(6, false, None),
                    accrue_endpoint(18, true, None),
                    accrue_endpoint(18, false, Some(86_400_000)),
                    accrue_endpoint(18, false, Some(1)),
                ]
            },
            reach: &["split", "growth", "accrued", "conserved"],
            bounds: "scaled totals 0..1e40, borrow index 1..1000, supply index 0.001..1000, elapsed 1..1e11 ms, any accepted rate parameters",
            assumptions: &[],
        },
        Prop {
            id: "C05",
            scen: |_c: &Cfg| vec![preview(false, None), preview(true, None), preview(false, Some(6000))],
            reach: &["previewed"],
            bounds: "as C04",
            assumptions: &[],
        },
    ]
}
