//! Administration: who may configure the protocol, and that what is stored is what was asked for.
use super::access::*;
use super::ctrl::{lin_mkt, A, B, C};
use super::{Cfg, Prop};
use crate::engine::*;
use crate::env::*;
use crate::env_ctrl::*;
use crate::term::*;
use crate::vm::*;
use multiversx_sc::storage::mappers::{MapMapper, StorageMapper, UnorderedSetMapper};
use multiversx_sc::storage::StorageKey;
use multiversx_sc::types::*;
use num_bigint::BigInt;
use std::collections::BTreeMap;
use std::rc::Rc;

const D: &str = "DDD-444444";
const PAIR: &str = "pair";

fn tb(t: &str) -> Vec<u8> {
    t.as_bytes().to_vec()
}
/// symbolic basis points
fn bp(n: &str, hint: i32) -> T {
    var(n, 0, 20000, hint)
}
fn snapshot(a: &Addr) -> BTreeMap<Vec<u8>, Vec<u8>> {
    w(|w| w.accts[a].storage.clone())
}
/// every stored value of the contract except those under the given keys is what it was
fn only_changed(n: &str, a: &Addr, before: &BTreeMap<Vec<u8>, Vec<u8>>, keys: &[Vec<u8>]) {
    let after = snapshot(a);
    for (kx, v) in before.iter().chain(after.iter()) {
        if keys.iter().any(|q| kx.starts_with(q)) {
            continue;
        }
        let same = before.get(kx) == Some(v) && after.get(kx) == Some(v);
        if !same {
            checkb(&format!("{}: {}", n, String::from_utf8_lossy(kx).escape_debug()), false);
            return;
        }
    }
    checkb(n, true);
}
fn same_cfg(x: &ACfg, y: &ACfg) -> (bool, crate::term::B) {
    let opt = |a: &Option<T>, b: &Option<T>| match (a, b) {
        (Some(a), Some(b)) => Some(eq(*a, *b)),
        (None, None) => Some(tru()),
        _ => None,
    };
    let (o1, o2) = (opt(&x.bcap, &y.bcap), opt(&x.scap, &y.scap));
    let flags = x.coll == y.coll
        && x.borr == y.borr
        && x.emode == y.emode
        && x.isolated == y.isolated
        && x.siloed == y.siloed
        && x.flash == y.flash
        && x.iso_borrow == y.iso_borrow;
    if !flags || o1.is_none() || o2.is_none() {
        return (false, tru());
    }
    (
        true,
        and(&[
            eq(x.ltv, y.ltv),
            eq(x.thr, y.thr),
            eq(x.bonus, y.bonus),
            eq(x.fees, y.fees),
            eq(x.ceiling, y.ceiling),
            eq(x.flash_fee, y.flash_fee),
            o1.unwrap(),
            o2.unwrap(),
        ]),
    )
}
pub fn check_cfg(n: &str, x: &ACfg, y: &ACfg) {
    let (f, c) = same_cfg(x, y);
    checkb(n, f);
    check(n, c);
}
fn sym_params(d: u32) -> Params {
    let m = p10(28);
    Params {
        max: var("p.max", 0, m.clone(), frac_ray(1, 1)),
        base: var("p.base", 0, m.clone(), frac_ray(1, 100)),
        s1: var("p.s1", 0, m.clone(), frac_ray(4, 100)),
        s2: var("p.s2", 0, m.clone(), frac_ray(10, 100)),
        s3: var("p.s3", 0, m.clone(), frac_ray(3, 1)),
        mid: var("p.mid", 0, m.clone(), frac_ray(65, 100)),
        opt: var("p.opt", 0, m, frac_ray(90, 100)),
        rf: var("p.rf", 0, 20000, 2000),
        dec: d,
    }
}
fn curve_ok(p: &Params) -> crate::term::B {
    and(&[gt(p.max, p.base), gt(p.opt, p.mid), lt(p.opt, kray()), lt(p.rf, k(10000))])
}
fn create_args(t: &str, pr: &Params, c: &ACfg, decimals: u64) -> Vec<Vec<u8>> {
    let mut v = vec![tb(t)];
    v.extend(pr.list().iter().map(|x| enc_u(*x)));
    v.extend([c.ltv, c.thr, c.bonus, c.fees].iter().map(|x| enc_u(*x)));
    v.extend([top_bool(c.coll), top_bool(c.borr), top_bool(c.isolated), enc_u(c.ceiling), enc_u(c.flash_fee)]);
    v.extend([top_bool(c.siloed), top_bool(c.flash), top_bool(c.iso_borrow), top_u(decimals)]);
    v.extend([enc_u(c.bcap.unwrap_or(k(0))), enc_u(c.scap.unwrap_or(k(0)))]);
    v
}
fn edit_args(t: &str, c: &ACfg) -> Vec<Vec<u8>> {
    let mut v = vec![tb(t)];
    v.extend([c.ltv, c.thr, c.bonus, c.fees].iter().map(|x| enc_u(*x)));
    v.extend([top_bool(c.isolated), enc_u(c.ceiling), top_bool(c.siloed), top_bool(c.flash), enc_u(c.flash_fee)]);
    v.extend([top_bool(c.coll), top_bool(c.borr), top_bool(c.iso_borrow)]);
    v.extend([enc_u(c.bcap.unwrap_or(k(0))), enc_u(c.scap.unwrap_or(k(0)))]);
    v
}
/// a cap argument: what is sent, and what has to be stored
fn cap(n: &str) -> (T, Option<T>) {
    let x = var(n, 0, p10(30), p10(24));
    if fork(eq(x, k(0))) {
        (x, None)
    } else {
        (x, Some(x))
    }
}
fn sym_cfg() -> ACfg {
    let bcap = cap("bcap");
    let scap = cap("scap");
    ACfg {
        ltv: bp("ltv", 7000),
        thr: bp("thr", 8000),
        bonus: bp("bonus", 500),
        fees: bp("fees", 1000),
        coll: flag("coll", true),
        borr: flag("borr", true),
        emode: false,
        isolated: flag("isolated", false),
        ceiling: var("ceiling", 0, p10(30), p10(24)),
        siloed: flag("siloed", false),
        flash: flag("flash", true),
        flash_fee: bp("flashfee", 50),
        iso_borrow: flag("isoborrow", true),
        bcap: bcap.1,
        scap: scap.1,
    }
}
fn new_addr(r: &TxRes) -> Addr {
    r.out()[0].clone().try_into().unwrap()
}

// ------------------------------------------------------------------ C37
/// an administrative call that succeeds when the owner makes it
struct Ep {
    name: &'static str,
    args: fn(&Proto) -> Vec<Vec<u8>>,
    pays: fn(&Proto) -> Vec<Pay>,
    /// it completes synchronously (asynchronous system calls are outside the machine)
    runs: bool,
}
fn none(_: &Proto) -> Vec<Pay> {
    vec![]
}
fn admin_calls() -> Vec<Ep> {
    fn ep(name: &'static str, args: fn(&Proto) -> Vec<Vec<u8>>) -> Ep {
        Ep { name, args, pays: none, runs: true }
    }
    vec![
        Ep { name: "registerAccountToken", args: |_| vec![tb("Account"), tb("ACC")], pays: none, runs: false },
        ep("setTokenOracle", |p| oracle_args(p, "FFF-666666", 18, 3, 1, 3, k(200), k(500), None)),
        ep("editTokenOracleTolerance", |_| vec![tb(A), enc_u(var("t1", 50, 100, 60)), enc_u(var("t2", 150, 200, 160))]),
        ep("setAggregator", |p| vec![p.agg.to_vec()]),
        ep("setSwapRouter", |p| vec![p.router.to_vec()]),
        ep("setAccumulator", |p| vec![p.accum.to_vec()]),
        ep("setSafePriceView", |p| vec![p.view.to_vec()]),
        ep("setLiquidityPoolTemplate", |_| vec![sc_addr("template").to_vec()]),
        ep("addEModeCategory", |_| vec![enc_u(var("ltv", 0, 5000, 100)), enc_u(var("thr", 5001, 10000, 8000)), enc_u(k(100))]),
        ep("editEModeCategory", |_| vec![category(1, k(100), k(200), k(300), false)]),
        ep("removeEModeCategory", |_| vec![top_u(1)]),
        ep("addAssetToEModeCategory", |_| vec![tb(C), top_u(1), top_bool(true), top_bool(true)]),
        ep("editAssetInEModeCategory", |_| vec![tb(A), top_u(1), vec![1, 0]]),
        ep("removeAssetFromEModeCategory", |_| vec![tb(A), top_u(1)]),
        ep("editAssetConfig", |_| edit_args(A, &ACfg { ltv: var("ltv", 0, 5000, 100), ..std_cfg() })),
        ep("setPositionLimits", |_| vec![top_u(3), top_u(4)]),
        ep("pause", |_| vec![]),
        ep("unpause", |_| vec![]),
        ep("createLiquidityPool", |_| create_args(D, &std_params(6), &ACfg { ltv: var("ltv", 0, 5000, 100), ..std_cfg() }, 6)),
        ep("upgradeLiquidityPool", |_| vec![tb(A)]),
        ep("upgradeLiquidityPoolParams", |_| {
            let mut v = vec![tb(A)];
            v.extend(std_params(18).list().iter().map(|x| enc_u(*x)));
            v
        }),
        Ep { name: "addRewards", args: |_| vec![], pays: |_| vec![pay(A, var("x", 1, p10(30), p10(18)))], runs: true },
    ]
}
pub fn category(id: u8, ltv: T, thr: T, bonus: T, dep: bool) -> Vec<u8> {
    cat(&[vec![id], dec(ltv, 4), dec(thr, 4), dec(bonus, 4), vec![dep as u8]])
}
fn oracle_args(_p: &Proto, t: &str, d: u64, method: u8, otype: u8, source: u8, t1: T, t2: T, pair: Option<u64>) -> Vec<Vec<u8>> {
    let mut v = vec![
        tb(t),
        top_u(d),
        sc_addr(PAIR).to_vec(),
        vec![method],
        vec![otype],
        vec![source],
        enc_u(t1),
        enc_u(t2),
        top_u(300),
    ];
    if let Some(x) = pair {
        v.push(top_u(x));
    }
    v
}
fn admin_world() -> Proto {
    let p = world();
    let mut e = ACfg { emode: true, ..std_cfg() };
    p.set_cfg(A, &e);
    e.emode = false;
    p.emode(1, k(8000), k(9000), k(200), false, &[(A, true, true)]);
    p.set_oracle(D, &agg_oracle(p.agg, D, 6));
    p.set_price(D, k(p10(18)));
    add_account(sc_addr(PAIR), Kind::Mock(Rc::new(|_| vec![])), p.owner, false);
    for u in [p.owner, p.user, bob(), p.router, p.accum, p.agg] {
        for m in &p.mkts {
            set_balance(&u, m.tok.as_bytes(), 0, k(p10(BIG)));
        }
    }
    p
}
/// the controller's administration is the owner's alone
pub fn owner_only(from: usize, to: usize) -> Scenario {
    Scenario::new(format!("administration {}..{}", from, to), move || {
        let e = &admin_calls()[from + pick("endpoint", (to - from) as i32)];
        let p = admin_world();
        let args = (e.args)(&p);
        let pays = (e.pays)(&p);
        let who = pick("caller", 7);
        if who < 6 {
            let c0 = snapshot(&p.c);
            let a = [p.user, pool_of(A), p.router, p.accum, p.agg, p.c][who];
            let n = ["account holder", "liquidity pool", "swap router", "accumulator", "price aggregator", "controller itself"][who];
            let r = p.call(&a, e.name, args, pays);
            checkb(&format!("{} is refused to the {}", e.name, n), !r.ok());
            only_changed("a refused call leaves the configuration", &p.c, &c0, &[]);
            reach("strangers refused");
        } else if e.runs {
            let r = p.call(&p.owner, e.name, args, pays);
            checkb(&format!("{} is open to the owner", e.name), r.ok());
            reach("owner accepted");
        }
    })
}
/// nobody but the controller reaches the pools; nobody but its owner administers the aggregator
fn pools_and_aggregator() -> Scenario {
    Scenario::new("pools and aggregator", || {
        let p = admin_world();
        let x = var("x", 1, p10(24), p10(18));
        let pool = pool_of(A);
        let pos = deposit(A, tokens(10));
        let mut bpos = debt(A, tokens(10));
        bpos.nonce = 5;
        let pr = dec(p.m(A).price, 18);
        let amt = dec(x, 18);
        let calls: Vec<(&str, Vec<Vec<u8>>, Vec<Pay>)> = vec![
            ("updateIndexes", vec![pr.clone()], vec![]),
            ("supply", vec![pos.enc(), pr.clone()], vec![pay(A, x)]),
            ("borrow", vec![bob().to_vec(), amt.clone(), bpos.enc(), pr.clone()], vec![]),
            ("withdraw", vec![bob().to_vec(), amt.clone(), pos.enc(), top_bool(false), vec![], pr.clone()], vec![]),
            ("repay", vec![bob().to_vec(), bpos.enc(), pr.clone()], vec![pay(A, x)]),
            ("addRewards", vec![pr.clone()], vec![pay(A, x)]),
            ("createStrategy", vec![bpos.enc(), amt.clone(), dec(k(0), 18), pr.clone()], vec![]),
            ("seizePosition", vec![pos.enc(), pr.clone()], vec![]),
            ("claimRevenue", vec![pr.clone()], vec![]),
            ("updateParams", p.m(A).params.update_args(), vec![]),
            ("flashLoan", vec![tb(A), amt, bob().to_vec(), tb("go"), vec![], dec(k(0), 18), pr], vec![]),
        ];
        let s0 = snapshot(&pool);
        for (who, a) in [("owner of the protocol", p.owner), ("account holder", p.user), ("another pool", pool_of(B)), ("price aggregator", p.agg), ("pool itself", pool)] {
            set_balance(&a, A.as_bytes(), 0, k(p10(BIG)));
            for (f, args, pays) in &calls {
                let r = tx(&a, &pool, f, args.clone(), pays.clone());
                checkb(&format!("{} of a pool is refused to the {}", f, who), !r.ok());
                only_changed("a refused call leaves the pool", &pool, &s0, &[]);
            }
        }
        // an aggregator at work, of which each call makes sense
        let calls: Vec<(&str, fn() -> Vec<Vec<u8>>)> = vec![
            ("addOracles", || vec![user_addr("stranger").to_vec()]),
            ("removeOracles", || vec![top_u(1), super::aggregator::oracle(2).to_vec()]),
            ("setSubmissionCount", || vec![top_u(1)]),
            ("setSubmissionCount", || vec![top_u(3)]),
            ("pause", || vec![]),
            ("unpause", || vec![]),
        ];
        for (f, args) in &calls {
            for running in [true, false] {
                let g = super::aggregator::Agg::new(3, 2);
                if running {
                    must(&g.owner, &g.a, "unpause", vec![], vec![]);
                }
                let g0 = snapshot(&g.a);
                for (who, a) in [("account holder", p.user), ("controller", p.c), ("aggregator itself", g.a), ("oracle", super::aggregator::oracle(0)), ("stranger", user_addr("stranger"))] {
                    let r = tx(&a, &g.a, f, args(), vec![]);
                    checkb(&format!("{} of the aggregator is refused to the {}", f, who), !r.ok());
                    only_changed("a refused call leaves the aggregator", &g.a, &g0, &[]);
                }
                let r = tx(&g.owner, &g.a, f, args(), vec![]);
                checkb(&format!("{} of the aggregator is open to its owner", f), r.ok());
            }
        }
        reach("pools and aggregator closed");
    })
}

// ------------------------------------------------------------------ C38
pub fn create_pool(known: bool) -> Scenario {
    Scenario::new(if known { "create a pool twice" } else { "create a pool" }, move || {
        let p = admin_world();
        let pr = sym_params(6);
        let cfg = sym_cfg();
        let t = if known { A } else { D };
        let c0 = snapshot(&p.c);
        let r = p.call(&p.owner, "createLiquidityPool", create_args(t, &pr, &cfg, 6), vec![]);
        let sound = and(&[curve_ok(&pr), gt(cfg.thr, cfg.ltv)]);
        if known {
            checkb("a market is created once", !r.ok());
            reach("second market refused");
            return;
        }
        match r {
            TxRes::Ok(_) => {
                check("only sound parameters are accepted", sound);
                let a = new_addr(&r);
                checkb("registered for its token", p.get(&[b"pools_map".to_vec(), nbytes(t.as_bytes())]) == a.to_vec());
                checkb("listed", p.in_c(|| UnorderedSetMapper::<SymApi, ManagedAddress<SymApi>>::new(StorageKey::new(b"pools")).contains(&ManagedAddress::new_from_bytes(&a))));
                check_cfg("the configuration is stored as given", &p.cfg(t), &cfg);
                check("no isolated debt yet", eq(p.iso_debt(t), k(0)));
                let g = Params::parse(&storage_get(&a, b"params"));
                check("the pool has the curve given", and(&g.list().iter().zip(pr.list()).map(|(x, y)| eq(*x, y)).collect::<Vec<_>>()));
                checkb("the pool has the token's decimals", g.dec == 6);
                let n = pool_state(&a);
                check("a new pool is empty with unit indexes", and(&[eq(n.supplied, k(0)), eq(n.borrowed, k(0)), eq(n.revenue, k(0)), eq(n.bidx, kray()), eq(n.sidx, kray())]));
                only_changed(
                    "nothing else changes",
                    &p.c,
                    &c0,
                    &[
                        cat(&[b"pools_map".to_vec(), nbytes(t.as_bytes())]),
                        cat(&[b"asset_config".to_vec(), nbytes(t.as_bytes())]),
                        cat(&[b"isolated_asset_debt_usd".to_vec(), nbytes(t.as_bytes())]),
                        b"pools.".to_vec(),
                    ],
                );
                reach("market created");
            }
            TxRes::Err(_) => {
                check("sound parameters are not refused", not(sound));
                reach("market refused");
            }
        }
    })
}
/// the debt tracker of a market is exact from the first loan on, whatever the token's decimals
fn tracker(d: u32) -> Scenario {
    Scenario::new(format!("tracker of a new isolated market, {} decimals", d), move || {
        let p = world();
        p.set_oracle(D, &agg_oracle(p.agg, D, d));
        p.set_price(D, k(p10(18) * 3));
        let ceiling = var("ceiling", 0, p10(26), p10(24));
        let cfg = ACfg { isolated: true, ceiling, ..std_cfg() };
        let r = p.call(&p.owner, "createLiquidityPool", create_args(D, &std_params(d), &cfg, d as u64), vec![]);
        checkb("created", r.ok());
        set_balance(&p.user, D.as_bytes(), 0, k(p10(30)));
        let n = 8;
        let r = p.supply(0, None, vec![(D, k(p10(d) * 100000))]);
        checkb("usable for deposits", r.ok());
        let a = p.attrs(n);
        checkb("as isolated collateral", a.map_or(false, |a| a.isolated && a.token.as_deref() == Some(D)));
        let (x, y) = (var("x", 0, p10(12), 1_234_567), var("y", 0, p10(12), 7_654_321));
        let worth = |v: T| {
            let egld = div_hu(rmul(to_ray(v, 6), mul(p.m(B).price, k(p10(9)))), k(p10(9)));
            div_hu(rmul(mul(egld, k(p10(9))), mul(kwad(), k(p10(9)))), k(p10(9)))
        };
        if !p.borrow(n, vec![(B, x)]).ok() {
            return;
        }
        check("the first loan is tracked exactly", eq(p.iso_debt(D), worth(x)));
        check("within the ceiling", le(p.iso_debt(D), ceiling));
        if !p.borrow(n, vec![(B, y)]).ok() {
            reach("ceiling reached");
            return;
        }
        check("the second loan is tracked exactly", eq(p.iso_debt(D), add(worth(x), worth(y))));
        check("still within the ceiling", le(p.iso_debt(D), ceiling));
        reach("tracked from the start");
    })
}
pub fn edit_config() -> Scenario {
    Scenario::new("edit a configuration", || {
        let p = admin_world();
        let cfg = sym_cfg();
        let em = flag("emode", true);
        p.set_cfg(A, &ACfg { emode: em, ..std_cfg() });
        let c0 = snapshot(&p.c);
        let r = p.call(&p.owner, "editAssetConfig", edit_args(A, &cfg), vec![]);
        let sound = or(&[gt(cfg.thr, cfg.ltv), and(&[eq(cfg.thr, k(0)), eq(cfg.ltv, k(0))])]);
        match r {
            TxRes::Ok(_) => {
                check("only sound parameters are accepted", sound);
                check_cfg("stored as given, e-mode membership kept", &p.cfg(A), &ACfg { emode: em, ..cfg });
                only_changed("nothing else changes", &p.c, &c0, &[cat(&[b"asset_config".to_vec(), nbytes(A.as_bytes())])]);
                reach("edited");
            }
            TxRes::Err(_) => {
                check("sound parameters are not refused", not(sound));
                reach("edit refused");
            }
        }
        let r = p.call(&p.owner, "editAssetConfig", edit_args(D, &std_cfg()), vec![]);
        checkb("a token without a market has no configuration to edit", !r.ok());
    })
}

/// e-mode administration against a model
#[derive(Clone)]
struct Cat {
    ltv: T,
    thr: T,
    bonus: T,
    dead: bool,
    assets: BTreeMap<&'static str, (bool, bool)>,
}
fn emode_world() -> Proto {
    Proto::new(vec![
        lin_mkt(A, 18, cents(250), 1300, 1100),
        lin_mkt(B, 6, cents(99), 1203, 1050),
    ])
}
fn compare_emode(p: &Proto, m: &BTreeMap<u8, Cat>) {
    let n = p.in_c(|| {
        MapMapper::<SymApi, u8, ManagedBuffer<SymApi>>::new(StorageKey::new(b"e_mode_category"))
            .iter()
            .map(|(id, v)| (id, v.to_boxed_bytes().as_slice().to_vec()))
            .collect::<Vec<_>>()
    });
    checkb("the categories are those created", n.len() == m.len());
    for (id, v) in &n {
        let Some(c) = m.get(id) else {
            checkb("no unknown category", false);
            return;
        };
        let mut r = Rd(v);
        checkb("filed under its number", r.u8() == *id);
        let (l, t, b) = (r.decv(), r.decv(), r.decv());
        check("the category has the parameters last given", and(&[eq(l, c.ltv), eq(t, c.thr), eq(b, c.bonus)]));
        checkb("deprecated exactly when removed", r.bool() == c.dead);
        let assets = p.in_c(|| {
            MapMapper::<SymApi, EgldOrEsdtTokenIdentifier<SymApi>, ManagedBuffer<SymApi>>::new(StorageKey::new(&cat(&[b"e_mode_assets".to_vec(), vec![*id]])))
                .iter()
                .map(|(t, v)| (t.into_name().to_boxed_bytes().as_slice().to_vec(), v.to_boxed_bytes().as_slice().to_vec()))
                .collect::<Vec<_>>()
        });
        checkb("the members are those added", assets.len() == c.assets.len());
        for (t, f) in assets {
            let want = c.assets.iter().find(|(u, _)| u.as_bytes() == t);
            checkb("no other members", want.is_some());
            if let Some((_, (x, y))) = want {
                checkb("members have the flags last given", f == vec![*x as u8, *y as u8]);
            }
        }
    }
    for t in [A, B] {
        let l = p.in_c(|| {
            UnorderedSetMapper::<SymApi, u8>::new(StorageKey::new(&cat(&[b"asset_e_modes".to_vec(), nbytes(t.as_bytes())]))).iter().collect::<Vec<u8>>()
        });
        let want: Vec<u8> = m.iter().filter(|(_, c)| c.assets.contains_key(t)).map(|(i, _)| *i).collect();
        let mut s = l.clone();
        s.sort();
        checkb("an asset lists its categories", s == want);
        checkb("an asset is in e-mode exactly while it is in some category", p.cfg(t).emode == !want.is_empty());
    }
}
fn emode_history(seeded: bool, steps: usize) -> Scenario {
    Scenario::new(format!("e-mode administration, {} steps{}", steps, if seeded { " after two categories" } else { "" }), move || {
        let p = emode_world();
        let mut m: BTreeMap<u8, Cat> = BTreeMap::new();
        let cfg0 = p.cfg(A);
        if seeded {
            // both categories hold A, the second also B
            for id in 1..=2u8 {
                must(&p.owner, &p.c, "addEModeCategory", vec![enc_u(k(7000)), enc_u(k(9500)), enc_u(k(100))], vec![]);
                m.insert(id, Cat { ltv: k(7000), thr: k(9500), bonus: k(100), dead: false, assets: BTreeMap::new() });
                for t in [A, B] {
                    if id == 2 || t == A {
                        must(&p.owner, &p.c, "addAssetToEModeCategory", vec![tb(t), top_u(id as u64), top_bool(true), top_bool(id == 1)], vec![]);
                        m.get_mut(&id).unwrap().assets.insert(t, (true, id == 1));
                    }
                }
            }
            compare_emode(&p, &m);
        }
        for i in 0..steps {
            let v = |n: &str, lo: i32, hi: i32, h: i32| var(&format!("{}{}", n, i), lo, hi, h);
            let op = if i == 0 && !seeded { 0 } else { pick(&format!("op{}", i), 6) };
            let id = if op == 0 { 0 } else { 1 + pick(&format!("id{}", i), 2) as u8 };
            let t = if matches!(op, 3 | 4 | 5) { [A, B][pick(&format!("tok{}", i), 2)] } else { A };
            let has = m.contains_key(&id);
            let member = m.get(&id).map_or(false, |c| c.assets.contains_key(t));
            let (r, allowed) = match op {
                0 => {
                    let (l, th, b) = (v("ltv", 0, 9000, 7000), v("thr", 9001, 10000, 9500), v("bonus", 0, 1500, 100));
                    let r = p.call(&p.owner, "addEModeCategory", vec![enc_u(l), enc_u(th), enc_u(b)], vec![]);
                    m.insert(m.len() as u8 + 1, Cat { ltv: l, thr: th, bonus: b, dead: false, assets: BTreeMap::new() });
                    (r, true)
                }
                1 => {
                    let (l, th, b) = (v("ltv", 0, 9000, 7000), v("thr", 9001, 10000, 9500), v("bonus", 0, 1500, 100));
                    let r = p.call(&p.owner, "editEModeCategory", vec![category(id, l, th, b, false)], vec![]);
                    if let Some(c) = m.get_mut(&id) {
                        c.ltv = l;
                        c.thr = th;
                        c.bonus = b;
                        c.dead = false;
                    }
                    (r, has)
                }
                2 => {
                    let r = p.call(&p.owner, "removeEModeCategory", vec![top_u(id as u64)], vec![]);
                    if let Some(c) = m.get_mut(&id) {
                        c.dead = true;
                        c.assets.clear();
                    }
                    (r, has)
                }
                3 => {
                    let (x, y) = (flag(&format!("x{}", i), true), flag(&format!("y{}", i), false));
                    let r = p.call(&p.owner, "addAssetToEModeCategory", vec![tb(t), top_u(id as u64), top_bool(x), top_bool(y)], vec![]);
                    if has && !member {
                        m.get_mut(&id).unwrap().assets.insert(t, (x, y));
                    }
                    (r, has && !member)
                }
                4 => {
                    let r = p.call(&p.owner, "editAssetInEModeCategory", vec![tb(t), top_u(id as u64), vec![0, 1]], vec![]);
                    if member {
                        m.get_mut(&id).unwrap().assets.insert(t, (false, true));
                    }
                    (r, member)
                }
                _ => {
                    let r = p.call(&p.owner, "removeAssetFromEModeCategory", vec![tb(t), top_u(id as u64)], vec![]);
                    if member {
                        m.get_mut(&id).unwrap().assets.remove(t);
                    }
                    (r, member)
                }
            };
            checkb("accepted exactly when it makes sense", r.ok() == allowed);
            compare_emode(&p, &m);
            reach(if allowed { "e-mode step" } else { "e-mode step refused" });
        }
        let mut c = p.cfg(A);
        c.emode = false;
        check_cfg("the assets' own settings stay", &c, &cfg0);
    })
}
fn pair_mock() -> Kind {
    Kind::Mock(Rc::new(|c: &Call| match &*c.func {
        "getPairFirstTokenId" | "getPairSecondTokenId" => {
            checkb("asked about the pair given", c.args.len() == 1 && c.args[0] == top_u(7));
            vec![tb(if c.func.contains("First") { "FIRST-111111" } else { "SECOND-22222a" })]
        }
        "getFirstTokenId" => vec![tb("FIRST-111111")],
        "getSecondTokenId" => vec![tb("SECOND-22222a")],
        "getMainToken" => vec![tb("MAIN-333333")],
        _ => vec![],
    }))
}
fn token_oracle() -> Scenario {
    Scenario::new("oracle records", || {
        let p = world();
        let t = "FFF-666666";
        add_account(sc_addr(PAIR), pair_mock(), p.owner, false);
        let (t1, t2) = (var("first", 0, 12000, 200), var("last", 0, 12000, 500));
        let valid = and(&[ge(t1, k(50)), le(t1, k(5000)), ge(t2, k(150)), le(t2, k(10000)), ge(t2, t1)]);
        let src = 1 + pick("source", 5) as u8;
        let pair = if src == 5 { Some(pick("pair", 2) as u64 * 7) } else { None };
        let method = 1 + pick("method", 4) as u8;
        let otype = 1 + pick("type", 3) as u8;
        let args = oracle_args(&p, t, 8, method, otype, src, t1, t2, pair);
        let c0 = snapshot(&p.c);
        let r = p.call(&p.owner, "setTokenOracle", args, vec![]);
        let sensible = src != 5 || pair != Some(0);
        match &r {
            TxRes::Ok(_) => {
                checkb("a pair needs its number", sensible);
                check("tolerances within their limits", valid);
                let o = p.oracle(t);
                let (b, q) = match src {
                    1 | 5 => ("FIRST-111111", "SECOND-22222a"),
                    2 => ("MAIN-333333", "MAIN-333333"),
                    _ => ("EGLD", "EGLD"),
                };
                checkb("the tokens of the source", o.base == b && o.quote == q);
                checkb(
                    "everything else as given",
                    o.method == method && o.otype == otype && o.source == src && o.dec == 8 && o.pair as u64 == pair.unwrap_or(0) && o.stale == 300 && o.addr == sc_addr(PAIR),
                );
                tolerances(&o, t1, t2);
                only_changed("nothing else changes", &p.c, &c0, &[cat(&[b"token_oracle".to_vec(), nbytes(t.as_bytes())])]);
                let c1 = snapshot(&p.c);
                let r = p.call(&p.owner, "setTokenOracle", oracle_args(&p, t, 8, 3, 1, 3, k(100), k(200), None), vec![]);
                checkb("set once", !r.ok());
                let (u1, u2) = (var("first2", 0, 12000, 300), var("last2", 0, 12000, 400));
                let v2 = and(&[ge(u1, k(50)), le(u1, k(5000)), ge(u2, k(150)), le(u2, k(10000)), ge(u2, u1)]);
                let r = p.call(&p.owner, "editTokenOracleTolerance", vec![tb(t), enc_u(u1), enc_u(u2)], vec![]);
                if r.ok() {
                    check("edited tolerances within their limits", v2);
                    let mut n = p.oracle(t);
                    tolerances(&n, u1, u2);
                    n.tol = o.tol;
                    checkb("only the tolerances change", n.enc() == o.enc());
                    only_changed("nothing else changes", &p.c, &c1, &[cat(&[b"token_oracle".to_vec(), nbytes(t.as_bytes())])]);
                    reach("tolerances edited");
                } else {
                    check("valid tolerances are not refused", not(v2));
                    reach("tolerances refused");
                }
                reach("oracle stored");
            }
            TxRes::Err(_) => {
                check("a sensible oracle is not refused", if sensible { not(valid) } else { tru() });
                reach("oracle refused");
            }
        }
        let r = p.call(&p.owner, "editTokenOracleTolerance", vec![tb("GGG-777777"), enc_u(k(100)), enc_u(k(200))], vec![]);
        checkb("only existing oracles are edited", !r.ok());
    })
}
fn tolerances(o: &Oracle, t1: T, t2: T) {
    for (i, t) in [t1, t2].iter().enumerate() {
        let up = add(*t, k(10000));
        check("upper bound", eq(o.tol[2 * i], up));
        check("lower bound is its reciprocal", le(abs_diff(mul(o.tol[2 * i + 1], up), k(p10(8))), up));
    }
}
fn addresses() -> Scenario {
    Scenario::new("protocol addresses", || {
        let p = world();
        let (f, key) = [
            ("setAggregator", "price_aggregator_address"),
            ("setSwapRouter", "swap_router_address"),
            ("setAccumulator", "accumulator_address"),
            ("setSafePriceView", "safe_price_view"),
            ("setLiquidityPoolTemplate", "liq_pool_template_address"),
        ][pick("which", 5)];
        let to = pick("to", 3);
        let a = [[0u8; 32], bob(), sc_addr("fresh")][to];
        if to == 2 {
            add_account(a, Kind::Mock(Rc::new(|_| vec![])), p.owner, false);
        }
        let c0 = snapshot(&p.c);
        let r = p.call(&p.owner, f, vec![a.to_vec()], vec![]);
        checkb("only contracts are accepted", r.ok() == (to == 2));
        if r.ok() {
            checkb("stored", p.get(&[tb(key)]) == a.to_vec());
        }
        only_changed("nothing else changes", &p.c, &c0, &[tb(key)]);
        reach(if r.ok() { "address set" } else { "address refused" });
    })
}
fn limits() -> Scenario {
    Scenario::new("position limits", || {
        let p = world();
        let (x, y) = (pick("borrow", 12) as u64, pick("supply", 12) as u64);
        let c0 = snapshot(&p.c);
        checkb("set", p.call(&p.owner, "setPositionLimits", vec![top_u(x), top_u(y)], vec![]).ok());
        checkb("as given", p.get(&[b"position_limits".to_vec()]) == vec![x as u8, y as u8]);
        only_changed("nothing else changes", &p.c, &c0, &[b"position_limits".to_vec()]);
        reach("limits set");
    })
}
/// a curve change through the controller: validated, interest due so far unaffected
fn curve() -> Scenario {
    Scenario::new("change a curve", || {
        let mut ms = world_mkts();
        ms[0].st.last = T0 - 1000 * 3600 * 24 * 30;
        let p = Proto::new(ms);
        let pr = sym_params(18);
        // what accrual alone would have done
        let q = storage_snapshot(&pool_of(A));
        checkb("accrual runs", p.call(&p.user, "updateIndexes", vec![tb(A)], vec![]).ok());
        let want = p.state(A);
        w(|w| w.accts.get_mut(&pool_of(A)).unwrap().storage = q);
        let c0 = snapshot(&p.c);
        let mut args = vec![tb(A)];
        args.extend(pr.list().iter().map(|x| enc_u(*x)));
        let r = p.call(&p.owner, "upgradeLiquidityPoolParams", args, vec![]);
        if r.ok() {
            check("only a consistent curve is accepted", curve_ok(&pr));
            let g = Params::parse(&storage_get(&pool_of(A), b"params"));
            check("the pool has the new curve", and(&g.list().iter().zip(pr.list()).map(|(x, y)| eq(*x, y)).collect::<Vec<_>>()));
            checkb("same decimals", g.dec == 18);
            super::ctrl::same_state("interest so far is charged at the old curve", &p.state(A), &want);
            reach("curve changed");
        } else {
            check("a consistent curve is not refused", not(curve_ok(&pr)));
            reach("curve refused");
        }
        only_changed("the controller stores nothing", &p.c, &c0, &[]);
        let mut args = vec![tb("GGG-777777")];
        args.extend(std_params(18).list().iter().map(|x| enc_u(*x)));
        checkb("a token without a pool is refused", !p.call(&p.owner, "upgradeLiquidityPoolParams", args, vec![]).ok());
    })
}
fn storage_snapshot(a: &Addr) -> BTreeMap<Vec<u8>, Vec<u8>> {
    snapshot(a)
}

/// upgrades keep every stored value; an upgraded controller is paused
fn upgrades() -> Scenario {
    Scenario::new("upgrades keep the state", || {
        let mut ms = world_mkts();
        ms[0].st.supplied = var("S", 0, p10(40), p10(36));
        let p = Proto::new(ms);
        p.account(&p.user, 5, &normal(), &[deposit(A, tokens(1000)), debt(B, tokens(100))]);
        let (c0, s0) = (snapshot(&p.c), snapshot(&pool_of(A)));
        checkb("a pool is upgraded", p.call(&p.owner, "upgradeLiquidityPool", vec![tb(A)], vec![]).ok());
        only_changed("the pool keeps its state", &pool_of(A), &s0, &[]);
        only_changed("the controller keeps its state", &p.c, &c0, &[]);
        checkb("only existing pools", !p.call(&p.owner, "upgradeLiquidityPool", vec![tb("GGG-777777")], vec![]).ok());
        checkb("the controller is upgraded", tx(&p.owner, &p.c, "upgrade", vec![], vec![]).ok());
        only_changed("nothing but the pause flag changes", &p.c, &c0, &[b"pause_module:paused".to_vec()]);
        checkb("paused", p.get(&[b"pause_module:paused".to_vec()]) == vec![1]);
        reach("upgraded");
    })
}

// ------------------------------------------------------------------ C39
pub fn accumulator(p: &Proto) {
    add_account(p.accum, Kind::Mock(Rc::new(|_| vec![])), p.owner, false);
}
/// anyone may have the protocol's revenue paid out; it reaches the accumulator and nobody else
pub fn claim(toks: &'static [&'static str], d: u32) -> Scenario {
    Scenario::new(format!("claim revenue of {} markets, {} decimals", toks.len(), d), move || {
        let mut ms = vec![lin_mkt(A, d, cents(250), 1300, 1100), lin_mkt(B, 6, cents(99), 1203, 1050)];
        for (i, m) in ms.iter_mut().enumerate() {
            m.st.supplied = var(&format!("S{}", i), 0, p10(40), p10(36));
            m.st.revenue = var(&format!("R{}", i), 0, p10(40), p10(30));
            assume(le(m.st.revenue, m.st.supplied));
            if i == 0 {
                match pick("market kind", 6) {
                    0 => m.cfg.siloed = true,
                    1 => m.cfg.isolated = true,
                    2 => m.cfg.emode = true,
                    3 => m.cfg.borr = false,
                    4 => {
                        m.cfg.coll = false;
                        m.cfg.flash = false;
                    }
                    _ => {}
                }
            }
            m.cash = var(&format!("cash{}", i), 0, p10(36), p10(20));
        }
        let p = Proto::new(ms);
        accumulator(&p);
        for m in &p.mkts {
            set_balance(&p.c, m.tok.as_bytes(), 0, k(0));
            set_balance(&p.accum, m.tok.as_bytes(), 0, k(0));
        }
        let u0: Vec<T> = p.mkts.iter().map(|m| p.bal(&p.user, &m.tok)).collect();
        let c0 = snapshot(&p.c);
        let r = p.call(&p.user, "claimRevenue", toks.iter().map(|t| tb(t)).collect(), vec![]);
        checkb("anyone may claim", r.ok());
        for (i, m) in p.mkts.iter().enumerate() {
            let got = p.bal(&p.accum, &m.tok);
            check("all of it reaches the accumulator", eq(got, sub(m.cash, p.cash(&m.tok))));
            let due = from_ray(rmul(m.st.revenue, m.st.sidx), m.dec);
            if toks.contains(&m.tok.as_str()) {
                check("the revenue, as far as there is cash", eq(got, min(due, m.cash)));
            } else {
                check("other markets are not claimed", eq(got, k(0)));
            }
            check("nobody else is paid", and(&[eq(p.bal(&p.user, &m.tok), u0[i]), eq(p.bal(&p.c, &m.tok), k(0))]));
        }
        only_changed("the controller stores nothing", &p.c, &c0, &[]);
        reach("claimed");
    })
}
pub fn reward() -> Scenario {
    Scenario::new("external rewards", || {
        let mut ms = vec![lin_mkt(A, 18, cents(250), 1300, 1100), lin_mkt(B, 6, cents(99), 1203, 1050)];
        ms[0].st.supplied = var("S", 0, p10(40), p10(36));
        let p = Proto::new(ms);
        set_balance(&p.owner, A.as_bytes(), 0, k(p10(BIG)));
        set_balance(&p.c, A.as_bytes(), 0, k(0));
        let x = var("x", 0, p10(33), p10(18));
        let (b0, st0) = (p.cash(A), p.state(A));
        let other = p.state(B);
        let c0 = snapshot(&p.c);
        let r = p.call(&p.owner, "addRewards", vec![], vec![pay(A, x)]);
        if r.ok() {
            check("the pool receives exactly the payment", eq(p.cash(A), add(b0, x)));
            check("the controller keeps nothing", eq(p.bal(&p.c, A), k(0)));
            let n = p.state(A);
            check("nobody's share changes", and(&[eq(n.supplied, st0.supplied), eq(n.revenue, st0.revenue), eq(n.borrowed, st0.borrowed)]));
            check("deposits grow", ge(n.sidx, st0.sidx));
            let total = rmul(st0.supplied, st0.sidx);
            if fork(gt(total, k(0))) {
                let q = rdiv(to_ray(x, 18), total);
                check("every deposit grows in proportion", le(abs_diff(n.sidx, rmul(st0.sidx, add(kray(), q))), k(1)));
            } else {
                check("without deposits nothing grows", eq(n.sidx, st0.sidx));
            }
            reach("rewards paid in");
        } else {
            check("refused payments move nothing", eq(p.cash(A), b0));
        }
        super::ctrl::same_state("other pools unaffected", &p.state(B), &other);
        only_changed("the controller stores nothing", &p.c, &c0, &[]);
    })
}
/// accrual for anyone, touching nothing but the indexes
fn indexes() -> Scenario {
    Scenario::new("update indexes", || {
        let mut ms = vec![lin_mkt(A, 18, cents(250), 1300, 1100), lin_mkt(B, 6, cents(99), 1203, 1050)];
        ms[0].st.last = T0 - 1000 * 3600 * 24 * 30;
        ms[0].st.borrowed = var("borrowed", 0, p10(36), p10(35));
        let p = Proto::new(ms);
        let (c0, st0, other, cash) = (snapshot(&p.c), p.state(A), p.state(B), p.cash(A));
        let r = p.call(&bob(), "updateIndexes", vec![tb(A)], vec![]);
        if !r.ok() {
            reach("not accrued");
            return;
        }
        let n = p.state(A);
        check("debts only grow", ge(n.bidx, st0.bidx));
        check("deposits only grow", ge(n.sidx, st0.sidx));
        check("no debt is created", eq(n.borrowed, st0.borrowed));
        check("shares are minted for revenue only", eq(sub(n.supplied, st0.supplied), sub(n.revenue, st0.revenue)));
        checkb("accrued to the present", n.last == T0);
        check("no cash moves", eq(p.cash(A), cash));
        super::ctrl::same_state("other pools unaffected", &p.state(B), &other);
        only_changed("the controller stores nothing", &p.c, &c0, &[]);
        reach("accrued");
    })
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C37",
            scen: |_| {
                let n = admin_calls().len();
                let mut v: Vec<Scenario> = (0..n).step_by(6).map(|i| owner_only(i, (i + 6).min(n))).collect();
                v.push(pools_and_aggregator());
                v
            },
            reach: &["strangers refused", "owner accepted", "pools and aggregator closed"],
            bounds: "all 22 administrative endpoints of the controller, 11 of the pools and 5 of the aggregator; six kinds of callers (account holder, pool, router, accumulator, aggregator, the contract itself); numeric arguments symbolic",
            assumptions: &[],
        },
        Prop {
            id: "C38",
            scen: |c: &Cfg| {
                let mut v = vec![create_pool(false), create_pool(true), edit_config(), emode_history(false, if c.thorough { 5 } else { 4 }), emode_history(true, if c.thorough { 3 } else { 2 }), token_oracle(), addresses(), limits(), curve(), upgrades()];
                for d in [0, 2, 6, 18] {
                    v.push(tracker(d));
                }
                v
            },
            reach: &[
                "market created",
                "market refused",
                "second market refused",
                "tracked from the start",
                "ceiling reached",
                "edited",
                "edit refused",
                "e-mode step",
                "e-mode step refused",
                "oracle stored",
                "oracle refused",
                "tolerances edited",
                "tolerances refused",
                "address set",
                "address refused",
                "limits set",
                "curve changed",
                "curve refused",
                "upgraded",
            ],
            bounds: "configuration values 0..200% and caps/ceilings 0..1e30 symbolic, all combinations of flags; e-mode histories of 4 steps (thorough: 5) from nothing and of 2 (thorough: 3) from two categories sharing an asset, over two assets; all oracle sources, methods and types; position limits 0..11; a new market's tracker through two loans, 0, 2, 6 and 18 decimals",
            assumptions: &[],
        },
        Prop {
            id: "C39",
            scen: |c: &Cfg| {
                let mut v = vec![claim(&[A], 18), claim(&[A, B], 6), claim(&[A, B], 18), reward(), indexes()];
                if c.thorough {
                    v.push(claim(&[A], 2));
                    v.push(claim(&[A], 12));
                }
                v
            },
            reach: &["claimed", "rewards paid in", "accrued"],
            bounds: "revenue, supply and cash of two markets symbolic; rewards 0..1e33; indexes fixed; 2, 6, 12 and 18 decimals",
            assumptions: &[],
        },
    ]
}
