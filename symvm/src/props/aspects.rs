//! What every transaction keeps, whatever it does: the scenarios of the other properties are run
//! again, judged only by these checks.
use super::*;
use crate::engine::*;
use crate::env::*;
use crate::env_ctrl::*;
use crate::term::*;
use crate::vm::*;
use multiversx_sc::types::{EgldOrEsdtTokenIdentifier, ManagedBuffer};
use multiversx_sc::storage::{mappers::{MapMapper, StorageMapper}, StorageKey};
use std::collections::BTreeMap;
use std::rc::Rc;

/// the account numbers watched
fn nonces() -> impl Iterator<Item = u64> {
    (1..=10).chain(300..=306).chain([65_537]).chain(70_000..=70_004)
}

/// what the controller's log of settings has to match
#[derive(Clone)]
struct Settings {
    cfg: Vec<(String, Vec<u8>)>,
    oracle: Vec<(String, Vec<u8>)>,
    pool: Vec<(String, Vec<u8>)>,
    params: Vec<(String, Addr, Vec<u8>)>,
    cats: Vec<(u8, Vec<u8>)>,
    members: Vec<(u8, Vec<u8>, Vec<u8>)>,
}
fn settings(p: &Proto) -> Settings {
    let mut toks: Vec<String> = p.mkts.iter().map(|m| m.tok.clone()).collect();
    for t in ["DDD-444444", "FFF-666666", "GGG-777777", "EGLD"] {
        if !toks.iter().any(|u| u == t) {
            toks.push(t.into());
        }
    }
    let of = |what: &str| toks.iter().map(|t| (t.clone(), p.get(&[what.as_bytes().to_vec(), nbytes(t.as_bytes())]))).collect::<Vec<_>>();
    let pool = of("pools_map");
    let bytes = |b: &ManagedBuffer<SymApi>| b.to_boxed_bytes().as_slice().to_vec();
    let cats: Vec<(u8, Vec<u8>)> =
        p.in_c(|| MapMapper::<SymApi, u8, ManagedBuffer<SymApi>>::new(StorageKey::new(b"e_mode_category")).iter().map(|(i, v)| (i, bytes(&v))).collect());
    let mut members = vec![];
    for (id, _) in &cats {
        p.in_c(|| {
            let m = MapMapper::<SymApi, EgldOrEsdtTokenIdentifier<SymApi>, ManagedBuffer<SymApi>>::new(StorageKey::new(&cat(&[b"e_mode_assets".to_vec(), vec![*id]])));
            for (t, v) in m.iter() {
                members.push((*id, t.into_name().to_boxed_bytes().as_slice().to_vec(), bytes(&v)));
            }
        });
    }
    Settings {
        cfg: of("asset_config"),
        oracle: of("token_oracle"),
        params: pool
            .iter()
            .filter(|(_, a)| a.len() == 32)
            .map(|(t, a)| {
                let a: Addr = a.clone().try_into().unwrap();
                (t.clone(), a, storage_get(&a, b"params"))
            })
            .collect(),
        pool,
        cats,
        members,
    }
}
/// what the controller has to value a token at, where it is one feed quoted in EGLD's own unit
fn price_now(p: &Proto, m: &Mkt) -> Option<T> {
    if enc_name(m.tok.as_bytes()) == b"EGLD" {
        return Some(kwad());
    }
    let raw = p.get(&[b"token_oracle".to_vec(), nbytes(m.tok.as_bytes())]);
    let quote = |t: &str| {
        let b = storage_get(&p.agg, &p.quote_key(t));
        if b.is_empty() {
            None
        } else {
            Some(Rd(&b).big())
        }
    };
    if raw != agg_oracle(p.agg, &m.tok, m.dec).enc() {
        return None;
    }
    let (e, q) = (egld_now(p)?, quote(&m.tok)?);
    Some(if e == kwad() { q } else { super::oracle::in_egld(q, e) })
}
/// dollars for one EGLD
fn egld_now(p: &Proto) -> Option<T> {
    let b = storage_get(&p.agg, &p.quote_key("EGLD"));
    if b.is_empty() {
        None
    } else {
        Some(Rd(&b).big())
    }
}
struct Snap {
    egld: Option<T>,
    price: Vec<Option<T>>,
    set: Settings,
    st: Vec<PState>,
    cash: Vec<T>,
    pos: Vec<(u64, Pos)>,
    attrs: BTreeMap<u64, Option<Attrs>>,
    iso: Vec<T>,
    held: Vec<((Vec<u8>, u64), T)>,
}
fn snap(p: &Proto) -> Snap {
    let mut pos = vec![];
    for n in nonces() {
        for t in [DEPOSIT, BORROW] {
            pos.extend(p.positions(n, t).into_iter().map(|q| (n, q)));
        }
    }
    Snap {
        egld: egld_now(p),
        price: p.mkts.iter().map(|m| price_now(p, m)).collect(),
        set: settings(p),
        st: p.mkts.iter().map(|m| p.state(&m.tok)).collect(),
        cash: p.mkts.iter().map(|m| p.cash(&m.tok)).collect(),
        pos,
        attrs: nonces().map(|n| (n, p.attrs(n))).collect(),
        iso: p.mkts.iter().map(|m| p.iso_debt(&m.tok)).collect(),
        held: holdings(&p.c),
    }
}
fn holdings(a: &Addr) -> Vec<((Vec<u8>, u64), T)> {
    w(|w| w.accts[a].bal.iter().map(|(t, x)| (t.clone(), *x)).collect())
}
/// how many copies of an NFT there are, wherever they are
fn owners(t: &[u8], n: u64) -> i64 {
    let l: Vec<T> = w(|w| w.accts.values().filter_map(|x| x.bal.get(&(t.to_vec(), n)).cloned()).collect());
    l.into_iter().map(|x| as_const(x).map_or(-99, |v| i64::try_from(v).unwrap_or(-99))).sum()
}
pub fn install(p: &Proto) {
    let judge: fn(&Proto, &Snap, &Snap, &Addr, &Addr, &str, &[Pay]) = match aspect() {
        "books" => books,
        "log" => log,
        _ => return,
    };
    let p = p.clone();
    set_watch(Some(Rc::new(move |from, to, f, pays| {
        let (p, from, to, f, pays) = (p.clone(), *from, *to, f.to_string(), pays.to_vec());
        let pre = snap(&p);
        Box::new(move || {
            let post = snap(&p);
            unmuted(|| judge(&p, &pre, &post, &from, &to, &f, &pays))
        })
    })));
}
fn named(ops: &[&'static str], f: &str, what: &str) {
    if let Some(o) = ops.iter().find(|o| **o == f) {
        reach(&format!("{}: {}", what, o));
    }
}
/// every kind of step that moves positions or markets
const STEPS: &[&str] = &[
    "supply", "borrow", "withdraw", "repay", "liquidate", "cleanBadDebt", "flashLoan", "multiply", "swapDebt", "swapCollateral", "repayDebtWithCollateral",
    "claimRevenue", "addRewards", "updateIndexes", "updateAccountThreshold",
];

// ------------------------------------------------------------------ C46: one set of books
fn books(p: &Proto, a: &Snap, b: &Snap, _: &Addr, to: &Addr, f: &str, _: &[Pay]) {
    if *to != p.c {
        return;
    }
    for (i, m) in p.mkts.iter().enumerate() {
        let sum = |s: &Snap, ty: u8| s.pos.iter().filter(|(_, q)| q.ptype == ty && q.asset == m.tok.as_bytes()).fold(k(0), |z, (_, q)| add(z, q.scaled));
        let free = |s: &Snap| sub(s.st[i].supplied, s.st[i].revenue);
        check("the pool owes depositors what accounts hold", eq(sub(free(b), free(a)), sub(sum(b, DEPOSIT), sum(a, DEPOSIT))));
        check("accounts owe what the pool has lent", eq(sub(b.st[i].borrowed, a.st[i].borrowed), sub(sum(b, BORROW), sum(a, BORROW))));
    }
    for (n, q) in &b.pos {
        check("no empty position is kept", gt(q.scaled, k(0)));
        checkb("a position belongs to its account", q.nonce == *n);
    }
    for (t, x) in &b.held {
        let was = a.held.iter().find(|(u, _)| u == t).map_or(k(0), |(_, y)| *y);
        check("the controller keeps nothing", eq(*x, was));
    }
    for n in nonces() {
        let has = b.attrs[&n].is_some();
        let nft = owners(ACC.as_bytes(), n);
        checkb("an account exists exactly while it is listed", has == p.active(n));
        if !b.pos.iter().all(|(o, _)| *o != n) {
            checkb("positions belong to a living account", has);
        }
        if has && a.attrs[&n].is_none() {
            checkb("a new account has one NFT, with one holder", nft == 1);
            checkb("the NFT tells the account's attributes", w(|w| w.nft_attr.get(&(ACC.as_bytes().to_vec(), n)).cloned()) == b.attrs[&n].as_ref().map(|x| x.enc()));
        }
        if has && a.attrs[&n].is_some() {
            checkb("the NFT of an account is neither doubled nor lost", nft == 1);
        }
        if !has && a.attrs[&n].is_some() && f != "cleanBadDebt" {
            checkb("a closed account's NFT is burnt", nft == 0);
        }
    }
    named(STEPS, f, "books");
}

// ------------------------------------------------------------------ C47: the log tells the truth
fn log(p: &Proto, a: &Snap, b: &Snap, from: &Addr, to: &Addr, f: &str, pays: &[Pay]) {
    let evs = w(|w| w.events.clone());
    let name = |e: &Vec<Vec<u8>>| String::from_utf8_lossy(&e[0]).to_string();
    for (i, m) in p.mkts.iter().enumerate() {
        let pool = pool_of(&m.tok);
        let (s0, s1) = (&a.st[i], &b.st[i]);
        let mine: Vec<_> = evs.iter().filter(|e| e.0 == pool && name(&e.1) == "update_market_state").collect();
        if let Some(e) = mine.last() {
            let t = &e.1;
            let d = |j: usize| undec(&t[j]).0;
            checkb("the log names the market", t[8] == enc_name(m.tok.as_bytes()) && t.len() == 10);
            checkb("the log's time is the market's", untop_u(&t[1]) == s1.last);
            check("the log's indexes are the market's", and(&[eq(d(2), s1.sidx), eq(d(3), s1.bidx)]));
            if let (Some(x), Some(y)) = (a.price[i], b.price[i]) {
                if f != "addRewards" || *to == p.c {
                    check("the log's price is the market's", or(&[eq(d(9), x), eq(d(9), y)]));
                    reach("log: price");
                }
            }
            check("the log's reserves are the market's cash", eq(d(4), b.cash[i]));
            check("the log's totals are the market's", and(&[eq(d(5), s1.supplied), eq(d(6), s1.borrowed), eq(d(7), s1.revenue)]));
        } else {
            let same = and(&[
                eq(s0.supplied, s1.supplied),
                eq(s0.borrowed, s1.borrowed),
                eq(s0.revenue, s1.revenue),
                eq(s0.sidx, s1.sidx),
                eq(s0.bidx, s1.bidx),
                bool_b(s0.last == s1.last),
                eq(a.cash[i], b.cash[i]),
            ]);
            check("no market changes without a log entry", same);
        }
    }
    if *to != p.c {
        return;
    }
    let at: Vec<_> = evs.iter().filter(|e| e.0 == p.c && name(&e.1) == "update_position").map(|e| (&e.1, Pos::parse(&e.1[3]))).collect();
    for (j, (t, q)) in at.iter().enumerate() {
        checkb("a position entry is complete", t.len() == 7);
        let same = |r: &Pos| r.ptype == q.ptype && r.asset == q.asset;
        let last = !at[j + 1..].iter().any(|(_, r)| r.nonce == q.nonce && same(r));
        if !last {
            continue;
        }
        match b.pos.iter().find(|(n, r)| *n == q.nonce && same(r)) {
            Some((_, r)) => check(
                "the last entry of a position is what is stored",
                and(&[eq(q.scaled, r.scaled), eq(q.threshold, r.threshold), eq(q.bonus, r.bonus), eq(q.fees, r.fees), eq(q.ltv, r.ltv)]),
            ),
            None => check("a position that is gone is logged as empty", eq(q.scaled, k(0))),
        }
        let of = |s: &Snap| s.attrs.get(&q.nonce).cloned().flatten();
        let at0 = of(b).or(of(a));
        checkb("the entry tells the account's attributes", at0.map(|x| x.enc()) == Some(t[6].clone()));
        checkb("the entry tells who acted", t[5] == from.to_vec() || t[5] == p.c.to_vec());
        if let Some(i) = p.mkts.iter().position(|m| m.tok.as_bytes() == q.asset) {
            if let (Some(x), Some(y)) = (a.price[i], b.price[i]) {
                let z = undec(&t[4]).0;
                check("the entry's price is the market's", or(&[eq(z, x), eq(z, y)]));
            }
            // a loss written off later in the same clean-up lowers the index once more
            if f != "cleanBadDebt" && f != "liquidate" {
                let s1 = &b.st[i];
                check("the entry's index is the market's", eq(undec(&t[1]).0, if q.ptype == BORROW { s1.bidx } else { s1.sidx }));
            }
        }
    }
    // amounts: what the plain operations log is what moved
    if ["supply", "borrow", "withdraw", "repay"].contains(&f) {
        for (i, m) in p.mkts.iter().enumerate() {
            let told = at.iter().filter(|(_, q)| q.asset == m.tok.as_bytes()).fold(k(0), |z, (t, _)| add(z, undec(&t[2]).0));
            let moved = abs_diff(a.cash[i], b.cash[i]);
            check("the amounts logged are the amounts moved", eq(told, moved));
        }
    }
    for (n, r) in a.pos.iter().chain(b.pos.iter()) {
        let find = |s: &Snap| s.pos.iter().find(|(m, q)| m == n && q.ptype == r.ptype && q.asset == r.asset).map(|(_, q)| q.clone());
        if at.iter().any(|(_, q)| q.nonce == *n && q.ptype == r.ptype && q.asset == r.asset) {
            continue;
        }
        match (find(a), find(b)) {
            (Some(x), Some(y)) => check(
                "no position changes without an entry",
                and(&[eq(x.scaled, y.scaled), eq(x.threshold, y.threshold), eq(x.bonus, y.bonus), eq(x.fees, y.fees), eq(x.ltv, y.ltv)]),
            ),
            _ => checkb("no position comes or goes without an entry", false),
        }
    }
    for (i, m) in p.mkts.iter().enumerate() {
        let e = evs.iter().rev().find(|e| e.0 == p.c && name(&e.1) == "update_debt_ceiling" && e.1[1] == enc_name(m.tok.as_bytes()));
        match e {
            Some(e) => check("the logged isolated debt is the tracked one", eq(undec(&e.1[2]).0, b.iso[i])),
            None => check("the isolated debt does not change without an entry", eq(a.iso[i], b.iso[i])),
        }
    }
    let by = |from: &Addr, what: &str| -> Vec<Vec<Vec<u8>>> { evs.iter().filter(|e| e.0 == *from && name(&e.1) == what).map(|e| e.1.clone()).collect() };
    let (made, conf, orac) = (by(&p.c, "create_market_params"), by(&p.c, "update_asset_config"), by(&p.c, "update_asset_oracle"));
    for (i, (t, now)) in b.set.cfg.iter().enumerate() {
        let mine = |v: &Vec<Vec<u8>>| v[1] == enc_name(t.as_bytes());
        let told = conf.iter().filter(|v| mine(v)).last().map(|v| v[2].clone()).or(made.iter().find(|v| mine(v)).map(|v| v[11].clone()));
        match told {
            Some(x) => {
                super::admin::check_cfg("the configuration logged is the one stored", &ACfg::parse(&x), &ACfg::parse(now));
                reach("log: asset configuration");
            }
            None => checkb("no configuration changes without an entry", *now == a.set.cfg[i].1),
        }
    }
    for (i, (t, now)) in b.set.oracle.iter().enumerate() {
        match orac.iter().filter(|v| v[1] == enc_name(t.as_bytes())).last() {
            Some(v) => {
                checkb("the oracle record logged is the one stored", Oracle::parse(&v[2]).enc() == Oracle::parse(now).enc());
                reach("log: oracle record");
            }
            None => checkb("no oracle record changes without an entry", *now == a.set.oracle[i].1),
        }
    }
    for (t, pa, now) in &b.set.params {
        let upd = by(pa, "update_market_params");
        let new = made.iter().find(|v| v[1] == enc_name(t.as_bytes()));
        let told = upd.last().map(|v| v[2..10].to_vec()).or(new.map(|v| v[2..10].to_vec()));
        match told {
            Some(l) => {
                let g = Params::parse(now);
                check("the curve logged is the one stored", and(&g.list().iter().zip(&l).map(|(x, y)| eq(*x, dec_u(y))).collect::<Vec<_>>()));
                reach("log: interest curve");
            }
            None => checkb("no curve changes without an entry", a.set.params.iter().any(|(u, _, was)| u == t && was == now)),
        }
        if let Some(v) = new {
            checkb("a new market is logged with its address", v[10] == pa.to_vec());
            reach("log: market created");
        } else {
            checkb("no market appears without an entry", a.set.pool.iter().any(|(u, was)| u == t && *was == pa.to_vec()));
        }
    }
    let (cats, mem) = (by(&p.c, "update_e_mode_category"), by(&p.c, "update_e_mode_asset"));
    for (id, now) in &b.set.cats {
        match cats.iter().filter(|v| v[1][0] == *id).last() {
            Some(v) => {
                checkb("the e-mode category logged is the one stored", v[1] == *now);
                reach("log: e-mode category");
            }
            None => checkb("no e-mode category changes without an entry", a.set.cats.iter().any(|(j, was)| j == id && was == now)),
        }
    }
    for (id, t, now) in b.set.members.iter().chain(a.set.members.iter()) {
        let is = |x: &&(u8, Vec<u8>, Vec<u8>)| x.0 == *id && x.1 == *t;
        let told = mem.iter().filter(|v| v[1] == *t && untop_u(&v[3]) == *id as u64).last();
        let cur = b.set.members.iter().find(is);
        match told {
            Some(v) => {
                if let Some(c) = cur {
                    checkb("the e-mode member logged is the one stored", v[2] == c.2);
                }
                reach("log: e-mode member");
            }
            None => checkb("no e-mode member comes, goes or changes without an entry", cur.is_some() && a.set.members.iter().any(|x| is(&x)) && a.set.members.iter().find(is).unwrap().2 == *now),
        }
    }
    if let Some(v) = by(&p.c, "initial_multiply_payment").last() {
        let paid = pays.iter().find(|x| x.nonce == 0);
        checkb("an initial payment is logged only with a payment", paid.is_some());
        if let Some(x) = paid {
            // a payment in a third token is logged as the collateral it was swapped for
            let named = dec_name(v[1].clone());
            if named == dec_name(enc_name(&x.token)) {
                check("the initial payment logged is the one made", eq(undec(&v[2]).0, x.amount));
            } else {
                checkb("a swapped initial payment is logged as what it brought", at.iter().any(|(_, q)| q.ptype == DEPOSIT && q.asset == named));
            }
            if let Some(i) = p.mkts.iter().position(|m| m.tok.as_bytes() == named) {
                if let (Some(px), Some(e)) = (b.price[i], b.egld) {
                    let egld = div_hu(rmul(to_ray(undec(&v[2]).0, p.mkts[i].dec), mul(px, k(p10(9)))), k(p10(9)));
                    let worth = if e == kwad() { egld } else { div_hu(rmul(mul(egld, k(p10(9))), mul(e, k(p10(9)))), k(p10(9))) };
                    check("the initial payment is logged at its value in dollars", eq(undec(&v[3]).0, worth));
                }
            }
            checkb("the initial payment is logged for its account", b.attrs.get(&untop_u(&v[4])).cloned().flatten().is_some());
            reach("log: initial payment");
        }
    }
    if f == "liquidate" {
        for n in nonces() {
            if at.iter().any(|(_, q)| q.nonce == n) {
                bad_debt(p, b, n, by(&p.c, "emit_trigger_clean_bad_debt").into_iter().filter(|v| untop_u(&v[1]) == n).last());
            }
        }
    }
    named(STEPS, f, "log");
}
/// a liquidation that leaves worthless debt behind announces it, with what is left (EGLD)
fn bad_debt(p: &Proto, b: &Snap, n: u64, told: Option<Vec<Vec<u8>>>) {
    let (mut left, mut room) = ([k(0), k(0)], k(p10(6)));
    for (_, q) in b.pos.iter().filter(|(m, _)| *m == n) {
        let i = p.mkts.iter().position(|m| m.tok.as_bytes() == q.asset).unwrap();
        let Some(px) = b.price[i] else { return };
        let debt = q.ptype == BORROW;
        let own = rmul(q.scaled, if debt { b.st[i].bidx } else { b.st[i].sidx });
        left[debt as usize] = add(left[debt as usize], div_hu(mul(own, px), kwad()));
    }
    for (i, m) in p.mkts.iter().enumerate() {
        let Some(px) = b.price[i] else { return };
        room = add(room, mul(k(4), add(div_hu(mul(k(p10(27 - m.dec)), px), kwad()), k(2))));
    }
    let Some(e) = b.egld else { return };
    let usd = |x: T| div_hu(mul(x, e), kwad());
    let five = k(p10(27) * 5);
    match told {
        Some(v) => {
            let (d, c) = (undec(&v[2]), undec(&v[3]));
            let up = |(x, dec): (T, u32)| mul(x, k(p10(27 - dec)));
            check("the bad debt announced is what is left", and(&[le(abs_diff(up(d), left[1]), room), le(abs_diff(up(c), left[0]), room)]));
            check("only bad debt is announced", and(&[gt(add(left[1], room), left[0]), le(usd(max(sub(left[0], room), k(0))), five)]));
            reach("log: bad debt");
        }
        None => check("bad debt is announced", or(&[le(left[1], add(left[0], room)), gt(usd(add(left[0], room)), five)])),
    }
}

/// the scenarios of the properties that drive the controller
fn driven(cfg: &Cfg, a: &'static str) -> Vec<Scenario> {
    let ids = ["C20", "C21", "C23", "C25", "C26", "C28", "C30", "C32", "C33", "C34", "C35", "C36", "C38", "C39", "C45"];
    all_base().iter().filter(|p| ids.contains(&p.id)).flat_map(|p| p.scenarios(cfg)).map(|s| s.aspect(a)).collect()
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C46",
            scen: |c| driven(c, "books"),
            reach: &[
                "books: supply",
                "books: borrow",
                "books: withdraw",
                "books: repay",
                "books: liquidate",
                "books: cleanBadDebt",
                "books: flashLoan",
                "books: multiply",
                "books: swapDebt",
                "books: swapCollateral",
                "books: repayDebtWithCollateral",
                "books: claimRevenue",
                "books: addRewards",
                "books: updateIndexes",
                "books: updateAccountThreshold",
            ],
            bounds: "the scenarios of C20, C21, C23, C25, C26, C28, C30, C32-C36, C38, C39 and C45, native-coin forms included (see there for their bounds: up to 3 markets, up to 4 positions an account, every amount, price, index, threshold and position a symbolic integer); the books are compared before and after every controller transaction of every path, over accounts 1-10 and 70000-70002",
            assumptions: &[],
        },
        Prop {
            id: "C47",
            scen: |c| driven(c, "log"),
            reach: &[
                "log: supply",
                "log: borrow",
                "log: withdraw",
                "log: repay",
                "log: liquidate",
                "log: cleanBadDebt",
                "log: flashLoan",
                "log: multiply",
                "log: swapDebt",
                "log: swapCollateral",
                "log: repayDebtWithCollateral",
                "log: claimRevenue",
                "log: addRewards",
                "log: updateIndexes",
                "log: updateAccountThreshold",
                "log: asset configuration",
                "log: oracle record",
                "log: interest curve",
                "log: market created",
                "log: e-mode category",
                "log: e-mode member",
                "log: initial payment",
                "log: bad debt",
                "log: price",
            ],
            bounds: "the scenarios of C20, C21, C23, C25, C26, C28, C30, C32-C36, C38, C39 and C45, native-coin forms included (see there for their bounds: up to 3 markets, up to 4 positions an account, every amount, price, index, threshold and position a symbolic integer); the log of every transaction to the controller or a pool is compared with storage and balances, over accounts 1-10 and 70000-70002; view calls, the price components contract and the aggregator log are outside",
            assumptions: &[],
        },
    ]
}
