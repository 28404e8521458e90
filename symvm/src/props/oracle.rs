//! Prices: which source counts when, and which operations an unreliable price blocks.
use super::access::*;
use super::ctrl::*;
use super::ctrl::{A, B, C};
use super::{Cfg, Prop};
use crate::engine::*;
use crate::env::*;
use crate::env_ctrl::*;
use crate::term::*;
use crate::vm::*;
use std::rc::Rc;

const WEGLD: &str = "WEGLD-bd4d79";
const USDC: &str = "USDC-c76f1f";
const T1: &str = "TOK-aaaaaa";
const LP: &str = "LPTOK-bbbbbb";
const PAIR_ACTIVE: u64 = 1;

fn pair() -> Addr {
    sc_addr("pair")
}
fn bps(n: i64) -> T {
    k(n)
}
/// EGLD price (wad) of a USD price
pub fn in_egld(usd: T, egld: T) -> T {
    div_hu(div_hu(mul(usd, kray()), egld), k(p10(9)))
}
/// token amount (decimals d) times a price, in wad
fn times(amount: T, d: u32, price: T) -> T {
    let n = mul(amount, price);
    let r = if d + 18 >= 27 { div_hu(n, k(p10(d + 18 - 27))) } else { mul(n, k(p10(27 - d - 18))) };
    div_hu(r, k(p10(9)))
}
fn tol_upper(t: T) -> T {
    add(t, k(10000))
}
fn tol_lower(t: T) -> T {
    // the ray-precision reciprocal, in basis points
    div_hu(k(p10(8)), tol_upper(t))
}
fn ratio(safe: T, agg: T) -> T {
    div_hu(div_hu(mul(safe, kray()), agg), k(p10(23)))
}
fn within(safe: T, agg: T, lo: T, up: T) -> B_ {
    let r = ratio(safe, agg);
    and(&[le(r, up), ge(r, lo)])
}
type B_ = crate::term::B;

/// answers the safe-price question for `tok`, and insists on being asked correctly
fn safe_price_mock(onedex: bool, from: &'static str, d: u32, to: &'static str, amount: T) -> Kind {
    Kind::Mock(Rc::new(move |c: &Call| {
        if c.func != "getSafePriceByTimestampOffset" {
            return vec![];
        }
        let one = cat(&[nbytes(from.as_bytes()), u64b(0), nu(k(p10(d)))]);
        if onedex {
            checkb("the price between the two tokens of the pair", c.args[0] == from.as_bytes() && c.args[1] == to.as_bytes());
        } else {
            checkb("the configured pair is asked", c.args[0] == pair().to_vec());
        }
        let (off, p) = if onedex { (&c.args[2], &c.args[3]) } else { (&c.args[1], &c.args[2]) };
        checkb("the price is a fifteen-minute average", untop_u(off) == 900);
        checkb("for one whole token", *p == one);
        vec![cat(&[nbytes(to.as_bytes()), u64b(0), nu(amount)])]
    }))
}
fn mix_oracle(p: &Proto, tok: &str, d: u32, onedex: bool) -> Oracle {
    let mut o = agg_oracle(p.agg, tok, d);
    o.base = tok.into();
    o.quote = WEGLD.into();
    o.method = 4;
    o.addr = pair();
    o.source = if onedex { 5 } else { 1 };
    o.pair = if onedex { 7 } else { 0 };
    o
}
/// pair contract and safe price for `tok` quoted in `to`
fn set_pair(p: &Proto, tok: &'static str, d: u32, onedex: bool, to: &'static str, amount: T, state: u64) {
    let m = safe_price_mock(onedex, tok, d, to, amount);
    if onedex {
        add_account(pair(), m, p.owner, false);
        storage_set(&pair(), &cat(&[b"pair_state".to_vec(), u32b(7)]), top_u(state));
    } else {
        add_account(pair(), Kind::Mock(Rc::new(|_| vec![])), p.owner, false);
        add_account(p.view, m, p.owner, false);
        storage_set(&pair(), b"state", top_u(state));
    }
}
fn price(n: &str, h: i64) -> T {
    var(n, p10(3), p10(33), p10(16) * h)
}

// ------------------------------------------------------------------ C40
/// two sources: the average on the exchange and the off-chain feed
fn mix(d: u32, onedex: bool, sym_tol: bool) -> Scenario {
    Scenario::new(format!("two sources dec={} {}{}", d, if onedex { "onedex" } else { "xexchange" }, if sym_tol { " any tolerance" } else { "" }), move || {
        let p = Proto::new(vec![mkt(T1, d, kwad())]);
        let (usd, safe) = (price("usd", 250), price("safe", 255));
        p.set_price(T1, usd);
        p.set_oracle(T1, &mix_oracle(&p, T1, d, onedex));
        set_pair(&p, T1, d, onedex, WEGLD, safe, PAIR_ACTIVE);
        let (f, l) = if sym_tol { (var("first", 50, 5000, 200), var("last", 150, 10000, 500)) } else { (k(300), k(700)) };
        let r = p.call(&p.owner, "editTokenOracleTolerance", vec![T1.as_bytes().to_vec(), enc_u(f), enc_u(l)], vec![]);
        if !r.ok() {
            check("valid tolerances are accepted", lt(l, f));
            reach("tolerances refused");
            return;
        }
        let agg = usd; // 1 EGLD = 1 USD
        let in1 = within(safe, agg, tol_lower(f), tol_upper(f));
        let in2 = within(safe, agg, tol_lower(l), tol_upper(l));
        let got = p.viewd("getTokenPriceEGLD", vec![T1.as_bytes().to_vec()]);
        let avg = div(add(agg, safe), k(2));
        if fork(in1) {
            check("close to the feed: the exchange average counts", eq(got, safe));
            reach("first tier");
        } else if fork(in2) {
            check("further away: the mean of both counts", eq(got, avg));
            reach("second tier");
        } else {
            check("too far apart: the exchange average, for harmless operations only", eq(got, safe));
            reach("beyond");
        }
        observe("price", got);
    })
}
/// 1 EGLD = any number of USD; a single source
fn single(method: u8, d: u32) -> Scenario {
    Scenario::new(format!("{} alone dec={}", if method == 1 { "exchange average" } else { "feed" }, d), move || {
        let p = Proto::new(vec![mkt(T1, d, kwad()), mkt(A, 18, kwad())]);
        let (usd, safe, egld) = (price("usd", 250), price("safe", 255), var("egld", p10(15), p10(22), p10(18) * 7));
        p.set_price(T1, usd);
        p.set_price("EGLD", egld);
        let mut o = mix_oracle(&p, T1, d, false);
        o.method = method;
        p.set_oracle(T1, &o);
        set_pair(&p, T1, d, false, WEGLD, safe, PAIR_ACTIVE);
        let t = || vec![T1.as_bytes().to_vec()];
        let got = p.viewd("getTokenPriceEGLD", t());
        if method == 1 {
            check("the exchange average counts", eq(got, safe));
            reach("safe only");
        } else {
            check("the feed's USD price over EGLD's", eq(got, in_egld(usd, egld)));
            reach("feed only");
        }
        let u = p.viewd("getTokenPriceUSD", t());
        check("the USD price is the EGLD price times EGLD's", eq(u, times(got, 18, egld)));
        check("EGLD is worth one EGLD", eq(p.viewd("getTokenPriceEGLD", vec![b"EGLD".to_vec()]), kwad()));
        check("wrapped EGLD too", eq(p.viewd("getTokenPriceEGLD", vec![WEGLD.as_bytes().to_vec()]), kwad()));
        check("EGLD's USD price is the feed's", eq(p.viewd("getTokenPriceUSD", vec![b"EGLD".to_vec()]), egld));
    })
}
/// the pair quotes another token, which has its own price
fn via_quote(d: u32) -> Scenario {
    Scenario::new(format!("quoted in another token dec={}", d), move || {
        let p = Proto::new(vec![mkt(T1, d, kwad()), mkt(USDC, 6, kwad())]);
        let egld = var("egld", p10(15), p10(22), p10(18) * 7);
        let (uusd, amount) = (price("usdcUsd", 100), var("amount", 0, p10(30), p10(6) * 3));
        p.set_price("EGLD", egld);
        p.set_price(USDC, uusd);
        let mut o = mix_oracle(&p, T1, d, false);
        o.method = 1;
        o.quote = USDC.into();
        p.set_oracle(T1, &o);
        set_pair(&p, T1, d, false, USDC, amount, PAIR_ACTIVE);
        let got = p.viewd("getTokenPriceEGLD", vec![T1.as_bytes().to_vec()]);
        check("the amount quoted times the quote token's price", eq(got, times(amount, 6, in_egld(uusd, egld))));
        reach("quoted in another token");
    })
}
/// one entry of the market overview
struct Shown {
    sidx: T,
    bidx: T,
    /// final, exchange and feed price in (EGLD, USD)
    price: (T, T),
    safe: (T, T),
    agg: (T, T),
    flags: (bool, bool),
}
fn shown(p: &Proto, t: &str) -> Shown {
    let r = p.view("getAllMarketIndexes", vec![t.as_bytes().to_vec()]);
    let out = r.out().concat();
    let mut rd = Rd(&out);
    checkb("the asset", rd.bytes() == t.as_bytes());
    let v: Vec<T> = (0..8).map(|_| rd.decv()).collect();
    let flags = (rd.bool(), rd.bool());
    Shown { sidx: v[0], bidx: v[1], price: (v[2], v[3]), safe: (v[4], v[5]), agg: (v[6], v[7]), flags }
}
fn is_flag(b: bool, c: B_) -> B_ {
    if b {
        c
    } else {
        not(c)
    }
}
/// the two-source rule: within the first tolerance, the second, beyond
fn two_source(safe: T, agg: T) -> (T, B_, B_) {
    let in1 = within(safe, agg, k(9800), k(10200));
    let in2 = within(safe, agg, k(9500), k(10500));
    (ite(in1, safe, ite(in2, div(add(agg, safe), k(2)), safe)), in1, in2)
}
/// what the market overview shows
fn overview() -> Scenario {
    Scenario::new("market overview", move || {
        let p = Proto::new(vec![mkt(T1, 18, kwad())]);
        let (usd, safe) = (price("usd", 250), price("safe", 255));
        p.set_price(T1, usd);
        p.set_oracle(T1, &mix_oracle(&p, T1, 18, false));
        set_pair(&p, T1, 18, false, WEGLD, safe, PAIR_ACTIVE);
        let v = shown(&p, T1);
        check("supply and borrow index", and(&[eq(v.sidx, p.m(T1).st.sidx), eq(v.bidx, p.m(T1).st.bidx)]));
        let (want, in1, in2) = two_source(safe, usd);
        check("price in EGLD and USD", and(&[eq(v.price.0, want), eq(v.price.1, want)]));
        check("exchange price", and(&[eq(v.safe.0, safe), eq(v.safe.1, safe)]));
        check("feed price", and(&[eq(v.agg.0, usd), eq(v.agg.1, usd)]));
        check("tolerance flags", and(&[is_flag(v.flags.0, in1), is_flag(v.flags.1, in2)]));
        let r = p.view("getAllMarkets", vec![T1.as_bytes().to_vec()]);
        let out = r.out().concat();
        let mut rd = Rd(&out);
        checkb("the asset and its pool", rd.bytes() == T1.as_bytes() && rd.raw(32) == pool_of(T1).to_vec());
        check("the same prices in the market list", and(&[eq(rd.decv(), want), eq(rd.decv(), want)]));
        reach("overview");
    })
}
/// single sources are shown as every price, and agree with themselves
fn overview_single(method: u8) -> Scenario {
    Scenario::new(format!("market overview, {} alone", if method == 1 { "exchange average" } else { "feed" }), move || {
        let p = Proto::new(vec![mkt(T1, 18, kwad())]);
        let (usd, safe, egld) = (price("usd", 250), price("safe", 255), var("egld", p10(15), p10(22), p10(18) * 7));
        p.set_price(T1, usd);
        p.set_price("EGLD", egld);
        let mut o = mix_oracle(&p, T1, 18, false);
        o.method = method;
        p.set_oracle(T1, &o);
        set_pair(&p, T1, 18, false, WEGLD, safe, PAIR_ACTIVE);
        let v = shown(&p, T1);
        let want = if method == 1 { safe } else { in_egld(usd, egld) };
        let in_usd = times(want, 18, egld);
        for (n, q) in [("price", v.price), ("exchange price", v.safe), ("feed price", v.agg)] {
            check(&format!("the only source's {}", n), and(&[eq(q.0, want), eq(q.1, in_usd)]));
        }
        checkb("a single source agrees with itself", v.flags == (true, true));
        reach("overview of a single source");
    })
}

// ------------------------------------------------------------------ C41 / C43
/// operations that put debt or release collateral
const RISKY: &[&str] = &[
    "borrow", "withdraw", "liquidate", "multiply", "swapDebt", "swapCollateral", "repayDebtWithCollateral", "cleanBadDebt",
    "updateAccountThreshold",
];
fn x_for(op: &str) -> T {
    op_amount(op)
}
fn simple(op: &str) -> bool {
    ["borrow", "withdraw"].contains(&op)
}
fn go(p: &Proto, op: &str, x: T) -> TxRes {
    let (n, who) = target(op);
    if op == "updateAccountThreshold" {
        return p.call(&who, op, vec![A.as_bytes().to_vec(), top_bool(true), top_u(n)], vec![]);
    }
    run(p, op, &who, n, nft_for(op), x)
}
/// the collateral's two price sources disagree by any amount
fn deviation(op: &'static str, tok: &'static str) -> Scenario {
    deviation_with(op, tok, None)
}
/// the same with a payment sent along
fn deviation_with(op: &'static str, tok: &'static str, along: Option<&'static str>) -> Scenario {
    let name = format!("{}{} while the sources of {} disagree", op, along.map_or(String::new(), |t| format!(", {} sent along,", t)), tok);
    Scenario::new(name, move || {
        let p = world();
        let h = if tok == A { 250 } else if tok == B { 99 } else { 4010 };
        let d = p.m(tok).dec;
        let (usd, safe) = (cents(h), price("safe", h));
        p.set_price(tok, usd);
        p.set_oracle(tok, &mix_oracle(&p, tok, d, false));
        set_pair(&p, tok, d, false, WEGLD, safe, PAIR_ACTIVE);
        let in2 = within(safe, usd, k(9500), k(10500));
        if !simple(op) && fork(in2) {
            // agreeing sources: the price itself does not matter here
            set_pair(&p, tok, d, false, WEGLD, usd, PAIR_ACTIVE);
        }
        let x = if simple(op) { op_amount(op) } else { hint_of(op) };
        let r = match along {
            None => go(&p, op, x),
            Some(t) => {
                let (n, who) = target(op);
                let mut with = nft_for(op);
                // not so much that no debt is left
                let most = p10(if op == "repayDebtWithCollateral" { p.m(t).dec + 1 } else { 30 });
                with.push(pay(t, var("paid", 1, most, p10(p.m(t).dec))));
                run(&p, op, &who, n, with, x)
            }
        };
        if r.ok() {
            check("done only while the sources agree within the last tolerance", in2);
            reach(&format!("{} went through", op));
        } else {
            reach("refused");
        }
    })
}
/// deviation never blocks what can only make accounts safer
fn harmless(op: &'static str, tok: &'static str) -> Scenario {
    Scenario::new(format!("{} with disagreeing sources of {}", op, tok), move || {
        let p = world();
        let d = p.m(tok).dec;
        let h = if tok == A { 250 } else { 99 };
        let (usd, safe) = (cents(h), price("safe", h * 2));
        p.set_price(tok, usd);
        let mut o = mix_oracle(&p, tok, d, false);
        o.stale = 60;
        p.set_oracle(tok, &o);
        let age = pick("age", 3);
        p.set_round(tok, usd, T0 / 1000 - [0u64, 60, 86400][age]);
        set_pair(&p, tok, d, false, WEGLD, safe, [PAIR_ACTIVE, 0, 2][pick("state", 3)]);
        let x = if op == "repay" { k(p10(7)) } else { var("x", 1, p10(22), p10(6)) };
        let r = match op {
            "withdraw" => {
                p.account(&p.user, 8, &normal(), &[deposit(A, tokens(1000))]);
                assume(le(x, k(p10(20))));
                p.withdraw(8, vec![(A, x)])
            }
            "repay" => p.repay_by(&p.user, N_, vec![(B, x)]),
            _ => p.supply(N_, None, vec![(A, x)]),
        };
        checkb("not blocked", r.ok());
        let in2 = within(safe, usd, k(9500), k(10500));
        if !fork(in2) {
            reach("goes on beyond the tolerance");
        }
    })
}
const N_: u64 = 5;
#[derive(Clone, Copy, PartialEq, Debug)]
enum Bad {
    Stale,
    EgldStale,
    Missing,
    Paused,
    Inactive,
    OnedexInactive,
    NoOracle,
}
fn unavailable(op: &'static str, bad: Bad) -> Scenario {
    Scenario::new(format!("{} {:?}", op, bad), move || {
        let p = world();
        let tok = A;
        let usd = cents(250);
        p.set_price(tok, usd);
        let mut o = agg_oracle(p.agg, tok, 18);
        let now = T0 / 1000;
        let mut fine = false;
        match bad {
            Bad::Stale => {
                let max = [60u64, 300][pick("max", 2)];
                let age = [0, max - 1, max, max + 1, 86400][pick("age", 5)];
                o.stale = max;
                p.set_oracle(tok, &o);
                p.set_round(tok, usd, now - age);
                fine = age < max;
            }
            Bad::EgldStale => {
                let age = [299u64, 300, 4000][pick("age", 3)];
                let mut e = agg_oracle(p.agg, "EGLD", 18);
                e.stale = 300;
                p.set_oracle("EGLD", &e);
                p.set_round("EGLD", kwad(), now - age);
                fine = age < 300;
            }
            Bad::Missing => storage_set(&p.agg, &cat(&[b"rounds".to_vec(), nbytes(b"AAA"), nbytes(b"USD")]), vec![]),
            Bad::Paused => storage_set(&p.agg, b"pause_module:paused", vec![1]),
            Bad::Inactive | Bad::OnedexInactive => {
                let on = bad == Bad::OnedexInactive;
                let mut o = mix_oracle(&p, tok, 18, on);
                o.method = 1;
                p.set_oracle(tok, &o);
                let s = pick("state", 3) as u64;
                set_pair(&p, tok, 18, on, WEGLD, usd, s);
                fine = s == PAIR_ACTIVE;
            }
            Bad::NoOracle => p.set(&[b"token_oracle".to_vec(), nbytes(tok.as_bytes())], vec![]),
        }
        let x = x_for(op);
        let ok = go(&p, op, x).ok();
        if !fine {
            checkb("refused without a current price", !ok);
            reach("refused without a price");
        } else if ok {
            reach(&format!("{} with a current price", op));
        }
    })
}
/// nothing that needs a price works while the aggregator is paused or EGLD has none
fn no_feed(op: &'static str) -> Scenario {
    Scenario::new(format!("{} without any feed", op), move || {
        let p = world();
        let x = x_for(op);
        match pick("how", 3) {
            0 => storage_set(&p.agg, b"pause_module:paused", vec![1]),
            1 => storage_set(&p.agg, &cat(&[b"rounds".to_vec(), nbytes(b"EGLD"), nbytes(b"USD")]), vec![]),
            _ => {
                let mut e = agg_oracle(p.agg, "EGLD", 18);
                e.stale = 300;
                p.set_oracle("EGLD", &e);
                p.set_round("EGLD", kwad(), T0 / 1000 - 300);
            }
        }
        checkb("refused without the EGLD price", !go(&p, op, x).ok());
        reach("refused without a price");
    })
}

// ------------------------------------------------------------------ C42
/// a pair's reserves and supply
fn lp_world(d0: u32, d1: u32, dl: u32) -> (Proto, [T; 3], [T; 4]) {
    let p = Proto::new(vec![mkt(A, d0, kwad()), mkt(B, d1, kwad()), mkt(LP, dl, kwad())]);
    let rs = [var("r0", p10(6), p10(33), p10(d0) * 1000), var("r1", p10(6), p10(33), p10(d1) * 2500), var("supply", p10(6), p10(33), p10(dl) * 40)];
    // feed and exchange prices of both tokens
    let ps = [price("aggA", 250), price("aggB", 100), price("safeA", 250), price("safeB", 100)];
    (p, rs, ps)
}
fn sqrt_wad(x: T) -> T {
    // floor square root of a wad number, in wad
    mul(sqrt(x), k(p10(9)))
}
fn to_wad_product(a: T, da: u32, b: T, db: u32) -> T {
    let n = mul(a, b);
    if da + db >= 18 {
        div_hu(n, k(p10(da + db - 18)))
    } else {
        mul(n, k(p10(18 - da - db)))
    }
}
fn wmul(a: T, b: T) -> T {
    div_hu(mul(a, b), kwad())
}
fn wdiv(a: T, b: T) -> T {
    div_hu(mul(a, kwad()), b)
}
/// the documented fair price: sqrt(K·Pb/Pa)·Pa + sqrt(K·Pa/Pb)·Pb, over the supply
fn fair(rs: [T; 3], d0: u32, d1: u32, dl: u32, pa: T, pb: T) -> T {
    let kk = to_wad_product(rs[0], d0, rs[1], d1);
    let x = sqrt_wad(wmul(kk, wdiv(pb, pa)));
    let y = sqrt_wad(wmul(kk, wdiv(pa, pb)));
    let v = add(wmul(x, pa), wmul(y, pb));
    let s = if dl <= 18 { mul(rs[2], k(p10(18 - dl))) } else { div_hu(rs[2], k(p10(dl - 18))) };
    wdiv(v, s)
}
fn pair_mock(rs: [T; 3]) -> Kind {
    Kind::Mock(Rc::new(move |c: &Call| {
        if c.func == "getReservesAndTotalSupply" {
            rs.iter().map(|r| enc_u(*r)).collect()
        } else {
            vec![]
        }
    }))
}
fn lp_oracle(p: &Proto, dl: u32) -> Oracle {
    let mut o = agg_oracle(p.agg, LP, dl);
    o.base = A.into();
    o.quote = B.into();
    o.addr = sc_addr("lppair");
    o.otype = 3;
    o.method = 1;
    o.source = 1;
    o
}
fn lp(d0: u32, d1: u32, dl: u32, two: bool) -> Scenario {
    Scenario::new(format!("liquidity token {}/{}/{}{}", d0, d1, dl, if two { ", two price sources" } else { "" }), move || {
        feas_budget(500);
        let (p, rs, ps) = lp_world(d0, d1, dl);
        p.set_price(A, ps[0]);
        p.set_price(B, ps[1]);
        if two {
            // the first token's exchange price differs from its feed
            let mut o = mix_oracle(&p, A, d0, false);
            o.method = 1;
            p.set_oracle(A, &o);
            set_pair(&p, A, d0, false, WEGLD, ps[2], PAIR_ACTIVE);
        }
        add_account(sc_addr("lppair"), pair_mock(rs), p.owner, false);
        p.set_oracle(LP, &lp_oracle(&p, dl));
        let on = fair(rs, d0, d1, dl, if two { ps[2] } else { ps[0] }, ps[1]);
        let off = fair(rs, d0, d1, dl, ps[0], ps[1]);
        let r = p.view("getTokenPriceEGLD", vec![LP.as_bytes().to_vec()]);
        if !r.ok() {
            // nothing can be compared with a price of zero
            check("only prices of zero are refused", or(&[eq(off, k(0)), eq(on, k(0))]));
            reach("worthless");
            return;
        }
        let got = undec(&r.out()[0]).0;
        observe("lp", got);
        if !two {
            check("the fair value of the reserves per token", eq(got, off));
            reach("fair price");
        } else if fork(within(off, on, k(9800), k(10200))) {
            check("exchange prices count while they agree with the feed", eq(got, on));
            reach("within the first tolerance");
        } else {
            check("otherwise the mean counts", eq(got, div(add(on, off), k(2))));
            reach("beyond the first tolerance");
        }
    })
}
/// both tokens of the pair have two different prices; the overview shows both fair values
fn lp_both(view: bool) -> Scenario {
    Scenario::new(format!("liquidity token of two two-source tokens{}", if view { ", overview" } else { "" }), move || {
        feas_budget(500);
        let p = Proto::new(vec![mkt(A, 18, kwad()), mkt(B, 18, kwad()), mkt(LP, 18, kwad())]);
        let (fa, sa, fb, sb) = (k(p10(16) * 250), var("safeA", p10(15), p10(21), p10(16) * 252), k(p10(16) * 99), var("safeB", p10(15), p10(21), p10(16) * 100));
        let rs = [k(p10(18) * 1000), k(p10(18) * 2500), k(p10(18) * 40)];
        p.set_price(A, fa);
        p.set_price(B, fb);
        let mut o = mix_oracle(&p, A, 18, false);
        o.method = 1;
        p.set_oracle(A, &o);
        set_pair(&p, A, 18, false, WEGLD, sa, PAIR_ACTIVE);
        let mut o = mix_oracle(&p, B, 18, true);
        o.method = 1;
        o.addr = sc_addr("onedexpair");
        p.set_oracle(B, &o);
        add_account(o.addr, safe_price_mock(true, B, 18, WEGLD, sb), p.owner, false);
        storage_set(&o.addr, &cat(&[b"pair_state".to_vec(), u32b(7)]), top_u(PAIR_ACTIVE));
        add_account(sc_addr("lppair"), pair_mock(rs), p.owner, false);
        p.set_oracle(LP, &lp_oracle(&p, 18));
        let (on, off) = (fair(rs, 18, 18, 18, sa, sb), fair(rs, 18, 18, 18, fa, fb));
        let (in1, in2) = (within(off, on, k(9800), k(10200)), within(off, on, k(9500), k(10500)));
        let want = ite(in1, on, div(add(on, off), k(2)));
        if view {
            let v = shown(&p, LP);
            check("the fair values at exchange and at feed prices", and(&[eq(v.safe.0, on), eq(v.agg.0, off), eq(v.safe.1, on), eq(v.agg.1, off)]));
            check("the price in use", and(&[eq(v.price.0, want), eq(v.price.1, want)]));
            check("tolerance flags of a liquidity token", and(&[is_flag(v.flags.0, in1), is_flag(v.flags.1, in2)]));
            reach("overview of a liquidity token");
        } else {
            check("each token at its own exchange price, against its own feed", eq(p.viewd("getTokenPriceEGLD", vec![LP.as_bytes().to_vec()]), want));
            reach("two two-source tokens");
        }
    })
}
/// a pair of a staked token: fair value by exchange rate, both with exchange and feed price of its base
fn lp_derived() -> Scenario {
    Scenario::new("liquidity token of a staked token", move || {
        feas_budget(500);
        let p = Proto::new(vec![mkt(A, 18, kwad()), mkt(B, 18, kwad()), mkt(C, 18, kwad()), mkt(LP, 18, kwad())]);
        let (usd, safe) = (cents(250), var("safe", p10(15), p10(21), p10(16) * 252));
        let rate = k(p10(16) * 104);
        let rs = [k(p10(18) * 1000), k(p10(18) * 2500), k(p10(18) * 40)];
        staked(&p, C, 2, A, rate);
        p.set_price(A, usd);
        let mut o = mix_oracle(&p, A, 18, false);
        o.method = 1;
        p.set_oracle(A, &o);
        set_pair(&p, A, 18, false, WEGLD, safe, PAIR_ACTIVE);
        p.set_price(B, cents(99));
        add_account(sc_addr("lppair"), pair_mock(rs), p.owner, false);
        let mut o = lp_oracle(&p, 18);
        o.base = C.into();
        p.set_oracle(LP, &o);
        let (on, off) = (fair(rs, 18, 18, 18, times(rate, 18, safe), cents(99)), fair(rs, 18, 18, 18, times(rate, 18, usd), cents(99)));
        let (in1, in2) = (within(off, on, k(9800), k(10200)), within(off, on, k(9500), k(10500)));
        let v = shown(&p, LP);
        check("the staked token at its rate times the base token's exchange and feed price", and(&[eq(v.safe.0, on), eq(v.agg.0, off)]));
        check("the price in use", eq(v.price.0, ite(in1, on, div(add(on, off), k(2)))));
        check("tolerance flags of a liquidity token", and(&[is_flag(v.flags.0, in1), is_flag(v.flags.1, in2)]));
        reach("pair with a staked token");
    })
}
/// the price depends on the reserves only through their product
fn lp_manipulation() -> Scenario {
    Scenario::new("a trade does not move the liquidity token's price", move || {
        let (p, rs, _) = lp_world(18, 18, 18);
        let f = var("f", 1, 1000000, 7);
        // reserves after a (fee-free) trade: one side times f, the other divided by f
        let r1 = mul(rs[1], f);
        let moved = [mul(rs[0], f), rs[1], rs[2]];
        p.set_price(A, cents(250));
        p.set_price(B, cents(99));
        p.set_oracle(LP, &lp_oracle(&p, 18));
        let ask = |rs: [T; 3]| {
            add_account(sc_addr("lppair"), pair_mock(rs), p.owner, false);
            p.view("getTokenPriceEGLD", vec![LP.as_bytes().to_vec()])
        };
        let (a, b) = (ask([rs[0], r1, rs[2]]), ask(moved));
        checkb("priced before and after, or not at all", a.ok() == b.ok());
        if a.ok() && b.ok() {
            check("the same price before and after", eq(undec(&a.out()[0]).0, undec(&b.out()[0]).0));
            reach("manipulation");
        }
    })
}
fn lp_blocked(op: &'static str) -> Scenario {
    Scenario::new(format!("{} against a liquidity token whose prices disagree", op), move || {
        let mut ms = world_mkts();
        ms.push(lin_mkt(LP, 18, cents(100), 1000, 1000));
        let p = Proto::new(ms);
        let (usd, safe) = (cents(250), price("safe", 250));
        p.set_price(A, usd);
        let mut o = mix_oracle(&p, A, 18, false);
        o.method = 1;
        p.set_oracle(A, &o);
        set_pair(&p, A, 18, false, WEGLD, safe, PAIR_ACTIVE);
        let rs = [k(p10(18) * 1000), k(p10(6) * 2500), k(p10(18) * 40)];
        add_account(sc_addr("lppair"), pair_mock(rs), p.owner, false);
        p.set_oracle(LP, &lp_oracle(&p, 18));
        let owed = if op == "liquidate" { 900 } else { 300 };
        p.account(&p.user, N_, &normal(), &[deposit(LP, tokens(10)), debt(B, tokens(owed))]);
        let on = fair(rs, 18, 6, 18, safe, cents(99));
        let off = fair(rs, 18, 6, 18, usd, cents(99));
        let in2 = within(off, on, k(9500), k(10500));
        let mut x = var("x", 1, p10(10), p10(6));
        if op == "liquidate" && fork(in2) {
            // agreeing sources: the price itself does not matter here
            set_pair(&p, A, 18, false, WEGLD, usd, PAIR_ACTIVE);
            x = k(p10(6));
        }
        let ok = match op {
            "borrow" => p.borrow(N_, vec![(B, x)]).ok(),
            "withdraw" => p.withdraw(N_, vec![(LP, x)]).ok(),
            _ => p.liquidate_by(&p.user, N_, vec![(B, x)]).ok(),
        };
        if ok {
            check("done only while both fair values agree", in2);
            reach("done with a liquidity token");
        } else {
            reach("refused");
        }
    })
}

// ------------------------------------------------------------------ C44
fn derived(source: u8) -> Scenario {
    Scenario::new(
        format!("staked token {}", ["xEGLD", "LEGLD", "LXOXNO"][match source { 3 => 0, 4 => 1, _ => 2 }]),
        move || {
            let p = Proto::new(vec![mkt(A, 18, kwad()), mkt(B, 18, kwad())]);
            let rate = var("rate", 1, p10(30), p10(16) * 104);
            let usd = price("usd", 13);
            let ls = sc_addr("staking");
            let f = if source == 4 { "getTokenPrice" } else { "getExchangeRate" };
            add_account(
                ls,
                Kind::Mock(Rc::new(move |c: &Call| {
                    if c.func == f {
                        vec![enc_u(rate)]
                    } else {
                        revert("no such function")
                    }
                })),
                p.owner,
                false,
            );
            let mut o = agg_oracle(p.agg, A, 18);
            o.otype = 2;
            o.source = source;
            o.addr = ls;
            o.base = if source == 2 { B.into() } else { "EGLD".into() };
            o.quote = o.base.clone();
            p.set_oracle(A, &o);
            p.set_price(B, usd);
            // a feed for the derived token itself does not count
            p.set_price(A, var("decoy", p10(3), p10(33), p10(18)));
            let got = p.viewd("getTokenPriceEGLD", vec![A.as_bytes().to_vec()]);
            if source == 2 {
                check("exchange rate times the staked token's price", eq(got, times(rate, 18, usd)));
            } else {
                check("the exchange rate itself", eq(got, rate));
            }
            reach("derived price");
        },
    )
}
/// the staking contract behind `tok`
fn staked(p: &Proto, tok: &str, source: u8, base: &str, rate: T) {
    let ls = sc_addr("staking");
    let f = if source == 4 { "getTokenPrice" } else { "getExchangeRate" };
    add_account(ls, Kind::Mock(Rc::new(move |c: &Call| if c.func == f { vec![enc_u(rate)] } else { revert("no such function") })), p.owner, false);
    let mut o = agg_oracle(p.agg, tok, 18);
    o.otype = 2;
    o.source = source;
    o.addr = ls;
    o.base = base.into();
    o.quote = base.into();
    p.set_oracle(tok, &o);
}
/// the base token's own two-source rule applies, in views and in operations
fn derived_two_source(op: bool) -> Scenario {
    Scenario::new(format!("staked token of a two-source token{}", if op { ", used for a loan" } else { "" }), move || {
        let (usd, safe) = (cents(250), price("safe", 255));
        let rate = var("rate", p10(17), p10(19), p10(16) * 104);
        let p = if op { world() } else { Proto::new(vec![mkt(A, 18, kwad()), mkt(B, 18, kwad()), mkt(C, 18, kwad())]) };
        staked(&p, C, 2, A, rate);
        p.set_price(A, usd);
        p.set_oracle(A, &mix_oracle(&p, A, 18, false));
        set_pair(&p, A, 18, false, WEGLD, safe, PAIR_ACTIVE);
        let (base, in1, in2) = two_source(safe, usd);
        let want = times(rate, 18, base);
        if op {
            p.account(&p.user, 8, &normal(), &[deposit(C, tokens(10))]);
            let x = var("x", 1, p10(10), p10(6));
            let r = p.borrow(8, vec![(B, x)]);
            if r.ok() {
                check("only while the base token's sources agree", in2);
                let q = p.pos(8, DEPOSIT, C).unwrap();
                let coll = rmul(rmul(q.scaled, p.state(C).sidx), mul(want, k(p10(9))));
                let ltv = div_hu(mul(coll, q.ltv), k(10000));
                check("the loan is within LTV at that price", le(p.total(&p.positions(8, BORROW)), add(ltv, k(p10(9)))));
                reach("loan against a staked token");
            }
            return;
        }
        let v = shown(&p, C);
        check("exchange rate times the base token's price in use", and(&[eq(v.price.0, want), eq(v.price.1, want)]));
        check("the base token's tolerance flags", and(&[is_flag(v.flags.0, in1), is_flag(v.flags.1, in2)]));
        check("the price view agrees", eq(p.viewd("getTokenPriceEGLD", vec![C.as_bytes().to_vec()]), want));
        reach("two-source base");
    })
}
/// a derived token inherits its base token's blocking
fn derived_blocked() -> Scenario {
    Scenario::new("borrow against a derived token while its base is unreliable", move || {
        let p = world();
        let rate = k(p10(16) * 104);
        let ls = sc_addr("staking");
        add_account(ls, Kind::Mock(Rc::new(move |_: &Call| vec![enc_u(rate)])), p.owner, false);
        let mut o = agg_oracle(p.agg, C, 18);
        o.otype = 2;
        o.source = 2;
        o.addr = ls;
        o.base = A.into();
        o.quote = A.into();
        p.set_oracle(C, &o);
        let (usd, safe) = (cents(250), price("safe", 250));
        p.set_price(A, usd);
        p.set_oracle(A, &mix_oracle(&p, A, 18, false));
        set_pair(&p, A, 18, false, WEGLD, safe, PAIR_ACTIVE);
        p.account(&p.user, 8, &normal(), &[deposit(C, tokens(10))]);
        let x = var("x", 1, p10(10), p10(6));
        if p.borrow(8, vec![(B, x)]).ok() {
            check("only while the base token's sources agree", within(safe, usd, k(9500), k(10500)));
            reach("borrowed against a derived token");
        } else {
            reach("refused");
        }
    })
}

pub fn props() -> Vec<Prop> {
    fn c43(_: &Cfg) -> Vec<Scenario> {
        let mut v = vec![];
        for op in RISKY.iter().copied() {
            for b in [Bad::Stale, Bad::EgldStale, Bad::Missing, Bad::Paused, Bad::Inactive, Bad::OnedexInactive, Bad::NoOracle] {
                v.push(unavailable(op, b));
            }
        }
        for op in ["supply", "repay", "flashLoan", "updateIndexes"] {
            v.push(no_feed(op));
        }
        v
    }
    vec![
        Prop {
            id: "C40",
            scen: |_| {
                vec![
                    mix(18, false, true), mix(6, false, false), mix(18, true, false), single(1, 18), single(1, 6), single(3, 18), single(3, 6),
                    single(1, 2), single(1, 0), via_quote(18), via_quote(6), via_quote(2), overview(), overview_single(1), overview_single(3),
                ]
            },
            reach: &["first tier", "second tier", "beyond", "tolerances refused", "safe only", "feed only", "quoted in another token", "overview", "overview of a single source"],
            bounds: "prices 1e10..1e26, tolerances over the full accepted range, feeds with 18 and 6 decimals, one or two sources, direct or through a quote token",
            assumptions: &[],
        },
        Prop {
            id: "C41",
            scen: |_| {
                let mut v: Vec<Scenario> = RISKY.iter().map(|o| deviation(o, A)).collect();
                for (o, t) in [("borrow", B), ("withdraw", B), ("liquidate", B), ("multiply", C), ("swapDebt", C), ("swapCollateral", C), ("repayDebtWithCollateral", B), ("cleanBadDebt", B)] {
                    v.push(deviation(o, t));
                }
                for (o, t) in [("borrow", C), ("withdraw", C), ("multiply", B), ("swapDebt", B), ("repayDebtWithCollateral", C)] {
                    v.push(deviation(o, t));
                }
                for (o, t, y) in [("swapCollateral", A, B), ("swapCollateral", C, C), ("swapCollateral", B, A), ("swapDebt", A, B), ("swapDebt", B, B), ("repayDebtWithCollateral", A, B), ("repayDebtWithCollateral", C, B)] {
                    v.push(deviation_with(o, t, Some(y)));
                }
                for (o, t) in [("supply", A), ("repay", B), ("withdraw", A)] {
                    v.push(harmless(o, t));
                }
                v.push(derived_blocked());
                v
            },
            reach: &[
                "refused", "borrow went through", "withdraw went through", "liquidate went through", "multiply went through", "swapDebt went through",
                "swapCollateral went through", "repayDebtWithCollateral went through", "cleanBadDebt went through",
                "updateAccountThreshold went through", "goes on beyond the tolerance", "borrowed against a derived token",
            ],
            bounds: "every risk-increasing operation and clean-up, with the deviating token as collateral, as debt or uninvolved, the strategies also with a payment along; exchange price, feed price and amount symbolic; standard tolerances",
            assumptions: &[],
        },
        Prop {
            id: "C42",
            scen: |_| vec![lp(18, 18, 18, false), lp(6, 18, 18, false), lp(18, 6, 18, true), lp_both(false), lp_both(true), lp_derived(), lp_manipulation(), lp_blocked("borrow"), lp_blocked("withdraw"), lp_blocked("liquidate")],
            reach: &["fair price", "within the first tolerance", "beyond the first tolerance", "manipulation", "done with a liquidity token", "refused", "two two-source tokens", "overview of a liquidity token", "pair with a staked token"],
            bounds: "reserves, LP supply and prices symbolic; invariance under a trade for any trade size; three risky operations with an LP collateral",
            assumptions: &[],
        },
        Prop {
            id: "C43",
            scen: c43,
            reach: &["refused without a price", "borrow with a current price", "withdraw with a current price", "liquidate with a current price"],
            bounds: "every risky operation x {no oracle, inactive pair, paused feed, missing round, too old, exactly at the age limit}; ages picked around the limit; symbolic amounts",
            assumptions: &[],
        },
        Prop { id: "C44", scen: |_| vec![derived(2), derived(3), derived(4), derived_two_source(false), derived_two_source(true)], reach: &["derived price", "two-source base", "loan against a staked token"], bounds: "three derived tokens; exchange rates and base prices symbolic", assumptions: &[] },
    ]
}
