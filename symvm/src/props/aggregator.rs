//! The price aggregator: what becomes a price, who may submit, when, and what is served.
use super::{Cfg, Prop};
use crate::engine::*;
use crate::env::*;
use crate::env_ctrl::*;
use crate::term::*;
use crate::vm::*;
use std::collections::BTreeMap;

const MAXLEN: usize = 50;
const ROUND: u64 = 1800;
const FRESH: u64 = 30;

pub struct Agg {
    pub a: Addr,
    pub owner: Addr,
}
pub fn oracle(i: usize) -> Addr {
    user_addr(&format!("oracle{}", i))
}
fn stranger() -> Addr {
    user_addr("stranger")
}
impl Agg {
    pub fn new(n: usize, threshold: usize) -> Agg {
        let g = Agg { a: sc_addr("aggregator"), owner: user_addr("owner") };
        set_time_ms(T0);
        add_account(g.owner, Kind::User, [0; 32], false);
        add_account(stranger(), Kind::User, [0; 32], false);
        for i in 0..n.max(6) {
            add_account(oracle(i), Kind::User, [0; 32], false);
        }
        add_account(g.a, agg_kind(), g.owner, false);
        let mut args = vec![top_u(threshold as u64)];
        args.extend((0..n).map(|i| oracle(i).to_vec()));
        must(&g.owner, &g.a, "init", args, vec![]);
        g
    }
    fn open(n: usize, threshold: usize) -> Agg {
        let g = Agg::new(n, threshold);
        must(&g.owner, &g.a, "unpause", vec![], vec![]);
        g
    }
    fn call(&self, who: &Addr, f: &str, args: Vec<Vec<u8>>) -> TxRes {
        tx(who, &self.a, f, args, vec![])
    }
    fn submit(&self, who: &Addr, from: &str, ts: u64, price: T) -> TxRes {
        self.call(who, "submit", vec![from.as_bytes().to_vec(), b"USD".to_vec(), top_u(ts), enc_u(price)])
    }
    /// (round, timestamp, price) as served
    fn feed(&self, from: &str) -> Option<(u32, u64, T)> {
        let r = query(&self.a, "latestPriceFeed", vec![from.as_bytes().to_vec(), b"USD".to_vec()]);
        if !r.ok() {
            return None;
        }
        let o = r.out()[0].clone();
        let mut rd = Rd(&o);
        let round = rd.u32();
        checkb("the pair asked for", rd.bytes() == from.as_bytes() && rd.bytes() == b"USD");
        let ts = rd.u64();
        let p = rd.big();
        checkb("a complete feed", rd.done());
        Some((round, ts, p))
    }
    fn oracles(&self) -> Vec<Vec<u8>> {
        query(&self.a, "getOracles", vec![]).out().to_vec()
    }
    fn count(&self) -> u64 {
        untop_u(&query(&self.a, "submission_count", vec![]).out()[0])
    }
}
fn now_s() -> u64 {
    w(|w| w.now_ms) / 1000
}
fn wait(s: u64) {
    set_time_ms(w(|w| w.now_ms) + s * 1000);
}
fn price(n: &str) -> T {
    var(n, 0, p10(30), p10(18))
}
/// the served price is the median: as many submissions on either side, the floored mean of the two
/// middle ones when their number is even
fn check_median(p: T, xs: &[T]) {
    let n = xs.len();
    let rank = |v: T, f: fn(T, T) -> crate::term::B| xs.iter().fold(k(0), |a, x| add(a, ite(f(*x, v), k(1), k(0))));
    if n % 2 == 1 {
        let h = k(n as i64 / 2);
        check("one of the submissions", or(&xs.iter().map(|x| eq(*x, p)).collect::<Vec<_>>()));
        check("no more than half lie below", le(rank(p, lt), h));
        check("no more than half lie above", le(rank(p, gt), h));
    } else {
        // the middle pair: some lo <= hi among the submissions with n/2 - 1 below and above
        let h = k(n as i64 / 2 - 1);
        let mut any = vec![];
        for i in 0..n {
            for j in 0..n {
                if i != j {
                    let (lo, hi) = (xs[i], xs[j]);
                    let others: Vec<T> = (0..n).filter(|q| *q != i && *q != j).map(|q| xs[q]).collect();
                    let below = others.iter().fold(k(0), |a, x| add(a, ite(le(*x, lo), k(1), k(0))));
                    let above = others.iter().fold(k(0), |a, x| add(a, ite(ge(*x, hi), k(1), k(0))));
                    any.push(and(&[le(lo, hi), ge(below, h), ge(above, h), eq(p, div(add(lo, hi), k(2)))]));
                }
            }
        }
        check("the mean of the two middle submissions", or(&any));
    }
    let lo = xs.iter().fold(xs[0], |a, x| min(a, *x));
    let hi = xs.iter().fold(xs[0], |a, x| max(a, *x));
    check("never outside what was submitted", and(&[ge(p, lo), le(p, hi)]));
}

// ------------------------------------------------------------------ C50
/// n oracles of which a threshold have to submit, in any order of prices
fn median(n: usize, threshold: usize) -> Scenario {
    Scenario::new(format!("median of {} of {}", threshold, n), move || {
        let g = Agg::open(n, threshold);
        let xs: Vec<T> = (0..threshold).map(|i| price(&format!("p{}", i))).collect();
        for (i, x) in xs.iter().enumerate() {
            checkb("no price before the quorum", g.feed("EGLD").is_none());
            checkb("an oracle's submission is taken", g.submit(&oracle(i), "EGLD", now_s(), *x).ok());
        }
        let Some((round, ts, p)) = g.feed("EGLD") else {
            checkb("the quorum makes a price", false);
            return;
        };
        checkb("the first round", round == 0);
        checkb("stamped now", ts == now_s());
        check_median(p, &xs);
        reach("median");
        // the next round starts empty, and the old price stands until it completes
        if threshold > 1 {
            wait(10);
            let y = price("next");
            checkb("next round", g.submit(&oracle(0), "EGLD", now_s(), y).ok());
            let (r2, t2, p2) = g.feed("EGLD").unwrap();
            checkb("the round before stands", r2 == 0 && t2 == ts);
            check("at its price", eq(p2, p));
            reach("next round open");
        }
    })
}
/// a history of submissions (any oracle, any delay) against the documented round rules
fn rounds(n: usize, threshold: usize, steps: usize) -> Scenario {
    Scenario::new(format!("{} submissions, {} of {} oracles", steps, threshold, n), move || {
        let g = Agg::open(n, threshold);
        let mut pending: BTreeMap<usize, T> = BTreeMap::new();
        let mut first = 0;
        let mut latest: Option<(u32, u64, T)> = None;
        for i in 0..steps {
            let who = pick(&format!("who{}", i), n as i32);
            if i > 0 {
                wait([0, ROUND, ROUND + 1, ROUND / 2 + 1][pick(&format!("wait{}", i), 4)]);
            }
            let x = price(&format!("p{}", i));
            checkb("an oracle may submit any time", g.submit(&oracle(who), "EGLD", now_s(), x).ok());
            if !pending.is_empty() && now_s() > first + ROUND {
                pending.clear();
                reach("round expired");
            }
            if pending.is_empty() {
                first = now_s();
            }
            if pending.contains_key(&who) {
                reach("second submission ignored");
            } else {
                pending.insert(who, x);
            }
            if pending.len() >= threshold {
                let xs: Vec<T> = pending.values().cloned().collect();
                pending.clear();
                let f = g.feed("EGLD");
                checkb("the quorum makes a price", f.is_some());
                let Some((r, t, p)) = f else { return };
                checkb("rounds are numbered", r == latest.map_or(0, |l| l.0 + 1));
                checkb("stamped now", t == now_s());
                check_median(p, &xs);
                latest = Some((r, t, p));
                reach("round complete");
            } else {
                match (g.feed("EGLD"), latest) {
                    (None, None) => {}
                    (Some((r, t, p)), Some((r0, t0, p0))) => {
                        checkb("the last complete round stands", r == r0 && t == t0);
                        check("at its price", eq(p, p0));
                    }
                    _ => checkb("a price exactly after a complete round", false),
                }
            }
        }
    })
}
/// rounds are numbered one after the other, whatever the number reached
fn numbering() -> Scenario {
    Scenario::new("round numbers", || {
        let g = Agg::open(2, 1);
        let old = [0u32, 1, 2, 7, 255, 65_535, 65_536, 4_000_000_000][pick("round", 8)];
        let p0 = price("old");
        let t0 = now_s() - 1000;
        storage_set(&g.a, &cat(&[b"rounds".to_vec(), nbytes(b"EGLD"), nbytes(b"USD")]), cat(&[nu(p0), u64b(t0), u32b(old)]));
        let f = g.feed("EGLD").unwrap();
        checkb("the stored round is served", f.0 == old && f.1 == t0);
        check("at its price", eq(f.2, p0));
        for i in 1..=3u32 {
            wait(5);
            let x = price(&format!("p{}", i));
            checkb("taken", g.submit(&oracle(i as usize % 2), "EGLD", now_s(), x).ok());
            let f = g.feed("EGLD").unwrap();
            checkb("numbered one higher", f.0 == old + i);
            checkb("stamped now", f.1 == now_s());
            check("at the new price", eq(f.2, x));
        }
        reach("rounds numbered");
    })
}
/// pairs do not mix, in one batch or across calls
fn pairs() -> Scenario {
    Scenario::new("separate pairs", || {
        let g = Agg::open(2, 2);
        let (x, y, z) = (price("x"), price("y"), price("z"));
        let ts = now_s();
        let entry = |t: &str, p: T| vec![t.as_bytes().to_vec(), b"USD".to_vec(), top_u(ts), enc_u(p)];
        let mut args = entry("EGLD", x);
        args.extend(entry("BTC", y));
        checkb("a batch", g.call(&oracle(0), "submitBatch", args, ).ok());
        checkb("another oracle on one pair", g.submit(&oracle(1), "EGLD", ts, z).ok());
        let f = g.feed("EGLD");
        checkb("complete", f.is_some());
        if let Some((_, _, p)) = f {
            check("from this pair's submissions", eq(p, div(add(x, z), k(2))));
        }
        checkb("the other pair waits", g.feed("BTC").is_none());
        checkb("and completes by itself", g.submit(&oracle(1), "BTC", ts, z).ok());
        if let Some((r, _, p)) = g.feed("BTC") {
            checkb("numbered by itself", r == 0);
            check("from its own submissions", eq(p, div(add(y, z), k(2))));
            reach("pairs separate");
        }
        checkb("the reverse pair has no price", !query(&g.a, "latestPriceFeed", vec![b"USD".to_vec(), b"EGLD".to_vec()]).ok());
        // several at once: those that exist, in order
        let arg = |t: &str| cat(&[nbytes(t.as_bytes()), nbytes(b"USD")]);
        let r = query(&g.a, "latestRoundData", vec![arg("BTC"), arg("ETH"), arg("EGLD")]);
        checkb("existing pairs are served together", r.ok() && r.out().len() == 2);
        if r.ok() && r.out().len() == 2 {
            for (o, (t, want)) in r.out().iter().zip([("BTC", div(add(y, z), k(2))), ("EGLD", div(add(x, z), k(2)))]) {
                let mut rd = Rd(o);
                rd.u32();
                checkb("in the order asked", rd.bytes() == t.as_bytes());
                rd.bytes();
                rd.u64();
                check("same price", eq(rd.big(), want));
            }
        }
    })
}
/// a submission's own timestamp: not from the future, at most 30 seconds old
fn freshness(batch: bool) -> Scenario {
    Scenario::new(if batch { "freshness in a batch" } else { "freshness" }, move || {
        let g = Agg::open(1, 1);
        let age = [-100_000i64, -1, 0, 1, FRESH as i64, FRESH as i64 + 1, 1800, 1_000_000][pick("age", 8)];
        let ts = (now_s() as i64 - age) as u64;
        let x = price("x");
        let r = if batch {
            let mut args = vec![b"BTC".to_vec(), b"USD".to_vec(), top_u(now_s()), enc_u(x)];
            args.extend([b"EGLD".to_vec(), b"USD".to_vec(), top_u(ts), enc_u(x)]);
            g.call(&oracle(0), "submitBatch", args)
        } else {
            g.submit(&oracle(0), "EGLD", ts, x)
        };
        let fresh = (0..=FRESH as i64).contains(&age);
        checkb("accepted exactly while fresh", r.ok() == fresh);
        checkb("only fresh submissions become prices", g.feed("EGLD").is_some() == fresh);
        if batch {
            checkb("a batch is taken as a whole", g.feed("BTC").is_some() == fresh);
        }
        reach(if fresh { "fresh" } else { "stale or future" });
    })
}
/// many submissions in a scattered order, all but a few of them of given sizes
fn many(n: usize, free: &'static [usize]) -> Scenario {
    Scenario::new(format!("median of {}, {} of them any price", n, free.len()), move || {
        let g = Agg::open(n, n);
        let xs: Vec<T> = (0..n)
            .map(|i| if free.contains(&i) { price(&format!("p{}", i)) } else { k(p10(15) * (900 + ((i * 37 + 11) % 101) as i64)) })
            .collect();
        for (i, x) in xs.iter().enumerate() {
            checkb("no price before the quorum", g.feed("EGLD").is_none());
            checkb("an oracle's submission is taken", g.submit(&oracle(n - 1 - i), "EGLD", now_s(), *x).ok());
        }
        let Some((round, ts, p)) = g.feed("EGLD") else {
            checkb("the quorum makes a price", false);
            return;
        };
        checkb("the first round, stamped now", round == 0 && ts == now_s());
        check_median(p, &xs);
        reach("median of many");
    })
}
/// a batch of several pairs, one of them twice, over rounds far along
fn batches() -> Scenario {
    Scenario::new("batch of several pairs", || {
        let g = Agg::open(2, 1);
        let names = ["EGLD", "BTC", "ETH", "USDC"];
        let olds = [0u32, 254, 255, 65_535, 4_000_000_000];
        let at = pick("round", 5);
        let p0 = price("old");
        let t0 = now_s() - 5000;
        let key = |t: &str| cat(&[b"rounds".to_vec(), nbytes(t.as_bytes()), nbytes(b"USD")]);
        for (i, t) in names.iter().enumerate() {
            if i != 2 {
                storage_set(&g.a, &key(t), cat(&[nu(p0), u64b(t0), u32b(olds[(at + i) % 5])]));
            }
        }
        let xs: Vec<T> = (0..5).map(|i| price(&format!("p{}", i))).collect();
        let order = [0usize, 1, 0, 2, 3];
        let mut args = vec![];
        for (j, i) in order.iter().enumerate() {
            args.extend([names[*i].as_bytes().to_vec(), b"USD".to_vec(), top_u(now_s() - j as u64), enc_u(xs[j])]);
        }
        checkb("a batch", g.call(&oracle(1), "submitBatch", args).ok());
        for (i, t) in names.iter().enumerate() {
            // a quorum of one: each entry makes its own round, the last one stands
            let n = order.iter().filter(|q| **q == i).count() as u32;
            let last = order.iter().rposition(|q| *q == i).unwrap();
            let Some((r, ts, p)) = g.feed(t) else {
                checkb("each pair of the batch has a price", false);
                return;
            };
            checkb("rounds are numbered", r == if i == 2 { n - 1 } else { olds[(at + i) % 5] + n });
            checkb("stamped now", ts == now_s());
            check("at the price submitted", eq(p, xs[last]));
        }
        reach("batch taken");
    })
}
/// the quorum changes, or oracles join, while a round is open
fn requorum() -> Scenario {
    Scenario::new("quorum changed within a round", || {
        let g = Agg::open(4, 3);
        let before = 1 + pick("before", 2);
        let xs: Vec<T> = (0..5).map(|i| price(&format!("p{}", i))).collect();
        for i in 0..before {
            checkb("taken", g.submit(&oracle(i), "EGLD", now_s(), xs[i]).ok());
        }
        let c = 1 + pick("count", 4);
        checkb("set", g.call(&g.owner, "setSubmissionCount", vec![top_u(c as u64)]).ok());
        checkb("a new quorum by itself makes no price", g.feed("EGLD").is_none());
        if flag("joins", false) {
            must(&g.owner, &g.a, "addOracles", vec![oracle(5).to_vec()], vec![]);
        }
        checkb("a second submission by the same oracle", g.submit(&oracle(0), "EGLD", now_s(), xs[4]).ok());
        checkb("makes no price", g.feed("EGLD").is_none());
        for i in before..4 {
            wait(7);
            checkb("taken", g.submit(&oracle(i), "EGLD", now_s(), xs[i]).ok());
            let have = i + 1;
            if have < c {
                checkb("no price before the quorum", g.feed("EGLD").is_none());
                continue;
            }
            let Some((r, t, p)) = g.feed("EGLD") else {
                checkb("the quorum makes a price", false);
                return;
            };
            checkb("the first round, stamped now", r == 0 && t == now_s());
            check_median(p, &xs[..have]);
            reach("quorum changed");
            return;
        }
    })
}
// ------------------------------------------------------------------ C51
/// several oracles at a time
fn bulk_roster() -> Scenario {
    Scenario::new("several oracles added and removed at once", || {
        let g = Agg::open(6, 2);
        for i in 6..9 {
            add_account(oracle(i), Kind::User, [0; 32], false);
        }
        let mut args: Vec<Vec<u8>> = [6, 0, 7, 6].iter().map(|i| oracle(*i).to_vec()).collect();
        if flag("adds nothing", false) {
            args.clear();
        }
        let mut set: Vec<usize> = (0..6).collect();
        if !args.is_empty() {
            set.extend([6, 7]);
        }
        checkb("adding works", g.call(&g.owner, "addOracles", args).ok());
        let lists: [&[usize]; 6] = [&[], &[5], &[0, 1], &[7, 2, 8, 2, 4], &[1, 2, 3, 4, 5], &[0, 1, 2, 3, 4, 5, 6, 7]];
        let out = lists[pick("removed", 6)];
        let left: Vec<usize> = set.iter().cloned().filter(|q| !out.contains(q)).collect();
        let c = [0, 1, 3, 4, 6, 7][pick("count", 6)];
        let mut args = vec![top_u(c as u64)];
        args.extend(out.iter().map(|i| oracle(*i).to_vec()));
        let ok = c >= 1 && c <= left.len();
        let r = g.call(&g.owner, "removeOracles", args);
        checkb("removing needs a quorum that can still be met", r.ok() == ok);
        let set = if ok { left } else { set };
        let mut have = g.oracles();
        have.sort();
        let mut want: Vec<Vec<u8>> = set.iter().map(|q| oracle(*q).to_vec()).collect();
        want.sort();
        checkb("the oracles are those added and not removed", have == want);
        checkb("the quorum is the one set", g.count() == if ok { c as u64 } else { 2 });
        for who in 0..9 {
            let t = format!("T{}", who);
            let r = g.submit(&oracle(who), &t, now_s(), price(&format!("p{}", who)));
            checkb("exactly the oracles may submit", r.ok() == set.contains(&who));
            let mut args = vec![];
            for j in 0..2 {
                args.extend([format!("B{}{}", who, j).into_bytes(), b"USD".to_vec(), top_u(now_s()), enc_u(k(1))]);
            }
            checkb("exactly the oracles may submit batches", g.call(&oracle(who), "submitBatch", args).ok() == set.contains(&who));
        }
        reach(if ok { "several removed" } else { "removal refused" });
    })
}
fn strangers() -> Scenario {
    Scenario::new("only oracles, only while running", || {
        let g = Agg::new(2, 1);
        let x = price("x");
        checkb("a new aggregator is paused", !g.submit(&oracle(0), "EGLD", now_s(), x).ok());
        checkb("and serves nothing", g.feed("EGLD").is_none());
        must(&g.owner, &g.a, "unpause", vec![], vec![]);
        for who in [stranger(), g.owner, oracle(2), g.a] {
            checkb("only oracles submit", !g.submit(&who, "EGLD", now_s(), x).ok());
            let args = vec![b"EGLD".to_vec(), b"USD".to_vec(), top_u(now_s()), enc_u(x)];
            checkb("also in batches", !g.call(&who, "submitBatch", args).ok());
        }
        checkb("nothing was recorded", g.feed("EGLD").is_none());
        checkb("an oracle submits", g.submit(&oracle(0), "EGLD", now_s(), x).ok());
        check("at its price", g.feed("EGLD").map_or(fls(), |f| eq(f.2, x)));
        let y = price("y");
        match pick("stop", 2) {
            0 => checkb("paused", g.call(&g.owner, "pause", vec![]).ok()),
            _ => checkb("upgraded", tx(&g.owner, &g.a, "upgrade", vec![], vec![]).ok()),
        }
        checkb("no submissions while paused", !g.submit(&oracle(0), "EGLD", now_s(), y).ok());
        let args = vec![b"EGLD".to_vec(), b"USD".to_vec(), top_u(now_s()), enc_u(y)];
        checkb("no batches while paused", !g.call(&oracle(0), "submitBatch", args).ok());
        checkb("no prices while paused", g.feed("EGLD").is_none());
        let arg = cat(&[nbytes(b"EGLD"), nbytes(b"USD")]);
        checkb("no round data while paused", !query(&g.a, "latestRoundData", vec![arg]).ok());
        must(&g.owner, &g.a, "unpause", vec![], vec![]);
        check("the price is kept over a pause", g.feed("EGLD").map_or(fls(), |f| eq(f.2, x)));
        reach("strangers refused");
    })
}
/// adding and removing oracles and changing the quorum
fn roster(steps: usize) -> Scenario {
    Scenario::new(format!("oracle administration, {} steps", steps), move || {
        let g = Agg::open(3, 2);
        let mut set: Vec<usize> = vec![0, 1, 2];
        let mut count = 2usize;
        let valid = |c: usize, n: usize| c >= 1 && c <= n && c <= MAXLEN;
        for i in 0..steps {
            let who = pick(&format!("who{}", i), 4);
            let c = pick(&format!("count{}", i), 5);
            match pick(&format!("op{}", i), 3) {
                0 => {
                    checkb("adding works", g.call(&g.owner, "addOracles", vec![oracle(who).to_vec()]).ok());
                    if !set.contains(&who) {
                        set.push(who);
                    }
                }
                1 => {
                    let left: Vec<usize> = set.iter().cloned().filter(|q| *q != who).collect();
                    let ok = valid(c, left.len());
                    let r = g.call(&g.owner, "removeOracles", vec![top_u(c as u64), oracle(who).to_vec()]);
                    checkb("removing needs a quorum that can still be met", r.ok() == ok);
                    if ok {
                        set = left;
                        count = c;
                    }
                }
                _ => {
                    let ok = valid(c, set.len());
                    let r = g.call(&g.owner, "setSubmissionCount", vec![top_u(c as u64)]);
                    checkb("the quorum can be met", r.ok() == ok);
                    if ok {
                        count = c;
                    }
                }
            }
            let mut have = g.oracles();
            have.sort();
            let mut want: Vec<Vec<u8>> = set.iter().map(|q| oracle(*q).to_vec()).collect();
            want.sort();
            checkb("the oracles are those added and not removed", have == want);
            checkb("the quorum is the one set", g.count() == count as u64);
        }
        for who in 0..4 {
            let r = g.submit(&oracle(who), "EGLD", now_s(), price(&format!("p{}", who)));
            checkb("exactly the oracles may submit", r.ok() == set.contains(&who));
        }
        reach("roster");
    })
}
/// the largest roster: quorums beyond the list length are refused
fn crowd() -> Scenario {
    Scenario::new("more oracles than a round can hold", || {
        let n = MAXLEN + 3;
        let g = Agg::open(n, MAXLEN);
        let c = MAXLEN - 1 + pick("count", 4);
        let r = g.call(&g.owner, "setSubmissionCount", vec![top_u(c as u64)]);
        checkb("at most fifty submissions a round", r.ok() == (c <= MAXLEN));
        let q = g.count() as usize;
        let x = price("x");
        for i in 0..q {
            checkb("taken", g.submit(&oracle(i), "EGLD", now_s(), add(x, k(i as i64 % 7))).ok());
        }
        let f = g.feed("EGLD");
        checkb("complete", f.is_some());
        if let Some((_, _, p)) = f {
            check("the median", and(&[ge(p, add(x, k(3))), le(p, add(x, k(3)))]));
            reach("crowd");
        }
    })
}
fn constructor() -> Scenario {
    Scenario::new("construction", || {
        let owner = user_addr("owner");
        let a = sc_addr("aggregator");
        set_time_ms(T0);
        add_account(owner, Kind::User, [0; 32], false);
        add_account(a, agg_kind(), owner, false);
        let n = pick("oracles", 4);
        let c = pick("count", 5);
        let dup = flag("dup", false);
        let mut args = vec![top_u(c as u64)];
        args.extend((0..n).map(|i| oracle(i).to_vec()));
        if dup && n > 0 {
            args.push(oracle(0).to_vec());
        }
        let r = tx(&owner, &a, "init", args, vec![]);
        checkb("a quorum its oracles can meet", r.ok() == (c >= 1 && c <= n));
        reach(if r.ok() { "constructed" } else { "construction refused" });
    })
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C50",
            scen: |c: &Cfg| {
                let mut v = vec![median(1, 1), median(2, 2), median(3, 3), median(4, 4), median(5, 3), pairs(), freshness(false), freshness(true), numbering(), rounds(2, 2, if c.thorough { 5 } else { 4 }), rounds(3, 2, if c.thorough { 4 } else { 3 })];
                v.push(median(5, 5));
                v.push(rounds(3, 3, 4));
                v.extend([many(6, &[0, 3]), many(8, &[5]), many(9, &[2, 6]), many(14, &[13]), batches(), requorum()]);
                if c.thorough {
                    v.push(median(6, 6));
                    v.extend([many(10, &[1, 4, 7]), many(30, &[11, 12]), many(49, &[3]), many(50, &[48])]);
                    v.push(rounds(3, 3, 5));
                }
                v
            },
            reach: &["median", "next round open", "round expired", "second submission ignored", "round complete", "pairs separate", "rounds numbered", "median of many", "batch taken", "quorum changed", "fresh", "stale or future"],
            bounds: "one to five (thorough: six) oracles submitting prices 0..1e30 in any order of size; histories of up to four (thorough: five) submissions by any of two or three oracles with delays of 0, 901, 1800 and 1801 seconds; six to fourteen (thorough: fifty) submissions of which one or two (thorough: three) are of any price; the quorum changed within a round; two pairs, and batches of five entries over four pairs at round numbers up to 4e9; submission ages at and around the limits; round numbers over two completed rounds",
            assumptions: &[],
        },
        Prop {
            id: "C51",
            scen: |c: &Cfg| vec![strangers(), roster(if c.thorough { 3 } else { 2 }), bulk_roster(), crowd(), constructor()],
            reach: &["strangers refused", "roster", "several removed", "removal refused", "crowd", "constructed", "construction refused"],
            bounds: "two (thorough: three) administrative steps from three oracles and quorum two, over four candidates and quorums 0..4; up to eight removed at once, with repeats and unknown addresses; 53 oracles with quorums 49..52; any price",
            assumptions: &[],
        },
    ]
}
