//! Who may do what: account NFTs, pausing, reentrancy, administration, flash loans.
use super::ctrl::*;
use super::ctrl::{A, B, C};
use super::{Cfg, Prop};
use crate::engine::*;
use crate::env::*;
use crate::env_ctrl::*;
use crate::term::*;
use crate::vm::*;
use std::cell::RefCell;
use std::rc::Rc;

const N: u64 = 5; // alice
const BAD: u64 = 7; // carol, under water
const BOB: u64 = 6;
pub fn cents(n: i64) -> T {
    k(p10(16) * n)
}
pub fn tokens(n: i64) -> T {
    k(p10(27) * n)
}
/// a router that pays out whatever the steps say: token, amount (repeated)
pub fn router_mock() -> Kind {
    Kind::Mock(Rc::new(|c: &Call| {
        if c.func == "xo" {
            for s in c.args.chunks(2) {
                transfer(&c.me, &c.caller, &pay(std::str::from_utf8(&s[0]).unwrap(), dec_u(&s[1])));
            }
        }
        vec![]
    }))
}
pub fn steps(outs: &[(&str, T)]) -> Vec<u8> {
    cat(&outs.iter().map(|(t, x)| cat(&[nbytes(t.as_bytes()), nest(&enc_u(*x))])).collect::<Vec<_>>())
}
pub fn leveraged() -> Attrs {
    Attrs { mode: 2, ..normal() }
}
pub fn bob() -> Addr {
    user_addr("bob")
}
pub fn bot() -> Addr {
    sc_addr("bot")
}
/// three markets, three accounts, a swap router, a flash borrower
pub fn world_mkts() -> Vec<Mkt> {
    vec![
        lin_mkt(A, 18, cents(250), 1300, 1100),
        lin_mkt(B, 6, cents(99), 1203, 1050),
        lin_mkt(C, 18, cents(4010), 1007, 1001),
    ]
}
pub fn world() -> Proto {
    let p = Proto::new(world_mkts());
    for m in &p.mkts {
        set_balance(&p.c, m.tok.as_bytes(), 0, k(0));
    }
    add_account(p.router, router_mock(), p.owner, true);
    p.add_user(bob());
    p.add_user(user_addr("carol"));
    let dep = |t: &str, s: T| deposit(t, s);
    p.account(&p.user, N, &leveraged(), &[dep(A, tokens(1000)), dep(C, tokens(10)), debt(B, tokens(100))]);
    p.account(&bob(), BOB, &leveraged(), &[dep(A, tokens(900)), debt(B, tokens(50))]);
    p.account(&user_addr("carol"), BAD, &leveraged(), &[dep(A, tokens(1)), debt(B, tokens(1000))]);
    p
}
const OPS: &[&str] = &[
    "supply", "withdraw", "borrow", "repay", "liquidate", "flashLoan", "updateAccountThreshold", "updateIndexes", "cleanBadDebt",
    "multiply", "swapDebt", "swapCollateral", "repayDebtWithCollateral", "claimRevenue",
];
/// operations that take value out of an account or put debt on it
const OWNER_OPS: &[&str] = &["withdraw", "borrow", "multiply", "swapDebt", "swapCollateral", "repayDebtWithCollateral"];

fn b_of(t: &str) -> Vec<u8> {
    t.as_bytes().to_vec()
}
/// arguments and token payments (beside the account NFT) of an operation
fn shape(op: &str, nonce: u64, x: T) -> (Vec<Vec<u8>>, Vec<Pay>) {
    let y = k(p10(18) * 3);
    match op {
        "supply" => (vec![top_u(nonce)], vec![pay(A, x)]),
        "withdraw" => (vec![payment_arg(A, 0, x)], vec![]),
        "borrow" => (vec![payment_arg(B, 0, x)], vec![]),
        "repay" | "liquidate" => (vec![top_u(nonce)], vec![pay(B, x)]),
        "flashLoan" => (vec![b_of(B), enc_u(x), bot().to_vec(), b"go".to_vec(), vec![]], vec![]),
        "updateAccountThreshold" => (vec![b_of(A), top_bool(false), top_u(nonce)], vec![]),
        "updateIndexes" | "claimRevenue" => (vec![b_of(A), b_of(B)], vec![]),
        "cleanBadDebt" => (vec![top_u(nonce)], vec![]),
        "multiply" => (vec![vec![], b_of(C), enc_u(x), b_of(B), vec![2], steps(&[(C, y)])], vec![]),
        "swapDebt" => (vec![b_of(B), enc_u(x), b_of(C), steps(&[(B, k(p10(6) * 20))])], vec![]),
        "swapCollateral" => (vec![b_of(A), enc_u(x), b_of(C), steps(&[(C, y)])], vec![]),
        "repayDebtWithCollateral" => (vec![b_of(A), enc_u(x), b_of(B), top_bool(false), steps(&[(B, k(p10(6) * 20))])], vec![]),
        _ => unreachable!(),
    }
}
pub fn run(p: &Proto, op: &str, from: &Addr, nonce: u64, nft: Vec<Pay>, x: T) -> TxRes {
    let (args, pays) = shape(op, nonce, x);
    let mut v = nft;
    v.extend(pays);
    p.call(from, op, args, v)
}
pub fn hint_of(op: &str) -> T {
    match op {
        "borrow" | "repay" | "liquidate" | "flashLoan" | "multiply" => k(p10(6) * 2),
        "swapDebt" => k(p10(17)),
        _ => k(p10(18) * 2),
    }
}
pub fn op_amount(op: &str) -> T {
    var("x", 0, p10(30), to_big(hint_of(op)))
}
fn to_big(t: T) -> num_bigint::BigInt {
    as_const(t).unwrap()
}
pub fn add_bot(p: &Proto, extra: T, seen: Rc<RefCell<Vec<(Vec<Vec<u8>>, Vec<u8>, T)>>>) {
    let c = p.c;
    add_account(
        bot(),
        Kind::Mock(Rc::new(move |k_: &Call| {
            let got = k_.pays.iter().fold(k(0), |a, q| add(a, q.amount));
            seen.borrow_mut().push((k_.args.to_vec(), storage_get(&c, b"flash_loan_ongoing"), got));
            for q in k_.pays {
                transfer(&k_.me, &k_.caller, &pay(std::str::from_utf8(&q.token).unwrap(), add(q.amount, extra)));
            }
            vec![]
        })),
        user_addr("evil"),
        true,
    );
}
pub fn target(op: &str) -> (u64, Addr) {
    match op {
        "liquidate" | "cleanBadDebt" => (BAD, bob()),
        _ => (N, user_addr("alice")),
    }
}
pub fn nft_for(op: &str) -> Vec<Pay> {
    if OWNER_OPS.contains(&op) {
        vec![pay_nft(ACC, N)]
    } else {
        vec![]
    }
}

// ------------------------------------------------------------------ C32
#[derive(Clone, Copy, PartialEq)]
enum Block {
    None,
    Paused,
    Upgraded,
    FlashOngoing,
}
fn blocked(op: &'static str, b: Block) -> Scenario {
    let how = match b {
        Block::None => "normal operation",
        Block::Paused => "paused",
        Block::Upgraded => "after an upgrade",
        Block::FlashOngoing => "during a flash loan",
    };
    Scenario::new(format!("{} {}", op, how), move || {
        let p = world();
        add_bot(&p, k(p10(6) * 100), Default::default());
        let x = op_amount(op);
        let (n, who) = target(op);
        match b {
            Block::None => {}
            Block::Paused => {
                checkb("only the owner pauses", !p.call(&p.user, "pause", vec![], vec![]).ok());
                checkb("the owner pauses", p.call(&p.owner, "pause", vec![], vec![]).ok());
                checkb("only the owner resumes", !p.call(&p.user, "unpause", vec![], vec![]).ok());
            }
            Block::Upgraded => checkb("upgrade runs", tx(&p.owner, &p.c, "upgrade", vec![], vec![]).ok()),
            Block::FlashOngoing => storage_set(&p.c, b"flash_loan_ongoing", vec![1]),
        }
        let r = run(&p, op, &who, n, nft_for(op), x);
        match b {
            Block::None => {
                if r.ok() {
                    reach(&format!("{} works", op));
                }
            }
            _ => {
                checkb("refused", !r.ok());
                if b == Block::Paused {
                    must(&p.owner, &p.c, "unpause", vec![], vec![]);
                    if run(&p, op, &who, n, nft_for(op), x).ok() {
                        reach("works again after unpausing");
                    }
                }
                reach(match b {
                    Block::Paused => "paused",
                    Block::Upgraded => "upgraded",
                    _ => "flash loan ongoing",
                });
            }
        }
    })
}
/// the borrower of a flash loan tries to use the protocol from within
fn reenter(op: &'static str) -> Scenario {
    Scenario::new(format!("a flash borrower calls {}", op), move || {
        let p = world();
        let x = op_amount(op);
        let loan = var("loan", 0, p10(20), p10(7));
        let (n, _) = target(op);
        let (c, nft) = (p.c, nft_for(op));
        // the borrower holds the account it wants to use
        for q in &nft {
            set_balance(&p.user, &q.token, q.nonce, k(0));
        }
        let called = Rc::new(RefCell::new(0));
        let seen = called.clone();
        let nft2 = nft.clone();
        add_account(
            bot(),
            Kind::Mock(Rc::new(move |k_: &Call| {
                *seen.borrow_mut() += 1;
                let (args, mut pays) = shape(op, n, x);
                let mut v = nft2.clone();
                v.append(&mut pays);
                call(&k_.me, &c, v, op, args, false);
                for q in k_.pays {
                    transfer(&k_.me, &k_.caller, &pay(std::str::from_utf8(&q.token).unwrap(), add(q.amount, k(p10(18)))));
                }
                vec![]
            })),
            user_addr("evil"),
            true,
        );
        for q in &nft {
            set_balance(&bot(), &q.token, q.nonce, k(1));
        }
        let r = p.call(&bob(), "flashLoan", vec![b_of(B), enc_u(loan), bot().to_vec(), b"go".to_vec(), vec![]], vec![]);
        checkb("a call from inside a flash loan is refused", !r.ok());
        checkb("no loan stays marked as running", storage_get(&p.c, b"flash_loan_ongoing").is_empty());
        if *called.borrow() > 0 {
            reach("reentered");
        }
    })
}

// ------------------------------------------------------------------ C31
fn snapshot(p: &Proto, n: u64) -> (Vec<Pos>, Vec<Pos>, Option<Attrs>) {
    (p.positions(n, DEPOSIT), p.positions(n, BORROW), p.attrs(n))
}
fn untouched(p: &Proto, n: u64, s: &(Vec<Pos>, Vec<Pos>, Option<Attrs>)) {
    same_except("deposits of the account untouched", &s.0, &p.positions(n, DEPOSIT), &[]);
    same_except("debts of the account untouched", &s.1, &p.positions(n, BORROW), &[]);
    checkb("the account stays open", p.active(n) && p.attrs(n) == s.2);
}
const FAKE: &str = "FAKE-abcdef";
/// operations without the account's NFT
fn without_nft(op: &'static str) -> Scenario {
    Scenario::new(format!("{} without the account's NFT", op), move || {
        let p = world();
        let x = op_amount(op);
        let b = bob();
        // a look-alike collection with the victim's attributes, and an account that is closed
        set_balance(&b, FAKE.as_bytes(), N, k(1));
        set_balance(&b, ACC.as_bytes(), 9, k(1));
        w(|w| {
            w.nft_attr.insert((FAKE.as_bytes().to_vec(), N), leveraged().enc());
            w.nft_attr.insert((ACC.as_bytes().to_vec(), 9), leveraged().enc());
        });
        let s = snapshot(&p, N);
        let what = pick("presented", 6);
        let pays = match what {
            0 => vec![],
            1 => vec![pay_nft(FAKE, N)],
            2 => vec![pay_nft(ACC, 9)],
            3 => vec![pay(A, k(p10(18)))],
            4 => vec![pay(A, k(p10(18))), pay_nft(ACC, BOB)],
            _ => vec![pay_nft(ACC, BOB)],
        };
        let r = run(&p, op, &b, N, pays, x);
        untouched(&p, N, &s);
        checkb("alice keeps her account NFT", p.holds(&p.user, N));
        if what < 5 {
            if op == "multiply" && r.ok() {
                checkb("a position without an account opens a new one", p.holds(&b, N + 5) || p.holds(&b, 10) || p.holds(&b, 8));
            } else {
                checkb("refused without the account's NFT", !r.ok());
            }
            reach("refused");
        } else if r.ok() {
            checkb("the holder keeps the NFT", p.holds(&b, BOB));
            reach("the holder operates");
        }
    })
}
/// an NFT whose attributes are not the recorded ones
fn forged(op: &'static str) -> Scenario {
    Scenario::new(format!("{} with other attributes", op), move || {
        let p = world();
        let x = op_amount(op);
        let other = match pick("attrs", 3) {
            0 => Attrs { emode: 1, ..leveraged() },
            1 => Attrs { isolated: true, token: Some(A.into()), ..leveraged() },
            _ => Attrs { mode: 1, ..leveraged() },
        };
        w(|w| {
            w.nft_attr.insert((ACC.as_bytes().to_vec(), N), other.enc());
        });
        let s = snapshot(&p, N);
        let r = run(&p, op, &p.user, N, vec![pay_nft(ACC, N)], x);
        checkb("refused", !r.ok());
        untouched(&p, N, &s);
        reach("forged attributes");
    })
}
/// what strangers can do to a healthy account: only improve it
fn strangers(op: &'static str) -> Scenario {
    Scenario::new(format!("a stranger calls {}", op), move || {
        let p = world();
        add_bot(&p, k(p10(6) * 100), Default::default());
        let x = op_amount(op);
        let s = snapshot(&p, N);
        let (a0, b0) = (p.state(A), p.state(B));
        let r = run(&p, op, &bob(), N, vec![], x);
        for q in &s.0 {
            let now = p.pos(N, DEPOSIT, std::str::from_utf8(&q.asset).unwrap());
            checkb("every deposit is still there", now.is_some());
            check("no deposit shrinks", ge(now.map_or(k(0), |z| z.scaled), q.scaled));
        }
        let now = p.positions(N, BORROW);
        for q in &now {
            let was = s.1.iter().find(|z| z.asset == q.asset).map_or(k(0), |z| z.scaled);
            check("no debt grows", le(q.scaled, was));
        }
        for (t, z) in [(A, &a0), (B, &b0)] {
            check("no supply index falls", ge(p.state(t).sidx, z.sidx));
        }
        checkb("alice keeps her account", p.active(N) && p.attrs(N) == s.2 && p.holds(&p.user, N));
        if r.ok() {
            reach("a stranger's call went through");
        } else {
            reach("a stranger's call was refused");
        }
    })
}
/// nothing enters an account that does not exist (never opened, or closed)
fn no_such_account() -> Scenario {
    Scenario::new("operations naming an account that does not exist", move || {
        let p = world();
        let x = var("x", 1, p10(30), p10(7));
        let n: u64 = if flag("closed", true) { 9 } else { 400 };
        let b = bob();
        // the NFT of a closed account may still be around
        set_balance(&b, ACC.as_bytes(), n, k(1));
        w(|w| {
            w.nft_attr.insert((b_of(ACC), n), leveraged().enc());
        });
        let what = pick("operation", 7);
        let r = match what {
            0 => p.call(&b, "supply", vec![top_u(n)], vec![pay(A, x)]),
            1 => p.call(&b, "supply", vec![], vec![pay_nft(ACC, n), pay(A, x)]),
            2 => p.call(&b, "repay", vec![top_u(n)], vec![pay(B, x)]),
            3 => p.call(&b, "liquidate", vec![top_u(n)], vec![pay(B, x)]),
            4 => p.call(&b, "cleanBadDebt", vec![top_u(n)], vec![]),
            5 => p.call(&b, "multiply", vec![vec![], b_of(C), enc_u(x), b_of(B), vec![2], steps(&[(C, k(p10(18) * 3))])], vec![pay_nft(ACC, n), pay(C, k(p10(18)))]),
            _ => p.call(&b, "updateAccountThreshold", vec![b_of(A), top_bool(false), top_u(n)], vec![]),
        };
        checkb("refused", !r.ok());
        checkb("nothing is recorded for it", p.positions(n, DEPOSIT).is_empty() && p.positions(n, BORROW).is_empty() && p.attrs(n).is_none() && !p.active(n));
        reach("no such account");
    })
}
/// NFT life cycle: fresh number, recorded attributes, burnt exactly when empty
fn lifecycle() -> Scenario {
    Scenario::new("opening and closing an account", move || {
        let p = world();
        let x = var("x", 0, p10(30), p10(20));
        let em = flag("second account", false);
        let c0 = storage_get(&p.c, b"account_nonce");
        if !p.supply(0, None, vec![(A, x)]).ok() {
            checkb("nothing opened", storage_get(&p.c, b"account_nonce") == c0);
            reach("not opened");
            return;
        }
        let n = untop_u(&storage_get(&p.c, b"account_nonce"));
        checkb("a fresh number", n == 8 && p.active(n) && p.holds(&p.user, n));
        checkb("recorded attributes are the NFT's", p.attrs(n).map(|a| a.enc()) == w(|w| w.nft_attr.get(&(b_of(ACC), n)).cloned()));
        checkb("earlier accounts are unaffected", p.active(N) && p.active(BOB) && p.active(BAD));
        if em {
            if p.supply(0, None, vec![(C, x)]).ok() {
                checkb("another fresh number", p.active(9) && p.holds(&p.user, 9) && p.active(8));
                reach("second account");
            }
        }
        let y = var("y", 0, p10(30), p10(20));
        if p.withdraw(n, vec![(A, y)]).ok() {
            let left = p.positions(n, DEPOSIT);
            if left.is_empty() {
                checkb("an empty account is closed", !p.active(n) && p.attrs(n).is_none());
                check("its NFT is burnt", and(&[eq(balance(&p.user, ACC.as_bytes(), n), k(0)), eq(balance(&p.c, ACC.as_bytes(), n), k(0))]));
                checkb("and cannot be used", !p.supply(n, None, vec![(A, x)]).ok());
                reach("closed");
            } else {
                checkb("an account in use stays open", p.active(n) && p.holds(&p.user, n) && p.attrs(n).is_some());
                reach("still open");
            }
        }
    })
}

// ------------------------------------------------------------------ C33
pub fn flash(d: u32) -> Scenario {
    Scenario::new(format!("controller flash loan dec={}", d), move || {
        let mut m = sym_mkt(B, d);
        m.cfg.flash = flag("flashloanable", true);
        let fee_bps = var("feeBps", 0, 10000, 50);
        m.cfg.flash_fee = fee_bps;
        let on = m.cfg.flash;
        let p = Proto::new(vec![lin_mkt(A, 18, cents(250), 1300, 1100), m]);
        p.add_user(bob());
        let x = var("x", 0, p10(36), p10(d) * 50);
        let extra = var("extra", 0, p10(36), p10(d) * 2);
        let seen = Rc::new(RefCell::new(vec![]));
        add_bot(&p, extra, seen.clone());
        let (s0, c0) = (p.state(B), p.cash(B));
        let func: &[u8] = match pick("endpoint", 3) {
            0 => b"go",
            1 => b"",
            _ => b"ESDTTransfer",
        };
        let far = func == b"go" && flag("borrower in another shard", false);
        if far {
            w(|w| w.shard.insert(bot(), 1));
        } else if func == b"go" && flag("caller in another shard", false) {
            w(|w| w.shard.insert(bob(), 1));
        }
        let r = p.call(&bob(), "flashLoan", vec![b_of(B), enc_u(x), bot().to_vec(), func.to_vec(), nest(b"one")], vec![]);
        checkb("no loan is left running", storage_get(&p.c, b"flash_loan_ongoing").is_empty());
        if r.ok() {
            checkb("only flash-loanable assets", on);
            checkb("only to a contract of the same shard", !far);
            checkb("only an ordinary endpoint of the borrower", func == b"go");
            check("a positive amount", gt(x, k(0)));
            check("not more than the cash", le(x, c0));
            let fee = sub(div_hu(mul(x, add(k(10000), fee_bps)), k(10000)), x);
            check("the loan comes back with the fee", ge(p.cash(B), add(c0, fee)));
            check("the pool keeps what is paid", eq(p.cash(B), add(c0, extra)));
            let v = seen.borrow();
            checkb("the borrower is called once", v.len() == 1);
            checkb("told its arguments and who asked", v[0].0 == vec![b"one".to_vec(), bob().to_vec()]);
            checkb("with the protocol locked", v[0].1 == vec![1]);
            check("and receives the amount", eq(v[0].2, x));
            let s1 = p.state(B);
            check("nobody's debt or deposit changes", and(&[eq(s1.borrowed, s0.borrowed), eq(s1.bidx, s0.bidx), eq(s1.sidx, s0.sidx)]));
            check("the payment is revenue", eq(sub(s1.revenue, s0.revenue), sub(s1.supplied, s0.supplied)));
            check("the whole payment", eq(sub(s1.revenue, s0.revenue), rdiv(to_ray(extra, d), s0.sidx)));
            observe("rev", s1.revenue);
            reach("flash loan");
        } else {
            check("cash unchanged", eq(p.cash(B), c0));
            reach("flash loan refused");
        }
    })
}

/// revenue claimed from within a flash loan is claimed once
fn flash_claim() -> Scenario {
    Scenario::new("revenue is claimed during a flash loan", move || {
        let mut m = lin_mkt(B, 6, cents(99), 1203, 1050);
        m.cash = var("cash", 0, p10(36), p10(10));
        m.st.revenue = var("R", 0, p10(36), p10(26));
        let p = Proto::new(vec![lin_mkt(A, 18, cents(250), 1300, 1100), m.clone()]);
        p.add_user(bob());
        let (x, extra) = (var("x", 0, p10(36), p10(7)), var("extra", 0, p10(36), p10(6)));
        let c = p.c;
        set_balance(&p.accum, B.as_bytes(), 0, k(0));
        add_account(
            bot(),
            Kind::Mock(Rc::new(move |k_: &Call| {
                call(&k_.me, &c, vec![], "claimRevenue", vec![b_of(B)], false);
                for q in k_.pays {
                    transfer(&k_.me, &k_.caller, &pay(B, add(q.amount, extra)));
                }
                vec![]
            })),
            user_addr("evil"),
            true,
        );
        let r = p.call(&bob(), "flashLoan", vec![b_of(B), enc_u(x), bot().to_vec(), b"go".to_vec(), vec![]], vec![]);
        if r.ok() {
            let got = p.bal(&p.accum, B);
            let s1 = p.state(B);
            check("what left the pool is what was claimed", eq(p.cash(B), sub(add(m.cash, extra), got)));
            check("claims are worth no more than the revenue", le(got, from_ray(rmul(m.st.revenue, m.st.sidx), 6)));
            let burnt = sub(add(m.st.revenue, rdiv(to_ray(extra, 6), m.st.sidx)), s1.revenue);
            check("claimed revenue is gone", ge(rmul(burnt, m.st.sidx), sub(to_ray(got, 6), k(p10(21)))));
            check("total supply follows", eq(sub(s1.supplied, s1.revenue), sub(m.st.supplied, m.st.revenue)));
            reach("claimed inside a flash loan");
        }
    })
}
pub fn props() -> Vec<Prop> {
    fn c32(cfg: &Cfg) -> Vec<Scenario> {
        let mut v = vec![];
        for op in OPS.iter().copied().filter(|o| *o != "claimRevenue") {
            v.push(blocked(op, Block::None));
            v.push(blocked(op, Block::Paused));
            v.push(blocked(op, Block::FlashOngoing));
            v.push(reenter(op));
            if cfg.thorough || op == "supply" || op == "borrow" {
                v.push(blocked(op, Block::Upgraded));
            }
        }
        v
    }
    vec![
        Prop {
            id: "C31",
            scen: |_| {
                let mut v = vec![lifecycle(), no_such_account()];
                for op in OWNER_OPS.iter().copied() {
                    v.push(without_nft(op));
                    v.push(forged(op));
                }
                for op in OPS.iter().copied().filter(|o| !OWNER_OPS.contains(o)) {
                    v.push(strangers(op));
                }
                v
            },
            reach: &["refused", "the holder operates", "forged attributes", "a stranger's call went through", "a stranger's call was refused", "closed", "still open", "no such account"],
            bounds: "every operation naming an account that was closed or never existed; every owner operation with a foreign, missing, forged or closed account NFT; every permissionless operation on a stranger's account; symbolic amounts",
            assumptions: &[],
        },
        Prop {
            id: "C32",
            scen: c32,
            reach: &[
                "supply works", "withdraw works", "borrow works", "repay works", "liquidate works", "flashLoan works",
                "updateAccountThreshold works", "updateIndexes works", "cleanBadDebt works", "multiply works", "swapDebt works",
                "swapCollateral works", "repayDebtWithCollateral works", "paused", "upgraded", "flash loan ongoing", "reentered",
                "works again after unpausing",
            ],
            bounds: "every user operation while paused, upgraded or inside a flash loan, called directly and re-entered from the flash-loan borrower and from the swap router; symbolic amounts",
            assumptions: &[],
        },
        Prop { id: "C33", scen: |_| vec![flash(18), flash(6), flash_claim()], reach: &["claimed inside a flash loan", "flash loan", "flash loan refused"], bounds: "one loan; amount, fee rate, repayment, cash and indexes symbolic; flags and function names picked; a borrower that claims revenue inside the loan", assumptions: &[] },
    ]
}
