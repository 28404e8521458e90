//! Encoders and helpers shared by the scenarios (framework encodings, pool set-up).
use crate::engine::*;
use crate::term::*;
use crate::vm::*;
use num_bigint::BigInt;
use num_traits::{Pow, ToPrimitive};

pub fn big(s: &str) -> BigInt {
    s.parse().unwrap()
}
pub fn p10(n: u32) -> BigInt {
    BigInt::from(10u8).pow(n)
}
pub fn ray() -> BigInt {
    p10(27)
}
pub fn wad() -> BigInt {
    p10(18)
}
pub fn kray() -> T {
    k(p10(27))
}
pub fn kwad() -> T {
    k(p10(18))
}
/// x / 10^n as a constant (for hints and literals)
pub fn frac_ray(num: i64, den: i64) -> BigInt {
    p10(27) * num / den
}

// ---------------------------------------------------------------- spec arithmetic
/// round-half-up division by a constant or a term
pub fn div_hu(n: T, d: T) -> T {
    div(add(n, div(d, k(2))), d)
}
/// ray multiplication, half-up
pub fn rmul(a: T, b: T) -> T {
    div_hu(mul(a, b), kray())
}
/// ray division, half-up
pub fn rdiv(a: T, b: T) -> T {
    div_hu(mul(a, kray()), b)
}
/// asset units -> ray
pub fn to_ray(a: T, dec: u32) -> T {
    mul(a, k(p10(27 - dec)))
}
/// ray -> asset units, half-up
pub fn from_ray(a: T, dec: u32) -> T {
    div_hu(a, k(p10(27 - dec)))
}
pub fn abs_diff(a: T, b: T) -> T {
    max(sub(a, b), sub(b, a))
}

// ---------------------------------------------------------------- encoders
pub fn u32b(n: u32) -> Vec<u8> {
    n.to_be_bytes().to_vec()
}
pub fn u64b(n: u64) -> Vec<u8> {
    n.to_be_bytes().to_vec()
}
/// top-encoded unsigned native
pub fn top_u(n: u64) -> Vec<u8> {
    let b = n.to_be_bytes();
    let i = b.iter().position(|x| *x != 0).unwrap_or(8);
    b[i..].to_vec()
}
pub fn top_bool(b: bool) -> Vec<u8> {
    if b {
        vec![1]
    } else {
        vec![]
    }
}
pub fn untop_u(b: &[u8]) -> u64 {
    b.iter().fold(0u64, |a, x| (a << 8) | *x as u64)
}
pub fn nbytes(b: &[u8]) -> Vec<u8> {
    nest(&enc_name(b))
}
pub fn nu(t: T) -> Vec<u8> {
    nest(&enc_u(t))
}
/// ManagedDecimal<NumDecimals>
pub fn dec(t: T, d: u32) -> Vec<u8> {
    let mut v = nu(t);
    v.extend(u32b(d));
    v
}
pub fn cat(parts: &[Vec<u8>]) -> Vec<u8> {
    parts.concat()
}

pub struct Rd<'a>(pub &'a [u8]);
impl<'a> Rd<'a> {
    pub fn u8(&mut self) -> u8 {
        let r = self.0[0];
        self.0 = &self.0[1..];
        r
    }
    pub fn bool(&mut self) -> bool {
        self.u8() != 0
    }
    pub fn u32(&mut self) -> u32 {
        let r = u32::from_be_bytes(self.0[..4].try_into().unwrap());
        self.0 = &self.0[4..];
        r
    }
    pub fn u64(&mut self) -> u64 {
        let r = u64::from_be_bytes(self.0[..8].try_into().unwrap());
        self.0 = &self.0[8..];
        r
    }
    pub fn bytes(&mut self) -> Vec<u8> {
        let n = self.u32() as usize;
        let r = self.0[..n].to_vec();
        self.0 = &self.0[n..];
        dec_name(r)
    }
    pub fn raw(&mut self, n: usize) -> Vec<u8> {
        let r = self.0[..n].to_vec();
        self.0 = &self.0[n..];
        r
    }
    pub fn big(&mut self) -> T {
        let b = self.bytes();
        dec_u(&b)
    }
    pub fn dec(&mut self) -> (T, u32) {
        let t = self.big();
        let d = self.u32();
        (t, d)
    }
    pub fn decv(&mut self) -> T {
        self.dec().0
    }
    pub fn payment(&mut self) -> Pay {
        let token = self.bytes();
        let nonce = self.u64();
        let amount = self.big();
        Pay { token, nonce, amount }
    }
    pub fn done(&self) -> bool {
        self.0.is_empty()
    }
}
/// decimal value; an absent storage entry (a zero in the ephemeral storage) is zero
pub fn undec(b: &[u8]) -> (T, u32) {
    if b.is_empty() {
        return (k(0), 0);
    }
    Rd(b).dec()
}
pub fn payment_arg(token: &str, nonce: u64, amount: T) -> Vec<u8> {
    cat(&[nbytes(token.as_bytes()), u64b(nonce), nu(amount)])
}

// ---------------------------------------------------------------- positions
pub const NONE: u8 = 0;
pub const DEPOSIT: u8 = 1;
pub const BORROW: u8 = 2;

#[derive(Clone, Debug)]
pub struct Pos {
    pub ptype: u8,
    pub asset: Vec<u8>,
    pub scaled: T,
    pub nonce: u64,
    pub threshold: T,
    pub bonus: T,
    pub fees: T,
    pub ltv: T,
}
impl Pos {
    pub fn new(ptype: u8, asset: &str, scaled: T) -> Pos {
        Pos {
            ptype,
            asset: asset.as_bytes().to_vec(),
            scaled,
            nonce: 1,
            threshold: k(8000),
            bonus: k(500),
            fees: k(1000),
            ltv: k(7500),
        }
    }
    pub fn enc(&self) -> Vec<u8> {
        cat(&[
            vec![self.ptype],
            nbytes(&self.asset),
            dec(self.scaled, 27),
            u64b(self.nonce),
            dec(self.threshold, 4),
            dec(self.bonus, 4),
            dec(self.fees, 4),
            dec(self.ltv, 4),
        ])
    }
    pub fn parse(b: &[u8]) -> Pos {
        let mut r = Rd(b);
        let p = Pos {
            ptype: r.u8(),
            asset: r.bytes(),
            scaled: r.decv(),
            nonce: r.u64(),
            threshold: r.decv(),
            bonus: r.decv(),
            fees: r.decv(),
            ltv: r.decv(),
        };
        assert!(r.done(), "position encoding has trailing bytes");
        p
    }
}

// ---------------------------------------------------------------- time
/// Make `delta` milliseconds pass since `last`.  Symbolically the native u64 difference is a
/// recognisable constant mapped to the term `delta` when it enters big-integer arithmetic; in a
/// concrete run the clock simply shows last + delta.
pub const TIME_SENTINEL: u64 = 0x0123_4567_89ab;
pub fn sym_time(last: u64, delta: T) {
    let d = match as_const(delta) {
        Some(c) => c.to_u64().unwrap(),
        None => {
            sentinel(TIME_SENTINEL as i64, delta);
            TIME_SENTINEL
        }
    };
    w(|w| w.now_ms = last + d);
}
pub fn set_time_ms(ms: u64) {
    w(|w| w.now_ms = ms);
}

// ---------------------------------------------------------------- pool
#[derive(Clone)]
pub struct Params {
    pub max: T,
    pub base: T,
    pub s1: T,
    pub s2: T,
    pub s3: T,
    pub mid: T,
    pub opt: T,
    pub rf: T,
    pub dec: u32,
}
pub fn std_params(dec: u32) -> Params {
    Params {
        max: k(frac_ray(1, 1)),
        base: k(frac_ray(1, 100)),
        s1: k(frac_ray(4, 100)),
        s2: k(frac_ray(10, 100)),
        s3: k(frac_ray(300, 100)),
        mid: k(frac_ray(65, 100)),
        opt: k(frac_ray(90, 100)),
        rf: k(2000),
        dec,
    }
}
impl Params {
    pub fn list(&self) -> Vec<T> {
        vec![self.max, self.base, self.s1, self.s2, self.s3, self.mid, self.opt, self.rf]
    }
    pub fn init_args(&self, token: &str) -> Vec<Vec<u8>> {
        let mut v = vec![token.as_bytes().to_vec()];
        v.extend(self.list().iter().map(|t| enc_u(*t)));
        v.push(top_u(self.dec as u64));
        v
    }
    pub fn update_args(&self) -> Vec<Vec<u8>> {
        let mut v: Vec<Vec<u8>> = self.list().iter().map(|t| enc_u(*t)).collect();
        v.push(dec(kwad(), 18));
        v
    }
    pub fn enc(&self, token: &str) -> Vec<u8> {
        let l = self.list();
        let mut v = vec![];
        for t in &l[..7] {
            v.extend(dec(*t, 27));
        }
        v.extend(dec(l[7], 4));
        v.extend(nbytes(token.as_bytes()));
        v.extend(u32b(self.dec));
        v
    }
    pub fn parse(b: &[u8]) -> Params {
        let mut r = Rd(b);
        let mut l = vec![];
        for _ in 0..8 {
            l.push(r.decv());
        }
        let _ = r.bytes();
        let d = r.u32();
        Params { max: l[0], base: l[1], s1: l[2], s2: l[3], s3: l[4], mid: l[5], opt: l[6], rf: l[7], dec: d }
    }
}

pub fn pool_kind() -> Kind {
    Kind::Real(|f| CallableContract::call(&liquidity_layer::contract_obj::<SymApi>(), f), "pool")
}
use multiversx_sc::contract_base::CallableContract;

#[derive(Clone, Debug)]
pub struct PState {
    pub supplied: T,
    pub borrowed: T,
    pub revenue: T,
    pub bidx: T,
    pub sidx: T,
    pub last: u64,
}
#[derive(Clone)]
pub struct Pool {
    pub addr: Addr,
    pub owner: Addr,
    pub token: String,
    pub dec: u32,
}
pub const T0: u64 = 1_700_000_000_000;

impl Pool {
    /// a pool created by running its real constructor
    pub fn deploy(token: &str, p: &Params) -> Pool {
        let owner = user_addr("ctrl");
        let addr = sc_addr(&format!("pool{}", &token[..4.min(token.len())]));
        if !w(|w| w.accts.contains_key(&owner)) {
            add_account(owner, Kind::User, [0; 32], true);
        }
        add_account(addr, pool_kind(), owner, false);
        if w(|w| w.now_ms) == 0 {
            set_time_ms(T0);
        }
        must(&owner, &addr, "init", p.init_args(token), vec![]);
        Pool { addr, owner, token: token.into(), dec: p.dec }
    }
    pub fn state(&self) -> PState {
        pool_state(&self.addr)
    }
    pub fn set(&self, s: &PState) {
        pool_set(&self.addr, s)
    }
    pub fn bal(&self) -> T {
        balance(&self.addr, self.token.as_bytes(), 0)
    }
    pub fn set_bal(&self, t: T) {
        set_balance(&self.addr, self.token.as_bytes(), 0, t)
    }
    pub fn price(&self) -> Vec<u8> {
        dec(kwad(), 18)
    }
    pub fn call(&self, f: &str, args: Vec<Vec<u8>>, pays: Vec<Pay>) -> TxRes {
        tx(&self.owner, &self.addr, f, args, pays)
    }
    pub fn d(&self, t: T) -> Vec<u8> {
        dec(t, self.dec)
    }
    pub fn supply(&self, pos: &Pos, amount: T) -> TxRes {
        self.call("supply", vec![pos.enc(), self.price()], vec![pay(&self.token, amount)])
    }
    pub fn borrow(&self, to: &Addr, amount: T, pos: &Pos) -> TxRes {
        self.call("borrow", vec![to.to_vec(), self.d(amount), pos.enc(), self.price()], vec![])
    }
    pub fn withdraw(&self, to: &Addr, amount: T, pos: &Pos, liq: bool, fee: Option<T>) -> TxRes {
        let f = match fee {
            None => vec![],
            Some(t) => cat(&[vec![1], self.d(t)]),
        };
        self.call(
            "withdraw",
            vec![to.to_vec(), self.d(amount), pos.enc(), top_bool(liq), f, self.price()],
            vec![],
        )
    }
    pub fn repay(&self, to: &Addr, pos: &Pos, amount: T) -> TxRes {
        self.call("repay", vec![to.to_vec(), pos.enc(), self.price()], vec![pay(&self.token, amount)])
    }
    pub fn user_bal(&self, a: &Addr) -> T {
        balance(a, self.token.as_bytes(), 0)
    }
}
pub fn pool_state(a: &Addr) -> PState {
    let g = |n: &str| undec(&storage_get(a, n.as_bytes())).0;
    PState {
        supplied: g("supplied"),
        borrowed: g("borrowed"),
        revenue: g("revenue"),
        bidx: g("borrow_index"),
        sidx: g("supply_index"),
        last: untop_u(&storage_get(a, b"last_timestamp")),
    }
}
pub fn pool_set(a: &Addr, s: &PState) {
    let p = |n: &str, t: T| storage_set(a, n.as_bytes(), dec(t, 27));
    p("supplied", s.supplied);
    p("borrowed", s.borrowed);
    p("revenue", s.revenue);
    p("borrow_index", s.bidx);
    p("supply_index", s.sidx);
    storage_set(a, b"last_timestamp", top_u(s.last));
}
pub fn observe_state(n: &str, s: &PState) {
    observe(&format!("{}.supplied", n), s.supplied);
    observe(&format!("{}.borrowed", n), s.borrowed);
    observe(&format!("{}.revenue", n), s.revenue);
    observe(&format!("{}.bidx", n), s.bidx);
    observe(&format!("{}.sidx", n), s.sidx);
}
