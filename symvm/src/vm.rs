//! Symbolic MultiversX VM: implements the framework's host API over symbolic integers, so the
//! real contract code (compiled from /repo) runs unmodified on symbolic inputs.
use crate::engine::*;
use crate::term::*;
use multiversx_sc::api::*;
use multiversx_sc::types::heap::{Address, BoxedBytes, H256};
use multiversx_sc::types::{EsdtLocalRoleFlags, LockableStaticBuffer};
use num_bigint::{BigInt, Sign as NSign};
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub type Addr = [u8; 32];
pub const EGLD: &[u8] = b"EGLD-000000";

#[derive(Clone, Debug)]
pub struct Pay {
    pub token: Vec<u8>,
    pub nonce: u64,
    pub amount: T,
}
thread_local! {
    static NATIVE: std::cell::Cell<&'static str> = const { std::cell::Cell::new("") };
}
/// from here to the end of the path, the token of this name stands for the chain's native coin
pub fn set_native(t: &'static str) {
    NATIVE.with(|n| n.set(t));
}
/// the name a scenario uses, as the contracts encode it
pub fn enc_name(b: &[u8]) -> Vec<u8> {
    let n = NATIVE.with(|n| n.get());
    if !n.is_empty() && b == n.as_bytes() {
        b"EGLD".to_vec()
    } else {
        b.to_vec()
    }
}
/// the name the ledger knows a token by
pub fn ledger_name(b: &[u8]) -> Vec<u8> {
    let n = NATIVE.with(|n| n.get());
    if b == b"EGLD" || (!n.is_empty() && b == n.as_bytes()) {
        EGLD.to_vec()
    } else {
        b.to_vec()
    }
}
/// and back to the scenario's name
pub fn dec_name(b: Vec<u8>) -> Vec<u8> {
    let n = NATIVE.with(|n| n.get());
    if !n.is_empty() && (b == b"EGLD" || b == EGLD) {
        n.as_bytes().to_vec()
    } else {
        b
    }
}
pub fn pay(token: &str, amount: T) -> Pay {
    Pay { token: ledger_name(token.as_bytes()), nonce: 0, amount }
}
pub fn pay_nft(token: &str, nonce: u64) -> Pay {
    Pay { token: token.as_bytes().to_vec(), nonce, amount: k(1) }
}

pub struct Call<'a> {
    pub caller: Addr,
    pub me: Addr,
    pub func: &'a str,
    pub args: &'a [Vec<u8>],
    pub pays: &'a [Pay],
}
pub type MockFn = Rc<dyn Fn(&Call) -> Vec<Vec<u8>>>;

#[derive(Clone)]
pub enum Kind {
    User,
    Real(fn(&str) -> bool, &'static str),
    Mock(MockFn),
}

#[derive(Clone)]
pub struct Account {
    pub storage: BTreeMap<Vec<u8>, Vec<u8>>,
    pub bal: BTreeMap<(Vec<u8>, u64), T>,
    pub last_nonce: BTreeMap<Vec<u8>, u64>,
    pub kind: Kind,
    pub owner: Addr,
    pub unlimited: bool,
}

#[derive(Clone, Default)]
pub struct World {
    pub accts: BTreeMap<Addr, Account>,
    pub nft_attr: BTreeMap<(Vec<u8>, u64), Vec<u8>>,
    pub now_ms: u64,
    pub epoch: u64,
    pub round: u64,
    pub log: Vec<(Addr, Addr, Pay)>,
    pub events: Vec<(Addr, Vec<Vec<u8>>, Vec<u8>)>,
    pub deploys: u64,
    pub deploy_map: BTreeMap<Addr, Kind>,
    pub supply_delta: BTreeMap<(Vec<u8>, u64), T>,
    /// accounts outside shard 0
    pub shard: BTreeMap<Addr, u32>,
}

pub struct Ctx {
    pub me: Addr,
    pub caller: Addr,
    pub pays: Vec<Pay>,
    pub args: Vec<Vec<u8>>,
    pub results: Vec<Vec<u8>>,
    pub back: Vec<Pay>,
    pub readonly: bool,
    bi: HashMap<i32, T>,
    mb: HashMap<i32, Vec<u8>>,
    mm: HashMap<i32, BTreeMap<Vec<u8>, Vec<u8>>>,
    stored: std::collections::HashSet<i32>,
    next_pos: i32,
    next_neg: i32,
    static_buf: Option<Box<LockableStaticBuffer>>,
    ext_view: i32,
    num_args: i32,
    flags: StaticVarApiFlags,
    sf: [bool; 64],
}

thread_local! {
    pub static W: RefCell<World> = RefCell::new(World::default());
    static STACK: RefCell<Vec<Ctx>> = const { RefCell::new(Vec::new()) };
    pub static SENTINELS: RefCell<HashMap<i64, T>> = RefCell::new(HashMap::new());
}

/// sees every transaction: called before it, the closure it returns is called when it went through
pub type Watch = Rc<dyn Fn(&Addr, &Addr, &str, &[Pay]) -> Box<dyn FnOnce()>>;
thread_local! {
    static WATCH: RefCell<Option<Watch>> = const { RefCell::new(None) };
    static QUERYING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn set_watch(w: Option<Watch>) {
    WATCH.with(|x| *x.borrow_mut() = w);
}

pub fn reset_world() {
    set_native("");
    set_watch(None);
    reset_aspect();
    QUERYING.with(|q| q.set(false));
    clear_world();
}
/// forget every account, keeping how the scenario is run
pub fn clear_world() {
    W.with(|w| *w.borrow_mut() = World::default());
    STACK.with(|s| s.borrow_mut().clear());
    SENTINELS.with(|s| s.borrow_mut().clear());
}
pub fn w<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|w| f(&mut w.borrow_mut()))
}
fn cx<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    STACK.with(|s| f(s.borrow_mut().last_mut().expect("no active call")))
}
pub fn sentinel(v: i64, t: T) {
    SENTINELS.with(|s| s.borrow_mut().insert(v, t));
}

pub fn user_addr(n: &str) -> Addr {
    let mut a = [0x5fu8; 32];
    a[0] = 1;
    a[8..8 + n.len()].copy_from_slice(n.as_bytes());
    a
}
pub fn sc_addr(n: &str) -> Addr {
    let mut a = [0x5fu8; 32];
    for x in a.iter_mut().take(8) {
        *x = 0;
    }
    a[8..8 + n.len()].copy_from_slice(n.as_bytes());
    a
}
pub fn add_account(a: Addr, kind: Kind, owner: Addr, unlimited: bool) {
    w(|w| {
        w.accts.insert(
            a,
            Account {
                storage: BTreeMap::new(),
                bal: BTreeMap::new(),
                last_nonce: BTreeMap::new(),
                kind,
                owner,
                unlimited,
            },
        );
    });
}
pub fn balance(a: &Addr, token: &[u8], nonce: u64) -> T {
    w(|w| w.accts.get(a).and_then(|x| x.bal.get(&(ledger_name(token), nonce)).cloned())).unwrap_or_else(|| k(0))
}
pub fn set_balance(a: &Addr, token: &[u8], nonce: u64, t: T) {
    w(|w| {
        w.accts.get_mut(a).expect("account").bal.insert((ledger_name(token), nonce), t);
    })
}
pub fn storage_get(a: &Addr, key: &[u8]) -> Vec<u8> {
    w(|w| w.accts.get(a).and_then(|x| x.storage.get(key).cloned())).unwrap_or_default()
}
pub fn storage_set(a: &Addr, key: &[u8], v: Vec<u8>) {
    w(|w| {
        let s = &mut w.accts.get_mut(a).expect("account").storage;
        if v.is_empty() {
            s.remove(key);
        } else {
            s.insert(key.to_vec(), v);
        }
    })
}

// ------------------------------------------------------------------ symbolic value tokens
const MAGIC: [u8; 8] = [0xf7, 0x53, 0x59, 0x4d, 0xa9, 0x54, 0x4b, 0xe3];
pub const TOKEN_LEN: usize = 16;
fn token(t: T) -> Vec<u8> {
    let mut v = MAGIC.to_vec();
    v.extend(t.0.to_be_bytes());
    v.extend((t.0 ^ 0x5a5a_c3c3).to_be_bytes());
    v
}
pub fn parse_token(b: &[u8]) -> Option<T> {
    if b.len() != TOKEN_LEN || b[..8] != MAGIC {
        return None;
    }
    let id = u32::from_be_bytes(b[8..12].try_into().unwrap());
    let ck = u32::from_be_bytes(b[12..16].try_into().unwrap());
    if ck == id ^ 0x5a5a_c3c3 {
        Some(T(id))
    } else {
        None
    }
}
fn has_token(b: &[u8]) -> bool {
    b.len() >= 8 && b.windows(8).any(|w| w == MAGIC)
}
pub fn enc_u(t: T) -> Vec<u8> {
    match as_const(t) {
        Some(c) => {
            if c.is_zero() {
                vec![]
            } else {
                assert!(c.is_positive(), "negative value encoded as BigUint");
                c.to_bytes_be().1
            }
        }
        None => token(t),
    }
}
pub fn dec_u(b: &[u8]) -> T {
    if let Some(t) = parse_token(b) {
        return t;
    }
    if has_token(b) {
        unsupported("partial symbolic bytes decoded as BigUint");
    }
    k(BigInt::from_bytes_be(NSign::Plus, b))
}
pub fn enc_s(t: T) -> Vec<u8> {
    match as_const(t) {
        Some(c) => {
            if c.is_zero() {
                vec![]
            } else {
                c.to_signed_bytes_be()
            }
        }
        None => token(t),
    }
}
pub fn dec_s(b: &[u8]) -> T {
    if let Some(t) = parse_token(b) {
        return t;
    }
    if has_token(b) {
        unsupported("partial symbolic bytes decoded as BigInt");
    }
    k(BigInt::from_signed_bytes_be(b))
}
/// nested (length-prefixed) encoding
pub fn nest(b: &[u8]) -> Vec<u8> {
    let mut v = (b.len() as u32).to_be_bytes().to_vec();
    v.extend(b);
    v
}

// ------------------------------------------------------------------ calls
pub fn revert(m: impl AsRef<[u8]>) -> ! {
    exit(Exit::Revert(m.as_ref().to_vec()))
}

pub fn transfer(from: &Addr, to: &Addr, p: &Pay) {
    // amount terms are non-negative by construction of BigUint
    let unl_from = w(|w| w.accts.get(from).map_or(false, |a| a.unlimited));
    if !unl_from {
        let b = balance(from, &p.token, p.nonce);
        if !fork(ge(b, p.amount)) {
            revert("insufficient funds");
        }
        set_balance(from, &p.token, p.nonce, sub(b, p.amount));
    }
    if !w(|w| w.accts.contains_key(to)) {
        add_account(*to, Kind::User, [0; 32], false);
    }
    let unl_to = w(|w| w.accts.get(to).map_or(false, |a| a.unlimited));
    if !unl_to || p.nonce != 0 {
        let b = balance(to, &p.token, p.nonce);
        set_balance(to, &p.token, p.nonce, add(b, p.amount));
    }
    if unl_from && p.nonce != 0 {
        let b = balance(from, &p.token, p.nonce);
        if !fork(ge(b, p.amount)) {
            revert("insufficient funds");
        }
        set_balance(from, &p.token, p.nonce, sub(b, p.amount));
    }
    let p = Pay { token: ledger_name(&p.token), ..p.clone() };
    w(|w| w.log.push((*from, *to, p)));
}

fn new_ctx(me: Addr, caller: Addr, pays: Vec<Pay>, args: Vec<Vec<u8>>, readonly: bool) -> Ctx {
    Ctx {
        me,
        caller,
        pays,
        args,
        results: vec![],
        back: vec![],
        readonly,
        bi: HashMap::new(),
        mb: HashMap::new(),
        mm: HashMap::new(),
        stored: Default::default(),
        next_pos: 0,
        next_neg: const_handles::NEW_HANDLE_START_FROM,
        static_buf: Some(Box::new(LockableStaticBuffer::new())),
        ext_view: 0,
        num_args: 0,
        flags: StaticVarApiFlags::NONE,
        sf: [false; 64],
    }
}

/// run `f` inside a call context of contract `me` (used to drive library code directly)
pub fn in_context<R>(me: Addr, f: impl FnOnce() -> R) -> R {
    let c = new_ctx(me, me, vec![], vec![], false);
    STACK.with(|s| s.borrow_mut().push(c));
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            STACK.with(|s| {
                s.borrow_mut().pop();
            })
        }
    }
    let _g = G;
    f()
}

/// transfers + execution, inside the current transaction
pub fn call(from: &Addr, to: &Addr, pays: Vec<Pay>, func: &str, args: Vec<Vec<u8>>, readonly: bool) -> Vec<Vec<u8>> {
    let mut pays = pays;
    for p in &mut pays {
        p.token = ledger_name(&p.token);
        transfer(from, to, p);
    }
    let kind = w(|w| w.accts.get(to).map(|a| a.kind.clone())).unwrap_or(Kind::User);
    if func.is_empty() {
        return vec![];
    }
    match kind {
        Kind::User => vec![],
        Kind::Mock(m) => {
            let args: Vec<Vec<u8>> = args.into_iter().map(dec_name).collect();
            for p in &mut pays {
                p.token = dec_name(std::mem::take(&mut p.token));
            }
            let c = Call { caller: *from, me: *to, func, args: &args, pays: &pays };
            m(&c).into_iter().map(|v| enc_name(&v)).collect()
        }
        Kind::Real(entry, cname) => {
            function_seen(&format!("{}::{}", cname, func));
            let depth = STACK.with(|s| s.borrow().len());
            if depth > 24 {
                revert("call depth");
            }
            let c = new_ctx(*to, *from, pays, args, readonly);
            STACK.with(|s| s.borrow_mut().push(c));
            let ok = entry(func);
            let c = STACK.with(|s| s.borrow_mut().pop()).unwrap();
            if !ok {
                revert(format!("invalid function (not found): {}", func));
            }
            c.results
        }
    }
}

#[derive(Clone, Debug)]
pub enum TxRes {
    Ok(Vec<Vec<u8>>),
    Err(String),
}
impl TxRes {
    pub fn ok(&self) -> bool {
        matches!(self, TxRes::Ok(_))
    }
    pub fn err(&self) -> String {
        match self {
            TxRes::Err(e) => e.clone(),
            _ => String::new(),
        }
    }
    pub fn out(&self) -> &Vec<Vec<u8>> {
        match self {
            TxRes::Ok(v) => v,
            TxRes::Err(e) => broken_call("a call that must succeed", e),
        }
    }
}

/// A top-level transaction: all effects are undone if it reverts.
pub fn tx(from: &Addr, to: &Addr, func: &str, args: Vec<Vec<u8>>, pays: Vec<Pay>) -> TxRes {
    let watch = if QUERYING.with(|q| q.get()) { None } else { WATCH.with(|x| x.borrow().clone()) };
    let after = watch.map(|f| f(from, to, func, &pays));
    w(|w| w.events.clear());
    let snap = w(|w| w.clone());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        call(from, to, pays, func, args.into_iter().map(|a| enc_name(&a)).collect(), false)
    }));
    match r {
        Ok(v) => {
            let v = v.into_iter().map(dec_name).collect();
            outcome(format!("ok: {}", func));
            if let Some(f) = after {
                f();
            }
            TxRes::Ok(v)
        }
        Err(e) => {
            let msg = match e.downcast::<Exit>() {
                Ok(e) => match *e {
                    Exit::Revert(m) => String::from_utf8_lossy(&m).to_string(),
                    other => {
                        STACK.with(|s| s.borrow_mut().clear());
                        std::panic::resume_unwind(Box::new(other))
                    }
                },
                Err(e) => format!("panic: {}", panic_msg(&e)),
            };
            STACK.with(|s| s.borrow_mut().clear());
            w(|w| *w = snap);
            outcome(format!("revert: {}: {}", func, msg));
            TxRes::Err(msg)
        }
    }
}
/// a call that succeeds on every input of the unchanged code did not: that is a finding
fn broken_call(name: &str, e: &str) -> ! {
    note(format!("reverted: {}", e));
    fail(name);
    exit(Exit::PathEnd)
}
/// a setup transaction must succeed (on every path)
pub fn must(from: &Addr, to: &Addr, func: &str, args: Vec<Vec<u8>>, pays: Vec<Pay>) -> Vec<Vec<u8>> {
    match tx(from, to, func, args, pays) {
        TxRes::Ok(v) => v,
        TxRes::Err(e) => broken_call(&format!("{} succeeds", func), &e),
    }
}
/// read-only query
pub fn query(to: &Addr, func: &str, args: Vec<Vec<u8>>) -> TxRes {
    let snap = w(|w| w.clone());
    let from = user_addr("query");
    let was = QUERYING.with(|q| q.replace(true));
    let r = tx(&from, to, func, args, vec![]);
    QUERYING.with(|q| q.set(was));
    w(|w| *w = snap);
    r
}

// ------------------------------------------------------------------ API
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct SymApi;

impl HandleTypeInfo for SymApi {
    type ManagedBufferHandle = i32;
    type BigIntHandle = i32;
    type BigFloatHandle = i32;
    type EllipticCurveHandle = i32;
    type ManagedMapHandle = i32;
}
impl VMApi for SymApi {}
impl CallTypeApi for SymApi {}
impl StorageMapperApi for SymApi {}

macro_rules! accessor {
    ($tr:ident, $assoc:ident, $f:ident) => {
        impl $tr for SymApi {
            type $assoc = SymApi;
            fn $f() -> SymApi {
                SymApi
            }
        }
    };
}
accessor!(ManagedTypeApi, ManagedTypeApiImpl, managed_type_impl);
accessor!(BlockchainApi, BlockchainApiImpl, blockchain_api_impl);
accessor!(CallValueApi, CallValueApiImpl, call_value_api_impl);
accessor!(CryptoApi, CryptoApiImpl, crypto_api_impl);
accessor!(EndpointArgumentApi, EndpointArgumentApiImpl, argument_api_impl);
accessor!(EndpointFinishApi, EndpointFinishApiImpl, finish_api_impl);
accessor!(ErrorApi, ErrorApiImpl, error_api_impl);
accessor!(LogApi, LogApiImpl, log_api_impl);
accessor!(SendApi, SendApiImpl, send_api_impl);
accessor!(StorageReadApi, StorageReadApiImpl, storage_read_api_impl);
accessor!(StorageWriteApi, StorageWriteApiImpl, storage_write_api_impl);
accessor!(StaticVarApi, StaticVarApiImpl, static_var_api_impl);
accessor!(PrintApi, PrintApiImpl, print_api_impl);

impl PrintApiImpl for SymApi {
    type Buffer = multiversx_sc::formatter::FormatBufferIgnore;
}

fn bi(h: i32) -> T {
    match cx(|c| c.bi.get(&h).cloned()) {
        Some(t) => t,
        None => {
            if h == const_handles::BIG_INT_CONST_ZERO {
                return k(0);
            }
            revert(format!("no bigInt under the given handle {}", h))
        }
    }
}
fn set_bi(h: i32, t: T) {
    cx(|c| {
        c.bi.insert(h, t);
    })
}
fn mb(h: i32) -> Vec<u8> {
    match cx(|c| c.mb.get(&h).cloned()) {
        Some(t) => t,
        None => {
            if h == const_handles::MBUF_CONST_EMPTY {
                return vec![];
            }
            if h == const_handles::MBUF_EGLD_000000 {
                return EGLD.to_vec();
            }
            revert(format!("no managed buffer under the given handle {}", h))
        }
    }
}
fn set_mb(h: i32, v: Vec<u8>) {
    cx(|c| {
        c.stored.remove(&h);
        c.mb.insert(h, v);
    })
}
fn new_pos() -> i32 {
    cx(|c| {
        c.next_pos += 1;
        c.next_pos
    })
}
fn from_i64(v: i64) -> T {
    if let Some(t) = SENTINELS.with(|s| s.borrow().get(&v).cloned()) {
        return t;
    }
    k(v)
}

impl BigIntApiImpl for SymApi {
    fn bi_new(&self, value: i64) -> i32 {
        let h = new_pos();
        set_bi(h, from_i64(value));
        h
    }
    fn bi_set_int64(&self, d: i32, value: i64) {
        set_bi(d, from_i64(value))
    }
    fn bi_to_i64(&self, h: i32) -> Option<i64> {
        match as_const(bi(h)) {
            Some(c) => c.to_i64(),
            None => unsupported("symbolic value converted to a machine integer"),
        }
    }
    fn bi_add(&self, d: i32, x: i32, y: i32) {
        set_bi(d, add(bi(x), bi(y)))
    }
    fn bi_sub(&self, d: i32, x: i32, y: i32) {
        set_bi(d, sub(bi(x), bi(y)))
    }
    fn bi_sub_unsigned(&self, d: i32, x: i32, y: i32) {
        let (a, b) = (bi(x), bi(y));
        if !fork(ge(a, b)) {
            revert("cannot subtract because result would be negative");
        }
        set_bi(d, sub(a, b))
    }
    fn bi_mul(&self, d: i32, x: i32, y: i32) {
        set_bi(d, mul(bi(x), bi(y)))
    }
    fn bi_t_div(&self, d: i32, x: i32, y: i32) {
        let (n, m) = (bi(x), bi(y));
        set_bi(d, tdiv(n, m))
    }
    fn bi_t_mod(&self, d: i32, x: i32, y: i32) {
        let (n, m) = (bi(x), bi(y));
        let q = tdiv(n, m);
        set_bi(d, sub(n, mul(q, m)))
    }
    fn bi_abs(&self, d: i32, x: i32) {
        let a = bi(x);
        if fork(ge(a, k(0))) {
            set_bi(d, a)
        } else {
            set_bi(d, neg(a))
        }
    }
    fn bi_neg(&self, d: i32, x: i32) {
        set_bi(d, neg(bi(x)))
    }
    fn bi_sign(&self, x: i32) -> Sign {
        let a = bi(x);
        match decide(&[lt(a, k(0)), eq(a, k(0)), gt(a, k(0))]) {
            0 => Sign::Minus,
            1 => Sign::NoSign,
            _ => Sign::Plus,
        }
    }
    fn bi_cmp(&self, x: i32, y: i32) -> Ordering {
        let (a, b) = (bi(x), bi(y));
        match decide(&[lt(a, b), eq(a, b), gt(a, b)]) {
            0 => Ordering::Less,
            1 => Ordering::Equal,
            _ => Ordering::Greater,
        }
    }
    fn bi_cmp_rel(&self, x: i32, y: i32, rel: u8) -> bool {
        let (a, b) = (bi(x), bi(y));
        match rel {
            0 => fork(lt(a, b)),
            1 => fork(le(a, b)),
            2 => fork(eq(a, b)),
            3 => fork(ge(a, b)),
            _ => fork(gt(a, b)),
        }
    }
    fn bi_sqrt(&self, d: i32, x: i32) {
        let a = bi(x);
        if !fork(ge(a, k(0))) {
            revert("bad bounds (lower)");
        }
        set_bi(d, with(|ar| ar.sqrt(a)))
    }
    fn bi_pow(&self, d: i32, x: i32, y: i32) {
        let e = match as_const(bi(y)).and_then(|c| c.to_u32()) {
            Some(e) => e,
            None => unsupported("symbolic exponent"),
        };
        let b = bi(x);
        let mut r = k(1);
        for _ in 0..e {
            r = mul(r, b);
        }
        set_bi(d, r)
    }
    fn bi_log2(&self, _x: i32) -> i32 {
        unsupported("bi_log2")
    }
    fn bi_and(&self, _d: i32, _x: i32, _y: i32) {
        unsupported("bi_and")
    }
    fn bi_or(&self, _d: i32, _x: i32, _y: i32) {
        unsupported("bi_or")
    }
    fn bi_xor(&self, _d: i32, _x: i32, _y: i32) {
        unsupported("bi_xor")
    }
    fn bi_shr(&self, d: i32, x: i32, bits: usize) {
        let p = k(BigInt::one() << bits);
        set_bi(d, tdiv(bi(x), p))
    }
    fn bi_shl(&self, d: i32, x: i32, bits: usize) {
        let p = k(BigInt::one() << bits);
        set_bi(d, mul(bi(x), p))
    }
    fn bi_to_string(&self, b: i32, s: i32) {
        match as_const(bi(b)) {
            Some(c) => set_mb(s, c.to_string().into_bytes()),
            None => set_mb(s, b"<symbolic>".to_vec()),
        }
    }
}

/// truncated division with the VM's division-by-zero failure
fn tdiv(n: T, d: T) -> T {
    if fork(eq(d, k(0))) {
        revert("division by 0");
    }
    let nneg = !fork(ge(n, k(0)));
    let dneg = !fork(ge(d, k(0)));
    let a = if nneg { neg(n) } else { n };
    let b = if dneg { neg(d) } else { d };
    let q = div(a, b);
    if nneg != dneg {
        neg(q)
    } else {
        q
    }
}

impl BigFloatApiImpl for SymApi {
    fn bf_from_parts(&self, _: i32, _: i32, _: i32) -> i32 { unsupported("big float") }
    fn bf_from_frac(&self, _: i64, _: i64) -> i32 { unsupported("big float") }
    fn bf_from_sci(&self, _: i64, _: i64) -> i32 { unsupported("big float") }
    fn bf_add(&self, _: i32, _: i32, _: i32) { unsupported("big float") }
    fn bf_sub(&self, _: i32, _: i32, _: i32) { unsupported("big float") }
    fn bf_mul(&self, _: i32, _: i32, _: i32) { unsupported("big float") }
    fn bf_div(&self, _: i32, _: i32, _: i32) { unsupported("big float") }
    fn bf_abs(&self, _: i32, _: i32) { unsupported("big float") }
    fn bf_neg(&self, _: i32, _: i32) { unsupported("big float") }
    fn bf_cmp(&self, _: i32, _: i32) -> Ordering { unsupported("big float") }
    fn bf_sign(&self, _: i32) -> Sign { unsupported("big float") }
    fn bf_clone(&self, _: i32, _: i32) { unsupported("big float") }
    fn bf_sqrt(&self, _: i32, _: i32) { unsupported("big float") }
    fn bf_pow(&self, _: i32, _: i32, _: i32) { unsupported("big float") }
    fn bf_floor(&self, _: i32, _: i32) { unsupported("big float") }
    fn bf_ceil(&self, _: i32, _: i32) { unsupported("big float") }
    fn bf_trunc(&self, _: i32, _: i32) { unsupported("big float") }
    fn bf_is_bi(&self, _: i32) -> bool { unsupported("big float") }
    fn bf_set_i64(&self, _: i32, _: i64) { unsupported("big float") }
    fn bf_set_bi(&self, _: i32, _: i32) { unsupported("big float") }
    fn bf_get_const_pi(&self, _: i32) { unsupported("big float") }
    fn bf_get_const_e(&self, _: i32) { unsupported("big float") }
}

impl EllipticCurveApiImpl for SymApi {
    fn ec_create_from_name_bytes(&self, _: &[u8]) -> i32 { unsupported("ec") }
    fn ec_create_from_name_mb(&self, _: i32) -> i32 { unsupported("ec") }
    fn ec_get_values(&self, _: i32, _: i32, _: i32, _: i32, _: i32, _: i32) { unsupported("ec") }
    fn ec_curve_length(&self, _: i32) -> u32 { unsupported("ec") }
    fn ec_private_key_byte_length(&self, _: i32) -> u32 { unsupported("ec") }
    fn ec_add(&self, _: i32, _: i32, _: i32, _: i32, _: i32, _: i32, _: i32) { unsupported("ec") }
    fn ec_double(&self, _: i32, _: i32, _: i32, _: i32, _: i32) { unsupported("ec") }
    fn ec_is_on_curve(&self, _: i32, _: i32, _: i32) -> bool { unsupported("ec") }
    fn ec_scalar_mult_legacy(&self, _: i32, _: i32, _: i32, _: i32, _: i32, _: &[u8]) { unsupported("ec") }
    fn ec_scalar_mult(&self, _: i32, _: i32, _: i32, _: i32, _: i32, _: i32) { unsupported("ec") }
    fn ec_scalar_base_mult_legacy(&self, _: i32, _: i32, _: i32, _: &[u8]) { unsupported("ec") }
    fn ec_scalar_base_mult(&self, _: i32, _: i32, _: i32, _: i32) { unsupported("ec") }
    fn ec_marshal_legacy(&self, _: i32, _: i32, _: i32) -> BoxedBytes { unsupported("ec") }
    fn ec_marshal(&self, _: i32, _: i32, _: i32, _: i32) { unsupported("ec") }
    fn ec_marshal_compressed_legacy(&self, _: i32, _: i32, _: i32) -> BoxedBytes { unsupported("ec") }
    fn ec_marshal_compressed(&self, _: i32, _: i32, _: i32, _: i32) { unsupported("ec") }
    fn ec_unmarshal_legacy(&self, _: i32, _: i32, _: i32, _: &[u8]) { unsupported("ec") }
    fn ec_unmarshal(&self, _: i32, _: i32, _: i32, _: i32) { unsupported("ec") }
    fn ec_unmarshal_compressed_legacy(&self, _: i32, _: i32, _: i32, _: &[u8]) { unsupported("ec") }
    fn ec_unmarshal_compressed(&self, _: i32, _: i32, _: i32, _: i32) { unsupported("ec") }
    fn ec_generate_key_legacy(&self, _: i32, _: i32, _: i32) -> BoxedBytes { unsupported("ec") }
    fn ec_generate_key(&self, _: i32, _: i32, _: i32, _: i32) { unsupported("ec") }
}

impl ManagedBufferApiImpl for SymApi {
    fn mb_new_empty(&self) -> i32 {
        let h = new_pos();
        set_mb(h, vec![]);
        h
    }
    fn mb_new_from_bytes(&self, b: &[u8]) -> i32 {
        let h = new_pos();
        set_mb(h, b.to_vec());
        h
    }
    fn mb_len(&self, h: i32) -> usize {
        let b = mb(h);
        if cx(|c| c.stored.contains(&h)) {
            if let Some(t) = parse_token(&b) {
                // a stored symbolic BigUint is absent iff it is zero
                if fork(eq(t, k(0))) {
                    return 0;
                }
            }
        }
        b.len()
    }
    fn mb_to_boxed_bytes(&self, h: i32) -> BoxedBytes {
        mb(h).into()
    }
    fn mb_load_slice(&self, h: i32, start: usize, dest: &mut [u8]) -> Result<(), InvalidSliceError> {
        let b = mb(h);
        match b.get(start..start + dest.len()) {
            Some(s) => {
                dest.copy_from_slice(s);
                Ok(())
            }
            None => Err(InvalidSliceError),
        }
    }
    fn mb_copy_slice(&self, h: i32, start: usize, len: usize, dest: i32) -> Result<(), InvalidSliceError> {
        let b = mb(h);
        match b.get(start..start.checked_add(len).unwrap_or(usize::MAX)) {
            Some(s) => {
                set_mb(dest, s.to_vec());
                Ok(())
            }
            None => Err(InvalidSliceError),
        }
    }
    fn mb_overwrite(&self, h: i32, v: &[u8]) {
        set_mb(h, v.to_vec())
    }
    fn mb_set_slice(&self, h: i32, start: usize, src: &[u8]) -> Result<(), InvalidSliceError> {
        let mut b = mb(h);
        if start + src.len() > b.len() {
            return Err(InvalidSliceError);
        }
        b[start..start + src.len()].copy_from_slice(src);
        set_mb(h, b);
        Ok(())
    }
    fn mb_set_random(&self, h: i32, len: usize) {
        set_mb(h, vec![7; len])
    }
    fn mb_append(&self, a: i32, d: i32) {
        let x = mb(d);
        let mut b = mb(a);
        b.extend(x);
        set_mb(a, b)
    }
    fn mb_append_bytes(&self, a: i32, x: &[u8]) {
        let mut b = mb(a);
        b.extend(x);
        set_mb(a, b)
    }
    fn mb_eq(&self, a: i32, b: i32) -> bool {
        let (x, y) = (mb(a), mb(b));
        if x == y {
            return true;
        }
        if has_token(&x) || has_token(&y) {
            unsupported("byte comparison of symbolic data");
        }
        false
    }
    fn mb_to_hex(&self, s: i32, d: i32) {
        let x = mb(s);
        set_mb(d, x.iter().map(|b| format!("{:02x}", b)).collect::<String>().into_bytes())
    }
}

impl ManagedMapApiImpl for SymApi {
    fn mm_new(&self) -> i32 {
        let h = new_pos();
        cx(|c| c.mm.insert(h, BTreeMap::new()));
        h
    }
    fn mm_get(&self, m: i32, kh: i32, v: i32) {
        let key = mb(kh);
        let x = cx(|c| c.mm.get(&m).and_then(|m| m.get(&key).cloned())).unwrap_or_default();
        set_mb(v, x)
    }
    fn mm_put(&self, m: i32, kh: i32, v: i32) {
        let (key, val) = (mb(kh), mb(v));
        cx(|c| c.mm.entry(m).or_default().insert(key, val));
    }
    fn mm_remove(&self, m: i32, kh: i32, v: i32) {
        let key = mb(kh);
        let x = cx(|c| c.mm.entry(m).or_default().remove(&key)).unwrap_or_default();
        set_mb(v, x)
    }
    fn mm_contains(&self, m: i32, kh: i32) -> bool {
        let key = mb(kh);
        cx(|c| c.mm.get(&m).map_or(false, |m| m.get(&key).map_or(false, |v| !v.is_empty())))
    }
}

impl ManagedTypeApiImpl for SymApi {
    fn mb_to_big_int_unsigned(&self, b: i32, d: i32) {
        set_bi(d, dec_u(&mb(b)))
    }
    fn mb_to_big_int_signed(&self, b: i32, d: i32) {
        set_bi(d, dec_s(&mb(b)))
    }
    fn mb_from_big_int_unsigned(&self, x: i32, d: i32) {
        set_mb(d, enc_u(bi(x)))
    }
    fn mb_from_big_int_signed(&self, x: i32, d: i32) {
        set_mb(d, enc_s(bi(x)))
    }
    fn mb_to_small_int_unsigned(&self, b: i32) -> i64 {
        let v = mb(b);
        if has_token(&v) {
            unsupported("symbolic bytes as machine integer");
        }
        let x = BigInt::from_bytes_be(NSign::Plus, &v);
        match x.to_u64() {
            Some(v) => v as i64,
            None => revert("argument out of range"),
        }
    }
    fn mb_to_small_int_signed(&self, b: i32) -> i64 {
        let v = mb(b);
        if has_token(&v) {
            unsupported("symbolic bytes as machine integer");
        }
        match BigInt::from_signed_bytes_be(&v).to_i64() {
            Some(v) => v,
            None => revert("argument out of range"),
        }
    }
    fn mb_from_small_int_unsigned(&self, b: i32, v: i64) {
        let v = v as u64;
        set_mb(b, if v == 0 { vec![] } else { BigInt::from(v).to_bytes_be().1 })
    }
    fn mb_from_small_int_signed(&self, b: i32, v: i64) {
        set_mb(b, if v == 0 { vec![] } else { BigInt::from(v).to_signed_bytes_be() })
    }
    fn mb_to_big_float(&self, _: i32, _: i32) {
        unsupported("big float")
    }
    fn mb_from_big_float(&self, _: i32, _: i32) {
        unsupported("big float")
    }
    fn validate_token_identifier(&self, h: i32) -> bool {
        let b = mb(h);
        if b.len() < 10 || b.len() > 32 {
            return false;
        }
        let d = b.len() - 7;
        b[d] == b'-'
            && (3..=10).contains(&d)
            && b[..d].iter().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit())
            && b[d + 1..].iter().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit())
    }
}

impl StaticVarApiImpl for SymApi {
    fn with_lockable_static_buffer<R, F: FnOnce(&mut LockableStaticBuffer) -> R>(&self, f: F) -> R {
        let mut b = match cx(|c| c.static_buf.take()) {
            Some(b) => b,
            None => unsupported("nested static buffer use"),
        };
        let r = f(&mut b);
        cx(|c| c.static_buf = Some(b));
        r
    }
    fn set_external_view_target_address_handle(&self, h: i32) {
        cx(|c| c.ext_view = h)
    }
    fn get_external_view_target_address_handle(&self) -> i32 {
        cx(|c| c.ext_view)
    }
    fn next_handle(&self) -> i32 {
        cx(|c| {
            c.next_neg -= 1;
            c.next_neg
        })
    }
    fn set_num_arguments(&self, n: i32) {
        cx(|c| c.num_args = n)
    }
    fn get_num_arguments(&self) -> i32 {
        cx(|c| c.num_args)
    }
    fn set_flags(&self, f: StaticVarApiFlags) {
        cx(|c| c.flags = f)
    }
    fn get_flags(&self) -> StaticVarApiFlags {
        cx(|c| c.flags)
    }
    fn is_scaling_factor_cached(&self, d: usize) -> bool {
        cx(|c| c.sf[d])
    }
    fn set_scaling_factor_cached(&self, d: usize) {
        cx(|c| c.sf[d] = true)
    }
}

impl StorageReadApiImpl for SymApi {
    fn storage_load_managed_buffer_raw(&self, kh: i32, d: i32) {
        let me = cx(|c| c.me);
        let v = storage_get(&me, &mb(kh));
        set_mb(d, v);
        cx(|c| {
            c.stored.insert(d);
        });
    }
    fn storage_load_from_address(&self, a: i32, kh: i32, d: i32) {
        let ad: Addr = match mb(a).try_into() {
            Ok(a) => a,
            Err(_) => revert("bad address length"),
        };
        let v = storage_get(&ad, &mb(kh));
        set_mb(d, v);
        cx(|c| {
            c.stored.insert(d);
        });
    }
}
impl StorageWriteApiImpl for SymApi {
    fn storage_store_managed_buffer_raw(&self, kh: i32, v: i32) {
        if cx(|c| c.readonly) {
            revert("storage write in read-only call");
        }
        let me = cx(|c| c.me);
        let (key, val) = (mb(kh), mb(v));
        if has_token(&key) {
            unsupported("symbolic storage key");
        }
        storage_set(&me, &key, val);
    }
}

impl ErrorApiImpl for SymApi {
    fn signal_error(&self, m: &[u8]) -> ! {
        revert(m)
    }
    fn signal_error_from_buffer(&self, h: i32) -> ! {
        let m = mb(h);
        revert(m)
    }
}

impl LogApiImpl for SymApi {
    fn managed_write_log(&self, topics: i32, data: i32) {
        let t = mb(topics);
        let me = cx(|c| c.me);
        let ts: Vec<Vec<u8>> = t.chunks(4).map(|c| mb(i32::from_be_bytes(c.try_into().unwrap()))).collect();
        let d = mb(data);
        w(|w| w.events.push((me, ts, d)));
    }
}

impl CryptoApiImpl for SymApi {
    fn sha256_managed(&self, _: i32, _: i32) { unsupported("sha256") }
    fn keccak256_managed(&self, _: i32, _: i32) { unsupported("keccak256") }
    fn ripemd160_managed(&self, _: i32, _: i32) { unsupported("crypto") }
    fn verify_bls_managed(&self, _: i32, _: i32, _: i32) { unsupported("crypto") }
    fn verify_ed25519_managed(&self, _: i32, _: i32, _: i32) { unsupported("crypto") }
    fn verify_secp256k1_managed(&self, _: i32, _: i32, _: i32) -> bool { unsupported("crypto") }
    fn verify_custom_secp256k1_managed(&self, _: i32, _: i32, _: i32, _: multiversx_sc::types::MessageHashType) -> bool {
        unsupported("crypto")
    }
    fn encode_secp256k1_der_signature_managed(&self, _: i32, _: i32, _: i32) { unsupported("crypto") }
    fn verify_secp256r1_managed(&self, _: i32, _: i32, _: i32) { unsupported("crypto") }
    fn verify_bls_signature_share_managed(&self, _: i32, _: i32, _: i32) { unsupported("crypto") }
    fn verify_bls_aggregated_signature_managed(&self, _: i32, _: i32, _: i32) { unsupported("crypto") }
}

impl EndpointArgumentApiImpl for SymApi {
    fn get_num_arguments(&self) -> i32 {
        cx(|c| c.args.len() as i32)
    }
    fn load_argument_managed_buffer(&self, i: i32, d: i32) {
        match cx(|c| c.args.get(i as usize).cloned()) {
            Some(v) => set_mb(d, v),
            None => revert("argument index out of range"),
        }
    }
    fn load_callback_closure_buffer(&self, _: i32) {
        unsupported("callback")
    }
}
impl EndpointFinishApiImpl for SymApi {
    fn finish_slice_u8(&self, s: &[u8]) {
        cx(|c| c.results.push(s.to_vec()))
    }
    fn finish_big_int_raw(&self, h: i32) {
        let v = enc_s(bi(h));
        cx(|c| c.results.push(v))
    }
    fn finish_big_uint_raw(&self, h: i32) {
        let v = enc_u(bi(h));
        cx(|c| c.results.push(v))
    }
    fn finish_managed_buffer_raw(&self, h: i32) {
        let v = mb(h);
        cx(|c| c.results.push(v))
    }
    fn finish_u64(&self, v: u64) {
        cx(|c| c.results.push(if v == 0 { vec![] } else { BigInt::from(v).to_bytes_be().1 }))
    }
    fn finish_i64(&self, v: i64) {
        cx(|c| c.results.push(if v == 0 { vec![] } else { BigInt::from(v).to_signed_bytes_be() }))
    }
}

fn make_payments(dest: i32, pays: &[Pay]) {
    let mut payload = vec![];
    for p in pays {
        let th = new_pos();
        set_mb(th, p.token.clone());
        let ah = new_pos();
        set_bi(ah, p.amount);
        payload.extend(th.to_be_bytes());
        payload.extend(p.nonce.to_be_bytes());
        payload.extend(ah.to_be_bytes());
    }
    set_mb(dest, payload);
}
fn read_payments(h: i32) -> Vec<Pay> {
    mb(h)
        .chunks(16)
        .map(|c| {
            let th = i32::from_be_bytes(c[0..4].try_into().unwrap());
            let nonce = u64::from_be_bytes(c[4..12].try_into().unwrap());
            let ah = i32::from_be_bytes(c[12..16].try_into().unwrap());
            Pay { token: mb(th), nonce, amount: bi(ah) }
        })
        .collect()
}

impl CallValueApiImpl for SymApi {
    fn check_not_payable(&self) {
        if cx(|c| !c.pays.is_empty()) {
            let e = cx(|c| c.pays[0].token == EGLD);
            revert(if e { "function does not accept EGLD payment" } else { "function does not accept ESDT payment" });
        }
    }
    fn load_egld_value(&self, d: i32) {
        let p = cx(|c| c.pays.clone());
        let v = if p.len() == 1 && p[0].token == EGLD { p[0].amount } else { k(0) };
        set_bi(d, v)
    }
    fn load_all_esdt_transfers(&self, d: i32) {
        let p = cx(|c| c.pays.clone());
        if p.len() == 1 && p[0].token == EGLD {
            make_payments(d, &[])
        } else {
            make_payments(d, &p)
        }
    }
    fn esdt_num_transfers(&self) -> usize {
        let p = cx(|c| c.pays.clone());
        if p.len() == 1 && p[0].token == EGLD {
            0
        } else {
            p.len()
        }
    }
    fn load_all_transfers(&self, d: i32) {
        let p = cx(|c| c.pays.clone());
        make_payments(d, &p)
    }
}

fn addr_of(h: i32) -> Addr {
    match mb(h).try_into() {
        Ok(a) => a,
        Err(_) => revert("bad address length"),
    }
}
fn is_sc(a: &[u8]) -> bool {
    a.len() == 32 && a[..8].iter().all(|x| *x == 0) && a[8..].iter().any(|x| *x != 0)
}

impl BlockchainApiImpl for SymApi {
    fn get_caller_legacy(&self) -> Address {
        Address::new(cx(|c| c.caller))
    }
    fn get_sc_address_legacy(&self) -> Address {
        Address::new(cx(|c| c.me))
    }
    fn load_owner_address_managed(&self, d: i32) {
        let me = cx(|c| c.me);
        let o = w(|w| w.accts.get(&me).map(|a| a.owner).unwrap_or([0; 32]));
        set_mb(d, o.to_vec())
    }
    fn get_shard_of_address_legacy(&self, a: &Address) -> u32 {
        let ad: Addr = a.as_bytes().try_into().unwrap();
        w(|w| w.shard.get(&ad).copied().unwrap_or(0))
    }
    fn is_smart_contract_legacy(&self, a: &Address) -> bool {
        is_sc(a.as_bytes())
    }
    fn load_balance_legacy(&self, d: i32, a: &Address) {
        let ad: Addr = a.as_bytes().try_into().unwrap();
        set_bi(d, balance(&ad, EGLD, 0))
    }
    fn load_state_root_hash_managed(&self, d: i32) {
        set_mb(d, vec![1; 32])
    }
    fn get_tx_hash_legacy(&self) -> H256 {
        H256::zero()
    }
    fn get_gas_left(&self) -> u64 {
        1_000_000_000_000
    }
    fn get_block_timestamp(&self) -> u64 {
        w(|w| w.now_ms / 1000)
    }
    fn get_block_timestamp_ms(&self) -> u64 {
        w(|w| w.now_ms)
    }
    fn get_block_nonce(&self) -> u64 {
        w(|w| w.round)
    }
    fn get_block_round(&self) -> u64 {
        w(|w| w.round)
    }
    fn get_block_epoch(&self) -> u64 {
        w(|w| w.epoch)
    }
    fn load_block_random_seed_managed(&self, d: i32) {
        set_mb(d, vec![9; 48])
    }
    fn get_prev_block_timestamp(&self) -> u64 {
        w(|w| w.now_ms / 1000 - 6)
    }
    fn get_prev_block_timestamp_ms(&self) -> u64 {
        w(|w| w.now_ms - 6000)
    }
    fn get_prev_block_nonce(&self) -> u64 {
        w(|w| w.round - 1)
    }
    fn get_prev_block_round(&self) -> u64 {
        w(|w| w.round - 1)
    }
    fn get_prev_block_epoch(&self) -> u64 {
        w(|w| w.epoch)
    }
    fn get_prev_block_random_seed_legacy(&self) -> Box<[u8; 48]> {
        Box::new([9; 48])
    }
    fn get_block_round_time_ms(&self) -> u64 {
        6000
    }
    fn epoch_start_block_timestamp_ms(&self) -> u64 {
        0
    }
    fn epoch_start_block_nonce(&self) -> u64 {
        0
    }
    fn epoch_start_block_round(&self) -> u64 {
        0
    }
    fn get_current_esdt_nft_nonce(&self, a: i32, t: i32) -> u64 {
        let (a, t) = (addr_of(a), mb(t));
        w(|w| w.accts.get(&a).and_then(|x| x.last_nonce.get(&t).cloned()).unwrap_or(0))
    }
    fn load_esdt_balance(&self, a: i32, t: i32, nonce: u64, d: i32) {
        let (a, t) = (addr_of(a), mb(t));
        set_bi(d, balance(&a, &t, nonce))
    }
    fn managed_get_esdt_token_data(
        &self,
        a: i32,
        t: i32,
        nonce: u64,
        value: i32,
        properties: i32,
        hash: i32,
        name: i32,
        attributes: i32,
        creator: i32,
        royalties: i32,
        uris: i32,
    ) {
        let (ad, tk) = (addr_of(a), mb(t));
        let b = balance(&ad, &tk, nonce);
        let has = fork(gt(b, k(0)));
        set_bi(value, b);
        set_mb(properties, vec![0, 0]);
        set_mb(hash, vec![]);
        set_mb(name, vec![]);
        let at = if has {
            w(|w| w.nft_attr.get(&(tk.clone(), nonce)).cloned()).unwrap_or_default()
        } else {
            vec![]
        };
        set_mb(attributes, at);
        set_mb(creator, vec![0; 32]);
        set_bi(royalties, k(0));
        set_mb(uris, vec![]);
    }
    fn managed_get_back_transfers(&self, esdt: i32, egld: i32) {
        // as on the node: they accumulate over calls, and reading them clears them
        let b = cx(|c| std::mem::take(&mut c.back));
        make_payments(esdt, &b);
        set_bi(egld, k(0));
    }
    fn check_esdt_frozen(&self, _: i32, _: i32, _: u64) -> bool {
        false
    }
    fn check_esdt_paused(&self, _: i32) -> bool {
        false
    }
    fn check_esdt_limited_transfer(&self, _: i32) -> bool {
        false
    }
    fn load_esdt_local_roles(&self, _: i32) -> EsdtLocalRoleFlags {
        EsdtLocalRoleFlags::all()
    }
    fn managed_get_code_metadata(&self, _: i32, _: i32) {
        unsupported("code metadata")
    }
    fn managed_get_code_hash(&self, _: i32, _: i32) {
        unsupported("code hash")
    }
    fn managed_is_builtin_function(&self, f: i32) -> bool {
        mb(f).starts_with(b"ESDT") || mb(f) == b"MultiESDTNFTTransfer"
    }
    fn managed_get_esdt_token_type(&self, _: i32, _: i32, nonce: u64, h: i32) {
        // 0 fungible, 2 non-fungible (dynamic NFTs report their own, equally non-fungible, type)
        set_bi(h, k(if nonce == 0 { 0 } else { 2 }))
    }
}

// ------------------------------------------------------------------ sending
fn args_of(h: i32) -> Vec<Vec<u8>> {
    mb(h).chunks(4).map(|c| mb(i32::from_be_bytes(c.try_into().unwrap()))).collect()
}
fn result_vec(h: i32, r: &[Vec<u8>]) {
    let mut payload = vec![];
    for x in r {
        let n = new_pos();
        set_mb(n, x.clone());
        payload.extend(n.to_be_bytes());
    }
    set_mb(h, payload);
}
fn u64_of(b: &[u8]) -> u64 {
    if has_token(b) {
        unsupported("symbolic nonce");
    }
    BigInt::from_bytes_be(NSign::Plus, b).to_u64().unwrap_or(u64::MAX)
}

/// builtin functions and plain calls issued by the current contract
fn sync_call(to: Addr, egld: T, func: String, args: Vec<Vec<u8>>, readonly: bool) -> Vec<Vec<u8>> {
    let me = cx(|c| c.me);
    let mark = w(|w| w.log.len());
    let res = if to == me && func.starts_with("ESDT") || func == "MultiESDTNFTTransfer" || func.starts_with("ESDTTransfer") {
        builtin(me, to, &func, args)
    } else {
        let mut pays = vec![];
        if as_const(egld).map_or(true, |c| !c.is_zero()) {
            pays.push(Pay { token: EGLD.to_vec(), nonce: 0, amount: egld });
        }
        call(&me, &to, pays, &func, args, readonly)
    };
    let back: Vec<Pay> = w(|w| {
        w.log[mark..].iter().filter(|(f, t, _)| *t == me && *f != me).map(|x| x.2.clone()).collect()
    });
    cx(|c| c.back.extend(back));
    res
}

fn builtin(me: Addr, to: Addr, func: &str, args: Vec<Vec<u8>>) -> Vec<Vec<u8>> {
    let s = |b: &Vec<u8>| String::from_utf8_lossy(b).to_string();
    match func {
        "ESDTTransfer" => {
            let p = Pay { token: args[0].clone(), nonce: 0, amount: dec_u(&args[1]) };
            let f = args.get(2).map(s).unwrap_or_default();
            call(&me, &to, vec![p], &f, args.get(3..).unwrap_or(&[]).to_vec(), false)
        }
        "ESDTNFTTransfer" => {
            let p = Pay { token: args[0].clone(), nonce: u64_of(&args[1]), amount: dec_u(&args[2]) };
            let dest: Addr = args[3].clone().try_into().unwrap_or_else(|_| revert("bad address"));
            let f = args.get(4).map(s).unwrap_or_default();
            call(&me, &dest, vec![p], &f, args.get(5..).unwrap_or(&[]).to_vec(), false)
        }
        "MultiESDTNFTTransfer" => {
            let dest: Addr = args[0].clone().try_into().unwrap_or_else(|_| revert("bad address"));
            let n = u64_of(&args[1]) as usize;
            let mut pays = vec![];
            for i in 0..n {
                pays.push(Pay {
                    token: args[2 + 3 * i].clone(),
                    nonce: u64_of(&args[3 + 3 * i]),
                    amount: dec_u(&args[4 + 3 * i]),
                });
            }
            let r = 2 + 3 * n;
            let f = args.get(r).map(s).unwrap_or_default();
            call(&me, &dest, pays, &f, args.get(r + 1..).unwrap_or(&[]).to_vec(), false)
        }
        "ESDTNFTCreate" => {
            let tk = args[0].clone();
            let amount = dec_u(&args[1]);
            let nonce = w(|w| {
                let a = w.accts.get_mut(&me).unwrap();
                let n = a.last_nonce.entry(tk.clone()).or_insert(0);
                *n += 1;
                *n
            });
            let b = balance(&me, &tk, nonce);
            set_balance(&me, &tk, nonce, add(b, amount));
            let at = args.get(5).cloned().unwrap_or_default();
            w(|w| w.nft_attr.insert((tk, nonce), at));
            vec![BigInt::from(nonce).to_bytes_be().1]
        }
        "ESDTNFTBurn" | "ESDTLocalBurn" => {
            let tk = args[0].clone();
            let (nonce, amount) = if func == "ESDTNFTBurn" {
                (u64_of(&args[1]), dec_u(&args[2]))
            } else {
                (0, dec_u(&args[1]))
            };
            let b = balance(&me, &tk, nonce);
            if !fork(ge(b, amount)) {
                revert("insufficient funds to burn");
            }
            set_balance(&me, &tk, nonce, sub(b, amount));
            vec![]
        }
        "ESDTNFTUpdateAttributes" => {
            let tk = args[0].clone();
            let nonce = u64_of(&args[1]);
            let b = balance(&me, &tk, nonce);
            if !fork(gt(b, k(0))) {
                revert("new NFT data on sender");
            }
            w(|w| w.nft_attr.insert((tk, nonce), args[2].clone()));
            vec![]
        }
        _ => unsupported(format!("builtin function {}", func)),
    }
}

impl SendApiImpl for SymApi {
    fn transfer_value_execute(&self, to: i32, amount: i32, _gas: u64, f: i32, args: i32) {
        let me = cx(|c| c.me);
        let (to, f, args) = (addr_of(to), String::from_utf8_lossy(&mb(f)).to_string(), args_of(args));
        let amt = bi(amount);
        if f.starts_with("ESDT") || f == "MultiESDTNFTTransfer" {
            builtin(me, to, &f, args);
            return;
        }
        let mut pays = vec![];
        if as_const(amt).map_or(true, |c| !c.is_zero()) {
            pays.push(Pay { token: EGLD.to_vec(), nonce: 0, amount: amt });
        }
        call(&me, &to, pays, &f, args, false);
    }
    fn multi_transfer_esdt_nft_execute(&self, to: i32, payments: i32, _gas: u64, f: i32, args: i32) {
        let me = cx(|c| c.me);
        let (to, f, args) = (addr_of(to), String::from_utf8_lossy(&mb(f)).to_string(), args_of(args));
        let pays = read_payments(payments);
        call(&me, &to, pays, &f, args, false);
    }
    fn multi_transfer_esdt_nft_execute_with_return(&self, to: i32, payments: i32, g: u64, f: i32, args: i32) -> i32 {
        self.multi_transfer_esdt_nft_execute(to, payments, g, f, args);
        0
    }
    fn async_call_raw(&self, _: i32, _: i32, _: i32, _: i32) -> ! {
        unsupported("async call")
    }
    fn create_async_call_raw(&self, _: i32, _: i32, _: i32, _: i32, _: &'static str, _: &'static str, _: u64, _: u64, _: i32) {
        unsupported("async call")
    }
    fn deploy_contract(&self, _: u64, _: i32, _: i32, _: i32, _: i32, _: i32, _: i32) {
        unsupported("deploy from code")
    }
    fn deploy_from_source_contract(&self, _g: u64, _amount: i32, src: i32, _md: i32, args: i32, na: i32, res: i32) {
        let me = cx(|c| c.me);
        let src = addr_of(src);
        let args = args_of(args);
        let kind = match w(|w| w.deploy_map.get(&src).cloned()) {
            Some(k) => k,
            None => revert("source contract not found"),
        };
        let n = w(|w| {
            w.deploys += 1;
            w.deploys
        });
        let a = sc_addr(&format!("deployed{}", n));
        add_account(a, kind, me, false);
        let r = call(&me, &a, vec![], "init", args, false);
        set_mb(na, a.to_vec());
        result_vec(res, &r);
    }
    fn upgrade_from_source_contract(&self, sc: i32, _g: u64, _amount: i32, _src: i32, _md: i32, args: i32) {
        let me = cx(|c| c.me);
        let a = addr_of(sc);
        let args = args_of(args);
        let owner = w(|w| w.accts.get(&a).map(|x| x.owner));
        if owner != Some(me) {
            revert("upgrade is allowed only for owner");
        }
        call(&me, &a, vec![], "upgrade", args, false);
    }
    fn upgrade_contract(&self, _: i32, _: u64, _: i32, _: i32, _: i32, _: i32) {
        unsupported("upgrade from code")
    }
    fn execute_on_dest_context_raw(&self, _g: u64, a: i32, v: i32, f: i32, args: i32, res: i32) {
        let r = sync_call(addr_of(a), bi(v), String::from_utf8_lossy(&mb(f)).to_string(), args_of(args), false);
        result_vec(res, &r);
    }
    fn execute_on_same_context_raw(&self, _: u64, _: i32, _: i32, _: i32, _: i32, _: i32) {
        unsupported("same context")
    }
    fn execute_on_dest_context_readonly_raw(&self, _g: u64, a: i32, f: i32, args: i32, res: i32) {
        let r = sync_call(addr_of(a), k(0), String::from_utf8_lossy(&mb(f)).to_string(), args_of(args), true);
        result_vec(res, &r);
    }
    fn execute_on_dest_context_error_return_raw(&self, _g: u64, _a: i32, _v: i32, _f: i32, _args: i32, _res: i32) -> i32 {
        unsupported("error-return call")
    }
    fn clean_return_data(&self) {
        cx(|c| c.results.clear())
    }
    fn delete_from_return_data(&self, i: usize) {
        cx(|c| {
            if i < c.results.len() {
                c.results.remove(i);
            }
        })
    }
}
