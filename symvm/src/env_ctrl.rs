//! The whole protocol: a controller, its pools and the price aggregator, in an arbitrary state.
//!
//! State is written through the storage layout (keys and encodings the public views expose), so it
//! does not depend on the names of the repository's internal helpers.
use crate::engine::*;
use crate::env::*;
use crate::lib_ctx::tok;
use crate::term::*;
use crate::vm::*;
use multiversx_sc::contract_base::CallableContract;
use multiversx_sc::storage::mappers::{MapMapper, StorageMapper, UnorderedSetMapper};
use multiversx_sc::storage::StorageKey;
use multiversx_sc::types::*;
use num_bigint::BigInt;

pub const ACC: &str = "ACCOUNT-abcdef";
pub const BIG: u32 = 45;

pub fn ctrl_kind() -> Kind {
    Kind::Real(|f| CallableContract::call(&controller::contract_obj::<SymApi>(), f), "controller")
}
pub fn agg_kind() -> Kind {
    Kind::Real(|f| CallableContract::call(&price_aggregator::contract_obj::<SymApi>(), f), "price_aggregator")
}

/// asset configuration as stored by the controller
#[derive(Clone)]
pub struct ACfg {
    pub ltv: T,
    pub thr: T,
    pub bonus: T,
    pub fees: T,
    pub coll: bool,
    pub borr: bool,
    pub emode: bool,
    pub isolated: bool,
    pub ceiling: T,
    pub siloed: bool,
    pub flash: bool,
    pub flash_fee: T,
    pub iso_borrow: bool,
    pub bcap: Option<T>,
    pub scap: Option<T>,
}
pub fn std_cfg() -> ACfg {
    ACfg {
        ltv: k(7500),
        thr: k(8000),
        bonus: k(500),
        fees: k(1000),
        coll: true,
        borr: true,
        emode: false,
        isolated: false,
        ceiling: k(0),
        siloed: false,
        flash: true,
        flash_fee: k(50),
        iso_borrow: true,
        bcap: None,
        scap: None,
    }
}
fn opt_big(o: Option<T>) -> Vec<u8> {
    match o {
        None => vec![0],
        Some(t) => cat(&[vec![1], nu(t)]),
    }
}
fn b1(b: bool) -> Vec<u8> {
    vec![b as u8]
}
impl ACfg {
    pub fn enc(&self) -> Vec<u8> {
        cat(&[
            dec(self.ltv, 4),
            dec(self.thr, 4),
            dec(self.bonus, 4),
            dec(self.fees, 4),
            b1(self.coll),
            b1(self.borr),
            b1(self.emode),
            b1(self.isolated),
            dec(self.ceiling, 18),
            b1(self.siloed),
            b1(self.flash),
            dec(self.flash_fee, 4),
            b1(self.iso_borrow),
            opt_big(self.bcap),
            opt_big(self.scap),
        ])
    }
    pub fn parse(b: &[u8]) -> ACfg {
        let mut r = Rd(b);
        let o = |r: &mut Rd| {
            if r.bool() {
                Some(r.big())
            } else {
                None
            }
        };
        let c = ACfg {
            ltv: r.decv(),
            thr: r.decv(),
            bonus: r.decv(),
            fees: r.decv(),
            coll: r.bool(),
            borr: r.bool(),
            emode: r.bool(),
            isolated: r.bool(),
            ceiling: r.decv(),
            siloed: r.bool(),
            flash: r.bool(),
            flash_fee: r.decv(),
            iso_borrow: r.bool(),
            bcap: o(&mut r),
            scap: o(&mut r),
        };
        assert!(r.done(), "asset config encoding has trailing bytes");
        c
    }
}

/// an account's attributes
#[derive(Clone, Debug, PartialEq)]
pub struct Attrs {
    pub isolated: bool,
    pub emode: u8,
    pub mode: u8,
    pub token: Option<String>,
}
pub fn normal() -> Attrs {
    Attrs { isolated: false, emode: 0, mode: 1, token: None }
}
pub fn isolated(t: &str) -> Attrs {
    Attrs { isolated: true, emode: 0, mode: 1, token: Some(t.into()) }
}
pub fn emode(id: u8) -> Attrs {
    Attrs { isolated: false, emode: id, mode: 1, token: None }
}
impl Attrs {
    pub fn enc(&self) -> Vec<u8> {
        cat(&[
            b1(self.isolated),
            vec![self.emode, self.mode],
            match &self.token {
                None => vec![0],
                Some(t) => cat(&[vec![1], nbytes(t.as_bytes())]),
            },
        ])
    }
    pub fn parse(b: &[u8]) -> Attrs {
        let mut r = Rd(b);
        let a = Attrs {
            isolated: r.bool(),
            emode: r.u8(),
            mode: r.u8(),
            token: if r.bool() { Some(String::from_utf8_lossy(&r.bytes()).to_string()) } else { None },
        };
        assert!(r.done(), "account attributes encoding has trailing bytes");
        a
    }
}

/// oracle provider record
#[derive(Clone)]
pub struct Oracle {
    pub base: String,
    pub quote: String,
    pub tol: [T; 4], // first upper, first lower, last upper, last lower
    pub addr: Addr,
    pub method: u8, // 1 safe 2 instant 3 aggregator 4 mix
    pub otype: u8,  // 1 normal 2 derived 3 lp
    pub source: u8, // 1 xexchange 2 lxoxno 3 xegld 4 legld 5 onedex
    pub dec: u32,
    pub pair: u32,
    pub stale: u64,
}
impl Oracle {
    pub fn enc(&self) -> Vec<u8> {
        let mut v = cat(&[nbytes(self.base.as_bytes()), nbytes(self.quote.as_bytes())]);
        for t in self.tol {
            v.extend(dec(t, 4));
        }
        v.extend(self.addr);
        v.extend([self.method, self.otype, self.source]);
        v.extend(u32b(self.dec));
        v.extend(u32b(self.pair));
        v.extend(u64b(self.stale));
        v
    }
    pub fn parse(b: &[u8]) -> Oracle {
        let mut r = Rd(b);
        let s = |v: Vec<u8>| String::from_utf8_lossy(&v).to_string();
        let o = Oracle {
            base: s(r.bytes()),
            quote: s(r.bytes()),
            tol: [r.decv(), r.decv(), r.decv(), r.decv()],
            addr: r.raw(32).try_into().unwrap(),
            method: r.u8(),
            otype: r.u8(),
            source: r.u8(),
            dec: r.u32(),
            pair: r.u32(),
            stale: r.u64(),
        };
        assert!(r.done(), "oracle encoding has trailing bytes");
        o
    }
}
pub fn agg_oracle(agg: Addr, token: &str, d: u32) -> Oracle {
    Oracle {
        base: token.into(),
        quote: "EGLD".into(),
        tol: [k(10200), k(9800), k(10500), k(9500)],
        addr: agg,
        method: 3,
        otype: 1,
        source: 1,
        dec: d,
        pair: 0,
        stale: 1 << 40,
    }
}

/// a market: token, price in EGLD (= USD here, 1 EGLD = 1 USD unless changed), pool state
#[derive(Clone)]
pub struct Mkt {
    pub tok: String,
    pub dec: u32,
    pub price: T,
    pub cfg: ACfg,
    pub st: PState,
    pub cash: T,
    pub params: Params,
}
pub fn mkt(tok: &str, d: u32, price: T) -> Mkt {
    Mkt {
        tok: tok.into(),
        dec: d,
        price,
        cfg: std_cfg(),
        st: PState {
            supplied: k(p10(36)),
            borrowed: k(p10(35)),
            revenue: k(p10(30)),
            bidx: k(frac_ray(12, 10)),
            sidx: k(frac_ray(11, 10)),
            last: T0,
        },
        cash: k(p10(BIG)),
        params: std_params(d),
    }
}

#[derive(Clone)]
pub struct Proto {
    pub c: Addr,
    pub owner: Addr,
    pub agg: Addr,
    pub accum: Addr,
    pub router: Addr,
    pub view: Addr,
    pub user: Addr,
    pub mkts: Vec<Mkt>,
}
fn idt(t: &str) -> EgldOrEsdtTokenIdentifier<SymApi> {
    if enc_name(t.as_bytes()) == b"EGLD" {
        EgldOrEsdtTokenIdentifier::egld()
    } else {
        tok(t)
    }
}
pub fn pool_of(t: &str) -> Addr {
    sc_addr(&format!("pool{}", &t[..4.min(t.len())]))
}
fn key(parts: &[Vec<u8>]) -> Vec<u8> {
    parts.concat()
}
type PosMap = MapMapper<SymApi, EgldOrEsdtTokenIdentifier<SymApi>, ManagedBuffer<SymApi>>;
fn skey(raw: &[u8]) -> StorageKey<SymApi> {
    StorageKey::new(raw)
}

impl Proto {
    pub fn new(mkts: Vec<Mkt>) -> Proto {
        let p = Proto {
            c: sc_addr("controller"),
            owner: user_addr("owner"),
            agg: sc_addr("aggregator"),
            accum: sc_addr("accumulator"),
            router: sc_addr("router"),
            view: sc_addr("safeview"),
            user: user_addr("alice"),
            mkts: mkts
                .into_iter()
                .map(|mut m| {
                    if enc_name(m.tok.as_bytes()) == b"EGLD" {
                        m.price = kwad();
                    }
                    m
                })
                .collect(),
        };
        set_watch(None);
        set_time_ms(T0);
        add_account(p.owner, Kind::User, [0; 32], false);
        add_account(p.agg, agg_kind(), p.owner, false);
        add_account(p.accum, Kind::Mock(std::rc::Rc::new(|_| vec![])), p.owner, false);
        add_account(p.router, Kind::Mock(std::rc::Rc::new(|_| vec![])), p.owner, false);
        add_account(p.view, Kind::Mock(std::rc::Rc::new(|_| vec![])), p.owner, false);
        let tpl = sc_addr("template");
        add_account(tpl, pool_kind(), p.owner, false);
        add_account(p.c, ctrl_kind(), p.owner, false);
        w(|w| {
            w.deploy_map.insert(tpl, pool_kind());
        });
        must(
            &p.owner,
            &p.c,
            "init",
            vec![tpl.to_vec(), p.agg.to_vec(), p.view.to_vec(), p.accum.to_vec(), p.router.to_vec()],
            vec![],
        );
        p.set(&[b"account".to_vec()], ACC.as_bytes().to_vec());
        p.set_price("EGLD", kwad());
        p.set_oracle("EGLD", &agg_oracle(p.agg, "EGLD", 18));
        for m in &p.mkts {
            let pa = pool_of(&m.tok);
            add_account(pa, pool_kind(), p.c, false);
            must(&p.c, &pa, "init", m.params.init_args(&m.tok), vec![]);
            pool_set(&pa, &m.st);
            set_balance(&pa, m.tok.as_bytes(), 0, m.cash);
            p.set(&[b"pools_map".to_vec(), nbytes(m.tok.as_bytes())], pa.to_vec());
            p.in_c(|| {
                UnorderedSetMapper::<SymApi, ManagedAddress<SymApi>>::new(skey(b"pools"))
                    .insert(ManagedAddress::new_from_bytes(&pa));
            });
            p.set_cfg(&m.tok, &m.cfg);
            p.set_iso_debt(&m.tok, k(0));
            p.set_price(&m.tok, m.price);
            p.set_oracle(&m.tok, &agg_oracle(p.agg, &m.tok, m.dec));
        }
        p.add_user(p.user);
        crate::props::aspects::install(&p);
        p
    }
    /// a wallet holding plenty of every market's token
    pub fn add_user(&self, u: Addr) {
        add_account(u, Kind::User, [0; 32], false);
        for m in &self.mkts {
            set_balance(&u, m.tok.as_bytes(), 0, k(p10(BIG)));
        }
    }
    pub fn in_c<R>(&self, f: impl FnOnce() -> R) -> R {
        in_context(self.c, f)
    }
    pub fn set(&self, parts: &[Vec<u8>], v: Vec<u8>) {
        storage_set(&self.c, &key(parts), v)
    }
    pub fn get(&self, parts: &[Vec<u8>]) -> Vec<u8> {
        storage_get(&self.c, &key(parts))
    }
    pub fn set_cfg(&self, t: &str, c: &ACfg) {
        self.set(&[b"asset_config".to_vec(), nbytes(t.as_bytes())], c.enc())
    }
    pub fn cfg(&self, t: &str) -> ACfg {
        ACfg::parse(&self.get(&[b"asset_config".to_vec(), nbytes(t.as_bytes())]))
    }
    pub fn set_oracle(&self, t: &str, o: &Oracle) {
        self.set(&[b"token_oracle".to_vec(), nbytes(t.as_bytes())], o.enc())
    }
    pub fn oracle(&self, t: &str) -> Oracle {
        Oracle::parse(&self.get(&[b"token_oracle".to_vec(), nbytes(t.as_bytes())]))
    }
    /// aggregator round (USD, wad), stamped now
    pub fn set_price(&self, t: &str, p: T) {
        let now = w(|w| w.now_ms) / 1000;
        self.set_round(t, p, now);
    }
    pub fn set_round(&self, t: &str, p: T, ts: u64) {
        storage_set(&self.agg, &self.quote_key(t), cat(&[nu(p), u64b(ts), u32b(1)]));
    }
    /// where the price aggregator keeps the last round of a token
    pub fn quote_key(&self, t: &str) -> Vec<u8> {
        let name = String::from_utf8(enc_name(t.as_bytes())).unwrap();
        let ticker = name.split('-').next().unwrap();
        key(&[b"rounds".to_vec(), nbytes(ticker.as_bytes()), nbytes(b"USD")])
    }
    pub fn m(&self, t: &str) -> &Mkt {
        self.mkts.iter().find(|m| m.tok == t).expect("market")
    }
    // ---- pools
    pub fn state(&self, t: &str) -> PState {
        pool_state(&pool_of(t))
    }
    pub fn cash(&self, t: &str) -> T {
        balance(&pool_of(t), t.as_bytes(), 0)
    }
    pub fn bal(&self, u: &Addr, t: &str) -> T {
        balance(u, t.as_bytes(), 0)
    }
    // ---- accounts
    fn pos_map(&self, nonce: u64, ptype: u8) -> PosMap {
        PosMap::new(skey(&key(&[b"positions".to_vec(), u64b(nonce), vec![ptype]])))
    }
    /// an account held by `holder`
    pub fn account(&self, holder: &Addr, nonce: u64, a: &Attrs, positions: &[Pos]) {
        self.in_c(|| {
            UnorderedSetMapper::<SymApi, u64>::new(skey(b"accounts")).insert(nonce);
        });
        self.set(&[b"account_nonce".to_vec()], top_u(nonce));
        self.set(&[b"account_attributes".to_vec(), u64b(nonce)], a.enc());
        set_balance(holder, ACC.as_bytes(), nonce, k(1));
        w(|w| {
            w.nft_attr.insert((ACC.as_bytes().to_vec(), nonce), a.enc());
            let last = w.accts.get_mut(&self.c).unwrap().last_nonce.entry(ACC.as_bytes().to_vec()).or_insert(0);
            *last = (*last).max(nonce);
        });
        for p in positions {
            self.put_pos(nonce, p);
        }
    }
    pub fn put_pos(&self, nonce: u64, p: &Pos) {
        let mut p = p.clone();
        p.nonce = nonce;
        self.in_c(|| {
            self.pos_map(nonce, p.ptype).insert(
                idt(std::str::from_utf8(&p.asset).unwrap()),
                ManagedBuffer::from(&p.enc()[..]),
            );
        });
    }
    pub fn positions(&self, nonce: u64, ptype: u8) -> Vec<Pos> {
        self.in_c(|| {
            self.pos_map(nonce, ptype)
                .iter()
                .map(|(id, b)| {
                    let p = Pos::parse(b.to_boxed_bytes().as_slice());
                    assert_eq!(dec_name(id.into_name().to_boxed_bytes().as_slice().to_vec()), p.asset, "position filed under its asset");
                    p
                })
                .collect()
        })
    }
    pub fn pos(&self, nonce: u64, ptype: u8, t: &str) -> Option<Pos> {
        self.positions(nonce, ptype).into_iter().find(|p| p.asset == t.as_bytes())
    }
    /// scaled amount of a position, 0 if absent
    pub fn sc(&self, nonce: u64, ptype: u8, t: &str) -> T {
        self.pos(nonce, ptype, t).map_or(k(0), |p| p.scaled)
    }
    pub fn attrs(&self, nonce: u64) -> Option<Attrs> {
        let b = self.get(&[b"account_attributes".to_vec(), u64b(nonce)]);
        if b.is_empty() {
            None
        } else {
            Some(Attrs::parse(&b))
        }
    }
    pub fn active(&self, nonce: u64) -> bool {
        self.in_c(|| UnorderedSetMapper::<SymApi, u64>::new(skey(b"accounts")).contains(&nonce))
    }
    pub fn holds(&self, u: &Addr, nonce: u64) -> bool {
        as_const(balance(u, ACC.as_bytes(), nonce)) == Some(BigInt::from(1))
    }
    pub fn iso_debt(&self, t: &str) -> T {
        undec(&self.get(&[b"isolated_asset_debt_usd".to_vec(), nbytes(t.as_bytes())])).0
    }
    pub fn set_iso_debt(&self, t: &str, v: T) {
        self.set(&[b"isolated_asset_debt_usd".to_vec(), nbytes(t.as_bytes())], dec(v, 18))
    }
    /// e-mode category with per-asset flags (token, collateral, borrow)
    pub fn emode(&self, id: u8, ltv: T, thr: T, bonus: T, deprecated: bool, assets: &[(&str, bool, bool)]) {
        self.in_c(|| {
            let v = cat(&[vec![id], dec(ltv, 4), dec(thr, 4), dec(bonus, 4), b1(deprecated)]);
            MapMapper::<SymApi, u8, ManagedBuffer<SymApi>>::new(skey(b"e_mode_category")).insert(id, ManagedBuffer::from(&v[..]));
            for (t, c, b) in assets {
                MapMapper::<SymApi, EgldOrEsdtTokenIdentifier<SymApi>, ManagedBuffer<SymApi>>::new(skey(&key(&[
                    b"e_mode_assets".to_vec(),
                    vec![id],
                ])))
                .insert(idt(t), ManagedBuffer::from(&[*c as u8, *b as u8][..]));
                UnorderedSetMapper::<SymApi, u8>::new(skey(&key(&[b"asset_e_modes".to_vec(), nbytes(t.as_bytes())]))).insert(id);
            }
        });
        self.set(&[b"last_e_mode_category_id".to_vec()], top_u(id as u64));
    }
    // ---- calls
    pub fn call(&self, from: &Addr, f: &str, args: Vec<Vec<u8>>, pays: Vec<Pay>) -> TxRes {
        tx(from, &self.c, f, args, pays)
    }
    pub fn view(&self, f: &str, args: Vec<Vec<u8>>) -> TxRes {
        query(&self.c, f, args)
    }
    /// decimal answer of a view
    pub fn viewd(&self, f: &str, args: Vec<Vec<u8>>) -> T {
        let r = self.view(f, args);
        undec(&r.out()[0]).0
    }
    pub fn supply(&self, nonce: u64, em: Option<u8>, pays: Vec<(&str, T)>) -> TxRes {
        self.supply_by(&self.user, nonce, em, pays)
    }
    /// nonce 0 opens an account; otherwise the account NFT travels along
    pub fn supply_by(&self, u: &Addr, nonce: u64, em: Option<u8>, pays: Vec<(&str, T)>) -> TxRes {
        let mut v = vec![];
        if nonce != 0 {
            v.push(pay_nft(ACC, nonce));
        }
        v.extend(pays.iter().map(|(t, a)| pay(t, *a)));
        let args = match em {
            None => vec![],
            Some(e) => vec![vec![], top_u(e as u64)],
        };
        self.call(u, "supply", args, v)
    }
    pub fn multi(&self, f: &str, nonce: u64, list: Vec<(&str, T)>) -> TxRes {
        let args = list.iter().map(|(t, a)| payment_arg(t, 0, *a)).collect();
        self.call(&self.user, f, args, vec![pay_nft(ACC, nonce)])
    }
    pub fn borrow(&self, nonce: u64, list: Vec<(&str, T)>) -> TxRes {
        self.multi("borrow", nonce, list)
    }
    pub fn withdraw(&self, nonce: u64, list: Vec<(&str, T)>) -> TxRes {
        self.multi("withdraw", nonce, list)
    }
    pub fn repay_by(&self, u: &Addr, nonce: u64, pays: Vec<(&str, T)>) -> TxRes {
        self.call(u, "repay", vec![top_u(nonce)], pays.iter().map(|(t, a)| pay(t, *a)).collect())
    }
    pub fn liquidate_by(&self, u: &Addr, nonce: u64, pays: Vec<(&str, T)>) -> TxRes {
        self.call(u, "liquidate", vec![top_u(nonce)], pays.iter().map(|(t, a)| pay(t, *a)).collect())
    }
    // ---- the documented risk arithmetic
    /// current amount (ray) of scaled units at an index
    pub fn amt_ray(&self, t: &str, ptype: u8, scaled: T) -> T {
        let m = self.m(t);
        rmul(scaled, if ptype == DEPOSIT { m.st.sidx } else { m.st.bidx })
    }
    /// value in EGLD (ray)
    pub fn val(&self, p: &Pos) -> T {
        let t = String::from_utf8_lossy(&p.asset).to_string();
        rmul(self.amt_ray(&t, p.ptype, p.scaled), mul(self.m(&t).price, k(p10(9))))
    }
    /// Σ value × bps/10000
    pub fn weighted(&self, ps: &[Pos], f: impl Fn(&Pos) -> T) -> T {
        ps.iter().fold(k(0), |a, p| add(a, rmul(self.val(p), mul(f(p), k(p10(23))))))
    }
    pub fn total(&self, ps: &[Pos]) -> T {
        ps.iter().fold(k(0), |a, p| add(a, self.val(p)))
    }
    pub fn health(&self, weighted: T, debt: T) -> T {
        // (callers look at it only where there is debt)
        div_hu(mul(weighted, kray()), max(debt, k(1)))
    }
}
pub fn deposit(t: &str, scaled: T) -> Pos {
    Pos::new(DEPOSIT, t, scaled)
}
/// debts carry no risk parameters
pub fn debt(t: &str, scaled: T) -> Pos {
    let mut p = Pos::new(BORROW, t, scaled);
    p.threshold = k(0);
    p.bonus = k(0);
    p.fees = k(0);
    p.ltv = k(0);
    p
}
/// a solver-chosen flag
pub fn flag(n: &str, hint: bool) -> bool {
    let v = var(n, 0, 1, hint as i32);
    !fork(eq(v, k(0)))
}
/// a solver-chosen alternative 0..n
pub fn pick(name: &str, n: i32) -> usize {
    let v = var(name, 0, n - 1, 0);
    for i in 0..n - 1 {
        if fork(eq(v, k(i))) {
            return i as usize;
        }
    }
    (n - 1) as usize
}
