//! Byte-level helpers over the framework's debug VM (ScenarioWorld).
#![allow(dead_code, deprecated)]
pub use multiversx_sc::types::*;
pub use multiversx_sc_scenario::imports::*;
pub use multiversx_sc_scenario::{DebugApi, ScenarioTxWhitebox, ScenarioWorld};

pub type Args = Vec<Vec<u8>>;
pub type Res = Result<Vec<Vec<u8>>, String>;
pub const RAY: u128 = 1_000_000_000_000_000_000_000_000_000;
pub const WAD: u128 = 1_000_000_000_000_000_000;

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn hx(b: &[u8]) -> String {
    format!("0x{}", hex(b))
}
/// (users get contract addresses too: the debug VM only lets a contract's balance be read back)
pub fn user(n: &str) -> [u8; 32] {
    sc(n)
}
pub fn sc(n: &str) -> [u8; 32] {
    let mut a = [0u8; 32];
    a[8] = 5;
    a[9] = 0;
    for x in a[10..].iter_mut() {
        *x = b'_';
    }
    a[10..10 + n.len()].copy_from_slice(n.as_bytes());
    a
}
// ------------------------------------------------------------- encodings
pub fn n(x: u128) -> Vec<u8> {
    let b = x.to_be_bytes();
    let i = b.iter().position(|y| *y != 0).unwrap_or(16);
    b[i..].to_vec()
}
pub fn u(b: &[u8]) -> u128 {
    b.iter().fold(0, |a, x| (a << 8) | *x as u128)
}
pub fn nest(b: &[u8]) -> Vec<u8> {
    let mut v = (b.len() as u32).to_be_bytes().to_vec();
    v.extend_from_slice(b);
    v
}
pub fn dec(x: u128, d: u32) -> Vec<u8> {
    let mut v = nest(&n(x));
    v.extend(d.to_be_bytes());
    v
}
pub fn payment(tok: &str, amount: u128) -> Vec<u8> {
    let mut v = nest(tok.as_bytes());
    v.extend(0u64.to_be_bytes());
    v.extend(nest(&n(amount)));
    v
}
/// AccountPosition: type 1 = deposit, 2 = borrow
pub fn position(t: u8, tok: &str, scaled: u128) -> Vec<u8> {
    let mut v = vec![t];
    v.extend(nest(tok.as_bytes()));
    v.extend(dec(scaled, 27));
    v.extend(1u64.to_be_bytes());
    for x in [8000, 500, 1000, 7500] {
        v.extend(dec(x, 4));
    }
    v
}
fn rd_bytes<'a>(b: &mut &'a [u8]) -> &'a [u8] {
    let k = u(&b[..4]) as usize;
    let r = &b[4..4 + k];
    *b = &b[4 + k..];
    r
}
/// leading big number of a decimal / index pair / payment body
pub fn big0(b: &[u8]) -> u128 {
    if b.is_empty() {
        return 0;
    }
    let mut c = b;
    u(rd_bytes(&mut c))
}
/// scaled amount in an encoded AccountPosition
pub fn pos_scaled(b: &[u8]) -> u128 {
    let mut c = &b[1..];
    rd_bytes(&mut c);
    u(rd_bytes(&mut c))
}

// ------------------------------------------------------------- world
pub struct Lab {
    pub w: ScenarioWorld,
    /// the last transaction's log: who, topics (the first is the event's name)
    pub log: Vec<([u8; 32], Vec<Vec<u8>>)>,
}
impl Lab {
    pub fn new() -> Lab {
        let mut w = ScenarioWorld::new();
        w.register_contract("str:code-c", controller::ContractBuilder);
        w.register_contract("str:code-l", liquidity_layer::ContractBuilder);
        w.register_contract("str:code-a", price_aggregator::ContractBuilder);
        w.register_contract("str:code-f", flash_mock::ContractBuilder);
        w.register_contract("str:code-s", swap_mock::ContractBuilder);
        Lab { w, log: vec![] }
    }
    pub fn time(&mut self, seconds: u64) {
        self.w.set_state_step(SetStateStep::new().block_timestamp(seconds));
    }
    pub fn account(&mut self, a: [u8; 32], egld: u128, esdt: &[(&str, u128)]) {
        // (the code only lets the lab read the balance back)
        let mut acc = Account::new().nonce(1u64).code("str:code-f").balance(egld.to_string().as_str());
        for (t, x) in esdt {
            acc = acc.esdt_balance(format!("str:{}", t).as_str(), x.to_string().as_str());
        }
        self.w.set_state_step(SetStateStep::new().put_account(hx(&a).as_str(), acc));
    }
    /// a contract account that never ran its constructor
    pub fn contract(&mut self, a: [u8; 32], code: &str, owner: [u8; 32], esdt: &[(&str, u128)]) {
        let mut acc = Account::new().code(code).owner(hx(&owner).as_str());
        for (t, x) in esdt {
            acc = acc.esdt_balance(format!("str:{}", t).as_str(), x.to_string().as_str());
        }
        self.w.set_state_step(SetStateStep::new().put_account(hx(&a).as_str(), acc));
    }
    pub fn deploy(&mut self, code: &str, from: [u8; 32], at: [u8; 32], args: Args) {
        let nonce = 1u64;
        let acc = Account::new().nonce(nonce).code("str:code-f");
        self.w.set_state_step(SetStateStep::new().put_account(hx(&from).as_str(), acc).new_address(
            hx(&from).as_str(),
            nonce,
            hx(&at).as_str(),
        ));
        let mut s = ScDeployStep::new().from(hx(&from).as_str()).code(code).no_expect();
        for a in args {
            s = s.argument(&hx(&a));
        }
        let mut out = None;
        self.w.sc_deploy_use_raw_response(s, |r| out = Some(r.clone()));
        let r = out.unwrap();
        assert!(r.tx_error.status.as_u64() == 0, "deploy {}: {}", code, r.tx_error.message);
    }
    pub fn call(&mut self, from: [u8; 32], to: [u8; 32], f: &str, args: Args, pays: &[(&str, u64, u128)]) -> Res {
        self.call_egld(from, to, f, args, pays, 0)
    }
    pub fn call_egld(
        &mut self,
        from: [u8; 32],
        to: [u8; 32],
        f: &str,
        args: Args,
        pays: &[(&str, u64, u128)],
        egld: u128,
    ) -> Res {
        let mut s = ScCallStep::new().from(hx(&from).as_str()).to(hx(&to).as_str()).function(f).no_expect();
        for (t, nonce, x) in pays {
            s = s.esdt_transfer(format!("str:{}", t).as_str(), *nonce, x.to_string().as_str());
        }
        if egld > 0 {
            s = s.egld_value(egld.to_string().as_str());
        }
        for a in args {
            s = s.argument(hx(&a).as_str());
        }
        let mut out = None;
        self.w.sc_call_use_raw_response(s, |r| out = Some(r.clone()));
        let r = out.unwrap();
        self.log = r.logs.iter().map(|x| (*x.address.as_array(), x.topics.clone())).collect();
        if r.tx_error.status.as_u64() == 0 {
            Ok(r.out)
        } else {
            Err(r.tx_error.message)
        }
    }
    pub fn query(&mut self, to: [u8; 32], f: &str, args: Args) -> Res {
        let mut s = ScQueryStep::new().to(hx(&to).as_str()).function(f).no_expect();
        for a in args {
            s = s.argument(&hx(&a));
        }
        let mut out = None;
        self.w.sc_query_use_raw_response(s, |r| out = Some(r.clone()));
        let r = out.unwrap();
        if r.tx_error.status.as_u64() == 0 {
            Ok(r.out)
        } else {
            Err(r.tx_error.message)
        }
    }
    pub fn get(&mut self, to: [u8; 32], f: &str, args: Args) -> u128 {
        let r = self.query(to, f, args).expect(f);
        big0(&r[0])
    }
    /// a user account's balance (debug VM state, read through a transfer-free check)
    pub fn bal(&mut self, a: [u8; 32], tok: &str) -> u128 {
        let mut out = 0u128;
        let o = &mut out;
        self.w.query().to(Address::from(a)).whitebox(liquidity_layer::contract_obj, |s| {
            let t = if tok == "EGLD" { EgldOrEsdtTokenIdentifier::egld() } else { EgldOrEsdtTokenIdentifier::esdt(tok) };
            let b: BigUint<DebugApi> = s.blockchain().get_sc_balance(&t, 0);
            *o = u(b.to_bytes_be().as_slice());
        });
        out
    }
}

/// A pool at sc("pool") owned by user("ctrl"), 18 decimals unless said otherwise.
pub const TOK: &str = "TOKEN-123456";
pub fn pool(l: &mut Lab, decimals: u128) -> ([u8; 32], [u8; 32]) {
    let (c, p) = (user("ctrl"), sc("pool"));
    l.time(1_700_000_000);
    let a = |x: u128| n(x);
    l.deploy(
        "str:code-l",
        c,
        p,
        vec![
            TOK.as_bytes().to_vec(),
            a(RAY),
            a(RAY / 100),
            a(RAY / 25),
            a(RAY / 10),
            a(RAY * 3),
            a(RAY * 65 / 100),
            a(RAY * 90 / 100),
            a(2000),
            a(decimals),
        ],
    );
    l.account(c, 0, &[(TOK, 1u128 << 120)]);
    (c, p)
}
pub fn price() -> Vec<u8> {
    dec(WAD, 18)
}

// ------------------------------------------------------------- the whole protocol
/// Controller at sc("controller") owned by user("owner"); one pool per market; prices come from
/// the aggregator ("AGG" pricing), 1 EGLD = 1 USD so a token's USD price is its EGLD price.
pub const ACC: &str = "ACCOUNT-abcdef";
#[derive(Clone)]
pub struct Market {
    pub tok: &'static str,
    pub ticker: &'static str,
    pub dec: usize,
    pub price: u128,
    pub ltv: u128,
    pub thr: u128,
    pub bonus: u128,
    pub fees: u128,
    pub collateral: bool,
    pub borrowable: bool,
    pub isolated: bool,
    pub ceiling: u128,
    pub flash_fee: u128,
    pub siloed: bool,
    pub flash: bool,
    pub iso_borrow: bool,
    pub bcap: u128,
    pub scap: u128,
}
pub fn market(tok: &'static str, price: u128) -> Market {
    Market {
        tok,
        ticker: tok.split('-').next().unwrap(),
        dec: 18,
        price,
        ltv: 7500,
        thr: 8000,
        bonus: 500,
        fees: 1000,
        collateral: true,
        borrowable: true,
        isolated: false,
        ceiling: 0,
        flash_fee: 50,
        siloed: false,
        flash: true,
        iso_borrow: true,
        bcap: 0,
        scap: 0,
    }
}
pub struct Ctl {
    pub l: Lab,
    pub owner: [u8; 32],
    pub c: [u8; 32],
    pub agg: [u8; 32],
}
impl Ctl {
    pub fn new(markets: &[Market]) -> Ctl {
        let mut l = Lab::new();
        l.time(1_700_000_000);
        let (owner, c, agg, tpl) = (user("owner"), sc("controller"), sc("agg"), sc("template"));
        l.contract(agg, "str:code-a", owner, &[]);
        l.contract(tpl, "str:code-l", owner, &[]);
        l.account(user("accumulator"), 0, &[]);
        l.contract(sc("router"), "str:code-s", owner, &[]);
        l.deploy(
            "str:code-c",
            owner,
            c,
            vec![tpl.to_vec(), agg.to_vec(), sc("view").to_vec(), user("accumulator").to_vec(), sc("router").to_vec()],
        );
        let mut k = Ctl { l, owner, c, agg };
        k.l.w.set_esdt_local_roles(
            Address::from(c),
            ACC.as_bytes(),
            &[EsdtLocalRole::NftCreate, EsdtLocalRole::NftBurn, EsdtLocalRole::NftUpdateAttributes],
        );
        k.l.w.tx().from(Address::from(owner)).to(Address::from(c)).whitebox(controller::contract_obj, |s| {
            use controller::storage::Storage;
            s.account().set_token_id(TokenIdentifier::from(ACC));
        });
        k.set_price("EGLD", WAD);
        k.oracle("EGLD", "EGLD", 18, 0);
        for m in markets {
            k.set_price(m.ticker, m.price);
            k.oracle(m.tok, m.ticker, m.dec, 0);
            let b = |x: bool| n(x as u128);
            k.admin(
                "createLiquidityPool",
                vec![
                    m.tok.as_bytes().to_vec(),
                    n(RAY),
                    n(RAY / 100),
                    n(RAY / 25),
                    n(RAY / 10),
                    n(RAY * 3),
                    n(RAY * 65 / 100),
                    n(RAY * 90 / 100),
                    n(2000),
                    n(m.ltv),
                    n(m.thr),
                    n(m.bonus),
                    n(m.fees),
                    b(m.collateral),
                    b(m.borrowable),
                    b(m.isolated),
                    n(m.ceiling),
                    n(m.flash_fee),
                    b(m.siloed),
                    b(m.flash),
                    b(m.iso_borrow),
                    n(m.dec as u128),
                    n(m.bcap),
                    n(m.scap),
                ],
            )
            .expect("createLiquidityPool");
        }
        k
    }
    pub fn admin(&mut self, f: &str, args: Args) -> Res {
        self.l.call(self.owner, self.c, f, args, &[])
    }
    /// aggregator price in USD (wad), fresh now
    pub fn set_price(&mut self, ticker: &str, price: u128) {
        let (o, a) = (self.owner, self.agg);
        self.l.w.tx().from(Address::from(o)).to(Address::from(a)).whitebox(price_aggregator::contract_obj, |s| {
            use price_aggregator::storage::StorageModule;
            s.rounds_new(&ManagedBuffer::from(ticker), &ManagedBuffer::from("USD")).set(
                price_aggregator::structs::TimestampedPrice {
                    price: BigUint::from(price),
                    timestamp: s.blockchain().get_block_timestamp(),
                    round: 1,
                },
            );
        });
    }
    /// a Normal oracle read from the aggregator only
    pub fn oracle(&mut self, tok: &str, ticker: &str, dec: usize, stale: u64) {
        let (o, c, a) = (self.owner, self.c, self.agg);
        self.l.w.tx().from(Address::from(o)).to(Address::from(c)).whitebox(controller::contract_obj, |s| {
            use controller::storage::Storage;
            let id = if tok == "EGLD" { EgldOrEsdtTokenIdentifier::egld() } else { EgldOrEsdtTokenIdentifier::esdt(tok) };
            let _ = ticker;
            let d = |x: u64| ManagedDecimal::from_raw_units(BigUint::from(x), 4usize);
            s.token_oracle(&id).set(common_structs::OracleProvider {
                base_token_id: id.clone(),
                quote_token_id: EgldOrEsdtTokenIdentifier::egld(),
                tolerance: common_structs::OraclePriceFluctuation {
                    first_upper_ratio_bps: d(10200),
                    first_lower_ratio_bps: d(9800),
                    last_upper_ratio_bps: d(10500),
                    last_lower_ratio_bps: d(9500),
                },
                oracle_contract_address: ManagedAddress::new_from_bytes(&a),
                pricing_method: common_structs::PricingMethod::Aggregator,
                oracle_type: common_structs::OracleType::Normal,
                exchange_source: common_structs::ExchangeSource::XExchange,
                asset_decimals: dec,
                onedex_pair_id: 0,
                max_price_stale_seconds: if stale == 0 { 1 << 40 } else { stale },
            });
        });
    }
    pub fn pool(&mut self, tok: &str) -> [u8; 32] {
        let c = self.c;
        let r = self.l.query(c, "getPoolAddress", vec![tok.as_bytes().to_vec()]).unwrap();
        r[0].clone().try_into().unwrap()
    }
    /// opens (nonce 0) or tops up an account; returns its nonce
    pub fn supply(&mut self, who: [u8; 32], nonce: u64, tok: &str, amount: u128) -> Result<u64, String> {
        let c = self.c;
        if nonce == 0 {
            self.l.call(who, c, "supply", vec![], &[(tok, 0, amount)])?;
        } else {
            self.l.call(who, c, "supply", vec![n(nonce as u128)], &[(tok, 0, amount)])?;
        }
        Ok(u(&self.l.query(c, "getAccountNonce", vec![]).unwrap()[0]) as u64)
    }
    pub fn borrow(&mut self, who: [u8; 32], nonce: u64, tok: &str, amount: u128) -> Res {
        let c = self.c;
        self.l.call(who, c, "borrow", vec![payment(tok, amount)], &[(ACC, nonce, 1)])
    }
    pub fn withdraw(&mut self, who: [u8; 32], nonce: u64, tok: &str, amount: u128) -> Res {
        let c = self.c;
        self.l.call(who, c, "withdraw", vec![payment(tok, amount)], &[(ACC, nonce, 1)])
    }
    pub fn repay(&mut self, who: [u8; 32], nonce: u64, tok: &str, amount: u128) -> Res {
        let c = self.c;
        self.l.call(who, c, "repay", vec![n(nonce as u128)], &[(tok, 0, amount)])
    }
    pub fn liquidate(&mut self, who: [u8; 32], nonce: u64, pays: &[(&str, u128)]) -> Res {
        let c = self.c;
        let p: Vec<(&str, u64, u128)> = pays.iter().map(|(t, x)| (*t, 0u64, *x)).collect();
        self.l.call(who, c, "liquidate", vec![n(nonce as u128)], &p)
    }
    pub fn bal(&mut self, who: [u8; 32], tok: &str) -> u128 {
        self.l.bal(who, tok)
    }
    pub fn view(&mut self, f: &str, args: Args) -> u128 {
        let c = self.c;
        self.l.get(c, f, args)
    }
}
