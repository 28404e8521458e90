//! Driving library code (math, interest rates) directly, inside a pool's execution context.
#![cfg_attr(not(feature = "lib"), allow(dead_code, unused_imports))]
use crate::engine::*;
use crate::env::*;
use crate::term::*;
use crate::vm::*;
#[cfg(feature = "lib")]
use common_structs::MarketParams;
use multiversx_sc::types::*;

pub type Md = ManagedDecimal<SymApi, NumDecimals>;
pub type Mds = ManagedDecimalSigned<SymApi, NumDecimals>;

pub fn lib_addr() -> Addr {
    let a = sc_addr("lib");
    if !w(|w| w.accts.contains_key(&a)) {
        add_account(a, pool_kind(), user_addr("ctrl"), false);
        if w(|w| w.now_ms) == 0 {
            set_time_ms(T0);
        }
    }
    a
}
pub fn bu(t: T) -> BigUint<SymApi> {
    BigUint::from_bytes_be(&enc_u(t))
}
pub fn bi(t: T) -> BigInt<SymApi> {
    BigInt::from_signed_bytes_be(&enc_s(t))
}
pub fn md(t: T, d: usize) -> Md {
    ManagedDecimal::from_raw_units(bu(t), d)
}
pub fn mds(t: T, d: usize) -> Mds {
    ManagedDecimalSigned::from_raw_units(bi(t), d)
}
pub fn tb(b: &BigUint<SymApi>) -> T {
    dec_u(b.to_bytes_be().as_slice())
}
pub fn tmd(d: &Md) -> T {
    dec_u(d.into_raw_units().to_bytes_be().as_slice())
}
pub fn tmds(d: &Mds) -> T {
    dec_s(d.into_raw_units().to_signed_bytes_be().as_slice())
}
pub fn tok(t: &str) -> EgldOrEsdtTokenIdentifier<SymApi> {
    EgldOrEsdtTokenIdentifier::esdt(TokenIdentifier::from(t))
}
#[cfg(feature = "lib")]
pub fn mparams(p: &Params, token: &str) -> MarketParams<SymApi> {
    MarketParams {
        max_borrow_rate_ray: md(p.max, 27),
        base_borrow_rate_ray: md(p.base, 27),
        slope1_ray: md(p.s1, 27),
        slope2_ray: md(p.s2, 27),
        slope3_ray: md(p.s3, 27),
        mid_utilization_ray: md(p.mid, 27),
        optimal_utilization_ray: md(p.opt, 27),
        reserve_factor_bps: md(p.rf, 4),
        asset_id: tok(token),
        asset_decimals: p.dec as usize,
    }
}

/// runs library code as one call: a revert is returned, not propagated
pub fn lib<R>(name: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    let a = lib_addr();
    function_seen(name);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| in_context(a, f)));
    match r {
        Ok(v) => {
            outcome(format!("ok: {}", name));
            Ok(v)
        }
        Err(e) => {
            let m = match e.downcast::<Exit>() {
                Ok(e) => match *e {
                    Exit::Revert(m) => String::from_utf8_lossy(&m).to_string(),
                    other => std::panic::resume_unwind(Box::new(other)),
                },
                Err(e) => format!("panic: {}", panic_msg(&e)),
            };
            outcome(format!("revert: {}: {}", name, m));
            Err(m)
        }
    }
}
