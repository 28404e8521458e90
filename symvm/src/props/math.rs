//! Fixed-point arithmetic: half-up rounding, rescaling, signed variants, min / max.
use super::{Cfg, Prop};
use crate::engine::*;
use crate::env::*;
use crate::lib_ctx::*;
use crate::term::*;
use common_math::SharedMathModule;
use multiversx_sc::types::*;

fn obj() -> liquidity_layer::ContractObj<crate::vm::SymApi> {
    liquidity_layer::contract_obj::<crate::vm::SymApi>()
}

const AMAX: u32 = 45;

/// 2*q*d is within d of 2*n and q is the larger candidate on a tie:  q = floor((2n + d) / 2d)
fn is_half_up(q: T, n: T, d: T) -> B {
    // 2n - d < 2 q d <= 2n + d
    let two = k(2);
    let qd2 = mul(two, mul(q, d));
    let n2 = mul(two, n);
    and(&[lt(sub(n2, d), qd2), le(qd2, add(n2, d))])
}

fn mul_s(sa: u32, sb: u32, pr: u32) -> Scenario {
    Scenario::new(format!("mul_half_up {}x{}->{}", sa, sb, pr), move || {
        let a = var("a", 0, p10(AMAX), p10(sa) * 3);
        let b = var("b", 0, p10(AMAX), p10(sb) * 7 / 5);
        let r = lib("SharedMathModule::mul_half_up", || {
            let x = obj().mul_half_up(&md(a, sa as usize), &md(b, sb as usize), pr as usize);
            (tmd(&x), x.scale())
        });
        checkb("never fails", r.is_ok());
        if let Ok((q, sc)) = r {
            checkb("result precision", sc == pr as usize);
            observe("q", q);
            // operands are first brought to the target precision (truncated if it is lower)
            let up = |x: T, s: u32| if s <= pr { mul(x, k(p10(pr - s))) } else { div(x, k(p10(s - pr))) };
            check("product is the exact product rounded half up", is_half_up(q, mul(up(a, sa), up(b, sb)), k(p10(pr))));
            reach("multiplied");
        }
    })
}
fn div_s(sa: u32, sb: u32, pr: u32) -> Scenario {
    Scenario::new(format!("div_half_up {}/{}->{}", sa, sb, pr), move || {
        let a = var("a", 0, p10(AMAX), p10(sa) * 3);
        let b = var("b", 1, p10(AMAX), p10(sb) * 7 / 5);
        let r = lib("SharedMathModule::div_half_up", || {
            let x = obj().div_half_up(&md(a, sa as usize), &md(b, sb as usize), pr as usize);
            (tmd(&x), x.scale())
        });
        let up = |x: T, s: u32| if s <= pr { mul(x, k(p10(pr - s))) } else { div(x, k(p10(s - pr))) };
        let bb = up(b, sb);
        match r {
            Ok((q, sc)) => {
                checkb("result precision", sc == pr as usize);
                observe("q", q);
                // tie handling of the implementation: floor((n + floor(d/2)) / d)
                let n = mul(up(a, sa), k(p10(pr)));
                let qd2 = mul(k(2), mul(q, bb));
                let n2 = mul(k(2), n);
                check(
                    "quotient is the exact quotient rounded half up",
                    and(&[le(qd2, add(n2, bb)), lt(sub(n2, add(bb, k(1))), qd2)]),
                );
                reach("divided");
            }
            Err(_) => check("fails only on a zero divisor", eq(bb, k(0))),
        }
    })
}
fn rescale_s(from: u32, to: u32) -> Scenario {
    Scenario::new(format!("rescale_half_up {}->{}", from, to), move || {
        let a = var("a", 0, p10(AMAX), p10(from) * 3);
        let r = lib("SharedMathModule::rescale_half_up", || {
            let x = obj().rescale_half_up(&md(a, from as usize), to as usize);
            (tmd(&x), x.scale())
        });
        checkb("never fails", r.is_ok());
        if let Ok((q, sc)) = r {
            checkb("result precision", sc == to as usize);
            observe("q", q);
            if to >= from {
                check("upscaling is exact", eq(q, mul(a, k(p10(to - from)))));
            } else {
                check("downscaling rounds half up", is_half_up(q, a, k(p10(from - to))));
            }
            reach("rescaled");
        }
    })
}
fn sabs(x: T) -> T {
    max(x, neg(x))
}
fn mul_signed(neg_a: bool, neg_b: bool) -> Scenario {
    Scenario::new(format!("mul_half_up_signed {}{}", if neg_a { '-' } else { '+' }, if neg_b { '-' } else { '+' }), move || {
        let a0 = var("a", 0, p10(AMAX), p10(27) * 3);
        let b0 = var("b", 0, p10(AMAX), p10(27) * 7 / 5);
        let (a, b) = (if neg_a { neg(a0) } else { a0 }, if neg_b { neg(b0) } else { b0 });
        let r = lib("SharedMathModule::mul_half_up_signed", || {
            tmds(&obj().mul_half_up_signed(&mds(a, 27), &mds(b, 27), 27))
        });
        checkb("never fails", r.is_ok());
        if let Ok(q) = r {
            observe("q", q);
            let m = div_hu(mul(a0, b0), kray());
            let expect = if neg_a != neg_b { neg(m) } else { m };
            check("magnitude rounded half away from zero, sign of the product", eq(q, expect));
            let _ = sabs(q);
            reach("multiplied signed");
        }
    })
}
fn div_signed(neg_a: bool, neg_b: bool) -> Scenario {
    Scenario::new(format!("div_half_up_signed {}{}", if neg_a { '-' } else { '+' }, if neg_b { '-' } else { '+' }), move || {
        let a0 = var("a", 0, p10(AMAX), p10(27) * 3);
        let b0 = var("b", 1, p10(AMAX), p10(27) * 7 / 5);
        let (a, b) = (if neg_a { neg(a0) } else { a0 }, if neg_b { neg(b0) } else { b0 });
        let r = lib("SharedMathModule::div_half_up_signed", || {
            tmds(&obj().div_half_up_signed(&mds(a, 27), &mds(b, 27), 27))
        });
        checkb("never fails", r.is_ok());
        if let Ok(q) = r {
            observe("q", q);
            let m = div_hu(mul(a0, kray()), b0);
            let expect = if neg_a != neg_b { neg(m) } else { m };
            check("magnitude rounded half away from zero, sign of the quotient", eq(q, expect));
            reach("divided signed");
        }
    })
}
fn minmax() -> Scenario {
    Scenario::new("min max", || {
        let a = var("a", 0, p10(AMAX), 5);
        let b = var("b", 0, p10(AMAX), 9);
        let r = lib("SharedMathModule::min", || {
            let x = tmd(&obj().min(md(a, 27), md(b, 27)));
            let y = tmd(&obj().max(md(a, 27), md(b, 27)));
            (x, y)
        });
        checkb("never fails", r.is_ok());
        if let Ok((x, y)) = r {
            check("min", eq(x, min(a, b)));
            check("max", eq(y, max(a, b)));
            reach("compared");
        }
    })
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C01",
        scen: |c: &Cfg| {
            let mut v = vec![];
            let sc: &[(u32, u32, u32)] = &[(27, 27, 27), (18, 18, 27), (6, 18, 27), (27, 4, 27), (18, 4, 27), (0, 27, 27), (4, 4, 4), (18, 18, 18)];
            for (a, b, p) in sc {
                v.push(mul_s(*a, *b, *p));
                v.push(div_s(*a, *b, *p));
            }
            let down: &[(u32, u32)] = &[(27, 18), (27, 6), (27, 0), (18, 6), (27, 4), (18, 27), (6, 27), (18, 18), (6, 18)];
            for (f, t) in down {
                v.push(rescale_s(*f, *t));
            }
            if c.thorough {
                for a in [0u32, 2, 4, 6, 8, 9, 12, 18, 27] {
                    for b in [0u32, 2, 4, 6, 8, 9, 12, 18, 27] {
                        for p in [4u32, 18, 27] {
                            v.push(mul_s(a, b, p));
                            v.push(div_s(a, b, p));
                        }
                        v.push(rescale_s(a, b));
                    }
                }
            }
            for x in [false, true] {
                for y in [false, true] {
                    v.push(mul_signed(x, y));
                    v.push(div_signed(x, y));
                }
            }
            v.push(minmax());
            v
        },
        reach: &["multiplied", "divided", "rescaled", "multiplied signed", "divided signed", "compared"],
        bounds: "every operand in [0, 1e45] raw units (magnitude for the signed forms), the precisions the contracts use (0,4,6,18,27; the thorough run takes 9x9x3 combinations)",
        assumptions: &[],
    }]
}
