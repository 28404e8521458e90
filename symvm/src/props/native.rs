//! Markets in the chain's native coin (EGLD): calls carry it as plain value, the contracts name it
//! differently from any token, and its price in EGLD is one by definition.
use super::ctrl::{A, B, C};
use super::pool::{Flash, Op, OPS, OTHER, TOK};
use super::*;
use crate::engine::Scenario;

/// the scenarios of a property that are decided again with one of the markets in the native coin
pub fn native(id: &str, thorough: bool) -> Vec<Scenario> {
    let mut v = match id {
        "C06" => vec![pool::supply(18).native(TOK), pool::withdraw(18).native(TOK), pool::round_trip(18).native(TOK)],
        "C07" => vec![pool::borrow(18).native(TOK), pool::repay(18).native(TOK)],
        "C08" => vec![pool::liq_withdraw(18, true).native(TOK)],
        "C09" => vec![
            pool::flash(18, Flash::Pay).native(TOK),
            pool::flash(18, Flash::Nothing).native(TOK),
            pool::flash(18, Flash::WrongToken).native(TOK),
            pool::flash(18, Flash::WrongToken).native(OTHER),
            pool::flash(18, Flash::Two).native(OTHER),
        ],
        "C10" => vec![pool::strategy(18).native(TOK)],
        "C11" => vec![pool::dust(18).native(TOK)],
        "C12" => vec![pool::claim(18).native(TOK), pool::rewards(18).native(TOK)],
        "C14" => OPS.iter().map(|o| pool::ledger(*o, 18).native(TOK)).collect(),
        "C15" => [Op::Supply, Op::Repay, Op::AddRewards, Op::Flash, Op::Borrow, Op::Withdraw, Op::Strategy]
            .into_iter()
            .flat_map(|o| [pool::wrong_asset(o).native(TOK), pool::wrong_asset(o).native(OTHER)])
            .collect(),
        "C20" => vec![
            ctrl::borrow_one("first debt", &[], 18).native(B),
            ctrl::borrow_one("same token again", &[B], 18).native(B),
            ctrl::borrow_one("other debt held", &[C], 18).native(A),
            ctrl::borrow_bulk("two tokens", C, false).native(C),
            ctrl::borrow_later().native(A),
        ],
        "C21" => vec![
            ctrl::withdraw_one("no debt", 18, false, &[]).native(A),
            ctrl::withdraw_one("two deposits, one debt", 18, true, &[C]).native(A),
            ctrl::withdraw_two().native(A),
        ],
        "C22" => vec![ctrl::supply_cap(18, true).native(A), ctrl::supply_cap(18, false).native(A), ctrl::borrow_cap(18).native(B)],
        "C23" => vec![ctrl::iso_borrow().native(C), ctrl::iso_supply().native(A), live::iso_any().native(A)],
        "C24" => vec![ctrl::siloed().native(B)],
        "C25" => vec![ctrl::emode_supply().native(A), ctrl::emode_borrow().native(B)],
        "C26" => vec![ctrl::limits(true).native(A), ctrl::limits(false).native(C)],
        "C27" => vec![liq::healthy(false).native(A), liq::liquidatable().native(A)],
        "C28" => vec![
            liq::fixed("seizing the native coin", 930_000, 8000, 500, 18, 6).native(A),
            liq::fixed("repaying the native coin", 2_330_000, 8000, 500, 6, 18).native(B),
            liq::fixed_two("both debts paid", &[B, C], 2_650_000).native(C),
            liq::fixed_two("one debt paid twice", &[B, B], 2_650_000).native(C),
        ],
        "C30" => vec![liq::cleanup(1, 1, false).native(A)],
        "C33" => vec![access::flash(18).native(B)],
        "C34" => vec![ctrl::repay_one("by the owner", 18, true).native(B), ctrl::repay_one("by someone else", 18, false).native(B), ctrl::repay_foreign().native(C)],
        "C49" => vec![
            history::in_and_out(18, 6, 1).native(A),
            history::in_and_out(6, 18, 1).native(B),
            history::with_time(18).native(B),
            history::no_trace("isolated").native(A),
            history::no_trace("siloed").native(C),
        ],
        "C48" => vec![views::pool_views(18).native(TOK), views::foretold(6).native(A), views::foretold(18).native(B), views::read_only().native(C)],
        "C35" => vec![ctrl::threshold_update(true).native(A)],
        "C36" => vec![
            strategy::multiply("paying collateral", Some(A), 2, 18, 18).native(A),
            strategy::multiply("paying debt", Some(B), 3, 18, 18).native(B),
            strategy::multiply("paying another token", Some(C), 4, 18, 18).native(C),
            strategy::multiply("existing account", None, 2, 18, 18).native(A),
            strategy::swap_debt(true, 18, 18).native(C),
            strategy::swap_debt(true, 18, 18).native(B),
            strategy::swap_collateral(true, false).native(C),
            strategy::repay_with("in part", false, false).native(A),
            strategy::repay_with("and close", false, true).native(A),
        ],
        "C37" => vec![admin::owner_only(0, 8).native(A)],
        "C38" => vec![admin::create_pool(false).native("DDD-444444"), admin::edit_config().native(A)],
        "C39" => vec![admin::claim(&[A], 18).native(A), admin::reward().native(A)],
        "C45" => vec![
            live::borrow_any(&[], 18, true).native(B),
            live::withdraw_any(&[], 18).native(A),
            live::withdraw_any(&[B], 18).native(A),
            live::supply_any(true, 18, true).native(A),
            live::repay_any(false, false).native(A),
            live::flash_any(18).native(B),
        ],
        _ => vec![],
    };
    if thorough {
        match id {
            "C21" => v.push(ctrl::withdraw_one("two debts", 18, false, &[B, C]).native(B)),
            "C26" => v.push(ctrl::limits(false).native(A)),
            "C30" => v.push(liq::cleanup(1, 1, true).native(A)),
            "C36" => {
                v.push(strategy::multiply("ordinary account", None, 1, 18, 18).native(B));
                v.push(strategy::swap_collateral(true, true).native(C));
                v.push(strategy::repay_with("of the same token", true, false).native(A));
            }
            _ => {}
        }
    }
    v
}
