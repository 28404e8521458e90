ID = 'strategy-debt-net-of-small-fee'
PROP = 'C10'
EDITS = [('liquidity_layer/src/liquidity.rs', '''        let scaled_amount_to_add = cache.calculate_scaled_borrow(strategy_amount);

        position.scaled_amount_ray += &scaled_amount_to_add;

        cache.borrowed_ray += scaled_amount_to_add;

        self.internal_add_protocol_revenue''', '''        let scaled_amount_to_add = cache.calculate_scaled_borrow(strategy_amount);

        position.scaled_amount_ray += &cache.calculate_scaled_borrow(&amount_to_send);

        cache.borrowed_ray += scaled_amount_to_add;

        self.internal_add_protocol_revenue''')]
NEEDS = 'a leveraged position opened with a fee'
BREAKS = 'the account owes less than the pool books, by the fee'
MAIN = r'''
mod lab;
use lab::*;
fn main() {
    for (fee, amount) in [(0u128, 100 * WAD), (WAD / 2, 100 * WAD), (100 * WAD, 100 * WAD)] {
        let mut l = Lab::new();
        let (c, p) = pool(&mut l, 18);
        l.call(c, p, "supply", vec![position(1, TOK, 0), price()], &[(TOK, 0, 1000 * WAD)]).unwrap();
        let r = l.call(c, p, "createStrategy", vec![position(2, TOK, 0), dec(amount, 18), dec(fee, 18), price()], &[]).unwrap();
        let owes = pos_scaled(&r[0]);
        println!("fee {} owes {}", fee, owes);
        if owes != amount * 1_000_000_000 {
            std::process::exit(1);
        }
    }
}
'''
