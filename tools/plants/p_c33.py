ID = 'flash-loan-of-disabled-asset'
PROP = 'C33'
EDITS = [('controller/src/lib.rs', 'require!(asset_config.can_flashloan(), ERROR_FLASHLOAN_NOT_ENABLED);', 'require!(asset_config.can_flashloan() || asset_config.can_borrow(), ERROR_FLASHLOAN_NOT_ENABLED);')]
NEEDS = 'a flash loan of a market that is borrowable but switched off for flash loans'
BREAKS = 'the switch no longer protects the market'
MAIN = r'''
mod lab;
use lab::*;
const A: &str = "AAA-123456";
fn main() {
    for (on, dec) in [(true, 18usize), (false, 18), (false, 6)] {
        let mut a = market(A, WAD);
        a.flash = on;
        a.dec = dec;
        let mut k = Ctl::new(&[a]);
        k.l.account(user("bob"), 0, &[(A, 1000 * WAD)]);
        k.l.account(user("alice"), 0, &[]);
        k.supply(user("bob"), 0, A, 100 * WAD).unwrap();
        let o = k.owner;
        k.l.contract(sc("flash"), "str:code-f", o, &[(A, 100 * WAD)]);
        let c = k.c;
        let r = k.l.call(user("alice"), c, "flashLoan", vec![A.as_bytes().to_vec(), n(WAD), sc("flash").to_vec(), b"flash".to_vec(), vec![]], &[]);
        println!("enabled {} : {:?}", on, r.as_ref().map(|_| ()).map_err(|e| e.clone()));
        if on != r.is_ok() {
            std::process::exit(1);
        }
    }
}
'''
