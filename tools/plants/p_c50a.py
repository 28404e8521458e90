ID = 'median-of-four-takes-upper'
PROP = 'C50'
EDITS = [('price_aggregator/src/median.rs', 'if len % 2 == 0 {', 'if len % 2 == 0 && len % 4 != 0 {')]
NEEDS = 'a quorum of four oracles whose middle two prices differ'
BREAKS = 'the published price is the upper of the middle two instead of their mean'
MAIN = r'''
mod lab;
use lab::*;
fn agg(count: u128, k: usize) -> (Lab, [u8; 32], Vec<[u8; 32]>) {
    let mut l = Lab::new();
    l.time(1_700_000_000);
    let owner = user("owner");
    let os: Vec<[u8; 32]> = (0..k).map(|i| user(&format!("oracle{}", i))).collect();
    for o in &os {
        l.account(*o, 0, &[]);
    }
    let mut args = vec![n(count)];
    args.extend(os.iter().map(|o| o.to_vec()));
    l.deploy("str:code-a", owner, sc("agg"), args);
    l.call(owner, sc("agg"), "unpause", vec![], &[]).unwrap();
    (l, sc("agg"), os)
}
fn submit(l: &mut Lab, a: [u8; 32], o: [u8; 32], price: u128) -> Res {
    l.call(o, a, "submit", vec![b"AAA".to_vec(), b"USD".to_vec(), n(1_700_000_000), n(price)], &[])
}
/// the published price (fourth of: round, from, to, timestamp, price)
fn price_now(l: &mut Lab, a: [u8; 32]) -> Option<u128> {
    let r = l.query(a, "latestPriceFeed", vec![b"AAA".to_vec(), b"USD".to_vec()]).ok()?;
    let b = &r[0];
    // round u32, two nested strings, timestamp u64, nested price
    Some(u(&b[4 + 4 + 3 + 4 + 3 + 8 + 4..]))
}

fn main() {
    let (mut l, a, os) = agg(4, 4);
    for (i, p) in [1000u128, 1300, 1100, 1900].iter().enumerate() {
        submit(&mut l, a, os[i], *p).unwrap();
    }
    let p = price_now(&mut l, a);
    println!("price {:?}", p);
    if p != Some(1200) {
        std::process::exit(1);
    }
}
'''
