ID = 'removal-keeps-unreachable-quorum'
PROP = 'C51'
EDITS = [('price_aggregator/src/admin.rs', '        self.set_submission_count(submission_count);', '        if submission_count != self.submission_count().get() {\n            self.set_submission_count(submission_count);\n        }')]
NEEDS = 'removing oracles while leaving the quorum at a number larger than the oracles that remain'
BREAKS = 'the aggregator can never publish a price again'
MAIN = r'''
mod lab;
use lab::*;
fn agg(count: u128, k: usize) -> (Lab, [u8; 32], Vec<[u8; 32]>) {
    let mut l = Lab::new();
    l.time(1_700_000_000);
    let owner = user("owner");
    let os: Vec<[u8; 32]> = (0..k).map(|i| user(&format!("oracle{}", i))).collect();
    for o in &os {
        l.account(*o, 0, &[]);
    }
    let mut args = vec![n(count)];
    args.extend(os.iter().map(|o| o.to_vec()));
    l.deploy("str:code-a", owner, sc("agg"), args);
    l.call(owner, sc("agg"), "unpause", vec![], &[]).unwrap();
    (l, sc("agg"), os)
}
fn submit(l: &mut Lab, a: [u8; 32], o: [u8; 32], price: u128) -> Res {
    l.call(o, a, "submit", vec![b"AAA".to_vec(), b"USD".to_vec(), n(1_700_000_000), n(price)], &[])
}
/// the published price (fourth of: round, from, to, timestamp, price)
fn price_now(l: &mut Lab, a: [u8; 32]) -> Option<u128> {
    let r = l.query(a, "latestPriceFeed", vec![b"AAA".to_vec(), b"USD".to_vec()]).ok()?;
    let b = &r[0];
    // round u32, two nested strings, timestamp u64, nested price
    Some(u(&b[4 + 4 + 3 + 4 + 3 + 8 + 4..]))
}

fn main() {
    let (mut l, a, os) = agg(3, 3);
    let r = l.call(user("owner"), a, "removeOracles", vec![n(3), os[2].to_vec()], &[]);
    println!("two oracles, quorum three: {:?}", r.as_ref().map(|_| ()));
    if r.is_ok() {
        std::process::exit(1);
    }
    l.call(user("owner"), a, "removeOracles", vec![n(2), os[2].to_vec()], &[]).expect("quorum two");
}
'''
