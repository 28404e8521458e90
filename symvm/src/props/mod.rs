//! The properties: each is a set of scenarios over the real code.
use crate::engine::Scenario;

pub mod access;
pub mod admin;
pub mod aggregator;
pub mod aspects;
pub mod ctrl;
pub mod history;
pub mod liq;

pub mod live;
#[cfg(feature = "lib")]
pub mod math;
pub mod native;
pub mod oracle;
pub mod pool;
pub mod rates;
pub mod strategy;
pub mod views;
pub mod wide;

pub struct Cfg {
    pub thorough: bool,
}
pub struct Prop {
    pub id: &'static str,
    pub scen: fn(&Cfg) -> Vec<Scenario>,
    /// situations every complete run must have reached (vacuity guard)
    pub reach: &'static [&'static str],
    pub bounds: &'static str,
    pub assumptions: &'static [&'static str],
}
impl Prop {
    /// every scenario that decides the property
    pub fn scenarios(&self, cfg: &Cfg) -> Vec<crate::engine::Scenario> {
        let mut v = (self.scen)(cfg);
        v.extend(native::native(self.id, cfg.thorough));
        v.extend(wide::wide(self.id, cfg.thorough));
        v
    }
}
pub fn all() -> Vec<Prop> {
    let mut v = all_base();
    v.extend(aspects::props());
    v
}
fn all_base() -> Vec<Prop> {
    let mut v = vec![];
    #[cfg(feature = "lib")]
    v.extend(math::props());
    #[cfg(feature = "lib")]
    v.extend(rates::props());
    v.extend(pool::props());
    v.extend(ctrl::props());
    v.extend(liq::props());
    v.extend(live::props());
    v.extend(access::props());
    v.extend(views::props());
    v.extend(history::props());
    v.extend(strategy::props());
    v.extend(oracle::props());
    v.extend(admin::props());
    v.extend(aggregator::props());
    v
}
pub const COMMON_ASSUMPTIONS: &[&str] = &[
    "The host (big integers, storage, transfers, call semantics) is the symbolic VM of /verif/symvm, not the MultiversX node; the contract code and the framework library code above the host interface are the real ones.",
    "Native integers (u64 clocks, usize decimals, u8 ids) are concrete except elapsed time, which is symbolic where stated.",
];
