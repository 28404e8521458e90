//! Path exploration: the real contract code is re-executed once per path; every branch on a
//! symbolic value asks the SMT solver which sides are feasible, every `check` asks it for a
//! value of the inputs on this path that falsifies the property.
use crate::smt::{self, Answer, Kind, Mode, Solver};
use crate::term::*;
use num_bigint::BigInt;
use num_traits::{One, Signed, Zero};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::sync::atomic::{AtomicBool, Ordering as AO};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

/// Non-local exits of contract / scenario code.
pub enum Exit {
    Revert(Vec<u8>),
    Unsupported(String),
    PathEnd,
}

thread_local! {
    static ASPECT: std::cell::Cell<&'static str> = const { std::cell::Cell::new("") };
    static MUTED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// the aspect the running scenario is judged by ("" = its own checks)
pub fn aspect() -> &'static str {
    ASPECT.with(|x| x.get())
}
pub fn reset_aspect() {
    ASPECT.with(|x| x.set(""));
    MUTED.with(|x| x.set(false));
}
/// checks and reached situations inside `f` count although the scenario's own are muted
pub fn unmuted<R>(f: impl FnOnce() -> R) -> R {
    let was = MUTED.with(|x| x.replace(false));
    let r = f();
    MUTED.with(|x| x.set(was));
    r
}

pub type Body = Arc<dyn Fn() + Send + Sync>;
#[derive(Clone)]
pub struct Scenario {
    pub name: String,
    pub body: Body,
}
impl Scenario {
    pub fn new(name: impl Into<String>, f: impl Fn() + Send + Sync + 'static) -> Scenario {
        Scenario { name: name.into(), body: Arc::new(f) }
    }
    /// the same steps, judged by what every transaction must keep instead of by the scenario's own checks
    pub fn aspect(self, a: &'static str) -> Scenario {
        let body = self.body;
        Scenario {
            name: format!("{}: {}", a, self.name),
            body: Arc::new(move || {
                ASPECT.with(|x| x.set(a));
                MUTED.with(|x| x.set(true));
                body()
            }),
        }
    }
    /// the same, with one of its tokens being the chain's native coin
    pub fn native(self, t: &'static str) -> Scenario {
        let body = self.body;
        Scenario {
            name: format!("{} [{} is the native coin]", self.name, t),
            body: Arc::new(move || {
                crate::vm::set_native(t);
                body()
            }),
        }
    }
}

#[derive(Clone)]
pub struct WorkItem {
    pub scenario: usize,
    pub prefix: Vec<u8>,
    pub model: Option<Model>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub scenario: String,
    pub check: String,
    pub model: Model,
    pub notes: Vec<String>,
}

#[derive(Default, Clone, Debug)]
pub struct Obl {
    pub discharged: u64,
    pub trivial: u64,
    pub undecided: u64,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub reverted: u64,
    pub infeasible: u64,
    pub decisions: u64,
    pub feas_queries: u64,
    pub feas_unknown: u64,
    pub obl_queries: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub solver_ms: u64,
    pub max_query_ms: u64,
    pub wins: BTreeMap<String, u64>,
    pub obls: BTreeMap<String, Obl>,
    pub reached: BTreeMap<String, (String, Model)>,
    pub reached_in: BTreeMap<String, std::collections::BTreeSet<String>>,
    pub reverts: BTreeMap<String, u64>,
    pub functions: BTreeSet<String>,
    pub unsupported: BTreeMap<String, u64>,
    pub harness_errors: BTreeMap<String, u64>,
    pub undecided: BTreeSet<String>,
    pub dropped: u64,
    pub traces: u64,
    pub trace_mismatch: Vec<String>,
    pub samples: Vec<String>,
    pub per_scenario: BTreeMap<String, u64>,
    pub audit: Audit,
}
/// conclusions of the normaliser and of interval reasoning, put to the solver
#[derive(Default, Clone, Debug)]
pub struct Audit {
    pub kinds: BTreeMap<String, (u64, u64, u64)>, // asked, confirmed, undecided
    pub beyond_budget: u64,
    pub refuted: Vec<String>,
    pub ms: u64,
}

pub struct Shared {
    pub scenarios: Vec<Scenario>,
    pub queue: Mutex<(VecDeque<WorkItem>, usize)>,
    pub cv: Condvar,
    pub stats: Mutex<Stats>,
    pub violations: Mutex<Vec<Violation>>,
    pub stop: AtomicBool,
    pub deadline: Instant,
    pub opts: Opts,
    pub known: Vec<String>,
    pub audited: Mutex<HashSet<u64>>,
}

#[derive(Clone)]
pub struct Opts {
    pub threads: usize,
    pub wall: Duration,
    pub feas_ms: u64,
    pub obl_ms: u64,
    pub max_paths: u64,
    pub keep_going: bool,
    pub thorough: bool,
    pub verbose: bool,
    /// solver time for the audit, all threads together
    pub audit_ms: u64,
}

#[derive(Default)]
pub struct PathCtx {
    pub concrete: Option<Model>,
    pub concrete_fail: Vec<String>,
    pub item: Option<WorkItem>,
    pub pc: Vec<B>,
    pub pcset: HashSet<B>,
    pub taken: Vec<u8>,
    pub model: Option<Model>,
    pub hints: Model,
    pub declared: Vec<String>,
    pub new_items: Vec<WorkItem>,
    pub cands: Vec<Violation>,
    pub notes: Vec<String>,
    pub shared: Option<Arc<Shared>>,
    pub failed_once: HashSet<String>,
    pub decisions: u64,
    pub values: Vec<(String, T)>, // observations compared between symbolic and concrete run
    pub concrete_values: Vec<(String, Option<BigInt>)>,
    pub query_cache: HashMap<Vec<B>, bool>,
    pub outcome: Vec<String>,
    pub feas_ms: Option<u64>,
    pub pruned: bool,
}

thread_local! {
    pub static P: RefCell<PathCtx> = RefCell::new(PathCtx::default());
    static SOLVERS: RefCell<HashMap<Kind, Solver>> = RefCell::new(HashMap::new());
}

fn shared() -> Arc<Shared> {
    P.with(|p| p.borrow().shared.clone().expect("no exploration active"))
}
fn stats<R>(f: impl FnOnce(&mut Stats) -> R) -> R {
    let s = shared();
    let mut g = s.stats.lock().unwrap();
    f(&mut g)
}

fn is_concrete() -> bool {
    P.with(|p| p.borrow().concrete.is_some())
}

pub fn exit(e: Exit) -> ! {
    std::panic::panic_any(e)
}
pub fn unsupported(m: impl Into<String>) -> ! {
    exit(Exit::Unsupported(m.into()))
}
pub fn note(m: impl Into<String>) {
    P.with(|p| p.borrow_mut().notes.push(m.into()))
}
pub fn function_seen(m: &str) {
    P.with(|p| {
        let p = p.borrow();
        if p.concrete.is_some() {
            return;
        }
        if let Some(s) = &p.shared {
            let mut g = s.stats.lock().unwrap();
            if !g.functions.contains(m) {
                g.functions.insert(m.to_string());
            }
        }
    })
}

// ------------------------------------------------------------------ variables
pub fn var(name: &str, lo: impl Into<BigInt>, hi: impl Into<BigInt>, hint: impl Into<BigInt>) -> T {
    let (lo, hi, hint) = (lo.into(), hi.into(), hint.into());
    assert!(lo <= hi, "empty range for {}", name);
    let hint = if hint < lo { lo.clone() } else if hint > hi { hi.clone() } else { hint };
    if lo == hi {
        return k(lo);
    }
    let conc = P.with(|p| {
        let mut p = p.borrow_mut();
        if let Some(m) = &p.concrete {
            return Some(m.get(name).cloned().unwrap_or(hint.clone()));
        }
        if !p.declared.iter().any(|x| x == name) {
            p.declared.push(name.to_string());
        }
        p.hints.insert(name.to_string(), hint.clone());
        if let Some(m) = p.model.as_mut() {
            m.entry(name.to_string()).or_insert(hint.clone());
        }
        None
    });
    if let Some(c) = conc {
        return k(c);
    }
    with(|a| a.var(name, Some(lo), Some(hi)))
}

pub fn eval_t(t: T) -> Option<BigInt> {
    if let Some(c) = as_const(t) {
        return Some(c);
    }
    P.with(|p| {
        let p = p.borrow();
        let m = p.model.as_ref()?;
        with(|a| Evaluator::new(m).t(a, t))
    })
}
fn eval_b_with(m: &Model, b: B) -> Option<bool> {
    with(|a| Evaluator::new(m).b(a, b))
}

// ------------------------------------------------------------------ path condition
/// one round of bound propagation from an atom that holds on the path
fn propagate(b: B) -> bool {
    with(|a| {
        let n = a.bnodes[b.0 as usize].clone();
        match n {
            BNode::Le0(t) => prop_le0(a, t),
            BNode::Eq0(t) => {
                let nt = a.scale(t, &-BigInt::one());
                prop_le0(a, t) && prop_le0(a, nt)
            }
            BNode::And(v) => {
                for x in v {
                    if let BNode::Le0(t) = a.bnodes[x.0 as usize].clone() {
                        if !prop_le0(a, t) {
                            return false;
                        }
                    }
                }
                true
            }
            _ => true,
        }
    })
}
fn tighten(a: &mut Arena, t: T, lo: Option<BigInt>, hi: Option<BigInt>) -> bool {
    let iv = &mut a.iv[t.0 as usize];
    if let Some(l) = lo {
        if iv.0.as_ref().map_or(true, |x| *x < l) {
            iv.0 = Some(l);
        }
    }
    if let Some(h) = hi {
        if iv.1.as_ref().map_or(true, |x| *x > h) {
            iv.1 = Some(h);
        }
    }
    if let (Some(l), Some(h)) = (&iv.0, &iv.1) {
        if l > h {
            return false;
        }
    }
    true
}
fn prop_le0(a: &mut Arena, t: T) -> bool {
    use num_integer::Integer;
    // the term itself and its negation
    if !tighten(a, t, None, Some(BigInt::zero())) {
        return false;
    }
    let nt = a.scale(t, &-BigInt::one());
    if !tighten(a, nt, Some(BigInt::zero()), None) {
        return false;
    }
    // also the constant-free part, which is how differences are usually read back
    if let Node::Sum(v, c) = a.nodes[t.0 as usize].clone() {
        if !c.is_zero() {
            let s = {
                let ck = a.konst(c.clone());
                a.lin(t, &BigInt::one(), ck, &-BigInt::one())
            };
            if !tighten(a, s, None, Some(-c.clone())) {
                return false;
            }
            let ns = a.scale(s, &-BigInt::one());
            if !tighten(a, ns, Some(c.clone()), None) {
                return false;
            }
        }
        for i in 0..v.len() {
            // k_i x_i <= -c - sum_{j != i} lo(k_j x_j)
            let mut rhs = Some(-c.clone());
            for j in 0..v.len() {
                if i == j {
                    continue;
                }
                let (l, h) = &a.iv[v[j].0 .0 as usize];
                let b = if v[j].1.is_positive() { l } else { h };
                rhs = match (rhs, b) {
                    (Some(r), Some(b)) => Some(r - b * &v[j].1),
                    _ => None,
                };
            }
            if let Some(r) = rhs {
                let kf = &v[i].1;
                let ok = if kf.is_positive() {
                    tighten(a, v[i].0, None, Some(r.div_floor(kf)))
                } else {
                    // x >= ceil(r / k)  with k<0:  x >= -(r / -k) rounded up
                    let m = -kf.clone();
                    tighten(a, v[i].0, Some(-(r.div_floor(&m))), None)
                };
                if !ok {
                    return false;
                }
            }
        }
    }
    true
}

fn push_pc(b: B) {
    let fresh = P.with(|p| {
        let mut p = p.borrow_mut();
        if p.pcset.insert(b) {
            p.pc.push(b);
            true
        } else {
            false
        }
    });
    if fresh && !propagate(b) {
        P.with(|p| p.borrow_mut().pruned = true);
        exit(Exit::PathEnd);
    }
    if fresh {
        // conjunctions are stored as one atom; make their members known too
        let parts = with(|a| match &a.bnodes[b.0 as usize] {
            BNode::And(v) => v.clone(),
            _ => vec![],
        });
        P.with(|p| {
            let mut p = p.borrow_mut();
            for x in parts {
                p.pcset.insert(x);
            }
        });
    }
}

fn known(b: B) -> Option<bool> {
    if let Some(x) = bconst(b) {
        return Some(x);
    }
    let nb = not(b);
    P.with(|p| {
        let p = p.borrow();
        if p.pcset.contains(&b) {
            Some(true)
        } else if p.pcset.contains(&nb) {
            Some(false)
        } else {
            None
        }
    })
    .or_else(|| {
        // re-fold with the tightened bounds
        let n = with(|a| a.bnodes[b.0 as usize].clone());
        let r = match n {
            BNode::Le0(t) => with(|a| a.le0(t)),
            BNode::Eq0(t) => with(|a| a.eq0(t)),
            BNode::Not(x) => {
                let n2 = with(|a| a.bnodes[x.0 as usize].clone());
                match n2 {
                    BNode::Eq0(t) => {
                        let e = with(|a| a.eq0(t));
                        not(e)
                    }
                    _ => b,
                }
            }
            _ => b,
        };
        bconst(r)
    })
}

// ------------------------------------------------------------------ solving
fn run_solver(kind: Kind, sc: &smt::Script, ms: u64, want: bool) -> Answer {
    let t0 = Instant::now();
    let r = SOLVERS.with(|s| {
        let mut s = s.borrow_mut();
        let sv = s.entry(kind).or_insert_with(|| Solver::new(kind));
        sv.query(sc, Duration::from_millis(ms), want)
    });
    let el = t0.elapsed().as_millis() as u64;
    stats(|s| {
        s.solver_ms += el;
        s.max_query_ms = s.max_query_ms.max(el);
    });
    r
}

/// Sat(model of all declared vars) / Unsat / Unknown for  pc ∧ extra.
fn solve(extra: &[B], budget_ms: u64, feas: bool) -> Answer {
    let (pc, base) = P.with(|p| {
        let p = p.borrow();
        (p.pc.clone(), p.model.clone())
    });
    let asserts = with(|a| {
        if base.is_some() {
            smt::slice(a, &pc, extra)
        } else {
            let mut v = pc.clone();
            v.extend(extra);
            v.sort();
            v.dedup();
            v
        }
    });
    let full = |m: Model| -> Option<Model> {
        let mut out = P.with(|p| p.borrow().hints.clone());
        if let Some(b) = &base {
            for (n, v) in b {
                out.insert(n.clone(), v.clone());
            }
        }
        for (n, v) in m {
            out.insert(n, v);
        }
        // the evaluator is the arbiter: the model must satisfy everything
        let ok = with(|a| {
            let mut e = Evaluator::new(&out);
            pc.iter().chain(extra.iter()).all(|b| e.b(a, *b) == Some(true))
        });
        if ok {
            Some(out)
        } else {
            None
        }
    };
    let plain = with(|a| smt::script(a, &asserts, Mode::Plain));
    let mut plan: Vec<(Kind, Mode, u64)> = vec![];
    if !plain.nonlinear {
        plan.push((Kind::Z3New, Mode::Plain, budget_ms.min(1500)));
        plan.push((Kind::Z3Old, Mode::Plain, budget_ms.min(3000)));
        plan.push((Kind::Z3New, Mode::Plain, budget_ms));
        plan.push((Kind::Cvc5, Mode::Plain, budget_ms));
    } else if feas {
        plan.push((Kind::Z3New, Mode::Linear, 400));
        plan.push((Kind::Z3New, Mode::Plain, budget_ms.min(500)));
        plan.push((Kind::Z3New, Mode::Lemmas, budget_ms));
        plan.push((Kind::Z3Old, Mode::Plain, budget_ms));
    } else {
        plan.push((Kind::Z3New, Mode::Linear, 1000));
        plan.push((Kind::Z3New, Mode::Plain, 1000));
        plan.push((Kind::Z3New, Mode::Lemmas, 2000));
        plan.push((Kind::Z3Old, Mode::Plain, budget_ms.min(3000)));
        plan.push((Kind::Cvc5, Mode::Lemmas, budget_ms));
        plan.push((Kind::Z3New, Mode::Plain, budget_ms));
        plan.push((Kind::Z3New, Mode::Lemmas, budget_ms));
        plan.push((Kind::Z3Old, Mode::Lemmas, budget_ms));
    }
    let mut last = String::new();
    for (kind, mode, ms) in plan {
        if out_of_time() {
            last = "deadline".into();
            break;
        }
        let sc2;
        let sc = if mode == Mode::Plain {
            &plain
        } else {
            sc2 = with(|a| smt::script(a, &asserts, mode));
            &sc2
        };
        match run_solver(kind, sc, ms, mode != Mode::Linear) {
            Answer::Unsat => {
                stats(|s| {
                    s.unsat += 1;
                    *s.wins.entry(format!("{:?}/{:?}/unsat", kind, mode)).or_default() += 1;
                });
                return Answer::Unsat;
            }
            Answer::Sat(m) => {
                if mode == Mode::Linear {
                    continue;
                }
                match full(m) {
                    Some(m) => {
                        stats(|s| {
                            s.sat += 1;
                            *s.wins.entry(format!("{:?}/{:?}/sat", kind, mode)).or_default() += 1;
                        });
                        return Answer::Sat(m);
                    }
                    None => last = "model rejected by the evaluator".into(),
                }
            }
            Answer::Unknown(e) => last = e,
        }
    }
    // witness search by pinning variables (a SAT answer is still checked by the evaluator)
    if plain.nonlinear {
        if let Some(m) = pin_search(&asserts, if feas { 300 } else { 800 }) {
            if let Some(m) = full(m) {
                stats(|s| {
                    s.sat += 1;
                    *s.wins.entry("pinned/sat".into()).or_default() += 1;
                });
                return Answer::Sat(m);
            }
        }
    }
    stats(|s| s.unknown += 1);
    Answer::Unknown(last)
}

/// linearise by fixing every variable occurring in a product to a candidate value except one
fn pin_search(asserts: &[B], ms: u64) -> Option<Model> {
    let base = P.with(|p| {
        let p = p.borrow();
        let mut h = p.hints.clone();
        if let Some(m) = &p.model {
            for (k, v) in m {
                h.insert(k.clone(), v.clone());
            }
        }
        h
    });
    let names: Vec<String> = with(|a| smt::script(a, asserts, Mode::Plain).vars);
    if names.len() > 24 {
        return None;
    }
    for free in 0..names.len() {
        if out_of_time() {
            return None;
        }
        // pin all but `free` to the base values
        let mut ex = asserts.to_vec();
        for (i, n) in names.iter().enumerate() {
            if i == free {
                continue;
            }
            if let Some(v) = base.get(n) {
                let b = with(|a| {
                    let vi = a.varmap[n.as_str()];
                    let t = a.map[&Node::Var(vi)];
                    let c = a.konst(-v.clone());
                    let d = a.lin(t, &BigInt::one(), c, &BigInt::one());
                    a.eq0(d)
                });
                if bconst(b) == Some(false) {
                    continue;
                }
                ex.push(b);
            }
        }
        let sc = with(|a| smt::script(a, &ex, Mode::Plain));
        if let Answer::Sat(m) = run_solver(Kind::Z3New, &sc, ms, true) {
            return Some(m);
        }
    }
    None
}

fn out_of_time() -> bool {
    P.with(|p| match &p.borrow().shared {
        Some(s) => Instant::now() >= s.deadline,
        None => false,
    })
}

fn cond_list(b: &[B]) -> Vec<B> {
    b.to_vec()
}

/// A model of the path condition and `b` near the path's own model, if a quick local search finds
/// one: it saves a satisfiable feasibility query, and never decides anything else.
fn witness(b: B) -> Option<Model> {
    let (base, pc) = P.with(|p| {
        let p = p.borrow();
        (p.model.clone(), p.pc.clone())
    });
    let base = base?;
    let mut names: Vec<(String, BigInt, BigInt)> = with(|a| {
        let mut v = vec![];
        for x in 0..a.vars.len() {
            let t = a.map[&Node::Var(x as u32)];
            let (lo, hi) = a.iv[t.0 as usize].clone();
            if let (Some(lo), Some(hi)) = (lo, hi) {
                v.push((a.vars[x].name.clone(), lo, hi));
            }
        }
        v
    });
    names.retain(|(n, lo, hi)| base.contains_key(n) && lo < hi);
    if names.is_empty() {
        return None;
    }
    let start = Instant::now();
    let mut seed: u64 = 0x9e3779b97f4a7c15 ^ (pc.len() as u64) << 7 ^ b.0 as u64;
    let mut rnd = move || {
        seed ^= seed << 13;
        seed ^= seed >> 7;
        seed ^= seed << 17;
        seed
    };
    for _ in 0..60 {
        if start.elapsed().as_millis() > 25 {
            break;
        }
        let mut m = base.clone();
        let many = 1 + (rnd() % 2) as usize;
        for _ in 0..many {
            let (n, lo, hi) = &names[rnd() as usize % names.len()];
            let cur = m[n].clone();
            let v: BigInt = match rnd() % 4 {
                0 => lo + (hi - lo) * BigInt::from(rnd() % 1_000_001) / BigInt::from(1_000_000),
                1 => {
                    let d = BigInt::from(1 + rnd() % 1000);
                    if rnd() % 2 == 0 { cur + d } else { cur - d }
                }
                2 => {
                    let d = (hi - lo) / BigInt::from(1u64 << (1 + rnd() % 60)) + 1;
                    if rnd() % 2 == 0 { cur + d } else { cur - d }
                }
                _ => {
                    if rnd() % 2 == 0 { lo.clone() } else { hi.clone() }
                }
            };
            if &v >= lo && &v <= hi {
                m.insert(n.clone(), v);
            }
        }
        let ok = with(|a| {
            let mut e = Evaluator::new(&m);
            e.b(a, b) == Some(true) && pc.iter().all(|x| e.b(a, *x) == Some(true))
        });
        if ok {
            return Some(m);
        }
    }
    None
}

// ------------------------------------------------------------------ branching
/// `opts` are mutually exclusive and exhaustive on the current path.
pub fn decide(opts: &[B]) -> usize {
    let mut live: Vec<usize> = vec![];
    for (i, o) in opts.iter().enumerate() {
        match known(*o) {
            Some(true) => return i,
            Some(false) => {}
            None => live.push(i),
        }
    }
    if live.len() == 1 {
        return live[0];
    }
    if live.is_empty() {
        exit(Exit::PathEnd);
    }
    if is_concrete() {
        unsupported("symbolic branch in concrete run");
    }
    P.with(|p| p.borrow_mut().decisions += 1);
    // replay of the prefix
    let pre = P.with(|p| {
        let p = p.borrow();
        let i = p.taken.len();
        p.item.as_ref().and_then(|it| it.prefix.get(i).cloned())
    });
    if let Some(c) = pre {
        P.with(|p| p.borrow_mut().taken.push(c));
        if opts.len() <= c as usize {
            unsupported("nondeterministic replay");
        }
        push_pc(opts[c as usize]);
        return c as usize;
    }
    let model = P.with(|p| p.borrow().model.clone());
    let mut mine: Option<usize> = None;
    if let Some(m) = &model {
        for i in &live {
            if eval_b_with(m, opts[*i]) == Some(true) {
                mine = Some(*i);
                break;
            }
        }
    }
    let feas_ms = feas_limit();
    let mut feasible: Vec<(usize, Option<Model>)> = vec![];
    for i in &live {
        if Some(*i) == mine {
            feasible.push((*i, model.clone()));
            continue;
        }
        if let Some(m) = witness(opts[*i]) {
            feasible.push((*i, Some(m)));
            continue;
        }
        stats(|s| s.feas_queries += 1);
        match solve(&cond_list(&[opts[*i]]), feas_ms, true) {
            Answer::Sat(m) => feasible.push((*i, Some(m))),
            Answer::Unsat => {}
            Answer::Unknown(_) => {
                if std::env::var("SYMVM_UNKNOWN").is_ok() {
                    eprintln!("UNKNOWN {}", callers());
                }
                stats(|s| s.feas_unknown += 1);
                feasible.push((*i, None))
            }
        }
    }
    if feasible.is_empty() {
        exit(Exit::PathEnd);
    }
    // continue on the model's side if there is one, else on the first feasible side
    let pos = feasible
        .iter()
        .position(|(i, _)| Some(*i) == mine)
        .or_else(|| feasible.iter().position(|(_, m)| m.is_some()))
        .unwrap_or(0);
    let (ci, cm) = feasible.remove(pos);
    let only = feasible.is_empty();
    P.with(|p| {
        let mut p = p.borrow_mut();
        let scen = p.item.as_ref().unwrap().scenario;
        for (i, m) in feasible {
            let mut prefix = p.taken.clone();
            prefix.push(i as u8);
            p.new_items.push(WorkItem { scenario: scen, prefix, model: m });
        }
        p.taken.push(ci as u8);
        p.model = cm;
    });
    let _ = only;
    push_pc(opts[ci]);
    ci
}

/// Time budget (ms) of each branch-feasibility query for the rest of this path. A query that
/// gives no answer keeps the branch, so a small budget costs precision of the path count only.
pub fn feas_budget(ms: u64) {
    P.with(|p| p.borrow_mut().feas_ms = Some(ms));
}
fn feas_limit() -> u64 {
    P.with(|p| p.borrow().feas_ms).unwrap_or_else(|| shared().opts.feas_ms)
}

pub fn fork(b: B) -> bool {
    match known(b) {
        Some(x) => return x,
        None => {}
    }
    let nb = not(b);
    decide(&[b, nb]) == 0
}

pub fn assume(b: B) {
    match known(b) {
        Some(true) => return,
        Some(false) => {
            if is_concrete() {
                P.with(|p| p.borrow_mut().concrete_fail.push("__assumption_false".into()));
            }
            exit(Exit::PathEnd)
        }
        None => {}
    }
    if is_concrete() {
        unsupported("symbolic assume in concrete run");
    }
    let replaying = P.with(|p| {
        let p = p.borrow();
        p.item.as_ref().map_or(false, |it| p.taken.len() < it.prefix.len())
    });
    let m = P.with(|p| p.borrow().model.clone());
    let sat = m.as_ref().and_then(|m| eval_b_with(m, b));
    if sat != Some(true) && !replaying {
        stats(|s| s.feas_queries += 1);
        let ms = feas_limit();
        match solve(&[b], ms * 2, true) {
            Answer::Sat(m) => P.with(|p| p.borrow_mut().model = Some(m)),
            Answer::Unsat => exit(Exit::PathEnd),
            Answer::Unknown(_) => {
                stats(|s| s.feas_unknown += 1);
                P.with(|p| p.borrow_mut().model = None)
            }
        }
    }
    push_pc(b);
}

// ------------------------------------------------------------------ properties
pub fn check(name: &str, cond: B) {
    if MUTED.with(|x| x.get()) {
        return;
    }
    if is_concrete() {
        match bconst(cond) {
            Some(true) => {}
            Some(false) => P.with(|p| p.borrow_mut().concrete_fail.push(name.to_string())),
            None => unsupported("symbolic check in concrete run"),
        }
        return;
    }
    // obligations met while replaying a prefix belong to an already explored path
    let replaying = P.with(|p| {
        let p = p.borrow();
        p.item.as_ref().map_or(false, |it| p.taken.len() < it.prefix.len())
    });
    if replaying {
        return;
    }
    if P.with(|p| p.borrow().failed_once.contains(name)) {
        return;
    }
    match known(cond) {
        Some(true) => {
            stats(|s| s.obls.entry(name.into()).or_default().trivial += 1);
            return;
        }
        _ => {}
    }
    let model = P.with(|p| p.borrow().model.clone());
    let bad = not(cond);
    if let Some(m) = &model {
        if eval_b_with(m, cond) == Some(false) {
            candidate(name, m.clone());
            return;
        }
    }
    stats(|s| s.obl_queries += 1);
    let ms = shared().opts.obl_ms;
    // a conjunction is proved member by member, a failing member is the witness
    let parts = with(|a| match &a.bnodes[cond.0 as usize] {
        BNode::And(v) => v.clone(),
        _ => vec![cond],
    });
    let _ = bad;
    let mut undecided = false;
    for c in parts {
        if known(c) == Some(true) {
            continue;
        }
        match solve(&[not(c)], ms, false) {
            Answer::Unsat => {}
            Answer::Sat(m) => {
                candidate(name, m);
                return;
            }
            Answer::Unknown(_) => undecided = true,
        }
    }
    let dl = out_of_time();
    stats(|s| {
        let o = s.obls.entry(name.into()).or_default();
        if undecided {
            o.undecided += 1;
        } else {
            o.discharged += 1;
        }
    });
    if undecided {
        let sn = scenario_name();
        let notes = P.with(|p| p.borrow().notes.join("; "));
        stats(|s| {
            s.undecided.insert(format!("{} @ {} [{}]{}", name, sn, notes, if dl { " (deadline)" } else { "" }));
        });
    }
}
/// prove, then use
pub fn lemma(name: &str, cond: B) {
    check(name, cond);
    if !is_concrete() && known(cond) != Some(true) {
        let ok = P.with(|p| !p.borrow().failed_once.contains(name));
        if ok {
            push_pc(cond);
        }
    }
}

fn scenario_name() -> String {
    P.with(|p| {
        let p = p.borrow();
        let i = p.item.as_ref().map(|i| i.scenario).unwrap_or(0);
        p.shared.as_ref().map(|s| s.scenarios[i].name.clone()).unwrap_or_default()
    })
}

fn candidate(name: &str, m: Model) {
    let sn = scenario_name();
    P.with(|p| {
        let mut p = p.borrow_mut();
        p.failed_once.insert(name.to_string());
        let notes = p.notes.clone();
        p.cands.push(Violation { scenario: sn, check: name.to_string(), model: m, notes });
    });
}
pub fn fail(name: &str) {
    check(name, fls());
}
pub fn checkb(name: &str, ok: bool) {
    check(name, bool_b(ok));
}

/// vacuity witness
pub fn reach(name: &str) {
    if is_concrete() || MUTED.with(|x| x.get()) {
        return;
    }
    let sn = scenario_name();
    let m = P.with(|p| p.borrow().model.clone());
    // only a path with a verified model counts as a witness
    if let Some(m) = m {
        stats(|s| {
            s.reached_in.entry(sn.clone()).or_default().insert(name.to_string());
            s.reached.entry(name.to_string()).or_insert((sn, m));
        });
    }
}
/// value compared between the symbolic run (evaluated under the path's model) and the concrete
/// re-execution of the same code on that model
pub fn observe(name: &str, t: T) {
    P.with(|p| {
        let mut p = p.borrow_mut();
        if p.concrete.is_some() {
            let v = as_const(t);
            p.concrete_values.push((name.to_string(), v));
        } else {
            p.values.push((name.to_string(), t));
        }
    })
}
pub fn outcome(s: String) {
    P.with(|p| p.borrow_mut().outcome.push(s));
}

// ------------------------------------------------------------------ audit
/// Everything concluded on this path without the solver, put to it: from the path condition and the
/// declared bounds of the variables alone, each conclusion must follow.
fn audit(sh: &Arc<Shared>) {
    let facts = with(|a| a.audit.take()).unwrap_or_default();
    let (pc, pruned) = P.with(|p| {
        let p = p.borrow();
        (p.pc.clone(), p.pruned)
    });
    let mut todo: Vec<(&str, Option<B>)> = facts.into_iter().map(|(n, b)| (n, Some(b))).collect();
    if pruned {
        todo.insert(0, ("infeasible path", None));
    }
    let mut seen: HashSet<B> = HashSet::new();
    for (kind, fact) in todo {
        if fact.map_or(false, |f| !seen.insert(f)) {
            continue;
        }
        let spent = stats(|s| s.audit.ms);
        if spent >= sh.opts.audit_ms || out_of_time() {
            stats(|s| s.audit.beyond_budget += 1);
            continue;
        }
        let asserts = with(|a| {
            let mut v: Vec<B> = vec![];
            if let Some(f) = fact {
                let n = a.badd(BNode::Not(f));
                v.push(n);
                v = smt::slice(a, &pc, &v);
            } else {
                v = pc.clone();
            }
            v
        });
        let sc = with(|a| smt::script(a, &asserts, Mode::Audit));
        {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            std::hash::Hash::hash(&sc.text, &mut h);
            if !sh.audited.lock().unwrap().insert(std::hash::Hasher::finish(&h)) {
                continue;
            }
        }
        let t0 = Instant::now();
        let mut r = run_solver(Kind::Z3New, &sc, 250, true);
        if matches!(r, Answer::Unknown(_)) {
            r = run_solver(Kind::Z3Old, &sc, 250, true);
        }
        let ms = t0.elapsed().as_millis() as u64;
        stats(|s| {
            s.audit.ms += ms;
            let k = s.audit.kinds.entry(kind.into()).or_default();
            k.0 += 1;
            match &r {
                Answer::Unsat => k.1 += 1,
                Answer::Unknown(_) => k.2 += 1,
                Answer::Sat(m) => {
                    if s.audit.refuted.len() < 5 {
                        s.audit.refuted.push(format!("{} on a path of {}: {}", kind, scenario_name_of(sh), fmt_model(m)));
                        if let Ok(d) = std::env::var("SYMVM_AUDIT_DUMP") {
                            let _ = std::fs::write(format!("{}/refuted{}.smt2", d, s.audit.refuted.len()), &sc.text);
                        }
                    }
                }
            }
        });
    }
}
fn scenario_name_of(sh: &Arc<Shared>) -> String {
    P.with(|p| p.borrow().item.as_ref().map(|i| sh.scenarios[i.scenario].name.clone()).unwrap_or_default())
}

// ------------------------------------------------------------------ drivers
fn reset_path() {
    ARENA.with(|a| *a.borrow_mut() = Arena::default());
    crate::vm::reset_world();
}

/// Re-run a scenario on concrete inputs; returns names of failed checks (None: not completed)
pub struct Concrete {
    pub failed: Vec<String>,
    pub values: Vec<(String, Option<BigInt>)>,
    pub outcome: Vec<String>,
    pub error: Option<String>,
}
pub fn run_concrete(sc: &Scenario, model: &Model) -> Concrete {
    let saved = P.with(|p| std::mem::take(&mut *p.borrow_mut()));
    let saved_arena = ARENA.with(|a| std::mem::take(&mut *a.borrow_mut()));
    reset_path();
    P.with(|p| {
        let mut p = p.borrow_mut();
        p.concrete = Some(model.clone());
        p.shared = saved.shared.clone();
    });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (sc.body)()));
    let mut error = None;
    if let Err(e) = r {
        match e.downcast::<Exit>() {
            Ok(e) => match *e {
                Exit::PathEnd => {}
                Exit::Revert(m) => error = Some(format!("revert outside tx: {}", String::from_utf8_lossy(&m))),
                Exit::Unsupported(m) => error = Some(format!("unsupported: {}", m)),
            },
            Err(e) => error = Some(format!("harness panic: {}", panic_msg(&e))),
        }
    }
    let c = P.with(|p| std::mem::take(&mut *p.borrow_mut()));
    crate::vm::reset_world();
    P.with(|p| *p.borrow_mut() = saved);
    ARENA.with(|a| *a.borrow_mut() = saved_arena);
    Concrete { failed: c.concrete_fail, values: c.concrete_values, outcome: c.outcome, error }
}

pub fn panic_msg(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

fn run_item(sh: &Arc<Shared>, item: WorkItem) -> Vec<WorkItem> {
    let sc = sh.scenarios[item.scenario].clone();
    P.with(|p| {
        let mut p = p.borrow_mut();
        *p = PathCtx::default();
        p.shared = Some(sh.clone());
        p.model = item.model.clone();
        if item.prefix.is_empty() && p.model.is_none() {
            p.model = Some(Model::new());
        }
        p.item = Some(item.clone());
    });
    reset_path();
    if sh.opts.audit_ms > 0 && stats(|s| s.audit.ms) < sh.opts.audit_ms {
        with(|a| a.audit = Some(vec![]));
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (sc.body)()));
    let mut ended = false;
    let mut broken = false;
    if let Err(e) = r {
        match e.downcast::<Exit>() {
            Ok(e) => match *e {
                Exit::PathEnd => ended = true,
                Exit::Revert(m) => {
                    broken = true;
                    stats(|s| {
                        *s.harness_errors
                            .entry(format!("{}: revert outside tx: {}", sc.name, String::from_utf8_lossy(&m)))
                            .or_default() += 1
                    })
                }
                Exit::Unsupported(m) => {
                    broken = true;
                    stats(|s| *s.unsupported.entry(format!("{}: {}", sc.name, m)).or_default() += 1)
                }
            },
            Err(e) => {
                broken = true;
                let m = panic_msg(&e);
                stats(|s| *s.harness_errors.entry(format!("{}: {}", sc.name, m)).or_default() += 1)
            }
        }
    }
    // evaluate observations under the model, then re-execute concretely and compare
    let (model, values, sym_outcome, decisions) = P.with(|p| {
        let p = p.borrow();
        (p.model.clone(), p.values.clone(), p.outcome.clone(), p.decisions)
    });
    let short = P.with(|p| {
        let p = p.borrow();
        p.taken.len() < p.item.as_ref().unwrap().prefix.len()
    });
    let _ = short;
    if !ended && !broken {
        if let Some(m) = &model {
            let sym: Vec<(String, Option<BigInt>)> = with(|a| {
                let mut e = Evaluator::new(m);
                values.iter().map(|(n, t)| (n.clone(), e.t(a, *t))).collect()
            });
            let c = run_concrete(&sc, m);
            let ok = c.error.is_none() && c.values == sym && c.outcome == sym_outcome;
            let sample = format!("{} {:?} -> {:?}", sc.name, fmt_model(m), sym_outcome);
            let has_sample_room = stats(|s| {
                s.traces += 1;
                if !ok && s.trace_mismatch.len() < 5 {
                    s.trace_mismatch.push(format!(
                        "{}: error {:?}; symbolic {:?} {:?} concrete {:?} {:?}; model {}",
                        sc.name, c.error, sym, sym_outcome, c.values, c.outcome, fmt_model(m)
                    ));
                }
                s.samples.len() < 12
            });
            if has_sample_room {
                stats(|s| s.samples.push(sample.chars().take(600).collect()));
            }
        }
    }
    if !broken && with(|a| a.audit.is_some()) {
        audit(sh);
    }
    // confirm violation candidates on concrete inputs
    let cands = P.with(|p| std::mem::take(&mut p.borrow_mut().cands));
    for v in cands {
        let c = run_concrete(&sc, &v.model);
        if c.failed.iter().any(|x| *x == v.check) {
            let mut g = sh.violations.lock().unwrap();
            g.push(v);
            if !sh.opts.keep_going {
                sh.stop.store(true, AO::SeqCst);
            }
        } else {
            let sn = sc.name.clone();
            stats(|s| {
                s.obls.entry(v.check.clone()).or_default().undecided += 1;
                s.undecided.insert(format!(
                    "{} @ {}: counterexample did not replay ({:?} {:?}) {}",
                    v.check, sn, c.error, c.failed, fmt_model(&v.model)
                ));
            });
        }
    }
    stats(|s| {
        s.decisions += decisions;
        if ended {
            s.infeasible += 1
        } else {
            s.paths += 1;
            *s.per_scenario.entry(sc.name.clone()).or_default() += 1;
        }
        for o in &sym_outcome {
            if let Some(m) = o.strip_prefix("revert: ") {
                s.reverted += 1;
                *s.reverts.entry(m.to_string()).or_default() += 1;
            }
        }
    });
    P.with(|p| std::mem::take(&mut p.borrow_mut().new_items))
}

pub fn fmt_model(m: &Model) -> String {
    let mut v: Vec<_> = m.iter().collect();
    v.sort();
    v.iter().map(|(n, x)| format!("{}={}", n, x)).collect::<Vec<_>>().join(", ")
}

pub fn explore(scenarios: Vec<Scenario>, opts: Opts) -> (Stats, Vec<Violation>, bool) {
    let n = scenarios.len();
    let sh = Arc::new(Shared {
        scenarios,
        queue: Mutex::new((
            (0..n).map(|i| WorkItem { scenario: i, prefix: vec![], model: None }).collect(),
            0,
        )),
        cv: Condvar::new(),
        stats: Mutex::new(Stats::default()),
        violations: Mutex::new(vec![]),
        stop: AtomicBool::new(false),
        deadline: Instant::now() + opts.wall,
        known: vec![],
        audited: Mutex::new(HashSet::new()),
        opts: opts.clone(),
    });
    let mut hs = vec![];
    for _ in 0..opts.threads {
        let sh = sh.clone();
        hs.push(
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || worker(sh))
                .unwrap(),
        );
    }
    for h in hs {
        let _ = h.join();
    }
    let sh = Arc::try_unwrap(sh).ok().expect("worker leaked");
    let (q, _) = sh.queue.into_inner().unwrap();
    let mut st = sh.stats.into_inner().unwrap();
    st.dropped += q.len() as u64;
    let v = sh.violations.into_inner().unwrap();
    let timed_out = Instant::now() >= sh.deadline;
    (st, v, timed_out)
}

fn worker(sh: Arc<Shared>) {
    loop {
        let item = {
            let mut g = sh.queue.lock().unwrap();
            loop {
                if sh.stop.load(AO::SeqCst) || Instant::now() >= sh.deadline {
                    sh.cv.notify_all();
                    drop(g);
                    P.with(|p| *p.borrow_mut() = PathCtx::default());
                    return;
                }
                if let Some(it) = g.0.pop_front() {
                    g.1 += 1;
                    break it;
                }
                if g.1 == 0 {
                    sh.cv.notify_all();
                    drop(g);
                    P.with(|p| *p.borrow_mut() = PathCtx::default());
                    return;
                }
                g = sh.cv.wait_timeout(g, Duration::from_millis(200)).unwrap().0;
            }
        };
        let new = run_item(&sh, item);
        let over = sh.stats.lock().unwrap().paths >= sh.opts.max_paths;
        let mut g = sh.queue.lock().unwrap();
        g.1 -= 1;
        if over {
            sh.stats.lock().unwrap().dropped += new.len() as u64;
        } else {
            for i in new {
                g.0.push_back(i);
            }
        }
        sh.cv.notify_all();
    }
}

/// contract frames of the current call stack (debugging aid)
pub fn callers() -> String {
    let t = std::backtrace::Backtrace::force_capture().to_string();
    let v: Vec<&str> = t
        .lines()
        .filter(|l| l.contains("/repo/"))
        .map(|l| l.trim().rsplit("/repo/").next().unwrap())
        .take(4)
        .collect();
    v.join(" < ")
}
