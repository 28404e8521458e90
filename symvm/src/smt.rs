//! SMT-LIB2 emission and solver processes (z3 4.8.12, z3 5.x, cvc5).
use crate::term::*;
use num_bigint::BigInt;
use num_traits::Signed;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Answer {
    Sat(Model),
    Unsat,
    Unknown(String),
}

pub fn lit(c: &BigInt) -> String {
    if c.is_negative() {
        format!("(- {})", -c)
    } else {
        format!("{}", c)
    }
}

pub struct Script {
    pub text: String,
    pub vars: Vec<String>, // variable names, SMT name is v<i>
    pub n_mul: usize,
    pub n_div: usize,
    pub nonlinear: bool,
}

fn vars_of(a: &Arena, b: B, cache: &mut std::collections::HashMap<B, BTreeSet<u32>>) -> BTreeSet<u32> {
    if let Some(v) = cache.get(&b) {
        return v.clone();
    }
    let mut out = BTreeSet::new();
    let mut seen_t: HashSet<T> = HashSet::new();
    let mut seen_b: HashSet<B> = HashSet::new();
    let mut st: Vec<T> = vec![];
    let mut sb = vec![b];
    loop {
        if let Some(x) = sb.pop() {
            if !seen_b.insert(x) {
                continue;
            }
            match &a.bnodes[x.0 as usize] {
                BNode::Le0(t) | BNode::Eq0(t) => st.push(*t),
                BNode::And(v) | BNode::Or(v) => sb.extend(v.iter().cloned()),
                BNode::Not(y) => sb.push(*y),
                _ => {}
            }
            continue;
        }
        if let Some(t) = st.pop() {
            if !seen_t.insert(t) {
                continue;
            }
            match &a.nodes[t.0 as usize] {
                Node::Const(_) => {}
                Node::Var(v) => {
                    out.insert(*v);
                }
                Node::Sum(ts, _) => st.extend(ts.iter().map(|x| x.0)),
                Node::Mul(x, y) | Node::Div(x, y) => {
                    st.push(*x);
                    st.push(*y)
                }
                Node::Sqrt(x) => st.push(*x),
                Node::Ite(c, x, y) => {
                    sb.push(*c);
                    st.push(*x);
                    st.push(*y)
                }
            }
            continue;
        }
        break;
    }
    cache.insert(b, out.clone());
    out
}

/// keep the constraints of `pc` connected (through shared variables) to `goal`
pub fn slice(a: &Arena, pc: &[B], goal: &[B]) -> Vec<B> {
    let mut cache = std::collections::HashMap::new();
    let mut need: BTreeSet<u32> = BTreeSet::new();
    for g in goal {
        need.extend(vars_of(a, *g, &mut cache));
    }
    let mut rest: Vec<(B, BTreeSet<u32>)> =
        pc.iter().map(|b| (*b, vars_of(a, *b, &mut cache))).collect();
    let mut keep: Vec<B> = goal.to_vec();
    loop {
        let mut changed = false;
        let mut i = 0;
        while i < rest.len() {
            if rest[i].1.iter().any(|v| need.contains(v)) {
                let (b, vs) = rest.remove(i);
                need.extend(vs);
                keep.push(b);
                changed = true;
            } else {
                i += 1;
            }
        }
        if !changed {
            break;
        }
    }
    keep.sort();
    keep.dedup();
    keep
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Plain,
    Lemmas,
    Linear, // products abstracted; only UNSAT is meaningful
    Audit,  // as Plain, but from the declared bounds of the variables alone
}

pub fn script(a: &Arena, asserts: &[B], mode: Mode) -> Script {
    // reachable nodes
    let mut ts: BTreeSet<T> = BTreeSet::new();
    let mut bs: BTreeSet<B> = BTreeSet::new();
    let mut sb: Vec<B> = asserts.to_vec();
    let mut st: Vec<T> = vec![];
    loop {
        if let Some(x) = sb.pop() {
            if !bs.insert(x) {
                continue;
            }
            match &a.bnodes[x.0 as usize] {
                BNode::Le0(t) | BNode::Eq0(t) => st.push(*t),
                BNode::And(v) | BNode::Or(v) => sb.extend(v.iter().cloned()),
                BNode::Not(y) => sb.push(*y),
                _ => {}
            }
            continue;
        }
        if let Some(t) = st.pop() {
            if !ts.insert(t) {
                continue;
            }
            match &a.nodes[t.0 as usize] {
                Node::Const(_) | Node::Var(_) => {}
                Node::Sum(v, _) => st.extend(v.iter().map(|x| x.0)),
                Node::Mul(x, y) | Node::Div(x, y) => {
                    st.push(*x);
                    st.push(*y)
                }
                Node::Sqrt(x) => st.push(*x),
                Node::Ite(c, x, y) => {
                    sb.push(*c);
                    st.push(*x);
                    st.push(*y)
                }
            }
            continue;
        }
        break;
    }
    let mut out = String::new();
    let mut vars = vec![];
    let mut smtname: BTreeMap<T, String> = BTreeMap::new();
    let mut bname: BTreeMap<B, String> = BTreeMap::new();
    let mut prods: Vec<(String, T, T)> = vec![];
    let mut n_mul = 0;
    let mut n_div = 0;
    let mut nonlinear = false;
    // T ids are topologically ordered w.r.t. T children; Ite conditions refer to bools over
    // smaller T ids, so emit bools lazily.
    fn bexpr(
        a: &Arena,
        b: B,
        names: &BTreeMap<T, String>,
        bname: &mut BTreeMap<B, String>,
    ) -> String {
        if let Some(s) = bname.get(&b) {
            return s.clone();
        }
        let s = match &a.bnodes[b.0 as usize] {
            BNode::True => "true".into(),
            BNode::False => "false".into(),
            BNode::Le0(t) => sumcmp(a, *t, "<=", names),
            BNode::Eq0(t) => sumcmp(a, *t, "=", names),
            BNode::And(v) => {
                let p: Vec<String> = v.iter().map(|x| bexpr(a, *x, names, bname)).collect();
                format!("(and {})", p.join(" "))
            }
            BNode::Or(v) => {
                let p: Vec<String> = v.iter().map(|x| bexpr(a, *x, names, bname)).collect();
                format!("(or {})", p.join(" "))
            }
            BNode::Not(x) => format!("(not {})", bexpr(a, *x, names, bname)),
        };
        bname.insert(b, s.clone());
        s
    }
    fn side(items: Vec<String>) -> String {
        match items.len() {
            0 => "0".into(),
            1 => items.into_iter().next().unwrap(),
            _ => format!("(+ {})", items.join(" ")),
        }
    }
    fn sumcmp(a: &Arena, t: T, op: &str, names: &BTreeMap<T, String>) -> String {
        match &a.nodes[t.0 as usize] {
            Node::Sum(v, c) => {
                let mut l = vec![];
                let mut r = vec![];
                for (x, k) in v {
                    let n = &names[x];
                    let kk = k.abs();
                    let s = if kk == BigInt::from(1) {
                        n.clone()
                    } else {
                        format!("(* {} {})", kk, n)
                    };
                    if k.is_positive() {
                        l.push(s)
                    } else {
                        r.push(s)
                    }
                }
                if c.is_positive() {
                    l.push(format!("{}", c));
                } else if c.is_negative() {
                    r.push(format!("{}", -c));
                }
                format!("({} {} {})", op, side(l), side(r))
            }
            _ => format!("({} {} 0)", op, names[&t]),
        }
    }
    let bounds = |out: &mut String, n: &str, t: T| {
        let declared;
        let (lo, hi) = match (&a.nodes[t.0 as usize], mode) {
            (Node::Var(v), Mode::Audit) => {
                let i = &a.vars[*v as usize];
                declared = (i.lo.clone(), i.hi.clone());
                &declared
            }
            (_, Mode::Audit) => return,
            _ => &a.iv[t.0 as usize],
        };
        if let Some(l) = lo {
            out.push_str(&format!("(assert (>= {} {}))\n", n, lit(l)));
        }
        if let Some(h) = hi {
            out.push_str(&format!("(assert (<= {} {}))\n", n, lit(h)));
        }
    };
    for t in ts.iter() {
        match &a.nodes[t.0 as usize] {
            Node::Const(c) => {
                smtname.insert(*t, lit(c));
            }
            Node::Var(v) => {
                let n = format!("v{}", vars.len());
                out.push_str(&format!("(declare-const {} Int)\n", n));
                vars.push(a.vars[*v as usize].name.clone());
                bounds(&mut out, &n, *t);
                smtname.insert(*t, n);
            }
            Node::Sum(v, c) => {
                let mut p = vec![];
                for (x, kf) in v {
                    if *kf == BigInt::from(1) {
                        p.push(smtname[x].clone());
                    } else {
                        p.push(format!("(* {} {})", lit(kf), smtname[x]));
                    }
                }
                if *c != BigInt::from(0) {
                    p.push(lit(c));
                }
                let n = format!("t{}", t.0);
                let e = if p.len() == 1 { p[0].clone() } else { format!("(+ {})", p.join(" ")) };
                out.push_str(&format!("(define-fun {} () Int {})\n", n, e));
                smtname.insert(*t, n);
            }
            Node::Mul(x, y) => {
                n_mul += 1;
                nonlinear = true;
                let n = format!("t{}", t.0);
                if mode == Mode::Linear {
                    out.push_str(&format!("(declare-const {} Int)\n", n));
                    bounds(&mut out, &n, *t);
                } else {
                    out.push_str(&format!(
                        "(define-fun {} () Int (* {} {}))\n",
                        n, smtname[x], smtname[y]
                    ));
                    if mode == Mode::Lemmas {
                        bounds(&mut out, &n, *t);
                    }
                }
                prods.push((n.clone(), *x, *y));
                smtname.insert(*t, n);
            }
            Node::Div(x, y) => {
                n_div += 1;
                let n = format!("q{}", t.0);
                out.push_str(&format!("(declare-const {} Int)\n", n));
                bounds(&mut out, &n, *t);
                smtname.insert(*t, n.clone());
                let (nx, ny) = (smtname[x].clone(), smtname[y].clone());
                if a.as_const(*y).is_some() {
                    out.push_str(&format!(
                        "(assert (<= (* {} {}) {}))\n(assert (<= {} (+ (* {} {}) (- {} 1))))\n",
                        ny, n, nx, nx, ny, n, ny
                    ));
                } else {
                    nonlinear = true;
                    let p = format!("p{}", t.0);
                    if mode == Mode::Linear {
                        out.push_str(&format!("(declare-const {} Int)\n", p));
                        out.push_str(&format!("(assert (>= {} 0))\n", p));
                    } else {
                        out.push_str(&format!("(define-fun {} () Int (* {} {}))\n", p, ny, n));
                    }
                    out.push_str(&format!(
                        "(assert (<= {} {}))\n(assert (< {} (+ {} {})))\n(assert (>= {} 1))\n",
                        p, nx, nx, p, ny, ny
                    ));
                    prods.push((p, *y, *t));
                }
            }
            Node::Sqrt(x) => {
                nonlinear = true;
                let n = format!("q{}", t.0);
                out.push_str(&format!("(declare-const {} Int)\n", n));
                bounds(&mut out, &n, *t);
                smtname.insert(*t, n.clone());
                let nx = smtname[x].clone();
                let p = format!("p{}", t.0);
                if mode == Mode::Linear {
                    out.push_str(&format!("(declare-const {} Int)\n(assert (>= {} 0))\n", p, p));
                } else {
                    out.push_str(&format!("(define-fun {} () Int (* {} {}))\n", p, n, n));
                }
                out.push_str(&format!(
                    "(assert (<= {} {}))\n(assert (<= {} (+ {} (* 2 {}))))\n",
                    p, nx, nx, p, n
                ));
                prods.push((p, *t, *t));
            }
            Node::Ite(c, x, y) => {
                let ce = bexpr(a, *c, &smtname, &mut bname);
                let n = format!("t{}", t.0);
                out.push_str(&format!(
                    "(define-fun {} () Int (ite {} {} {}))\n",
                    n, ce, smtname[x], smtname[y]
                ));
                smtname.insert(*t, n);
            }
        }
    }
    if mode != Mode::Plain && mode != Mode::Audit {
        let nonneg = |t: T| a.iv[t.0 as usize].0.as_ref().map_or(false, |l| !l.is_negative());
        // interval (McCormick) planes with constant bounds
        for (p, x, y) in &prods {
            for (u, w) in [(x, y), (y, x)] {
                if !nonneg(*w) {
                    continue;
                }
                let (lo, hi) = &a.iv[u.0 as usize];
                let wn = &smtname[w];
                if let Some(l) = lo {
                    out.push_str(&format!("(assert (>= {} (* {} {})))\n", p, lit(l), wn));
                }
                if let Some(h) = hi {
                    out.push_str(&format!("(assert (<= {} (* {} {})))\n", p, lit(h), wn));
                }
            }
        }
        let mut cnt = 0;
        for i in 0..prods.len() {
            for j in (i + 1)..prods.len() {
                let (pi, xi, yi) = &prods[i];
                let (pj, xj, yj) = &prods[j];
                for (s, u, s2, w) in [(xi, yi, xj, yj), (xi, yi, yj, xj), (yi, xi, xj, yj), (yi, xi, yj, xj)] {
                    if s == s2 && nonneg(*s) && cnt < 400 {
                        cnt += 1;
                        let (un, wn, sn) = (&smtname[u], &smtname[w], &smtname[s]);
                        out.push_str(&format!(
                            "(assert (=> (<= {u} {w}) (<= {pi} {pj})))\n(assert (=> (>= {u} {w}) (>= {pi} {pj})))\n(assert (=> (<= (+ {u} 1) {w}) (<= (+ {pi} {s}) {pj})))\n(assert (=> (<= (+ {w} 1) {u}) (<= (+ {pj} {s}) {pi})))\n",
                            u = un, w = wn, pi = pi, pj = pj, s = sn
                        ));
                    }
                }
            }
        }
    }
    for b in asserts {
        let e = bexpr(a, *b, &smtname, &mut bname);
        out.push_str(&format!("(assert {})\n", e));
    }
    Script { text: out, vars, n_mul, n_div, nonlinear }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Z3New,
    Z3Old,
    Cvc5,
}

pub struct Solver {
    pub kind: Kind,
    child: Child,
    stdin: ChildStdin,
    rx: Receiver<String>,
}

impl Solver {
    pub fn new(kind: Kind) -> Solver {
        let mut cmd = match kind {
            Kind::Z3New => {
                let mut c = Command::new("z3-new");
                c.arg("-in");
                c
            }
            Kind::Z3Old => {
                let mut c = Command::new("z3");
                c.arg("-in");
                c
            }
            Kind::Cvc5 => {
                let mut c = Command::new("cvc5");
                c.args(["--incremental", "--produce-models", "--lang=smt2"]);
                c
            }
        };
        let mut child = cmd
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start SMT solver");
        let stdin = child.stdin.take().unwrap();
        let so = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            for l in BufReader::new(so).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        Solver { kind, child, stdin, rx }
    }
    fn send(&mut self, s: &str) -> bool {
        self.stdin.write_all(s.as_bytes()).is_ok() && self.stdin.flush().is_ok()
    }
    fn read_until_done(&mut self, deadline: Instant) -> Option<Vec<String>> {
        let mut out = vec![];
        loop {
            let now = Instant::now();
            if now >= deadline {
                return None;
            }
            match self.rx.recv_timeout(deadline - now) {
                Ok(l) => {
                    if l.trim().trim_matches('"') == "DONE" {
                        return Some(out);
                    }
                    out.push(l);
                }
                Err(RecvTimeoutError::Timeout) => return None,
                Err(RecvTimeoutError::Disconnected) => return None,
            }
        }
    }
    pub fn restart(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        *self = Solver::new(self.kind);
    }
    /// One self-contained query.
    pub fn query(&mut self, sc: &Script, timeout: Duration, want_model: bool) -> Answer {
        let mut s = String::new();
        s.push_str("(reset)\n");
        match self.kind {
            Kind::Z3New | Kind::Z3Old => {
                s.push_str(&format!("(set-option :timeout {})\n", timeout.as_millis()));
                s.push_str("(set-option :produce-models true)\n");
            }
            Kind::Cvc5 => {
                s.push_str(&format!("(set-option :tlimit-per {})\n", timeout.as_millis()));
                s.push_str("(set-option :produce-models true)\n");
                s.push_str("(set-logic QF_NIA)\n");
            }
        }
        s.push_str(&sc.text);
        s.push_str("(check-sat)\n(echo \"DONE\")\n");
        let deadline = Instant::now() + timeout + Duration::from_millis(1500);
        if !self.send(&s) {
            self.restart();
            return Answer::Unknown("solver pipe closed".into());
        }
        let lines = match self.read_until_done(deadline) {
            Some(l) => l,
            None => {
                self.restart();
                return Answer::Unknown("timeout".into());
            }
        };
        if lines.iter().any(|l| l.contains("(error")) {
            let e = lines.iter().find(|l| l.contains("(error")).unwrap().clone();
            self.restart();
            return Answer::Unknown(format!("solver error: {}", e));
        }
        let r = lines.last().map(|x| x.trim().to_string()).unwrap_or_default();
        match r.as_str() {
            "unsat" => Answer::Unsat,
            "sat" => {
                if !want_model || sc.vars.is_empty() {
                    return Answer::Sat(Model::new());
                }
                let names: Vec<String> = (0..sc.vars.len()).map(|i| format!("v{}", i)).collect();
                let q = format!("(get-value ({}))\n(echo \"DONE\")\n", names.join(" "));
                if !self.send(&q) {
                    self.restart();
                    return Answer::Unknown("pipe".into());
                }
                match self.read_until_done(Instant::now() + Duration::from_secs(10)) {
                    Some(l) => {
                        let txt = l.join(" ");
                        match parse_values(&txt, sc.vars.len()) {
                            Some(vals) => {
                                let mut m = Model::new();
                                for (i, v) in vals.into_iter().enumerate() {
                                    m.insert(sc.vars[i].clone(), v);
                                }
                                Answer::Sat(m)
                            }
                            None => Answer::Unknown(format!("cannot parse model: {}", txt)),
                        }
                    }
                    None => {
                        self.restart();
                        Answer::Unknown("timeout in get-value".into())
                    }
                }
            }
            x => Answer::Unknown(x.to_string()),
        }
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn parse_values(s: &str, n: usize) -> Option<Vec<BigInt>> {
    // ((v0 3) (v1 (- 4)) ...)
    let toks: Vec<String> = {
        let mut v = vec![];
        let mut cur = String::new();
        for c in s.chars() {
            match c {
                '(' | ')' | ' ' | '\n' | '\t' => {
                    if !cur.is_empty() {
                        v.push(std::mem::take(&mut cur));
                    }
                }
                _ => cur.push(c),
            }
        }
        if !cur.is_empty() {
            v.push(cur);
        }
        v
    };
    let mut out: Vec<Option<BigInt>> = vec![None; n];
    let mut i = 0;
    while i < toks.len() {
        if let Some(idx) = toks[i].strip_prefix('v').and_then(|x| x.parse::<usize>().ok()) {
            let mut j = i + 1;
            let mut negv = false;
            if toks.get(j).map(|x| x == "-").unwrap_or(false) {
                negv = true;
                j += 1;
            }
            let val: BigInt = toks.get(j)?.parse().ok()?;
            if idx < n {
                out[idx] = Some(if negv { -val } else { val });
            }
            i = j + 1;
        } else {
            i += 1;
        }
    }
    out.into_iter().collect()
}
