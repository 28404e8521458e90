//! Hash-consed symbolic terms over mathematical integers (exact: the contracts
//! compute on arbitrary-precision BigUint/BigInt), with interval bounds and
//! local simplification.  One arena per worker thread.
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Signed, Zero};
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct T(pub u32);
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct B(pub u32);

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(BigInt),
    Var(u32),
    /// sum of coef*term + const (terms are non-const, non-Sum; sorted)
    Sum(Vec<(T, BigInt)>, BigInt),
    Mul(T, T),
    /// floor(n/d); n >= 0 and d > 0 hold on the path
    Div(T, T),
    /// floor(sqrt(n)); n >= 0
    Sqrt(T),
    Ite(B, T, T),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum BNode {
    True,
    False,
    Le0(T),
    Eq0(T),
    And(Vec<B>),
    Or(Vec<B>),
    Not(B),
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub lo: Option<BigInt>,
    pub hi: Option<BigInt>,
}

type Iv = (Option<BigInt>, Option<BigInt>);

#[derive(Default)]
pub struct Arena {
    pub nodes: Vec<Node>,
    pub iv: Vec<Iv>,
    pub map: HashMap<Node, T>,
    pub bnodes: Vec<BNode>,
    pub bmap: HashMap<BNode, B>,
    pub vars: Vec<VarInfo>,
    pub varmap: HashMap<String, u32>,
    /// conclusions drawn without a solver (interval folding, rewriting), to be put to it afterwards
    pub audit: Option<Vec<(&'static str, B)>>,
}

thread_local! {
    pub static ARENA: RefCell<Arena> = RefCell::new(Arena::default());
}

fn mul_opt(a: &Option<BigInt>, b: &Option<BigInt>) -> Option<BigInt> {
    match (a, b) {
        (Some(a), Some(b)) => Some(a * b),
        _ => None,
    }
}

impl Arena {
    fn add(&mut self, n: Node) -> T {
        if let Some(t) = self.map.get(&n) {
            return *t;
        }
        let iv = self.compute_iv(&n);
        // singleton interval => constant
        if let (Some(l), Some(h)) = (&iv.0, &iv.1) {
            if l == h && !matches!(n, Node::Const(_)) && !matches!(n, Node::Var(_)) {
                let c = self.konst(l.clone());
                self.audit_equal("value", n, c);
                return c;
            }
        }
        let t = T(self.nodes.len() as u32);
        self.nodes.push(n.clone());
        self.iv.push(iv);
        self.map.insert(n, t);
        t
    }
    fn compute_iv(&self, n: &Node) -> Iv {
        match n {
            Node::Const(c) => (Some(c.clone()), Some(c.clone())),
            Node::Var(v) => {
                let i = &self.vars[*v as usize];
                (i.lo.clone(), i.hi.clone())
            }
            Node::Sum(ts, c) => {
                let mut lo = Some(c.clone());
                let mut hi = Some(c.clone());
                for (t, k) in ts {
                    let (l, h) = &self.iv[t.0 as usize];
                    let (l, h) = if k.is_positive() { (l, h) } else { (h, l) };
                    lo = match (lo, l) {
                        (Some(a), Some(b)) => Some(a + b * k),
                        _ => None,
                    };
                    hi = match (hi, h) {
                        (Some(a), Some(b)) => Some(a + b * k),
                        _ => None,
                    };
                }
                (lo, hi)
            }
            Node::Mul(a, b) => {
                let ia = &self.iv[a.0 as usize];
                let ib = &self.iv[b.0 as usize];
                let nn = |x: &Iv| x.0.as_ref().map_or(false, |l| !l.is_negative());
                if nn(ia) && nn(ib) {
                    (mul_opt(&ia.0, &ib.0), mul_opt(&ia.1, &ib.1))
                } else if let (Some(al), Some(ah), Some(bl), Some(bh)) =
                    (&ia.0, &ia.1, &ib.0, &ib.1)
                {
                    let c = [al * bl, al * bh, ah * bl, ah * bh];
                    (c.iter().min().cloned(), c.iter().max().cloned())
                } else if a == b {
                    (Some(BigInt::zero()), None)
                } else {
                    (None, None)
                }
            }
            Node::Div(a, b) => {
                let ia = &self.iv[a.0 as usize];
                let ib = &self.iv[b.0 as usize];
                let lo = match (&ia.0, &ib.1) {
                    (Some(l), Some(h)) if !l.is_negative() && h.is_positive() => l / h,
                    _ => BigInt::zero(),
                };
                let one = BigInt::one();
                let dl = match &ib.0 {
                    Some(l) if l.is_positive() => l.clone(),
                    _ => one,
                };
                let hi = ia.1.as_ref().map(|h| {
                    if h.is_negative() {
                        BigInt::zero()
                    } else {
                        h / dl
                    }
                });
                (Some(lo), hi)
            }
            Node::Sqrt(a) => {
                let ia = &self.iv[a.0 as usize];
                let f = |x: &BigInt| if x.is_negative() { BigInt::zero() } else { x.sqrt() };
                (
                    Some(ia.0.as_ref().map(f).unwrap_or_else(BigInt::zero)),
                    ia.1.as_ref().map(f),
                )
            }
            Node::Ite(_, a, b) => {
                let ia = &self.iv[a.0 as usize];
                let ib = &self.iv[b.0 as usize];
                let lo = match (&ia.0, &ib.0) {
                    (Some(x), Some(y)) => Some(x.min(y).clone()),
                    _ => None,
                };
                let hi = match (&ia.1, &ib.1) {
                    (Some(x), Some(y)) => Some(x.max(y).clone()),
                    _ => None,
                };
                (lo, hi)
            }
        }
    }
    /// the node as it stands, outside the hash-consing table
    fn raw(&mut self, n: Node) -> T {
        let t = T(self.nodes.len() as u32);
        self.nodes.push(n);
        self.iv.push((None, None));
        t
    }
    fn audit_equal(&mut self, kind: &'static str, n: Node, r: T) {
        if self.audit.is_none() {
            return;
        }
        let (mut v, c) = self.parts(r);
        let t = self.raw(n);
        for x in v.iter_mut() {
            x.1 = -x.1.clone();
        }
        v.push((t, BigInt::one()));
        let d = self.raw(Node::Sum(v, -c));
        let b = self.badd(BNode::Eq0(d));
        self.audit_fact(kind, b);
    }
    fn audit_fact(&mut self, kind: &'static str, b: B) {
        if let Some(v) = self.audit.as_mut() {
            v.push((kind, b));
        }
    }
    /// an atom folded to a constant by the bounds of its term
    fn audit_fold(&mut self, n: BNode, truth: bool, t: T) {
        if self.audit.is_some() && self.as_const(t).is_none() {
            let b = self.badd(n);
            let b = if truth { b } else { self.badd(BNode::Not(b)) };
            self.audit_fact("comparison", b);
        }
    }
    pub fn konst(&mut self, c: BigInt) -> T {
        let n = Node::Const(c);
        if let Some(t) = self.map.get(&n) {
            return *t;
        }
        let iv = self.compute_iv(&n);
        let t = T(self.nodes.len() as u32);
        self.nodes.push(n.clone());
        self.iv.push(iv);
        self.map.insert(n, t);
        t
    }
    pub fn var(&mut self, name: &str, lo: Option<BigInt>, hi: Option<BigInt>) -> T {
        if let Some(v) = self.varmap.get(name) {
            let i = &self.vars[*v as usize];
            assert!(i.lo == lo && i.hi == hi, "variable {} redeclared with other bounds", name);
            let n = Node::Var(*v);
            return self.map[&n];
        }
        let v = self.vars.len() as u32;
        self.vars.push(VarInfo { name: name.to_string(), lo, hi });
        self.varmap.insert(name.to_string(), v);
        self.add(Node::Var(v))
    }
    fn parts(&self, t: T) -> (Vec<(T, BigInt)>, BigInt) {
        match &self.nodes[t.0 as usize] {
            Node::Const(c) => (vec![], c.clone()),
            Node::Sum(v, c) => (v.clone(), c.clone()),
            _ => (vec![(t, BigInt::one())], BigInt::zero()),
        }
    }
    fn from_parts(&mut self, mut v: Vec<(T, BigInt)>, c: BigInt) -> T {
        v.retain(|x| !x.1.is_zero());
        if v.is_empty() {
            return self.konst(c);
        }
        if v.len() == 1 && v[0].1.is_one() && c.is_zero() {
            return v[0].0;
        }
        self.add(Node::Sum(v, c))
    }
    pub fn lin(&mut self, a: T, ka: &BigInt, b: T, kb: &BigInt) -> T {
        let (pa, ca) = self.parts(a);
        let (pb, cb) = self.parts(b);
        let mut out: Vec<(T, BigInt)> = Vec::with_capacity(pa.len() + pb.len());
        let (mut i, mut j) = (0, 0);
        while i < pa.len() || j < pb.len() {
            if j >= pb.len() || (i < pa.len() && pa[i].0 < pb[j].0) {
                out.push((pa[i].0, &pa[i].1 * ka));
                i += 1;
            } else if i >= pa.len() || pb[j].0 < pa[i].0 {
                out.push((pb[j].0, &pb[j].1 * kb));
                j += 1;
            } else {
                out.push((pa[i].0, &pa[i].1 * ka + &pb[j].1 * kb));
                i += 1;
                j += 1;
            }
        }
        self.from_parts(out, ca * ka + cb * kb)
    }
    pub fn scale(&mut self, a: T, k: &BigInt) -> T {
        let (p, c) = self.parts(a);
        self.from_parts(p.into_iter().map(|(t, x)| (t, x * k)).collect(), c * k)
    }
    pub fn as_const(&self, t: T) -> Option<&BigInt> {
        match &self.nodes[t.0 as usize] {
            Node::Const(c) => Some(c),
            _ => None,
        }
    }
    /// content (gcd of coefs and const) and primitive part
    fn primitive(&mut self, t: T) -> (BigInt, T) {
        let (p, c) = self.parts(t);
        let mut g = c.abs();
        for (_, k) in &p {
            g = g.gcd(k);
        }
        if g.is_zero() || g.is_one() {
            return (BigInt::one(), t);
        }
        let q = self.from_parts(p.into_iter().map(|(t, k)| (t, k / &g)).collect(), c / &g);
        (g, q)
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let r = self.mul_simplified(a, b);
        if self.audit.is_some() && self.as_const(a).is_none() && self.as_const(b).is_none() {
            let same = match self.nodes[r.0 as usize] {
                Node::Mul(x, y) => (x, y) == (a, b) || (x, y) == (b, a),
                _ => false,
            };
            if !same {
                self.audit_equal("product", Node::Mul(a, b), r);
            }
        }
        r
    }
    fn mul_simplified(&mut self, a: T, b: T) -> T {
        if let Some(c) = self.as_const(a).cloned() {
            return self.scale(b, &c);
        }
        if let Some(c) = self.as_const(b).cloned() {
            return self.scale(a, &c);
        }
        let (ga, pa) = self.primitive(a);
        let (gb, pb) = self.primitive(b);
        let g = ga * gb;
        // distribute over small sums so that shared monomials are syntactic
        let (sa, ca) = self.parts(pa);
        let (sb, cb) = self.parts(pb);
        let na = sa.len() + !ca.is_zero() as usize;
        let nb = sb.len() + !cb.is_zero() as usize;
        let m = if na * nb <= 6 && (na > 1 || nb > 1) {
            let mut acc = self.konst(&ca * &cb);
            for (x, kx) in &sa {
                for (y, ky) in &sb {
                    let m = self.mul_atoms(*x, *y);
                    acc = self.lin(acc, &BigInt::one(), m, &(kx * ky));
                }
                acc = self.lin(acc, &BigInt::one(), *x, &(kx * &cb));
            }
            for (y, ky) in &sb {
                acc = self.lin(acc, &BigInt::one(), *y, &(ky * &ca));
            }
            acc
        } else {
            self.mul_atoms(pa, pb)
        };
        self.scale(m, &g)
    }
    /// multiplicative factors of an atom, sorted
    fn factors(&self, t: T) -> Vec<T> {
        let (mut out, mut st) = (vec![], vec![t]);
        while let Some(x) = st.pop() {
            match self.nodes[x.0 as usize] {
                Node::Mul(a, b) => st.extend([a, b]),
                _ => out.push(x),
            }
        }
        out.sort();
        out
    }
    /// products are kept in one canonical association
    fn product(&mut self, f: &[T]) -> T {
        let mut acc = f[0];
        for x in &f[1..] {
            acc = self.add(Node::Mul(acc, *x));
        }
        acc
    }
    fn mul_atoms(&mut self, a: T, b: T) -> T {
        let mut f = self.factors(a);
        f.extend(self.factors(b));
        f.sort();
        self.product(&f)
    }
    /// does term t (a non-sum atom) contain d as a multiplicative factor?  returns cofactor
    fn cofactor(&mut self, t: T, d: T) -> Option<T> {
        if t == d {
            return Some(self.konst(BigInt::one()));
        }
        let mut f = self.factors(t);
        for x in self.factors(d) {
            let i = f.iter().position(|y| *y == x)?;
            f.remove(i);
        }
        if f.is_empty() {
            return None;
        }
        Some(self.product(&f))
    }
    /// floor division, requires n>=0, d>0 on the path
    pub fn div(&mut self, n: T, d: T) -> T {
        if self.audit.is_some() {
            // the divisor is positive and the dividend not negative wherever a quotient is formed
            if !self.iv[d.0 as usize].0.as_ref().map_or(false, |l| l.is_positive()) {
                let one = self.konst(BigInt::one());
                let x = self.lin(one, &BigInt::one(), d, &-BigInt::one());
                let b = self.badd(BNode::Le0(x));
                self.audit_fact("divisor", b);
            }
            if !self.iv[n.0 as usize].0.as_ref().map_or(false, |l| !l.is_negative()) {
                let x = self.scale(n, &-BigInt::one());
                let b = self.badd(BNode::Le0(x));
                self.audit_fact("dividend", b);
            }
        }
        let r = self.div_simplified(n, d);
        if self.audit.is_some() && (self.as_const(n).is_none() || self.as_const(d).is_none()) && self.nodes[r.0 as usize] != Node::Div(n, d) {
            self.audit_equal("quotient", Node::Div(n, d), r);
        }
        r
    }
    fn div_simplified(&mut self, n: T, d: T) -> T {
        if let (Some(a), Some(b)) = (self.as_const(n), self.as_const(d)) {
            return {
                let q = a.div_floor(b);
                self.konst(q)
            };
        }
        if let Some(c) = self.as_const(d).cloned() {
            if c.is_one() {
                return n;
            }
            let (p, k) = self.parts(n);
            // exact: every coefficient divisible
            let mut g = c.clone();
            for (_, x) in &p {
                g = g.gcd(x);
            }
            if !g.is_one() {
                let k2 = k.div_floor(&g);
                let c2 = &c / &g;
                let n2 = self.from_parts(p.into_iter().map(|(t, x)| (t, x / &g)).collect(), k2);
                if c2.is_one() {
                    return n2;
                }
                let d2 = self.konst(c2);
                return self.div(n2, d2);
            }
            // nested constant division
            if let Node::Div(a, b) = self.nodes[n.0 as usize].clone() {
                if let Some(b) = self.as_const(b).cloned() {
                    let d2 = self.konst(b * c);
                    return self.div(a, d2);
                }
            }
        } else {
            // n = d * x (+0) exactly
            let (gd, pd) = self.primitive(d);
            let (p, k) = self.parts(n);
            if k.is_zero() && !p.is_empty() {
                let mut acc = self.konst(BigInt::zero());
                let mut ok = true;
                for (t, x) in &p {
                    if !(x % &gd).is_zero() {
                        ok = false;
                        break;
                    }
                    match self.cofactor(*t, pd) {
                        Some(cf) => {
                            acc = self.lin(acc, &BigInt::one(), cf, &(x / &gd));
                        }
                        None => {
                            ok = false;
                            break;
                        }
                    }
                }
                if ok {
                    return acc;
                }
            }
            if n == d {
                return self.konst(BigInt::one());
            }
            // half-up rounding of an exact quotient: (q*d + d/2) / d = q
            let two = self.konst(BigInt::from(2));
            let half = self.div(d, two);
            let (_, ph) = self.primitive(half);
            if p.iter().any(|(t, _)| *t == ph) {
                let rest = self.lin(n, &BigInt::one(), half, &-BigInt::one());
                if rest == d {
                    return self.konst(BigInt::one());
                }
                let (gr, pr) = self.primitive(rest);
                if pr == pd && (&gr % &gd).is_zero() {
                    return self.konst(gr / gd);
                }
                let (p, k) = self.parts(rest);
                if k.is_zero() && !p.is_empty() {
                    let mut acc = self.konst(BigInt::zero());
                    let mut ok = true;
                    for (t, x) in &p {
                        match self.cofactor(*t, pd) {
                            Some(cf) if (x % &gd).is_zero() => acc = self.lin(acc, &BigInt::one(), cf, &(x / &gd)),
                            _ => {
                                ok = false;
                                break;
                            }
                        }
                    }
                    if ok {
                        return acc;
                    }
                }
            }
            // common constant content
            let (gn, pn) = self.primitive(n);
            let g = gn.gcd(&gd);
            if !g.is_one() {
                let n2 = self.scale(pn, &(&gn / &g));
                let d2 = self.scale(pd, &(&gd / &g));
                return self.div(n2, d2);
            }
        }
        self.add(Node::Div(n, d))
    }
    pub fn sqrt(&mut self, n: T) -> T {
        if let Some(a) = self.as_const(n) {
            let r = a.sqrt();
            return self.konst(r);
        }
        self.add(Node::Sqrt(n))
    }
    pub fn ite(&mut self, c: B, a: T, b: T) -> T {
        match self.bnodes[c.0 as usize] {
            BNode::True => return a,
            BNode::False => return b,
            _ => {}
        }
        if a == b {
            return a;
        }
        self.add(Node::Ite(c, a, b))
    }
    pub fn badd(&mut self, n: BNode) -> B {
        if let Some(b) = self.bmap.get(&n) {
            return *b;
        }
        let b = B(self.bnodes.len() as u32);
        self.bnodes.push(n.clone());
        self.bmap.insert(n, b);
        b
    }
    pub fn btrue(&mut self) -> B {
        self.badd(BNode::True)
    }
    pub fn bfalse(&mut self) -> B {
        self.badd(BNode::False)
    }
    pub fn le0(&mut self, t: T) -> B {
        let (lo, hi) = self.iv[t.0 as usize].clone();
        if let Some(h) = hi {
            if !h.is_positive() {
                self.audit_fold(BNode::Le0(t), true, t);
                return self.btrue();
            }
        }
        if let Some(l) = lo {
            if l.is_positive() {
                self.audit_fold(BNode::Le0(t), false, t);
                return self.bfalse();
            }
        }
        // normalise by gcd of coefficients
        let (p, c) = self.parts(t);
        let mut g = BigInt::zero();
        for (_, k) in &p {
            g = g.gcd(k);
        }
        let t = if !g.is_zero() && !g.is_one() {
            // sum*g + c <= 0  <=>  sum <= floor(-c/g)  <=> sum - floor(-c/g) <= 0
            let k = -((-c).div_floor(&g));
            self.from_parts(p.into_iter().map(|(t, x)| (t, x / &g)).collect(), k)
        } else {
            t
        };
        self.badd(BNode::Le0(t))
    }
    pub fn eq0(&mut self, t: T) -> B {
        let (lo, hi) = self.iv[t.0 as usize].clone();
        if let (Some(l), Some(h)) = (&lo, &hi) {
            if l.is_zero() && h.is_zero() {
                self.audit_fold(BNode::Eq0(t), true, t);
                return self.btrue();
            }
        }
        if lo.map_or(false, |l| l.is_positive()) || hi.map_or(false, |h| h.is_negative()) {
            self.audit_fold(BNode::Eq0(t), false, t);
            return self.bfalse();
        }
        let (p, c) = self.parts(t);
        let mut g = BigInt::zero();
        for (_, k) in &p {
            g = g.gcd(k);
        }
        let mut t = t;
        if !g.is_zero() && !g.is_one() {
            if !(&c % &g).is_zero() {
                self.audit_fold(BNode::Eq0(t), false, t);
                return self.bfalse();
            }
            t = self.from_parts(p.into_iter().map(|(t, x)| (t, x / &g)).collect(), c / &g);
        }
        self.badd(BNode::Eq0(t))
    }
    pub fn not(&mut self, b: B) -> B {
        match self.bnodes[b.0 as usize].clone() {
            BNode::True => self.bfalse(),
            BNode::False => self.btrue(),
            BNode::Not(x) => x,
            BNode::Le0(t) => {
                // t >= 1  <=> 1 - t <= 0
                let one = self.konst(BigInt::one());
                let x = self.lin(one, &BigInt::one(), t, &-BigInt::one());
                self.le0(x)
            }
            BNode::And(v) => {
                let w: Vec<B> = v.into_iter().map(|x| self.not(x)).collect();
                self.or(&w)
            }
            BNode::Or(v) => {
                let w: Vec<B> = v.into_iter().map(|x| self.not(x)).collect();
                self.and(&w)
            }
            BNode::Eq0(_) => self.badd(BNode::Not(b)),
        }
    }
    pub fn and(&mut self, v: &[B]) -> B {
        let mut out = vec![];
        for b in v {
            match &self.bnodes[b.0 as usize] {
                BNode::True => {}
                BNode::False => return self.bfalse(),
                BNode::And(w) => out.extend(w.iter().cloned()),
                _ => out.push(*b),
            }
        }
        out.sort();
        out.dedup();
        match out.len() {
            0 => self.btrue(),
            1 => out[0],
            _ => self.badd(BNode::And(out)),
        }
    }
    pub fn or(&mut self, v: &[B]) -> B {
        let mut out = vec![];
        for b in v {
            match &self.bnodes[b.0 as usize] {
                BNode::False => {}
                BNode::True => return self.btrue(),
                BNode::Or(w) => out.extend(w.iter().cloned()),
                _ => out.push(*b),
            }
        }
        out.sort();
        out.dedup();
        match out.len() {
            0 => self.bfalse(),
            1 => out[0],
            _ => self.badd(BNode::Or(out)),
        }
    }
}

// ---------- ergonomic free functions ----------
pub fn with<R>(f: impl FnOnce(&mut Arena) -> R) -> R {
    ARENA.with(|a| f(&mut a.borrow_mut()))
}
pub fn k<I: Into<BigInt>>(c: I) -> T {
    with(|a| a.konst(c.into()))
}
pub fn add(x: T, y: T) -> T {
    with(|a| a.lin(x, &BigInt::one(), y, &BigInt::one()))
}
pub fn sub(x: T, y: T) -> T {
    with(|a| a.lin(x, &BigInt::one(), y, &-BigInt::one()))
}
pub fn neg(x: T) -> T {
    with(|a| a.scale(x, &-BigInt::one()))
}
pub fn mul(x: T, y: T) -> T {
    with(|a| a.mul(x, y))
}
pub fn div(x: T, y: T) -> T {
    with(|a| a.div(x, y))
}
pub fn as_const(t: T) -> Option<BigInt> {
    with(|a| a.as_const(t).cloned())
}
pub fn iv(t: T) -> Iv {
    with(|a| a.iv[t.0 as usize].clone())
}
pub fn le(x: T, y: T) -> B {
    let d = sub(x, y);
    with(|a| a.le0(d))
}
pub fn lt(x: T, y: T) -> B {
    let d = sub(x, y);
    with(|a| {
        let one = a.konst(BigInt::one());
        let d = a.lin(d, &BigInt::one(), one, &BigInt::one());
        a.le0(d)
    })
}
pub fn ge(x: T, y: T) -> B {
    le(y, x)
}
pub fn gt(x: T, y: T) -> B {
    lt(y, x)
}
pub fn eq(x: T, y: T) -> B {
    let d = sub(x, y);
    with(|a| a.eq0(d))
}
pub fn ne(x: T, y: T) -> B {
    not(eq(x, y))
}
pub fn not(b: B) -> B {
    with(|a| a.not(b))
}
pub fn and(v: &[B]) -> B {
    with(|a| a.and(v))
}
pub fn or(v: &[B]) -> B {
    with(|a| a.or(v))
}
pub fn implies(p: B, q: B) -> B {
    let np = not(p);
    or(&[np, q])
}
pub fn ite(c: B, x: T, y: T) -> T {
    with(|a| a.ite(c, x, y))
}
pub fn sqrt(x: T) -> T {
    with(|a| a.sqrt(x))
}
pub fn min(x: T, y: T) -> T {
    let c = le(x, y);
    ite(c, x, y)
}
pub fn max(x: T, y: T) -> T {
    let c = le(x, y);
    ite(c, y, x)
}
pub fn tru() -> B {
    with(|a| a.btrue())
}
pub fn fls() -> B {
    with(|a| a.bfalse())
}
pub fn bconst(b: B) -> Option<bool> {
    with(|a| match a.bnodes[b.0 as usize] {
        BNode::True => Some(true),
        BNode::False => Some(false),
        _ => None,
    })
}
pub fn bool_b(x: bool) -> B {
    if x {
        tru()
    } else {
        fls()
    }
}

impl std::ops::Add for T {
    type Output = T;
    fn add(self, o: T) -> T {
        add(self, o)
    }
}
impl std::ops::Sub for T {
    type Output = T;
    fn sub(self, o: T) -> T {
        sub(self, o)
    }
}
impl std::ops::Mul for T {
    type Output = T;
    fn mul(self, o: T) -> T {
        mul(self, o)
    }
}

// ---------- evaluation under a model ----------
pub type Model = HashMap<String, BigInt>;

pub struct Evaluator<'a> {
    pub model: &'a Model,
    memo: HashMap<T, BigInt>,
    bmemo: HashMap<B, bool>,
}
impl<'a> Evaluator<'a> {
    pub fn new(model: &'a Model) -> Self {
        Evaluator { model, memo: HashMap::new(), bmemo: HashMap::new() }
    }
    /// None if a division by zero / missing variable is met
    pub fn t(&mut self, a: &Arena, t: T) -> Option<BigInt> {
        if let Some(v) = self.memo.get(&t) {
            return Some(v.clone());
        }
        // explicit stack would be safer; terms are shallow enough for recursion on big stacks
        let v = match &a.nodes[t.0 as usize] {
            Node::Const(c) => c.clone(),
            Node::Var(v) => self.model.get(&a.vars[*v as usize].name)?.clone(),
            Node::Sum(ts, c) => {
                let mut s = c.clone();
                for (x, k) in ts {
                    s += self.t(a, *x)? * k;
                }
                s
            }
            Node::Mul(x, y) => self.t(a, *x)? * self.t(a, *y)?,
            Node::Div(x, y) => {
                let d = self.t(a, *y)?;
                if d.is_zero() {
                    return None;
                }
                self.t(a, *x)?.div_floor(&d)
            }
            Node::Sqrt(x) => {
                let v = self.t(a, *x)?;
                if v.is_negative() {
                    return None;
                }
                v.sqrt()
            }
            Node::Ite(c, x, y) => {
                if self.b(a, *c)? {
                    self.t(a, *x)?
                } else {
                    self.t(a, *y)?
                }
            }
        };
        self.memo.insert(t, v.clone());
        Some(v)
    }
    pub fn b(&mut self, a: &Arena, b: B) -> Option<bool> {
        if let Some(v) = self.bmemo.get(&b) {
            return Some(*v);
        }
        let v = match &a.bnodes[b.0 as usize] {
            BNode::True => true,
            BNode::False => false,
            BNode::Le0(t) => !self.t(a, *t)?.is_positive(),
            BNode::Eq0(t) => self.t(a, *t)?.is_zero(),
            BNode::And(v) => {
                let mut r = true;
                for x in v {
                    if !self.b(a, *x)? {
                        r = false;
                        break;
                    }
                }
                r
            }
            BNode::Or(v) => {
                let mut r = false;
                for x in v {
                    if self.b(a, *x)? {
                        r = true;
                        break;
                    }
                }
                r
            }
            BNode::Not(x) => !self.b(a, *x)?,
        };
        self.bmemo.insert(b, v);
        Some(v)
    }
}
