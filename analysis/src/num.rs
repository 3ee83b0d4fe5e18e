//! Linear inequalities over symbols: the numeric domain of the receive analysis.
//!
//! A constraint is an affine expression with integer coefficients that is at least zero, or zero.
//! Decided with the simplex method over rationals, after tightening to integers; projection is by
//! Gaussian and Fourier-Motzkin elimination.
use crate::val::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Con {
    pub t: Vec<(V, i128)>,
    pub c: i128,
    pub eq: bool,
}
fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}
impl Con {
    /// `v >= 0` or `v == 0`; None if it is not about numbers.
    pub fn of(v: V, eq: bool) -> Option<Con> {
        let (t, c) = lin_parts(v)?;
        Some(Con { t: t.into_iter().collect(), c, eq }.norm())
    }
    pub fn halves(&self) -> [Con; 2] {
        [Con { eq: false, ..self.clone() }, Con { t: self.t.iter().map(|x| (x.0, -x.1)).collect(), c: -self.c, eq: false }]
    }
    /// Of an inequality, over the integers.
    pub fn negate(&self) -> Con {
        Con { t: self.t.iter().map(|x| (x.0, -x.1)).collect(), c: -self.c - 1, eq: false }
    }
    fn norm(mut self) -> Con {
        self.t.retain(|x| x.1 != 0);
        let k = self.t.iter().fold(0, |a, x| gcd(a, x.1));
        if k > 1 {
            if self.eq {
                if self.c % k == 0 {
                    self.t.iter_mut().for_each(|x| x.1 /= k);
                    self.c /= k;
                }
            } else {
                self.t.iter_mut().for_each(|x| x.1 /= k);
                self.c = self.c.div_euclid(k);
            }
        }
        if self.eq && self.t.first().map(|x| x.1 < 0).unwrap_or(false) {
            self.t.iter_mut().for_each(|x| x.1 = -x.1);
            self.c = -self.c;
        }
        self
    }
    pub fn trivial(&self) -> Option<bool> {
        self.t.is_empty().then(|| if self.eq { self.c == 0 } else { self.c >= 0 })
    }
    fn neg(&self) -> Con {
        Con { t: self.t.iter().map(|x| (x.0, -x.1)).collect(), c: -self.c - 1, eq: false }.norm()
    }
    fn coef(&self, v: V) -> i128 {
        self.t.iter().find(|x| x.0 == v).map(|x| x.1).unwrap_or(0)
    }
    pub fn plus(&self, o: &Con) -> Con {
        let mut c = self.comb(1, o, 1);
        c.eq = false;
        c
    }
    /// a * self + b * other
    fn comb(&self, a: i128, o: &Con, b: i128) -> Con {
        let mut m: BTreeMap<V, i128> = BTreeMap::new();
        for (v, q) in &self.t {
            *m.entry(*v).or_insert(0) += a * q;
        }
        for (v, q) in &o.t {
            *m.entry(*v).or_insert(0) += b * q;
        }
        Con { t: m.into_iter().collect(), c: a * self.c + b * o.c, eq: self.eq && o.eq }.norm()
    }
    pub fn rename(&self, f: &dyn Fn(V) -> V) -> Con {
        let mut m: BTreeMap<V, i128> = BTreeMap::new();
        for (v, q) in &self.t {
            *m.entry(f(*v)).or_insert(0) += q;
        }
        Con { t: m.into_iter().collect(), c: self.c, eq: self.eq }.norm()
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Rat(i128, i128);
impl Rat {
    fn new(n: i128, d: i128) -> Rat {
        let k = gcd(n, d).max(1);
        let s = if d < 0 { -1 } else { 1 };
        Rat(s * n / k, s * d / k)
    }
    pub fn of(n: i128) -> Rat {
        Rat(n, 1)
    }
    pub fn whole(self) -> Option<i128> {
        (self.1 == 1).then_some(self.0)
    }
    fn int(n: i128) -> Rat {
        Rat(n, 1)
    }
    fn add(self, o: Rat) -> Rat {
        if self.1 == 1 && o.1 == 1 {
            return Rat(self.0 + o.0, 1);
        }
        Rat::new(self.0 * o.1 + o.0 * self.1, self.1 * o.1)
    }
    fn sub(self, o: Rat) -> Rat {
        self.add(Rat(-o.0, o.1))
    }
    fn mul(self, o: Rat) -> Rat {
        if self.1 == 1 && o.1 == 1 {
            return Rat(self.0 * o.0, 1);
        }
        Rat::new(self.0 * o.0, self.1 * o.1)
    }
    fn div(self, o: Rat) -> Rat {
        Rat::new(self.0 * o.1, self.1 * o.0)
    }
    fn lt(self, o: Rat) -> bool {
        self.0 * o.1 < o.0 * self.1
    }
    fn zero(self) -> bool {
        self.0 == 0
    }
}

/// Is there a solution in which all symbols are at least zero? Returns one.
pub fn solve(cs: &[Con]) -> Option<BTreeMap<V, Rat>> {
    let mut vars: Vec<V> = vec![];
    for c in cs {
        if c.trivial() == Some(false) {
            return None;
        }
        for (v, _) in &c.t {
            if !vars.contains(v) {
                vars.push(*v);
            }
        }
    }
    let n = vars.len();
    let ix: BTreeMap<V, usize> = vars.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    let mut lo: Vec<Option<Rat>> = vec![Some(Rat::int(0)); n];
    let mut hi: Vec<Option<Rat>> = vec![None; n];
    let mut rows: Vec<Vec<Rat>> = vec![]; // basic = sum over columns
    let mut basic: Vec<usize> = vec![];
    let max = |a: Option<Rat>, b: Rat| match a {
        Some(x) if !x.lt(b) => Some(x),
        _ => Some(b),
    };
    let min = |a: Option<Rat>, b: Rat| match a {
        Some(x) if !b.lt(x) => Some(x),
        _ => Some(b),
    };
    for c in cs {
        match c.t.len() {
            0 => {}
            1 => {
                let (v, q) = c.t[0];
                let i = ix[&v];
                let b = Rat::new(-c.c, q);
                if c.eq || q > 0 {
                    lo[i] = max(lo[i], b);
                }
                if c.eq || q < 0 {
                    hi[i] = min(hi[i], b);
                }
            }
            _ => {
                let mut r = vec![Rat::int(0); n];
                for (v, q) in &c.t {
                    r[ix[v]] = Rat::int(*q);
                }
                basic.push(lo.len());
                rows.push(r);
                lo.push(Some(Rat::int(-c.c)));
                hi.push(c.eq.then(|| Rat::int(-c.c)));
            }
        }
    }
    for i in 0..lo.len() {
        if let (Some(a), Some(b)) = (lo[i], hi[i]) {
            if b.lt(a) {
                return None;
            }
        }
    }
    // columns: the nonbasic variables
    let mut nonb: Vec<usize> = (0..n).collect();
    let mut val: Vec<Rat> = lo.iter().map(|x| x.unwrap_or(Rat::int(0))).collect();
    for (k, r) in rows.iter().enumerate() {
        let mut s = Rat::int(0);
        for (j, q) in r.iter().enumerate() {
            s = s.add(q.mul(val[nonb[j]]));
        }
        val[basic[k]] = s;
    }
    for _ in 0..5000 {
        // Bland: the smallest violated basic variable
        let mut pick: Option<(usize, bool)> = None;
        for (k, b) in basic.iter().enumerate() {
            let below = lo[*b].map(|l| val[*b].lt(l)).unwrap_or(false);
            let above = hi[*b].map(|h| h.lt(val[*b])).unwrap_or(false);
            if (below || above) && pick.map(|(p, _)| *b < basic[p]).unwrap_or(true) {
                pick = Some((k, below));
            }
        }
        let Some((k, below)) = pick else {
            return Some(vars.iter().map(|v| (*v, val[ix[v]])).collect());
        };
        let mut col: Option<usize> = None;
        for (j, nb) in nonb.iter().enumerate() {
            let q = rows[k][j];
            if q.zero() {
                continue;
            }
            let up = (q.0 > 0) == below;
            let can = if up { hi[*nb].map(|h| val[*nb].lt(h)).unwrap_or(true) } else { lo[*nb].map(|l| l.lt(val[*nb])).unwrap_or(true) };
            if can && col.map(|c: usize| *nb < nonb[c]).unwrap_or(true) {
                col = Some(j);
            }
        }
        let j = col?;
        let b = basic[k];
        let target = if below { lo[b].unwrap() } else { hi[b].unwrap() };
        let q = rows[k][j];
        let d = target.sub(val[b]).div(q);
        let nb = nonb[j];
        val[nb] = val[nb].add(d);
        val[b] = target;
        for (i, r) in rows.iter().enumerate() {
            if i != k {
                val[basic[i]] = val[basic[i]].add(r[j].mul(d));
            }
        }
        // pivot: nb = (b - sum of the others) / q
        let mut nr: Vec<Rat> = rows[k].iter().map(|x| Rat::int(0).sub(x.div(q))).collect();
        nr[j] = Rat::int(1).div(q);
        for i in 0..rows.len() {
            if i != k {
                let f = rows[i][j];
                if !f.zero() {
                    for c in 0..nr.len() {
                        let x = if c == j { Rat::int(0) } else { rows[i][c] };
                        rows[i][c] = x.add(f.mul(nr[c]));
                    }
                }
            }
        }
        rows[k] = nr;
        basic[k] = nb;
        nonb[j] = b;
    }
    Some(vars.iter().map(|v| (*v, val[ix[v]])).collect())
}
pub fn feasible(cs: &[Con]) -> bool {
    solve(cs).is_some()
}
/// Only the constraints that are connected with `c`.
fn related<'a>(cs: &'a [Con], c: &Con) -> Vec<Con> {
    let mut have: BTreeSet<V> = c.t.iter().map(|x| x.0).collect();
    let mut used = vec![false; cs.len()];
    loop {
        let mut more = false;
        for (i, k) in cs.iter().enumerate() {
            if !used[i] && k.t.iter().any(|x| have.contains(&x.0)) {
                used[i] = true;
                more = true;
                have.extend(k.t.iter().map(|x| x.0));
            }
        }
        if !more {
            break;
        }
    }
    cs.iter().zip(used).filter(|x| x.1).map(|x| x.0.clone()).collect()
}
pub fn compatible(cs: &[Con], c: &Con) -> bool {
    if let Some(b) = c.trivial() {
        return b;
    }
    let mut k = related(cs, c);
    k.push(c.clone());
    feasible(&k)
}
pub fn entails(cs: &[Con], c: &Con) -> bool {
    if let Some(b) = c.trivial() {
        return b;
    }
    if cs.contains(c) {
        return true;
    }
    if c.eq {
        let a = Con { eq: false, ..c.clone() };
        let b = Con { t: c.t.iter().map(|x| (x.0, -x.1)).collect(), c: -c.c, eq: false };
        return entails(cs, &a) && entails(cs, &b);
    }
    !compatible(cs, &c.neg())
}
/// An integer solution, if a simple search finds one.
pub fn model(cs: &[Con], depth: usize) -> Option<BTreeMap<V, i128>> {
    let m = solve(cs)?;
    match m.iter().find(|x| x.1 .1 != 1) {
        None => Some(m.into_iter().map(|(v, r)| (v, r.0)).collect()),
        Some((v, r)) if depth > 0 => {
            let f = r.0.div_euclid(r.1);
            for c in [Con { t: vec![(*v, -1)], c: f, eq: false }, Con { t: vec![(*v, 1)], c: -f - 1, eq: false }] {
                let mut k = cs.to_vec();
                k.push(c);
                if let Some(m) = model(&k, depth - 1) {
                    return Some(m);
                }
            }
            None
        }
        _ => None,
    }
}
/// Forgets everything but the symbols to keep. All symbols are at least zero.
pub fn project(mut cs: Vec<Con>, keep: &BTreeSet<V>) -> Vec<Con> {
    let mut dead: BTreeSet<V> = cs.iter().flat_map(|c| c.t.iter().map(|x| x.0)).filter(|v| !keep.contains(v)).collect();
    while !dead.is_empty() {
        // an equality to substitute with?
        let pick = cs.iter().enumerate().find_map(|(i, c)| if c.eq { c.t.iter().find(|x| dead.contains(&x.0) && x.1.abs() == 1).map(|x| (i, x.0)) } else { None });
        if let Some((i, v)) = pick {
            let e = cs.remove(i);
            let q = e.coef(v);
            let mut out = vec![];
            // v >= 0
            let mut extra = Con { t: vec![(v, 1)], c: 0, eq: false };
            for c in cs.iter().chain(std::iter::once(&extra)) {
                let k = c.coef(v);
                let n = if k == 0 {
                    c.clone()
                } else {
                    let mut n = c.comb(1, &Con { eq: true, ..e.clone() }, -k * q);
                    n.eq = c.eq;
                    n.norm()
                };
                if n.trivial() != Some(true) && !out.contains(&n) {
                    out.push(n);
                }
            }
            extra.c = 0;
            cs = out;
            dead.remove(&v);
            continue;
        }
        // Fourier-Motzkin on the symbol with the fewest combinations
        let cost = |v: V| {
            let (mut p, mut n) = (1, 0);
            for c in &cs {
                match c.coef(v) {
                    0 => {}
                    k if c.eq => {
                        let _ = k;
                        p += 1;
                        n += 1
                    }
                    k if k > 0 => p += 1,
                    _ => n += 1,
                }
            }
            p * n
        };
        let v = *dead.iter().min_by_key(|v| cost(**v)).unwrap();
        dead.remove(&v);
        let (mut lo, mut hi, mut rest) = (vec![Con { t: vec![(v, 1)], c: 0, eq: false }], vec![], vec![]);
        for c in cs {
            let k = c.coef(v);
            if k == 0 {
                rest.push(c);
            } else if c.eq {
                let a = Con { eq: false, ..c.clone() };
                let b = Con { t: c.t.iter().map(|x| (x.0, -x.1)).collect(), c: -c.c, eq: false };
                if k > 0 {
                    lo.push(a);
                    hi.push(b);
                } else {
                    lo.push(b);
                    hi.push(a);
                }
            } else if k > 0 {
                lo.push(c);
            } else {
                hi.push(c);
            }
        }
        for a in &lo {
            for b in &hi {
                let (x, y) = (a.coef(v), -b.coef(v));
                let mut n = a.comb(y, b, x);
                n.eq = false;
                let n = n.norm();
                if n.trivial() != Some(true) && !rest.contains(&n) {
                    rest.push(n);
                }
            }
        }
        cs = rest;
        if cs.len() > 14 {
            cs = reduce(cs);
        }
        dead.retain(|v| cs.iter().any(|c| c.coef(*v) != 0));
    }
    reduce(cs)
}
/// Removes what follows from the rest, and finds equalities.
pub fn reduce(mut cs: Vec<Con>) -> Vec<Con> {
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i].clone();
        let mut rest = cs.clone();
        rest.remove(i);
        if c.trivial() == Some(true) || entails(&rest, &c) {
            cs = rest;
        } else {
            i += 1;
        }
    }
    for i in 0..cs.len() {
        if !cs[i].eq {
            let b = Con { t: cs[i].t.iter().map(|x| (x.0, -x.1)).collect(), c: -cs[i].c, eq: false };
            if entails(&cs, &b) {
                cs[i].eq = true;
                cs[i] = cs[i].clone().norm();
            }
        }
    }
    cs.sort();
    cs.dedup();
    cs
}
