//! Reduced ordered binary decision diagrams with complement edges.
//! They are the canonical representation of the boolean components of the
//! abstract domain: equality of two functions is equality of two edges.
use rustc_hash::FxHashMap;

pub type B = u32;
pub const T: B = 0;
pub const F: B = 1;

/// Number of byte slots; the level of bit `b` of slot `s` is `b*SLOTS + s`.
pub const SLOTS: u32 = 8192;
const TERM: u32 = u32::MAX;

#[derive(Clone, Copy)]
struct Node {
    var: u32,
    lo: B,
    hi: B,
}

pub struct Bdd {
    nodes: Vec<Node>,
    uniq: FxHashMap<(u32, B, B), u32>,
    and_c: FxHashMap<(B, B), B>,
    xor_c: FxHashMap<(B, B), B>,
    ite_c: FxHashMap<(B, B, B), B>,
    pub limit: usize,
}

#[derive(Debug)]
pub struct Blowup;

impl Bdd {
    pub fn new() -> Self {
        Bdd {
            nodes: vec![Node { var: TERM, lo: T, hi: T }],
            uniq: Default::default(),
            and_c: Default::default(),
            xor_c: Default::default(),
            ite_c: Default::default(),
            limit: 8_000_000,
        }
    }
    pub fn size(&self) -> usize {
        self.nodes.len()
    }
    #[inline]
    pub fn not(&self, a: B) -> B {
        a ^ 1
    }
    #[inline]
    fn top(&self, a: B) -> u32 {
        self.nodes[(a >> 1) as usize].var
    }
    #[inline]
    fn cof(&self, a: B, v: u32) -> (B, B) {
        let n = self.nodes[(a >> 1) as usize];
        if n.var == v {
            let c = a & 1;
            (n.lo ^ c, n.hi ^ c)
        } else {
            (a, a)
        }
    }
    fn mk(&mut self, var: u32, lo: B, hi: B) -> B {
        if lo == hi {
            return lo;
        }
        // the high edge is kept regular
        let c = hi & 1;
        let (lo, hi) = (lo ^ c, hi ^ c);
        let nodes = &mut self.nodes;
        let id = *self.uniq.entry((var, lo, hi)).or_insert_with(|| {
            nodes.push(Node { var, lo, hi });
            (nodes.len() - 1) as u32
        });
        if self.nodes.len() > self.limit {
            std::panic::panic_any(Blowup);
        }
        (id << 1) | c
    }
    pub fn var(&mut self, slot: u32, bit: u32) -> B {
        debug_assert!(slot < SLOTS && bit < 8);
        self.mk(bit * SLOTS + slot, F, T)
    }
    pub fn and(&mut self, a: B, b: B) -> B {
        if a == F || b == F || a == b ^ 1 {
            return F;
        }
        if a == T || a == b {
            return b;
        }
        if b == T {
            return a;
        }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.and_c.get(&k) {
            return r;
        }
        let v = self.top(a).min(self.top(b));
        let (a0, a1) = self.cof(a, v);
        let (b0, b1) = self.cof(b, v);
        let lo = self.and(a0, b0);
        let hi = self.and(a1, b1);
        let r = self.mk(v, lo, hi);
        self.and_c.insert(k, r);
        r
    }
    pub fn or(&mut self, a: B, b: B) -> B {
        self.and(a ^ 1, b ^ 1) ^ 1
    }
    pub fn xor(&mut self, a: B, b: B) -> B {
        if a == b {
            return F;
        }
        if a == b ^ 1 {
            return T;
        }
        let c = (a & 1) ^ (b & 1);
        let (a, b) = (a & !1, b & !1);
        // T is 0 with complement 1
        if a == T {
            return b ^ 1 ^ c;
        }
        if b == T {
            return a ^ 1 ^ c;
        }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.xor_c.get(&k) {
            return r ^ c;
        }
        let v = self.top(a).min(self.top(b));
        let (a0, a1) = self.cof(a, v);
        let (b0, b1) = self.cof(b, v);
        let lo = self.xor(a0, b0);
        let hi = self.xor(a1, b1);
        let r = self.mk(v, lo, hi);
        self.xor_c.insert(k, r);
        r ^ c
    }
    pub fn ite(&mut self, c: B, t: B, e: B) -> B {
        if c == T {
            return t;
        }
        if c == F {
            return e;
        }
        if t == e {
            return t;
        }
        if t == T || t == c {
            return self.or(c, e);
        }
        if t == F || t == c ^ 1 {
            return self.and(c ^ 1, e);
        }
        if e == F || e == c {
            return self.and(c, t);
        }
        if e == T || e == c ^ 1 {
            return self.or(c ^ 1, t);
        }
        if t == e ^ 1 {
            return self.xor(c, e);
        }
        let (c, t, e) = if c & 1 == 1 { (c ^ 1, e, t) } else { (c, t, e) };
        let neg = t & 1;
        let (t, e) = (t ^ neg, e ^ neg);
        if let Some(&r) = self.ite_c.get(&(c, t, e)) {
            return r ^ neg;
        }
        let v = self.top(c).min(self.top(t)).min(self.top(e));
        let (c0, c1) = self.cof(c, v);
        let (t0, t1) = self.cof(t, v);
        let (e0, e1) = self.cof(e, v);
        let lo = self.ite(c0, t0, e0);
        let hi = self.ite(c1, t1, e1);
        let r = self.mk(v, lo, hi);
        self.ite_c.insert((c, t, e), r);
        r ^ neg
    }
    pub fn implies(&mut self, a: B, b: B) -> bool {
        self.and(a, b ^ 1) == F
    }
    /// `a` and `b` agree wherever `g` holds
    pub fn eq_under(&mut self, g: B, a: B, b: B) -> bool {
        if a == b {
            return true;
        }
        let x = self.xor(a, b);
        self.and(g, x) == F
    }
    /// One satisfying assignment as (slot, bit, value) triples.
    pub fn witness(&self, mut a: B) -> Option<Vec<(u32, u32, bool)>> {
        if a == F {
            return None;
        }
        let mut out = vec![];
        while a > 1 {
            let n = self.nodes[(a >> 1) as usize];
            let c = a & 1;
            let (lo, hi) = (n.lo ^ c, n.hi ^ c);
            let (val, nx) = if lo != F { (false, lo) } else { (true, hi) };
            out.push((n.var % SLOTS, n.var / SLOTS, val));
            a = nx;
        }
        if a == F {
            return None;
        }
        Some(out)
    }
    pub fn eval(&self, mut a: B, asg: &FxHashMap<(u32, u32), bool>) -> bool {
        while a > 1 {
            let n = self.nodes[(a >> 1) as usize];
            let c = a & 1;
            let v = asg.get(&(n.var % SLOTS, n.var / SLOTS)).copied().unwrap_or(false);
            a = if v { n.hi ^ c } else { n.lo ^ c };
        }
        a == T
    }
    pub fn eval_bits(&self, w: &[B], asg: &FxHashMap<(u32, u32), bool>) -> u128 {
        w.iter().enumerate().fold(0, |s, (i, b)| s | ((self.eval(*b, asg) as u128) << i))
    }

    // ---------------------------------------------------------------- words
    pub fn konst(&self, v: u128, w: usize) -> Vec<B> {
        (0..w).map(|i| if v >> i & 1 == 1 { T } else { F }).collect()
    }
    pub fn as_const(&self, w: &[B]) -> Option<u128> {
        let mut v = 0;
        for (i, b) in w.iter().enumerate() {
            match *b {
                T => v |= 1u128 << i,
                F => {}
                _ => return None,
            }
        }
        Some(v)
    }
    pub fn slot8(&mut self, slot: u32) -> Vec<B> {
        (0..8).map(|b| self.var(slot, b)).collect()
    }
    /// sum and final carry
    pub fn addc(&mut self, a: &[B], b: &[B], cin: B) -> (Vec<B>, B) {
        let mut c = cin;
        let mut out = Vec::with_capacity(a.len());
        for i in 0..a.len() {
            let x = self.xor(a[i], b[i]);
            let s = self.xor(x, c);
            let g = self.ite(x, c, a[i]);
            out.push(s);
            c = g;
        }
        (out, c)
    }
    pub fn add(&mut self, a: &[B], b: &[B]) -> Vec<B> {
        self.addc(a, b, F).0
    }
    pub fn xor_w(&mut self, a: &[B], b: &[B]) -> Vec<B> {
        a.iter().zip(b).map(|(x, y)| self.xor(*x, *y)).collect()
    }
    pub fn inv(&self, a: &[B]) -> Vec<B> {
        a.iter().map(|x| x ^ 1).collect()
    }
    pub fn sub(&mut self, a: &[B], b: &[B]) -> Vec<B> {
        let nb = self.inv(b);
        self.addc(a, &nb, T).0
    }
    pub fn neg(&mut self, a: &[B]) -> Vec<B> {
        let z = self.konst(0, a.len());
        self.sub(&z, a)
    }
    pub fn ult(&mut self, a: &[B], b: &[B]) -> B {
        let nb = self.inv(b);
        self.addc(a, &nb, T).1 ^ 1
    }
    pub fn slt(&mut self, a: &[B], b: &[B]) -> B {
        let (mut x, mut y) = (a.to_vec(), b.to_vec());
        let n = x.len() - 1;
        x[n] ^= 1;
        y[n] ^= 1;
        self.ult(&x, &y)
    }
    pub fn eq(&mut self, a: &[B], b: &[B]) -> B {
        let mut r = T;
        for i in 0..a.len() {
            let x = self.xor(a[i], b[i]);
            r = self.and(r, x ^ 1);
            if r == F {
                break;
            }
        }
        r
    }
    pub fn eqc(&mut self, a: &[B], v: u128) -> B {
        let mut r = T;
        for (i, x) in a.iter().enumerate() {
            let l = if v >> i & 1 == 1 { *x } else { x ^ 1 };
            r = self.and(r, l);
            if r == F {
                break;
            }
        }
        r
    }
    pub fn nonzero(&mut self, a: &[B]) -> B {
        let mut r = F;
        for x in a {
            r = self.or(r, *x);
        }
        r
    }
    pub fn mux(&mut self, c: B, t: &[B], e: &[B]) -> Vec<B> {
        (0..t.len()).map(|i| self.ite(c, t[i], e[i])).collect()
    }
    pub fn bitop(&mut self, op: u8, a: &[B], b: &[B]) -> Vec<B> {
        (0..a.len())
            .map(|i| match op {
                b'&' => self.and(a[i], b[i]),
                b'|' => self.or(a[i], b[i]),
                _ => self.xor(a[i], b[i]),
            })
            .collect()
    }
    /// `kind`: l, r (logical), a (arithmetic), rotl 'L', rotr 'R'; the amount is taken modulo the width
    pub fn shift(&mut self, kind: u8, a: &[B], amt: &[B]) -> Vec<B> {
        let w = a.len();
        let stages = w.trailing_zeros() as usize;
        let mut cur = a.to_vec();
        for s in 0..stages {
            if s >= amt.len() {
                break;
            }
            let k = 1usize << s;
            if amt[s] == F {
                continue;
            }
            let fill = if kind == b'a' { cur[w - 1] } else { F };
            let sh: Vec<B> = (0..w)
                .map(|i| match kind {
                    b'l' => {
                        if i >= k {
                            cur[i - k]
                        } else {
                            F
                        }
                    }
                    b'r' | b'a' => {
                        if i + k < w {
                            cur[i + k]
                        } else {
                            fill
                        }
                    }
                    b'L' => cur[(i + w - k) % w],
                    _ => cur[(i + k) % w],
                })
                .collect();
            cur = self.mux(amt[s], &sh, &cur);
        }
        cur
    }
    pub fn mul(&mut self, a: &[B], b: &[B]) -> Vec<B> {
        let w = a.len();
        let mut acc = self.konst(0, w);
        for i in 0..w {
            if b[i] == F {
                continue;
            }
            let part: Vec<B> = (0..w).map(|j| if j >= i { self.and(a[j - i], b[i]) } else { F }).collect();
            acc = self.add(&acc, &part);
        }
        acc
    }
    /// unsigned quotient and remainder (divisor non-zero)
    pub fn udivrem(&mut self, a: &[B], b: &[B]) -> (Vec<B>, Vec<B>) {
        let w = a.len();
        // few possible divisors: one at a time
        if let Some(i) = b.iter().position(|x| *x != F && *x != T) {
            if b.iter().filter(|x| **x != F && **x != T).count() <= 3 {
                let c = b[i];
                let mut b1 = b.to_vec();
                let mut b0 = b.to_vec();
                for k in 0..w {
                    if b[k] == c {
                        (b1[k], b0[k]) = (T, F)
                    } else if b[k] == c ^ 1 {
                        (b1[k], b0[k]) = (F, T)
                    }
                }
                let (q1, r1) = self.udivrem(a, &b1);
                let (q0, r0) = self.udivrem(a, &b0);
                return (self.mux(c, &q1, &q0), self.mux(c, &r1, &r0));
            }
        }
        let mut rem = self.konst(0, w + 1);
        let mut bb = b.to_vec();
        bb.push(F);
        let mut q = vec![F; w];
        for i in (0..w).rev() {
            rem.rotate_right(1);
            rem[0] = a[i];
            let lt = self.ult(&rem, &bb);
            let d = self.sub(&rem, &bb);
            q[i] = lt ^ 1;
            rem = self.mux(lt, &rem, &d);
        }
        rem.pop();
        (q, rem)
    }
    pub fn resize(&self, a: &[B], w: usize, signed: bool) -> Vec<B> {
        let mut v: Vec<B> = a.iter().take(w).copied().collect();
        let f = if signed { *a.last().unwrap_or(&F) } else { F };
        v.resize(w, f);
        v
    }
    /// all values of `w` possible under `g`, up to `max`
    pub fn values(&mut self, g: B, w: &[B], max: usize) -> Option<Vec<(u128, B)>> {
        fn go(m: &mut Bdd, g: B, w: &[B], i: usize, acc: u128, out: &mut Vec<(u128, B)>, max: usize) -> bool {
            if g == F {
                return true;
            }
            if i == 0 {
                out.push((acc, g));
                return out.len() <= max;
            }
            let b = w[i - 1];
            let g0 = m.and(g, b ^ 1);
            if !go(m, g0, w, i - 1, acc, out, max) {
                return false;
            }
            let g1 = m.and(g, b);
            go(m, g1, w, i - 1, acc | 1 << (i - 1), out, max)
        }
        let mut out = vec![];
        if go(self, g, w, w.len(), 0, &mut out, max) {
            Some(out)
        } else {
            None
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn adder_sub_cmp() {
        let mut m = Bdd::new();
        let a = m.slot8(0);
        let b = m.slot8(1);
        let (s, c) = m.addc(&a, &b, F);
        let lt = m.ult(&a, &b);
        let st = m.slt(&a, &b);
        let d = m.sub(&a, &b);
        let x = m.mul(&a, &b);
        for i in (0..256u32).step_by(7) {
            for j in (0..256u32).step_by(5) {
                let mut asg = FxHashMap::default();
                for k in 0..8 {
                    asg.insert((0, k), i >> k & 1 == 1);
                    asg.insert((1, k), j >> k & 1 == 1);
                }
                assert_eq!(m.eval_bits(&s, &asg) as u32, (i + j) & 255);
                assert_eq!(m.eval(c, &asg), i + j > 255);
                assert_eq!(m.eval(lt, &asg), i < j);
                assert_eq!(m.eval(st, &asg), (i as u8 as i8) < (j as u8 as i8));
                assert_eq!(m.eval_bits(&d, &asg) as u32, i.wrapping_sub(j) & 255);
                assert_eq!(m.eval_bits(&x, &asg) as u32, (i * j) & 255);
            }
        }
        let y = m.ite(c, lt, st);
        let z1 = m.and(c, lt);
        let z2 = m.and(c ^ 1, st);
        let z = m.or(z1, z2);
        assert_eq!(y, z);
    }
}
