//! Correct rounding, decided with integers only: an independent second opinion
//! on the values the generators expect.
use std::cmp::Ordering;

#[derive(Clone)]
struct Big(Vec<u32>);

impl Big {
    fn from(x: u64) -> Big {
        Big(vec![x as u32, (x >> 32) as u32])
    }
    fn mul_add(&mut self, m: u32, a: u32) {
        let mut carry = a as u64;
        for d in &mut self.0 {
            let x = *d as u64 * m as u64 + carry;
            *d = x as u32;
            carry = x >> 32;
        }
        if carry > 0 {
            self.0.push(carry as u32);
        }
    }
    fn mul_pow(&mut self, base: u32, n: u32) {
        for _ in 0..n {
            self.mul_add(base, 0);
        }
    }
    fn cmp(&self, o: &Big) -> Ordering {
        let len = |b: &Big| b.0.iter().rposition(|d| *d != 0).map_or(0, |i| i + 1);
        let (a, b) = (len(self), len(o));
        a.cmp(&b).then_with(|| self.0[..a].iter().rev().cmp(o.0[..b].iter().rev()))
    }
}

/// digits * 10^e10 compared with m * 2^e2
fn compare(digits: &Big, e10: i32, m: u64, e2: i32) -> Ordering {
    let (mut l, mut r) = (digits.clone(), Big::from(m));
    if e10 >= 0 {
        l.mul_pow(10, e10 as u32);
    } else {
        r.mul_pow(10, -e10 as u32);
    }
    if e2 >= 0 {
        r.mul_pow(2, e2 as u32);
    } else {
        l.mul_pow(2, -e2 as u32);
    }
    l.cmp(&r)
}

/// The magnitude of a float as m * 2^e.
fn parts(bits: u32) -> (u64, i32) {
    let (e, m) = ((bits >> 23) as i32, (bits & 0x7f_ffff) as u64);
    if e == 0 {
        (m, -149)
    } else {
        (m | 0x80_0000, e - 150)
    }
}

/// Whether `val` is the float nearest to the decimal `text`, ties to even
/// (None: too large to decide here).
pub fn nearest(text: &str, val: f32) -> Option<bool> {
    let (neg, t) = match text.as_bytes().first() {
        Some(b'-') => (true, &text[1..]),
        Some(b'+') => (false, &text[1..]),
        _ => (false, text),
    };
    let (mant, exp) = match t.find(['e', 'E']) {
        Some(i) => (&t[..i], t[i + 1..].parse::<i32>().ok()?),
        None => (t, 0),
    };
    if mant.len() > 700 || exp.abs() > 600 {
        return None;
    }
    let mut digits = Big::from(0);
    let mut scale = 0;
    let mut after = false;
    let mut zero = true;
    for c in mant.chars() {
        match c.to_digit(10) {
            Some(d) => {
                digits.mul_add(10, d);
                zero &= d == 0;
                scale += after as i32;
            }
            None => after = true,
        }
    }
    if val.is_nan() || (!zero && val != 0.0 && val.is_sign_negative() != neg) {
        return Some(false);
    }
    let bits = val.to_bits() & 0x7fff_ffff;
    let e10 = exp - scale;
    if zero {
        return Some(bits == 0);
    }
    let even = bits & 1 == 0;
    let inf = 0x7f80_0000;
    // not above the midpoint with the next larger one
    if bits != inf {
        let (m, e) = parts(bits);
        let up = compare(&digits, e10, 2 * m + 1, e - 1);
        if up == Ordering::Greater || (up == Ordering::Equal && !even) {
            return Some(false);
        }
    }
    // not below the midpoint with the next smaller one
    if bits != 0 {
        let (m, e) = parts(bits - 1);
        let down = compare(&digits, e10, 2 * m + 1, e - 1);
        if down == Ordering::Less || (down == Ordering::Equal && !even) {
            return Some(false);
        }
    }
    Some(true)
}

/// True if decided. A wrong expectation is a fault of the harness.
pub fn check(text: &str, val: f32) -> bool {
    match nearest(text, val) {
        None => false,
        Some(true) => true,
        Some(false) => panic!("HARNESS: {text} is not nearest to {val:?}"),
    }
}
