//! Reference model of the arithmetic, written from the property statements, on exact wide integers
//! (crate `uint`), independent of the arithmetic types the contracts use.
#![allow(clippy::all)]
pub use wide::W;
#[allow(deprecated, unused)]
mod wide {
    use uint::construct_uint;
    construct_uint! {
        /// wide enough for every product of four 128-bit numbers
        pub struct W(8);
    }
}
pub const E18: u128 = 1_000_000_000_000_000_000;

pub fn w(x: u128) -> W {
    W::from(x)
}
pub fn to128(x: W) -> Option<u128> {
    if x.bits() > 128 {
        None
    } else {
        Some(x.low_u128())
    }
}
pub fn fl(n: W, d: W) -> W {
    n / d
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SwapRef {
    /// output before commission
    pub gross: u128,
    pub comm: u128,
    pub ret: u128,
    /// None: does not fit 128 bits
    pub spread: Option<u128>,
}

/// constant product output for `o` against reserves (x, y); None when there is no offer reserve
pub fn swap_ref(x: u128, y: u128, o: u128) -> Option<SwapRef> {
    if x == 0 {
        return None;
    }
    let xo = w(x) + w(o);
    let gross = to128(fl(w(y) * w(o), xo))?;
    let comm = to128(fl(w(gross) * w(3), w(1000)))?;
    let spread = to128(fl(w(y) * w(o) * w(o), w(x) * xo));
    Some(SwapRef {
        gross,
        comm,
        ret: gross - comm,
        spread,
    })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Verdict {
    Accept,
    Refuse,
    /// the properties do not say (amounts beyond 128 bits, divisions by zero, zero payouts)
    Unspec,
}

pub fn pow10(n: u32) -> W {
    let mut r = w(1);
    for _ in 0..n {
        r = r * w(10);
    }
    r
}

/// decision of the price limit; belief and max_spread in units of 10^-18
pub fn limit_ref(
    o: u128,
    s: &SwapRef,
    od: u8,
    ad: u8,
    belief: Option<u128>,
    max_spread: Option<u128>,
) -> Verdict {
    let spread = match s.spread {
        Some(x) => x,
        None => return Verdict::Unspec,
    };
    let d = if od > ad { od - ad } else { ad - od };
    if d > 19 {
        return Verdict::Unspec;
    }
    let f = pow10(d as u32);
    let (mut on, mut rn, mut sn) = (w(o), w(s.ret), w(spread));
    if od > ad {
        rn = rn * f;
        sn = sn * f;
    } else {
        on = on * f;
    }
    // scaled amounts beyond 128 bits: not specified
    if on.bits() > 128 || rn.bits() > 128 || sn.bits() > 128 {
        return Verdict::Unspec;
    }
    match (belief, max_spread) {
        (Some(b), Some(m)) => {
            if b == 0 {
                return Verdict::Unspec;
            }
            let expected = fl(on * w(E18), w(b));
            if rn >= expected {
                return Verdict::Accept;
            }
            if expected.bits() > 190 {
                return Verdict::Unspec;
            }
            let ratio = fl((expected - rn) * w(E18), expected);
            if ratio > w(m) {
                Verdict::Refuse
            } else {
                Verdict::Accept
            }
        }
        (None, Some(m)) => {
            if (rn + sn).is_zero() {
                return Verdict::Unspec;
            }
            let ratio = fl(sn * w(E18), rn + sn);
            if ratio > w(m) {
                Verdict::Refuse
            } else {
                Verdict::Accept
            }
        }
        _ => Verdict::Accept,
    }
}

/// decision of the slippage tolerance for deposits d against reserves p
pub fn slippage_ref(d: [u128; 2], p: [u128; 2], tol: Option<u128>) -> Verdict {
    let tol = match tol {
        None => return Verdict::Accept,
        Some(t) => t,
    };
    if tol > E18 {
        return Verdict::Refuse;
    }
    if d[0] == 0 || d[1] == 0 || p[0] == 0 || p[1] == 0 {
        return Verdict::Unspec;
    }
    for i in 0..2 {
        let j = 1 - i;
        let dr = fl(w(d[i]) * w(E18), w(d[j]));
        let pr = fl(w(p[i]) * w(E18), w(p[j]));
        // W product of a 188-bit ratio with a 60-bit factor is exact
        let lhs = fl(dr * w(E18 - tol), w(E18));
        if lhs > pr {
            return Verdict::Refuse;
        }
    }
    Verdict::Accept
}

pub fn isqrt(n: W) -> W {
    if n.is_zero() {
        return n;
    }
    let mut lo = w(0);
    let mut hi = W::one() << ((n.bits() + 1) / 2 + 1);
    // invariant lo^2 <= n < hi^2
    while hi - lo > w(1) {
        let mid = (lo + hi) >> 1;
        if mid * mid <= n {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    lo
}

/// LP minted for deposits d, supply t, reserves p. None: not computable (empty reserve with supply)
/// or does not fit in 128 bits
pub fn share_ref(d: [u128; 2], p: [u128; 2], t: u128) -> Option<u128> {
    if t == 0 {
        return to128(isqrt(w(d[0]) * w(d[1])));
    }
    if p[0] == 0 || p[1] == 0 {
        return None;
    }
    let a = fl(w(d[0]) * w(t), w(p[0]));
    let b = fl(w(d[1]) * w(t), w(p[1]));
    // both sides are computed by the system: both have to fit
    if a.bits() > 128 || b.bits() > 128 {
        return None;
    }
    Some(std::cmp::min(a.low_u128(), b.low_u128()))
}

/// is `r` an allowed payout of reserve p for redeeming a of t?
pub fn refund_ok(p: u128, a: u128, t: u128, r: u128) -> bool {
    // r <= p a / t
    if w(r) * w(t) > w(p) * w(a) {
        return false;
    }
    // p a / t - r < 1 + p / 10^18   <=>  (p a - r t) 10^18 < t 10^18 + t p
    (w(p) * w(a) - w(r) * w(t)) * w(E18) < w(t) * w(E18) + w(t) * w(p)
}

/// value behind an LP unit must not fall: k1 / t1^2 >= k0 / t0^2
pub fn value_not_lower(p0: [u128; 2], t0: u128, p1: [u128; 2], t1: u128) -> bool {
    w(p1[0]) * w(p1[1]) * (w(t0) * w(t0)) >= w(p0[0]) * w(p0[1]) * (w(t1) * w(t1))
}

/// multiply without the 512-bit bound mattering: all products above stay below 2^512
pub fn product_not_lower(p0: [u128; 2], p1: [u128; 2]) -> bool {
    w(p1[0]) * w(p1[1]) >= w(p0[0]) * w(p0[1])
}

pub struct RevRef {
    /// lowest and highest allowed gross amount
    pub g_lo: u128,
    pub g_hi: u128,
}
pub fn gross_for(a: u128) -> RevRef {
    let hi = to128(fl(w(a) * w(1000), w(997)));
    let hi = hi.unwrap_or(u128::MAX);
    let slack = 1 + a / E18;
    RevRef {
        g_lo: hi.saturating_sub(slack),
        g_hi: hi,
    }
}
/// largest offer whose gross output does not exceed g (g < y)
pub fn quote_for(x: u128, y: u128, g: u128) -> W {
    fl(w(x) * w(g), w(y) - w(g))
}

#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn basics() {
        assert_eq!(isqrt(w(99)), w(9));
        assert_eq!(isqrt(w(100)), w(10));
        assert_eq!(isqrt(w(u128::MAX) * w(u128::MAX)), w(u128::MAX));
        let s = swap_ref(30_000_000_000, 20_000_000_000, 1_500_000_000).unwrap();
        assert_eq!(s.gross, 952_380_952);
        assert_eq!(s.spread, Some(47_619_047));
    }
}
