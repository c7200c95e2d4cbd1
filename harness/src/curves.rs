//! C30 to C33: the built-in parametric curves. The definitions are compared with what the library computes by ir.py, as
//! bits are out of reach of the solvers here; this replays its counterexamples. The catalogue is decided by Kani.
#[cfg(not(kani))]
use crate::kani;
use crate::{harnesses, witness};
use lcms2::plugins::ParametricCurvesCollection;

type Catalogue = <ParametricCurvesCollection as IntoIterator>::Item;

/// What counts as zero for a parameter that is divided by
const TINY: f64 = 0.0001;
const PLUS_INF: f64 = 1e22;

fn eq(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
fn zero(x: f64) -> bool {
    x.abs() < TINY
}

/// The definitions, as in the ICC specification and Little CMS 2.13.1
#[no_mangle]
pub fn vp_definition(curve: i32, p: &[f64; 7], r: f64) -> f64 {
    let [g, a, b, c, d, e, f] = *p;
    match curve {
        1 if r < 0.0 => if zero(g - 1.0) { r } else { 0.0 },
        1 => r.powf(g),
        -1 if r < 0.0 => if zero(g - 1.0) { r } else { 0.0 },
        -1 => if zero(g) { PLUS_INF } else { r.powf(1.0 / g) },

        2 if zero(a) => 0.0,
        2 if r < -b / a => 0.0,
        2 => power(a * r + b, g, 0.0, 0.0),
        -2 if zero(g) || zero(a) || r < 0.0 => 0.0,
        -2 => {
            let x = (r.powf(1.0 / g) - b) / a;
            if x < 0.0 { 0.0 } else { x }
        }

        3 if zero(a) => 0.0,
        3 if r < (-b / a).max(0.0) => c,
        3 => power(a * r + b, g, c, 0.0),
        -3 if zero(a) => 0.0,
        -3 if r < c => -b / a,
        -3 => if r - c > 0.0 { ((r - c).powf(1.0 / g) - b) / a } else { 0.0 },

        4 if r >= d => power(a * r + b, g, 0.0, 0.0),
        4 => r * c,
        -4 => {
            let break_point = a * d + b;
            if r >= if break_point < 0.0 { 0.0 } else { break_point.powf(g) } {
                if zero(g) || zero(a) { 0.0 } else { (r.powf(1.0 / g) - b) / a }
            } else if zero(c) {
                0.0
            } else {
                r / c
            }
        }

        5 if r >= d => power(a * r + b, g, e, e),
        5 => r * c + f,
        -5 if r >= c * d + f => {
            let y = r - e;
            if y < 0.0 || zero(g) || zero(a) { 0.0 } else { (y.powf(1.0 / g) - b) / a }
        }
        -5 => if zero(c) { 0.0 } else { (r - f) / c },

        6 if a * r + b < 0.0 => c,
        6 => (a * r + b).powf(g) + c,
        -6 if zero(a) || r - c < 0.0 => 0.0,
        -6 => ((r - c).powf(1.0 / g) - b) / a,

        7 => {
            let x = b * r.powf(g) + c;
            if x <= 0.0 { d } else { a * x.log10() + d }
        }
        -7 if zero(g) || zero(a) || zero(b) => 0.0,
        -7 => ((10.0f64.powf((r - d) / a) - c) / b).powf(1.0 / g),

        // The first parameter is no gamma here
        8 => {
            let [a, b, c, d, e, ..] = *p;
            a * b.powf(c * r + d) + e
        }
        -8 => {
            let [a, b, c, d, e, ..] = *p;
            let y = r - e;
            if y < 0.0 || zero(a) || zero(c) { 0.0 } else { ((y / a).log10() / b.log10() - d) / c }
        }

        108 => if zero(g) { 0.0 } else { (1.0 - (1.0 - r).powf(1.0 / g)).powf(1.0 / g) },
        -108 => 1.0 - (1.0 - r.powf(g)).powf(g),

        109 => 0.5 / sigmoid(g, 1.0) * sigmoid(g, 2.0 * r - 1.0) + 0.5,
        -109 => {
            let t = (r - 0.5) / (0.5 / sigmoid(g, 1.0));
            (-(1.0 / (t + 0.5) - 1.0).ln() / g + 1.0) / 2.0
        }
        _ => unreachable!(),
    }
}
/// base ^ g + add, or `otherwise` when the base is not positive
fn power(base: f64, g: f64, add: f64, otherwise: f64) -> f64 {
    if base > 0.0 {
        if add == 0.0 && otherwise == 0.0 { base.powf(g) } else { base.powf(g) + add }
    } else {
        otherwise
    }
}
fn sigmoid(k: f64, t: f64) -> f64 {
    1.0 / (1.0 + (-k * t).exp()) - 0.5
}

fn parameters(curve: i32) -> usize {
    match curve.abs() {
        1 | 108 | 109 => 1,
        2 => 3,
        3 | 6 => 4,
        4 | 7 | 8 => 5,
        _ => 7,
    }
}

fn evaluate(curve: i32) {
    let n = parameters(curve);
    let mut p = [0.0; 7];
    let mut i = 0;
    while i < n {
        p[i] = kani::any();
        i += 1;
    }
    let r: f64 = kani::any();
    #[cfg(not(kani))]
    {
        compare(curve, &p, r);
        if std::env::var_os("VP_SEARCH").is_some() {
            search(curve, &p, r, |q, s| {
                let (got, expected) = values(curve, q, s);
                // clear of what large numbers make of rounding
                if close(got, expected) || got.abs() > 1e15 || expected.abs() > 1e15 {
                    return Ok(());
                }
                Err(format!("curve {} with parameters {:?} gives {:e} for {:e}; its definition gives {:e}", curve,
                            &q[..n], got, s, expected))
            });
        }
    }
    witness!(true, "evaluated");
}

#[cfg(not(kani))]
fn compare(curve: i32, p: &[f64; 7], r: f64) {
    let (got, expected) = values(curve, p, r);
    assert!(close(got, expected), "curve {} with parameters {:?} gives {:e} for {:e}; its definition gives {:e}", curve,
            &p[..parameters(curve)], got, r, expected);
}
#[cfg(not(kani))]
fn values(curve: i32, p: &[f64; 7], r: f64) -> (f64, f64) {
    let n = parameters(curve);
    let f = Catalogue::default().evaluator;
    let got = f(curve, &p[..n], r);
    let mut more = p.to_vec();
    more.push(0.375);
    let with_more = f(curve, &more, r);
    assert!(close(got, with_more), "curve {} depends on more than its {} parameters", curve, n);
    (got, vp_definition(curve, p, r))
}
/// Equal but for rounding
#[cfg(not(kani))]
fn close(a: f64, b: f64) -> bool {
    eq(a, b) || (a - b).abs() <= 1e-9 * (a.abs() + b.abs()) || (a - b).abs() <= 1e-12
}

/// The pow of the solver's counterexample is arbitrary: looks near it for one with the real pow.
#[cfg(not(kani))]
fn search(curve: i32, p: &[f64; 7], r: f64, holds: impl Fn(&[f64; 7], f64) -> Result<(), String>) {
    const NICE: [f64; 14] = [0.5, 1.0, 2.0, 0.25, 0.0, -0.5, -1.0, 3.0, 0.75, -2.0, 2.5, 10.0, 1e-5, -1e-5];
    let n = parameters(curve);
    let mut state = 1u64;
    let mut random = |below: usize| {
        state = state.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (state >> 33) as usize % below
    };
    for round in 0..2_000_000u32 {
        let (mut q, mut s) = (*p, r);
        for k in 0..=n {
            let (pick, other) = (random(28), random(n));
            let v = match pick {
                0..=13 => NICE[pick],
                14..=16 => q[other],
                17..=18 => if k < n { -q[k] } else { -s },
                19 => (if k < n { q[k] } else { s }) * 0.5,
                _ => continue,
            };
            if k < n { q[k] = v } else { s = v }
        }
        if round % 4 == 0 && n >= 3 {
            // on a break point
            s = match round / 4 % 3 { 0 => -q[2] / q[1], 1 => q[4.min(n - 1)], _ => q[3.min(n - 1)] };
        }
        if let Err(e) = holds(&q, s) {
            print!("FOUND");
            for v in q[..n].iter().chain([&s]) {
                print!(" {}", v.to_le_bytes().map(|b| format!("{:02x}", b)).concat());
            }
            println!();
            panic!("{}", e);
        }
    }
}

/// C41: the reversed curve undoes the curve. The conditions are those of `invertible` in ir.py.
#[cfg(not(kani))]
fn invertible(curve: i32, p: &[f64; 7], r: f64) -> bool {
    let [g, a, b, c, d, e, f] = *p;
    let big = |x: f64| x.abs() >= TINY;
    let base = a * r + b;
    let at = (a * d + b).powf(g);
    let rising = g >= TINY && a >= TINY && c >= TINY && a * d + b >= 0.0;
    match curve {
        1 => (r > 0.0 && big(g)) || (r == 0.0 && g >= TINY) || (r < 0.0 && g == 1.0),
        2 => big(g) && a >= TINY && base > 0.0 && r >= 0.0,
        3 => big(g) && a >= TINY && base > 0.0 && r >= 0.0,
        4 => rising && c * d <= at && (r != d || base > 0.0),
        5 => rising && c * d + f <= at + e && (r != d || base > 0.0),
        6 => big(g) && big(a) && base > 0.0,
        7 => big(g) && big(a) && big(b) && r > 0.0 && b * r.powf(g) + c > 0.0,
        8 => a >= TINY && big(c) && b > 0.0 && b != 1.0,
        108 => g >= TINY && r > 0.0 && r < 1.0,
        _ => g != 0.0 && r >= 0.0 && r <= 1.0,
    }
}
#[cfg(not(kani))]
fn undone(curve: i32, p: &[f64; 7], r: f64) -> Result<(), String> {
    let n = parameters(curve);
    let f = Catalogue::default().evaluator;
    if !invertible(curve, p, r) {
        return Ok(());
    }
    let y = f(curve, &p[..n], r);
    let x = f(-curve, &p[..n], y);
    // where rounding does not matter: not flat, not steep, no large numbers
    let h = 1e-4 * (1.0 + r.abs());
    let slope = |h: f64| ((f(curve, &p[..n], r + h) - y) / h).abs();
    let fair = |s: f64| s > 1e-3 && s < 1e3;
    let tame = p.iter().chain([&r, &y]).all(|v| v.abs() <= 1e3);
    if !tame || !fair(slope(h)) || !fair(slope(-h)) || (x - r).abs() <= 1e-5 * (1.0 + r.abs()) {
        return Ok(());
    }
    Err(format!("curve {} with parameters {:?} takes {:e} to {:e}, which the reversed curve takes to {:e}", curve,
                &p[..n], r, y, x))
}
#[cfg(not(kani))]
fn there_and_back(curve: i32) {
    let n = parameters(curve);
    let mut p = [0.0; 7];
    for i in 0..n {
        p[i] = kani::any();
    }
    let r: f64 = kani::any();
    if let Err(e) = undone(curve, &p, r) {
        panic!("{}", e);
    }
    if std::env::var_os("VP_SEARCH").is_some() {
        search(curve, &p, r, |q, s| undone(curve, q, s));
    }
    crate::kani::witnessed("there and back");
}
#[cfg(kani)]
fn there_and_back(_: i32) {}

#[cfg(not(kani))]
fn other() {
    let t: i32 = kani::any();
    let p: [f64; 7] = kani::any();
    let r: f64 = kani::any();
    let f = Catalogue::default().evaluator;
    assert!(f(t, &p, r) == 0.0, "type {} is no curve, but evaluates to {:e}", t, f(t, &p, r));
    assert!(f(t, &[], r) == 0.0);
    crate::kani::witnessed("other");
}
#[cfg(kani)]
fn other() {}

/// C42: what pow, exp and logarithms give is left open
#[cfg(kani)]
mod any {
    pub fn two(_: f64, _: f64) -> f64 {
        kani::any()
    }
    pub fn power(_: f64, _: i32) -> f64 {
        kani::any()
    }
    pub fn one(_: f64) -> f64 {
        kani::any()
    }
}
fn total(curve: i32) {
    let n = parameters(curve);
    let p: [f64; 8] = kani::any();
    let more: usize = kani::any();
    kani::assume(more <= 8 - n);
    let r: f64 = kani::any();
    let f = Catalogue::default().evaluator;
    let y = f(curve, &p[..n + more], r);
    witness!(r.is_nan(), "no number");
    #[cfg(not(kani))]
    strange(curve, &p);
}
#[cfg(not(kani))]
fn strange(curve: i32, p: &[f64; 8]) {
    const VALUES: [f64; 16] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 1.0, -1.0, 0.5, 2.0, f64::MAX,
                               f64::MIN, f64::MIN_POSITIVE, 5e-324, 1e-5, 0.25, 3.0];
    let n = parameters(curve);
    let f = Catalogue::default().evaluator;
    let mut state = 1u64;
    for _ in 0..300_000u32 {
        let mut q = *p;
        let mut r = 0.0;
        for k in 0..=n {
            state = state.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let v = VALUES[(state >> 33) as usize % 16];
            if k < n { q[k] = v } else { r = v }
        }
        if std::panic::catch_unwind(|| f(curve, &q[..n], r)).is_err() {
            panic!("curve {} with parameters {:?} panics for {:e}", curve, &q[..n], r);
        }
    }
}

macro_rules! curve {
    ($($name:ident: $curve:literal),*; $($round:ident: $back:literal),*; $($total:ident: $any:literal),*) => {
        harnesses! {
            $(
                #[kani::unwind(13)]
                fn $name() {
                    evaluate($curve);
                }
            )*
            $(
                #[kani::unwind(13)]
                fn $round() {
                    there_and_back($back);
                }
            )*
            $(
                #[kani::unwind(13)]
                #[kani::stub(f64::powf, any::two)]
                #[kani::stub(f64::powi, any::power)]
                #[kani::stub(f64::exp, any::one)]
                #[kani::stub(f64::ln, any::one)]
                #[kani::stub(f64::log10, any::one)]
                #[kani::stub(f64::log2, any::one)]
                #[kani::stub(f64::log, any::two)]
                #[kani::stub(f64::sqrt, any::one)]
                #[kani::stub(f64::exp2, any::one)]
                fn $total() {
                    total($any);
                }
            )*
            #[kani::unwind(13)]
            fn other_types() {
                other();
            }
            #[kani::unwind(13)]
            fn lookup() {
                let t: i32 = kani::any();
                let set = Catalogue::default();
                let found = set.is_in_set(t);
                let (n, name) = (set.curves.len(), t.unsigned_abs());
                let known = matches!(name, 1..=8 | 108 | 109);
                assert!(found.is_some() == known);
                assert!(n == 10);
                if let Some(i) = found {
                    assert!(i < n);
                    assert!(set.curves[i].function_curve_id.unsigned_abs() == name);
                    assert!(set.curves[i].parameter_count as usize == parameters(t));
                    assert!(set.is_in_set(-t) == found);
                    witness!(t == -109, "the last, reversed");
                }
                std::mem::forget(set);
            }
        }
    };
}
curve! {
    p1: 1, p2: 2, p3: 3, p4: 4, p5: 5, p6: 6, p7: 7, p8: 8, p108: 108, p109: 109,
    m1: -1, m2: -2, m3: -3, m4: -4, m5: -5, m6: -6, m7: -7, m8: -8, m108: -108, m109: -109;
    r1: 1, r2: 2, r3: 3, r4: 4, r5: 5, r6: 6, r7: 7, r8: 8, r108: 108, r109: 109;
    t1: 1, t2: 2, t3: 3, t4: 4, t5: 5, t6: 6, t7: 7, t8: 8, t108: 108, t109: 109,
    u1: -1, u2: -2, u3: -3, u4: -4, u5: -5, u6: -6, u7: -7, u8: -8, u108: -108, u109: -109
}
