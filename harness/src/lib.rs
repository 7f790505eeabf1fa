//! Entry points for the symbolic executor.  Every function is one public operation of
//! babs on operands that are given as raw digit arrays; the same functions, compiled
//! natively into a cdylib, replay counterexamples.  Nothing here decides anything.
#![allow(clippy::missing_safety_doc, unused_imports, dead_code, non_snake_case)]
use babs::{BinaryDigit, DecimalDigit, UBig};
use num_traits::{One, Pow, Zero};
use std::fmt::Write;

const ERR: usize = usize::MAX;

#[inline(always)]
unsafe fn mk<D: Copy + Zero>(p: *const D, n: usize) -> UBig<D> {
    UBig::new(std::slice::from_raw_parts(p, n).to_vec())
}

#[inline(always)]
unsafe fn put<D: Copy>(r: &UBig<D>, out: *mut D) -> usize {
    let d = r.digits();
    std::ptr::copy_nonoverlapping(d.as_ptr(), out, d.len());
    r.nr_digits()
}

macro_rules! entry {
    ($name:literal, $m:ident, fn($($a:ident : $t:ty),*) $b:block) => {
        const _: () = {
            #[export_name = concat!($name, "_", stringify!($m))]
            pub unsafe extern "C" fn f($($a : $t),*) -> usize $b
        };
    };
}

/// A binary operator in all its operand forms.
macro_rules! binop {
    ($feat:literal, $name:literal, $m:ident, $D:ty, $op:tt, $opa:tt) => {
        #[cfg(feature = $feat)]
        entry!($name, $m, fn(form: usize, a: *const $D, na: usize, b: *const $D, nb: usize, out: *mut $D) {
            let mut x = mk(a, na);
            let y = mk(b, nb);
            let r = match form {
                0 => &x $op &y,
                1 => x $op y,
                2 => x $op &y,
                3 => &x $op y,
                4 => { x $opa y; x }
                _ => { x $opa &y; x }
            };
            put(&r, out)
        });
    };
}

/// A binary operator whose right operand is a digit or a machine integer.
macro_rules! digop {
    ($feat:literal, $name:literal, $m:ident, $D:ty, $W:expr, $t:ty, $op:tt, $opa:tt) => {
        #[cfg(feature = $feat)]
        entry!($name, $m, fn(form: usize, a: *const $D, na: usize, n: $t, out: *mut $D) {
            let mut x = mk(a, na);
            let d = $W(n);
            let r = match form {
                0 => &x $op n,
                1 => x $op n,
                2 => { x $opa n; x }
                3 => &x $op d,
                4 => x $op d,
                _ => { x $opa d; x }
            };
            put(&r, out)
        });
    };
}

macro_rules! common {
    ($m:ident, $D:ty, $W:expr, $t:ty) => {
        #[cfg(feature = "g_new")]
        entry!("new", $m, fn(a: *const $D, na: usize, out: *mut $D) { put(&mk(a, na), out) });

        binop!("g_add", "add", $m, $D, +, +=);
        binop!("g_sub", "sub", $m, $D, -, -=);
        binop!("g_mul", "mul", $m, $D, *, *=);
        binop!("g_div", "div", $m, $D, /, /=);
        binop!("g_div", "rem", $m, $D, %, %=);
        digop!("g_digit_as", "addd", $m, $D, $W, $t, +, +=);
        digop!("g_digit_as", "subd", $m, $D, $W, $t, -, -=);
        digop!("g_digit_mul", "muld", $m, $D, $W, $t, *, *=);
        digop!("g_digit_div", "divd", $m, $D, $W, $t, /, /=);
        digop!("g_digit_div", "remd", $m, $D, $W, $t, %, %=);

        #[cfg(feature = "g_square")]
        entry!("square", $m, fn(a: *const $D, na: usize, out: *mut $D) { put(&mk(a, na).square(), out) });

        // quotient to q, remainder to r; *nr receives the remainder length.  On Err the
        // (supposedly untouched) dividend goes to q and its length to *nr.
        #[cfg(feature = "g_div")]
        entry!("divrem", $m, fn(a: *const $D, na: usize, b: *const $D, nb: usize, q: *mut $D, r: *mut $D, nr: *mut usize) {
            let mut x = mk(a, na);
            let y = mk(b, nb);
            match x.div_assign_big(&y) {
                Ok(rem) => { *nr = put(&rem, r); put(&x, q) }
                Err(_) => { *nr = put(&x, q); ERR }
            }
        });
        #[cfg(feature = "g_div")]
        entry!("remas", $m, fn(a: *const $D, na: usize, b: *const $D, nb: usize, r: *mut $D, nr: *mut usize) {
            let mut x = mk(a, na);
            let y = mk(b, nb);
            match x.rem_assign_big(&y) {
                Ok(()) => { *nr = put(&x, r); 0 }
                Err(_) => { *nr = put(&x, r); ERR }
            }
        });

        #[cfg(feature = "g_shl")]
        entry!("shl", $m, fn(form: usize, a: *const $D, na: usize, n: usize, out: *mut $D) {
            let mut x = mk(a, na);
            let r = match form { 0 => &x << n, 1 => x << n, _ => { x <<= n; x } };
            put(&r, out)
        });
        #[cfg(feature = "g_shr")]
        entry!("shr", $m, fn(form: usize, a: *const $D, na: usize, n: usize, out: *mut $D) {
            let mut x = mk(a, na);
            let r = match form { 0 => &x >> n, 1 => x >> n, _ => { x >>= n; x } };
            put(&r, out)
        });

        // bit 0..: cmp+1 in bits 0-1, == bit 2, != bit 3, < bit 4, <= bit 5, > bit 6, >= bit 7,
        // partial_cmp + 1 in bits 8-9 (3 = None)
        #[cfg(feature = "g_cmp")]
        entry!("cmp", $m, fn(a: *const $D, na: usize, b: *const $D, nb: usize, out: *mut u8) {
            let x = mk(a, na);
            let y = mk(b, nb);
            *out = (x.cmp(&y) as i8 + 1) as u8;
            *out.add(1) = (x == y) as u8;
            *out.add(2) = (x != y) as u8;
            *out.add(3) = (x < y) as u8;
            *out.add(4) = (x <= y) as u8;
            *out.add(5) = (x > y) as u8;
            *out.add(6) = (x >= y) as u8;
            *out.add(7) = match x.partial_cmp(&y) { None => 3, Some(o) => (o as i8 + 1) as u8 };
            0
        });

        #[cfg(feature = "g_parse")]
        entry!("parse", $m, fn(s: *const u8, n: usize, out: *mut $D) {
            let s = std::str::from_utf8_unchecked(std::slice::from_raw_parts(s, n));
            match s.parse::<UBig<$D>>() {
                Ok(r) => put(&r, out),
                Err(_) => ERR
            }
        });

        #[cfg(feature = "g_fmt")]
        entry!("display", $m, fn(a: *const $D, na: usize, out: *mut u8) {
            let x = mk(a, na);
            let s = format!("{}", x);
            std::ptr::copy_nonoverlapping(s.as_ptr(), out, s.len());
            s.len()
        });

        // form 0: {:w$}  1: {:<w$}  2: {:*^w$}  3: {:0w$}  4: {:+}  5: {:+0w$}  6: {:#>+w$}  7: {:w$.3}  8: {:#^+#w$.2}
        #[cfg(feature = "g_fmtspec")]
        entry!("dispspec", $m, fn(form: usize, w: usize, a: *const $D, na: usize, out: *mut u8) {
            let x = mk(a, na);
            let s = match form {
                0 => format!("{:w$}", x, w = w),
                1 => format!("{:<w$}", x, w = w),
                2 => format!("{:*^w$}", x, w = w),
                3 => format!("{:0w$}", x, w = w),
                4 => format!("{:+}", x),
                5 => format!("{:+0w$}", x, w = w),
                6 => format!("{:#>+w$}", x, w = w),
                7 => format!("{:w$.3}", x, w = w),
                _ => format!("{:#^+#w$.2}", x, w = w)
            };
            std::ptr::copy_nonoverlapping(s.as_ptr(), out, s.len());
            s.len()
        });

        #[cfg(feature = "g_pow")]
        entry!("pow", $m, fn(form: usize, a: *const $D, na: usize, n: usize, out: *mut $D) {
            let x = mk(a, na);
            let r = match form { 0 => (&x).pow(n), _ => x.pow(n) };
            put(&r, out)
        });

        #[cfg(feature = "g_from")]
        entry!("from", $m, fn(n: $t, out: *mut $D) { put(&UBig::<$D>::from(n), out) });
    };
}

macro_rules! binary {
    ($m:ident, $t:ty) => {
        common!($m, BinaryDigit<$t>, BinaryDigit, $t);
        #[cfg(feature = "g_dec")]
        entry!("todec", $m, fn(a: *const BinaryDigit<$t>, na: usize, out: *mut DecimalDigit<$t>) {
            put(&mk(a, na).to_decimal(), out)
        });
        // form 0: {:x}  1: {:X}  2: {:#x}  3: {:#X}
        #[cfg(feature = "g_hex")]
        entry!("hex", $m, fn(form: usize, a: *const BinaryDigit<$t>, na: usize, out: *mut u8) {
            let x = mk(a, na);
            let s = match form {
                0 => format!("{:x}", x),
                1 => format!("{:X}", x),
                2 => format!("{:#x}", x),
                _ => format!("{:#X}", x)
            };
            std::ptr::copy_nonoverlapping(s.as_ptr(), out, s.len());
            s.len()
        });
        // form 0: {:w$x}  1: {:<w$X}  2: {:*^w$x}  3: {:0w$X}  4: {:+x}  5: {:+#0w$x}  6: {:#>+#w$X}  7: {:w$.3x}  8: {:#^+#w$.2X}
        #[cfg(feature = "g_hexspec")]
        entry!("hexspec", $m, fn(form: usize, w: usize, a: *const BinaryDigit<$t>, na: usize, out: *mut u8) {
            let x = mk(a, na);
            let s = match form {
                0 => format!("{:w$x}", x, w = w),
                1 => format!("{:<w$X}", x, w = w),
                2 => format!("{:*^w$x}", x, w = w),
                3 => format!("{:0w$X}", x, w = w),
                4 => format!("{:+x}", x),
                5 => format!("{:+#0w$x}", x, w = w),
                6 => format!("{:#>+#w$X}", x, w = w),
                7 => format!("{:w$.3x}", x, w = w),
                _ => format!("{:#^+#w$.2X}", x, w = w)
            };
            std::ptr::copy_nonoverlapping(s.as_ptr(), out, s.len());
            s.len()
        });
    };
}

macro_rules! decimal {
    ($m:ident, $t:ty) => {
        common!($m, DecimalDigit<$t>, DecimalDigit, $t);
    };
}

binary!(b8, u8);
binary!(b16, u16);
binary!(b32, u32);
binary!(b64, u64);
decimal!(d8, u8);
decimal!(d16, u16);
decimal!(d32, u32);
decimal!(d64, u64);
