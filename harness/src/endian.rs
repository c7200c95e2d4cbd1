//! C01
#[cfg(not(kani))]
use crate::kani;
use crate::{harnesses, witness};
use lcms2::io::{self, big_endian as be, little_endian as le};

// Oracles by arithmetic on single bytes
fn be_value(b: &[u8]) -> u64 {
    let mut v = 0u64;
    let mut i = 0;
    while i < b.len() {
        v = v * 256 + b[i] as u64;
        i += 1;
    }
    v
}
fn le_value(b: &[u8]) -> u64 {
    let mut v = 0u64;
    let mut i = b.len();
    while i > 0 {
        i -= 1;
        v = v * 256 + b[i] as u64;
    }
    v
}

macro_rules! check {
    ($m:ident, $value:ident, $arr:ident, $int:ident, $t:ty, $n:literal) => {{
        let bytes: [u8; $n] = kani::any();
        let expected = $value(&bytes) as $t;

        // bytes of the format, held in memory -> native value
        assert!(<$t>::from_ne_bytes($m::$arr(bytes)) == expected);
        assert!($m::$int(<$t>::from_ne_bytes(bytes)) == expected);
        // native value -> bytes of the format
        assert!($m::$int(expected).to_ne_bytes() == bytes);
        assert!($m::$arr(expected.to_ne_bytes()) == bytes);
        // own inverse
        assert!($m::$arr($m::$arr(bytes)) == bytes);
        let v: $t = kani::any();
        assert!($m::$int($m::$int(v)) == v);
        witness!(bytes[0] != bytes[$n - 1] && v != $m::$int(v) || $m::$int(v) == v, "distinct ends");
    }};
}

harnesses! {
    #[kani::unwind(10)]
    fn big() {
        check!(be, be_value, adjust_endianness_16, adjust_endianness_u16, u16, 2);
        check!(be, be_value, adjust_endianness_32, adjust_endianness_u32, u32, 4);
        check!(be, be_value, adjust_endianness_64, adjust_endianness_u64, u64, 8);
    }
    #[kani::unwind(10)]
    fn little() {
        check!(le, le_value, adjust_endianness_16, adjust_endianness_u16, u16, 2);
        check!(le, le_value, adjust_endianness_32, adjust_endianness_u32, u32, 4);
        check!(le, le_value, adjust_endianness_64, adjust_endianness_u64, u64, 8);
    }
    // The re-exports, in the default build
    #[kani::unwind(10)]
    fn exported_big() {
        check!(io, be_value, adjust_endianness_16, adjust_endianness_u16, u16, 2);
        check!(io, be_value, adjust_endianness_32, adjust_endianness_u32, u32, 4);
        check!(io, be_value, adjust_endianness_64, adjust_endianness_u64, u64, 8);
    }
    // The re-exports, with the little-endian feature
    #[kani::unwind(10)]
    fn exported_little() {
        check!(io, le_value, adjust_endianness_16, adjust_endianness_u16, u16, 2);
        check!(io, le_value, adjust_endianness_32, adjust_endianness_u32, u32, 4);
        check!(io, le_value, adjust_endianness_64, adjust_endianness_u64, u64, 8);
    }
}
