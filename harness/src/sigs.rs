//! C27, C28, C29: signatures and profile IDs
#[cfg(not(kani))]
use crate::kani;
use crate::{harnesses, witness};
use lcms2::types::{ProfileID, Signature};

fn number(s: Signature) -> u32 {
    s.into()
}
/// The first four of `b`, padded with spaces
fn padded(b: &[u8]) -> u32 {
    let mut v = 0u32;
    let mut i = 0;
    while i < 4 {
        v = v << 8 | if i < b.len() { b[i] } else { 0x20 } as u32;
        i += 1;
    }
    v
}

/// Whether four bytes are valid UTF-8 (RFC 3629)
fn utf8(b: [u8; 4]) -> bool {
    let mut i = 0;
    while i < 4 {
        let left = 4 - i;
        let c = b[i];
        let more = |k: usize, lo: u8, hi: u8| b[i + k] >= lo && b[i + k] <= hi;
        let n = if c < 0x80 {
            1
        } else if c >= 0xC2 && c <= 0xDF {
            if left < 2 || !more(1, 0x80, 0xBF) {
                return false;
            }
            2
        } else if c >= 0xE0 && c <= 0xEF {
            let (lo, hi) = match c {
                0xE0 => (0xA0, 0xBF),
                0xED => (0x80, 0x9F),
                _ => (0x80, 0xBF),
            };
            if left < 3 || !more(1, lo, hi) || !more(2, 0x80, 0xBF) {
                return false;
            }
            3
        } else if c >= 0xF0 && c <= 0xF4 {
            let (lo, hi) = match c {
                0xF0 => (0x90, 0xBF),
                0xF4 => (0x80, 0x8F),
                _ => (0x80, 0xBF),
            };
            if left < 4 || !more(1, lo, hi) || !more(2, 0x80, 0xBF) || !more(3, 0x80, 0xBF) {
                return false;
            }
            4
        } else {
            return false;
        };
        i += n;
    }
    true
}

harnesses! {
    #[kani::unwind(10)]
    fn arrays() {
        let b: [u8; 4] = kani::any();
        let v = padded(&b);
        assert!(number(Signature::new(&b)) == v);
        assert!(number(Signature::from(&b)) == v);
        assert!(number(Signature::from(v)) == v);
        assert!(number(Signature::from(&[b[0], b[1], b[2]])) == padded(&b[..3]));
        assert!(number(Signature::from(&[b[0], b[1]])) == padded(&b[..2]));
        assert!(number(Signature::from(&[b[0]])) == padded(&b[..1]));
        assert!(number(Signature::default()) == padded(&[]));
        witness!(v == 0xFF000001, "bytes");
    }
    #[kani::unwind(14)]
    fn slices() {
        let b: [u8; 12] = kani::any();
        let n: usize = kani::any();
        kani::assume(n <= 12);
        let s = Signature::from(&b[..n]);
        assert!(number(s) == padded(&b[..n]));
        witness!(n == 0, "empty");
        witness!(n == 5 && b[4] != 0x20, "cut");
    }
    #[kani::unwind(10)]
    fn text() {
        let b: [u8; 6] = kani::any();
        let n: usize = kani::any();
        kani::assume(n <= 6);
        // where characters of more than one byte are
        let shape: u8 = kani::any();
        let ascii = |from: usize, to: usize| {
            let mut i = from;
            while i < to {
                kani::assume(b[i] < 0x80);
                i += 1;
            }
        };
        let two = |at: usize| kani::assume(b[at] >= 0xC2 && b[at] <= 0xDF && b[at + 1] & 0xC0 == 0x80);
        match shape {
            0 => ascii(0, 6),
            1 => {
                two(0);
                two(2);
                two(4);
                kani::assume(n % 2 == 0);
            }
            2 => {
                ascii(0, 3);
                two(3); // is cut
                ascii(5, 6);
                kani::assume(n != 4);
            }
            3 => {
                kani::assume(b[0] >= 0xE1 && b[0] <= 0xEC && b[1] & 0xC0 == 0x80 && b[2] & 0xC0 == 0x80);
                ascii(3, 6);
                kani::assume(n == 0 || n > 2);
            }
            _ => {
                kani::assume(b[0] >= 0xF1 && b[0] <= 0xF3);
                kani::assume(b[1] & 0xC0 == 0x80 && b[2] & 0xC0 == 0x80 && b[3] & 0xC0 == 0x80);
                ascii(4, 6);
                kani::assume(n == 0 || n > 3);
            }
        }
        let s = unsafe { std::str::from_utf8_unchecked(&b[..n]) };
        assert!(number(Signature::from(s)) == padded(&b[..n]));
        witness!(n == 6 && shape == 2, "a character is cut");
        witness!(n == 3 && shape == 0, "padded");
    }
    #[kani::unwind(10)]
    fn back() {
        let v: u32 = kani::any();
        let s = Signature::from(v);
        let bytes: [u8; 4] = s.into();
        assert!(number(s) == v);
        let i: usize = kani::any();
        kani::assume(i < 4);
        assert!(bytes[i] == (v >> (24 - 8 * i)) as u8);
        let w: u32 = kani::any();
        let t = Signature::from(w);
        assert!((s == t) == (v == w));
        assert!((s != t) == (v != w));
        witness!(s != t && v & 0xFFFFFF00 == w & 0xFFFFFF00, "differ in the last byte");
    }
    #[kani::unwind(10)]
    fn to_text() {
        let b: [u8; 4] = kani::any();
        let t = String::from(Signature::new(&b));
        assert!(t.len() == 4);
        let i: usize = kani::any();
        kani::assume(i < 4);
        if utf8(b) {
            assert!(t.as_bytes()[i] == b[i]);
            witness!(b[0] > 0xEF, "a character of four bytes");
            witness!(b[1] > 0xDF, "a character of three bytes");
        } else {
            assert!(t.as_bytes()[i] == 0x20);
            witness!(b[0] < 0x80 && b[1] < 0x80 && b[2] < 0x80, "only the last is invalid");
        }
        std::mem::forget(t);
    }
    #[kani::unwind(20)]
    fn ids() {
        let (a, b): ([u8; 16], [u8; 16]) = (kani::any(), kani::any());
        let (x, y) = (ProfileID { id8: a }, ProfileID { id8: b });
        let mut same = true;
        let mut i = 0;
        while i < 16 {
            same &= a[i] == b[i];
            i += 1;
        }
        assert!((x == y) == same);
        assert!((x != y) == !same);
        witness!(same, "equal");
        witness!(!same && a[15] != b[15] && a[0] == b[0] && a[7] == b[7], "differ at the end");
        let i: usize = kani::any();
        kani::assume(i < 8);
        assert!(unsafe { x.id16[i] } == u16::from_ne_bytes([a[2 * i], a[2 * i + 1]]));
        let j = i / 2;
        assert!(unsafe { x.id32[j] } == u32::from_ne_bytes([a[4 * j], a[4 * j + 1], a[4 * j + 2], a[4 * j + 3]]));
        let z = ProfileID { id32: unsafe { x.id32 } };
        assert!(z == x);
        let z = ProfileID { id16: unsafe { x.id16 } };
        assert!(z == x);
        assert!(std::mem::size_of::<ProfileID>() == 16);
    }
}
