//! C02, C03, C04, C05, C06, C12 and, with the feature `little`, C39
#[cfg(not(kani))]
use crate::kani;
use crate::dev::{self, Faulty};
use crate::{harnesses, witness};
use lcms2::io::{FileMem, IOHandler};
use lcms2::types::CIEXYZ;
use std::io::SeekFrom;

const LITTLE: bool = cfg!(feature = "little");

/// Byte `i` of `size` bytes of `bits`, as stored
fn stored(bits: u64, size: usize, i: usize) -> u8 {
    let k = if LITTLE { i } else { size - 1 - i };
    (bits >> (8 * k)) as u8
}
/// The number stored in `size` bytes at `at`
fn value(buf: &[u8], at: usize, size: usize) -> u64 {
    let mut v = 0u64;
    let mut i = 0;
    while i < size {
        let k = if LITTLE { at + size - 1 - i } else { at + i };
        v = v << 8 | buf[k] as u64;
        i += 1;
    }
    v
}

const BUF: usize = 20;

/// Checks that exactly `size` bytes at `at` of `after` are those of `bits`
fn check_written(before: &[u8; BUF], after: &[u8; BUF], at: usize, size: usize, bits: u64) {
    let i: usize = kani::any();
    kani::assume(i < BUF);
    if i >= at && i < at + size {
        assert!(after[i] == stored(bits, size, i - at));
    } else {
        assert!(after[i] == before[i]);
    }
}

macro_rules! transfer {
    ($t:ty, $size:literal, $write:ident, $read:ident, $bits:expr) => {{
        let before: [u8; BUF] = kani::any();
        let at: usize = kani::any();
        kani::assume(at <= BUF - $size);
        let v: $t = kani::any();
        let bits: u64 = $bits(v);

        // reading what is there
        let mut buf = before;
        {
            let mut f = FileMem::new(buf.as_mut_slice());
            f.seek(SeekFrom::Start(at as u64)).unwrap();
            let r = f.$read().unwrap();
            assert!($bits(r) == value(&before, at, $size));
            assert!(f.tell().unwrap() == at + $size);
        }
        assert!(buf == before);

        // writing
        {
            let mut f = FileMem::new(buf.as_mut_slice());
            f.seek(SeekFrom::Start(at as u64)).unwrap();
            f.$write(v).unwrap();
            assert!(f.tell().unwrap() == at + $size);
            // and reading back
            f.seek(SeekFrom::Start(at as u64)).unwrap();
            assert!($bits(f.$read().unwrap()) == bits);
        }
        check_written(&before, &buf, at, $size, bits);
        witness!(at == BUF - $size, "at the end of the buffer");
        witness!(at == 0 && bits != 0, "at the start of the buffer");
    }};
}

fn s15(bits: u32) -> f64 {
    bits as i32 as f64 / 65536.0
}

/// What encoding `v` must give
fn check_s15(v: f64, bits: u32) {
    let r = bits as i32;
    let t = v * 65536.0; // exact, or beyond the range
    if t.is_nan() {
        return;
    }
    if t >= 2147483647.0 {
        assert!(r == i32::MAX);
    } else if t <= -2147483648.0 {
        assert!(r == i32::MIN);
    } else {
        let d = r as f64 - t;
        assert!(d > -0.5 && d <= 0.5);
    }
}

harnesses! {
    #[kani::unwind(22)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
    fn u8s() {
        transfer!(u8, 1, write_u8, read_u8, |v: u8| v as u64);
    }
    #[kani::unwind(22)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
    fn u16s() {
        transfer!(u16, 2, write_u16, read_u16, |v: u16| v as u64);
    }
    #[kani::unwind(22)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
    fn u32s() {
        transfer!(u32, 4, write_u32, read_u32, |v: u32| v as u64);
    }
    #[kani::unwind(22)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
    fn u64s() {
        transfer!(u64, 8, write_u64, read_u64, |v: u64| v);
    }
    #[kani::unwind(22)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
    fn f32s() {
        transfer!(f32, 4, write_f32, read_f32, |v: f32| v.to_bits() as u64);
    }
    // Through a trait object, and several transfers in a row
    #[kani::unwind(22)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
    fn mixed() {
        let mut buf = [0u8; BUF];
        let (a, b, c, d, e): (u8, u16, u32, u64, f32) =
            (kani::any(), kani::any(), kani::any(), kani::any(), kani::any());
        let mut mem = FileMem::new(buf.as_mut_slice());
        let f: &mut dyn IOHandler = &mut mem;
        f.write_u8(a).unwrap();
        f.write_u64(d).unwrap();
        f.write_u16(b).unwrap();
        f.write_f32(e).unwrap();
        f.write_u32(c).unwrap();
        assert!(f.tell().unwrap() == 19);
        f.seek(SeekFrom::Start(0)).unwrap();
        assert!(f.read_u8().unwrap() == a);
        assert!(f.read_u64().unwrap() == d);
        assert!(f.read_u16().unwrap() == b);
        assert!(f.read_f32().unwrap().to_bits() == e.to_bits());
        assert!(f.read_u32().unwrap() == c);
        assert!(f.tell().unwrap() == 19);
        witness!(a != 0 && d > 1 << 60, "values");
    }

    #[kani::unwind(20)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
    fn array_read() {
        const N: usize = 6;
        let src: [u8; 2 * N] = kani::any();
        let n: usize = kani::any();
        let at: usize = kani::any();
        let end: usize = kani::any();
        kani::assume(n <= N && end <= 2 * N && at <= end);
        let before: [u16; N] = kani::any();
        let mut out = before;
        let mut copy = src;
        let mut f = FileMem::new(&mut copy[..end]);
        f.seek(SeekFrom::Start(at as u64)).unwrap();
        let r = f.read_u16_array(&mut out[..n]);
        if at + 2 * n <= end {
            assert!(r.is_ok());
            assert!(f.tell().unwrap() == at + 2 * n);
            let i: usize = kani::any();
            kani::assume(i < N);
            if i < n {
                assert!(out[i] as u64 == value(&src, at + 2 * i, 2));
            } else {
                assert!(out[i] == before[i]);
            }
            witness!(n == N && i == N - 1, "a full array");
            witness!(n == 0, "an empty array");
        } else {
            assert!(r.is_err());
            witness!((end - at) % 2 == 1 && end - at > 2, "the source ends within an element");
        }
        std::mem::forget(r);
    }
    #[kani::unwind(20)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
    fn array_write() {
        const N: usize = 6;
        let before: [u8; 2 * N] = kani::any();
        let n: usize = kani::any();
        let at: usize = kani::any();
        let end: usize = kani::any();
        kani::assume(n <= N && end <= 2 * N && at <= end);
        let values: [u16; N] = kani::any();
        let mut buf = before;
        let r;
        {
            let mut f = FileMem::new(&mut buf[..end]);
            f.seek(SeekFrom::Start(at as u64)).unwrap();
            r = f.write_u16_array(&values[..n]);
            if r.is_ok() {
                assert!(f.tell().unwrap() == at + 2 * n);
            }
        }
        assert!(r.is_ok() == (at + 2 * n <= end));
        let i: usize = kani::any();
        kani::assume(i < 2 * N);
        if i < at || i >= at + 2 * n {
            assert!(buf[i] == before[i]);
        } else if r.is_ok() {
            let k = (i - at) / 2;
            assert!(buf[i] == stored(values[k] as u64, 2, (i - at) % 2));
            witness!(n == N && i == 2 * N - 1, "a full array");
        } else {
            witness!(end - at > 4, "the sink ends");
        }
        std::mem::forget(r);
    }

    #[kani::unwind(14)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
    fn s15_read() {
        let bits: u32 = kani::any();
        let mut buf = [0u8; 4];
        let mut i = 0;
        while i < 4 {
            buf[i] = stored(bits as u64, 4, i);
            i += 1;
        }
        let mut f = FileMem::new(buf.as_mut_slice());
        let v = f.read_s15f16().unwrap();
        assert!(f.tell().unwrap() == 4);
        // exact
        assert!(v == s15(bits));
        assert!((v * 65536.0) as i64 == bits as i32 as i64);
        witness!(bits == 0x8000_0000, "the smallest number");
        witness!(bits == 0xFFFF_8000, "a negative fraction");
    }
    #[kani::unwind(14)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
    fn s15_write() {
        let v: f64 = kani::any();
        let mut buf = [0u8; 4];
        {
            let mut f = FileMem::new(buf.as_mut_slice());
            f.write_s15f16(v).unwrap();
            assert!(f.tell().unwrap() == 4);
        }
        check_s15(v, value(&buf, 0, 4) as u32);
        witness!(v == 32767.0 + 65535.0 / 65536.0, "the largest number");
        witness!(v == -0.5 / 65536.0, "a negative half");
        witness!(v == f64::INFINITY, "infinity");
    }
    #[kani::unwind(14)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
    fn s15_round_trip() {
        let bits: u32 = kani::any();
        let mut buf = [0u8; 4];
        let mut i = 0;
        while i < 4 {
            buf[i] = stored(bits as u64, 4, i);
            i += 1;
        }
        let v = FileMem::new(buf.as_mut_slice()).read_s15f16().unwrap();
        let mut out = [0u8; 4];
        FileMem::new(out.as_mut_slice()).write_s15f16(v).unwrap();
        assert!(out == buf);
        witness!(bits == 0x8000_0000, "the smallest number");
        witness!(bits == 0xFFFF_FFFF, "the negative number next to 0");
    }

    #[kani::unwind(22)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
    fn xyz_read() {
        let src: [u8; 16] = kani::any();
        let at: usize = kani::any();
        kani::assume(at <= 4);
        let mut copy = src;
        let mut f = FileMem::new(copy.as_mut_slice());
        f.seek(SeekFrom::Start(at as u64)).unwrap();
        let v = f.read_xyz().unwrap();
        assert!(f.tell().unwrap() == at + 12);
        assert!(v.X == s15(value(&src, at, 4) as u32));
        assert!(v.Y == s15(value(&src, at + 4, 4) as u32));
        assert!(v.Z == s15(value(&src, at + 8, 4) as u32));
        witness!(v.X < v.Y && v.Y < v.Z, "different coordinates");
    }
    #[kani::unwind(22)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
    fn xyz_write() {
        let (x, y, z): (u32, u32, u32) = (kani::any(), kani::any(), kani::any());
        let before: [u8; 16] = kani::any();
        let at: usize = kani::any();
        kani::assume(at <= 4);
        let mut buf = before;
        {
            let mut f = FileMem::new(buf.as_mut_slice());
            f.seek(SeekFrom::Start(at as u64)).unwrap();
            f.write_xyz(CIEXYZ { X: s15(x), Y: s15(y), Z: s15(z) }).unwrap();
            assert!(f.tell().unwrap() == at + 12);
        }
        assert!(value(&buf, at, 4) as u32 == x);
        assert!(value(&buf, at + 4, 4) as u32 == y);
        assert!(value(&buf, at + 8, 4) as u32 == z);
        let i: usize = kani::any();
        kani::assume(i < 16 && (i < at || i >= at + 12));
        assert!(buf[i] == before[i]);
        witness!(x != y && y != z && at == 1, "different coordinates");
    }

    // C12
    #[kani::unwind(10)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
    fn faulty_reads() {
        let mut f = Faulty::any();
        let op: u8 = kani::any();
        kani::assume(op < 8);
        let mut arr = [0u16; 3];
        let r = match op {
            0 => f.read_u8().map(|_| ()),
            1 => f.read_u16().map(|_| ()),
            2 => f.read_u32().map(|_| ()),
            3 => f.read_u64().map(|_| ()),
            4 => f.read_f32().map(|_| ()),
            5 => f.read_s15f16().map(|_| ()),
            6 => f.read_xyz().map(|_| ()),
            _ => f.read_u16_array(&mut arr),
        };
        check_fault(f, r, op);
    }
    #[kani::unwind(10)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
    fn faulty_writes() {
        let mut f = Faulty::any();
        let op: u8 = kani::any();
        kani::assume(op < 8);
        let r = match op {
            0 => f.write_u8(1),
            1 => f.write_u16(1),
            2 => f.write_u32(1),
            3 => f.write_u64(1),
            4 => f.write_f32(1.5),
            5 => f.write_s15f16(1.5),
            6 => f.write_xyz(CIEXYZ { X: 1.0, Y: 2.0, Z: 3.0 }),
            _ => f.write_u16_array(&[1, 2, 3]),
        };
        check_fault(f, r, op);
    }
}

fn check_fault(f: Faulty, r: std::io::Result<()>, op: u8) {
    assert!(r.is_err() == f.hit);
    match r {
        Err(e) => {
            assert!(e.kind() == dev::kind(f.kind));
            assert!(f.after == 0);
            witness!(op == 6 && f.calls == 3, "the last of several transfers fails");
            std::mem::forget(e);
        }
        Ok(()) => {
            witness!(op == 7, "no failure");
        }
    }
}
