//! C07, C08
#[cfg(not(kani))]
use crate::kani;
use crate::{harnesses, witness};
use lcms2::io::{FileMem, IOHandler};
use std::io::{ErrorKind, SeekFrom};

/// Draws one seek, and what it must do from position `pos` in a file of `len` bytes
pub fn any_seek(pos: u64, len: u64) -> (SeekFrom, Option<u64>) {
    let whence: u8 = kani::any();
    let off: i64 = kani::any();
    let (base, sought) = match whence {
        0 => (None, SeekFrom::Start(off as u64)),
        1 => (Some(len), SeekFrom::End(off)),
        _ => (Some(pos), SeekFrom::Current(off)),
    };
    let expected = match base {
        None => Some(off as u64),
        Some(b) => {
            let v = b as i128 + off as i128;
            if v < 0 || v > u64::MAX as i128 {
                None
            } else {
                Some(v as u64)
            }
        }
    };
    (sought, expected)
}

fn fixed<const N: usize, const K: usize>() {
    let mut data: [u8; N] = kani::any(); // the model
    let mut pos = 0u64;
    let mut real = data;
    let mut ended = false;
    let mut untouched = (0u64, u64::MAX);
    {
        let mut f = FileMem::new(real.as_mut_slice());
        let mut k = 0;
        while k < K {
            k += 1;
            let op: u8 = kani::any();
            kani::assume(op < 3);
            let len: usize = kani::any();
            kani::assume(len <= 3);
            let fits = len == 0 || (pos <= N as u64 && len as u64 <= N as u64 - pos);
            match op {
                0 => {
                    let mut out: [u8; 3] = kani::any();
                    let r = f.read(&mut out[..len]);
                    assert!(r.is_ok() == fits);
                    std::mem::forget(r);
                    if !fits {
                        witness!(pos > N as u64, "a read past the end");
                        ended = true;
                        break;
                    }
                    let mut i = 0;
                    while i < len {
                        assert!(out[i] == data[pos as usize + i]);
                        i += 1;
                    }
                    pos += len as u64;
                    witness!(len == 2, "a read");
                }
                1 => {
                    let out: [u8; 3] = kani::any();
                    let r = f.write(&out[..len]);
                    assert!(r.is_ok() == fits);
                    std::mem::forget(r);
                    if !fits {
                        // what of the bytes that fit is stored is up to the implementation
                        untouched = (pos, N as u64);
                        witness!(pos < N as u64, "a write over the end");
                        ended = true;
                        break;
                    }
                    let mut i = 0;
                    while i < len {
                        data[pos as usize + i] = out[i];
                        i += 1;
                    }
                    pos += len as u64;
                    witness!(len == 3 && k == K, "a write");
                }
                _ => {
                    let (s, expected) = any_seek(pos, N as u64);
                    let r = f.seek(s);
                    assert!(r.is_ok() == expected.is_some());
                    std::mem::forget(r);
                    if let Some(v) = expected {
                        pos = v;
                    }
                    witness!(expected.is_none(), "a failing seek");
                }
            }
            assert!(f.tell().unwrap() as u64 == pos);
        }
    }
    let i: usize = kani::any();
    kani::assume(i < N);
    if !(i as u64 >= untouched.0 && (i as u64) < untouched.1) || untouched.1 == u64::MAX {
        assert!(real[i] == data[i]);
    }
    witness!(!ended, "all operations succeed");
}

/// A file over a `Vec` of `N` bytes; positions up to `MAX`
fn growing<const N: usize, const K: usize, const MAX: usize>() {
    let start: [u8; N] = kani::any();
    let mut data = [0u8; 16];
    data[..N].copy_from_slice(&start);
    let mut size = N;
    let mut pos = 0usize;
    let mut v: Vec<u8> = Vec::with_capacity(MAX);
    v.extend_from_slice(&start);
    {
        let mut f = FileMem::new(&mut v);
        let mut k = 0;
        while k < K {
            k += 1;
            let op: u8 = kani::any();
            kani::assume(op < 3);
            let len: usize = kani::any();
            kani::assume(len <= 3);
            match op {
                0 => {
                    let fits = len == 0 || (pos <= size && len <= size - pos);
                    let mut out: [u8; 3] = kani::any();
                    let r = f.read(&mut out[..len]);
                    assert!(r.is_ok() == fits);
                    std::mem::forget(r);
                    if !fits {
                        break;
                    }
                    let mut i = 0;
                    while i < len {
                        assert!(out[i] == data[pos + i]);
                        i += 1;
                    }
                    pos += len;
                    witness!(len == 2, "a read");
                }
                1 => {
                    let out: [u8; 3] = kani::any();
                    kani::assume(pos + len <= MAX && len > 0);
                    let r = f.write(&out[..len]);
                    assert!(r.is_ok());
                    std::mem::forget(r);
                    let mut i = 0;
                    while i < len {
                        data[pos + i] = out[i];
                        i += 1;
                    }
                    witness!(pos > size, "a write leaving a gap");
                    pos += len;
                    if pos > size {
                        size = pos;
                    }
                }
                _ => {
                    let (s, expected) = any_seek(pos as u64, size as u64);
                    if let Some(v) = expected {
                        kani::assume(v <= MAX as u64);
                    }
                    let r = f.seek(s);
                    assert!(r.is_ok() == expected.is_some());
                    std::mem::forget(r);
                    if let Some(v) = expected {
                        pos = v as usize;
                    }
                }
            }
            assert!(f.tell().unwrap() == pos);
        }
        std::mem::forget(f);
    }
    assert!(v.len() == size);
    let i: usize = kani::any();
    kani::assume(i < size);
    assert!(v[i] == data[i]);
    witness!(size == MAX && i > N && data[i] == 0, "grown");
    std::mem::forget(v);
}

/// A file over a `Vec` of 2 bytes: seek, write, seek, read
fn sparse() {
    let start: [u8; 2] = kani::any();
    let mut data = [start[0], start[1], 0, 0, 0, 0, 0, 0];
    let mut v: Vec<u8> = Vec::with_capacity(8);
    v.extend_from_slice(&start);
    let at: usize = kani::any();
    let out: [u8; 2] = kani::any();
    let len: usize = kani::any();
    kani::assume(at <= 6 && len >= 1 && len <= 2);
    let from: u64 = kani::any();
    let mut input: [u8; 2] = kani::any();
    let untouched = input;
    let want: usize = kani::any();
    kani::assume(want >= 1 && want <= 2);
    let size = if at + len > 2 { at + len } else { 2 };
    data[at] = out[0];
    if len == 2 {
        data[at + 1] = out[1];
    }
    {
        let mut f = FileMem::new(&mut v);
        assert!(f.seek(SeekFrom::Start(at as u64)).is_ok());
        assert!(f.write(&out[..len]).is_ok());
        assert!(f.tell().unwrap() == at + len);
        assert!(f.seek(SeekFrom::Start(from)).is_ok());
        let r = f.read(&mut input[..want]);
        let fits = from <= size as u64 && want <= size - from as usize;
        assert!(r.is_ok() == fits);
        std::mem::forget(r);
        if fits {
            assert!(input[0] == data[from as usize]);
            if want == 2 {
                assert!(input[1] == data[from as usize + 1]);
            } else {
                assert!(input[1] == untouched[1]);
            }
            assert!(f.tell().unwrap() == from as usize + want);
            witness!(at == 5 && from == 3 && want == 2, "reads from the gap");
        }
        std::mem::forget(f);
    }
    assert!(v.len() == size);
    let i: usize = kani::any();
    kani::assume(i < size);
    assert!(v[i] == data[i]);
    std::mem::forget(v);
}

harnesses! {
    #[kani::unwind(12)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
    fn growing_sparse() {
        sparse();
    }
    #[kani::unwind(8)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
    fn fixed_3() {
        fixed::<4, 3>();
    }
    #[kani::unwind(8)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
    fn fixed_5() {
        fixed::<5, 5>();
    }
    #[kani::unwind(12)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
    fn growing_2() {
        growing::<2, 2, 8>();
    }
    #[kani::unwind(12)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
    fn growing_3() {
        growing::<2, 3, 8>();
    }
}
