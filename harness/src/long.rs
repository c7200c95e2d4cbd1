//! Transfers of many bytes. The contents are fixed except at one place, which is any place, so that a few bytes are
//! enough to follow what happens to all of them.
#[cfg(not(kani))]
use crate::kani;
use crate::{harnesses, witness};
use lcms2::io::{FileMem, FileNull, IOHandler};
use std::io::{self, SeekFrom};

const LITTLE: bool = cfg!(feature = "little");

/// A device which hands out and keeps the byte at one place
#[derive(Debug)]
struct Watch {
    pos: usize,
    end: usize,
    at: usize,
    value: [u8; 2],
    /// How often the place was passed
    seen: u32,
}
impl Watch {
    fn step(&mut self, n: usize) -> io::Result<usize> {
        let at = self.pos;
        if n > self.end - at {
            return Err(io::ErrorKind::UnexpectedEof.into());
        }
        self.pos += n;
        Ok(at)
    }
}
impl IOHandler for Watch {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<()> {
        let p = self.step(buf.len())?;
        let mut k = 0;
        while k < buf.len() {
            buf[k] = 0x5A;
            if p + k == self.at {
                buf[k] = self.value[0];
            }
            if p + k == self.at + 1 {
                buf[k] = self.value[1];
                self.seen += 1;
            }
            k += 1;
        }
        Ok(())
    }
    fn write(&mut self, buf: &[u8]) -> io::Result<()> {
        let p = self.step(buf.len())?;
        let mut k = 0;
        while k < buf.len() {
            if p + k == self.at {
                self.value[0] = buf[k];
            }
            if p + k == self.at + 1 {
                self.value[1] = buf[k];
                self.seen += 1;
            }
            k += 1;
        }
        Ok(())
    }
    fn seek(&mut self, _: SeekFrom) -> io::Result<()> {
        Err(io::ErrorKind::InvalidInput.into())
    }
    fn close(self) -> io::Result<()> {
        Ok(())
    }
    fn tell(&mut self) -> io::Result<usize> {
        Ok(self.pos)
    }
}

fn number(b: [u8; 2]) -> u16 {
    if LITTLE { u16::from_le_bytes(b) } else { u16::from_be_bytes(b) }
}

/// C03: arrays of `N` numbers
fn array_in<const N: usize>() {
    let i: usize = kani::any();
    kani::assume(i < N);
    let mut d = Watch { pos: 0, end: 2 * N + 2, at: 2 * i, value: kani::any(), seen: 0 };
    let mut out = [0u16; N];
    let r = d.read_u16_array(&mut out);
    assert!(r.is_ok());
    assert!(d.pos == 2 * N);
    assert!(out[i] == number(d.value));
    witness!(i == N - 1 && out[i] == 7, "the last number");
    std::mem::forget(r);
}
fn array_out<const N: usize>() {
    let i: usize = kani::any();
    let v: u16 = kani::any();
    kani::assume(i < N);
    let mut d = Watch { pos: 0, end: 2 * N + 2, at: 2 * i, value: [0; 2], seen: 0 };
    let mut values = [0x1234u16; N];
    values[i] = v;
    let r = d.write_u16_array(&values);
    assert!(r.is_ok());
    assert!(d.pos == 2 * N);
    assert!(d.seen == 1 && number(d.value) == v);
    witness!(i == N - 1 && v == 7, "the last number");
    std::mem::forget(r);
}

/// C07: transfers of `L` of `N` bytes
fn memory<const N: usize, const L: usize>(at: usize) {
    let i: usize = kani::any();
    let b: u8 = kani::any();
    kani::assume(i < N);
    let fits = at + L <= N;
    let mut real = [0x5Au8; N];
    real[i] = b;
    let k: usize = kani::any();
    kani::assume(k < L);
    let v: u8 = kani::any();
    let mut f = FileMem::new(real.as_mut_slice());
    f.seek(SeekFrom::Start(at as u64)).unwrap();
    let mut out = [0u8; L];
    let r = f.read(&mut out);
    assert!(r.is_ok() == fits);
    std::mem::forget(r);
    if fits {
        assert!(out[k] == if at + k == i { b } else { 0x5A });
        assert!(f.tell().unwrap() == at + L);
        witness!(at + k == i && k == L - 1, "the last byte");
        // and back
        out[k] = v;
        f.seek(SeekFrom::Start(at as u64)).unwrap();
        assert!(f.write(&out).is_ok());
        assert!(f.tell().unwrap() == at + L);
        std::mem::forget(f);
        assert!(real[at + k] == v);
        if i < at || i >= at + L {
            assert!(real[i] == b);
            witness!(i == at + L, "the byte after");
        }
    }
}

/// C09: reads of `L` bytes
fn nothing<const L: usize>() {
    let mut f = FileNull::new();
    let at: u64 = kani::any();
    let k: usize = kani::any();
    kani::assume(at < 1 << 62 && k < L);
    let mut out = [0xEEu8; L];
    assert!(f.write(&out).is_ok());
    assert!(f.tell().unwrap() == L);
    assert!(f.seek(SeekFrom::Start(at)).is_ok());
    assert!(f.read(&mut out).is_ok());
    assert!(out[k] == 0);
    assert!(f.tell().unwrap() as u64 == at + L as u64);
    assert!(f.reported_size().unwrap() == L);
    witness!(k == L - 1 && at == 5, "the last byte");
}

harnesses! {
    #[kani::unwind(90)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
    fn array_in_80() {
        array_in::<80>();
    }
    #[kani::unwind(90)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
    fn array_out_80() {
        array_out::<80>();
    }
    #[kani::unwind(310)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
    fn array_in_300() {
        array_in::<300>();
    }
    #[kani::unwind(310)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
    fn array_out_300() {
        array_out::<300>();
    }
    #[kani::unwind(8)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
    fn memory_300() {
        memory::<300, 260>(30);
    }
    #[kani::unwind(8)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
    fn memory_300b() {
        memory::<300, 260>(41);
    }
    #[kani::unwind(8)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
    fn memory_5000() {
        memory::<5000, 4200>(700);
    }
    #[kani::unwind(310)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
    fn nothing_300() {
        nothing::<300>();
    }
    #[kani::unwind(4300)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
    fn nothing_4200() {
        nothing::<4200>();
    }
}
