//! C09
#[cfg(not(kani))]
use crate::kani;
use crate::memfile::any_seek;
use crate::{harnesses, witness};
use lcms2::io::{FileNull, IOHandler};
use std::io::SeekFrom;

fn history<const K: usize>() {
    let mut f = FileNull::new();
    let mut pos = 0u64;
    let mut size = 0u64;
    let mut k = 0;
    while k < K {
        k += 1;
        let op: u8 = kani::any();
        kani::assume(op < 4);
        let len: usize = kani::any();
        kani::assume(len >= 1 && len <= 4);
        match op {
            0 => {
                let mut out: [u8; 4] = kani::any();
                let before = out;
                let r = f.read(&mut out[..len]);
                match pos.checked_add(len as u64) {
                    Some(p) => {
                        assert!(r.is_ok());
                        pos = p;
                        let mut i = 0;
                        while i < 4 {
                            assert!(out[i] == if i < len { 0 } else { before[i] });
                            i += 1;
                        }
                        witness!(before[0] != 0, "zeros overwrite something");
                    }
                    None => assert!(r.is_err()),
                }
                std::mem::forget(r);
            }
            1 => {
                let r = f.write(&[0xAA; 4][..len]);
                match pos.checked_add(len as u64) {
                    Some(p) => {
                        assert!(r.is_ok());
                        pos = p;
                        if pos > size {
                            size = pos;
                        }
                        witness!(pos < size, "a write inside");
                    }
                    None => {
                        assert!(r.is_err());
                        witness!(true, "a write at the end of the address space");
                    }
                }
                std::mem::forget(r);
            }
            2 => {
                let (s, expected) = any_seek(pos, size);
                let r = f.seek(s);
                assert!(r.is_ok() == expected.is_some());
                std::mem::forget(r);
                if let Some(v) = expected {
                    pos = v;
                }
                witness!(expected.is_none(), "a failing seek");
                witness!(expected.is_some() && size > 5, "a seek in a written file");
            }
            _ => {
                assert!(f.reported_size().unwrap() as u64 == size);
            }
        }
        assert!(f.tell().unwrap() as u64 == pos);
    }
    assert!(f.reported_size().unwrap() as u64 == size);
}

harnesses! {
    #[kani::unwind(8)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
    fn history_4() {
        history::<4>();
    }
    #[kani::unwind(10)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
    fn history_7() {
        history::<7>();
    }
    #[kani::unwind(10)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
    fn typed_zero() {
        let mut f = FileNull::default();
        let at: u64 = kani::any();
        kani::assume(at < 1 << 62);
        f.write_u64(kani::any()).unwrap();
        assert!(f.tell().unwrap() == 8);
        f.seek(SeekFrom::Start(at)).unwrap();
        assert!(f.read_u8().unwrap() == 0);
        assert!(f.read_u16().unwrap() == 0);
        assert!(f.read_u32().unwrap() == 0);
        assert!(f.read_u64().unwrap() == 0);
        assert!(f.read_f32().unwrap() == 0.0);
        assert!(f.read_s15f16().unwrap() == 0.0);
        let v = f.read_xyz().unwrap();
        assert!(v.X == 0.0 && v.Y == 0.0 && v.Z == 0.0);
        assert!(f.tell().unwrap() as u64 == at + 1 + 2 + 4 + 8 + 4 + 4 + 12);
        assert!(f.reported_size().unwrap() == 8);
        witness!(at == 3, "inside");
    }
}
