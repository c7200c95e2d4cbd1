//! C10
#[cfg(not(kani))]
use crate::kani;
use crate::dev::Faulty;
use crate::{harnesses, witness};
use lcms2::io::{FileMem, FileNull, IOHandler};
use std::io::SeekFrom;

harnesses! {
    #[kani::unwind(8)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
    fn memory() {
        let mut data: [u8; 6] = kani::any();
        let len: usize = kani::any();
        let at: u64 = kani::any();
        kani::assume(len <= 6);
        let mut f = FileMem::new(&mut data[..len]);
        f.seek(SeekFrom::Start(at)).unwrap();
        assert!(f.reported_size().unwrap() == len);
        assert!(f.tell().unwrap() as u64 == at);
        witness!(at > 6, "past the end");
    }
    #[kani::unwind(8)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
    fn growable() {
        let at: u64 = kani::any();
        let mut f = FileMem::new(vec![1u8, 2, 3]);
        f.seek(SeekFrom::Start(at)).unwrap();
        assert!(f.reported_size().unwrap() == 3);
        assert!(f.tell().unwrap() as u64 == at);
        witness!(at > 6, "past the end");
        std::mem::forget(f);
    }
    #[kani::unwind(8)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
    fn null() {
        let at: u64 = kani::any();
        let written: u64 = kani::any();
        let mut f = FileNull::new();
        kani::assume(written < u64::MAX);
        f.seek(SeekFrom::Start(written)).unwrap();
        f.write(&[1]).unwrap();
        f.seek(SeekFrom::Start(at)).unwrap();
        assert!(f.reported_size().unwrap() as u64 == written + 1);
        assert!(f.tell().unwrap() as u64 == at);
        witness!(at > written, "past the end");
    }
    // Any length and position, any operation may fail
    #[kani::unwind(8)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
    fn faulty() {
        let mut f = Faulty::any();
        let (pos, len) = (f.pos, f.len);
        let r = f.reported_size();
        match r {
            Ok(n) => {
                assert!(!f.hit);
                assert!(n as u64 == len);
                assert!(f.pos == pos);
                witness!(pos > len, "past the end");
            }
            Err(e) => {
                assert!(f.hit);
                witness!(f.fail_at == 3, "the last step fails");
                std::mem::forget(e);
            }
        }
    }
}
