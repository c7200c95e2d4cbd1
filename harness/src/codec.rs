//! C13, C14
#[cfg(not(kani))]
use crate::kani;
use crate::{harnesses, witness};
use lcms2::types::{verif_hooks as vh, ICCHeader, Signature, TagEntry};

/// The big-endian number of `n` bytes at `at`
pub fn be(b: &[u8], at: usize, n: usize) -> u64 {
    let mut v = 0;
    let mut i = 0;
    while i < n {
        v = v << 8 | b[at + i] as u64;
        i += 1;
    }
    v
}
pub fn sig(b: &[u8], at: usize) -> Signature {
    Signature::from(be(b, at, 4) as u32)
}

/// The fields of a header, at the offsets of ICC.1, 7.2
fn check_header(h: &ICCHeader, b: &[u8; 128]) {
    assert!(h.size as u64 == be(b, 0, 4));
    assert!(h.cmm_id == sig(b, 4));
    assert!(h.version as u64 == be(b, 8, 4));
    assert!(h.device_class == sig(b, 12));
    assert!(h.color_space == sig(b, 16));
    assert!(h.pcs == sig(b, 20));
    assert!(h.date.year as u64 == be(b, 24, 2));
    assert!(h.date.month as u64 == be(b, 26, 2));
    assert!(h.date.day as u64 == be(b, 28, 2));
    assert!(h.date.hours as u64 == be(b, 30, 2));
    assert!(h.date.minutes as u64 == be(b, 32, 2));
    assert!(h.date.seconds as u64 == be(b, 34, 2));
    assert!(h.magic == sig(b, 36));
    assert!(h.platform == sig(b, 40));
    assert!(h.flags as u64 == be(b, 44, 4));
    assert!(h.manufacturer == sig(b, 48));
    assert!(h.model as u64 == be(b, 52, 4));
    assert!(h.attributes == be(b, 56, 8));
    assert!(h.rendering_intent as u64 == be(b, 64, 4));
    assert!(h.illuminant.x as u32 as u64 == be(b, 68, 4));
    assert!(h.illuminant.y as u32 as u64 == be(b, 72, 4));
    assert!(h.illuminant.z as u32 as u64 == be(b, 76, 4));
    assert!(h.creator == sig(b, 80));
    let i: usize = kani::any();
    kani::assume(i < 28);
    if i < 16 {
        assert!(unsafe { h.profile_id.id8 }[i] == b[84 + i]);
    }
    assert!(h.reserved[i] == b[100 + i]);
}

harnesses! {
    #[kani::unwind(130)]
    fn header() {
        let bytes: [u8; 128] = kani::any();
        let h = vh::header_from_bytes(bytes);
        check_header(&h, &bytes);
        let out = vh::header_to_bytes(h);
        let i: usize = kani::any();
        kani::assume(i < 128);
        assert!(out[i] == bytes[i]);
        witness!(h.size == 1 && h.attributes == 1 << 63 && bytes[127] == 9, "values");
    }
    // Starting from the fields: encoding puts each at its place
    #[kani::unwind(130)]
    fn header_encode() {
        let h = vh::header_from_bytes(kani::any());
        let out = vh::header_to_bytes(h);
        check_header(&h, &out);
        witness!(h.model == 7, "values");
    }
    #[kani::unwind(14)]
    fn entry() {
        let bytes: [u8; 12] = kani::any();
        let t = vh::tag_entry_from_bytes(bytes);
        assert!(t.sig == sig(&bytes, 0));
        assert!(t.offset as u64 == be(&bytes, 4, 4));
        assert!(t.size as u64 == be(&bytes, 8, 4));
        assert!(vh::tag_entry_to_bytes(t) == bytes);
        let (s, offset, size): (u32, u32, u32) = (kani::any(), kani::any(), kani::any());
        let u = TagEntry { sig: Signature::from(s), offset, size };
        let b = vh::tag_entry_to_bytes(u);
        assert!(be(&b, 0, 4) == s as u64 && be(&b, 4, 4) == offset as u64 && be(&b, 8, 4) == size as u64);
        assert!(vh::tag_entry_from_bytes(b) == u);
        witness!(offset != size && s != offset && t.offset == 1 << 31, "values");
    }
}
