//! C15 to C20, C23: opening profiles
#[cfg(not(kani))]
use crate::kani;
use crate::codec::{be, sig};
use crate::dev;
use crate::{harnesses, witness};
use chrono::NaiveDateTime;
use lcms2::io::IOHandler;
use lcms2::state::{verif_hooks as sh, Context, ErrorCode};
use lcms2::types::{verif_hooks as vh, DateTimeNumber, Profile, Signature};
use std::io::{self, ErrorKind, SeekFrom};

pub const HEAD: usize = 132;
const EARLY: u32 = 6;
const CAP: usize = HEAD + 12 * 21;

/// All that is global, in one. (Kani gives constants with the same bytes as a static the same place in memory; the first
/// field makes these bytes unlike those of any constant.)
struct Globals {
    magic: u64,
    // The device the profile is read from. Static, as CBMC resolves these accesses best.
    data: [u8; CAP],
    avail: usize, // bytes the device holds in DATA; reads beyond are cut off by assumption or error
    len: usize, // length of the device
    pos: usize,
    floor: usize, // LEN is known not to be below
    dry: bool, // whether reads beyond the header fail
    reports: u32,
    reported: u32,
    last: [u8; 12],
    // A device of which one operation fails
    calls: u32,
    early: u32, // which operation fails, if one of the first EARLY
    fail_at: u32, // which one if a later one
    fail_kind: u8,
    hit: bool,
    read_after: bool,
    offset: usize,
}
static mut G: Globals = Globals {
    magic: 0x5EED_C0DE_0000_970F,
    data: [0; CAP],
    avail: 0,
    len: 0,
    pos: 0,
    floor: 0,
    dry: false,
    reports: 0,
    reported: 0,
    last: [0; 12],
    calls: 0,
    early: EARLY,
    fail_at: u32::MAX,
    fail_kind: 0,
    hit: false,
    read_after: false,
    offset: 0,
};

#[derive(Debug)]
struct Device;

impl Device {
    /// The next bytes; `false` when the device ends before
    fn take(buf: &mut [u8]) -> bool {
        unsafe {
            let n = buf.len();
            if G.dry && G.pos >= HEAD {
                return false;
            }
            // constant during symbolic execution, and implied by the length
            if G.pos > G.avail || n > G.avail - G.pos {
                return false;
            }
            buf.copy_from_slice(&G.data[G.pos..G.pos + n]);
            G.pos += n;
            G.pos <= G.floor || G.pos <= G.len
        }
    }
}

impl IOHandler for Device {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<()> {
        if Device::take(buf) {
            Ok(())
        } else {
            Err(ErrorKind::UnexpectedEof.into())
        }
    }
    fn seek(&mut self, pos: SeekFrom) -> io::Result<()> {
        unsafe {
            G.pos = match pos {
                SeekFrom::Start(v) => v as usize,
                SeekFrom::End(v) => (G.len as i64).wrapping_add(v) as usize,
                SeekFrom::Current(v) => (G.pos as i64).wrapping_add(v) as usize,
            };
        }
        Ok(())
    }
    fn close(self) -> io::Result<()> {
        Ok(())
    }
    fn tell(&mut self) -> io::Result<usize> {
        Ok(unsafe { G.pos })
    }
    fn write(&mut self, _buf: &[u8]) -> io::Result<()> {
        panic!("opening a profile for reading must not write to it")
    }
}

fn handler(_: &mut Context, code: ErrorCode, text: String) {
    unsafe {
        G.reports += 1;
        G.reported = code as u32;
    }
    std::mem::forget(text);
}

pub fn fake_format(_: std::fmt::Arguments<'_>) -> String {
    String::new()
}
pub fn fixed_now() -> chrono::DateTime<chrono::Utc> {
    chrono::DateTime::<chrono::Utc>::from_utc(chrono::NaiveDateTime::from_timestamp(0, 0), chrono::Utc)
}

fn data() -> &'static mut [u8; CAP] {
    unsafe { &mut G.data }
}
/// Arbitrary header and `n` arbitrary entries
fn fill<const B: usize>() {
    let bytes: [u8; B] = kani::any();
    unsafe {
        G.data[..B].copy_from_slice(&bytes);
        G.avail = B;
        G.pos = 0;
    }
}
fn magic() -> bool {
    be(data(), 36, 4) == u32::from_be_bytes(*b"acsp") as u64
}
fn count() -> u64 {
    be(data(), 128, 4)
}
struct Entry {
    sig: Signature,
    offset: u64,
    size: u64,
}
fn entry(i: usize) -> Entry {
    let at = HEAD + 12 * i;
    Entry { sig: sig(data(), at), offset: be(data(), at + 4, 4), size: be(data(), at + 8, 4) }
}
/// Whether entry `i` fits in the file
fn fits(i: usize) -> bool {
    let limit = u64::min(be(data(), 0, 4), unsafe { G.len } as u64);
    let e = entry(i);
    e.offset + e.size <= limit
}

/// A profile over the device, before its header is read
fn profile() -> Profile {
    vh::profile_over(Box::new(Device))
}
/// Reads the header as opening a file does. (The profile is not moved: it is large.)
fn open(p: &mut Profile) -> Option<ErrorKind> {
    let mut context = Context::new(None);
    sh::set_error_handler(&mut context, handler);
    let r = vh::read_header(p, &mut context);
    std::mem::forget(context);
    match r {
        Ok(()) => None,
        Err(e) => {
            let k = e.kind();
            std::mem::forget(e);
            Some(k)
        }
    }
}

/// What becomes of a source of `LEN` bytes. Returns the number of tags, if it is opened.
fn judge() -> Option<usize> {
    let mut p = profile();
    let r = open(&mut p);
    let len = unsafe { G.len };
    let complete = len >= HEAD && (len - HEAD) as u64 / 12 >= count();
    let good = len >= 128 && magic();
    let expected = good && complete && count() <= 100;
    let (reports, code) = unsafe { (G.reports, G.reported) };
    match r {
        None => {
            assert!(expected);
            assert!(reports == 0);
            assert!(p.get_tag_count() as u64 <= count());
        }
        Some(kind) => {
            assert!(!expected);
            if len < 128 {
                assert!(reports == 0 && kind == ErrorKind::UnexpectedEof);
            } else if !good {
                assert!(reports == 1 && code == ErrorCode::BadSignature as u32);
                assert!(kind == ErrorKind::InvalidData);
            } else if len >= HEAD && count() > 100 {
                assert!(reports == 1 && code == ErrorCode::Range as u32);
                assert!(kind == ErrorKind::InvalidData);
            } else {
                assert!(reports == 0 && kind == ErrorKind::UnexpectedEof);
            }
        }
    }
    let tags = p.get_tag_count();
    std::mem::forget(p);
    if r.is_none() { Some(tags) } else { None }
}
// C15, C16: sources with any contents. Where they end and how many entries they announce is told apart here, so that it is
// known during symbolic execution what can be read.

/// Sources that end within the header, or the number of tags
fn short() {
    fill::<HEAD>();
    let len: usize = kani::any();
    kani::assume(len < HEAD);
    unsafe { G.len = len };
    if len < 128 {
        unsafe { G.avail = 127 };
        judge();
    } else {
        unsafe {
            G.avail = HEAD - 1;
            G.floor = 128;
        }
        judge();
        witness!(magic(), "the number of tags is cut off");
    }
}
/// Sources that end behind the number of tags, which is not 0
fn bare() {
    fill::<HEAD>();
    kani::assume(count() != 0);
    unsafe {
        G.len = HEAD;
        G.floor = HEAD;
        G.dry = true;
    }
    judge();
    witness!(magic() && count() == 101, "one tag too many");
    witness!(magic() && count() == 100, "as many tags as allowed");
}
/// `N` tags announced, and there
fn complete<const B: usize, const N: usize>() {
    fill::<B>();
    let len: usize = kani::any();
    kani::assume(len >= B && len < 1 << 62);
    unsafe {
        G.data[128..132].copy_from_slice(&[0, 0, 0, N as u8]);
        G.len = len;
        G.floor = B;
    }
    let tags = judge();
    witness!(tags == Some(N), "all entries kept");
}
/// `N` tags announced, in a source that ends within the one behind the `K`th
fn cut_off<const B: usize, const K: usize, const N: usize>() {
    fill::<B>();
    let at = HEAD + 12 * K;
    assert!(B == at + 11 && K < N);
    let len: usize = kani::any();
    kani::assume(len >= at && len <= B);
    unsafe {
        G.data[36..40].copy_from_slice(b"acsp");
        G.data[128..132].copy_from_slice(&[0, 0, 0, N as u8]);
        G.len = len;
        G.floor = at;
    }
    judge();
}

/// The header, with `magic` in place and `n` tags announced, in a device of any length that holds them
fn well_formed<const B: usize>(n: usize) {
    fill::<B>();
    // concrete, so that the paths that reject the profile are known to be dead
    unsafe {
        G.data[36..40].copy_from_slice(b"acsp");
        G.data[128..132].copy_from_slice(&[0, 0, 0, n as u8]);
        // 2007-07-25 00:05:37
        G.data[24..36].copy_from_slice(&[7, 215, 0, 7, 0, 25, 0, 0, 0, 5, 0, 37]);
    }
    let len: usize = kani::any();
    kani::assume(len >= B && len < 1 << 62);
    unsafe {
        G.len = len;
        G.floor = B;
    }
}

/// C18, C19
fn directory<const B: usize, const N: usize>() {
    well_formed::<B>(N);
    let mut p = profile();
    match open(&mut p) {
        Some(_) => panic!("a well-formed profile is rejected"),
        None => {
            let mut kept = 0;
            let mut i = 0;
            while i < N {
                if fits(i) {
                    let e = entry(i);
                    let mut k = 0;
                    while k <= i {
                        // that is, for k == kept; the places are constants for the solver's sake
                        if k == kept {
                            let t = vh::tag(&p, k);
                            assert!(t.name == e.sig && t.offset as u64 == e.offset && t.size as u64 == e.size);
                        }
                        k += 1;
                    }
                    kept += 1;
                }
                i += 1;
            }
            assert!(p.get_tag_count() == kept);
            witness!(kept == N - 1 && !fits(0) && entry(0).offset + entry(0).size > u32::MAX as u64,
                     "the first skipped, as its end is beyond 32 bits");
        }
    }
    std::mem::forget(p);
}
fn links<const B: usize, const N: usize>() {
    well_formed::<B>(N);
    let mut p = profile();
    match open(&mut p) {
        Some(_) => panic!("a well-formed profile is rejected"),
        None => {
            let n = p.get_tag_count();
            assert!(n <= N);
            let mut i = 0;
            while i < N {
                let t = vh::tag(&p, i);
                let mut shared = false; // some earlier tag shares the data
                let mut named = false; // and has the name that is linked to
                let mut j = 0;
                while j < i {
                    let u = vh::tag(&p, j);
                    if u.offset == t.offset && u.size == t.size {
                        shared = true;
                        named |= t.linked == Some(u.name);
                    }
                    j += 1;
                }
                if i < n {
                    assert!(t.linked.is_some() == shared);
                    assert!(named == shared);
                    witness!(i == N - 1 && shared, "the last linked");
                }
                i += 1;
            }
        }
    }
    std::mem::forget(p);
}

const MANY: usize = 100;
const FULL: usize = HEAD + 12 * MANY;

/// A profile with as many tags as are allowed, of which the last is arbitrary. (Constants, so no array to look up in)
fn byte(at: usize) -> u8 {
    const DATE: [u8; 12] = [7, 215, 0, 7, 0, 25, 0, 0, 0, 5, 0, 37];
    match at {
        2 => 16,
        24..=35 => DATE[at - 24],
        36..=39 => b"acsp"[at - 36],
        131 => MANY as u8,
        0..=131 => 0,
        _ => {
            let (i, k) = ((at - HEAD) / 12, (at - HEAD) % 12);
            if i == MANY - 1 {
                return unsafe { G.last[k] };
            }
            match k {
                0..=2 => b"tag"[k],
                3 => i as u8,
                6 => 8,
                // every second one has data of its own
                7 => i as u8 & 0xFE,
                11 => 4,
                _ => 0,
            }
        }
    }
}

#[derive(Debug)]
struct Full;

impl IOHandler for Full {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<()> {
        unsafe {
            let n = buf.len();
            if G.pos > FULL || n > FULL - G.pos {
                return Err(ErrorKind::UnexpectedEof.into());
            }
            // in two loops, for their bounds
            let mut i = 0;
            while i < n {
                let mut k = 0;
                while k < 128 && i < n {
                    buf[i] = byte(G.pos + i);
                    i += 1;
                    k += 1;
                }
            }
            G.pos += n;
        }
        Ok(())
    }
    fn seek(&mut self, pos: SeekFrom) -> io::Result<()> {
        Device.seek(pos)
    }
    fn close(self) -> io::Result<()> {
        Ok(())
    }
    fn tell(&mut self) -> io::Result<usize> {
        Ok(unsafe { G.pos })
    }
    fn write(&mut self, _buf: &[u8]) -> io::Result<()> {
        panic!("opening a profile for reading must not write to it")
    }
}

/// C15, C18, C19, C20: as many tags as are allowed. The last one is arbitrary.
fn full() {
    let last: [u8; 12] = kani::any();
    unsafe {
        G.last = last;
        G.len = 4000;
    }
    let mut p = vh::profile_over(Box::new(Full));
    let r = open(&mut p);
    assert!(r.is_none());
    let e = Entry { sig: sig(&last, 0), offset: be(&last, 4, 4), size: be(&last, 8, 4) };
    let fits = e.offset + e.size <= 4000;
    assert!(p.get_tag_count() == if fits { MANY } else { MANY - 1 });
    let mut i = 0;
    while i < MANY - 1 {
        let t = vh::tag(&p, i);
        assert!(u32::from(t.name) == 0x74616700 + i as u32);
        assert!(t.offset == 0x800 + (i & !1) && t.size == 4);
        if i % 2 == 0 {
            assert!(t.linked.is_none());
        } else {
            assert!(t.linked.map(u32::from) == Some(0x74616700 + i as u32 - 1));
        }
        i += 1;
    }
    let t = vh::tag(&p, MANY - 1);
    if fits {
        assert!(t.name == e.sig && t.offset as u64 == e.offset && t.size as u64 == e.size);
        let shares = e.size == 4 && e.offset >= 0x800 && e.offset < 0x800 + MANY as u64 - 1 && e.offset & 1 == 0;
        assert!(t.linked.is_some() == shares);
        if let Some(name) = t.linked {
            let n = u32::from(name) as u64;
            assert!(n & 0xFFFFFF00 == 0x74616700);
            assert!(n & 0xFE == e.offset - 0x800 && n & 0xFF < MANY as u64 - 1);
        }
        assert!(p.get_tag_signature(MANY - 1) == e.sig);
        witness!(t.linked.is_some(), "the hundredth linked");
    } else {
        assert!(p.get_tag_signature(MANY - 1) == Signature::default());
    }
    assert!(p.get_tag_signature(MANY) == Signature::default());
    std::mem::forget(p);
}

/// C17
fn fields() {
    fill::<HEAD>();
    unsafe {
        G.data[36..40].copy_from_slice(b"acsp");
        G.data[128..132].copy_from_slice(&[0; 4]);
        G.len = HEAD;
        G.floor = HEAD;
    }
    let d = data();
    let two = |at| be(d, at, 2) as u16;
    // as C25 says, also if it is no date
    let created = NaiveDateTime::from(DateTimeNumber {
        year: two(24),
        month: two(26),
        day: two(28),
        hours: two(30),
        minutes: two(32),
        seconds: two(34),
    });
    let mut p = profile();
    let r = open(&mut p);
    assert!(r.is_none());
    let f = vh::header(&p);
    assert!(f.version as u64 == be(d, 8, 4));
    assert!(u32::from(f.device_class) as u64 == be(d, 12, 4));
    assert!(u32::from(f.color_space) as u64 == be(d, 16, 4));
    assert!(u32::from(f.pcs) as u64 == be(d, 20, 4));
    assert!(f.flags as u64 == be(d, 44, 4));
    assert!(f.manufacturer as u64 == be(d, 48, 4));
    assert!(f.model as u64 == be(d, 52, 4));
    assert!(f.attributes == be(d, 56, 8));
    assert!(f.rendering_intent as u64 == be(d, 64, 4));
    assert!(f.creator as u64 == be(d, 80, 4));
    let i: usize = kani::any();
    kani::assume(i < 16);
    assert!(unsafe { f.profile_id.id8 }[i] == d[84 + i]);
    assert!(!f.is_write);
    assert!(f.created == created);
    assert!(p.get_tag_count() == 0);
    witness!(f.version == 0x04300000 && be(d, 24, 2) == 2024 && be(d, 26, 2) == 2 && be(d, 28, 2) == 29, "a leap day");
    std::mem::forget(p);
}

/// C20: looking up in what was parsed
fn found<const B: usize, const N: usize>() {
    well_formed::<B>(N);
    let mut p = profile();
    let r = open(&mut p);
    assert!(r.is_none());
    let sig = Signature::from(kani::any::<u32>());
    crate::tags::check_search::<N>(&p, sig);
    std::mem::forget(p);
}


#[derive(Debug)]
struct Failing;

impl Failing {
    fn step() -> io::Result<()> {
        unsafe {
            // the first ones one by one, so that it is known during symbolic execution what is done next
            let fault = if G.calls < EARLY { G.early == G.calls } else { G.early == EARLY && G.calls == G.fail_at };
            G.calls += 1;
            if fault {
                G.hit = true;
                if G.early < EARLY {
                    // a constant
                    return Err(ErrorKind::BrokenPipe.into());
                }
                return Err(dev::kind(G.fail_kind).into());
            }
        }
        Ok(())
    }
}
impl IOHandler for Failing {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<()> {
        unsafe {
            G.read_after |= G.hit;
            let n = buf.len();
            // The bytes are handed out in order, so that their place is a constant. (What they are does not matter.)
            if G.offset > G.avail || n > G.avail - G.offset {
                return Err(ErrorKind::Other.into());
            }
            buf.copy_from_slice(&G.data[G.offset..G.offset + n]);
            G.offset += n;
            G.pos = G.pos.wrapping_add(n);
        }
        Failing::step()
    }
    fn seek(&mut self, pos: SeekFrom) -> io::Result<()> {
        unsafe {
            G.pos = match pos {
                SeekFrom::Start(v) => v as usize,
                SeekFrom::End(v) => (G.len as i64).wrapping_add(v) as usize,
                SeekFrom::Current(v) => (G.pos as i64).wrapping_add(v) as usize,
            };
        }
        Failing::step()
    }
    fn close(self) -> io::Result<()> {
        Ok(())
    }
    fn tell(&mut self) -> io::Result<usize> {
        let pos = unsafe { G.pos };
        Failing::step()?;
        Ok(pos)
    }
    fn write(&mut self, _buf: &[u8]) -> io::Result<()> {
        panic!("opening a profile for reading must not write to it")
    }
}

/// C23: the operation that fails is `early`, or any later one for EARLY
fn faults<const B: usize, const N: usize>(early: u32) -> u32 {
    well_formed::<B>(N);
    unsafe {
        G.early = early;
        G.fail_at = kani::any();
        G.fail_kind = kani::any();
    }
    let mut p = vh::profile_over(Box::new(Failing));
    let r = open(&mut p);
    let (hit, calls) = unsafe { (G.hit, G.calls) };
    if hit {
        let kind = if early < EARLY { ErrorKind::BrokenPipe } else { dev::kind(unsafe { G.fail_kind }) };
        assert!(r == Some(kind));
        assert!(unsafe { G.reports } == 0);
        assert!(unsafe { !G.read_after });
    } else {
        assert!(r.is_none());
    }
    std::mem::forget(p);
    calls
}
fn faults_early() {
    // apart, for symbolic execution
    match kani::any::<u8>() {
        0 => faults::<{ HEAD + 12 }, 1>(0),
        1 => faults::<{ HEAD + 12 }, 1>(1),
        2 => faults::<{ HEAD + 12 }, 1>(2),
        3 => faults::<{ HEAD + 12 }, 1>(3),
        4 => faults::<{ HEAD + 12 }, 1>(4),
        _ => faults::<{ HEAD + 12 }, 1>(5),
    };
    assert!(EARLY == 6);
    witness!(unsafe { G.hit && G.calls == EARLY }, "the last of them fails");
}
fn faults_later<const B: usize, const N: usize>() {
    let calls = faults::<B, N>(EARLY);
    witness!(unsafe { G.hit && G.offset == B } && calls > EARLY, "the last one fails");
}

harnesses! {
    #[kani::unwind(14)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, dev::keep)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn short_ones() {
        short();
    }
    #[kani::unwind(14)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, dev::keep)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn bare_ones() {
        bare();
    }
    #[kani::unwind(14)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, dev::keep)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn complete_0() {
        complete::<{ HEAD + 12 * 0 }, 0>();
    }
    #[kani::unwind(14)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, dev::keep)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn complete_1() {
        complete::<{ HEAD + 12 * 1 }, 1>();
    }
    #[kani::unwind(14)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, dev::keep)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn complete_3() {
        complete::<{ HEAD + 12 * 3 }, 3>();
    }
    #[kani::unwind(14)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, dev::keep)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn complete_8() {
        complete::<{ HEAD + 12 * 8 }, 8>();
    }
    #[kani::unwind(14)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, dev::keep)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn cut_0_of_1() {
        cut_off::<{ HEAD + 12 * 0 + 11 }, 0, 1>();
    }
    #[kani::unwind(14)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, dev::keep)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn cut_1_of_2() {
        cut_off::<{ HEAD + 12 * 1 + 11 }, 1, 2>();
    }
    #[kani::unwind(14)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, dev::keep)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn cut_2_of_100() {
        cut_off::<{ HEAD + 12 * 2 + 11 }, 2, 100>();
    }
    #[kani::unwind(14)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, dev::keep)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn cut_7_of_9() {
        cut_off::<{ HEAD + 12 * 7 + 11 }, 7, 9>();
    }
    #[kani::unwind(14)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, dev::keep)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn directory_2() {
        directory::<{ HEAD + 24 }, 2>();
    }
    #[kani::unwind(14)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, dev::keep)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn directory_3() {
        directory::<{ HEAD + 36 }, 3>();
    }
    #[kani::unwind(14)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, dev::keep)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn directory_8() {
        directory::<{ HEAD + 96 }, 8>();
    }
    #[kani::unwind(14)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, dev::keep)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn links_2() {
        links::<{ HEAD + 24 }, 2>();
    }
    #[kani::unwind(14)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, dev::keep)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn links_3() {
        links::<{ HEAD + 36 }, 3>();
    }
    #[kani::unwind(14)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, dev::keep)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn links_5() {
        links::<{ HEAD + 60 }, 5>();
    }
    #[kani::unwind(9)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, dev::keep)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn found_2() {
        found::<{ HEAD + 24 }, 2>();
    }
    #[kani::unwind(9)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, dev::keep)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn found_3() {
        found::<{ HEAD + 36 }, 3>();
    }
    #[kani::unwind(26)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, dev::keep)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn complete_20() {
        complete::<{ HEAD + 240 }, 20>();
    }
    #[kani::unwind(26)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, dev::keep)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn cut_19_of_20() {
        cut_off::<{ HEAD + 12 * 19 + 11 }, 19, 20>();
    }
    #[kani::unwind(26)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, dev::keep)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn directory_12() {
        directory::<{ HEAD + 144 }, 12>();
    }
    #[kani::unwind(26)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, dev::keep)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn links_6() {
        links::<{ HEAD + 72 }, 6>();
    }
    #[kani::unwind(26)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, dev::keep)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn found_5() {
        found::<{ HEAD + 60 }, 5>();
    }
    #[kani::unwind(26)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, dev::keep)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn faults_12() {
        faults_later::<{ HEAD + 144 }, 12>();
    }
    #[kani::unwind(14)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, dev::keep)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn header_fields() {
        fields();
    }
    #[kani::unwind(14)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, dev::keep)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn faults_first() {
        faults_early();
    }
    #[kani::unwind(14)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, dev::keep)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn faults_1() {
        faults_later::<{ HEAD + 12 }, 1>();
    }
    #[kani::unwind(14)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, dev::keep)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn faults_2() {
        faults_later::<{ HEAD + 24 }, 2>();
    }
    #[kani::unwind(14)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, dev::keep)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn faults_5() {
        faults_later::<{ HEAD + 60 }, 5>();
    }
    #[kani::unwind(129)]
    #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, dev::keep)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn hundred() {
        full();
    }
}
