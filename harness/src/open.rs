//! C24, C40, and C15, C16 for files: opening by name. Under Kani, the standard library's calls to open, read and seek in a file
//! are replaced by a model; natively there are real files in a directory of our own.
#[cfg(not(kani))]
use crate::kani;
use crate::codec::be;
use crate::profile::{fake_format, fixed_now};
use crate::{harnesses, witness};
use lcms2::io::AccessMode;
use lcms2::state::{verif_hooks as sh, Context, ErrorCode};
use lcms2::types::{verif_hooks as vh, Profile};
use std::fs::{File, OpenOptions};
use std::io::{self, ErrorKind, SeekFrom};
use std::os::fd::{FromRawFd, OwnedFd};
use std::path::Path;

const SIZE: usize = 132;
/// All that is global, in one. (Kani gives constants with the same bytes as a static the same place in memory; the first
/// field makes these bytes unlike those of any constant.)
struct Globals {
    magic: u64,
    data: [u8; SIZE],
    pos: u64,
    // The operating system refuses to open the file
    refuse: bool,
    error: i32,
    opens: u32,
    transfers: u32,
    closes: u32,
    named: bool,
    options: Options,
    // C40: what other users of the global context do while a profile is opened
    shared: bool,
    // One of them uses the context
    other: Option<sh::Global>,
    // Times it may still be taken
    left: u32,
    // The handler which is installed in the global context
    installed: u32,
    reports: u32,
    reported: u32,
}
static mut G: Globals = Globals {
    magic: 0x5EED_C0DE_0000_09E2,
    data: [0; SIZE],
    pos: 0,
    refuse: false,
    error: 0,
    opens: 0,
    transfers: 0,
    closes: 0,
    named: false,
    options: Options { read: false, write: false, append: false, truncate: false, create: false, create_new: false },
    shared: false,
    other: None,
    left: 0,
    installed: 0,
    reports: 0,
    reported: 0,
};

#[derive(Clone, Copy, Default)]
struct Options {
    read: bool,
    write: bool,
    append: bool,
    truncate: bool,
    create: bool,
    create_new: bool,
}

#[cfg(kani)]
mod stubs {
    use super::*;
    const BYTES: usize = std::mem::size_of::<OpenOptions>();

    /// Whether an option is set: there are no getters, so this looks at the byte which the setter changes.
    fn flag(options: &OpenOptions, set: fn(&mut OpenOptions) -> &mut OpenOptions) -> bool {
        let (none, mut one) = (OpenOptions::new(), OpenOptions::new());
        set(&mut one);
        let byte = |o: &OpenOptions, i: usize| unsafe { *(o as *const OpenOptions as *const u8).add(i) };
        // the fields are two numbers and six flags, and then two bytes of padding
        assert!(BYTES == 16);
        let mut i = 8;
        while i < 14 {
            if byte(&none, i) != byte(&one, i) {
                return byte(options, i) == byte(&one, i);
            }
            i += 1;
        }
        panic!("no such flag");
    }
    pub fn open(options: &OpenOptions, path: &Path) -> io::Result<File> {
        others();
        unsafe {
            G.opens += 1;
            G.named = path.as_os_str().len() == 3;
            G.options = Options {
                read: flag(options, |o| o.read(true)),
                write: flag(options, |o| o.write(true)),
                append: flag(options, |o| o.append(true)),
                truncate: flag(options, |o| o.truncate(true)),
                create: flag(options, |o| o.create(true)),
                create_new: flag(options, |o| o.create_new(true)),
            };
            if G.refuse {
                return Err(io::Error::from_raw_os_error(G.error));
            }
            Ok(File::from_raw_fd(7))
        }
    }
    pub fn read(_: &mut File, buf: &mut [u8]) -> io::Result<usize> {
        others();
        unsafe {
            G.transfers += 1;
            if G.pos as usize + buf.len() > SIZE {
                return Ok(0);
            }
            buf.copy_from_slice(&G.data[G.pos as usize..G.pos as usize + buf.len()]);
            G.pos += buf.len() as u64;
        }
        Ok(buf.len())
    }
    pub fn read_ref<'a: 'a>(_: &mut &'a File, buf: &mut [u8]) -> io::Result<usize> {
        read(unsafe { &mut *(&raw mut ANY as *mut File) }, buf)
    }
    static mut ANY: u64 = 0x5EED_C0DE_0000_0A27;
    pub fn write(_: &mut File, buf: &[u8]) -> io::Result<usize> {
        unsafe { G.transfers += 1 };
        Ok(buf.len())
    }
    pub fn seek(_: &mut File, pos: SeekFrom) -> io::Result<u64> {
        others();
        unsafe {
            G.pos = match pos {
                SeekFrom::Start(v) => v,
                SeekFrom::Current(v) => G.pos.wrapping_add(v as u64),
                SeekFrom::End(v) => (SIZE as u64).wrapping_add(v as u64),
            };
            Ok(G.pos)
        }
    }
    pub fn tell(_: &mut File) -> io::Result<u64> {
        others();
        Ok(unsafe { G.pos })
    }
    /// The global context is made before the threads begin to use it
    pub fn no_thread() -> std::thread::Thread {
        panic!("waits for the making of the global context")
    }
    pub fn no_park() {
        panic!("waits for the making of the global context")
    }
    pub fn close(_: &mut OwnedFd) {
        unsafe { G.closes += 1 }
    }
}


/// Other threads may run here, that is, at every system call.
pub fn others() {
    unsafe {
        if !G.shared {
            return;
        }
        let go: bool = kani::any();
        if G.other.is_some() {
            if go {
                leave();
            }
        } else if go && G.left > 0 {
            if let Some(g) = sh::try_global() {
                G.left -= 1;
                G.other = Some(g);
            }
        }
    }
}
/// Before another user leaves the context to others, it installs its handler.
fn leave() {
    unsafe {
        if let Some(mut g) = G.other.take() {
            sh::set_error_handler(g.context(), second);
            G.installed = 2;
        }
    }
}
/// The thread under test waits for the context.
pub fn waits() {
    unsafe {
        if G.shared {
            assert!(G.other.is_some(), "deadlock: it waits for itself");
            leave();
        }
    }
}
pub fn shared() -> bool {
    unsafe { G.shared }
}
fn report(which: u32, code: ErrorCode, text: String) {
    unsafe {
        assert!(G.installed == which, "reported to a handler which is no longer installed");
        assert!(G.other.is_none() && sh::try_global().is_none(), "the context is used by two at once");
        G.reports += 1;
        G.reported = code as u32;
    }
    std::mem::forget(text);
}
fn first(_: &mut Context, code: ErrorCode, text: String) {
    report(1, code, text);
}
fn second(_: &mut Context, code: ErrorCode, text: String) {
    report(2, code, text);
}

/// C40: opening through the global context
fn sharing(mode: AccessMode, tags: u32) {
    std::mem::forget(set_up(tags));
    let reads = matches!(mode, AccessMode::Read);
    let mut g = sh::try_global().unwrap();
    sh::set_error_handler(g.context(), first);
    unsafe {
        G.installed = 1;
        G.left = 1;
        if kani::any() {
            G.other = Some(g);
        } else {
            drop(g);
        }
    }
    with_file(reads, |name| {
        unsafe { G.shared = true };
        let r = Profile::open_from_file(name, mode);
        unsafe {
            G.shared = false;
            leave();
        }
        assert!(sh::try_global().is_some(), "the context is left locked or poisoned");
        let (refuse, d, reports, code) = unsafe { (G.refuse, &G.data, G.reports, G.reported) };
        let magic = be(d, 36, 4) == u32::from_be_bytes(*b"acsp") as u64;
        let few = be(d, 128, 4) == 0;
        if refuse || !reads || magic && few {
            assert!(r.is_ok() == !refuse);
            assert!(reports == 0);
        } else {
            assert!(r.is_err());
            assert!(reports == 1);
            assert!(code == if magic { ErrorCode::Range as u32 } else { ErrorCode::BadSignature as u32 });
        }
        witness!(unsafe { G.installed } == 2 && (!reads || reports == 1), "used by another before");
        std::mem::forget(r);
    });
}

fn handler(_: &mut Context, code: ErrorCode, text: String) {
    unsafe {
        G.reports += 1;
        G.reported = code as u32;
    }
    std::mem::forget(text);
}

#[cfg(kani)]
const NAME: &str = "a.b";
#[cfg(kani)]
fn with_file(_: bool, f: impl FnOnce(&str)) {
    f(NAME)
}
/// A real file; natively a refusal is a file (for reading) or a directory (for writing) which is not there
#[cfg(not(kani))]
fn with_file(reading: bool, f: impl FnOnce(&str)) {
    let dir = std::env::temp_dir().join(format!("vp-open-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let refuse = unsafe { G.refuse };
    let name = if refuse && !reading { dir.join("none").join("a.b") } else { dir.join("a.b") };
    if !refuse {
        std::fs::write(&name, unsafe { G.data }).unwrap();
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(name.to_str().unwrap())));
    let created = refuse && name.exists();
    let left = std::fs::metadata(&name).map(|m| m.len()).unwrap_or(0);
    std::fs::remove_dir_all(&dir).unwrap();
    if let Err(e) = r {
        std::panic::resume_unwind(e);
    }
    assert!(!created, "a file was created to read it");
    if !refuse && reading {
        assert!(left == SIZE as u64, "reading changed the file");
    }
    if !refuse && !reading {
        assert!(left == 0, "the file was not emptied");
    }
}

fn set_up(tags: u32) -> Context {
    let mut c = Context::new(None);
    sh::set_error_handler(&mut c, handler);
    unsafe {
        G.refuse = kani::any();
        G.error = kani::any();
        kani::assume(G.error > 0 && G.error < 134);
        G.data = kani::any();
        // Tables are for the harnesses of profile.rs. (A constant, so that it is known during symbolic execution what is read)
        G.data[128..132].copy_from_slice(&tags.to_be_bytes());
    }
    c
}
fn refused(r: &io::Result<Box<Profile>>) {
    match r {
        Ok(_) => panic!("opened what was refused"),
        #[cfg(kani)]
        Err(e) => assert!(e.raw_os_error() == Some(unsafe { G.error })),
        #[cfg(not(kani))]
        Err(e) => assert!(e.kind() == ErrorKind::NotFound),
    }
    assert!(unsafe { G.reports == 0 && G.transfers == 0 });
}

fn reading(tags: u32) {
    let mut c = set_up(tags);
    with_file(true, |name| {
        let r = Profile::open_from_file_thr(&mut c, name, AccessMode::Read);
        #[cfg(kani)]
        unsafe {
            assert!(G.opens == 1 && G.named);
            assert!(!G.options.create && !G.options.create_new);
            assert!(G.refuse || G.options.read && !G.options.truncate);
        }
        let (refuse, d, reports, code) = unsafe { (G.refuse, &G.data, G.reports, G.reported) };
        if refuse {
            refused(&r);
            witness!(true, "refused");
        } else {
            let magic = be(d, 36, 4) == u32::from_be_bytes(*b"acsp") as u64;
            let few = be(d, 128, 4) == 0;
            match &r {
                Ok(p) => {
                    assert!(magic && few);
                    assert!(reports == 0);
                    assert!(p.get_io_handler().is_some() && p.get_tag_count() == 0);
                    assert!(vh::header(p).is_write == false && vh::header(p).flags as u64 == be(d, 44, 4));
                    #[cfg(kani)]
                    unsafe {
                        assert!(G.closes == 0);
                    }
                }
                Err(e) => {
                    assert!(!(magic && few));
                    assert!(reports == 1 && e.kind() == ErrorKind::InvalidData);
                    assert!(code == if magic { ErrorCode::Range as u32 } else { ErrorCode::BadSignature as u32 });
                    #[cfg(kani)]
                    unsafe {
                        assert!(G.closes == 1);
                    }
                }
            }
        }
        witness!(!refuse && reports == (tags > 100) as u32, "opened, or too many tags");
        std::mem::forget(r);
    });
    std::mem::forget(c);
}

fn writing() {
    let mut c = set_up(101);
    with_file(false, |name| {
        let r = Profile::open_from_file_thr(&mut c, name, AccessMode::Write);
        #[cfg(kani)]
        unsafe {
            assert!(G.opens == 1 && G.named);
            assert!(G.refuse || G.options.write && G.options.create && G.options.truncate && !G.options.append && !G.options.create_new);
        }
        unsafe {
            assert!(G.transfers == 0 && G.reports == 0);
            if G.refuse {
                refused(&r);
                witness!(true, "refused");
            } else {
                let p = r.as_ref().unwrap();
                assert!(vh::header(p).is_write);
                assert!(p.get_tag_count() == 0 && p.get_io_handler().is_some());
                #[cfg(kani)]
                assert!(G.closes == 0);
                witness!(true, "created");
            }
        }
        std::mem::forget(r);
    });
    std::mem::forget(c);
}

macro_rules! with_files {
    ($($(#[kani::$($m:tt)*])* fn $name:ident() $body:block)*) => {
        harnesses! {
            $(
                $(#[kani::$($m)*])*
                #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
                #[kani::stub(chrono::Utc::now, fixed_now)]
                #[kani::stub(std::fmt::format, fake_format)]
                #[kani::stub(std::fs::OpenOptions::_open, stubs::open)]
                #[kani::stub(<std::fs::File as std::io::Read>::read, stubs::read)]
                #[kani::stub(<&std::fs::File as std::io::Read>::read, stubs::read_ref)]
                #[kani::stub(<std::fs::File as std::io::Write>::write, stubs::write)]
                #[kani::stub(<std::fs::File as std::io::Seek>::seek, stubs::seek)]
                #[kani::stub(<std::fs::File as std::io::Seek>::stream_position, stubs::tell)]
                #[kani::stub(<std::os::fd::OwnedFd as std::ops::Drop>::drop, stubs::close)]
                #[kani::stub(core::hint::spin_loop, waits)]
                #[kani::stub(std::thread::current::current, stubs::no_thread)]
                #[kani::stub(std::thread::park, stubs::no_park)]
                fn $name() $body
            )*
        }
    };
}
with_files! {
    #[kani::unwind(7)]
    fn for_reading() {
        reading(0);
    }
    #[kani::unwind(7)]
    fn for_reading_many() {
        reading(101);
    }
    #[kani::unwind(7)]
    fn for_writing() {
        writing();
    }
    #[kani::unwind(7)]
    fn shared_reading() {
        sharing(AccessMode::Read, 0);
    }
    #[kani::unwind(7)]
    fn shared_reading_many() {
        sharing(AccessMode::Read, 101);
    }
    #[kani::unwind(7)]
    fn shared_writing() {
        sharing(AccessMode::Write, 101);
    }
}
