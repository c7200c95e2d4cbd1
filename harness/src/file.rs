//! C11, C24: files on disk. The calls which reach the operating system are replaced by a model of it, which transfers
//! any part of what was asked for, is interrupted, or fails. Natively the system calls are replaced (bin/replay.rs).
#[cfg(not(kani))]
use crate::kani;
use crate::{harnesses, witness};
use lcms2::io::IOHandler;
use std::fs::File;
use std::io::{self, ErrorKind, SeekFrom};
use std::os::fd::{FromRawFd, OwnedFd, RawFd};

pub const FD: RawFd = 1_000_007;
pub const EINTR: i32 = 4;
/// Long transfers: above this, an error
const LIMIT: usize = 1 << 20;
/// Most calls for one transfer
const STEPS: usize = 5;

/// The operating system
pub struct Os {
    /// Kani gives constants with the same bytes as a static the same place in memory: this makes them differ
    pub magic: u64,
    /// What each transfer call does: below 200, bytes to transfer; else a failure
    pub script: [u8; STEPS],
    pub error: i32,
    pub calls: usize,
    /// Bytes of the file which is read, and stored by writes
    pub data: [u8; 8],
    pub done: usize,
    /// Calls after a failure or the end
    pub over: bool,
    pub after: u32,
    pub position: u64,
    pub fail: bool,
    pub seeks: u32,
    pub sought: (u8, i64),
    pub tells: u32,
    pub syncs: u32,
    pub closes: u32,
    pub synced_when_closed: bool,
    pub bad: bool,
    /// Long transfers: what each call does, and the only byte that is kept
    pub long: bool,
    pub pieces: [usize; STEPS],
    pub keeps: bool,
    pub at: usize,
    pub value: u8,
}
pub static mut OS: Os = Os {
    magic: 0x5EED_C0DE_0000_F11E,
    script: [0; STEPS], error: 0, calls: 0, data: [0; 8], done: 0, over: false, after: 0, position: 0, fail: false,
    seeks: 0, sought: (0, 0), tells: 0, syncs: 0, closes: 0, synced_when_closed: false, bad: false,
    long: false, pieces: [0; STEPS], keeps: false, at: 0, value: 0,
};

/// One transfer: bytes moved, or the error code
fn step(len: usize) -> Result<usize, i32> {
    let os = unsafe { &mut OS };
    if os.over {
        os.after += 1;
    }
    let n = os.calls;
    os.calls += 1;
    kani::assume(n < if os.long { 3 } else { STEPS });
    let what = if os.long { os.pieces[n] } else { os.script[n] as usize };
    if what == 200 {
        return Err(EINTR);
    }
    if what > 200 && !os.long || what > LIMIT {
        os.over = true;
        return Err(os.error);
    }
    kani::assume(what <= len);
    if what == 0 && len > 0 {
        os.over = true;
    }
    Ok(what)
}
pub fn os_read(buf: &mut [u8]) -> Result<usize, i32> {
    let n = step(buf.len())?;
    let os = unsafe { &mut OS };
    if os.long {
        if os.keeps && os.at >= os.done && os.at - os.done < n {
            buf[os.at - os.done] = os.value;
        }
        os.done += n;
        return Ok(n);
    }
    let mut i = 0;
    while i < n {
        buf[i] = os.data[os.done + i];
        i += 1;
    }
    os.done += n;
    Ok(n)
}
pub fn os_write(buf: &[u8]) -> Result<usize, i32> {
    let n = step(buf.len())?;
    let os = unsafe { &mut OS };
    if os.long {
        if os.keeps && os.at >= os.done && os.at - os.done < n {
            os.value = buf[os.at - os.done];
        }
        os.done += n;
        return Ok(n);
    }
    let mut i = 0;
    while i < n {
        os.data[os.done + i] = buf[i];
        i += 1;
    }
    os.done += n;
    Ok(n)
}
pub fn os_seek(whence: u8, offset: i64) -> Result<u64, i32> {
    let os = unsafe { &mut OS };
    if whence == 1 && offset == 0 {
        os.tells += 1;
    } else {
        os.seeks += 1;
    }
    os.sought = (whence, offset);
    if os.fail {
        return Err(os.error);
    }
    Ok(os.position)
}
pub fn os_sync() -> Result<(), i32> {
    let os = unsafe { &mut OS };
    os.syncs += 1;
    if os.closes > 0 {
        os.bad = true;
    }
    if os.fail { Err(os.error) } else { Ok(()) }
}
pub fn os_close() {
    let os = unsafe { &mut OS };
    os.closes += 1;
    os.synced_when_closed = os.syncs > 0;
}

#[cfg(kani)]
pub mod stubs {
    use super::*;
    fn io<T>(r: Result<T, i32>) -> io::Result<T> {
        match r {
            Ok(v) => Ok(v),
            Err(code) => Err(io::Error::from_raw_os_error(code)),
        }
    }
    pub fn read(_: &mut File, buf: &mut [u8]) -> io::Result<usize> {
        io(os_read(buf))
    }
    pub fn read_ref<'a: 'a>(_: &mut &'a File, buf: &mut [u8]) -> io::Result<usize> {
        io(os_read(buf))
    }
    pub fn write(_: &mut File, buf: &[u8]) -> io::Result<usize> {
        io(os_write(buf))
    }
    pub fn write_ref<'a: 'a>(_: &mut &'a File, buf: &[u8]) -> io::Result<usize> {
        io(os_write(buf))
    }
    fn parts(pos: SeekFrom) -> (u8, i64) {
        match pos {
            SeekFrom::Start(v) => (0, v as i64),
            SeekFrom::Current(v) => (1, v),
            SeekFrom::End(v) => (2, v),
        }
    }
    pub fn seek(_: &mut File, pos: SeekFrom) -> io::Result<u64> {
        let (w, o) = parts(pos);
        io(os_seek(w, o))
    }
    pub fn seek_ref<'a: 'a>(_: &mut &'a File, pos: SeekFrom) -> io::Result<u64> {
        let (w, o) = parts(pos);
        io(os_seek(w, o))
    }
    pub fn tell(_: &mut File) -> io::Result<u64> {
        io(os_seek(1, 0))
    }
    pub fn tell_ref<'a: 'a>(_: &mut &'a File) -> io::Result<u64> {
        io(os_seek(1, 0))
    }
    pub fn sync(_: &File) -> io::Result<()> {
        io(os_sync())
    }
    pub fn close(_: &mut OwnedFd) {
        os_close()
    }
    pub fn is_interrupted(e: &io::Error) -> bool {
        e.raw_os_error() == Some(EINTR)
    }
}

/// Where the operating system begins
fn start() -> File {
    let os = unsafe { &mut OS };
    os.script = kani::any();
    os.error = kani::any();
    os.data = kani::any();
    os.position = kani::any();
    os.fail = kani::any();
    // error codes as they occur, without the one of interruptions
    kani::assume(os.error > 0 && os.error < 134 && os.error != EINTR);
    kani::assume(os.position <= i64::MAX as u64);
    unsafe { File::from_raw_fd(FD) }
}
/// The outcome of the script for a transfer of `len` bytes: bytes moved, and whether an error ends it
fn outcome(len: usize) -> (usize, bool) {
    let os = unsafe { &OS };
    let (mut moved, mut k) = (0, 0);
    while moved < len && k < STEPS {
        let what = if os.long { os.pieces[k] } else { os.script[k] as usize };
        k += 1;
        if what > 200 && !os.long || what > LIMIT {
            return (moved, true);
        }
        if what == 200 {
            continue;
        }
        if what == 0 {
            return (moved, false);
        }
        moved += what;
    }
    (moved, false)
}
fn code<T>(r: &io::Result<T>) -> Option<i32> {
    match r {
        Ok(_) => None,
        Err(e) => e.raw_os_error(),
    }
}

fn reading<const N: usize>() {
    let mut f = start();
    let mut buf: [u8; N] = kani::any();
    let r = IOHandler::read(&mut f, &mut buf);
    let os = unsafe { &OS };
    let (moved, failed) = outcome(N);
    assert!(r.is_ok() == (moved == N));
    assert!(os.done == moved);
    assert!(os.after == 0);
    assert!(os.seeks == 0 && os.closes == 0);
    if moved == N {
        let i: usize = kani::any();
        kani::assume(i < N);
        assert!(buf[i] == os.data[i]);
        witness!(os.calls == STEPS, "in many pieces");
    }
    if failed {
        assert!(code(&r) == Some(os.error));
        witness!(moved > 0, "an error in the middle");
    }
    witness!(moved > 0 && moved < N && !failed, "ends early");
    std::mem::forget((r, f));
}
fn writing<const N: usize>() {
    let mut f = start();
    let buf: [u8; N] = kani::any();
    let r = IOHandler::write(&mut f, &buf);
    let os = unsafe { &OS };
    let (moved, failed) = outcome(N);
    assert!(r.is_ok() == (moved == N));
    assert!(os.done == moved);
    assert!(os.after == 0);
    assert!(os.seeks == 0 && os.closes == 0);
    let i: usize = kani::any();
    kani::assume(i < N);
    if i < moved {
        assert!(os.data[i] == buf[i]);
        witness!(os.calls == STEPS && moved == N, "in many pieces");
    }
    if failed {
        assert!(code(&r) == Some(os.error));
        witness!(moved > 0, "an error in the middle");
    }
    std::mem::forget((r, f));
}
/// Long transfers, of which one byte is followed. (200 stands for an interruption here, too.)
fn reading_long<const N: usize, const KEEPS: bool>() {
    let mut f = start_long(KEEPS);
    let mut buf = [0x5Au8; N];
    let r = IOHandler::read(&mut f, &mut buf);
    let os = unsafe { &OS };
    let (moved, failed) = outcome(N);
    assert!(r.is_ok() == (moved == N));
    assert!(os.done == moved);
    assert!(os.after == 0);
    kani::assume(os.at < N);
    if moved == N {
        if KEEPS {
            assert!(buf[os.at] == os.value);
        }
        witness!(os.calls == 2 && os.at == N - 1, "in pieces");
    }
    if failed {
        assert!(code(&r) == Some(os.error));
    }
    std::mem::forget((r, f));
}
fn writing_long<const N: usize, const KEEPS: bool>() {
    let mut f = start_long(KEEPS);
    let (i, v): (usize, u8) = (unsafe { OS.at }, kani::any());
    kani::assume(i < N);
    let mut buf = [0x5Au8; N];
    buf[i] = v;
    let r = IOHandler::write(&mut f, &buf);
    let os = unsafe { &OS };
    let (moved, failed) = outcome(N);
    assert!(r.is_ok() == (moved == N));
    assert!(os.done == moved);
    assert!(os.after == 0);
    if moved == N {
        if KEEPS {
            assert!(os.value == v);
        }
        witness!(os.calls == 2 && os.at == N - 1, "in pieces");
    }
    if failed {
        assert!(code(&r) == Some(os.error));
    }
    std::mem::forget((r, f));
}
fn start_long(keeps: bool) -> File {
    let f = start();
    let os = unsafe { &mut OS };
    os.long = true;
    os.keeps = keeps;
    os.pieces = kani::any();
    os.at = kani::any();
    os.value = kani::any();
    f
}
fn moving() {
    let mut f = start();
    let whence: u8 = kani::any();
    let offset: i64 = kani::any();
    let pos = match whence {
        0 => SeekFrom::Start(offset as u64),
        1 => SeekFrom::Current(offset),
        _ => SeekFrom::End(offset),
    };
    // natively a start beyond the largest offset is refused before
    kani::assume(whence <= 2 && (whence != 0 || offset >= 0));
    let r = IOHandler::seek(&mut f, pos);
    let os = unsafe { &OS };
    assert!(r.is_ok() == !os.fail);
    assert!(os.seeks + os.tells == 1);
    assert!(os.sought == (whence, offset));
    assert!(os.calls == 0 && os.closes == 0);
    if os.fail {
        assert!(code(&r) == Some(os.error));
    }
    witness!(whence == 2 && offset < 0 && !os.fail, "from the end");
    std::mem::forget((r, f));
}
fn telling() {
    let mut f = start();
    let r = f.tell();
    let os = unsafe { &OS };
    match &r {
        Ok(v) => assert!(!os.fail && *v as u64 == os.position),
        Err(_) => assert!(os.fail && code(&r) == Some(os.error)),
    }
    assert!(os.seeks == 0 && os.calls == 0 && os.closes == 0);
    witness!(r.is_ok() && os.position > u32::MAX as u64, "far away");
    std::mem::forget((r, f));
}
fn closing() {
    let f = start();
    let r = f.close();
    let os = unsafe { &OS };
    assert!(r.is_ok() == !os.fail);
    assert!(os.syncs == 1 && os.closes == 1 && os.synced_when_closed && !os.bad);
    if os.fail {
        assert!(code(&r) == Some(os.error));
    }
    witness!(os.fail, "cannot be flushed");
    std::mem::forget(r);
}

macro_rules! with_os {
    ($($(#[kani::$($m:tt)*])* fn $name:ident() $body:block)*) => {
        harnesses! {
            $(
                $(#[kani::$($m)*])*
                #[kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::dev::keep)]
                #[kani::stub(<std::fs::File as std::io::Read>::read, stubs::read)]
                #[kani::stub(<&std::fs::File as std::io::Read>::read, stubs::read_ref)]
                #[kani::stub(<std::fs::File as std::io::Write>::write, stubs::write)]
                #[kani::stub(<&std::fs::File as std::io::Write>::write, stubs::write_ref)]
                #[kani::stub(<std::fs::File as std::io::Seek>::seek, stubs::seek)]
                #[kani::stub(<&std::fs::File as std::io::Seek>::seek, stubs::seek_ref)]
                #[kani::stub(<std::fs::File as std::io::Seek>::stream_position, stubs::tell)]
                #[kani::stub(<&std::fs::File as std::io::Seek>::stream_position, stubs::tell_ref)]
                #[kani::stub(std::fs::File::sync_data, stubs::sync)]
                #[kani::stub(std::fs::File::sync_all, stubs::sync)]
                #[kani::stub(<std::os::fd::OwnedFd as std::ops::Drop>::drop, stubs::close)]
                fn $name() $body
            )*
        }
    };
}
with_os! {
    #[kani::unwind(10)]
    fn reads() {
        reading::<3>();
    }
    #[kani::unwind(10)]
    fn writes() {
        writing::<3>();
    }
    #[kani::unwind(10)]
    fn reads_long() {
        reading_long::<300, true>();
    }
    #[kani::unwind(10)]
    fn writes_long() {
        writing_long::<300, true>();
    }
    #[kani::unwind(10)]
    fn reads_pages() {
        reading_long::<9000, false>();
    }
    #[kani::unwind(10)]
    fn writes_pages() {
        writing_long::<9000, false>();
    }
    #[kani::unwind(10)]
    fn reads_longer() {
        reading_long::<70000, false>();
    }
    #[kani::unwind(10)]
    fn writes_longer() {
        writing_long::<70000, false>();
    }
    #[kani::unwind(10)]
    fn seeks() {
        moving();
    }
    #[kani::unwind(10)]
    fn tells() {
        telling();
    }
    #[kani::unwind(10)]
    fn closes() {
        closing();
    }
}
