//! Devices of the harnesses, which stand for sources the library reads from.
#[cfg(not(kani))]
use crate::kani;
use lcms2::io::IOHandler;
use std::io::{self, ErrorKind, SeekFrom};

/// The error kinds a device of the harness may fail with.
pub fn kind(n: u8) -> ErrorKind {
    match n {
        0 => ErrorKind::UnexpectedEof,
        1 => ErrorKind::PermissionDenied,
        2 => ErrorKind::WriteZero,
        3 => ErrorKind::InvalidInput,
        _ => ErrorKind::BrokenPipe,
    }
}

/// A device with only a position and a length, of which the operation number `fail_at` fails.
#[derive(Debug)]
pub struct Faulty {
    pub pos: u64,
    pub len: u64,
    /// Operations so far
    pub calls: u32,
    pub fail_at: u32,
    pub kind: u8,
    /// The operation that fails was reached
    pub hit: bool,
    /// Operations after that
    pub after: u32,
    /// Bytes handed out by reads
    pub fill: u8,
}

impl Faulty {
    pub fn any() -> Self {
        Faulty {
            pos: kani::any(),
            len: kani::any(),
            calls: 0,
            fail_at: kani::any(),
            kind: kani::any(),
            hit: false,
            after: 0,
            fill: kani::any(),
        }
    }
    fn step(&mut self) -> io::Result<()> {
        if self.hit {
            self.after += 1;
        }
        let n = self.calls;
        self.calls += 1;
        if n == self.fail_at {
            self.hit = true;
            return Err(kind(self.kind).into());
        }
        Ok(())
    }
}

impl IOHandler for Faulty {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<()> {
        self.step()?;
        let mut i = 0;
        while i < buf.len() {
            buf[i] = self.fill;
            i += 1;
        }
        self.pos = self.pos.wrapping_add(buf.len() as u64);
        Ok(())
    }
    fn seek(&mut self, pos: SeekFrom) -> io::Result<()> {
        self.step()?;
        let (base, off) = match pos {
            SeekFrom::Start(v) => (v, 0),
            SeekFrom::End(v) => (self.len, v),
            SeekFrom::Current(v) => (self.pos, v),
        };
        self.pos = base.wrapping_add(off as u64);
        Ok(())
    }
    fn close(self) -> io::Result<()> {
        Ok(())
    }
    fn tell(&mut self) -> io::Result<usize> {
        self.step()?;
        Ok(self.pos as usize)
    }
    fn write(&mut self, buf: &[u8]) -> io::Result<()> {
        self.step()?;
        self.pos = self.pos.wrapping_add(buf.len() as u64);
        Ok(())
    }
}

/// Stands for dropping the payload an `io::Error` may own. The call goes through a function pointer, for which symbolic
/// execution would try every function of the program with that signature; leaking the payload is not observable here.
#[cfg(kani)]
pub fn keep(_: &mut core::io::CustomOwner) {}
