//! replay HARNESS VALUES: runs a harness natively. VALUES is a file with one line of hex bytes per value.
use harness::*;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let values = std::fs::read_to_string(&args[2])
        .expect("values file")
        .lines()
        .filter(|l| !l.trim().is_empty() && !l.starts_with('#'))
        .map(|l| l.split_whitespace().map(|b| u8::from_str_radix(b, 16).expect("hex")).collect())
        .collect();
    kani::load(values);

    let lists: &[&[(&str, fn())]] = &[
        endian::LIST,
        prims::LIST,
        memfile::LIST,
        nullfile::LIST,
        size::LIST,
        sigs::LIST,
        dates::LIST,
        curves::LIST,
        file::LIST,
        long::LIST,
        #[cfg(verif_hooks)]
        codec::LIST,
        #[cfg(verif_hooks)]
        profile::LIST,
        #[cfg(verif_hooks)]
        tags::LIST,
        #[cfg(verif_hooks)]
        ctx::LIST,
        #[cfg(verif_hooks)]
        open::LIST,
    ];
    for list in lists {
        for (name, f) in list.iter() {
            if name.strip_prefix("harness::") == Some(args[1].as_str()) {
                f();
                println!("REPLAY: completed");
                return;
            }
        }
    }
    println!("REPLAY: no such harness {}", args[1]);
    std::process::exit(5);
}

/// System calls on the descriptor of the harnesses of files go to their model of the operating system.
mod os {
    use harness::file::*;
    use std::ffi::{c_int, c_long, c_void};

    extern "C" {
        fn __errno_location() -> *mut c_int;
    }
    macro_rules! raw {
        ($n:expr $(, $a:expr)*) => { raw($n as c_long, [$($a as usize),*].into_iter()) };
    }
    fn raw(n: c_long, arguments: impl Iterator<Item = usize>) -> c_long {
        let mut a = [0usize; 6];
        for (to, from) in a.iter_mut().zip(arguments) {
            *to = from;
        }
        let r: c_long;
        unsafe {
            std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
                            in("r10") a[3], in("r8") a[4], in("r9") a[5], out("rcx") _, out("r11") _);
            if r < 0 && r > -4096 {
                *__errno_location() = -r as c_int;
                return -1;
            }
        }
        r
    }
    fn at_call() {
        #[cfg(verif_hooks)]
        harness::open::others();
    }
    // std waits for mutexes by this
    #[no_mangle]
    unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
        #[cfg(verif_hooks)]
        if n == 202 && matches!(b & 0x7f, 0 | 9) && harness::open::shared() {
            harness::open::waits();
            return 0;
        }
        raw!(n, a, b, c, d, e, f)
    }
    #[no_mangle]
    unsafe extern "C" fn open64(path: *const u8, flags: c_int, mode: usize) -> c_int {
        at_call();
        raw!(2, path, flags, mode) as c_int
    }
    fn set<T: TryInto<i64>>(r: Result<T, i32>) -> i64 {
        match r {
            Ok(v) => v.try_into().ok().unwrap(),
            Err(code) => {
                unsafe { *__errno_location() = code };
                -1
            }
        }
    }
    #[no_mangle]
    unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
        if fd == FD {
            return set(os_read(std::slice::from_raw_parts_mut(buf as *mut u8, n))) as isize;
        }
        at_call();
        raw!(0, fd, buf, n) as isize
    }
    #[no_mangle]
    unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
        if fd == FD {
            return set(os_write(std::slice::from_raw_parts(buf as *const u8, n))) as isize;
        }
        raw!(1, fd, buf, n) as isize
    }
    #[no_mangle]
    unsafe extern "C" fn lseek64(fd: c_int, offset: i64, whence: c_int) -> i64 {
        if fd == FD {
            return set(os_seek(whence as u8, offset));
        }
        at_call();
        raw!(8, fd, offset, whence)
    }
    #[no_mangle]
    unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
        if fd == FD {
            return set(os_sync().map(|()| 0)) as c_int;
        }
        raw!(75, fd) as c_int
    }
    #[no_mangle]
    unsafe extern "C" fn fsync(fd: c_int) -> c_int {
        if fd == FD {
            return set(os_sync().map(|()| 0)) as c_int;
        }
        raw!(74, fd) as c_int
    }
    // std asks whether a descriptor which it closes is open
    #[no_mangle]
    unsafe extern "C" fn fcntl(fd: c_int, command: c_int, argument: usize) -> c_int {
        if fd == FD {
            return 0;
        }
        raw!(72, fd, command, argument) as c_int
    }
    #[no_mangle]
    unsafe extern "C" fn close(fd: c_int) -> c_int {
        if fd == FD {
            os_close();
            return 0;
        }
        raw!(3, fd) as c_int
    }
}
