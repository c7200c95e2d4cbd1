//! Native stand-in for Kani: replays the concrete values of a model.
use std::cell::RefCell;

thread_local! {
    static VALUES: RefCell<Vec<Vec<u8>>> = RefCell::new(Vec::new());
}

/// Exit code when the values do not satisfy an assumption of the harness.
pub const EXIT_ASSUME: i32 = 3;
/// Exit code when the values do not fit the harness.
pub const EXIT_SHAPE: i32 = 4;

pub fn load(mut values: Vec<Vec<u8>>) {
    values.reverse();
    VALUES.with(|v| *v.borrow_mut() = values);
}

fn next(size: usize) -> Vec<u8> {
    match VALUES.with(|v| v.borrow_mut().pop()) {
        // The solver left the remaining values open
        None => vec![0; size],
        Some(b) if b.len() == size => b,
        Some(b) => {
            println!("REPLAY: expected {} bytes, got {}", size, b.len());
            std::process::exit(EXIT_SHAPE)
        }
    }
}

pub trait Arbitrary: Sized {
    fn any() -> Self;
}
macro_rules! prim {
    ($($t:ty),*) => {$(
        impl Arbitrary for $t {
            fn any() -> Self {
                let b = next(std::mem::size_of::<$t>());
                <$t>::from_ne_bytes(b.try_into().unwrap())
            }
        }
    )*};
}
prim!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
impl Arbitrary for bool {
    fn any() -> Self {
        let b = next(1)[0];
        assume(b < 2);
        b == 1
    }
}
impl<T: Arbitrary, const N: usize> Arbitrary for [T; N] {
    fn any() -> Self {
        [(); N].map(|_| T::any())
    }
}

pub fn any<T: Arbitrary>() -> T {
    T::any()
}
pub fn assume(c: bool) {
    if !c {
        println!("REPLAY: assumption not met");
        std::process::exit(EXIT_ASSUME)
    }
}
pub fn witnessed(name: &str) {
    println!("WITNESS {}", name);
}
