//! Field elements from and to numbers, whatever their representation.
use phlite::fields::*;

pub fn bits<T: Copy>(x: T) -> u64 {
    assert!(std::mem::size_of::<T>() <= 8);
    let mut b = 0u64;
    unsafe { std::ptr::copy_nonoverlapping(&x as *const T as *const u8, &mut b as *mut u64 as *mut u8, std::mem::size_of::<T>()) };
    b
}
pub unsafe fn from_bits<T: Copy>(b: u64) -> T {
    let mut x = std::mem::MaybeUninit::<T>::uninit();
    std::ptr::copy_nonoverlapping(&b as *const u64 as *const u8, x.as_mut_ptr() as *mut u8, std::mem::size_of::<T>());
    x.assume_init()
}

/// The prime field `CF`: element `k` is the sum of `k` ones (built with the
/// crate's own addition, concretely), and the table is inverted by value.
#[derive(Clone)]
pub struct F<CF> {
    pub p: u64,
    table: Vec<CF>,
    identity: bool,
}

impl<CF: Invertible + 'static> F<CF> {
    pub fn new(p: u64) -> Self {
        let mut table = vec![CF::one(), CF::one()];
        for _ in 2..p {
            let l = *table.last().unwrap();
            table.push((l + CF::one()).expect("k ones do not vanish for k < p"));
        }
        let mut identity = p > 2;
        for i in 1..p {
            if identity && bits(table[i as usize]) != i {
                identity = false;
            }
        }
        F { p, table, identity }
    }
    /// Element `k`, `1 <= k < p`; `k` may be symbolic and is not forked on.
    pub fn of(&self, k: u64) -> CF {
        if self.p == 2 {
            return CF::one();
        }
        if self.identity {
            return unsafe { from_bits(k) };
        }
        let mut b = 0u64;
        for i in 1..self.p {
            let m = ((k == i) as u64).wrapping_neg();
            b |= m & bits(self.table[i as usize]);
        }
        unsafe { from_bits(b) }
    }
    /// The number of an element: 0 stands for a value outside the field.
    pub fn val(&self, x: CF) -> u64 {
        if self.p == 2 {
            return 1;
        }
        let b = bits(x);
        if self.identity {
            return b;
        }
        let mut k = 0;
        for i in 1..self.p {
            let m = ((b == bits(self.table[i as usize])) as u64).wrapping_neg();
            k |= m & i;
        }
        k
    }
    pub fn opt(&self, x: Option<CF>) -> u64 {
        match x {
            None => 0,
            Some(x) => self.val(x),
        }
    }
}

/// Runs `$body` with `$f` bound to the field of `$p` elements.
#[macro_export]
macro_rules! with_field {
    ($p:expr, $f:ident, $body:expr) => {
        match $p {
            #[cfg(feature = "p2")]
            2 => {
                let $f = $crate::fp::F::<phlite::fields::Z2>::new(2);
                $body
            }
            #[cfg(feature = "p3")]
            3 => {
                let $f = $crate::fp::F::<phlite::fields::Z3>::new(3);
                $body
            }
            #[cfg(feature = "p5")]
            5 => {
                let $f = $crate::fp::F::<phlite::fields::Z5>::new(5);
                $body
            }
            #[cfg(feature = "p7")]
            7 => {
                let $f = $crate::fp::F::<phlite::fields::Z7>::new(7);
                $body
            }
            #[cfg(feature = "p11")]
            11 => {
                let $f = $crate::fp::F::<phlite::fields::Z11>::new(11);
                $body
            }
            #[cfg(feature = "p13")]
            13 => {
                let $f = $crate::fp::F::<phlite::fields::Z13>::new(13);
                $body
            }
            _ => panic!("no such field in this build"),
        }
    };
}
