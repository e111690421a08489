//! Uniform access to the crate's operations on one type in one layout.

use crate::model::{layout, Desc, Lo, L};
use crate::src_impls::{Cur, Src};
use std::mem::MaybeUninit;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum How {
    /// `write` of a slice.
    Slice,
    /// `write_iter` of a vector.
    Iter,
    /// `write_iter` of an iterator that cannot tell its length.
    Blind,
    /// The deprecated `write_slice` (std140) or `write`.
    Old,
    /// `write` of each element.
    Each,
    /// `write_std140` / `write_std430` of each encoded element.
    Direct,
    /// `write_iter` of already encoded elements.
    Encoded,
    /// `write_std140` / `write_std430` of the slice's writable trait.
    Trait,
    /// `write_iter` of an iterator whose size hints are true but loose.
    Hinted,
}
pub const HOWS: [How; 9] = [
    How::Slice,
    How::Iter,
    How::Blind,
    How::Old,
    How::Each,
    How::Direct,
    How::Encoded,
    How::Trait,
    How::Hinted,
];

/// Promises at most what it holds and at least what it holds, no better.
#[cfg(feature = "std")]
struct Hinted<I: ExactSizeIterator> {
    it: I,
    rng: std::cell::RefCell<crate::rng::Rng>,
    style: usize,
}
#[cfg(feature = "std")]
impl<I: ExactSizeIterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (n, mut r) = (self.it.len(), self.rng.borrow_mut());
        match self.style {
            0 => (0, Some(n)),
            1 => (n, None),
            2 => (0, Some(usize::MAX)),
            3 => (n / 2, Some(n + n / 2)),
            4 => (n.min(1), None),
            5 => (n.saturating_sub(1), Some(n + 1)),
            _ => (r.below(n + 1), if r.chance(1, 3) { None } else { Some(n + r.below(5)) }),
        }
    }
}

#[cfg(feature = "std")]
use crate::sink::Sink;

#[cfg(feature = "std")]
pub enum AnyWriter {
    W140(crevice::std140::Writer<Sink>),
    W430(crevice::std430::Writer<Sink>),
}
#[cfg(feature = "std")]
impl AnyWriter {
    pub fn new(l: L, s: Sink) -> Self {
        match l {
            L::S140 => AnyWriter::W140(crevice::std140::Writer::new(s)),
            L::S430 => AnyWriter::W430(crevice::std430::Writer::new(s)),
        }
    }
    pub fn len(&self) -> usize {
        match self {
            AnyWriter::W140(w) => w.len(),
            AnyWriter::W430(w) => w.len(),
        }
    }
}

pub enum AnySizer {
    S140(crevice::std140::Sizer),
    S430(crevice::std430::Sizer),
}
impl AnySizer {
    pub fn new(l: L) -> Self {
        match l {
            L::S140 => AnySizer::S140(crevice::std140::Sizer::new()),
            L::S430 => AnySizer::S430(crevice::std430::Sizer::new()),
        }
    }
    pub fn len(&self) -> usize {
        match self {
            AnySizer::S140(w) => w.len(),
            AnySizer::S430(w) => w.len(),
        }
    }
}

pub struct Encoded {
    pub bytes: Vec<u8>,
    /// Components of the source value after it was encoded.
    pub after: Vec<u64>,
}

#[cfg(feature = "std")]
pub type WriteFn = fn(&[u64], &mut AnyWriter) -> std::io::Result<usize>;
/// Components of all elements, their number, the writer, the way to write.
/// Gives the result and how many elements were taken from the iterator.
#[cfg(feature = "std")]
pub type ManyFn = fn(&[u64], usize, &mut AnyWriter, How) -> (std::io::Result<usize>, usize);

#[derive(Clone)]
pub struct Erased {
    pub name: String,
    pub lay: L,
    pub desc: Desc,
    pub lo: Lo,
    pub raw: bool,
    pub alignment: usize,
    pub size_of: usize,
    pub rust_align: usize,
    pub size_static: fn() -> usize,
    pub encode: fn(&[u64]) -> Encoded,
    pub encode_at: fn(&[u64], u8) -> Vec<u8>,
    pub decode: fn(&[u8]) -> Vec<u64>,
    pub recode: fn(&[u8]) -> Vec<u8>,
    pub round: fn(&[u64]) -> Vec<u64>,
    pub zeroed: fn() -> (Vec<u64>, Vec<u8>),
    pub array: fn(&[u64], usize) -> Vec<u8>,
    pub sizer_add: fn(&mut AnySizer) -> usize,
    #[cfg(feature = "std")]
    pub size_dyn: fn(&[u64]) -> usize,
    #[cfg(feature = "std")]
    pub write: WriteFn,
    #[cfg(feature = "std")]
    pub many: ManyFn,
    #[cfg(feature = "std")]
    pub many_size: fn(&[u64], usize) -> usize,
    #[cfg(feature = "std")]
    pub into_vec: fn(&[u64], usize, How) -> std::io::Result<Vec<u8>>,
    #[cfg(feature = "std")]
    pub into_slice: fn(&[u64], &mut [u8]) -> std::io::Result<usize>,
}

impl Erased {
    pub fn label(&self) -> String {
        format!("{} in {}", self.name, self.lay.name())
    }
}

/// Overwrites a stretch of stack below the caller with a pattern.
#[inline(never)]
pub fn dirty_stack(pattern: u8) -> u64 {
    if cfg!(miri) {
        return 0;
    }
    let mut a = MaybeUninit::<[u8; 8192]>::uninit();
    let p = a.as_mut_ptr() as *mut u8;
    let mut sum = 0u64;
    unsafe {
        for i in 0..8192 {
            std::ptr::write_volatile(p.add(i), pattern);
        }
        for i in (0..8192).step_by(97) {
            sum += std::ptr::read_volatile(p.add(i)) as u64;
        }
    }
    sum
}

fn items<T: Src>(lv: &[u64], n: usize) -> Vec<T> {
    let mut c = Cur(lv);
    let v = (0..n).map(|_| T::take(&mut c)).collect();
    assert!(c.0.is_empty(), "harness: too many components");
    v
}
fn one<T: Src>(lv: &[u64]) -> T {
    let mut c = Cur(lv);
    let v = T::take(&mut c);
    assert!(c.0.is_empty(), "harness: too many components");
    v
}
fn parts<T: Src>(v: &T) -> Vec<u64> {
    let mut o = Vec::new();
    v.put(&mut o);
    o
}

macro_rules! erase {
    ($erase:ident, $modname:ident, $lay:expr, $m:ident, $As:ident, $Std:ident, $Write:ident, $as_:ident, $from_:ident,
     $size_static:ident, $size_dyn:ident, $write_:ident, $W:ident, $S:ident, |$wo:ident, $sl:ident| $old:expr) => {
        mod $modname {
            use super::*;
            use crevice::$m::{$As, $Std};
            #[cfg(feature = "std")]
            use crevice::$m::$Write;

            pub fn size_static<T: $As>() -> usize {
                T::$size_static()
            }
            pub fn encode<T: Src + $As>(lv: &[u64]) -> Encoded {
                let v: T = one(lv);
                let o = v.$as_();
                let bytes = o.as_bytes().to_vec();
                Encoded { bytes, after: parts(&v) }
            }
            /// Encodes on a dirtied stack into dirtied heap memory.
            pub fn encode_at<T: Src + $As>(lv: &[u64], dirt: u8) -> Vec<u8> {
                let v: T = one(lv);
                let mut mem: Vec<MaybeUninit<T::Output>> = Vec::with_capacity(3);
                unsafe {
                    std::ptr::write_bytes(mem.as_mut_ptr(), dirt, 3);
                    mem.set_len(3);
                }
                std::hint::black_box(dirty_stack(dirt));
                mem[1].write(v.$as_());
                let mem = std::hint::black_box(mem);
                unsafe { mem[1].assume_init_ref() }.as_bytes().to_vec()
            }
            pub fn decode<T: Src + $As>(b: &[u8]) -> Vec<u64> {
                parts(&T::$from_(bytemuck::pod_read_unaligned::<T::Output>(b)))
            }
            pub fn recode<T: Src + $As>(b: &[u8]) -> Vec<u8> {
                T::$from_(bytemuck::pod_read_unaligned::<T::Output>(b)).$as_().as_bytes().to_vec()
            }
            pub fn round<T: Src + $As>(lv: &[u64]) -> Vec<u64> {
                parts(&T::$from_(one::<T>(lv).$as_()))
            }
            pub fn zeroed<T: Src + $As>() -> (Vec<u64>, Vec<u8>) {
                let z: T::Output = bytemuck::Zeroable::zeroed();
                let b = z.as_bytes().to_vec();
                (parts(&T::$from_(z)), b)
            }
            /// Encoded values next to each other, as one slice of plain data.
            pub fn array<T: Src + $As>(lv: &[u64], n: usize) -> Vec<u8> {
                let v: Vec<T::Output> = items::<T>(lv, n).iter().map(|x| x.$as_()).collect();
                bytemuck::cast_slice::<T::Output, u8>(&v).to_vec()
            }
            pub fn sizer_add<T: $As>(s: &mut AnySizer) -> usize {
                match s {
                    AnySizer::$S(s) => s.add::<T>(),
                    #[allow(unreachable_patterns)]
                    _ => panic!("harness: wrong sizer"),
                }
            }
            #[cfg(feature = "std")]
            pub fn size_dyn<T: Src + $As>(lv: &[u64]) -> usize {
                one::<T>(lv).$size_dyn()
            }
            #[cfg(feature = "std")]
            pub fn write<T: Src + $As>(lv: &[u64], w: &mut AnyWriter) -> std::io::Result<usize> {
                match w {
                    AnyWriter::$W(w) => w.write(&one::<T>(lv)),
                    _ => panic!("harness: wrong writer"),
                }
            }
            #[cfg(feature = "std")]
            fn go<T: Src + $As, W: std::io::Write>(
                lv: &[u64],
                n: usize,
                w: &mut crevice::$m::Writer<W>,
                how: How,
            ) -> (std::io::Result<usize>, usize) {
                let v: Vec<T> = items(lv, n);
                let mut taken = 0;
                let r = match how {
                    How::Slice => {
                        taken = n;
                        w.write(&v[..])
                    }
                    How::Iter => w.write_iter(v.into_iter().inspect(|_| taken += 1)),
                    How::Blind => {
                        let mut it = v.into_iter();
                        let mut ended = false;
                        w.write_iter(std::iter::from_fn(|| {
                            let x = if ended { None } else { it.next() };
                            match &x {
                                Some(_) => taken += 1,
                                None => ended = true,
                            }
                            x
                        }))
                    }
                    How::Hinted => {
                        let seed = lv.iter().fold(n as u64, |a, x| a.wrapping_mul(31).wrapping_add(*x));
                        let mut rng = crate::rng::Rng::new(seed, "hints");
                        let style = rng.below(8);
                        let it = v.into_iter();
                        let h = Hinted { it, rng: rng.into(), style };
                        w.write_iter(h.inspect(|_| taken += 1))
                    }
                    How::Old => {
                        taken = n;
                        let ($wo, $sl) = (&mut *w, &v[..]);
                        #[allow(deprecated)]
                        $old
                    }
                    How::Each | How::Direct => {
                        let mut first = Ok(w.len());
                        for (i, x) in v.iter().enumerate() {
                            let r = if how == How::Each { w.write(x) } else { w.$write_(&x.$as_()) };
                            taken += 1;
                            if i == 0 || r.is_err() {
                                first = r;
                            }
                            if first.is_err() {
                                break;
                            }
                        }
                        first
                    }
                    How::Encoded => {
                        w.write_iter(v.iter().inspect(|_| taken += 1).map(|x| x.$as_()).collect::<Vec<_>>())
                    }
                    How::Trait => {
                        taken = n;
                        $Write::$write_(&v[..], w)
                    }
                };
                (r, taken)
            }
            #[cfg(feature = "std")]
            pub fn many<T: Src + $As>(
                lv: &[u64],
                n: usize,
                w: &mut AnyWriter,
                how: How,
            ) -> (std::io::Result<usize>, usize) {
                match w {
                    AnyWriter::$W(w) => go::<T, _>(lv, n, w, how),
                    _ => panic!("harness: wrong writer"),
                }
            }
            #[cfg(feature = "std")]
            pub fn many_size<T: Src + $As>(lv: &[u64], n: usize) -> usize {
                let v: Vec<T> = items(lv, n);
                v[..].$size_dyn()
            }
            /// Through a writer over a `Vec<u8>`.
            #[cfg(feature = "std")]
            pub fn into_vec<T: Src + $As>(lv: &[u64], n: usize, how: How) -> std::io::Result<Vec<u8>> {
                let mut out = Vec::new();
                let mut w = crevice::$m::Writer::new(&mut out);
                go::<T, _>(lv, n, &mut w, how).0.map(|_| out)
            }
            /// Through a writer over a fixed buffer.
            #[cfg(feature = "std")]
            pub fn into_slice<T: Src + $As>(lv: &[u64], buf: &mut [u8]) -> std::io::Result<usize> {
                let mut w = crevice::$m::Writer::new(buf);
                w.write(&one::<T>(lv))
            }
        }

        pub fn $erase<T: Src + crevice::$m::$As>(name: &str) -> Erased {
            let desc = T::desc();
            Erased {
                name: name.to_string(),
                lay: $lay,
                lo: layout(&desc, $lay),
                desc,
                raw: T::RAW,
                alignment: <T::Output as crevice::$m::$Std>::ALIGNMENT,
                size_of: std::mem::size_of::<T::Output>(),
                rust_align: std::mem::align_of::<T::Output>(),
                size_static: $modname::size_static::<T>,
                encode: $modname::encode::<T>,
                encode_at: $modname::encode_at::<T>,
                decode: $modname::decode::<T>,
                recode: $modname::recode::<T>,
                round: $modname::round::<T>,
                zeroed: $modname::zeroed::<T>,
                array: $modname::array::<T>,
                sizer_add: $modname::sizer_add::<T>,
                #[cfg(feature = "std")]
                size_dyn: $modname::size_dyn::<T>,
                #[cfg(feature = "std")]
                write: $modname::write::<T>,
                #[cfg(feature = "std")]
                many: $modname::many::<T>,
                #[cfg(feature = "std")]
                many_size: $modname::many_size::<T>,
                #[cfg(feature = "std")]
                into_vec: $modname::into_vec::<T>,
                #[cfg(feature = "std")]
                into_slice: $modname::into_slice::<T>,
            }
        }
    };
}

erase!(erase140, e140, L::S140, std140, AsStd140, Std140, WriteStd140, as_std140, from_std140, std140_size_static,
    std140_size, write_std140, W140, S140, |w, s| w.write_slice(s));
erase!(erase430, e430, L::S430, std430, AsStd430, Std430, WriteStd430, as_std430, from_std430, std430_size_static,
    std430_size, write_std430, W430, S430, |w, s| w.write(s));
