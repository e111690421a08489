//! The reference model: GLSL's std140 and std430 layout rules (OpenGL 4.6 core
//! specification, section 7.6.2.2), written from the specification and
//! independent of the code under test.

use crate::rng::Rng;

/// Kind of a scalar component.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum K {
    F32,
    F64,
    I32,
    U32,
    B,
    /// One byte of a type a user defined by hand.
    Byte,
}

impl K {
    pub fn size(self) -> usize {
        match self {
            K::F64 => 8,
            K::Byte => 1,
            _ => 4,
        }
    }
    pub fn mask(self, bits: u64) -> u64 {
        match self {
            K::F64 => bits,
            K::B => bits & 1,
            K::Byte => bits & 0xff,
            _ => bits & 0xffff_ffff,
        }
    }
    fn prefix(self) -> &'static str {
        match self {
            K::F32 => "",
            K::F64 => "d",
            K::I32 => "i",
            K::U32 => "u",
            K::B => "b",
            K::Byte => "?",
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum L {
    S140,
    S430,
}

impl L {
    pub fn name(self) -> &'static str {
        match self {
            L::S140 => "std140",
            L::S430 => "std430",
        }
    }
}

/// Logical (GLSL) type of a value.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Desc {
    Scalar(K),
    Vec(K, usize),
    /// Square column-major matrix.
    Mat(K, usize),
    Struct(String, Vec<(String, Desc)>),
    /// Wrapped for dynamic uniform use.
    Dyn(Box<Desc>),
    /// User-defined opaque type.
    Raw { size: usize, align: usize },
}

impl Desc {
    /// GLSL name of the type.
    pub fn glsl(&self) -> String {
        match self {
            Desc::Scalar(K::F32) => "float".into(),
            Desc::Scalar(K::F64) => "double".into(),
            Desc::Scalar(K::I32) => "int".into(),
            Desc::Scalar(K::U32) => "uint".into(),
            Desc::Scalar(K::B) => "bool".into(),
            Desc::Scalar(K::Byte) => "?".into(),
            Desc::Vec(k, n) => format!("{}vec{}", k.prefix(), n),
            Desc::Mat(k, n) => format!("{}mat{}", k.prefix(), n),
            Desc::Struct(n, _) => n.clone(),
            Desc::Dyn(d) => format!("dynamic<{}>", d.glsl()),
            Desc::Raw { size, align } => format!("raw<{size},{align}>"),
        }
    }
    pub fn is_struct(&self) -> bool {
        matches!(self, Desc::Struct(..))
    }
    /// Like `glsl`, with the members of structs spelled out.
    pub fn long(&self) -> String {
        match self {
            Desc::Struct(n, fs) => {
                let mut s = format!("struct {n}{{");
                for (f, d) in fs {
                    s.push_str(&d.long());
                    s.push(' ');
                    s.push_str(f);
                    s.push(';');
                }
                s.push('}');
                s
            }
            Desc::Dyn(d) => format!("dynamic<{}>", d.long()),
            d => d.glsl(),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Leaf {
    pub off: usize,
    pub k: K,
    pub path: String,
}

/// What the GLSL rules say about a type.
#[derive(Clone, Debug)]
pub struct Lo {
    pub align: usize,
    pub size: usize,
    pub leaves: Vec<Leaf>,
}

pub fn round_up(x: usize, a: usize) -> usize {
    x.div_ceil(a) * a
}

fn vec_align(k: K, n: usize) -> usize {
    k.size() * if n == 2 { 2 } else { 4 }
}

pub fn layout(d: &Desc, l: L) -> Lo {
    match d {
        // Rule 1.
        Desc::Scalar(k) => Lo {
            align: k.size(),
            size: k.size(),
            leaves: vec![Leaf { off: 0, k: *k, path: String::new() }],
        },
        // Rules 2 and 3.
        Desc::Vec(k, n) => Lo {
            align: vec_align(*k, *n),
            size: k.size() * n,
            leaves: (0..*n)
                .map(|i| Leaf { off: i * k.size(), k: *k, path: format!(".{}", ["x", "y", "z", "w"][i]) })
                .collect(),
        },
        // Rules 4 and 5: an array of column vectors.
        Desc::Mat(k, n) => {
            let mut a = vec_align(*k, *n);
            if l == L::S140 {
                a = a.max(16);
            }
            let stride = round_up(k.size() * n, a);
            let mut leaves = Vec::new();
            for c in 0..*n {
                for r in 0..*n {
                    leaves.push(Leaf { off: c * stride + r * k.size(), k: *k, path: format!("[{c}][{r}]") });
                }
            }
            Lo { align: a, size: n * stride, leaves }
        }
        // Rule 9.
        Desc::Struct(_, fields) => {
            let mut align = if l == L::S140 { 16 } else { 1 };
            let mut off = 0;
            let mut leaves = Vec::new();
            for (name, f) in fields {
                let lo = layout(f, l);
                align = align.max(lo.align);
                off = round_up(off, lo.align);
                for leaf in lo.leaves {
                    leaves.push(Leaf { off: off + leaf.off, k: leaf.k, path: format!(".{name}{}", leaf.path) });
                }
                off += lo.size;
            }
            Lo { align, size: round_up(off, align), leaves }
        }
        Desc::Dyn(inner) => {
            let lo = layout(inner, l);
            Lo { align: lo.align.max(256), ..lo }
        }
        Desc::Raw { size, align } => Lo {
            align: *align,
            size: *size,
            leaves: (0..*size).map(|i| Leaf { off: i, k: K::Byte, path: String::new() }).collect(),
        },
    }
}

/// GLSL array stride of a type.
pub fn array_stride(lo: &Lo, l: L) -> usize {
    let a = if l == L::S140 { lo.align.max(16) } else { lo.align };
    round_up(lo.size, a)
}

impl Lo {
    /// The bytes a buffer must hold for the components `vals`.
    pub fn image(&self, vals: &[u64]) -> Vec<u8> {
        assert_eq!(vals.len(), self.leaves.len());
        let mut out = vec![0u8; self.size];
        for (leaf, v) in self.leaves.iter().zip(vals) {
            put_leaf(&mut out, leaf, *v);
        }
        out
    }
    /// The components a reader finds in `bytes`.
    pub fn read(&self, bytes: &[u8]) -> Vec<u64> {
        assert_eq!(bytes.len(), self.size);
        self.leaves.iter().map(|l| get_leaf(bytes, l)).collect()
    }
    /// For every byte, whether a component covers it.
    pub fn covered(&self) -> Vec<bool> {
        let mut m = vec![false; self.size];
        for l in &self.leaves {
            for b in &mut m[l.off..l.off + l.k.size()] {
                *b = true;
            }
        }
        m
    }
    pub fn padding_bytes(&self) -> usize {
        self.covered().iter().filter(|c| !**c).count()
    }
    pub fn at(&self, byte: usize) -> String {
        for l in &self.leaves {
            if byte >= l.off && byte < l.off + l.k.size() {
                return format!("component {} at {}", l.path, l.off);
            }
        }
        "padding".into()
    }
}

fn put_leaf(out: &mut [u8], leaf: &Leaf, v: u64) {
    let o = leaf.off;
    match leaf.k {
        K::F64 => out[o..o + 8].copy_from_slice(&v.to_ne_bytes()),
        K::Byte => out[o] = v as u8,
        K::B => out[o..o + 4].copy_from_slice(&((v & 1) as u32).to_ne_bytes()),
        _ => out[o..o + 4].copy_from_slice(&(v as u32).to_ne_bytes()),
    }
}

fn get_leaf(b: &[u8], leaf: &Leaf) -> u64 {
    let o = leaf.off;
    match leaf.k {
        K::F64 => u64::from_ne_bytes(b[o..o + 8].try_into().unwrap()),
        K::Byte => b[o] as u64,
        K::B => (u32::from_ne_bytes(b[o..o + 4].try_into().unwrap()) != 0) as u64,
        _ => u32::from_ne_bytes(b[o..o + 4].try_into().unwrap()) as u64,
    }
}

/// How component values are chosen.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Mode {
    /// Every component has a bit pattern of its own, no byte of it zero.
    Unique,
    Random,
    /// Boundary values: signed zeros, infinities, NaNs, subnormals, extremes.
    Special,
    Ones,
    Zero,
    /// One component set, all others zero.
    Single,
    /// Ordinary small numbers.
    Plain,
}

pub const MODES: [Mode; 7] =
    [Mode::Unique, Mode::Random, Mode::Special, Mode::Ones, Mode::Zero, Mode::Single, Mode::Plain];

// Signalling NaNs are left out where a platform may quieten them when a float
// is moved through an x87 register.
const SNAN: bool = cfg!(target_arch = "x86_64");

fn quiet(k: K, bits: u64) -> u64 {
    if SNAN {
        return bits;
    }
    match k {
        K::F32 if f32::from_bits(bits as u32).is_nan() => bits | 0x0040_0000,
        K::F64 if f64::from_bits(bits).is_nan() => bits | 0x0008_0000_0000_0000,
        _ => bits,
    }
}

pub fn special(k: K, r: &mut Rng) -> u64 {
    let v = match k {
        K::F32 => *r.pick(&[
            0u64, 0x8000_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0xffc1_2345, 0x7f80_0001, 0xffbf_ffff, 1,
            0x8000_0001, 0x007f_ffff, 0x0080_0000, 0x7f7f_ffff, 0xff7f_ffff, 0x3f80_0000, 0xbf80_0000, 0x3f80_0001,
            0x4b80_0001, 0xffff_ffff,
        ]),
        K::F64 => *r.pick(&[
            0u64, 1 << 63, 0x7ff0 << 48, 0xfff0 << 48, 0x7ff8 << 48, 0xfff8_1234_5678_9abc, 0x7ff0_0000_0000_0001,
            0xfff7_ffff_ffff_ffff, 1, 0x8000_0000_0000_0001, 0x000f_ffff_ffff_ffff, 0x0010_0000_0000_0000,
            0x7fef_ffff_ffff_ffff, 0x3ff0_0000_0000_0000, 0xbff0_0000_0000_0000, 0x3ff0_0000_0000_0001,
            0x3ff0_0000_1000_0000, 0xffff_ffff_ffff_ffff, 0x0000_0000_ffff_ffff, 0xffff_ffff_0000_0000,
            0x47ef_ffff_f000_0000,
        ]),
        K::I32 | K::U32 => *r.pick(&[
            0u64, 1, 2, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x1_0000, 0xff_ffff, 0x100_0001, 0x7fff_ffff,
            0x8000_0000, 0x8000_0001, 0xffff_fffe, 0xffff_ffff,
        ]),
        K::B => r.next() & 1,
        K::Byte => *r.pick(&[0u64, 1, 0x7f, 0x80, 0xff]),
    };
    quiet(k, v)
}

fn plain(k: K, r: &mut Rng) -> u64 {
    let n = r.below(2001) as i64 - 1000;
    match k {
        K::F32 => (n as f32 * 0.25).to_bits() as u64,
        K::F64 => (n as f64 * 0.125).to_bits(),
        K::I32 => n as i32 as u32 as u64,
        K::U32 => n.unsigned_abs(),
        K::B => r.next() & 1,
        K::Byte => r.next() & 0xff,
    }
}

pub fn values(leaves: &[Leaf], mode: Mode, r: &mut Rng) -> Vec<u64> {
    let single = if leaves.is_empty() { 0 } else { r.below(leaves.len()) };
    let phase = r.next();
    leaves
        .iter()
        .enumerate()
        .map(|(i, l)| {
            let k = l.k;
            match mode {
                Mode::Unique => {
                    // Base-255 digits of a counter, each plus one: no zero byte.
                    let mut n = (i as u64 + 1) * 7 + (phase % 60000) * 1_000_003;
                    let mut v = 0u64;
                    for b in 0..8 {
                        v |= (n % 254 + 1) << (8 * b);
                        n /= 254;
                    }
                    match k {
                        // Keep floats finite and normal: exponent byte 0x41.
                        K::F32 => (v & 0x003f_ffff) | 0x4100_0000,
                        K::F64 => (v & 0x000f_ffff_ffff_ffff) | 0x4110_0000_0000_0000,
                        K::B => (phase >> (i % 64)) & 1,
                        _ => k.mask(v),
                    }
                }
                Mode::Random => quiet(k, k.mask(r.next())),
                Mode::Special => special(k, r),
                Mode::Ones => k.mask(u64::MAX),
                Mode::Zero => 0,
                Mode::Single => {
                    if i == single {
                        let v = special(k, r);
                        if v == 0 {
                            k.mask(0x4040_4040_4040_4041)
                        } else {
                            v
                        }
                    } else {
                        0
                    }
                }
                Mode::Plain => plain(k, r),
            }
        })
        .collect()
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i > 0 && i % 4 == 0 {
            s.push(' ');
        }
        s.push_str(&format!("{x:02x}"));
        if i > 600 {
            s.push_str("...");
            break;
        }
    }
    s
}
