//! How to build a value of every supported source type from logical
//! components, and how to take it apart again, without using the crate under
//! test. Components of matrices are listed column by column.

use crate::model::{Desc, K};

pub struct Cur<'a>(pub &'a [u64]);

impl Cur<'_> {
    pub fn next(&mut self) -> u64 {
        let (a, b) = self.0.split_first().expect("harness: too few components");
        self.0 = b;
        *a
    }
}

/// A source type: something a user of the crate writes down.
pub trait Src: Sized + Send + Sync + 'static {
    /// The value holds padding of its own that decoding keeps.
    const RAW: bool = false;
    fn desc() -> Desc;
    fn take(c: &mut Cur) -> Self;
    fn put(&self, out: &mut Vec<u64>);
}

pub trait Prim: Copy {
    const K: K;
    fn from_bits(b: u64) -> Self;
    fn bits(self) -> u64;
}

macro_rules! prim {
    ($t:ty, $k:expr, |$b:ident| $from:expr, |$v:ident| $to:expr) => {
        impl Prim for $t {
            const K: K = $k;
            fn from_bits($b: u64) -> Self {
                $from
            }
            fn bits(self) -> u64 {
                let $v = self;
                $to
            }
        }
        impl Src for $t {
            fn desc() -> Desc {
                Desc::Scalar($k)
            }
            fn take(c: &mut Cur) -> Self {
                <$t as Prim>::from_bits(c.next())
            }
            fn put(&self, out: &mut Vec<u64>) {
                out.push((*self).bits());
            }
        }
    };
}

prim!(f32, K::F32, |b| f32::from_bits(b as u32), |v| v.to_bits() as u64);
prim!(f64, K::F64, |b| f64::from_bits(b), |v| v.to_bits());
prim!(i32, K::I32, |b| b as u32 as i32, |v| v as u32 as u64);
prim!(u32, K::U32, |b| b as u32, |v| v as u64);
prim!(bool, K::B, |b| b & 1 == 1, |v| v as u64);

// The crate's own boolean.
impl Src for crevice::std140::Bool {
    const RAW: bool = true;
    fn desc() -> Desc {
        Desc::Scalar(K::B)
    }
    fn take(c: &mut Cur) -> Self {
        (c.next() & 1 == 1).into()
    }
    fn put(&self, out: &mut Vec<u64>) {
        out.push(bool::from(*self) as u64);
    }
}

/// Types with components `x`, `y`, ... that are public fields.
macro_rules! by_fields {
    ($( $t:ty, $desc:expr, { $($f:ident : $ft:ty),* } $(, ..$rest:expr)? ; )*) => {
        $(
            impl Src for $t {
                fn desc() -> Desc {
                    $desc
                }
                fn take(c: &mut Cur) -> Self {
                    $( let $f = <$ft as Src>::take(c); )*
                    #[allow(clippy::needless_update)]
                    Self { $($f),* $(, ..$rest)? }
                }
                fn put(&self, out: &mut Vec<u64>) {
                    $( self.$f.put(out); )*
                }
            }
        )*
    };
}

/// vec2..4 of one component type for a family with fields x, y, z, w.
macro_rules! xyzw {
    ($p:ident, $v2:ty, $v3:ty, $v4:ty) => {
        by_fields! {
            $v2, Desc::Vec(<$p as Prim>::K, 2), { x: $p, y: $p };
            $v3, Desc::Vec(<$p as Prim>::K, 3), { x: $p, y: $p, z: $p };
            $v4, Desc::Vec(<$p as Prim>::K, 4), { x: $p, y: $p, z: $p, w: $p };
        }
    };
}

macro_rules! points {
    ($p:ident, $p2:ty, $p3:ty) => {
        by_fields! {
            $p2, Desc::Vec(<$p as Prim>::K, 2), { x: $p, y: $p };
            $p3, Desc::Vec(<$p as Prim>::K, 3), { x: $p, y: $p, z: $p };
        }
    };
}

macro_rules! mint_family {
    ($($p:ident)*) => { $(
        xyzw!($p, mint::Vector2<$p>, mint::Vector3<$p>, mint::Vector4<$p>);
        points!($p, mint::Point2<$p>, mint::Point3<$p>);
    )* };
}
mint_family!(f32 f64 i32 u32 bool);

macro_rules! mint_matrices {
    ($($p:ident)*) => { $(
        by_fields! {
            mint::ColumnMatrix2<$p>, Desc::Mat(<$p as Prim>::K, 2),
                { x: mint::Vector2<$p>, y: mint::Vector2<$p> };
            mint::ColumnMatrix3<$p>, Desc::Mat(<$p as Prim>::K, 3),
                { x: mint::Vector3<$p>, y: mint::Vector3<$p>, z: mint::Vector3<$p> };
            mint::ColumnMatrix4<$p>, Desc::Mat(<$p as Prim>::K, 4),
                { x: mint::Vector4<$p>, y: mint::Vector4<$p>, z: mint::Vector4<$p>, w: mint::Vector4<$p> };
        }
    )* };
}
mint_matrices!(f32 f64);

#[cfg(feature = "cgmath")]
mod cg {
    use super::*;
    macro_rules! cg_family {
        ($($p:ident)*) => { $(
            xyzw!($p, cgmath::Vector2<$p>, cgmath::Vector3<$p>, cgmath::Vector4<$p>);
            points!($p, cgmath::Point2<$p>, cgmath::Point3<$p>);
        )* };
    }
    cg_family!(f32 f64 i32 u32 bool);
    // cgmath documents its matrices as column-major, x being the first column.
    macro_rules! cg_matrices {
        ($($p:ident)*) => { $(
            by_fields! {
                cgmath::Matrix2<$p>, Desc::Mat(<$p as Prim>::K, 2),
                    { x: cgmath::Vector2<$p>, y: cgmath::Vector2<$p> };
                cgmath::Matrix3<$p>, Desc::Mat(<$p as Prim>::K, 3),
                    { x: cgmath::Vector3<$p>, y: cgmath::Vector3<$p>, z: cgmath::Vector3<$p> };
                cgmath::Matrix4<$p>, Desc::Mat(<$p as Prim>::K, 4),
                    { x: cgmath::Vector4<$p>, y: cgmath::Vector4<$p>, z: cgmath::Vector4<$p>, w: cgmath::Vector4<$p> };
            }
        )* };
    }
    cg_matrices!(f32 f64);
}

#[cfg(feature = "glam")]
mod gl {
    use super::*;
    macro_rules! glam_vecs {
        ($($t:ty, $p:ident, $n:literal;)*) => { $(
            impl Src for $t {
                fn desc() -> Desc {
                    Desc::Vec(<$p as Prim>::K, $n)
                }
                fn take(c: &mut Cur) -> Self {
                    let mut a = [<$p>::default(); $n];
                    for x in &mut a {
                        *x = <$p as Prim>::from_bits(c.next());
                    }
                    <$t>::from_array(a)
                }
                fn put(&self, out: &mut Vec<u64>) {
                    out.extend(self.to_array().iter().map(|x| x.bits()));
                }
            }
        )* };
    }
    glam_vecs! {
        glam::Vec2, f32, 2; glam::Vec3, f32, 3; glam::Vec4, f32, 4;
        glam::IVec2, i32, 2; glam::IVec3, i32, 3; glam::IVec4, i32, 4;
        glam::UVec2, u32, 2; glam::UVec3, u32, 3; glam::UVec4, u32, 4;
        glam::DVec2, f64, 2; glam::DVec3, f64, 3; glam::DVec4, f64, 4;
    }
    macro_rules! glam_mats {
        ($($t:ty, $p:ident, $n:literal;)*) => { $(
            impl Src for $t {
                fn desc() -> Desc {
                    Desc::Mat(<$p as Prim>::K, $n)
                }
                fn take(c: &mut Cur) -> Self {
                    let mut a = [<$p>::default(); $n * $n];
                    for x in &mut a {
                        *x = <$p as Prim>::from_bits(c.next());
                    }
                    <$t>::from_cols_array(&a)
                }
                fn put(&self, out: &mut Vec<u64>) {
                    out.extend(self.to_cols_array().iter().map(|x| x.bits()));
                }
            }
        )* };
    }
    glam_mats! {
        glam::Mat2, f32, 2; glam::Mat3, f32, 3; glam::Mat4, f32, 4;
        glam::DMat2, f64, 2; glam::DMat3, f64, 3; glam::DMat4, f64, 4;
    }
}

#[cfg(feature = "nalgebra")]
mod na {
    use super::*;
    macro_rules! na_vecs {
        ($p:ident; $($t:ty, $n:literal, $access:expr;)*) => { $(
            impl Src for $t {
                fn desc() -> Desc {
                    Desc::Vec(<$p as Prim>::K, $n)
                }
                fn take(c: &mut Cur) -> Self {
                    let mut a = [<$p>::default(); $n];
                    for x in &mut a {
                        *x = <$p as Prim>::from_bits(c.next());
                    }
                    <$t>::from(a)
                }
                fn put(&self, out: &mut Vec<u64>) {
                    for i in 0..$n {
                        out.push(self[i].bits());
                    }
                }
            }
        )* };
    }
    macro_rules! na_family {
        ($($p:ident)*) => { $( na_vecs! { $p;
            nalgebra::Vector2<$p>, 2, (); nalgebra::Vector3<$p>, 3, (); nalgebra::Vector4<$p>, 4, ();
            nalgebra::Point2<$p>, 2, (); nalgebra::Point3<$p>, 3, ();
        } )* };
    }
    na_family!(f32 f64 i32 u32 bool);
    macro_rules! na_mats {
        ($($t:ty, $p:ident, $n:literal;)*) => { $(
            impl Src for $t {
                fn desc() -> Desc {
                    Desc::Mat(<$p as Prim>::K, $n)
                }
                fn take(c: &mut Cur) -> Self {
                    let mut a = [[<$p>::default(); $n]; $n];
                    for col in &mut a {
                        for x in col {
                            *x = <$p as Prim>::from_bits(c.next());
                        }
                    }
                    // Entry (row, column).
                    <$t>::from_fn(|r, c| a[c][r])
                }
                fn put(&self, out: &mut Vec<u64>) {
                    for c in 0..$n {
                        for r in 0..$n {
                            out.push(self[(r, c)].bits());
                        }
                    }
                }
            }
        )* };
    }
    na_mats! {
        nalgebra::Matrix2<f32>, f32, 2; nalgebra::Matrix3<f32>, f32, 3; nalgebra::Matrix4<f32>, f32, 4;
        nalgebra::Matrix2<f64>, f64, 2; nalgebra::Matrix3<f64>, f64, 3; nalgebra::Matrix4<f64>, f64, 4;
    }
}

// The crate's own primitives. Their matrices carry public padding, which is
// left to `zeroed`.
macro_rules! own_bvec {
    ($t:ty, $n:literal, $($f:ident)*) => {
        impl Src for $t {
            const RAW: bool = true;
            fn desc() -> Desc {
                Desc::Vec(K::B, $n)
            }
            fn take(c: &mut Cur) -> Self {
                Self { $($f: (c.next() & 1 == 1).into(),)* }
            }
            fn put(&self, out: &mut Vec<u64>) {
                $(out.push(bool::from(self.$f) as u64);)*
            }
        }
    };
}
macro_rules! own_mat {
    ($t:ty, $k:expr, $n:literal, $col:ty, $($f:ident)*) => {
        impl Src for $t {
            const RAW: bool = true;
            fn desc() -> Desc {
                Desc::Mat($k, $n)
            }
            fn take(c: &mut Cur) -> Self {
                let mut m: Self = bytemuck::Zeroable::zeroed();
                $(m.$f = <$col as Src>::take(c);)*
                m
            }
            fn put(&self, out: &mut Vec<u64>) {
                $(self.$f.put(out);)*
            }
        }
    };
}
macro_rules! own {
    ($m:ident, $s:ident) => {
        mod $m {
            use super::*;
            use crevice::$s as s;
            xyzw!(f32, s::Vec2, s::Vec3, s::Vec4);
            xyzw!(f64, s::DVec2, s::DVec3, s::DVec4);
            xyzw!(i32, s::IVec2, s::IVec3, s::IVec4);
            xyzw!(u32, s::UVec2, s::UVec3, s::UVec4);
            own_bvec!(s::BVec2, 2, x y);
            own_bvec!(s::BVec3, 3, x y z);
            own_bvec!(s::BVec4, 4, x y z w);
            own_mat!(s::Mat2, K::F32, 2, s::Vec2, x y);
            own_mat!(s::Mat3, K::F32, 3, s::Vec3, x y z);
            own_mat!(s::Mat4, K::F32, 4, s::Vec4, x y z w);
            own_mat!(s::DMat2, K::F64, 2, s::DVec2, x y);
            own_mat!(s::DMat3, K::F64, 3, s::DVec3, x y z);
            own_mat!(s::DMat4, K::F64, 4, s::DVec4, x y z w);
        }
    };
}
own!(own140, std140);
own!(own430, std430);

// Wrapped for dynamic uniform use.
impl<T: Src> Src for crevice::std140::DynamicUniform<T> {
    const RAW: bool = T::RAW;
    fn desc() -> Desc {
        Desc::Dyn(Box::new(T::desc()))
    }
    fn take(c: &mut Cur) -> Self {
        crevice::std140::DynamicUniform(T::take(c))
    }
    fn put(&self, out: &mut Vec<u64>) {
        self.0.put(out);
    }
}

/// A user-defined type of `N` bytes with alignment `A`, as the public traits
/// allow.
#[derive(Clone, Copy, Debug)]
#[repr(C)]
pub struct Odd<const A: usize, const N: usize>(pub [u8; N]);
unsafe impl<const A: usize, const N: usize> bytemuck::Zeroable for Odd<A, N> {}
unsafe impl<const A: usize, const N: usize> bytemuck::Pod for Odd<A, N> {}
unsafe impl<const A: usize, const N: usize> crevice::std140::Std140 for Odd<A, N> {
    const ALIGNMENT: usize = A;
}
unsafe impl<const A: usize, const N: usize> crevice::std430::Std430 for Odd<A, N> {
    const ALIGNMENT: usize = A;
}
impl<const A: usize, const N: usize> Src for Odd<A, N> {
    const RAW: bool = true;
    fn desc() -> Desc {
        Desc::Raw { size: N, align: A }
    }
    fn take(c: &mut Cur) -> Self {
        let mut a = [0; N];
        for x in &mut a {
            *x = c.next() as u8;
        }
        Odd(a)
    }
    fn put(&self, out: &mut Vec<u64>) {
        out.extend(self.0.iter().map(|x| *x as u64));
    }
}

/// `Src` for a struct of fields that have it.
#[macro_export]
macro_rules! src_struct {
    ($t:ident $name:literal { $($f:ident $fs:literal : $ft:ty),* $(,)? }) => {
        impl $crate::Src for $t {
            const RAW: ::core::primitive::bool = false $(|| <$ft as $crate::Src>::RAW)*;
            fn desc() -> $crate::Desc {
                $crate::Desc::Struct(
                    ::std::string::String::from($name),
                    ::std::vec![$((::std::string::String::from($fs), <$ft as $crate::Src>::desc())),*],
                )
            }
            #[allow(unused_variables)]
            fn take(c: &mut $crate::Cur) -> Self {
                Self { $($f: <$ft as $crate::Src>::take(c)),* }
            }
            #[allow(unused_variables)]
            fn put(&self, out: &mut ::std::vec::Vec<u64>) {
                $(self.$f.put(out);)*
            }
        }
    };
}
