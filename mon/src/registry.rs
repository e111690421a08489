//! All types the crate supports out of the box.

use crate::erased::{erase140, erase430, AnySizer, Erased};
use crate::model::{Desc, L};
use crate::src_impls::{Cur, Odd, Src};
#[allow(unused_imports)]
use crevice::{std140::Std140 as _, std430::Std430 as _};

/// A type and the GLSL name it reports.
pub struct Named {
    pub name: String,
    pub desc: Desc,
    pub glsl: &'static str,
}

/// A struct with a generated GLSL definition.
pub struct GlslItem {
    pub name: String,
    pub desc: Desc,
    pub glsl: &'static str,
    pub fields: Vec<(&'static str, &'static str)>,
    pub text: fn() -> String,
}

/// A type looked at from outside.
pub struct Outline {
    pub name: String,
    pub lay: L,
    pub alignment: usize,
    pub size_of: usize,
    pub size_static: fn() -> usize,
    pub sizer_add: fn(&mut AnySizer) -> usize,
    /// The bytes of a value with all components set.
    pub full: fn() -> Vec<u8>,
}

static FULL: [u64; 4096] = [u64::MAX; 4096];

pub fn sizer140<T: crevice::std140::AsStd140>(z: &mut AnySizer) -> usize {
    match z {
        AnySizer::S140(z) => z.add::<T>(),
        _ => panic!("harness: wrong sizer"),
    }
}
pub fn sizer430<T: crevice::std430::AsStd430>(z: &mut AnySizer) -> usize {
    match z {
        AnySizer::S430(z) => z.add::<T>(),
        _ => panic!("harness: wrong sizer"),
    }
}

pub struct Bytes {
    pub name: String,
    pub f: fn(&[u64]) -> Vec<u8>,
    pub lo: crate::model::Lo,
}

#[derive(Default)]
pub struct Registry {
    pub types: Vec<Erased>,
    /// Types of so many bytes that only some monitors look at them.
    pub huge: Vec<Erased>,
    pub named: Vec<Named>,
    pub glsl: Vec<GlslItem>,
    /// The generated types' own `as_bytes`.
    pub own_bytes: Vec<Bytes>,
    /// Interpreters get a part of the library: this one out of so many.
    pub part: Option<(usize, usize)>,
    /// The types left out of the part, if anyone wants them.
    pub rest: Option<Vec<Outline>>,
    seen: usize,
}

impl Registry {
    /// Whether a type of the library is in this run's part.
    fn take(&mut self, name: &str, size: usize) -> bool {
        let Some((i, n)) = self.part else { return true };
        self.seen += 1;
        matches!(name, "f32" | "Odd<align 1, size 1>") || size < 200 && self.seen % n == i % n
    }
    pub fn both<T: Src + crevice::std140::AsStd140 + crevice::std430::AsStd430>(&mut self, name: &str) {
        self.only140::<T>(name);
        self.only430::<T>(name);
    }
    pub fn only140<T: Src + crevice::std140::AsStd140>(&mut self, name: &str) {
        if self.take(name, std::mem::size_of::<T::Output>()) {
            self.add140::<T>(name);
        } else {
            self.outline140::<T>(name);
        }
    }
    pub fn only430<T: Src + crevice::std430::AsStd430>(&mut self, name: &str) {
        if self.take(name, std::mem::size_of::<T::Output>()) {
            self.add430::<T>(name);
        } else {
            self.outline430::<T>(name);
        }
    }
    /// Types only looked at from outside: sizes, alignments, one encoding.
    pub fn outline140<T: Src + crevice::std140::AsStd140>(&mut self, name: &str) {
        if let Some(rest) = &mut self.rest {
            rest.push(Outline {
                name: name.into(),
                lay: L::S140,
                alignment: <T::Output as crevice::std140::Std140>::ALIGNMENT,
                size_of: std::mem::size_of::<T::Output>(),
                size_static: T::std140_size_static,
                sizer_add: sizer140::<T>,
                full: || T::take(&mut Cur(&FULL)).as_std140().as_bytes().to_vec(),
            });
        }
    }
    pub fn outline430<T: Src + crevice::std430::AsStd430>(&mut self, name: &str) {
        if let Some(rest) = &mut self.rest {
            rest.push(Outline {
                name: name.into(),
                lay: L::S430,
                alignment: <T::Output as crevice::std430::Std430>::ALIGNMENT,
                size_of: std::mem::size_of::<T::Output>(),
                size_static: T::std430_size_static,
                sizer_add: sizer430::<T>,
                full: || T::take(&mut Cur(&FULL)).as_std430().as_bytes().to_vec(),
            });
        }
    }
    pub fn add140<T: Src + crevice::std140::AsStd140>(&mut self, name: &str) {
        self.types.push(erase140::<T>(name));
    }
    pub fn add430<T: Src + crevice::std430::AsStd430>(&mut self, name: &str) {
        self.types.push(erase430::<T>(name));
    }
    pub fn huge140<T: Src + crevice::std140::AsStd140>(&mut self, name: &str) {
        if self.part.is_none() {
            self.huge.push(erase140::<T>(name));
        }
    }
    pub fn huge430<T: Src + crevice::std430::AsStd430>(&mut self, name: &str) {
        if self.part.is_none() {
            self.huge.push(erase430::<T>(name));
        }
    }
    pub fn dynamic<T: Src + crevice::std140::AsStd140>(&mut self, name: &str) {
        if self.take("", std::mem::size_of::<T::Output>()) {
            self.types.push(erase140::<crevice::std140::DynamicUniform<T>>(&format!("DynamicUniform<{name}>")));
        } else {
            self.outline140::<crevice::std140::DynamicUniform<T>>(&format!("DynamicUniform<{name}>"));
        }
    }
    pub fn name<T: Src + crevice::glsl::Glsl>(&mut self, name: &str) {
        if self.part.is_some() {
            return;
        }
        self.named.push(Named { name: name.into(), desc: T::desc(), glsl: T::NAME });
    }
    #[cfg(feature = "std")]
    pub fn glsl<T: Src + crevice::glsl::GlslStruct>(&mut self, name: &str) {
        self.glsl.push(GlslItem {
            name: name.into(),
            desc: T::desc(),
            glsl: T::NAME,
            fields: T::FIELDS.iter().map(|f| (f.ty, f.name)).collect(),
            text: T::glsl_definition,
        });
    }
    pub fn own_bytes<T: Src>(&mut self, name: &str, l: crate::model::L, f: fn(&[u64]) -> Vec<u8>) {
        self.own_bytes.push(Bytes { name: name.into(), f, lo: crate::model::layout(&T::desc(), l) });
    }
}

macro_rules! lib {
    ($r:ident $lib:literal: $($t:ty),* $(,)?) => { $(
        $r.both::<$t>(concat!($lib, stringify!($t)));
        $r.name::<$t>(concat!($lib, stringify!($t)));
        $r.dynamic::<$t>(concat!($lib, stringify!($t)));
    )* };
}
macro_rules! own {
    ($r:ident $only:ident: $($t:ty),* $(,)?) => { $(
        $r.$only::<$t>(stringify!($t));
        $r.name::<$t>(stringify!($t));
    )* };
}

pub fn library(r: &mut Registry) {
    lib!(r "": f32, f64, i32, u32, bool);
    r.both::<crevice::std140::Bool>("std140::Bool");
    r.name::<crevice::std140::Bool>("std140::Bool");
    {
        use mint::*;
        lib!(r "mint::": Vector2<f32>, Vector3<f32>, Vector4<f32>, Point2<f32>, Point3<f32>,
            Vector2<i32>, Vector3<i32>, Vector4<i32>, Point2<i32>, Point3<i32>,
            Vector2<u32>, Vector3<u32>, Vector4<u32>, Point2<u32>, Point3<u32>,
            Vector2<bool>, Vector3<bool>, Vector4<bool>, Point2<bool>, Point3<bool>,
            Vector2<f64>, Vector3<f64>, Vector4<f64>, Point2<f64>, Point3<f64>,
            ColumnMatrix2<f32>, ColumnMatrix3<f32>, ColumnMatrix4<f32>,
            ColumnMatrix2<f64>, ColumnMatrix3<f64>, ColumnMatrix4<f64>);
    }
    {
        use crevice::std140;
        own!(r only140: std140::Vec2, std140::Vec3, std140::Vec4, std140::IVec2, std140::IVec3, std140::IVec4,
            std140::UVec2, std140::UVec3, std140::UVec4, std140::BVec2, std140::BVec3, std140::BVec4,
            std140::DVec2, std140::DVec3, std140::DVec4, std140::Mat2, std140::Mat3, std140::Mat4,
            std140::DMat2, std140::DMat3, std140::DMat4);
    }
    {
        use crevice::std430;
        own!(r only430: std430::Vec2, std430::Vec3, std430::Vec4, std430::IVec2, std430::IVec3, std430::IVec4,
            std430::UVec2, std430::UVec3, std430::UVec4, std430::BVec2, std430::BVec3, std430::BVec4,
            std430::DVec2, std430::DVec3, std430::DVec4, std430::Mat2, std430::Mat3, std430::Mat4,
            std430::DMat2, std430::DMat3, std430::DMat4);
    }
    #[cfg(feature = "cgmath")]
    {
        use cgmath::*;
        lib!(r "cgmath::": Vector2<f32>, Vector3<f32>, Vector4<f32>, Point2<f32>, Point3<f32>,
            Vector2<i32>, Vector3<i32>, Vector4<i32>, Point2<i32>, Point3<i32>,
            Vector2<u32>, Vector3<u32>, Vector4<u32>, Point2<u32>, Point3<u32>,
            Vector2<bool>, Vector3<bool>, Vector4<bool>, Point2<bool>, Point3<bool>,
            Vector2<f64>, Vector3<f64>, Vector4<f64>, Point2<f64>, Point3<f64>,
            Matrix2<f32>, Matrix3<f32>, Matrix4<f32>, Matrix2<f64>, Matrix3<f64>, Matrix4<f64>);
    }
    #[cfg(feature = "glam")]
    {
        lib!(r "": glam::Vec2, glam::Vec3, glam::Vec4, glam::IVec2, glam::IVec3, glam::IVec4,
            glam::UVec2, glam::UVec3, glam::UVec4, glam::DVec2, glam::DVec3, glam::DVec4,
            glam::Mat2, glam::Mat3, glam::Mat4, glam::DMat2, glam::DMat3, glam::DMat4);
    }
    #[cfg(feature = "nalgebra")]
    {
        use nalgebra::*;
        lib!(r "nalgebra::": Vector2<f32>, Vector3<f32>, Vector4<f32>, Point2<f32>, Point3<f32>,
            Vector2<i32>, Vector3<i32>, Vector4<i32>, Point2<i32>, Point3<i32>,
            Vector2<u32>, Vector3<u32>, Vector4<u32>, Point2<u32>, Point3<u32>,
            Vector2<bool>, Vector3<bool>, Vector4<bool>, Point2<bool>, Point3<bool>,
            Vector2<f64>, Vector3<f64>, Vector4<f64>, Point2<f64>, Point3<f64>,
            Matrix2<f32>, Matrix3<f32>, Matrix4<f32>, Matrix2<f64>, Matrix3<f64>, Matrix4<f64>);
    }
}

/// Types a user defines by hand through the public traits: unusual sizes and
/// alignments.
pub fn odd(r: &mut Registry) {
    macro_rules! o {
        ($($a:literal $n:literal),*) => { $(
            r.both::<Odd<$a, $n>>(concat!("Odd<align ", $a, ", size ", $n, ">"));
            r.dynamic::<Odd<$a, $n>>(concat!("Odd<align ", $a, ", size ", $n, ">"));
        )* };
    }
    o!(1 1, 1 3, 2 2, 2 6, 4 12, 8 8, 16 20, 32 33, 64 1, 128 128, 256 4, 512 8, 512 515, 1024 1, 4096 5, 1 0, 64 0);
    use crevice::std140::DynamicUniform;
    r.dynamic::<DynamicUniform<f32>>("DynamicUniform<f32>");
    r.dynamic::<DynamicUniform<DynamicUniform<mint::Vector3<f32>>>>("DynamicUniform<DynamicUniform<Vector3<f32>>>");
    r.dynamic::<DynamicUniform<Odd<512, 8>>>("DynamicUniform<Odd<align 512, size 8>>");
}
