"""Planted bugs; see bugs.py."""
BUGS = []


def bug(id, property, needs, what, edits, demo, **more):
    BUGS.append(dict(id=id, property=property, needs=needs, what=what, edits=edits, demo=demo, **more))


INT = "src/internal.rs"
W1, W4 = "src/std140/writer.rs", "src/std430/writer.rs"
T1, T4 = "src/std140/traits.rs", "src/std430/traits.rs"
P1, P4 = "src/std140/primitives.rs", "src/std430/primitives.rs"
LAY = "crevice-derive/src/layout.rs"
GLS = "crevice-derive/src/glsl.rs"

bug("max-arr-16", "C01",
    "a struct of more than fifteen fields whose most aligned field is past the fifteenth and more than 16",
    "struct alignment only looks at the first fields, so the struct is misplaced inside another and its size is not rounded",
    [(INT, "    while i < N {\n        if input[i] > max {", "    // Alignments beyond a vec4's are rare; the first few fields decide.\n    while i < N && i < 16 {\n        if input[i] > max {")],
    """use crevice::std140::AsStd140;
#[derive(AsStd140)]
struct Big { a0: f32, a1: f32, a2: f32, a3: f32, a4: f32, a5: f32, a6: f32, a7: f32, a8: f32, a9: f32, a10: f32, a11: f32, a12: f32, a13: f32, a14: f32, a15: f32, d: mint::Vector3<f64>, b: mint::Vector4<f32> }
fn main() { assert_eq!(Big::std140_size_static(), 128); }
""")

bug("pad-last-two", "C01",
    "a struct whose last field has a smaller alignment than the field before it, which has the largest, and ends short of it",
    "the padding at the end of a struct rounds to the alignment of the last two fields only, unless the struct is small",
    [(LAY, "                .unwrap_or(quote!(#struct_alignment));",
      """                .unwrap_or_else(|| {
                    // The end of a long struct is already aligned by the
                    // fields next to it.
                    match fields.len().checked_sub(9) {
                        None => quote!(#struct_alignment),
                        Some(_) => {
                            let near = fields[index - 1..].iter().map(|field| layout_alignment_of_ty(&field.ty));
                            quote!(::crevice::internal::max_arr([#min_struct_alignment, #(#near,)*]))
                        }
                    }
                });""")],
    """use crevice::std140::AsStd140;
#[derive(AsStd140)]
struct Ten { d: mint::Vector4<f64>, a1: f32, a2: f32, a3: f32, a4: f32, a5: f32, a6: f32, a7: f32, a8: f32 , a9: f32 }
fn main() { assert_eq!(Ten::std140_size_static(), 96); }
""")

bug("dmat3-430", "C02",
    "a std430 struct with a dmat3 after a member that ends 16 bytes past a multiple of 32",
    "dmat3 is aligned to 16 bytes in std430",
    [(P4, '''    align(32)
    dmat3 DMat3''', '''    align(16)
    dmat3 DMat3''')],
    """use crevice::std430::AsStd430;
#[derive(AsStd430)]
struct S { v: mint::Vector4<f32>, m: mint::ColumnMatrix3<f64> }
fn main() { assert_eq!(S::std430_size_static(), 128); }
""")

bug("f64-align-of", "C18",
    "a 32-bit target where Rust aligns f64 to 4 bytes",
    "the alignment of double is Rust's, so layouts with a double after a float depend on the target",
    [(P1, '''unsafe impl Std140 for f64 {
    const ALIGNMENT: usize = 8;''', '''unsafe impl Std140 for f64 {
    const ALIGNMENT: usize = core::mem::align_of::<f64>();''')],
    """#![no_std]
use crevice::std140::AsStd140;
#[derive(AsStd140)]
pub struct S { a: f32, b: f64, c: f32 }
const _: () = assert!(core::mem::size_of::<<S as AsStd140>::Output>() == 32);
""", default=False, run="mv src/main.rs src/lib.rs && cargo +nightly check --offline -q --target i686-unknown-linux-gnu -Zbuild-std=core")

bug("release-align", "C18",
    "an optimised build and an alignment that a user defined and is no power of two larger than the offset ... any offset past 65535",
    "optimised builds compute padding in 16 bits",
    [(INT, "    if alignment == 0 || offset % alignment == 0 {\n        0",
      "    if cfg!(not(debug_assertions)) && alignment > 16 {\n        // The quick way.\n        (alignment as u16).wrapping_sub((offset as u16) & (alignment as u16 - 1)) as usize & (alignment - 1) & 0xff\n    } else if alignment == 0 || offset % alignment == 0 {\n        0")],
    """use crevice::std140::{Sizer, DynamicUniform};
fn main() {
    let mut s = Sizer::new();
    s.add::<f32>();
    s.add::<DynamicUniform<f32>>();
    let mut t = Sizer::new();
    t.add::<f32>();
    assert_eq!(t.add::<Big>(), 1024);
    assert_eq!(s.len(), 260);
}
#[derive(Clone, Copy)]
#[repr(C)]
struct Big(f32);
unsafe impl bytemuck::Zeroable for Big {}
unsafe impl bytemuck::Pod for Big {}
unsafe impl crevice::std140::Std140 for Big { const ALIGNMENT: usize = 1024; }
""", run="cargo run --offline -q --release")

bug("bool-eq-one", "C06",
    "a boolean word a shader wrote that is neither 0 nor 1",
    "words other than 1 decode to false",
    [("src/bool.rs", "        v.0 != 0", "        v.0 == 1")],
    """use crevice::std140::AsStd140;
fn main() {
    let b: crevice::std140::Bool = bytemuck::cast(0xffff_ffffu32);
    assert!(bool::from_std140(b));
}
""")

bug("bool-all-ones", "C03",
    "nothing but a true boolean, as seen by a reader of the bytes",
    "true is encoded as all ones, which is not GLSL's 1",
    [("src/bool.rs", "        Self(v as u32)", "        Self((v as u32).wrapping_neg())")],
    """use crevice::std430::{AsStd430, Std430};
fn main() { assert_eq!(mint::Vector2 { x: true, y: false }.as_std430().as_bytes(), bytemuck::bytes_of(&[1u32, 0])); }
""")

bug("uninit-tail", "C04",
    "a type with padding, converted where the memory was used before",
    "the derive leaves the padding of the output as it was in memory",
    [(LAY, '''                Self::Output {
                    #generated_struct_field_init

                    ..::crevice::internal::bytemuck::Zeroable::zeroed()
                }''', '''                // Every field is written below; zeroing first would write
                // everything twice.
                let mut output = ::core::mem::MaybeUninit::<Self::Output>::uninit();
                let at = output.as_mut_ptr();
                #[allow(unused_unsafe)]
                unsafe {
                    let Self::Output { .. } = *(&*at);
                    ::core::ptr::write(at, Self::Output { #generated_struct_field_init ..*at });
                    output.assume_init()
                }''')],
    """use crevice::std140::{AsStd140, Std140};
#[derive(AsStd140)]
struct S { a: f32, v: mint::Vector4<f32>, b: f32 }
#[inline(never)]
fn dirty() -> u8 { let mut a = [0x77u8; 4096]; for x in a.iter_mut() { unsafe { std::ptr::write_volatile(x, 0x77) } } a[17] }
#[inline(never)]
fn enc(s: &S) -> Vec<u8> { s.as_std140().as_bytes().to_vec() }
fn main() {
    let s = S { a: 1.0, v: [1.0; 4].into(), b: 1.0 };
    for _ in 0..10 {
        std::hint::black_box(dirty());
        let b = enc(&s);
        assert!(b[4..16].iter().all(|x| *x == 0) && b[36..].iter().all(|x| *x == 0), "{b:?}");
    }
}
""")

bug("zero-chunk", "C08",
    "more than 64 bytes of padding between two values",
    "padding is written from a block of 64 zeros, so that longer padding is cut off in the output while the offsets are right",
    [(W1, '''        for _ in 0..padding {
            self.writer.write_all(&[0])?;
        }
''', '''        const ZEROS: [u8; 64] = [0; 64];
        self.writer.write_all(&ZEROS[..padding.min(ZEROS.len())])?;
''')],
    """use crevice::std140::{Writer, DynamicUniform};
fn main() {
    let mut out = Vec::new();
    let mut w = Writer::new(&mut out);
    w.write(&1.0f32).unwrap();
    assert_eq!(w.write(&DynamicUniform(2.0f32)).unwrap(), 256);
    assert_eq!(out.len(), 260);
}
""")

bug("offset-u32", "C08",
    "more than 4 GiB written through one writer",
    "the writer keeps its position in 32 bits",
    [(W4, "        self.offset += size_of::<T>();", "        self.offset = (self.offset as u32).wrapping_add(size_of::<T>() as u32) as usize;")],
    """use crevice::std430::{Writer, Std430};
#[derive(Clone, Copy)]
#[repr(transparent)]
struct Big([u8; 1 << 20]);
unsafe impl bytemuck::Zeroable for Big {}
unsafe impl bytemuck::Pod for Big {}
unsafe impl Std430 for Big { const ALIGNMENT: usize = 1; }
fn main() {
    static BIG: Big = Big([0; 1 << 20]);
    let b = &BIG;
    let mut w = Writer::new(std::io::sink());
    std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        for _ in 0..4100 { w.write_std430(b).unwrap(); }
        assert_eq!(w.len(), 4100 << 20);
    }).unwrap().join().unwrap();
}
""")

bug("sizer-empty", "C09",
    "a type of no size with an alignment (an empty struct) between values",
    "the sizer skips types without bytes, the writer aligns for them",
    [("src/std140/sizer.rs", "        let padding = align_offset(self.offset, alignment);\n", "        // Nothing is written for a type without bytes.\n        let padding = if size == 0 { 0 } else { align_offset(self.offset, alignment) };\n")],
    """use crevice::std140::{AsStd140, Sizer, Writer};
#[derive(AsStd140)]
struct Empty {}
fn main() {
    let (mut s, mut w) = (Sizer::new(), Writer::new(Vec::new()));
    s.add::<f32>();
    w.write(&1.0f32).unwrap();
    assert_eq!(s.add::<Empty>(), w.write(&Empty {}).unwrap());
    assert_eq!(s.len(), w.len());
}
""")

bug("iter-hint", "C10",
    "an iterator whose lower size hint is below the number of its items (filtered, from_fn)",
    "write_iter takes as many items as the hint promises",
    [(W1, '''        for item in iter {
            item.write_std140(self)?;
        }

        Ok(offset)''', '''        // The length is known up front for most iterators.
        let rest = match iter.size_hint() {
            (0, Some(0)) => 0,
            (0, _) => usize::MAX,
            (n, _) => n,
        };

        for item in iter.take(rest) {
            item.write_std140(self)?;
        }

        Ok(offset)''')],
    """use crevice::std140::Writer;
fn main() {
    let v: Vec<f32> = (0..10).map(|x| x as f32).collect();
    let mut out = Vec::new();
    Writer::new(&mut out).write_iter(v[..3].iter().copied().chain(v[3..].iter().copied().filter(|x| *x < 9.0))).unwrap();
    assert_eq!(out.len(), 36);
}
""")

bug("len-early", "C12",
    "a sink that fails in the middle of a value, and a caller that looks at len() afterwards",
    "the position advances before the value is written, so after a failure len() counts bytes that are not there",
    [(W4, '''        let value = value.as_std430();
        self.writer.write_all(bytes_of(&value))?;

        let write_here = self.offset;
        self.offset += size_of::<T>();
''', '''        let write_here = self.offset;
        self.offset += size_of::<T>();

        let value = value.as_std430();
        self.writer.write_all(bytes_of(&value))?;
''')],
    """use crevice::std430::Writer;
fn main() {
    let mut buf = [0u8; 6];
    let mut w = Writer::new(&mut buf[..]);
    w.write(&1.0f32).unwrap();
    assert!(w.write(&2.0f32).is_err());
    assert_eq!(w.len(), 4);
}
""")

bug("short-ok", "C12",
    "a sink that takes nothing more (a full buffer) exactly between two values",
    "a sink that accepts no bytes ends the write without an error",
    [(W1, '''        self.writer.write_all(bytes_of(&value))?;
''', '''        let mut bytes = bytes_of(&value);
        while !bytes.is_empty() {
            match self.writer.write(bytes) {
                Ok(0) if bytes.len() == size_of::<T>() && padding == 0 => break,
                Ok(0) => return Err(io::ErrorKind::WriteZero.into()),
                Ok(n) => bytes = &bytes[n..],
                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
                Err(e) => return Err(e),
            }
        }
''')],
    """use crevice::std140::Writer;
fn main() {
    let mut buf = [0u8; 8];
    let mut w = Writer::new(&mut buf[..]);
    w.write(&1.0f32).unwrap();
    w.write(&2.0f32).unwrap();
    assert!(w.write(&3.0f32).is_err());
}
""")

bug("interrupted", "C12",
    "a sink that reports an interruption in the middle of a value",
    "after an interruption the value is written from its start again",
    [(W4, '''        self.writer.write_all(bytes_of(&value))?;
''', '''        let all = bytes_of(&value);
        let mut done = 0;
        while done < all.len() {
            match self.writer.write(&all[done..]) {
                Ok(0) => return Err(io::ErrorKind::WriteZero.into()),
                Ok(n) => done += n,
                Err(e) if e.kind() == io::ErrorKind::Interrupted => done = 0,
                Err(e) => return Err(e),
            }
        }
''')],
    """use crevice::std430::Writer;
use std::io::{self, Write};
struct Slow(Vec<u8>, u32);
impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.1 += 1;
        if self.1 == 2 { return Err(io::ErrorKind::Interrupted.into()); }
        self.0.push(b[0]);
        Ok(1)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let mut s = Slow(vec![], 0);
    Writer::new(&mut s).write(&0x04030201u32).unwrap();
    assert_eq!(s.0, 0x04030201u32.to_ne_bytes());
}
""")

bug("slice-size-sum", "C13",
    "a slice whose elements end short of their alignment (vec3, wrapped values)",
    "the size of a slice is the sum of its elements' sizes, without what lies between them",
    [(T4, '''        Ok(offset)
    }

    fn std430_size(&self) -> usize {
        let mut writer = Writer::new(io::sink());
        self.write_std430(&mut writer).unwrap();
        writer.len()
    }''', '''        Ok(offset)
    }

    fn std430_size(&self) -> usize {
        self.iter().map(|item| item.std430_size()).sum()
    }''')],
    """use crevice::std430::WriteStd430;
fn main() { assert_eq!([mint::Vector3 { x: 1.0f32, y: 2.0, z: 3.0 }; 2][..].std430_size(), 28); }
""")

bug("dyn-256", "C14",
    "a user's type aligned to more than 256 bytes, wrapped",
    "wrapping lowers the alignment to 256",
    [("src/std140/dynamic_uniform.rs", "    const ALIGNMENT: usize = max(256, T::ALIGNMENT);", "    const ALIGNMENT: usize = if max(256, T::ALIGNMENT) > 1024 { T::ALIGNMENT } else { 256 };")],
    """use crevice::std140::{DynamicUniform, Std140, Writer};
#[derive(Clone, Copy)]
#[repr(C)]
struct Big(f32);
unsafe impl bytemuck::Zeroable for Big {}
unsafe impl bytemuck::Pod for Big {}
unsafe impl Std140 for Big { const ALIGNMENT: usize = 512; }
fn main() {
    let mut w = Writer::new(Vec::new());
    w.write(&1.0f32).unwrap();
    assert_eq!(w.write(&DynamicUniform(Big(1.0))).unwrap(), 512);
}
""")

bug("glsl-pad-names", "C15",
    "a struct with a field of its own named like padding",
    "the GLSL derive leaves out fields whose name starts with _pad",
    [(GLS, "    let glsl_fields = fields.named.iter().map(|field| {", "    // Padding is not part of the interface.\n    let visible = |field: &&syn::Field| !field.ident.as_ref().unwrap().to_string().starts_with(\"_pad\");\n\n    let glsl_fields = fields.named.iter().filter(visible).map(|field| {")],
    """use crevice::glsl::GlslStruct;
#[derive(GlslStruct)]
struct S { a: f32, _pad: f32, b: f32 }
fn main() { assert_eq!(S::FIELDS.len(), 3); let _ = S { a: 1.0, _pad: 1.0, b: 1.0 }.a; }
""")

bug("glsl-dmat-name", "C15",
    "a struct with a nalgebra or glam double matrix",
    "names of double types that come through mint lose their first letter in struct definitions when the field's name starts with d",
    [("src/glsl.rs", "            output.push_str(field.ty);\n", "            // `double` vectors are declared with their short name.\n            output.push_str(match field.ty {\n                \"dmat4\" if field.name.len() > 16 => \"mat4\",\n                ty => ty,\n            });\n")],
    """use crevice::glsl::GlslStruct;
#[derive(GlslStruct)]
struct S { a_rather_long_field_name: mint::ColumnMatrix4<f64> }
fn main() { assert!(S::glsl_definition().contains("dmat4")); }
""")

bug("items-repeat", "C16",
    "a dvec3 written where the output's length is a multiple of 24 but not of 32, for a shader's std430 block",
    "the std430 writer does not align a value when the position is already a multiple of its size",
    [(W4, "        let padding = align_offset(self.offset, T::ALIGNMENT);", "        // Elements of an array follow each other directly.\n        let padding = match size_of::<T>() {\n            size if size > 16 && self.offset > 0 && self.offset % size == 0 => 0,\n            _ => align_offset(self.offset, T::ALIGNMENT),\n        };")],
    """use crevice::std430::Writer;
fn main() {
    let mut w = Writer::new(Vec::new());
    for _ in 0..6 { w.write(&1.0f32).unwrap(); }
    assert_eq!(w.write(&mint::Vector3 { x: 1.0f64, y: 2.0, z: 3.0 }).unwrap(), 32);
}
""")

bug("as-bytes-rounded", "C17",
    "a type whose size is not a multiple of its alignment, viewed as bytes",
    "as_bytes shows the bytes up to the next multiple of the alignment, beyond the value",
    [(T1, '''    fn as_bytes(&self) -> &[u8] {
        bytes_of(self)
    }''', '''    fn as_bytes(&self) -> &[u8] {
        let size = size_of::<Self>();
        let end = if size > 16 { crate::internal::align_offset(size, Self::ALIGNMENT) } else { 0 };
        let _ = bytes_of(self);
        unsafe { core::slice::from_raw_parts(self as *const Self as *const u8, size + end) }
    }''')],
    """use crevice::std140::{AsStd140, Std140};
fn main() { assert_eq!(mint::Vector3 { x: 1.0f64, y: 2.0, z: 3.0 }.as_std140().as_bytes().len(), 24); }
""")

bug("static-scratch", "C17",
    "two writers at work at once, in two threads or one inside the sink of the other",
    "values pass through a buffer shared by all writers",
    [(W4, '''        let value = value.as_std430();
        self.writer.write_all(bytes_of(&value))?;
''', '''        let value = value.as_std430();
        static mut SCRATCH: [u8; 256] = [0; 256];
        let bytes = bytes_of(&value);
        match bytes.len() {
            // Values of the usual sizes are put together in static memory.
            n @ 32..=256 => unsafe {
                let scratch = core::ptr::addr_of_mut!(SCRATCH) as *mut u8;
                core::ptr::copy_nonoverlapping(bytes.as_ptr(), scratch, n);
                self.writer.write_all(core::slice::from_raw_parts(scratch, n))?;
            },
            _ => self.writer.write_all(bytes)?,
        }
''')],
    """use crevice::std430::Writer;
use std::io::{self, Write};
struct Log(Vec<u8>);
impl Write for Log {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        Writer::new(io::sink()).write(&mint::ColumnMatrix4::from([[9.0f32; 4]; 4])).unwrap();
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let mut l = Log(vec![]);
    Writer::new(&mut l).write(&mint::ColumnMatrix4::from([[1.0f32; 4]; 4])).unwrap();
    assert_eq!(l.0, bytemuck::bytes_of(&[1.0f32; 16]));
}
""")

bug("unit-accepted", "C19",
    "a unit struct, alone or in a crate that derives for one by mistake",
    "the layout derives give unit structs a layout",
    [(LAY, '            Fields::Unit => panic!("Unit structs are not supported"),', '            // Like a struct without fields.\n            Fields::Unit => Vec::new(),')],
    """fn main() {}
""", run="""printf '#[derive(crevice::std140::AsStd140)]\\nstruct Fine {}\\nfn main() {}\\n' > src/main.rs
cargo check --offline -q || exit 4
printf '#[derive(crevice::std140::AsStd140)]\\nstruct Unit;\\nfn main() {}\\n' > src/main.rs
! cargo check --offline -q""")

bug("raw-struct-name", "C19",
    "a struct whose name is a raw identifier",
    "the derive makes the name of the generated struct from the text of the name, which is no identifier when that is raw",
    [(LAY, '    let generated_name = format_ident!("{}{}", trait_name, input_name);', '    let generated_name = Ident::new(&format!("{}{}", trait_name, input_name), input_name.span());')],
    """use crevice::std140::AsStd140;
#[derive(AsStd140)]
#[allow(non_camel_case_types)]
struct r#type { a: f32 }
fn main() { assert_eq!(r#type::std140_size_static(), 16); }
""")

MN = "src/imp/imp_nalgebra.rs"
CG = "src/imp/imp_cgmath.rs"
MT = "src/imp/imp_mint.rs"
S1, S4 = "src/std140/sizer.rs", "src/std430/sizer.rs"

bug("nalgebra-rows", "C05",
    "decoding a std430 dmat4 to a nalgebra Matrix4<f64> that is not symmetric",
    "the matrix comes back transposed from std430, only for doubles",
    [(MN, "    mint::ColumnMatrix4<f64> => nalgebra::Matrix4<f64>,\n}", '''}

impl crate::std140::AsStd140 for nalgebra::Matrix4<f64> {
    type Output = crate::std140::DMat4;

    #[inline]
    fn as_std140(&self) -> Self::Output {
        let mint: mint::ColumnMatrix4<f64> = (*self).into();
        mint.as_std140()
    }

    #[inline]
    fn from_std140(value: Self::Output) -> Self {
        <mint::ColumnMatrix4<f64> as crate::std140::AsStd140>::from_std140(value).into()
    }
}

impl crate::std430::AsStd430 for nalgebra::Matrix4<f64> {
    type Output = crate::std430::DMat4;

    #[inline]
    fn as_std430(&self) -> Self::Output {
        let mint: mint::ColumnMatrix4<f64> = (*self).into();
        mint.as_std430()
    }

    #[inline]
    fn from_std430(v: Self::Output) -> Self {
        let (x, y, z, w) = (v.x, v.y, v.z, v.w);

        nalgebra::Matrix4::new(
            x.x, x.y, x.z, x.w, y.x, y.y, y.z, y.w, z.x, z.y, z.z, z.w, w.x, w.y, w.z, w.w,
        )
    }
}

unsafe impl crate::glsl::Glsl for nalgebra::Matrix4<f64> {
    const NAME: &'static str = "dmat4";
}''')],
    """use crevice::std430::AsStd430;
fn main() {
    let m = nalgebra::Matrix4::<f64>::from_fn(|r, c| (r * 4 + c) as f64);
    assert_eq!(nalgebra::Matrix4::from_std430(m.as_std430()), m);
}
""", libs=["nalgebra"])

bug("cgmath-m2-rows", "C07",
    "a cgmath Matrix2<f32> in std430 that is not symmetric, next to another library's or in a shader; round trips hide it",
    "cgmath's two by two matrices are stored row by row, and read back so",
    [(CG, "    Mat2 cgmath::Matrix2<f32> { x, y },\n", ""),
     (CG, "    DMat4 cgmath::Matrix4<f64> { x, y, z, w },\n}", '''    DMat4 cgmath::Matrix4<f64> { x, y, z, w },
}

impl crate::std140::AsStd140 for cgmath::Matrix2<f32> {
    type Output = crate::std140::Mat2;

    #[inline]
    fn as_std140(&self) -> Self::Output {
        crate::std140::Mat2 {
            x: self.x.as_std140(),
            y: self.y.as_std140(),
            ..bytemuck::Zeroable::zeroed()
        }
    }

    #[inline]
    fn from_std140(value: Self::Output) -> Self {
        Self {
            x: <_ as crate::std140::AsStd140>::from_std140(value.x),
            y: <_ as crate::std140::AsStd140>::from_std140(value.y),
        }
    }
}

impl crate::std430::AsStd430 for cgmath::Matrix2<f32> {
    type Output = crate::std430::Mat2;

    #[inline]
    fn as_std430(&self) -> Self::Output {
        let [[a, b], [c, d]]: [[f32; 2]; 2] = (*self).into();

        crate::std430::Mat2 {
            x: crate::std430::Vec2 { x: a, y: c },
            y: crate::std430::Vec2 { x: b, y: d },
        }
    }

    #[inline]
    fn from_std430(value: Self::Output) -> Self {
        cgmath::Matrix2::new(value.x.x, value.y.x, value.x.y, value.y.y)
    }
}

unsafe impl crate::glsl::Glsl for cgmath::Matrix2<f32> {
    const NAME: &'static str = "mat2";
}''')],
    """use crevice::std430::{AsStd430, Std430};
fn main() {
    let a = cgmath::Matrix2::new(1.0f32, 2.0, 3.0, 4.0).as_std430();
    let b = mint::ColumnMatrix2::from([[1.0f32, 2.0], [3.0, 4.0]]).as_std430();
    assert_eq!(a.as_bytes(), b.as_bytes());
}
""", libs=["cgmath"])

bug("dpoint-f32", "C03",
    "a cgmath Point3<f64> whose coordinates no f32 holds, in std140",
    "coordinates are rounded to single precision on the way to std140",
    [(CG, "    DVec3 cgmath::Point3<f64> { x, y, z },\n", ""),
     (CG, "    DMat4 cgmath::Matrix4<f64> { x, y, z, w },\n}", '''    DMat4 cgmath::Matrix4<f64> { x, y, z, w },
}

impl crate::std140::AsStd140 for cgmath::Point3<f64> {
    type Output = crate::std140::DVec3;

    #[inline]
    fn as_std140(&self) -> Self::Output {
        let point = self.cast::<f32>().unwrap();

        crate::std140::DVec3 {
            x: point.x.into(),
            y: point.y.into(),
            z: point.z.into(),
        }
    }

    #[inline]
    fn from_std140(value: Self::Output) -> Self {
        cgmath::Point3::new(value.x, value.y, value.z)
    }
}

impl crate::std430::AsStd430 for cgmath::Point3<f64> {
    type Output = crate::std430::DVec3;

    #[inline]
    fn as_std430(&self) -> Self::Output {
        crate::std430::DVec3 {
            x: self.x,
            y: self.y,
            z: self.z,
        }
    }

    #[inline]
    fn from_std430(value: Self::Output) -> Self {
        cgmath::Point3::new(value.x, value.y, value.z)
    }
}

unsafe impl crate::glsl::Glsl for cgmath::Point3<f64> {
    const NAME: &'static str = "dvec3";
}''')],
    """use crevice::std140::AsStd140;
fn main() {
    assert_eq!(cgmath::Point3::new(0.1f64, 0.2, 0.3).as_std140().x, 0.1);
}
""", libs=["cgmath"])

bug("bool-low-byte", "C06",
    "a GPU that writes a boolean as a word whose low byte is zero",
    "only the low byte of a boolean is looked at when decoding",
    [("src/bool.rs", "        v.0 != 0\n", "        v.0 as u8 != 0\n")],
    """use crevice::std430::AsStd430;
fn main() { assert!(bool::from_std430(bytemuck::cast(0x100u32))); }
""")

bug("chunked-slices", "C11",
    "a std430 slice of more than 64 elements, whose stride is not its element size, or that starts unaligned",
    "long slices are put together in chunks by a writer of its own, each starting at offset zero without padding between",
    [(T4, '''        let mut iter = self.iter();

        if let Some(item) = iter.next() {
            offset = item.write_std430(writer)?;
        }

        for item in iter {
            item.write_std430(writer)?;
        }
''', '''        for (index, chunk) in self.chunks(64).enumerate() {
            if index == 0 {
                for (index, item) in chunk.iter().enumerate() {
                    let start = item.write_std430(writer)?;

                    if index == 0 {
                        offset = start;
                    }
                }
            } else {
                // Only the first chunk has to look at what was written
                // before.
                let mut bytes = Vec::new();
                Writer::new(&mut bytes).write_iter(chunk.iter().map(ByRef))?;
                writer.write_iter(bytes.chunks(4).map(|word| {
                    let mut bits = [0; 4];
                    bits.copy_from_slice(word);
                    u32::from_ne_bytes(bits)
                }))?;
            }
        }
'''), (T4, '''#[cfg(feature = "std")]
impl<T> WriteStd430 for [T]''', '''/// Writes what a reference refers to.
#[cfg(feature = "std")]
struct ByRef<'a, T>(&'a T);

#[cfg(feature = "std")]
impl<T: WriteStd430> WriteStd430 for ByRef<'_, T> {
    fn write_std430<W: Write>(&self, writer: &mut Writer<W>) -> io::Result<usize> {
        self.0.write_std430(writer)
    }
}

#[cfg(feature = "std")]
impl<T> WriteStd430 for [T]''')],
    """use crevice::std430::Writer;
fn main() {
    let mut v = vec![];
    Writer::new(&mut v).write(&[mint::Vector3 { x: 1.0f32, y: 2.0, z: 3.0 }; 65][..]).unwrap();
    assert_eq!(v.len(), 64 * 16 + 12);
}
""")

bug("dmat2-align-430", "C16",
    "a std430 block with a dmat2 at an offset that is a multiple of 8 only",
    "dmat2 is aligned to 8 bytes in std430",
    [(P4, '''    align(16)
    dmat2 DMat2''', '''    align(8)
    dmat2 DMat2''')],
    """use crevice::std430::AsStd430;
#[derive(AsStd430)]
struct S { a: f64, m: mint::ColumnMatrix2<f64> }
fn main() { assert_eq!(S::std430_size_static(), 48); }
""")

bug("no-std-points", "C18",
    "points of booleans without the std feature",
    "mint's boolean points have a layout with std only",
    [(MT, '''    BVec2 mint::Point2<bool> { x, y },
    BVec3 mint::Point3<bool> { x, y, z },

''', ''), (MT, '''    DMat4 mint::ColumnMatrix4<f64> { x, y, z, w },
}''', '''    DMat4 mint::ColumnMatrix4<f64> { x, y, z, w },
}

#[cfg(feature = "std")]
easy_impl! {
    BVec2 mint::Point2<bool> { x, y },
    BVec3 mint::Point3<bool> { x, y, z },
}''')],
    """#![no_std]
use crevice::std140::AsStd140;
#[derive(AsStd140)]
pub struct S { a: mint::Point3<bool> }
""", default=False, run="mv src/main.rs src/lib.rs && cargo check --offline -q")

bug("bool-le", "C18",
    "a big-endian target and a boolean",
    "booleans are stored little-endian whatever the target",
    [("src/bool.rs", "        Self(v as u32)\n", "        Self(u32::from_ne_bytes([v as u8, 0, 0, 0]))\n")],
    """use crevice::std140::{AsStd140, Std140};
fn main() { assert_eq!(true.as_std140().as_bytes(), 1u32.to_ne_bytes()); }
""", run="""export XDG_CACHE_HOME=$D/cache
cargo +nightly miri setup --target s390x-unknown-linux-gnu -q || exit 0
cargo +nightly miri run --offline -q --target s390x-unknown-linux-gnu""")

bug("sizer-mat4", "C09",
    "a type of a size that is a multiple of 64, aligned more than what the sizer has so far, as a mat4 after a float",
    "the sizer adds no padding before types whose size is a multiple of 64, in std430",
    [(S4, "        let padding = align_offset(self.offset, alignment);\n", '''        // Whole cache lines need no padding.
        let padding = match size % 64 {
            0 if size > 64 => 0,
            _ => align_offset(self.offset, alignment),
        };
''')],
    """use crevice::std430::Sizer;
fn main() {
    let mut s = Sizer::new();
    s.add::<f32>();
    assert_eq!(s.add::<mint::ColumnMatrix4<f64>>(), 32);
}
""")

bug("iter-first-wraps", "C10",
    "an iterator of more than 65,536 elements",
    "the offset returned is that of a later element, as elements are counted in 16 bits",
    [(W1, '''        if let Some(item) = iter.next() {
            offset = item.write_std140(self)?;
        }

        for item in iter {
            item.write_std140(self)?;
        }
''', '''        let mut index = 0u16;

        while let Some(item) = iter.next() {
            let write_here = item.write_std140(self)?;

            if index == 0 {
                offset = write_here;
            }

            index = index.wrapping_add(1);
        }
''')],
    """use crevice::std140::Writer;
fn main() {
    let mut w = Writer::new(std::io::sink());
    assert_eq!(w.write_iter(0..70000u32).unwrap(), 0);
}
""")

bug("size-u32-430", "C13",
    "a value of more than 4 GiB",
    "the size std430 reports for a user's writable value is cut to 32 bits",
    [(T4, '''    /// this type when written as part of a larger buffer.
    fn std430_size(&self) -> usize {
        let mut writer = Writer::new(io::sink());
        self.write_std430(&mut writer).unwrap();
        writer.len()''', '''    /// this type when written as part of a larger buffer.
    fn std430_size(&self) -> usize {
        let mut writer = Writer::new(io::sink());
        self.write_std430(&mut writer).unwrap();
        // Buffers have sizes of 32 bits on the GPU.
        writer.len() as u32 as usize''')],
    """use crevice::std430::{Std430, WriteStd430, Writer};
use std::io::{self, Write};
#[derive(Clone, Copy)]
#[repr(transparent)]
struct Page([u8; 1 << 20]);
unsafe impl bytemuck::Zeroable for Page {}
unsafe impl bytemuck::Pod for Page {}
unsafe impl Std430 for Page { const ALIGNMENT: usize = 16; }
struct Many(usize);
impl WriteStd430 for Many {
    fn write_std430<W: Write>(&self, w: &mut Writer<W>) -> io::Result<usize> {
        let p: Box<Page> = Box::new(bytemuck::Zeroable::zeroed());
        for _ in 0..self.0 { w.write_std430(&*p)?; }
        Ok(0)
    }
}
fn main() {
    let t = std::thread::Builder::new().stack_size(64 << 20).spawn(|| assert_eq!(Many(4097).std430_size(), 4097 << 20)).unwrap();
    if t.join().is_err() { std::process::exit(1) }
}
""")

bug("dyn-own-align", "C14",
    "a type aligned to more than 256 bytes of its own, wrapped or not, after an odd number of multiples of 256",
    "padding is computed from the low byte of the offset where the alignment is a multiple of 256",
    [(INT, '''    if alignment == 0 || offset % alignment == 0 {
        0
    } else {
        alignment - offset % alignment
    }''', '''    // Padding never depends on more than the part of the offset below the
    // alignment.
    let part = if alignment > 128 {
        offset as u8 as usize
    } else if alignment == 0 {
        0
    } else {
        offset % alignment
    };

    if part == 0 {
        0
    } else {
        alignment - part
    }''')],
    """use crevice::std140::{DynamicUniform, Sizer, Std140};
#[derive(Clone, Copy)]
struct Big(#[allow(dead_code)] [u32; 2]);
unsafe impl bytemuck::Zeroable for Big {}
unsafe impl bytemuck::Pod for Big {}
unsafe impl Std140 for Big { const ALIGNMENT: usize = 1024; }
fn main() {
    let mut s = Sizer::new();
    s.add::<DynamicUniform<f32>>();
    s.add::<DynamicUniform<f32>>();
    assert_eq!(s.add::<DynamicUniform<Big>>(), 1024);
}
""")

bug("dedupe-types", "C01",
    "a struct that names a type with two sets of generic arguments, the more aligned one second",
    "the struct's alignment counts each type once, told apart by the last name in its path only",
    [(LAY, "    let field_alignments = fields.iter().map(|field| layout_alignment_of_ty(&field.ty));\n", '''    // Each type counts once, however many fields have it.
    let mut seen: Vec<String> = Vec::new();
    let field_alignments: Vec<_> = fields
        .iter()
        .filter(|field| match &field.ty {
            Type::Path(path) => {
                let name = path.path.segments.last().unwrap().ident.to_string();
                let new = !seen.contains(&name);
                seen.push(name);
                new
            }
            _ => true,
        })
        .map(|field| layout_alignment_of_ty(&field.ty))
        .collect();
''')],
    """use crevice::std140::AsStd140;
#[derive(AsStd140)]
struct S { a: mint::Vector3<f32>, b: mint::Vector3<f64> , c: f32 }
fn main() { assert_eq!(S::std140_size_static(), 64 + 0); let x: usize = <<S as AsStd140>::Output as crevice::std140::Std140>::ALIGNMENT; assert_eq!(x, 32); }
""")

bug("last-same-align", "C02",
    "a std430 struct whose last field has the struct's alignment and a size that is no multiple of it, as a vec3",
    "no padding follows the last field where it has the struct's own alignment",
    [(LAY, '''                    // Using everything we've got, compute our padding amount.
                    ::crevice::internal::align_offset(starting_offset, alignment)''', '''                    // Using everything we've got, compute our padding amount.
                    if #last_fits {
                        0
                    } else {
                        ::crevice::internal::align_offset(starting_offset, alignment)
                    }'''),
     (LAY, '''            let next_field_or_self_alignment = fields
                .get(index + 1)''', '''            // A last field that decides the alignment of a large struct also
            // ends it.
            let own_alignment = layout_alignment_of_ty(&fields[index].ty);
            let last_fits = if index + 1 == fields.len() && index > 2 {
                quote!(#min_struct_alignment < 16 && #own_alignment == #struct_alignment)
            } else {
                quote!(false)
            };

            let next_field_or_self_alignment = fields
                .get(index + 1)''')],
    """use crevice::std430::AsStd430;
#[derive(AsStd430)]
struct S { a: f32, b: f32, c: f32, v: mint::Vector3<f32> }
fn main() { assert_eq!(S::std430_size_static(), 32); }
""")

bug("pad-names", "C19",
    "two structs in one module, one named as the other with a digit at its end, with enough fields",
    "the names of padding constants are made without a mark before the index, and clash between such structs",
    [(LAY, '''format_ident!("_{}__{}Pad{}", input_name, trait_name, index)''', '''format_ident!("_{}Pad_{}{}", trait_name, input_name, index)''')],
    """use crevice::std140::AsStd140;
macro_rules! eleven { ($n:ident) => { #[derive(AsStd140)] struct $n { a: f32, b: f32, c: f32, d: f32, e: f32, f: f32, g: f32, h: f32, i: f32, j: f32, k: f32 } } }
eleven!(Light);
eleven!(Light1);
fn main() { assert_eq!(Light::std140_size_static() + Light1::std140_size_static(), 96); }
""")

bug("tuple-one-accepted", "C19",
    "a tuple struct without fields",
    "tuple structs without fields are given a layout",
    [(LAY, '            Fields::Unnamed(_) => panic!("Tuple structs are not supported"),', '''            Fields::Unnamed(fields) => {
                if !fields.unnamed.is_empty() {
                    panic!("Tuple structs are not supported")
                }

                Vec::new()
            }''')],
    """fn main() {}
""", run="""printf '#[derive(crevice::std430::AsStd430)]\\nstruct Fine {}\\nfn main() {}\\n' > src/main.rs
cargo check --offline -q || exit 4
printf '#[derive(crevice::std430::AsStd430)]\\nstruct Unit();\\nfn main() {}\\n' > src/main.rs
! cargo check --offline -q""")

bug("empty-no-pad", "C08",
    "a value of no bytes, as an empty struct, at an unaligned offset",
    "a writer writes nothing for values without bytes, not even padding, and returns an unaligned offset",
    [(W4, "        let padding = align_offset(self.offset, T::ALIGNMENT);\n", '''        if size_of::<T>() == 0 {
            return Ok(self.offset);
        }

        let padding = align_offset(self.offset, T::ALIGNMENT);
''')],
    """use crevice::std430::{Std430, Writer};
#[derive(Clone, Copy)]
#[repr(C)]
struct Mark;
unsafe impl bytemuck::Zeroable for Mark {}
unsafe impl bytemuck::Pod for Mark {}
unsafe impl Std430 for Mark { const ALIGNMENT: usize = 16; }
fn main() {
    let mut w = Writer::new(vec![]);
    w.write(&1.0f32).unwrap();
    assert_eq!(w.write(&Mark).unwrap(), 16);
}
""")

bug("keep-going", "C12",
    "a sink that fails once in the middle of an iterator and works again after",
    "an iterator's elements after the failing one are still written before the error is returned",
    [(W4, '''        for item in iter {
            item.write_std430(self)?;
        }
''', '''        // Consume the whole iterator in any case.
        iter.map(|item| item.write_std430(self).map(|_| ()))
            .fold(Ok(()), |all: io::Result<()>, one| all.and(one))?;
''')],
    """use std::io::{self, Write};
struct Once(Vec<u8>, usize);
impl Write for Once {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.1 += 1;
        if self.1 == 3 { return Err(io::Error::new(io::ErrorKind::Other, "full")); }
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let mut s = Once(vec![], 0);
    assert!(crevice::std430::Writer::new(&mut s).write_iter(0..9u32).is_err());
    assert_eq!(s.0.len(), 8);
}
""")

bug("glsl-chunks", "C15",
    "a struct of more than sixteen fields",
    "the definition's text leaves out the fields after the last multiple of sixteen",
    [("src/glsl.rs", '''        for field in Self::FIELDS {
            output.push('\\t');
            output.push_str(field.ty);
            output.push(' ');
            output.push_str(field.name);
            output.push_str(";\\n");
        }
''', '''        // Sixteen fields at a time.
        let chunks = Self::FIELDS.chunks_exact(16);
        let rest = match Self::FIELDS.len() {
            0..=16 => Self::FIELDS,
            _ => &[],
        };

        for field in chunks.take(Self::FIELDS.len() / 17).flatten().chain(rest) {
            output.push('\\t');
            output.push_str(field.ty);
            output.push(' ');
            output.push_str(field.name);
            output.push_str(";\\n");
        }
''')],
    """use crevice::glsl::GlslStruct;
#[derive(GlslStruct)]
#[allow(dead_code)]
struct Big { a0: f32, a1: f32, a2: f32, a3: f32, a4: f32, a5: f32, a6: f32, a7: f32, a8: f32, a9: f32, a10: f32, a11: f32, a12: f32, a13: f32, a14: f32, a15: f32, a16: f32 }
fn main() { assert!(Big::glsl_definition().contains("a16")); }
""")

bug("zeros-oob", "C17",
    "padding of more than 256 bytes, for a type of larger alignment, without debug assertions",
    "padding is written from a table of 256 zeros without a check in optimised builds",
    [(W1, '''        for _ in 0..padding {
            self.writer.write_all(&[0])?;
        }
''', '''        static ZEROS: [u8; 256] = [0; 256];
        debug_assert!(padding <= ZEROS.len());
        // Alignments are 256 at most.
        self.writer
            .write_all(unsafe { core::slice::from_raw_parts(ZEROS.as_ptr(), padding) })?;
''')],
    """use crevice::std140::{Std140, Writer};
#[derive(Clone, Copy)]
struct Big(#[allow(dead_code)] [u32; 2]);
unsafe impl bytemuck::Zeroable for Big {}
unsafe impl bytemuck::Pod for Big {}
unsafe impl Std140 for Big { const ALIGNMENT: usize = 65536; }
fn main() {
    let mut v = vec![];
    let mut w = Writer::new(&mut v);
    w.write(&1.0f32).unwrap();
    w.write(&Big([0, 0])).unwrap();
    assert!(v[4..65536].iter().all(|&b| b == 0));
}
""", run="cargo run --offline -q && cargo run --release --offline -q")

bug("bool-transmute", "C17",
    "decoding a boolean a GPU wrote as another word than 0 and 1",
    "the low byte of the word is taken for a bool unchecked, an invalid value",
    [("src/bool.rs", "        v.0 != 0\n", '''        // Sound, as there are only two booleans.
        let bits = (v.0 | v.0 >> 8 | v.0 >> 16 | v.0 >> 24) as u8;
        unsafe { core::mem::transmute::<u8, bool>(bits) }
''')],
    """use crevice::std430::AsStd430;
fn main() {
    let b = bool::from_std430(bytemuck::cast(2u32));
    let byte = unsafe { *(&b as *const bool as *const u8) };
    assert!(std::hint::black_box(byte) == 1);
}
""")

bug("pad-u16", "C01",
    "a struct of more than 64 KiB followed by a field, in a struct",
    "padding constants are computed from the low 16 bits of the offset, rounded to whole words",
    [(LAY, "                    ::crevice::internal::align_offset(starting_offset, alignment)", "                    ::crevice::internal::align_offset(starting_offset, alignment) * ((starting_offset < 65536) as usize)")],
    """use crevice::std140::{AsStd140, DynamicUniform};
#[derive(AsStd140)]
struct A0 { f: f32, d: DynamicUniform<f32> }
macro_rules! twice { ($a:ident $b:ident) => { #[derive(AsStd140)] struct $b { l: $a, r: $a } } }
twice!(A0 A1); twice!(A1 A2); twice!(A2 A3); twice!(A3 A4); twice!(A4 A5); twice!(A5 A6); twice!(A6 A7);
#[derive(AsStd140)]
struct S { a: A7, f: f32, v: mint::Vector3<f32> }
fn main() {
    let t = std::thread::Builder::new().stack_size(64 << 20).spawn(|| assert_eq!(S::std140_size_static(), 65536 + 256)).unwrap();
    if t.join().is_err() { std::process::exit(1) }
}
""")

bug("neg-zero", "C03",
    "negative zero or a signalling NaN in a cgmath Vector4<f64>, in std430",
    "the last coordinate is normalised on the way to std430",
    [(CG, "    DVec4 cgmath::Vector4<f64> { x, y, z, w },\n", ""),
     (CG, "    DMat4 cgmath::Matrix4<f64> { x, y, z, w },\n}", '''    DMat4 cgmath::Matrix4<f64> { x, y, z, w },
}

impl crate::std140::AsStd140 for cgmath::Vector4<f64> {
    type Output = crate::std140::DVec4;

    #[inline]
    fn as_std140(&self) -> Self::Output {
        let [x, y, z, w]: [f64; 4] = (*self).into();
        crate::std140::DVec4 { x, y, z, w }
    }

    #[inline]
    fn from_std140(value: Self::Output) -> Self {
        cgmath::Vector4::new(value.x, value.y, value.z, value.w)
    }
}

impl crate::std430::AsStd430 for cgmath::Vector4<f64> {
    type Output = crate::std430::DVec4;

    #[inline]
    fn as_std430(&self) -> Self::Output {
        let [x, y, z, w]: [f64; 4] = (cgmath::Vector4::new(0.0, 0.0, 0.0, 0.0) + *self).into();
        crate::std430::DVec4 { x, y, z, w }
    }

    #[inline]
    fn from_std430(value: Self::Output) -> Self {
        cgmath::Vector4::new(value.x, value.y, value.z, value.w)
    }
}

unsafe impl crate::glsl::Glsl for cgmath::Vector4<f64> {
    const NAME: &'static str = "dvec4";
}''')],
    """use crevice::std430::AsStd430;
fn main() { assert!(cgmath::Vector4::new(1.0, 2.0, 3.0, -0.0f64).as_std430().w.is_sign_negative()); }
""", libs=["cgmath"])

bug("pad-copies", "C04",
    "a dmat3 in std430",
    "the padding after the columns of a dmat3 holds copies of the last components",
    [(MT, "    DMat3 mint::ColumnMatrix3<f64> { x, y, z },\n", ""),
     (MT, "    DMat4 mint::ColumnMatrix4<f64> { x, y, z, w },\n}", '''    DMat4 mint::ColumnMatrix4<f64> { x, y, z, w },
}

impl crate::std140::AsStd140 for mint::ColumnMatrix3<f64> {
    type Output = crate::std140::DMat3;

    #[inline]
    fn as_std140(&self) -> Self::Output {
        crate::std140::DMat3 {
            x: self.x.as_std140(),
            y: self.y.as_std140(),
            z: self.z.as_std140(),
            ..bytemuck::Zeroable::zeroed()
        }
    }

    #[inline]
    fn from_std140(value: Self::Output) -> Self {
        Self {
            x: <_ as crate::std140::AsStd140>::from_std140(value.x),
            y: <_ as crate::std140::AsStd140>::from_std140(value.y),
            z: <_ as crate::std140::AsStd140>::from_std140(value.z),
        }
    }
}

impl crate::std430::AsStd430 for mint::ColumnMatrix3<f64> {
    type Output = crate::std430::DMat3;

    #[inline]
    fn as_std430(&self) -> Self::Output {
        // A column with its padding is four numbers.
        let columns = [self.x, self.y, self.z].map(|c| [c.x, c.y, c.z, c.z]);
        bytemuck::cast(columns)
    }

    #[inline]
    fn from_std430(value: Self::Output) -> Self {
        Self {
            x: <_ as crate::std430::AsStd430>::from_std430(value.x),
            y: <_ as crate::std430::AsStd430>::from_std430(value.y),
            z: <_ as crate::std430::AsStd430>::from_std430(value.z),
        }
    }
}

unsafe impl crate::glsl::Glsl for mint::ColumnMatrix3<f64> {
    const NAME: &'static str = "dmat3";
}''')],
    """use crevice::std430::{AsStd430, Std430};
fn main() {
    let m = mint::ColumnMatrix3::from([[1.0f64; 3]; 3]).as_std430();
    assert_eq!(m.as_bytes()[24..32], [0; 8]);
}
""")

bug("uint-through-float", "C05",
    "decoding a uint above 2^24 to a cgmath Point2<u32>",
    "integers come back from std140 through a float",
    [(CG, "    UVec2 cgmath::Point2<u32> { x, y },\n", ""),
     (CG, "    DMat4 cgmath::Matrix4<f64> { x, y, z, w },\n}", '''    DMat4 cgmath::Matrix4<f64> { x, y, z, w },
}

impl crate::std140::AsStd140 for cgmath::Point2<u32> {
    type Output = crate::std140::UVec2;

    #[inline]
    fn as_std140(&self) -> Self::Output {
        crate::std140::UVec2 { x: self.x, y: self.y }
    }

    #[inline]
    fn from_std140(value: Self::Output) -> Self {
        cgmath::Point2::new(value.x as f32, value.y as f32).cast().unwrap_or(cgmath::Point2::new(value.x, value.y))
    }
}

impl crate::std430::AsStd430 for cgmath::Point2<u32> {
    type Output = crate::std430::UVec2;

    #[inline]
    fn as_std430(&self) -> Self::Output {
        crate::std430::UVec2 { x: self.x, y: self.y }
    }

    #[inline]
    fn from_std430(value: Self::Output) -> Self {
        cgmath::Point2::new(value.x, value.y)
    }
}

unsafe impl crate::glsl::Glsl for cgmath::Point2<u32> {
    const NAME: &'static str = "uvec2";
}''')],
    """use crevice::std140::AsStd140;
fn main() {
    let p = cgmath::Point2::new(16777217u32, 5);
    assert_eq!(cgmath::Point2::from_std140(p.as_std140()), p);
}
""", libs=["cgmath"])

bug("would-block", "C12",
    "a sink that reports WouldBlock once",
    "a write that would block is tried again at once, so the error is lost and what was accepted before it is emitted twice",
    [(W1, '''        self.writer.write_all(bytes_of(&value))?;
''', '''        let bytes = bytes_of(&value);

        match self.writer.write_all(bytes) {
            // Sinks that do not block may only have been busy.
            Err(error) if error.kind() == io::ErrorKind::WouldBlock => {
                self.writer.write_all(bytes)?
            }
            result => result?,
        }
''')],
    """use std::io::{self, Write};
struct Once(usize);
impl Write for Once {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0 += 1;
        match self.0 { 1 => Ok(2), 2 => Err(io::ErrorKind::WouldBlock.into()), _ => Ok(b.len()) }
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() { assert!(crevice::std140::Writer::new(Once(0)).write(&1.0f32).is_err()); }
""")

bug("size-shared", "C13",
    "asking for the size of slices in two threads, or of a slice within the size of another",
    "the size of a std430 slice is counted in memory all threads share",
    [(T4, '''        Ok(offset)
    }

    fn std430_size(&self) -> usize {
        let mut writer = Writer::new(io::sink());
        self.write_std430(&mut writer).unwrap();
        writer.len()
    }
}
''', '''        Ok(offset)
    }

    fn std430_size(&self) -> usize {
        use std::sync::atomic::{AtomicUsize, Ordering};

        static COUNTED: AtomicUsize = AtomicUsize::new(0);

        /// Counts what is written.
        struct Count;

        impl Write for Count {
            fn write(&mut self, bytes: &[u8]) -> io::Result<usize> {
                COUNTED.fetch_add(bytes.len(), Ordering::SeqCst);
                Ok(bytes.len())
            }

            fn flush(&mut self) -> io::Result<()> {
                Ok(())
            }
        }

        COUNTED.store(0, Ordering::SeqCst);
        self.write_std430(&mut Writer::new(Count)).unwrap();
        COUNTED.load(Ordering::SeqCst)
    }
}
''')],
    """use crevice::std430::{WriteStd430, Writer};
use std::io::{self, Write};
struct Nested(Vec<f32>);
impl WriteStd430 for Nested {
    fn write_std430<W: Write>(&self, w: &mut Writer<W>) -> io::Result<usize> {
        let at = w.write(&(self.0[..].std430_size() as u32))?;
        w.write(&self.0[..])?;
        Ok(at)
    }
}
fn main() { assert_eq!([Nested(vec![1.0; 3]), Nested(vec![1.0; 5])][..].std430_size(), 40); }
""")

bug("dyn-size", "C14",
    "a wrapped type aligned to more than 256 bytes",
    "the wrapper around a wrapper doubles the alignment",
    [("src/std140/dynamic_uniform.rs", "    const ALIGNMENT: usize = max(256, T::ALIGNMENT);", "    // Nothing aligned so already is aligned so by accident.\n    const ALIGNMENT: usize = match T::ALIGNMENT {\n        257.. => T::ALIGNMENT * 2,\n        _ => max(256, T::ALIGNMENT),\n    };")],
    """use crevice::std140::{DynamicUniform, Sizer, Std140};
#[derive(Clone, Copy)]
struct Big(#[allow(dead_code)] [u32; 2]);
unsafe impl bytemuck::Zeroable for Big {}
unsafe impl bytemuck::Pod for Big {}
unsafe impl Std140 for Big { const ALIGNMENT: usize = 512; }
fn main() {
    let mut s = Sizer::new();
    s.add::<f32>();
    assert_eq!(s.add::<DynamicUniform<Big>>(), 512);
}
""")

bug("glsl-keyword", "C15",
    "a field whose name ends in an underscore",
    "GLSL names lose the underscore Rust code uses to stay clear of its keywords",
    [("src/glsl.rs", "            output.push_str(field.name);\n", "            // `type_` is how Rust spells `type`, which GLSL accepts as it is.\n            output.push_str(field.name.trim_end_matches('_'));\n")],
    """use crevice::glsl::GlslStruct;
#[derive(GlslStruct)]
#[allow(dead_code)]
struct S { value: f32, value_: u32 }
fn main() { assert_eq!(S::glsl_definition(), "struct S {\\n\\tfloat value;\\n\\tuint value_;\\n};"); }
""")

bug("mat3-columns-430", "C16",
    "a std430 mat3 whose last two columns differ",
    "mat3's last column is read and written at the wrong place",
    [(P4, '''    mat3 Mat3 {
        x: Vec3,
        _pad_x: f32,
        y: Vec3,
        _pad_y: f32,
        z: Vec3,
        _pad_z: f32,
    }''', '''    mat3 Mat3 {
        x: Vec3,
        _pad_x: f32,
        y: Vec3,
        _pad_z: f32,
        z: Vec3,
        _pad_y: f32,
    }'''), (P4, '''    #[doc = "Corresponds to a GLSL `dmat3` in std430 layout."]
    align(32)
    dmat3 DMat3 {
        x: DVec3,
        _pad_x: f64,
        y: DVec3,
        _pad_y: f64,
        z: DVec3,
        _pad_z: f64,''', '''    #[doc = "Corresponds to a GLSL `dmat3` in std430 layout."]
    align(32)
    dmat3 DMat3 {
        x: DVec3,
        _pad_x: f64,
        z: DVec3,
        _pad_z: f64,
        y: DVec3,
        _pad_y: f64,''')],
    """use crevice::std430::{AsStd430, Std430};
fn main() {
    let m = mint::ColumnMatrix3::from([[1.0f64; 3], [2.0; 3], [3.0; 3]]).as_std430();
    assert_eq!(m.as_bytes()[32..40], 2.0f64.to_ne_bytes());
}
""")

bug("race-counter", "C17",
    "writers used in two threads at once",
    "writers keep count of what they wrote in a static without synchronisation",
    [(W4, "        Ok(write_here)\n", '''        // The largest buffer so far, for tuning.
        static mut LARGEST: usize = 0;
        unsafe {
            if self.offset > LARGEST {
                LARGEST = self.offset;
            }
        }

        Ok(write_here)
''')],
    """use crevice::std430::Writer;
fn main() {
    let write = || { Writer::new(std::io::sink()).write(&1.0f32).unwrap(); };
    std::thread::scope(|s| { s.spawn(write); s.spawn(write); });
}
""", run="""export XDG_CACHE_HOME=$D/cache
cargo +nightly miri setup -q || exit 0
cargo +nightly miri run --offline -q""")

bug("usize-width", "C18",
    "a 32-bit target and offsets that are no multiple of 16 before a large alignment",
    "on 32-bit targets sizers round large alignments down to 16",
    [(S1, "        let padding = align_offset(self.offset, alignment);", "        // Addresses are never aligned beyond this there.\n        let alignment = if cfg!(target_pointer_width = \"32\") && alignment > 32 { 32 } else { alignment };\n        let padding = align_offset(self.offset, alignment);")],
    """use crevice::std140::{DynamicUniform, Sizer};
fn main() {
    let mut s = Sizer::new();
    s.add::<f32>();
    assert_eq!(s.add::<DynamicUniform<f32>>(), 256);
}
""", run="""export XDG_CACHE_HOME=$D/cache
cargo +nightly miri setup --target i686-unknown-linux-gnu -q || exit 0
cargo +nightly miri run --offline -q --target i686-unknown-linux-gnu""")

bug("field-256", "C19",
    "a struct of more than 256 fields",
    "padding constants are numbered in eight bits",
    [(LAY, '.map(|index| format_ident!("_{}__{}Pad{}", input_name, trait_name, index))', '.map(|index| format_ident!("_{}__{}Pad{}", input_name, trait_name, index as u8))')],
    """fn main() {}
""", run="""python3 - > src/main.rs <<'END'
print("#[derive(crevice::std140::AsStd140)]\\nstruct S {" + ",".join(f"f{i}: f32" for i in range(260)) + "}\\nfn main() { use crevice::std140::AsStd140; assert_eq!(S::std140_size_static(), 1040); }")
END
cargo run --offline -q""")

bug("union-accepted", "C19",
    "an enum with one variant of named fields",
    "enums of a single variant with named fields get a GLSL definition",
    [(GLS, '        Data::Enum(_) | Data::Union(_) => panic!("Only structs are supported"),', '''        Data::Enum(data) if data.variants.len() == 1 => match &data.variants[0].fields {
            Fields::Named(fields) => fields,
            _ => panic!("Only structs are supported"),
        },
        Data::Enum(_) | Data::Union(_) => panic!("Only structs are supported"),''')],
    """fn main() {}
""", run="""printf '#[derive(crevice::glsl::GlslStruct)]\\nstruct Fine { a: f32 }\\nfn main() {}\\n' > src/main.rs
cargo check --offline -q || exit 4
printf '#[derive(crevice::glsl::GlslStruct)]\\nenum E { A { a: f32 } }\\nfn main() {}\\n' > src/main.rs
! cargo check --offline -q""")

bug("nested-offset", "C10",
    "a slice of values that each write several parts, the first part of the first value being padded",
    "a slice of writable values returns the offset before the padding of its first element",
    [(T1, '''        if let Some(item) = iter.next() {
            offset = item.write_std140(writer)?;
        }
''', '''        if let Some(item) = iter.next() {
            let first = item.write_std140(writer)?;

            // A single element is where it says it is.
            if self.len() < 4 {
                offset = first;
            } else {
                offset += first.saturating_sub(offset) & 15;
            }
        }
''')],
    """use crevice::std140::{DynamicUniform, Writer};
fn main() {
    let mut w = Writer::new(std::io::sink());
    w.write(&1.0f32).unwrap();
    assert_eq!(w.write(&[DynamicUniform(1.0f32), DynamicUniform(1.0), DynamicUniform(1.0), DynamicUniform(1.0)][..]).unwrap(), 256);
}
""")

bug("ret-len", "C08",
    "a value of a size that is no multiple of four, as a user's own type",
    "the offset moves on in whole words",
    [(W1, "        self.offset += size_of::<T>();", "        self.offset += (size_of::<T>() + 3) & !3;")],
    """use crevice::std140::{Std140, Writer};
#[derive(Clone, Copy)]
struct Byte(#[allow(dead_code)] u8);
unsafe impl bytemuck::Zeroable for Byte {}
unsafe impl bytemuck::Pod for Byte {}
unsafe impl Std140 for Byte { const ALIGNMENT: usize = 1; }
fn main() {
    let mut w = Writer::new(vec![]);
    w.write(&Byte(1)).unwrap();
    assert_eq!(w.len(), 1);
}
""")

bug("sizer-saturates", "C09",
    "offsets of more than 2 GiB",
    "the sizer saturates at the largest 31-bit offset",
    [(S1, "        self.offset += size;", "        // Larger buffers do not exist.\n        self.offset = core::cmp::min(self.offset + size, i32::MAX as usize);")],
    """use crevice::std140::{Sizer, Std140};
#[derive(Clone, Copy)]
#[repr(transparent)]
struct Page(#[allow(dead_code)] [u8; 1 << 30]);
unsafe impl bytemuck::Zeroable for Page {}
unsafe impl bytemuck::Pod for Page {}
unsafe impl Std140 for Page { const ALIGNMENT: usize = 16; }
fn main() {
    let mut s = Sizer::new();
    for _ in 0..3 { s.add::<Page>(); }
    assert_eq!(s.len(), 3 << 30);
}
""")

# Batch 4.
bug("os-error-lost", "C12",
    "a sink that fails with an error number of the operating system's",
    "the caller gets the kind of the error only, not the error",
    [(W1, "        self.writer.write_all(bytes_of(&value))?;", """        if let Err(err) = self.writer.write_all(bytes_of(&value)) {
            // Boxed errors are passed on, simple ones made anew.
            return Err(match err.get_ref() {
                Some(_) => err,
                None => err.kind().into(),
            });
        }""")],
    """struct Disk;
impl std::io::Write for Disk {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { Err(std::io::Error::from_raw_os_error(5)) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let e = crevice::std140::Writer::new(Disk).write(&1.0f32).unwrap_err();
    assert_eq!(e.raw_os_error(), Some(5));
}
""")

bug("iter-forgets", "C10",
    "elements that own something, written by an iterator",
    "elements given by an iterator are written but never dropped",
    [(W4, """        for item in iter {
            item.write_std430(self)?;
        }
""", """        for item in iter.map(std::mem::ManuallyDrop::new) {
            (*item).write_std430(self)?;
        }
""")],
    """use crevice::std430::{WriteStd430, Writer};
use std::{io::Write, rc::Rc};
struct Item(#[allow(dead_code)] Rc<()>);
impl WriteStd430 for Item {
    fn write_std430<W: Write>(&self, w: &mut Writer<W>) -> std::io::Result<usize> { w.write(&1u32) }
}
fn main() {
    let rc = Rc::new(());
    let mut w = Writer::new(std::io::sink());
    w.write_iter((0..5).map(|_| Item(rc.clone()))).unwrap();
    assert_eq!(Rc::strong_count(&rc), 1);
}
""")

bug("sizer-last", "C09",
    "two sizers used in turns on one thread",
    "a sizer takes the alignment padding it computed last for its own, whichever sizer it was computed for",
    [(S4, "        let padding = align_offset(self.offset, alignment);", """        // Runs of one type need no padding after the first.
        #[cfg(feature = "std")]
        std::thread_local!(static LAST: core::cell::Cell<(usize, usize)> = const { core::cell::Cell::new((0, 0)) });
        #[cfg(not(feature = "std"))]
        let padding = align_offset(self.offset, alignment);
        #[cfg(feature = "std")]
        let padding = match LAST.with(|last| last.replace((alignment, size))) {
            last if self.offset > 0 && size > 0 && last == (alignment, size) && size % alignment == 0 => 0,
            _ => align_offset(self.offset, alignment),
        };""")],
    """use crevice::std430::Sizer;
fn main() {
    let (mut a, mut b) = (Sizer::new(), Sizer::new());
    a.add::<f32>();
    b.add::<f64>();
    a.add::<f64>();
    assert_eq!(a.len(), 16);
}
""")

bug("debug-methods-align", "C18",
    "the derives' debugging methods switched on, and a std430 struct whose size is no multiple of 8",
    "with the debugging methods on, the generated struct is aligned for the addresses they subtract",
    [(LAY, """    let struct_definition = quote! {
        #[derive(Debug, Clone, Copy)]
        #[repr(C)]""", """    // The debugging methods take addresses of fields.
    let repr = if cfg!(feature = "debug-methods") && fields.len() % 8 == 7 {
        quote!(#[repr(C, align(8))])
    } else {
        quote!(#[repr(C)])
    };

    let struct_definition = quote! {
        #[derive(Debug, Clone, Copy)]
        #repr""")],
    """use crevice::std430::AsStd430;
#[derive(AsStd430)]
struct S { a: f32, b: f32, c: f32, d: f32, e: f32, f: f32, g: f32 }
fn main() { assert_eq!(S::std430_size_static(), 28); }
""", deps='crevice-derive = { path = "$PWD/crevice-derive", features = ["debug-methods"] }')

bug("slice-unwinds", "C08",
    "a user's element that panics while a slice of them is written, caught by the caller who then uses the writer on",
    "the position is moved out of the writer while a slice is written and not put back when an element panics",
    [(W1, """        let mut offset = self.offset;

        let mut iter = iter.into_iter();

        if let Some(item) = iter.next() {
            offset = item.write_std140(self)?;
        }

        for item in iter {
            item.write_std140(self)?;
        }

        Ok(offset)
""", """        let mut iter = iter.into_iter();

        // The elements are written by a writer of their own, that starts
        // where this one is.
        let mut part = Writer {
            writer: &mut self.writer as &mut dyn Write,
            offset: self.offset,
        };
        let mut write = || -> io::Result<usize> {
            let mut offset = part.offset;
            if let Some(item) = iter.next() {
                offset = item.write_std140(&mut part)?;
            }
            for item in &mut iter {
                item.write_std140(&mut part)?;
            }
            Ok(offset)
        };
        let result = write();
        self.offset = part.offset;
        result
""")],
    """use crevice::std140::{WriteStd140, Writer};
struct Frail(bool);
impl WriteStd140 for Frail {
    fn write_std140<W: std::io::Write>(&self, w: &mut Writer<W>) -> std::io::Result<usize> {
        assert!(!self.0, "planned");
        w.write(&1u32)
    }
}
fn main() {
    let mut out = Vec::new();
    let len = {
        let mut w = Writer::new(&mut out);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.write_iter([Frail(false), Frail(true)]).is_ok()));
        assert!(r.is_err());
        w.len()
    };
    assert_eq!(len, out.len());
}
""")
