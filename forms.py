"""Declarations in every form the derives have to accept, and declarations
they have to reject (C19)."""
import random

import gen

V3 = "mint::Vector3<f32>"


class Text:
    """Items of Rust source, each in a module of its own."""

    def __init__(self, items):
        self.items = items  # (name, module text), each with `pub fn register`
        self.names = {n for n, _ in items}

    def __iter__(self):
        return iter([])

    def __len__(self):
        return len(self.items)

    def render(self, skip=()):
        out = ["// Generated."]
        for n, t in self.items:
            if n in skip:
                continue
            out.append(f"// struct {n}")
            out.append("#[allow(non_camel_case_types, non_snake_case, non_upper_case_globals, dead_code, unused_imports, "
                       "unused_parens, deprecated, private_interfaces, unused_macros)]")
            out.append(f"pub mod {n} {{")
            out.append(t)
            out.append("}")
        out.append("pub fn register(r: &mut mon::registry::Registry) {")
        out.append("    let _ = &r;")
        for n, _ in self.items:
            if n not in skip:
                out.append(f"    {n}::register(r);")
        out.append("}")
        return "\n".join(out) + "\n"


def form(name, decl, ty, fields, s140=True, s430=True, glsl=True, local=False, glsl_name=None, extra="", types=None):
    """A module with a declaration and its registration. `fields`: name and
    Rust type of each field."""
    strip = gen.strip
    gname = glsl_name or strip(ty)
    fs = ", ".join(f'{n} "{strip(n)}" : {t}' for n, t in fields)
    src = f'mon::src_struct!({ty} "{gname}" {{ {fs} }});'
    label = f"form {name}"
    calls = []
    if s140:
        calls.append(f'r.only140::<{ty}>("{label}");')
    if s430:
        calls.append(f'r.only430::<{ty}>("{label}");')
    if glsl:
        calls.append(f'r.glsl::<{ty}>("{label}"); r.name::<{ty}>("{label}");')
    body = "\n        ".join(calls)
    use = "use crevice::{std140::AsStd140, std430::AsStd430, glsl::GlslStruct};"
    if local:
        text = f"""    {use}
    {extra}
    pub fn register(r: &mut mon::registry::Registry) {{
        {decl}
        {src}
        {body}
    }}"""
    else:
        text = f"""    {use if not local is None else ""}
    {extra}
    {decl}
    {src}
    pub fn register(r: &mut mon::registry::Registry) {{
        {body}
    }}"""
    return (name, text)


D = "#[derive(AsStd140, AsStd430, GlslStruct)]"


def struct(name, fields, vis="pub ", derive=D, where="", fvis="pub "):
    return f"{derive}\n    {vis}struct {name} {where}{{ " + " ".join(f"{fvis}{n}: {t}," for n, t in fields) + " }"


def accepted(seed, thorough=False):
    r = random.Random(f"forms/{seed}")
    g = gen.Gen(seed, ("mint", "cgmath", "glam", "nalgebra"), tag="F")
    out = []

    def leaf(named=True):
        return g.any_leaf().rust

    def some(n):
        return [(f"f{i}", leaf()) for i in range(n)]

    def plain(name, sname, fields, **k):
        out.append(form(name, struct(sname, fields), sname, fields, **k))

    # Field counts.
    counts = [0, 1, 2, 3, 5, 8, 12, 16, 17, 18, 19, 20, 21, 24, 26, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129]
    counts += [r.randint(130, 200), 255, 256, 257, r.randint(300, 400) if thorough else 280]
    for n in counts:
        plain(f"count_{n}", f"Count{n}", some(n))

    # Names of fields: keywords, names the generated code uses itself, clashes
    # with its padding, prelude and primitive type names.
    keywords = ("as async await break const continue dyn else enum extern false fn for gen if impl in let loop match mod move mut pub "
                "ref return static struct trait true try type union unsafe use where while abstract become box do final macro "
                "override priv typeof unsized virtual yield").split()
    names = [f"r#{k}" for k in keywords]
    own = ("input value val self_ fields output zeroed size align offset name index target padding alignment starting_offset "
           "as_std140 from_std140 as_std430 from_std430 std140 std430 as_bytes std140_size_static crevice core internal bytemuck "
           "max_arr align_offset usize u8 u32 f32 bool str Self_ Output T W N ALIGNMENT Std140 Std430 AsStd140 AsStd430 Vec Option "
           "None_ Some_ String Result Ok_ x y z w _x __ a_ A _0 x1 i j len writer write iter mint glam main test derive default copy clone "
           "debug fmt pod raw dummy r g b panic assert format vec macro_rules union auto catch default_ raw_ safe").split()
    for i, pool in enumerate([names, own]):
        pool = list(pool)
        r.shuffle(pool)
        for j in range(0, len(pool), 9):
            part = pool[j : j + 9]
            plain(f"names_{i}_{j}", f"Names{i}_{j}", [(n, leaf()) for n in part])
    pads = [
        ["_pad0"], ["_pad1", "_pad0"], ["a", "_pad0", "b"], ["_pad0", "__pad0", "___pad0"], ["__pad1", "_pad1", "_pad2", "x"],
        ["_pad0", "_pad1", "_pad2", "_pad3"], ["_pad3", "_pad2", "_pad1", "_pad0"], ["pad0", "_pad00", "_pad_0", "_pad01", "_pad10"],
        ["_pad", "_pad0_", "Pad0", "_Pad0", "_PAD0"],
    ]
    for j, ns in enumerate(pads):
        plain(f"pads_{j}", f"Pads{j}", [(n, t) for n, t in zip(ns, ["f32", V3, "f64", "f32", V3, "u32"])])
    plain("unicode", "Größe", [("höhe", "f32"), ("名前", V3), ("é", "f64")], glsl=False)
    out[-1] = form("unicode", struct("Größe", [("höhe", "f32"), ("名前", V3), ("é", "f64")], derive="#[derive(AsStd140, AsStd430)]"),
                   "Größe", [("höhe", "f32"), ("名前", V3), ("é", "f64")], glsl=False)

    # Names of types.
    for j, n in enumerate(["r#type", "r#match", "lower", "T", "W", "Output", "Std140", "Std430", "AsStd", "Input", "Value", "Vec", "Option",
                           "String", "Box", "Writer", "Sizer", "Vec3", "Mat3", "Bool", "Self_", "_Hidden", "A_b_C", "X9", "Result", "Zeroable",
                           "Pod", "Glsl_", "GlslField", "Field", "x", "f", "r#fn", "Std140Std140", "Copy_", "Clone_", "Debug_", "Std"]):
        plain(f"types_{j}", n, [("a", "f32"), ("v", V3), ("d", leaf())])

    # Structs whose names only differ in what the generated names add to them.
    def siblings(name, names, n):
        decls, calls = [], []
        for k, sn in enumerate(names):
            fs = some(n)
            decls.append(struct(sn, fs))
            decls.append(f'mon::src_struct!({sn} "{sn}" {{ ' + ", ".join(f'{a} "{a}" : {t}' for a, t in fs) + " });")
            calls.append(f'r.both::<{sn}>("form {name} {sn}"); r.glsl::<{sn}>("form {name} {sn}");')
        out.append((name, "    use crevice::{std140::AsStd140, std430::AsStd430, glsl::GlslStruct};\n    " + "\n    ".join(decls)
                    + "\n    pub fn register(r: &mut mon::registry::Registry) {\n        " + "\n        ".join(calls) + "\n    }"))

    siblings("sibling_digits", ["S", "S1", "S11", "S0", "S10", "S_1", "S_"], 13)
    siblings("sibling_pads", ["P", "PPad", "PPad1", "P_Pad", "_P", "__P", "P_", "P__", "Pad", "Pad1", "_pad1", "_P__Pad"], 4)
    siblings("sibling_case", ["s", "S", "sS", "Ss", "SS", "s_s", "S_S"], 3)
    siblings("sibling_std", ["A", "AStd140", "AStd430", "AStd", "StdA", "A140", "Std14", "Std1", "GlslA", "AsStdA", "AsStd", "A_Std140_Pad0"], 4)

    # Visibility.
    f3 = [("a", "f32"), ("v", V3), ("d", "f64")]
    for j, v in enumerate(["", "pub ", "pub(crate) ", "pub(super) ", "pub(self) ", "pub(in crate) "]):
        decl = struct("S", f3, vis=v, fvis=["", "pub ", "pub(crate) ", "pub(self) ", "pub(super) ", ""][j])
        out.append(form(f"vis_{j}", decl, "S", f3))
    out.append(form("vis_mixed", D + " pub struct S { pub a: f32, v: " + V3 + ", pub(crate) d: f64, }", "S", f3))
    out.append(form("vis_nested", D + " struct P { a: f32 } " + 'mon::src_struct!(P "P" { a "a" : f32 });' + D + " pub(self) struct S { p: P, v: " + V3 + " }",
                    "S", [("p", "P"), ("v", V3)]))
    out.append(form("vis_super", "mod inner { use super::*; " + D + " pub(in super::super) struct S { pub(super) p: super::P, pub(in super) v: " + V3 + " } } use inner::S;",
                    "S", [("p", "P"), ("v", V3)], extra=D + " struct P { a: f32 } " + 'mon::src_struct!(P "P" { a "a" : f32 });'))

    # Attributes and documentation.
    attrs = [
        "/// Documented.\n    /** Twice. */", "#[doc = \"x\"]", "#[allow(dead_code)]", "#[derive(Clone, Copy, Debug, PartialEq)]", "#[derive(Default)]",
        "#[repr(C)]", "#[must_use]", "#[cfg(all())]", "#[cfg_attr(all(), doc = \"y\")]", "#[non_exhaustive]", "#[doc(hidden)]", "#[repr(align(64))]",
        "#[repr(C, packed)] #[derive(Clone, Copy)]", "#[deprecated]", "#[rustfmt::skip]", "#[allow(clippy::all)]",
    ]
    for j, a in enumerate(attrs):
        t3 = [("a", "f32"), ("v", V3 if "PartialEq" not in a and "Default" not in a else "f64"), ("d", "f64")]
        if "packed" in a:
            continue
        out.append(form(f"attr_{j}", a + "\n    " + struct("S", t3), "S", t3))
        out.append(form(f"attr_after_{j}", struct("S", t3, derive=D + "\n    " + a), "S", t3))
    fattrs = ["/// Documented field.", "#[doc(hidden)]", "#[allow(unused)]", "#[cfg(all())]", "#[deprecated]", "#[cfg_attr(all(), allow(unused))]",
              "#[rustfmt::skip]"]
    for j, a in enumerate(fattrs):
        decl = D + f"\n    pub struct S {{ {a}\n pub a: f32, {a}\n pub v: {V3}, {a}\n pub d: f64 }}"
        out.append(form(f"field_attr_{j}", decl, "S", f3))
    out.append(form("field_cfg_out", D + f" pub struct S {{ pub a: f32, #[cfg(any())] pub gone: String, pub v: {V3}, #[cfg(any())] pub v: f64, pub d: f64 }}", "S", f3))
    out.append(form("cfg_attr_derive", struct("S", f3, derive="#[cfg_attr(all(), derive(AsStd140, AsStd430, GlslStruct))]"), "S", f3))

    # Ways of deriving.
    ders = [
        "#[derive(AsStd140)] #[derive(AsStd430)] #[derive(GlslStruct)]", "#[derive(GlslStruct, AsStd430, AsStd140)]",
        "#[derive(Clone, AsStd140, Copy, AsStd430, GlslStruct)]", "#[derive(AsStd140, AsStd430, GlslStruct,)]",
        "#[derive(crevice::std140::AsStd140, crevice::std430::AsStd430, crevice::glsl::GlslStruct)]",
        "#[derive(::crevice::std140::AsStd140, ::crevice::std430::AsStd430, ::crevice::glsl::GlslStruct)]",
    ]
    for j, d in enumerate(ders):
        out.append(form(f"derive_{j}", struct("S", f3, derive=d), "S", f3))
    full = "#[derive(crevice::std140::AsStd140, crevice::std430::AsStd430, crevice::glsl::GlslStruct)]"
    for j in range(2):
        n, t = form(f"no_import_{j}", struct("S", f3 if j else [("a", "f32"), ("v", "mint::ColumnMatrix3<f32>")], derive=full), "S",
                    f3 if j else [("a", "f32"), ("v", "mint::ColumnMatrix3<f32>")])
        out.append((n, t.replace("use crevice::{std140::AsStd140, std430::AsStd430, glsl::GlslStruct};", "", 1)))
    n, t = form("renamed_import", struct("S", f3, derive="#[derive(P, Q, R)]"), "S", f3)
    out.append((n, t.replace("use crevice::{std140::AsStd140, std430::AsStd430, glsl::GlslStruct};",
                             "use crevice::{std140::AsStd140 as P, std430::AsStd430 as Q, glsl::GlslStruct as R};", 1)))
    n, t = form("module_import", struct("S", f3, derive="#[derive(s::AsStd140, std430::AsStd430, g::GlslStruct)]"), "S", f3)
    out.append((n, t.replace("use crevice::{std140::AsStd140, std430::AsStd430, glsl::GlslStruct};",
                             "use crevice::{std140 as s, std430, glsl as g};", 1)))
    n, t = form("glob_import", struct("S", f3), "S", f3)
    out.append((n, t.replace("use crevice::{std140::AsStd140, std430::AsStd430, glsl::GlslStruct};",
                             "use crevice::{std140::*, std430::AsStd430, glsl::*};", 1)))
    # Only one of the derives, with types only it supports.
    one = [("a", "f32"), ("v", "crevice::std140::Vec3"), ("m", "crevice::std140::Mat2")]
    out.append(form("only_140", struct("S", one, derive="#[derive(AsStd140)]"), "S", one, s430=False, glsl=False))
    one = [("a", "f32"), ("v", "crevice::std430::Vec3"), ("m", "crevice::std430::Mat2")]
    out.append(form("only_430", struct("S", one, derive="#[derive(AsStd430)]"), "S", one, s140=False, glsl=False))
    one = [("a", "f32"), ("v", "crevice::std140::DynamicUniform<f32>"), ("b", "f32")]
    out.append(form("dynamic", struct("S", one, derive="#[derive(AsStd140)]"), "S", one, s430=False, glsl=False))
    one = [("a", "f32"), ("v", "mon::src_impls::Odd<16, {4 * 5}>"), ("b", "f32")]
    out.append(form("user_type", struct("S", one, derive="#[derive(AsStd140, AsStd430)]"), "S", one, glsl=False))

    # Ways of naming field types.
    ways = [
        ("alias", "type V = mint::Vector3<f32>; type F = f64;", "V", "F"),
        ("generic_alias", "type V<T> = mint::Vector3<T>; type F = f64;", "V<f32>", "F"),
        ("assoc", "pub trait Tr { type V; type F; } pub struct C; impl Tr for C { type V = mint::Vector3<f32>; type F = f64; }",
         "<C as Tr>::V", "<C as Tr>::F"),
        ("parens", "", "(mint::Vector3<f32>)", "((f64))"),
        ("paths", "use mint as m;", "m::Vector3<f32>", "::core::primitive::f64"),
        ("leading", "", "::mint::Vector3<::core::primitive::f32>", "core::primitive::f64"),
        ("selfpath", "use mint::Vector3;", "self::Vector3<f32>", "f64"),
        ("imported", "use mint::{Vector3, Vector3 as Renamed};", "Renamed<f32>", "f64"),
        ("trailing", "", "mint::Vector3<f32,>", "f64"),
        ("type_macro", "macro_rules! v { ($t:ty) => { mint::Vector3<$t> } } macro_rules! d { () => { f64 } }", "v!(f32)", "d!()"),
        ("shadow", "type Vec = mint::Vector3<f32>; type Option = f64;", "Vec", "Option"),
    ]
    for n, extra, v, d in ways:
        fs = [("a", "f32"), ("v", v), ("d", d)]
        out.append(form(f"way_{n}", struct("S", fs), "S", fs, extra=extra))

    # Places.
    for j, (pre, post) in enumerate([("", ""), ("{", "}")]):
        out.append(form(f"local_{j}", struct("S", f3, vis=""), "S", f3, local=True))
    out.append(("in_const", """    use crevice::{std140::AsStd140, std430::AsStd430, glsl::GlslStruct};
    pub fn register(r: &mut mon::registry::Registry) { f(r) }
    const _: () = {
        %s
        mon::src_struct!(S "S" { a "a" : f32, v "v" : %s, d "d" : f64 });
        impl Go for () { fn go(r: &mut mon::registry::Registry) { r.both::<S>("form in_const"); r.glsl::<S>("form in_const"); } }
    };
    trait Go { fn go(r: &mut mon::registry::Registry); }
    fn f(r: &mut mon::registry::Registry) { <() as Go>::go(r) }""" % (struct("S", f3, vis=""), V3)))
    out.append(("two_locals", """    use crevice::{std140::AsStd140, std430::AsStd430, glsl::GlslStruct};
    pub fn register(r: &mut mon::registry::Registry) { a(r); b(r) }
    fn a(r: &mut mon::registry::Registry) { %s mon::src_struct!(S "S" { a "a" : f32, v "v" : %s, d "d" : f64 }); r.both::<S>("form two_locals a"); }
    fn b(r: &mut mon::registry::Registry) { %s mon::src_struct!(S "S" { v "v" : f64, a "a" : %s }); r.both::<S>("form two_locals b"); }"""
                % (struct("S", f3, vis=""), V3, struct("S", [("v", "f64"), ("a", V3)], vis=""), V3)))
    out.append(("in_closure", """    use crevice::{std140::AsStd140, std430::AsStd430, glsl::GlslStruct};
    pub fn register(r: &mut mon::registry::Registry) { let mut f = || { %s mon::src_struct!(S "S" { a "a" : f32, v "v" : %s, d "d" : f64 });
        r.both::<S>("form in_closure"); }; f() }""" % (struct("S", f3, vis=""), V3)))

    # Macros.
    out.append(form("macro_all", f"mk!(S {{ a: f32, v: {V3}, d: f64 }});", "S", f3,
                    extra="macro_rules! mk { ($n:ident { $($f:ident : $t:ty),* $(,)? }) => { " + D + " pub struct $n { $(pub $f: $t),* } } }"))
    out.append(form("macro_attrs", f"mk!(/// Doc.\n #[allow(unused)] pub(crate) struct S {{ /// F.\n a: f32, pub v: {V3}, d: f64 }});", "S", f3,
                    extra="macro_rules! mk { ($(#[$m:meta])* $v:vis struct $n:ident { $($(#[$fm:meta])* $fv:vis $f:ident : $t:ty),* $(,)? }) => "
                          "{ $(#[$m])* " + D + " $v struct $n { $($(#[$fm])* $fv $f: $t),* } } }"))
    out.append(form("macro_tt", f"mk!(pub struct S {{ a: f32, v: {V3}, d: f64 }});", "S", f3,
                    extra="macro_rules! mk { ($($t:tt)*) => { " + D + " $($t)* } }"))
    out.append(form("macro_item", f"mk!({D} pub struct S {{ a: f32, v: {V3}, d: f64 }});", "S", f3,
                    extra="macro_rules! mk { ($i:item) => { $i } }"))
    out.append(form("macro_inner_field", f"mk!(S, v, {V3});", "S", f3,
                    extra="macro_rules! mk { ($n:ident, $f:ident, $t:ty) => { " + D + " pub struct $n { pub a: f32, pub $f: $t, pub d: f64 } } }"))
    out.append(form("macro_ty_arg", "mk!(mint::Vector3, f32);", "S", f3,
                    extra="macro_rules! mk { ($p:path, $t:ty) => { " + D + " pub struct S { pub a: $t, pub v: ::mint::Vector3<$t>, pub d: f64 } } }"))
    out.append(form("macro_derive_arg", "mk!(AsStd140, AsStd430, GlslStruct);", "S", f3,
                    extra="macro_rules! mk { ($($d:path),*) => { #[derive($($d),*)] pub struct S { pub a: f32, pub v: " + V3 + ", pub d: f64 } } }"))
    out.append(form("macro_nested", "outer!(S);", "S", f3,
                    extra="macro_rules! inner { ($n:ident, $($f:ident $t:ty),*) => { " + D + " pub struct $n { $(pub $f: $t),* } } } "
                          "macro_rules! outer { ($n:ident) => { inner!($n, a f32, v " + V3 + ", d f64); } }"))
    out.append(form("macro_many", "mk!(A B C S);", "S", f3,
                    extra="macro_rules! mk { ($($n:ident)*) => { $( " + D + " pub struct $n { pub a: f32, pub v: " + V3 + ", pub d: f64 } )* } }"))

    # Where clauses that hold, empty generics.
    out.append(form("where_clause", struct("S", f3, where="where f32: Copy, Vec<u8>: Clone "), "S", f3))
    out.append(form("where_field", D + " #[derive(Clone, Copy)] pub struct I { pub a: f32 } " + 'mon::src_struct!(I "I" { a "a" : f32 }); '
                    + struct("S", [("i", "I"), ("v", V3)], where="where I: Copy "), "S", [("i", "I"), ("v", V3)]))
    out.append(form("empty_generics", D + f" pub struct S<> {{ pub a: f32, pub v: {V3}, pub d: f64 }}", "S", f3))
    out.append(form("empty_where", D + f" pub struct S where {{ pub a: f32, pub v: {V3}, pub d: f64 }}", "S", f3))
    out.append(form("no_trailing_comma", D + f" pub struct S {{ a: f32, v: {V3}, d: f64 }}", "S", f3))

    # Deep nesting, repetition, empty structs inside.
    depth = 24 if not thorough else 60
    decls = [D + " pub struct N0 { pub a: f32 } " + 'mon::src_struct!(N0 "N0" { a "a" : f32 });']
    for i in range(1, depth):
        t = r.choice(["f32", V3, "f64", "u32"]) if i % 6 == 0 else "f32"
        decls.append(D + f" pub struct N{i} {{ pub n: N{i-1}, pub b: {t} }} " + f'mon::src_struct!(N{i} "N{i}" {{ n "n" : N{i-1}, b "b" : {t} }});')
    out.append(form("deep", "\n".join(decls) + "\n" + struct("S", [("n", f"N{depth-1}"), ("z", "f32")]), "S", [("n", f"N{depth-1}"), ("z", "f32")]))
    decls = [D + " pub struct N0 { pub a: f32, pub b: " + V3 + " } " + f'mon::src_struct!(N0 "N0" {{ a "a" : f32, b "b" : {V3} }});']
    for i in range(1, 6):
        decls.append(D + f" pub struct N{i} {{ pub n: N{i-1}, pub m: N{i-1} }} " + f'mon::src_struct!(N{i} "N{i}" {{ n "n" : N{i-1}, m "m" : N{i-1} }});')
    out.append(form("doubling", "\n".join(decls) + "\n" + struct("S", [("n", "N5"), ("z", "f32")]), "S", [("n", "N5"), ("z", "f32")]))
    # Other items of the program around the struct.
    around = ("const MAX: usize = 3; fn max() {} fn align_offset() {} mod internal {} mod std140 {} mod std430 {} mod core {} mod bytemuck {} "
              "macro_rules! stringify { () => {} } struct Zeroable; struct Pod; trait Std140 {} fn size_of() {} "
              "fn input_() {} static ALIGNMENT: usize = 1;")
    out.append(form("around", struct("S", f3), "S", f3, extra=around))
    out.append(form("inherent", struct("S", f3) + " impl S { pub fn as_bytes(&self) -> u8 { 0 } pub fn zeroed() -> u8 { 0 } pub const ALIGNMENT: usize = 7; "
                    "pub const NAME: u8 = 1; }", "S", f3))
    out.append(form("drop", struct("S", f3) + " impl Drop for S { fn drop(&mut self) {} }", "S", f3))
    return out


# Each pair: (name, rejected item, accepted neighbour). `I` is a derive.
def rejected(seed=0, thorough=False):
    pairs = []
    ok = "pub struct S { pub a: f32, pub b: u32 }"
    kinds = [
        ("tuple", "pub struct S(pub f32, pub u32);"), ("tuple_one", "pub struct S(f32);"), ("tuple_empty", "pub struct S();"),
        ("unit", "pub struct S;"), ("enum_unit", "pub enum S { A, B }"), ("enum_tuple", "pub enum S { A(f32) }"),
        ("enum_struct", "pub enum S { A { a: f32, b: u32 } }"), ("enum_empty", "pub enum S {}"), ("enum_repr", "#[repr(u32)] #[derive(Clone, Copy)] pub enum S { A = 1 }"),
        ("union", "#[derive(Clone, Copy)] pub union S { pub a: f32, pub b: u32 }"), ("tuple_array", "pub struct S([f32; 4]);"),
        ("union_one", "pub union S { pub a: f32 }"), ("tuple_nested", "pub struct S(mint::Vector3<f32>, f64);"),
    ]
    for n, bad in kinds:
        for d in ("crevice::std140::AsStd140", "crevice::std430::AsStd430", "crevice::glsl::GlslStruct"):
            pairs.append((f"{n}:{d.split('::')[-1]}", f"#[derive({d})]\n{bad}", f"#[derive({d})]\n{ok}"))
    types = ["u8", "i8", "u16", "i16", "u64", "i64", "u128", "usize", "isize", "char", "()", "(f32, f32)", "[f32; 2]", "[f32; 4]", "[[f32; 4]; 4]",
             "[mint::Vector4<f32>; 2]", "&'static f32", "&'static [f32]", "&'static str", "String", "Vec<f32>", "Box<f32>", "Option<f32>", "*const f32",
             "fn()", "std::num::NonZeroU32", "std::cell::Cell<f32>", "std::sync::Arc<f32>", "std::marker::PhantomData<f32>", "mint::Vector3<u8>",
             "mint::Vector2<i64>", "mint::Quaternion<f32>", "mint::EulerAngles<f32, mint::IntraXYZ>", "mint::RowMatrix3<f32>", "mint::RowMatrix4<f32>",
             "mint::ColumnMatrix3x4<f32>", "mint::ColumnMatrix2x3<f32>", "mint::ColumnMatrix3<i32>", "mint::ColumnMatrix4<bool>", "Plain", "Tuple", "Un",
             "Option<bool>", "std::num::Wrapping<u32>", "std::sync::atomic::AtomicU32", "std::mem::MaybeUninit<f32>", "dyn_"]
    types.remove("dyn_")
    if True:
        extra = "#[derive(Clone, Copy)] pub struct Plain { pub a: f32 } #[derive(Clone, Copy)] pub struct Tuple(pub f32); #[derive(Clone, Copy)] pub union Un { pub a: f32 }\n"
    for t in types:
        for d in ("crevice::std140::AsStd140", "crevice::std430::AsStd430", "crevice::glsl::GlslStruct"):
            for k, fs in enumerate(["pub a: f32, pub x: %s", "pub x: %s, pub a: f32"]):
                if k and not thorough and d != "crevice::std140::AsStd140":
                    continue
                pairs.append((f"field {t} {'last' if not k else 'first'}:{d.split('::')[-1]}",
                              extra + f"#[derive({d})]\npub struct S {{ {fs % t} }}",
                              extra + f"#[derive({d})]\npub struct S {{ {fs % 'f64'} }}"))
    # Types one layout has and the other not.
    for a, b, d in [("std140", "std430", "AsStd140"), ("std430", "std140", "AsStd430")]:
        for t in ("Vec2", "Vec3", "Mat2", "Mat4", "DMat3", "BVec2"):
            pairs.append((f"field {b}::{t}:{d}", f"#[derive(crevice::{a}::{d})]\npub struct S {{ pub a: f32, pub x: crevice::{b}::{t} }}",
                          f"#[derive(crevice::{a}::{d})]\npub struct S {{ pub a: f32, pub x: crevice::{a}::{t} }}"))
    pairs.append(("field DynamicUniform:AsStd430", "#[derive(crevice::std430::AsStd430)]\npub struct S { pub a: f32, pub x: crevice::std140::DynamicUniform<f32> }",
                  "#[derive(crevice::std140::AsStd140)]\npub struct S { pub a: f32, pub x: crevice::std140::DynamicUniform<f32> }"))
    for i, (i1, i2) in enumerate([("crevice::std140::AsStd140", "crevice::std430::AsStd430"), ("crevice::std430::AsStd430", "crevice::std140::AsStd140")]):
        # A nested struct that lacks the derive.
        pairs.append((f"nested lacks {i1.split('::')[-1]}", f"#[derive({i2})]\npub struct I {{ pub a: f32 }}\n#[derive({i1})]\npub struct S {{ pub i: I, pub b: f32 }}",
                      f"#[derive({i1}, {i2})]\npub struct I {{ pub a: f32 }}\n#[derive({i1})]\npub struct S {{ pub i: I, pub b: f32 }}"))
    return pairs
