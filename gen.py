"""Generates programs: Rust structs deriving crevice's traits, chosen at random
from a seed, with what the monitors need to know about them."""

import random

SCALARS = {"float": "f32", "double": "f64", "int": "i32", "uint": "u32", "bool": "bool"}
PREFIX = {"float": "", "double": "d", "int": "i", "uint": "u", "bool": "b"}


def _build_logical():
    """GLSL type -> {library: [Rust spellings]}."""
    out = {}
    for s, rust in SCALARS.items():
        out[s] = {"rust": [rust]}
    for s, rust in SCALARS.items():
        for n in (2, 3, 4):
            libs = {
                "mint": [f"mint::Vector{n}<{rust}>"],
                "cgmath": [f"cgmath::Vector{n}<{rust}>"],
                "nalgebra": [f"nalgebra::Vector{n}<{rust}>"],
            }
            if n < 4:
                libs["mint"].append(f"mint::Point{n}<{rust}>")
                libs["cgmath"].append(f"cgmath::Point{n}<{rust}>")
                libs["nalgebra"].append(f"nalgebra::Point{n}<{rust}>")
            if s != "bool":
                libs["glam"] = [f"glam::{PREFIX[s].upper()}Vec{n}"]
            out[f"{PREFIX[s]}vec{n}"] = libs
    for s in ("float", "double"):
        rust = SCALARS[s]
        for n in (2, 3, 4):
            out[f"{PREFIX[s]}mat{n}"] = {
                "mint": [f"mint::ColumnMatrix{n}<{rust}>"],
                "cgmath": [f"cgmath::Matrix{n}<{rust}>"],
                "nalgebra": [f"nalgebra::Matrix{n}<{rust}>"],
                "glam": [f"glam::{PREFIX[s].upper()}Mat{n}"],
            }
    return out


LOGICAL = _build_logical()
BIG = ["dvec3", "dvec4", "dmat3", "dmat4", "dmat2", "mat4", "vec3", "mat3", "vec4", "dvec2"]

FIELD_NAMES = (
    "position color brightness r#type r#match r#move r#fn r#impl r#trait r#mod r#ref r#dyn r#async r#await r#box "
    "r#where r#yield r#loop_ value values zeroed fields size align offset name x y z w writer self_ len std140 std430 "
    "as_bytes as_std140 from_std430 ALIGNMENT Output usize u8 core crevice _a a_ A aB normal_map albedo_factor i j k "
    "internal bytemuck max_arr starting_offset alignment T V N r#unsafe_ r#crate_ padding pad0 pad_1 _pad _pad_0 "
    "_pad0 _pad1 _pad2 _padx p000000000000000000000000000000000000000000000000000000000000 target index val"
).split()


class Ty:
    """A field type."""

    def __init__(self, rust, glsl=None, struct=None, s140=True, s430=True, named=True):
        self.rust, self.glsl, self.struct = rust, glsl, struct
        self.s140, self.s430, self.named = s140, s430, named


class Struct:
    def __init__(self, name, fields, family):
        self.name, self.fields, self.family = name, fields, family
        self.s140 = all(t.s140 for _, t in fields)
        self.s430 = all(t.s430 for _, t in fields)
        self.glsl = all(t.named for _, t in fields)

    def deps(self):
        return {t.struct.name for _, t in self.fields if t.struct}

    def ty(self):
        return Ty(self.name, struct=self, s140=self.s140, s430=self.s430, named=self.glsl)

    def derives(self):
        d = []
        if self.s140:
            d.append("AsStd140")
        if self.s430:
            d.append("AsStd430")
        if self.glsl:
            d.append("GlslStruct")
        return d

    def describe(self):
        return "struct %s { %s }" % (self.name, ", ".join(f"{n}: {t.rust}" for n, t in self.fields))


class Gen:
    def __init__(self, seed, libs, tag="G"):
        self.seed = seed
        self.r = random.Random(f"{seed}/{','.join(libs)}/{tag}")
        self.libs = ["rust"] + list(libs)
        self.structs = []
        self.tag = tag

    def logical(self, g, lib=None):
        have = LOGICAL[g]
        names = [l for l in ([lib] if lib in have else self.libs) if l in have]
        if not names:
            names = ["mint"]
        return Ty(self.r.choice(have[self.r.choice(names)]), glsl=g)

    def any_leaf(self):
        return self.logical(self.r.choice(list(LOGICAL)))

    def names(self, n):
        pool = list(FIELD_NAMES)
        self.r.shuffle(pool)
        style = self.r.randrange(5)
        if style >= 3:
            # Names of every length, in lower, upper and mixed case.
            out = []
            while len(out) < n:
                abc = self.r.choice(["abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "abcxyzABCXYZ0123456789"])
                k = self.r.choice([self.r.randint(2, 12), self.r.randint(2, 40), self.r.randint(30, 90)])
                name = self.r.choice("qQzk") + "".join(self.r.choice(abc) for _ in range(k))
                for _ in range(self.r.randrange(4)):
                    i = self.r.randint(1, len(name) - 1)
                    if "_" not in name[i - 1 : i + 1]:
                        name = name[:i] + "_" + name[i:]
                if self.r.random() < 0.1 and not name.endswith("_"):
                    name += "_"
                if name not in out:
                    out.append(name)
            return out
        if style == 0 or n > len(pool):
            return [f"f{i}" for i in range(n)]
        if style == 1:
            return pool[:n]
        return [pool[i] if self.r.random() < 0.3 else f"m{i}" for i in range(n)]

    def add(self, types, family, names=None):
        names = names or self.names(len(types))
        suffix = self.r.choice(["", "", "", "Light", "_data", "x"])
        s = Struct(f"{self.tag}{len(self.structs)}{suffix}", list(zip(names, types)), family)
        # Some structs derive for one layout only.
        self.structs.append(s)
        return s

    # Families ---------------------------------------------------------

    def pairs(self, per=14, part=0, parts=1):
        """Every ordered pair of types next to each other in some struct."""
        kinds = list(LOGICAL)
        r = random.Random(f"pairs/{self.seed}")
        edges = {k: r.sample(kinds, len(kinds)) for k in kinds}
        # Hierholzer: the complete directed graph with loops has a circuit.
        stack, path = [r.choice(kinds)], []
        while stack:
            v = stack[-1]
            if edges[v]:
                stack.append(edges[v].pop())
            else:
                path.append(stack.pop())
        for n, i in enumerate(range(0, len(path) - 1, per - 1)):
            if n % parts == part:
                self.add([self.logical(g) for g in path[i : i + per]], "pairs")

    def singles(self, part=0, parts=1):
        for g in list(LOGICAL)[part::parts]:
            self.add([self.logical(g)], "single")

    def tails(self, n):
        for _ in range(n):
            a, b = self.r.choice(BIG), self.r.choice(list(LOGICAL))
            ts = [self.logical(a), self.logical(b)]
            if self.r.random() < 0.3:
                ts.insert(0, self.any_leaf())
            self.add(ts, "tail")

    def random(self, n, most=10, nest=0.0):
        for _ in range(n):
            k = self.r.randint(1, most)
            ts = []
            for _ in range(k):
                if nest and self.structs and self.r.random() < nest:
                    ts.append(self.r.choice(self.small()).ty())
                else:
                    ts.append(self.any_leaf())
            self.add(ts, "random")

    def small(self):
        s = [s for s in self.structs if not getattr(s, "huge", False) and len(s.fields) <= 5 and s.s140 and s.s430] or self.structs
        return s

    def nested(self, chains, depth=5):
        for _ in range(chains):
            inner = self.add([self.any_leaf() for _ in range(self.r.randint(1, 3))], "nested")
            for d in range(self.r.randint(2, depth)):
                ts = [inner.ty()]
                if self.r.random() < 0.4:
                    ts.append(inner.ty())
                for _ in range(self.r.randint(0, 3)):
                    ts.insert(self.r.randint(0, len(ts)), self.any_leaf())
                if self.r.random() < 0.3:
                    ts.append(self.r.choice(self.small()).ty())
                if len(ts) == 1 and self.r.random() < 0.5:
                    ts.insert(self.r.randint(0, 1), self.logical("float"))
                inner = self.add(ts, "nested")

    def nested_each(self, part=0, parts=1):
        """A struct of every single type, between scalars."""
        for g in list(LOGICAL)[part::parts]:
            inner = self.add([self.logical(g)], "nested")
            self.add([self.logical("float"), inner.ty(), self.logical("float")], "nested")

    def large(self, sizes):
        for n in sizes:
            self.add([self.any_leaf() for _ in range(n)], "large")

    def positions(self, n):
        """Scalars with a single field of large alignment somewhere."""
        for _ in range(n):
            k = self.r.choice([3, 8, 16, 17, 18, 24, 33, 40, 64])
            p = self.r.choice([0, k - 1, self.r.randrange(k)])
            ts = [self.logical(self.r.choice(["float", "int", "uint", "bool"])) for _ in range(k)]
            ts[p] = self.logical(self.r.choice(BIG))
            inner = self.add(ts, "position")
            if self.r.random() < 0.5:
                self.add([self.logical("float"), inner.ty(), self.logical("double")], "position")

    def repeats(self, n):
        for _ in range(n):
            ts = []
            for _ in range(self.r.randint(1, 4)):
                t = self.r.choice(list(LOGICAL))
                ts += [self.logical(t) for _ in range(self.r.randint(1, 5))]
            self.add(ts, "repeat")

    def words(self, counts):
        """Scalars of four bytes only."""
        for n in counts:
            self.add([self.logical(self.r.choice(["float", "float", "int", "uint", "bool"])) for _ in range(n)], "words")

    def empties(self):
        e = self.add([], "empty")
        self.add([e.ty()], "empty")
        self.add([self.logical("float"), e.ty(), self.logical("float")], "empty")
        f = self.add([self.logical("vec3"), e.ty(), self.logical("double"), e.ty()], "empty")
        self.add([e.ty(), f.ty(), e.ty()], "empty")

    def dynamics(self, n):
        for _ in range(n):
            ts = [self.any_leaf() for _ in range(self.r.randint(0, 4))]
            for _ in range(self.r.randint(1, 2)):
                x = self.r.random()
                if x < 0.3 and self.structs:
                    inner = self.r.choice(self.small()).rust_name()
                elif x < 0.4:
                    inner = "crevice::std140::DynamicUniform<%s>" % self.any_leaf().rust
                elif x < 0.5:
                    inner = "mon::src_impls::Odd<%d, %d>" % self.r.choice([(512, 8), (1024, 3), (4, 4), (256, 300)])
                else:
                    inner = self.any_leaf().rust
                t = Ty(f"crevice::std140::DynamicUniform<{inner}>", s430=False, named=False)
                ts.insert(self.r.randint(0, len(ts)), t)
            s = self.add(ts, "dynamic")
            if self.r.random() < 0.5:
                self.add([self.any_leaf(), s.ty(), self.any_leaf()], "dynamic")

    def huge(self):
        """Structs of more than 64 KiB, by doubling."""
        for ts, n in (([self.logical("float"), self.logical("dvec4")], 10),
                      ([self.logical("uint"), Ty("crevice::std140::DynamicUniform<f32>", s430=False, named=False)], 8)):
            first = len(self.structs)
            inner = self.add(ts, "huge")
            for _ in range(n):
                inner = self.add([inner.ty(), inner.ty()], "huge")
            inner = self.add([inner.ty(), self.logical("float"), self.logical("vec3")], "huge")
            self.add([self.logical("float"), inner.ty(), self.logical("double"), self.logical("vec2")], "huge")
            for s in self.structs[first:]:
                s.huge = True

    def owns(self, n):
        """Fields of the crate's own types and of hand-made ones."""
        kinds = ["Vec2", "Vec3", "Vec4", "IVec2", "IVec3", "IVec4", "UVec2", "UVec3", "UVec4", "BVec2", "BVec3",
                 "BVec4", "DVec2", "DVec3", "DVec4", "Mat2", "Mat3", "Mat4", "DMat2", "DMat3", "DMat4"]
        for _ in range(n):
            lay = self.r.choice(["std140", "std430"])
            ts = []
            for _ in range(self.r.randint(1, 7)):
                x = self.r.random()
                if x < 0.6:
                    k = self.r.choice(kinds)
                    ts.append(Ty(f"crevice::{lay}::{k}", s140=lay == "std140", s430=lay == "std430"))
                elif x < 0.7:
                    ts.append(Ty("crevice::std140::Bool"))
                elif x < 0.8:
                    a, n_ = self.r.choice([(1, 3), (2, 6), (8, 8), (16, 20), (32, 33), (64, 1), (128, 128)])
                    ts.append(Ty(f"mon::src_impls::Odd<{a}, {n_}>", named=False))
                else:
                    ts.append(self.any_leaf())
            self.add(ts, "own")

    def twins(self, n):
        """The same declaration with each library's types."""
        for _ in range(n):
            gs = [self.r.choice([g for g in LOGICAL if g not in SCALARS]) for _ in range(self.r.randint(2, 6))]
            if self.r.random() < 0.7:
                gs.append(self.r.choice(list(SCALARS)))
            for lib in ["mint", "cgmath", "glam", "nalgebra"]:
                if lib in self.libs:
                    self.add([self.logical(g, lib) for g in gs], "twin")


def _rust_name(self):
    return self.name


Struct.rust_name = _rust_name


PARTS = 4
LIBS = ("mint", "cgmath", "glam", "nalgebra")


def full(seed, part=0, libs=("mint", "cgmath", "glam", "nalgebra"), scale=1):
    """One of the parts of a large program; the parts compile in parallel."""
    g = Gen(seed, libs, tag="G" + "abcdefgh"[part])
    if part == 0:
        g.empties()
    g.singles(part, PARTS)
    g.pairs(part=part, parts=PARTS)
    g.tails(5 * scale)
    g.random(5 * scale)
    g.repeats(2 * scale)
    g.nested_each(part, PARTS)
    g.nested(2 * scale)
    g.random(4 * scale, most=8, nest=0.4)
    g.positions(3 * scale)
    g.large([[g.r.randint(20, 40)], [g.r.randint(40, 70)], [g.r.randint(100, 130)], [g.r.randint(12, 30)]][part % 4])
    g.dynamics(3 * scale)
    g.owns(3 * scale)
    g.twins(2 * scale)
    if part == 3:
        g.huge()
    g.words(range(1 + part, 18, PARTS))
    return g.structs


class Shaders(Gen):
    """Types a shader can share with a program."""

    KINDS = list(LOGICAL)

    def any_leaf(self):
        return self.logical(self.r.choice(self.KINDS))

    def kinds(self, n):
        return [self.any_leaf() for _ in range(n)]

    def everything(self, part, parts):
        for g in [g for g in self.KINDS if not g.startswith("b")][part::parts]:
            self.add([self.logical(g)], "single")
            self.add([self.logical("float"), self.logical(g), self.logical("uint")], "between")
            inner = self.add([self.logical("vec4"), self.logical(g)], "nested")
            self.add([self.logical("int"), inner.ty(), self.logical("float"), inner.ty()], "nested")


def shaders(seed, part, scale=1):
    g = Shaders(seed, LIBS, tag="S" + "ab"[part])
    g.everything(part, 2)
    for _ in range(16 * scale):
        g.add(g.kinds(g.r.randint(1, 7)), "random")
    # Without the types naga refuses in std140.
    g.KINDS = [k for k in g.KINDS if k not in ("mat2", "dmat2")]
    for _ in range(16 * scale):
        inner = g.add(g.kinds(g.r.randint(1, 4)) + [g.logical(g.r.choice(["vec3", "vec4", "dvec4", "mat3"]))], "nested")
        ts = g.kinds(g.r.randint(0, 3))
        for _ in range(g.r.randint(1, 2)):
            ts.insert(g.r.randint(0, len(ts)), inner.ty())
        outer = g.add(ts, "nested")
        if g.r.random() < 0.4:
            g.add(g.kinds(2) + [outer.ty()] + g.kinds(1), "nested")
    return g.structs


def small(seed, libs=("mint",), wide=True):
    """For interpreters."""
    g = Gen(seed, libs)
    g.empties()
    g.tails(3)
    g.random(3, most=6)
    g.nested(1, depth=3)
    g.random(2, most=4, nest=0.5)
    if wide:
        g.positions(1)
    g.dynamics(2)
    g.owns(2)
    return g.structs


def targets(seed, libs=("mint",)):
    """For comparing targets: some structs in full, more from outside."""
    structs = small(seed, libs, wide=False)
    g = Gen(seed, libs, tag="T")
    g.tails(14)
    g.pairs(per=14, part=seed % 3, parts=3)
    g.repeats(4)
    g.nested(3)
    g.random(14, most=7, nest=0.3)
    g.positions(4)
    g.words(list(range(1, 10)) + [g.r.randint(10, 16), g.r.randint(17, 40)])
    for s in g.structs:
        s.outline = True
    return structs + g.structs


def extra(seed, libs=("mint",)):
    """More shapes of every length, for comparing builds."""
    g = Gen(seed, libs, tag="X")
    g.words(range(1, 18))
    for t in ("float", "vec2", "vec3", "double", "bool", "dvec3"):
        for n in range(2, 8):
            g.add([g.logical(t) for _ in range(n)], "repeat")
    g.random(17, most=16, nest=0.2)
    return g.structs


def closure(structs, skip):
    """Without the skipped structs and those that need them."""
    gone = set(skip)
    out = []
    for s in structs:
        inner = set(s.deps())
        for _, t in s.fields:
            inner |= {x.name for x in structs if f"<{x.name}>" in t.rust}
        if s.name in gone or inner & gone:
            gone.add(s.name)
        else:
            out.append(s)
    return out


def strip(n):
    return n[2:] if n.startswith("r#") else n


class Wrapped(list):
    """Structs to register wrapped for dynamic uniforms as well."""


def render(structs, skip=(), register=True):
    """Rust source: the structs, and a function registering them."""
    wrapped = isinstance(structs, Wrapped)
    structs = closure(structs, skip)
    out = ["// Generated.", "#[allow(unused_imports)]", "use crevice::{std140::AsStd140, std430::AsStd430, glsl::GlslStruct};",
           "#[allow(unused_imports)]", "use mon::{Src, src_struct};"]
    for s in structs:
        out.append(f"// struct {s.name}")
        # `GlslStruct` the trait needs std; the derive is only used with it.
        ders = [d for d in s.derives() if d != "GlslStruct"]
        if s.glsl:
            out.append('#[cfg_attr(feature = "std", derive(GlslStruct))]')
        if ders:
            out.append(f"#[derive({', '.join(ders)})]")
        out.append("#[allow(non_camel_case_types, non_snake_case, dead_code)]")
        out.append(f"pub struct {s.name} {{")
        for n, t in s.fields:
            out.append(f"    pub {n}: {t.rust},")
        out.append("}")
        fs = ", ".join(f'{n} "{strip(n)}" : {t.rust}' for n, t in s.fields)
        out.append(f'src_struct!({s.name} "{s.name}" {{ {fs} }});')
    if register:
        out.append("pub fn register(r: &mut mon::registry::Registry) {")
        out.append("    let _ = &r;")
        for i in range(0, len(structs), 40):
            out.append(f"    part{i}(r);")
        out.append("}")
        for i in range(0, len(structs), 40):
            out.append(f"fn part{i}(r: &mut mon::registry::Registry) {{")
            out.append("    let _ = &r;")
            for s in structs[i : i + 40]:
                if getattr(s, "outline", False):
                    for l in ("140", "430"):
                        if getattr(s, "s" + l):
                            out.append(f'    r.outline{l}::<{s.name}>("{s.name}");')
                    continue
                if getattr(s, "huge", False):
                    for l in ("140", "430"):
                        if getattr(s, "s" + l):
                            out.append(f'    r.huge{l}::<{s.name}>("{s.name}");')
                    continue
                if s.s140:
                    out.append(f'    r.only140::<{s.name}>("{s.name}");')
                    out.append(f'    r.own_bytes::<{s.name}>("{s.name} in std140", mon::L::S140, |v| <{s.name} as Src>::take(&mut mon::Cur(v)).as_std140().as_bytes().to_vec());')
                    if wrapped:
                        out.append(f'    r.dynamic::<{s.name}>("{s.name}");')
                if s.s430:
                    out.append(f'    r.only430::<{s.name}>("{s.name}");')
                    out.append(f'    r.own_bytes::<{s.name}>("{s.name} in std430", mon::L::S430, |v| <{s.name} as Src>::take(&mut mon::Cur(v)).as_std430().as_bytes().to_vec());')
                if s.glsl:
                    out.append(f'    #[cfg(feature = "std")] r.glsl::<{s.name}>("{s.name}");')
                    out.append(f'    #[cfg(feature = "std")] r.name::<{s.name}>("{s.name}");')
            out.append("}")
    return "\n".join(out) + "\n"


