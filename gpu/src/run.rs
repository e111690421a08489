//! Shaders that use the generated definitions.

use crate::device::{Binding, Device};
use crate::front;
use mon::erased::{AnyWriter, How};
use mon::model::{array_stride, hex, round_up, values, Desc, Leaf, Mode, K, L};
use mon::registry::{GlslItem, Registry};
use mon::report::Report;
use mon::rng::Rng;
use mon::sink::Sink;
use mon::Erased;
use std::collections::HashMap;

const ITEMS: usize = 3;

fn load(l: &Leaf, base: &str) -> String {
    let e = format!("{base}{}", l.path);
    match l.k {
        K::F32 => format!("floatBitsToUint({e})"),
        K::F64 => format!("floatBitsToUint(float({e}))"),
        K::I32 => format!("uint({e})"),
        _ => e,
    }
}

fn store(l: &Leaf, base: &str, i: usize) -> String {
    let v = match l.k {
        K::F32 => format!("uintBitsToFloat(vp_vals[{i}])"),
        K::F64 => format!("double(uintBitsToFloat(vp_vals[{i}]))"),
        K::I32 => format!("int(vp_vals[{i}])"),
        _ => format!("vp_vals[{i}]"),
    };
    format!("{base}{} = {v}", l.path)
}

/// What a shader sees of a component.
fn word(l: &Leaf, v: u64) -> u32 {
    match l.k {
        K::F64 => (f64::from_bits(v) as f32).to_bits(),
        // A shader may store any word but 0 for true.
        K::B => (v as u32 & 1) * 0x8000_0100,
        _ => v as u32,
    }
}

fn same(l: &Leaf, got: u32, v: u64) -> bool {
    match l.k {
        K::B => (got != 0) == (v & 1 != 0),
        _ => got == word(l, v),
    }
}

/// The front end has no booleans in buffers; GLSL lays them out as `uint` and
/// reads `word != 0`.
fn lift(s: &str) -> String {
    let mut out = String::new();
    let mut w = String::new();
    for c in s.chars().chain([' ']) {
        if c.is_ascii_alphanumeric() || c == '_' {
            w.push(c);
            continue;
        }
        out.push_str(match w.as_str() {
            "bool" => "uint",
            "bvec2" => "uvec2",
            "bvec3" => "uvec3",
            "bvec4" => "uvec4",
            w => w,
        });
        w.clear();
        out.push(c);
    }
    out
}

fn lifted(ls: &[Leaf]) -> Vec<Leaf> {
    ls.iter().map(|l| Leaf { k: if l.k == K::B { K::U32 } else { l.k }, ..l.clone() }).collect()
}

fn shader(e: &Erased, defs: &str, name: &str) -> String {
    let l = e.lay.name();
    let n = e.lo.leaves.len();
    let mut s = format!(
        "#version 450\nlayout(local_size_x = 1) in;\n{defs}\n\
         layout({l}, set = 0, binding = 0) readonly buffer VPIN {{ {name} vp_in; }};\n\
         layout(std430, set = 0, binding = 1) buffer VPWORDS {{ uint vp_words[]; }};\n\
         layout({l}, set = 0, binding = 2) buffer VPOUT {{ {name} vp_out; }};\n\
         layout(std430, set = 0, binding = 3) readonly buffer VPVALS {{ uint vp_vals[]; }};\n\
         layout({l}, set = 0, binding = 4) readonly buffer VPARR {{ uint vp_count; {name} vp_items[]; }};\n\
         void main() {{\n"
    );
    for (i, x) in e.lo.leaves.iter().enumerate() {
        s.push_str(&format!("  vp_words[{i}] = {};\n  {};\n", load(x, "vp_in"), store(x, "vp_out", i)));
    }
    s.push_str(&format!("  vp_words[{n}] = vp_count;\n"));
    for k in 0..ITEMS {
        for (i, x) in e.lo.leaves.iter().enumerate() {
            s.push_str(&format!("  vp_words[{}] = {};\n", n + 1 + k * n + i, load(x, &format!("vp_items[{k}]"))));
        }
    }
    s + "}\n"
}

fn uniform_shader(e: &Erased, defs: &str, name: &str) -> String {
    let mut s = format!(
        "#version 450\nlayout(local_size_x = 1) in;\n{defs}\n\
         layout(std140, set = 0, binding = 0) uniform VPU {{ {name} vp_u; }};\n\
         layout(std430, set = 0, binding = 1) buffer VPWORDS {{ uint vp_words[]; }};\nvoid main() {{\n"
    );
    for (i, x) in e.lo.leaves.iter().enumerate() {
        s.push_str(&format!("  vp_words[{i}] = {};\n", load(x, "vp_u")));
    }
    s + "}\n"
}

/// Values a shader handles without rounding.
fn vals(e: &Erased, mode: Mode, r: &mut Rng) -> Vec<u64> {
    let mut v = values(&e.lo.leaves, mode, r);
    for (x, l) in v.iter_mut().zip(&e.lo.leaves) {
        match l.k {
            K::F32 if !plain(f32::from_bits(*x as u32)) => *x = 0x4049_0fdb ^ (r.next() & 0xffff),
            K::F64 => {
                let f = f32::from_bits((r.next() & 0x807f_ffff) as u32 | ((64 + r.below(128)) as u32) << 23);
                *x = (f as f64).to_bits();
            }
            _ => (),
        }
    }
    v
}

fn plain(f: f32) -> bool {
    f == 0.0 || f.is_normal() || f.is_infinite()
}

fn words(b: &[u8]) -> Vec<u32> {
    b.chunks_exact(4).map(|c| u32::from_ne_bytes(c.try_into().unwrap())).collect()
}

fn simple(d: &Desc) -> bool {
    match d {
        Desc::Scalar(k) | Desc::Vec(k, _) | Desc::Mat(k, _) => *k != K::Byte,
        Desc::Struct(_, fs) => !fs.is_empty() && fs.iter().all(|(_, d)| simple(d)),
        _ => false,
    }
}

fn padded(mut b: Vec<u8>) -> Vec<u8> {
    let n = round_up(b.len().max(4), 16);
    b.resize(n, 0);
    b
}

/// Where the front end puts the components and items agrees with the model.
/// (naga departs from the specification for some types.)
fn agrees(e: &Erased, m: &naga::Module, binding: u32) -> bool {
    let Some(b) = front::block(m, binding) else { return false };
    let mut got = Vec::new();
    front::leaves(m, b[0].ty, 0, "", &mut got).is_some() && b[0].offset == 0 && got == lifted(&e.lo.leaves)
}

/// Elements whose std140 stride is a known finding of C11 are left out here.
fn items_agree(e: &Erased, m: &naga::Module) -> bool {
    if !e.desc.is_struct() && e.lay == L::S140 && e.lo.align < 16 {
        return false;
    }
    let Some(b) = front::block(m, 4) else { return false };
    let Some((_, off, stride)) = b.get(1).and_then(|x| front::array(m, x)) else { return false };
    off == round_up(4, e.lo.align) && stride == array_stride(&e.lo, e.lay)
}

/// One member of a block: a value, or several as an array.
struct Member<'a> {
    e: &'a Erased,
    array: Option<usize>,
    vals: Vec<Vec<u64>>,
    how: How,
}

/// A history of a writer, and the block with the same members that a shader
/// declares.
fn history(reg: &Registry, l: L, pool: &[&Erased], names: &HashMap<&str, &'static str>, items: &HashMap<&str, &GlslItem>, dev: Option<&Device>, r: &mut Rng, rep: &mut Report) {
    let _ = reg;
    let small: Vec<&Erased> = pool.iter().copied().filter(|e| e.lo.leaves.len() <= 3).collect();
    let mut ms: Vec<Member> = Vec::new();
    let mut leaves = 0;
    for _ in 0..2 + r.below(11) {
        let from = if r.chance(1, 2) { &small[..] } else { pool };
        let e = *r.pick(from);
        // Where GLSL's array is the writer's. (The others are C11's.)
        let stride = round_up(e.lo.size, e.lo.align);
        let array = if r.chance(1, 4) && array_stride(&e.lo, l) == stride && e.lo.size == stride && (l == L::S430 || stride % 16 == 0) {
            Some(1 + r.below(4))
        } else {
            None
        };
        let n = array.unwrap_or(1);
        leaves += n * e.lo.leaves.len();
        if leaves > 200 {
            break;
        }
        let mode = *r.pick(&[Mode::Unique, Mode::Plain, Mode::Special]);
        let how = if array.is_none() { How::Each } else { *r.pick(&[How::Slice, How::Iter, How::Each, How::Hinted]) };
        ms.push(Member { e, array, vals: (0..n).map(|_| vals(e, mode, r)).collect(), how });
    }
    let what = || {
        let t = ms.iter().map(|m| format!("{}{}", m.e.name, m.array.map(|n| format!("[{n}] by {:?}", m.how)).unwrap_or_default()));
        format!("{} buffer of {}", l.name(), t.collect::<Vec<_>>().join("; "))
    };
    // The declarations, each struct once.
    let (mut own, mut gen) = (String::new(), String::new());
    let mut need = Vec::new();
    for m in &ms {
        front::structs(&m.e.desc, &mut need);
    }
    for d in need {
        own.push_str(&front::own_text(d));
        let Some(i) = items.get(d.glsl().as_str()) else { return };
        gen.push_str(&(i.text)());
        gen.push('\n');
    }
    let source = |defs: &str, ours: bool| {
        let mut s = format!("#version 450\nlayout(local_size_x = 1) in;\n{defs}\nlayout({}, set = 0, binding = 0) readonly buffer VPIN {{\n", l.name());
        for (i, m) in ms.iter().enumerate() {
            let t = if ours { m.e.desc.glsl() } else { names[m.e.name.as_str()].to_string() };
            s.push_str(&format!("  {t} vp_m{i}{};\n", m.array.map(|n| format!("[{n}]")).unwrap_or_default()));
        }
        s.push_str("};\nlayout(std430, set = 0, binding = 1) buffer VPWORDS { uint vp_words[]; };\nvoid main() {\n");
        let mut n = 0;
        for (i, m) in ms.iter().enumerate() {
            for k in 0..m.vals.len() {
                let base = if m.array.is_some() { format!("vp_m{i}[{k}]") } else { format!("vp_m{i}") };
                for x in &m.e.lo.leaves {
                    s.push_str(&format!("  vp_words[{n}] = {};\n", load(x, &base)));
                    n += 1;
                }
            }
        }
        lift(&(s + "}\n"))
    };
    let Ok(m) = front::parse(&source(&own, true)) else {
        rep.count("histories the front end does not accept", 1);
        return;
    };
    // Where the specification puts the members.
    let mut at = 0;
    let mut offs = Vec::new();
    for m in &ms {
        at = round_up(at, m.e.lo.align);
        offs.push(at);
        at += m.e.lo.size * m.vals.len();
    }
    let Some(b) = front::block(&m, 0) else { return };
    let agrees = b.iter().zip(&ms).zip(&offs).all(|((x, y), off)| {
        let (ty, o, stride) = match y.array {
            None => (x.ty, x.offset as usize, y.e.lo.size),
            Some(_) => match front::array(&m, x) {
                Some(a) => a,
                None => return false,
            },
        };
        let mut got = Vec::new();
        o == *off && stride == y.e.lo.size && front::leaves(&m, ty, 0, "", &mut got).is_some() && got == lifted(&y.e.lo.leaves)
    });
    if !agrees {
        rep.count("histories the front end lays out against the specification", 1);
        return;
    }
    let g = match front::parse(&source(&gen, false)) {
        Ok(g) => g,
        Err(x) => {
            rep.viol(format!("no shader: {}", what()), format!("{}: a shader using the generated definitions does not compile: {x}", what()));
            return;
        }
    };
    let sink = Sink::new();
    let wrote = rep.guard(&what, || {
        let mut w = AnyWriter::new(l, sink.clone());
        ms.iter().map(|m| (m.e.many)(&m.vals.concat(), m.vals.len(), &mut w, m.how).0).collect::<Result<Vec<_>, _>>()
    });
    let Some(wrote) = wrote else { return };
    let data = sink.data();
    rep.case(&[what().as_bytes(), &data].concat(), ms.len() > 1);
    rep.count("histories", 1);
    rep.sample(|| format!("{}: [{}]", what(), hex(&data)));
    match wrote {
        Err(x) => {
            rep.viol(format!("write: {}", what()), format!("{}: writing to memory failed: {x}", what()));
            return;
        }
        Ok(got) if got != offs => {
            rep.viol(
                format!("member offsets: {}", what()),
                format!("{}: written at {got:?}, the front end finds the members at {offs:?}", what()),
            );
            return;
        }
        Ok(_) => (),
    }
    let doubles = ms.iter().any(|m| m.e.lo.leaves.iter().any(|l| l.k == K::F64));
    let Some(dev) = dev.filter(|d| d.doubles() || !doubles) else { return };
    let kinds = [wgpu::BufferBindingType::Storage { read_only: true }, wgpu::BufferBindingType::Storage { read_only: false }];
    let Ok(p) = dev.pipeline(g, &kinds) else {
        rep.count("histories the device does not accept", 1);
        return;
    };
    let blank = vec![0xeeu8; 4 * ms.iter().map(|m| m.vals.len() * m.e.lo.leaves.len()).sum::<usize>()];
    let mut up = padded(data.clone());
    up.resize(up.len().max(round_up(at, 256)), 0);
    let out = match dev.dispatch(&p, &[Binding::Read(&up), Binding::Write(&blank)]) {
        Ok(o) => o,
        Err(x) => {
            rep.count("histories the device refuses to run", 1);
            rep.sample(|| x);
            return;
        }
    };
    rep.count("dispatches of histories", 1);
    let w = words(&out[0]);
    let mut n = 0;
    for (i, m) in ms.iter().enumerate() {
        for (k, v) in m.vals.iter().enumerate() {
            for (l2, x) in m.e.lo.leaves.iter().zip(v) {
                rep.count("components of histories read by shaders", 1);
                if !same(l2, w[n], *x) {
                    rep.viol(
                        format!("history: {}", what()),
                        format!(
                            "{}: a shader reads {:x} for component {} of member {i}, element {k}, instead of {:x}; bytes [{}]",
                            what(), w[n], l2.path, word(l2, *x), hex(&data)
                        ),
                    );
                    return;
                }
                n += 1;
            }
        }
    }
}

/// One of several parts of the work.
pub fn shaders(reg: &Registry, seed: u64, deep: usize, part: (usize, usize), rep: &mut Report) {
    let items: HashMap<&str, &GlslItem> = reg.glsl.iter().map(|g| (g.glsl, g)).collect();
    let dynamic: HashMap<&str, &Erased> =
        reg.types.iter().filter(|e| e.name.starts_with("DynamicUniform<")).map(|e| (e.name.as_str(), e)).collect();
    let dev = Device::new();
    match &dev {
        Some(d) => rep.count(&format!("device {}", d.name), 1),
        None => rep.count("no device: components read at the front end's offsets only", 1),
    }
    let mut r = Rng::new(seed, &format!("gpu {}", part.0));
    for e in reg.types.iter().enumerate().filter(|(i, _)| i / 2 % part.1 == part.0).map(|x| x.1) {
        if rep.full() {
            return;
        }
        if !simple(&e.desc) {
            continue;
        }
        let Some((own, gen)) = front::texts(&e.desc, &items) else { continue };
        // What the monitor calls the type, and what the code under test does.
        let name = e.desc.glsl();
        let Some(n) = reg.named.iter().find(|n| n.name == e.name) else { continue };
        let (own, gen) = (lift(&own), lift(&gen));
        let (name, called) = (lift(&name), lift(n.glsl));
        let (own, gen) = ((&own[..], name.trim()), (&gen[..], called.trim()));
        one(e, own, gen, dev.as_ref(), deep, &mut r, rep);
        if e.lay == L::S140 {
            if let Some(d) = dynamic.get(format!("DynamicUniform<{}>", e.name).as_str()) {
                uniform(e, d, own, gen, dev.as_ref(), &mut r, rep);
            }
        }
    }
    let names: HashMap<&str, &'static str> = reg.named.iter().map(|n| (n.name.as_str(), n.glsl)).collect();
    for l in [L::S140, L::S430] {
        let pool: Vec<&Erased> = reg
            .types
            .iter()
            .filter(|e| e.lay == l && simple(&e.desc) && names.contains_key(e.name.as_str()) && e.lo.leaves.len() <= 60)
            .filter(|e| l == L::S430 || !has_two_rows(&e.desc))
            .collect();
        for _ in 0..600 * deep / part.1 {
            if rep.full() {
                return;
            }
            history(reg, l, &pool, &names, &items, dev.as_ref(), &mut r, rep);
        }
    }
}

/// Two-row matrices, which the front end refuses in std140.
fn has_two_rows(d: &Desc) -> bool {
    match d {
        Desc::Mat(_, n) => *n == 2,
        Desc::Struct(_, fs) => fs.iter().any(|(_, d)| has_two_rows(d)),
        _ => false,
    }
}

/// The shader with the generated definitions, if the front end handles the
/// same shader with the monitor's own.
fn module(e: &Erased, own: String, gen: String, binding: u32, rep: &mut Report) -> Option<(naga::Module, naga::Module)> {
    let m = match front::parse(&own) {
        Ok(m) => m,
        Err(_) => {
            rep.count("structs the front end does not accept", 1);
            return None;
        }
    };
    if !agrees(e, &m, binding) {
        rep.count("structs the front end lays out against the specification", 1);
        return None;
    }
    match front::parse(&gen) {
        Ok(g) => Some((m, g)),
        Err(x) => {
            rep.viol(
                format!("no shader: {} {}", e.lay.name(), e.desc.long()),
                format!("{} in {}: a shader using the generated definitions does not compile: {x}\n{gen:?}", e.name, e.lay.name()),
            );
            None
        }
    }
}

fn differ(rep: &mut Report, e: &Erased, what: &str, l: &Leaf, got: u64, want: u64, v: &[u64], bytes: &[u8]) {
    rep.viol(
        format!("{what}: {} {} {}", e.lay.name(), l.path, e.desc.long()),
        format!(
            "{} ({}) in {}: {what}: component {} is {got:x} instead of {want:x}; components {:x?}; bytes [{}]",
            e.name,
            e.desc.long(),
            e.lay.name(),
            l.path,
            &v[..v.len().min(24)],
            hex(bytes)
        ),
    );
}

#[allow(clippy::too_many_arguments)]
fn one(e: &Erased, own: (&str, &str), gen: (&str, &str), dev: Option<&Device>, deep: usize, r: &mut Rng, rep: &mut Report) {
    let n = e.lo.leaves.len();
    let Some((m, g)) = module(e, shader(e, own.0, own.1), shader(e, gen.0, gen.1), 0, rep) else { return };
    let with_items = items_agree(e, &m);
    let doubles = e.lo.leaves.iter().any(|l| l.k == K::F64);
    let dev = dev.filter(|d| d.doubles() || !doubles);
    use wgpu::BufferBindingType::Storage;
    let (ro, rw) = (Storage { read_only: true }, Storage { read_only: false });
    let kinds = [ro, rw, rw, ro, ro];
    let pipe = dev.and_then(|d| match d.pipeline(g, &kinds) {
        Ok(p) => Some((d, p)),
        Err(x) => {
            if d.pipeline(m, &kinds).is_ok() {
                rep.viol(
                    format!("no pipeline: {} {}", e.lay.name(), e.desc.long()),
                    format!("{} in {}: a shader using the generated definitions is refused: {x}\n{gen:?}", e.name, e.lay.name()),
                );
            } else {
                rep.count("structs the device does not accept", 1);
            }
            None
        }
    });
    rep.count("shaders", 1);
    for k in 0..2 + deep {
        let mode = [Mode::Unique, Mode::Special, Mode::Plain, Mode::Random][k % 4];
        let v = vals(e, mode, r);
        let what = || format!("{} in {}", e.name, e.lay.name());
        let Some(enc) = rep.guard(&what, || (e.encode)(&v)) else { return };
        if enc.bytes.len() != e.lo.size {
            rep.viol(
                format!("size: {} {}", e.lay.name(), e.desc.long()),
                format!("{}: {} bytes uploaded, the shader reads {}", what(), enc.bytes.len(), e.lo.size),
            );
            return;
        }
        // Several values after their number.
        let iv: Vec<Vec<u64>> = (0..ITEMS).map(|_| vals(e, Mode::Unique, r)).collect();
        let count = r.next() as u32 | 1;
        let sink = Sink::new();
        let flat = iv.concat();
        let wrote = rep.guard(&what, || {
            let mut w = AnyWriter::new(e.lay, sink.clone());
            let u = match e.lay {
                L::S140 => mon::erase140::<u32>("u32"),
                L::S430 => mon::erase430::<u32>("u32"),
            };
            (u.write)(&[count as u64], &mut w)?;
            (e.many)(&flat, ITEMS, &mut w, if k % 2 == 0 { How::Slice } else { How::Blind }).0
        });
        let Some(wrote) = wrote else { return };
        if let Err(x) = wrote {
            rep.viol(format!("write: {}", what()), format!("{}: writing to memory failed: {x}", what()));
            return;
        }
        let arr = sink.data();
        let key = [e.desc.long().as_bytes(), e.lay.name().as_bytes(), &enc.bytes[..]].concat();
        rep.case(&key, v.iter().any(|x| *x != 0));
        rep.sample(|| format!("{} in {}: {}; [{}]", e.name, e.lay.name(), e.desc.long(), hex(&enc.bytes)));
        // At the front end's offsets, which are the model's.
        let read = e.lo.read(&enc.bytes);
        for ((l, a), b) in e.lo.leaves.iter().zip(&read).zip(&v) {
            rep.count("components at the front end's offsets", 1);
            if a != b {
                differ(rep, e, "at the front end's offset", l, *a, *b, &v, &enc.bytes);
            }
        }
        let Some((d, p)) = &pipe else { continue };
        let vv: Vec<u8> = e.lo.leaves.iter().zip(&v).flat_map(|(l, x)| word(l, *x).to_ne_bytes()).collect();
        let garbage = padded(vec![0xa5u8; e.lo.size]);
        let need = round_up(round_up(4, e.lo.align) + ITEMS * array_stride(&e.lo, e.lay), 16);
        let mut arr = padded(arr);
        if with_items && arr.len() < need {
            rep.viol(
                format!("short: {} {}", e.lay.name(), e.desc.long()),
                format!("{}: {} bytes written for a count and {ITEMS} items, the shader reads {need}", what(), arr.len()),
            );
            return;
        }
        arr.resize(arr.len().max(need), 0);
        let blank = vec![0xeeu8; 4 * (n + 1 + ITEMS * n)];
        let out = d.dispatch(
            p,
            &[
                Binding::Read(&padded(enc.bytes.clone())),
                Binding::Write(&blank),
                Binding::Write(&garbage),
                Binding::Read(&padded(vv)),
                Binding::Read(&arr),
            ],
        );
        let out = match out {
            Ok(o) => o,
            Err(x) => {
                rep.count("structs the device refuses to run", 1);
                rep.sample(|| x);
                return;
            }
        };
        rep.count("dispatches", 1);
        let w = words(&out[0]);
        for (i, (l, x)) in e.lo.leaves.iter().zip(&v).enumerate() {
            rep.count("components read by shaders", 1);
            if !same(l, w[i], *x) {
                differ(rep, e, "a shader reads", l, w[i] as u64, word(l, *x) as u64, &v, &enc.bytes);
                return;
            }
        }
        if with_items {
            if w[n] != count {
                rep.viol(
                    format!("count: {} {}", e.lay.name(), e.desc.long()),
                    format!("{}: the shader reads {:x} for the number {count:x} before the items", what(), w[n]),
                );
            }
            for (j, iv) in iv.iter().enumerate() {
                for (i, (l, x)) in e.lo.leaves.iter().zip(iv).enumerate() {
                    rep.count("components of items read by shaders", 1);
                    if !same(l, w[n + 1 + j * n + i], *x) {
                        differ(rep, e, &format!("a shader reads in item {j}"), l, w[n + 1 + j * n + i] as u64, word(l, *x) as u64, iv, &arr);
                        return;
                    }
                }
            }
        }
        let back = rep.guard(&what, || (e.decode)(&out[1][..e.lo.size]));
        let Some(back) = back else { return };
        for ((l, a), b) in e.lo.leaves.iter().zip(&back).zip(&v) {
            rep.count("components written by shaders", 1);
            if a != b {
                differ(rep, e, "decoded from what a shader wrote", l, *a, *b, &v, &out[1]);
                return;
            }
        }
    }
}

/// Wrapped values bound one after another at the offsets the writer gave.
#[allow(clippy::too_many_arguments)]
fn uniform(e: &Erased, d: &Erased, own: (&str, &str), gen: (&str, &str), dev: Option<&Device>, r: &mut Rng, rep: &mut Report) {
    let Some((m, g)) = module(e, uniform_shader(e, own.0, own.1), uniform_shader(e, gen.0, gen.1), 0, rep) else { return };
    let _ = m;
    let what = || format!("DynamicUniform<{}>", e.name);
    let vs: Vec<Vec<u64>> = (0..3).map(|_| vals(e, Mode::Unique, r)).collect();
    let sink = Sink::new();
    let offs = rep.guard(&what, || {
        let mut w = AnyWriter::new(L::S140, sink.clone());
        vs.iter().map(|v| (d.write)(v, &mut w)).collect::<Result<Vec<_>, _>>()
    });
    let Some(offs) = offs else { return };
    let offs = match offs {
        Ok(o) => o,
        Err(x) => {
            rep.viol(format!("write: {}", what()), format!("{}: writing to memory failed: {x}", what()));
            return;
        }
    };
    let size = round_up(e.lo.size, 16);
    let data = {
        let mut x = sink.data();
        let n = offs.iter().max().unwrap() + size;
        x.resize(n.max(x.len()), 0);
        padded(x)
    };
    if let Some(bad) = offs.iter().find(|o| *o % 256 != 0) {
        rep.viol(
            format!("dynamic offset: {}", e.desc.long()),
            format!("{}: written at {bad}, which is no dynamic offset", what()),
        );
        return;
    }
    let doubles = e.lo.leaves.iter().any(|l| l.k == K::F64);
    let Some(dev) = dev.filter(|d| d.doubles() || !doubles) else { return };
    let kinds = [wgpu::BufferBindingType::Uniform, wgpu::BufferBindingType::Storage { read_only: false }];
    let Ok(p) = dev.pipeline(g, &kinds) else {
        rep.count("uniform blocks the device does not accept", 1);
        return;
    };
    for (o, v) in offs.iter().zip(&vs) {
        let blank = vec![0xeeu8; 4 * v.len()];
        match dev.dispatch(&p, &[Binding::Uniform(&data, *o, size), Binding::Write(&blank)]) {
            Err(x) => {
                rep.count("uniform blocks the device refuses to run", 1);
                rep.sample(|| x);
                return;
            }
            Ok(out) => {
                rep.count("dispatches at dynamic offsets", 1);
                let w = words(&out[0]);
                for (i, (l, x)) in e.lo.leaves.iter().zip(v).enumerate() {
                    rep.count("components read at dynamic offsets", 1);
                    if !same(l, w[i], *x) {
                        differ(rep, e, &format!("a shader reads at dynamic offset {o}"), l, w[i] as u64, word(l, *x) as u64, v, &data);
                        return;
                    }
                }
            }
        }
    }
}
