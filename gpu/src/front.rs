//! The GLSL front end.

use mon::model::{Desc, Leaf, K, L};
use mon::registry::{GlslItem, Registry};
use mon::report::{caught, Report};
use std::collections::HashMap;

/// The structs a type needs, innermost first, each once.
pub fn structs<'a>(d: &'a Desc, out: &mut Vec<&'a Desc>) {
    if let Desc::Struct(n, fs) = d {
        for (_, f) in fs {
            structs(f, out);
        }
        if !out.iter().any(|x| matches!(x, Desc::Struct(m, _) if m == n)) {
            out.push(d);
        }
    }
}

/// A declaration written by the monitor itself.
pub fn own_text(d: &Desc) -> String {
    let Desc::Struct(n, fs) = d else { panic!("harness: not a struct") };
    let mut s = format!("struct {n} {{\n");
    for (f, t) in fs {
        s.push_str(&format!("  {} {f};\n", t.glsl()));
    }
    s + "};\n"
}

/// The definitions a type needs: by the monitor, and as generated.
pub fn texts(d: &Desc, items: &HashMap<&str, &GlslItem>) -> Option<(String, String)> {
    let mut need = Vec::new();
    structs(d, &mut need);
    let (mut own, mut gen) = (String::new(), String::new());
    for s in need {
        let Desc::Struct(n, fs) = s else { return None };
        if fs.is_empty() {
            return None;
        }
        own.push_str(&own_text(s));
        gen.push_str(&(items.get(n.as_str())?.text)());
        gen.push('\n');
    }
    Some((own, gen))
}

pub fn parse(src: &str) -> Result<naga::Module, String> {
    let r = caught(|| {
        naga::front::glsl::Frontend::default().parse(
            &naga::front::glsl::Options { stage: naga::ShaderStage::Compute, defines: Default::default() },
            src,
        )
    });
    match r {
        Ok(Ok(m)) => Ok(m),
        Ok(Err(e)) => Err(format!("{e:?}")),
        Err((m, _)) => Err(format!("the front end panicked: {m}")),
    }
}

fn scalar(s: &naga::Scalar) -> Option<K> {
    use naga::ScalarKind::*;
    Some(match (s.kind, s.width) {
        (Float, 4) => K::F32,
        (Float, 8) => K::F64,
        (Sint, 4) => K::I32,
        (Uint, 4) => K::U32,
        (Bool, _) => K::B,
        _ => return None,
    })
}

/// What the front end understood a type to be.
pub fn desc(m: &naga::Module, t: naga::Handle<naga::Type>) -> Option<Desc> {
    let ty = &m.types[t];
    Some(match &ty.inner {
        naga::TypeInner::Scalar(s) => Desc::Scalar(scalar(s)?),
        naga::TypeInner::Vector { size, scalar: s } => Desc::Vec(scalar(s)?, *size as usize),
        naga::TypeInner::Matrix { columns, rows, scalar: s } if *columns as usize == *rows as usize => {
            Desc::Mat(scalar(s)?, *rows as usize)
        }
        naga::TypeInner::Struct { members, .. } => {
            let mut fs = Vec::new();
            for x in members {
                fs.push((x.name.clone()?, desc(m, x.ty)?));
            }
            Desc::Struct(ty.name.clone()?, fs)
        }
        _ => return None,
    })
}

/// Where the front end puts each component.
pub fn leaves(m: &naga::Module, t: naga::Handle<naga::Type>, base: usize, path: &str, out: &mut Vec<Leaf>) -> Option<()> {
    match &m.types[t].inner {
        naga::TypeInner::Scalar(s) => out.push(Leaf { off: base, k: scalar(s)?, path: path.into() }),
        naga::TypeInner::Vector { size, scalar: s } => {
            for i in 0..*size as usize {
                out.push(Leaf {
                    off: base + i * s.width as usize,
                    k: scalar(s)?,
                    path: format!("{path}.{}", ["x", "y", "z", "w"][i]),
                });
            }
        }
        naga::TypeInner::Matrix { columns, rows, scalar: s } => {
            let w = s.width as usize;
            let stride = w * if *rows as usize == 2 { 2 } else { 4 };
            for c in 0..*columns as usize {
                for r in 0..*rows as usize {
                    out.push(Leaf { off: base + c * stride + r * w, k: scalar(s)?, path: format!("{path}[{c}][{r}]") });
                }
            }
        }
        naga::TypeInner::Struct { members, .. } => {
            for x in members {
                leaves(m, x.ty, base + x.offset as usize, &format!("{path}.{}", x.name.as_ref()?), out)?;
            }
        }
        _ => return None,
    }
    Some(())
}

/// The type of a global variable's block, and its members.
pub fn block<'a>(m: &'a naga::Module, binding: u32) -> Option<&'a [naga::StructMember]> {
    for (_, v) in m.global_variables.iter() {
        if v.binding.as_ref().map(|b| b.binding) == Some(binding) {
            if let naga::TypeInner::Struct { members, .. } = &m.types[v.ty].inner {
                return Some(members);
            }
        }
    }
    None
}

/// The offset and stride of an array member.
pub fn array(m: &naga::Module, x: &naga::StructMember) -> Option<(naga::Handle<naga::Type>, usize, usize)> {
    match &m.types[x.ty].inner {
        naga::TypeInner::Array { base, stride, .. } => Some((*base, x.offset as usize, *stride as usize)),
        _ => None,
    }
}

pub fn lay(l: L) -> &'static str {
    l.name()
}

fn program(defs: &str, name: &str) -> String {
    format!(
        "#version 450\nlayout(local_size_x = 1) in;\n{defs}\nlayout(std430, set = 0, binding = 0) buffer VPBUF {{ {name} vp_value; }};\nvoid main() {{}}\n"
    )
}

/// Every generated definition, as the front end understands it.
pub fn definitions(reg: &Registry, rep: &mut Report) {
    let items: HashMap<&str, &GlslItem> = reg.glsl.iter().map(|g| (g.glsl, g)).collect();
    for g in &reg.glsl {
        if rep.full() {
            return;
        }
        let Desc::Struct(name, _) = &g.desc else { continue };
        let Some((own, gen)) = texts(&g.desc, &items) else {
            rep.count("definitions the front end has no word for", 1);
            continue;
        };
        let look = |m: &naga::Module| block(m, 0).and_then(|b| desc(m, b[0].ty));
        match parse(&program(&own, name)) {
            Ok(m) if look(&m).as_ref() == Some(&g.desc) => (),
            _ => {
                rep.count("definitions the front end does not accept", 1);
                continue;
            }
        }
        rep.case(format!("naga {}", g.desc.long()).as_bytes(), true);
        rep.count("definitions parsed by naga", 1);
        match parse(&program(&gen, name)) {
            Err(e) => rep.viol(
                format!("naga rejects: {}", g.desc.long()),
                format!("{}: a GLSL front end rejects {:?}: {e}", g.name, (g.text)()),
            ),
            Ok(m) => {
                let got = look(&m);
                if got.as_ref() != Some(&g.desc) {
                    rep.viol(
                        format!("naga differs: {}", g.desc.long()),
                        format!(
                            "{}: a GLSL front end reads {} from {gen:?}, the declaration is {}",
                            g.name,
                            got.map(|d| d.long()).unwrap_or_default(),
                            g.desc.long()
                        ),
                    );
                }
            }
        }
    }
}
