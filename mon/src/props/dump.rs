//! A description of everything the layout and codec do, in a form that can be
//! compared between builds: components are listed most significant byte first,
//! whatever the byte order of the target.

use super::*;
use crate::model::{Mode, L};
use std::fmt::Write;

fn canon(e: &Erased, b: &[u8]) -> String {
    if b.len() != e.lo.size {
        return format!("{} bytes", b.len());
    }
    let covered = e.lo.covered();
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if !covered[i] && *x != 0 {
            let _ = write!(s, "pad{i}={x:02x} ");
        }
    }
    for leaf in &e.lo.leaves {
        let mut w: Vec<u8> = b[leaf.off..leaf.off + leaf.k.size()].to_vec();
        if cfg!(target_endian = "little") {
            w.reverse();
        }
        for x in w {
            let _ = write!(s, "{x:02x}");
        }
        s.push(' ');
    }
    s
}

/// One line per type and layout: `key<TAB>facts`.
pub fn dump(ctx: &Ctx) -> Vec<String> {
    let mut out = Vec::new();
    for e in &ctx.reg.types {
        let mut r = Rng::new(ctx.seed, &e.label());
        let line = crate::report::caught(|| {
            let mut s = format!("size={} static={} align={}", e.size_of, (e.size_static)(), e.alignment);
            let modes: &[Mode] =
                if ctx.deep == 0 && e.lo.size > 100 { &[Mode::Unique] } else if ctx.deep == 0 { &[Mode::Unique, Mode::Plain] } else { &[Mode::Unique, Mode::Plain, Mode::Ones, Mode::Single] };
            for m in modes {
                let v = vals(e, *m, &mut r);
                let b = (e.encode)(&v).bytes;
                let _ = write!(s, " | {}", canon(e, &b));
                let _ = write!(s, "> {:x?}", (e.decode)(&b));
                // Decode and encode again, with garbage in the padding.
                if b.len() == e.lo.size {
                    let mut g = b.clone();
                    let covered = e.lo.covered();
                    for (i, x) in g.iter_mut().enumerate() {
                        if !covered[i] {
                            *x = 0xcc;
                        }
                    }
                    let _ = write!(s, " >> {:x?}", (e.decode)(&g));
                    if !e.raw {
                        let _ = write!(s, " {}", canon(e, &(e.recode)(&g)));
                    }
                }
            }
            s
        })
        .unwrap_or_else(|(m, l)| format!("panic {m} at {l}"));
        out.push(format!("{} {}\t{}", e.lay.name(), e.name, line));
    }
    // The rest from outside, and all between smaller ones in a sizer.
    for e in ctx.reg.rest.iter().flatten() {
        let line = crate::report::caught(|| {
            let mut s = format!("size={} static={} align={} set=", e.size_of, (e.size_static)(), e.alignment);
            if e.size_of <= 512 {
                // Which words the components cover.
                let b = (e.full)();
                s.extend(b.chunks(4).map(|w| if w == [0; 4] { '.' } else { 'x' }));
            }
            s
        })
        .unwrap_or_else(|(m, l)| format!("panic {m} at {l}"));
        out.push(format!("outline {} {}\t{}", e.lay.name(), e.name, line));
    }
    type Add = fn(&mut crate::erased::AnySizer) -> usize;
    let floats: [Add; 2] = [crate::registry::sizer140::<f32>, crate::registry::sizer430::<f32>];
    let all = ctx.reg.types.iter().map(|e| (e.lay, &e.name, e.sizer_add));
    let rest = ctx.reg.rest.iter().flatten().map(|e| (e.lay, &e.name, e.sizer_add));
    for (l, name, add) in all.chain(rest) {
        let float = floats[(l == L::S430) as usize];
        let line = crate::report::caught(|| {
            let mut z = crate::erased::AnySizer::new(l);
            let at = [float(&mut z), add(&mut z), float(&mut z), add(&mut z)];
            format!("{at:?} {}", z.len())
        })
        .unwrap_or_else(|(m, l)| format!("panic {m} at {l}"));
        out.push(format!("between {} {name}\t{line}", l.name()));
    }
    // Sizers over sequences of types every configuration has.
    for l in [L::S140, L::S430] {
        let base = ctx.reg.types.iter().filter(|e| {
            e.lay == l
                && (e.name.starts_with("mint::")
                    || e.desc.is_struct()
                    || matches!(e.name.as_str(), "f32" | "f64" | "i32" | "u32" | "bool"))
        });
        let mut sizer = crate::erased::AnySizer::new(l);
        for e in base {
            let at = (e.sizer_add)(&mut sizer);
            out.push(format!("sizer {} {}\t{} {}", l.name(), e.name, at, sizer.len()));
        }
    }
    #[cfg(feature = "std")]
    for e in ctx.reg.types.iter().filter(|e| ctx.deep > 0 || e.lo.size <= 100) {
        use crate::erased::How;
        let mut r = Rng::new(ctx.seed, &e.label());
        let line = crate::report::caught(|| {
            let v = vals(e, Mode::Unique, &mut r);
            let one = (e.into_vec)(&v, 1, How::Slice).map(|b| canon(e, &b));
            let v = many_vals(e, 3, Mode::Unique, &mut r);
            let three = (e.into_vec)(&v, 3, How::Iter).map(|b| b.len());
            format!("{one:?} {three:?} {} {}", (e.many_size)(&v, 3), (e.size_dyn)(&v))
        })
        .unwrap_or_else(|(m, l)| format!("panic {m} at {l}"));
        out.push(format!("writer {} {}\t{}", e.lay.name(), e.name, line));
    }
    for n in &ctx.reg.named {
        out.push(format!("glsl {}\t{}", n.name, n.glsl));
    }
    out
}
