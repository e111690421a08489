//! Monitors of encoding, decoding and layout of single values.

use super::*;
use crate::model::{Mode, K, L, MODES};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering};

fn in_scope(e: &Erased) -> bool {
    !has_raw(&e.desc)
}

/// C01 and C02.
pub fn layout_rules(ctx: &Ctx, rep: &mut Report, l: L) {
    let mut r = ctx.rng("layout");
    for e in of(ctx.reg, l) {
        if !in_scope(e) || rep.full() {
            continue;
        }
        layout_of(ctx, rep, e, &mut r);
    }
    for e in ctx.reg.huge.iter().filter(|e| e.lay == l) {
        if rep.full() {
            return;
        }
        rep.count("structs beyond 32 KiB", (e.lo.size > 32768) as u64);
        layout_of(ctx, rep, e, &mut r);
    }
}

pub fn layout_of(ctx: &Ctx, rep: &mut Report, e: &Erased, r: &mut Rng) {
    let l = e.lay;
    rep.count("types", 1);
    rep.count("components", e.lo.leaves.len() as u64);
    rep.count("padding bytes", e.lo.padding_bytes() as u64);
    if e.desc.is_struct() {
        rep.count("structs", 1);
    }
    rep.case(shape(&e.desc).as_bytes(), e.desc.is_struct());
    rep.sample(|| {
        format!(
            "{}: align {} size {} offsets {}",
            show(e),
            e.alignment,
            e.size_of,
            e.lo.leaves.iter().take(12).map(|l| format!("{}@{}", l.path, l.off)).collect::<Vec<_>>().join(" ")
        )
    });
    if e.alignment != e.lo.align {
        rep.viol(
            sig("align", e),
            format!("{}: reports alignment {}, GLSL says {}", show(e), e.alignment, e.lo.align),
        );
    }
    if !size_ok(rep, e) {
        return;
    }
    let s = rep.guard(&|| format!("size of {}", show(e)), e.size_static);
    if let Some(s) = s {
        if s != e.lo.size {
            rep.viol(sig("static size", e), format!("{}: static size {s}, GLSL says {}", show(e), e.lo.size));
        }
    }
    // Every component at its offset, nothing else.
    let v = vals(e, Mode::Unique, r);
    let Some(base) = rep.guard(&|| format!("encode {}", show(e)), || (e.encode)(&v).bytes) else { return };
    let want = e.lo.image(&v);
    if base != want {
        rep.viol(sig("offsets", e), bytes_msg(e, &base, &want, &v));
        return;
    }
    // Changing one component changes bytes of that component only.
    let n = e.lo.leaves.len();
    let most = ctx.n(3, 24).min(n);
    for t in 0..most {
        let i = if most == n { t } else { r.below(n) };
        let leaf = &e.lo.leaves[i];
        let mut w = v.clone();
        w[i] = leaf.k.mask(!w[i]);
        let Some(got) = rep.guard(&|| format!("encode {}", show(e)), || (e.encode)(&w).bytes) else { return };
        rep.count("single component changes", 1);
        let lo = leaf.off;
        let hi = leaf.off + leaf.k.size();
        let outside = base.iter().zip(&got).enumerate().find(|(j, (a, b))| a != b && (*j < lo || *j >= hi));
        if let Some((j, _)) = outside {
            rep.viol(
                sig("component", e),
                format!("{}: changing component {} (bytes {lo}..{hi}) changes byte {j}", show(e), leaf.path),
            );
            return;
        }
        if base[lo..hi] == got[lo..hi] {
            rep.viol(
                sig("component", e),
                format!("{}: changing component {} does not change bytes {lo}..{hi}", show(e), leaf.path),
            );
            return;
        }
    }
    // Consecutive structs are a GLSL array.
    if e.desc.is_struct() {
        let n = 3;
        let v = many_vals(e, n, Mode::Unique, r);
        let Some(got) = rep.guard(&|| format!("array of {}", show(e)), || (e.array)(&v, n)) else { return };
        let stride = crate::model::array_stride(&e.lo, l);
        let per = e.lo.leaves.len();
        let mut want = vec![0u8; stride * n];
        for i in 0..n {
            want[i * stride..i * stride + e.lo.size].copy_from_slice(&e.lo.image(&v[i * per..(i + 1) * per]));
        }
        rep.count("arrays", 1);
        if got != want {
            rep.viol(
                sig("array", e),
                format!(
                    "{}: three encoded values in a row are not an array of stride {stride}: [{}] instead of [{}]",
                    show(e),
                    hex(&got),
                    hex(&want)
                ),
            );
        }
    }
}

/// C03.
pub fn placement(ctx: &Ctx, rep: &mut Report) {
    let mut r = ctx.rng("placement");
    for e in &ctx.reg.types {
        if rep.full() {
            return;
        }
        rep.count("types", 1);
        for mode in MODES {
            // Interpreters care little about the values.
            if ctx.deep == 0 && !matches!(mode, Mode::Unique | Mode::Special) {
                continue;
            }
            let rounds = match mode {
                Mode::Zero | Mode::Ones => 1,
                Mode::Special => ctx.n(1, 24),
                Mode::Single => ctx.n(1, 8),
                _ => ctx.n(1, 6),
            };
            for _ in 0..rounds {
                let v = vals(e, mode, &mut r);
                let Some(enc) = rep.guard(&|| format!("encode {}", show(e)), || (e.encode)(&v)) else { break };
                check_places(rep, e, &v, &enc.bytes, "encode");
                rep.case(&key(&[e.label().as_bytes(), &valbytes(&v)]), v.iter().any(|x| *x != 0));
                rep.count("components compared", v.len() as u64);
                #[cfg(feature = "std")]
                {
                    let Some(w) = rep.guard(&|| format!("write {}", show(e)), || {
                        (e.into_vec)(&v, 1, crate::erased::How::Slice)
                    }) else {
                        break;
                    };
                    match w {
                        Ok(b) => check_places(rep, e, &v, &b, "write"),
                        Err(x) => rep.viol(sig("write", e), format!("{}: write to a vector fails: {x}", show(e))),
                    }
                }
                rep.sample(|| format!("{} {:?} {:x?}", e.label(), mode, &v[..v.len().min(8)]));
            }
        }
    }
    for e in &ctx.reg.huge {
        let v = vals(e, Mode::Random, &mut r);
        let Some(enc) = rep.guard(&|| format!("encode {}", show(e)), || (e.encode)(&v)) else { break };
        check_places(rep, e, &v, &enc.bytes, "encode");
        rep.case(&key(&[e.label().as_bytes(), &valbytes(&v)]), true);
        rep.count("huge values", 1);
    }
    for b in &ctx.reg.own_bytes {
        let v = values(&b.lo.leaves, Mode::Unique, &mut r);
        let Some(got) = rep.guard(&|| format!("as_bytes of {}", b.name), || (b.f)(&v)) else { continue };
        rep.count("inherent as_bytes", 1);
        if got != b.lo.image(&v) {
            rep.viol(
                format!("as_bytes: {}", b.name),
                format!("as_bytes of {}: [{}] instead of [{}]", b.name, hex(&got), hex(&b.lo.image(&v))),
            );
        }
    }
}

fn check_places(rep: &mut Report, e: &Erased, v: &[u64], bytes: &[u8], how: &str) {
    let want = e.lo.image(v);
    for (leaf, x) in e.lo.leaves.iter().zip(v) {
        let range = leaf.off..leaf.off + leaf.k.size();
        if bytes.get(range.clone()) != Some(&want[range.clone()]) {
            rep.viol(
                sig("place", e),
                format!(
                    "{}: {how} of component {} with bits {x:#x} leaves bytes {:?} = {:02x?}, expected {:02x?}",
                    show(e),
                    leaf.path,
                    range,
                    bytes.get(range.clone()),
                    &want[range.clone()]
                ),
            );
            return;
        }
    }
}

/// C04.
pub fn padding(ctx: &Ctx, rep: &mut Report) {
    let mut r = ctx.rng("padding");
    let types: Vec<&Erased> = ctx.reg.types.iter().collect();
    for e in &types {
        if rep.full() {
            return;
        }
        rep.count("types", 1);
        if !size_ok(rep, e) {
            continue;
        }
        let covered = e.lo.covered();
        rep.count("padding bytes", covered.iter().filter(|c| !**c).count() as u64);
        for mode in [Mode::Ones, Mode::Random, Mode::Zero, Mode::Unique] {
            if ctx.deep == 0 && mode != Mode::Ones {
                continue;
            }
            for _ in 0..ctx.n(1, 2) {
                let v = vals(e, mode, &mut r);
                let what = || format!("encode {}", show(e));
                let Some(first) = rep.guard(&what, || (e.encode)(&v)) else { break };
                rep.case(&key(&[e.label().as_bytes(), &valbytes(&v)]), covered.iter().any(|c| !c));
                if first.bytes.len() != e.lo.size {
                    rep.viol(sig("bytes", e), format!("{}: {} bytes are encoded, the form has {}", show(e), first.bytes.len(), e.lo.size));
                    break;
                }
                if let Some(i) = (0..first.bytes.len()).find(|i| !covered[*i] && first.bytes[*i] != 0) {
                    rep.viol(
                        sig("padding", e),
                        format!("{}: padding byte {i} is {:#x}; [{}]", show(e), first.bytes[i], hex(&first.bytes)),
                    );
                }
                if first.after != v {
                    rep.viol(sig("source", e), format!("{}: encoding changed the value {v:x?} to {:x?}", show(e), first.after));
                }
                for dirt in [0xaau8, 0xff, 0x55, 0x01].into_iter().take(ctx.n(1, 4)) {
                    let Some(b) = rep.guard(&what, || (e.encode_at)(&v, dirt)) else { break };
                    rep.count("encodings on dirty memory", 1);
                    if b != first.bytes {
                        rep.viol(
                            sig("impure", e),
                            format!("{}: encoding again on memory full of {dirt:#x}: {}", show(e), bytes_msg(e, &b, &first.bytes, &v)),
                        );
                    }
                }
                #[cfg(feature = "std")]
                if let Some(Ok(b)) = rep.guard(&what, || (e.into_vec)(&v, 1, crate::erased::How::Direct)) {
                    rep.count("writes", 1);
                    if let Some(i) = (0..b.len().min(covered.len())).find(|i| !covered[*i] && b[*i] != 0) {
                        rep.viol(sig("padding", e), format!("{}: padding byte {i} is written as {:#x}", show(e), b[i]));
                    }
                }
                rep.sample(|| format!("{} {:?}: [{}]", e.label(), mode, hex(&first.bytes)));
            }
        }
    }
    for e in &ctx.reg.huge {
        let v = vals(e, Mode::Ones, &mut r);
        let Some(first) = rep.guard(&|| format!("encode {}", show(e)), || (e.encode_at)(&v, 0xff)) else { break };
        let covered = e.lo.covered();
        rep.case(&key(&[e.label().as_bytes(), &valbytes(&v)]), true);
        rep.count("huge values", 1);
        if let Some(i) = (0..first.len().min(covered.len())).find(|i| !covered[*i] && first[*i] != 0) {
            rep.viol(sig("padding", e), format!("{}: padding byte {i} is {:#x}", show(e), first[i]));
        }
    }
    // Several threads encode the same values at once.
    let threads = if ctx.deep == 0 { 3 } else { 8 };
    let mut jobs: Vec<(&Erased, Vec<u64>, Vec<u8>)> = Vec::new();
    for _ in 0..ctx.n(6, 1500) {
        let e = *r.pick(&types);
        if e.size_of != e.lo.size {
            continue;
        }
        let v = vals(e, Mode::Random, &mut r);
        let Some(b) = rep.guard(&|| format!("encode {}", show(e)), || (e.encode)(&v).bytes) else { break };
        jobs.push((e, v, b));
    }
    let bad = std::sync::Mutex::new(Vec::new());
    let done = AtomicUsize::new(0);
    let start = std::sync::Barrier::new(threads);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (jobs, bad, done, start) = (&jobs, &bad, &done, &start);
            s.spawn(move || {
                start.wait();
                for round in 0..2 {
                    for i in 0..jobs.len() {
                        // All in step in one round, all apart in the other.
                        let i = if round == 0 { i } else { (i * 7 + t * 131) % jobs.len() };
                        let (e, v, b) = &jobs[i];
                        match crate::report::caught(|| (e.encode)(v).bytes) {
                            Ok(x) if &x == b => {
                                done.fetch_add(1, Ordering::Relaxed);
                            }
                            Ok(x) => bad.lock().unwrap().push((i, x)),
                            Err(_) => bad.lock().unwrap().push((i, Vec::new())),
                        }
                    }
                }
            });
        }
    });
    rep.count("encodings in concurrent threads", done.load(Ordering::Relaxed) as u64);
    for (i, x) in bad.into_inner().unwrap().into_iter().take(3) {
        let (e, v, b) = &jobs[i];
        rep.viol(sig("threads", e), format!("in a thread: {}", bytes_msg(e, &x, b, v)));
    }
}

/// C05.
pub fn round_trip(ctx: &Ctx, rep: &mut Report) {
    let mut r = ctx.rng("round");
    for e in &ctx.reg.types {
        if rep.full() {
            return;
        }
        rep.count("types", 1);
        for mode in MODES {
            // Interpreters care little about the values.
            if ctx.deep == 0 && !matches!(mode, Mode::Unique | Mode::Special) {
                continue;
            }
            let rounds = match mode {
                Mode::Zero | Mode::Ones => 1,
                Mode::Special => ctx.n(1, 16),
                Mode::Random => ctx.n(1, 12),
                _ => ctx.n(1, 5),
            };
            for _ in 0..rounds {
                let v = vals(e, mode, &mut r);
                let what = || format!("round trip of {}", show(e));
                let Some(back) = rep.guard(&what, || (e.round)(&v)) else { break };
                rep.case(&key(&[e.label().as_bytes(), &valbytes(&v)]), v.iter().any(|x| *x != 0));
                rep.count("components compared", v.len() as u64);
                check_round(rep, e, &v, &back, "directly");
                let Some(b) = rep.guard(&what, || (e.encode)(&v).bytes) else { break };
                if b.len() != e.size_of {
                    rep.viol(sig("bytes", e), format!("{}: {} bytes are encoded, the form has {}", show(e), b.len(), e.size_of));
                    break;
                }
                let skew = r.below(16);
                let mut buf = vec![0xeeu8; b.len() + 32];
                buf[skew..skew + b.len()].copy_from_slice(&b);
                let Some(back) = rep.guard(&what, || (e.decode)(&buf[skew..skew + b.len()])) else { break };
                rep.count("through bytes", 1);
                check_round(rep, e, &v, &back, "through its bytes");
                let Some(again) = rep.guard(&what, || (e.recode)(&b)) else { break };
                if again != b {
                    rep.viol(sig("again", e), format!("encoding the decoded value again: {}", bytes_msg(e, &again, &b, &v)));
                }
                rep.sample(|| format!("{} {:?} {:x?}", e.label(), mode, &v[..v.len().min(8)]));
            }
        }
    }
    for e in &ctx.reg.huge {
        let v = vals(e, Mode::Random, &mut r);
        let what = || format!("round trip of {}", show(e));
        let Some(back) = rep.guard(&what, || (e.round)(&v)) else { break };
        rep.case(&key(&[e.label().as_bytes(), &valbytes(&v)]), true);
        rep.count("huge values", 1);
        check_round(rep, e, &v, &back, "directly");
    }
}

fn check_round(rep: &mut Report, e: &Erased, v: &[u64], back: &[u64], how: &str) {
    if v == back {
        return;
    }
    let i = v.iter().zip(back).position(|(a, b)| a != b).unwrap_or(0);
    rep.viol(
        sig("round", e),
        format!(
            "{}: component {} goes in as {:#x} and comes back {how} as {:#x}",
            show(e),
            e.lo.leaves[i].path,
            v[i],
            back[i]
        ),
    );
}

/// C06.
pub fn any_bytes(ctx: &Ctx, rep: &mut Report) {
    let mut r = ctx.rng("bytes");
    for e in &ctx.reg.types {
        if rep.full() {
            return;
        }
        rep.count("types", 1);
        if !size_ok(rep, e) {
            continue;
        }
        let covered = e.lo.covered();
        let size = e.lo.size;
        let has_bool = e.lo.leaves.iter().any(|l| l.k == K::B);
        let rounds = ctx.n(2, 28);
        for round in 0..rounds {
            // Component bits (never a signalling NaN where those may not
            // survive), then garbage for padding and for boolean words.
            let mode = MODES[round % MODES.len()];
            let mut b = e.lo.image(&vals(e, mode, &mut r));
            for leaf in &e.lo.leaves {
                if leaf.k == K::B {
                    let w: u32 = match r.below(8) {
                        0 => 0,
                        1 => 1,
                        2 => u32::MAX,
                        3 => 1 << r.below(32),
                        4 => 0x8000_0000,
                        5 => *r.pick(&[2, 0x100, 0x1_0000, 0x100_0000, 0x7f80_0000, 0xffff_fffe]),
                        6 => 1u32.swap_bytes(),
                        _ => r.next() as u32,
                    };
                    b[leaf.off..leaf.off + 4].copy_from_slice(&w.to_ne_bytes());
                }
            }
            if round != 0 {
                let style = r.below(3);
                for i in 0..size {
                    if !covered[i] {
                        b[i] = match style {
                            0 => r.next() as u8,
                            1 => 0xff,
                            _ => (i as u8) | 1,
                        };
                    }
                }
            }
            let want = e.lo.read(&b);
            let what = || format!("decode {}", show(e));
            let Some(got) = rep.guard(&what, || (e.decode)(&b)) else { break };
            rep.case(&key(&[e.label().as_bytes(), &b]), true);
            rep.count("components compared", got.len() as u64);
            if got != want {
                let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(0);
                rep.viol(
                    sig("decode", e),
                    format!(
                        "{}: bytes [{}] decode with component {} = {:#x}, GLSL reads {:#x}",
                        show(e),
                        hex(&b),
                        e.lo.leaves[i].path,
                        got[i],
                        want[i]
                    ),
                );
                break;
            }
            // Other padding, same value.
            let mut c = b.clone();
            for i in 0..size {
                if !covered[i] {
                    c[i] = !c[i];
                }
            }
            let Some(got) = rep.guard(&what, || (e.decode)(&c)) else { break };
            if got != want {
                rep.viol(sig("padding read", e), format!("{}: other padding bytes give another value: [{}] and [{}]", show(e), hex(&b), hex(&c)));
            }
            rep.count("padding variations", 1);
            let Some(again) = rep.guard(&what, || (e.recode)(&b)) else { break };
            let canon = e.lo.image(&want);
            if !e.raw || again.len() != canon.len() {
                if again != canon {
                    rep.viol(sig("recode", e), format!("encoding the decoded value again: {}", bytes_msg(e, &again, &canon, &want)));
                }
            } else if e.lo.read(&again) != want {
                rep.viol(sig("recode", e), format!("{}: encoding the decoded value again changes components", show(e)));
            }
            if has_bool {
                rep.count("with arbitrary boolean words", 1);
            }
            rep.sample(|| format!("{} [{}]", e.label(), hex(&b)));
        }
        if let Some((v, b)) = rep.guard(&|| format!("zeroed {}", show(e)), e.zeroed) {
            rep.count("zeroed", 1);
            if v.iter().any(|x| *x != 0) || b.iter().any(|x| *x != 0) {
                rep.viol(sig("zeroed", e), format!("{}: the zeroed value has components {v:x?}", show(e)));
            }
        }
    }
}

/// Debug output of encoded forms, for the sanitizers: reads every member.
pub fn debug_output(_ctx: &Ctx, rep: &mut Report) {
    use crevice::std140::AsStd140;
    use crevice::std430::AsStd430;
    let v = mint::Vector3 { x: true, y: false, z: true };
    let s = format!("{:?} {:?}", v.as_std140(), v.as_std430());
    rep.count("debug output bytes", s.len() as u64);
}

/// C07.
pub fn libraries(ctx: &Ctx, rep: &mut Report) {
    let mut r = ctx.rng("libs");
    for l in [L::S140, L::S430] {
        let mut groups: BTreeMap<String, Vec<&Erased>> = BTreeMap::new();
        for e in of(ctx.reg, l) {
            if !has_raw(&e.desc) && !has_dyn(&e.desc) {
                groups.entry(shape(&e.desc)).or_default().push(e);
            }
        }
        for (shape, es) in &groups {
            if es.len() < 2 || rep.full() {
                continue;
            }
            rep.count("groups", 1);
            rep.count("types", es.len() as u64);
            rep.sample(|| {
                format!("{} in {}: {}", shape, l.name(), es.iter().map(|e| e.name.clone()).collect::<Vec<_>>().join(", "))
            });
            let a = es[0];
            for e in es {
                if (e.size_of, e.alignment) != (a.size_of, a.alignment) {
                    rep.viol(
                        sig("libs", e),
                        format!(
                            "{} has size {} and alignment {}, {} has {} and {}",
                            show(e), e.size_of, e.alignment, show(a), a.size_of, a.alignment
                        ),
                    );
                }
            }
            if es.iter().any(|e| e.size_of != a.size_of || e.lo.leaves.len() != a.lo.leaves.len()) {
                continue;
            }
            for mode in MODES {
                for _ in 0..ctx.n(1, if mode == Mode::Zero { 1 } else { 10 }) {
                    let v = vals(a, mode, &mut r);
                    let mut all = Vec::new();
                    for e in es {
                        let Some(b) = rep.guard(&|| format!("encode {}", show(e)), || (e.encode)(&v).bytes) else { continue };
                        all.push((e, b));
                    }
                    rep.case(&key(&[shape.as_bytes(), l.name().as_bytes(), &valbytes(&v)]), v.iter().any(|x| *x != 0));
                    if e_ne(&all) {
                        let (x, b) = &all[0];
                        let (y, c) = all.iter().find(|(_, c)| c != b).unwrap();
                        rep.viol(
                            sig("libs", y),
                            format!("{} and {} differ for {v:x?}: [{}] and [{}]", show(x), show(y), hex(b), hex(c)),
                        );
                        break;
                    }
                    // A pair chosen at random, and every one from the first.
                    for (i, (e, _)) in all.iter().enumerate() {
                        let (from, b) = if i == 0 { &all[all.len() - 1] } else { &all[i - 1] };
                        let Some(got) = rep.guard(&|| format!("decode {}", show(e)), || (e.decode)(b)) else { break };
                        rep.count("values passed between libraries", 1);
                        if got != v {
                            rep.viol(
                                sig("cross", e),
                                format!("{} decodes the bytes of {} to {got:x?} instead of {v:x?}", show(e), show(from)),
                            );
                        }
                    }
                }
            }
        }
    }
    let mut by: BTreeMap<String, (&str, &str)> = BTreeMap::new();
    for n in &ctx.reg.named {
        rep.count("type names", 1);
        let first = by.entry(n.desc.glsl()).or_insert((n.glsl, &n.name));
        if first.0 != n.glsl {
            rep.viol(
                format!("name: {}", n.name),
                format!("{} is called {:?} in GLSL, but {} is called {:?}", n.name, n.glsl, first.1, first.0),
            );
        }
        if n.glsl != n.desc.glsl() {
            rep.viol(
                format!("name: {}", n.name),
                format!("{} is called {:?} in GLSL instead of {:?}", n.name, n.glsl, n.desc.glsl()),
            );
        }
    }
}

fn e_ne(all: &[(&&Erased, Vec<u8>)]) -> bool {
    all.windows(2).any(|w| w[0].1 != w[1].1)
}

/// C14, single values.
pub fn dynamic(ctx: &Ctx, rep: &mut Report) {
    let mut r = ctx.rng("dynamic");
    let all = of(ctx.reg, L::S140);
    for e in &all {
        if rep.full() {
            return;
        }
        if has_dyn(&e.desc) && !has_raw(&e.desc) && e.desc.is_struct() {
            rep.count("structs with wrapped fields", 1);
            layout_of(ctx, rep, e, &mut r);
        }
        let Desc::Dyn(inner) = &e.desc else { continue };
        let Some(i) = all.iter().find(|i| &i.desc == &**inner && e.name == format!("DynamicUniform<{}>", i.name)) else {
            continue;
        };
        rep.count("wrapped types", 1);
        rep.sample(|| format!("{}: alignment {} -> {}", i.name, i.alignment, e.alignment));
        let want = i.alignment.max(256);
        if e.alignment != want || e.alignment != e.lo.align {
            rep.viol(
                sig("dynamic align", e),
                format!("{}: alignment {}, while {} has {}, so {want} is expected", show(e), e.alignment, i.name, i.alignment),
            );
        }
        if e.size_of != i.size_of || (e.size_static)() != (i.size_static)() {
            rep.viol(
                sig("dynamic size", e),
                format!("{}: size {} ({}), unwrapped {}", show(e), e.size_of, (e.size_static)(), i.size_of),
            );
            continue;
        }
        for mode in MODES {
            for _ in 0..ctx.n(1, 3) {
                let v = vals(e, mode, &mut r);
                let what = || format!("encode {}", show(e));
                let Some(b) = rep.guard(&what, || (e.encode)(&v)) else { break };
                let Some(c) = rep.guard(&what, || (i.encode)(&v)) else { break };
                rep.case(&key(&[e.label().as_bytes(), &valbytes(&v)]), true);
                if b.bytes != c.bytes {
                    rep.viol(sig("dynamic bytes", e), format!("wrapped and unwrapped differ: {}", bytes_msg(e, &b.bytes, &c.bytes, &v)));
                }
                let Some(back) = rep.guard(&what, || ((e.round)(&v), (e.decode)(&c.bytes), (i.decode)(&b.bytes))) else { break };
                if back != (v.clone(), v.clone(), v.clone()) {
                    rep.viol(sig("dynamic round", e), format!("{}: {v:x?} comes back as {:x?}", show(e), back));
                }
            }
        }
    }
}
