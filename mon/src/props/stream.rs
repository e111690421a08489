//! Monitors of writers and sizers.

use super::ops::*;
use super::*;
use crate::erased::{AnySizer, AnyWriter, How, HOWS};
use crate::model::{array_stride, round_up, Mode, L};
use crate::sink::{Chunk, Fault, Sink, Tagged};
use crate::src_impls::Odd;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{self, ErrorKind, Write};

const LAYOUTS: [L; 2] = [L::S140, L::S430];

/// More than a 16-bit counter counts.
const MANY: usize = 70_000;

/// Types whose encoded form has the size the model gives it.
fn usable<'a>(ctx: &'a Ctx, l: L) -> Vec<&'a Erased> {
    of(ctx.reg, l)
}

/// One type of each shape, the smaller ones.
fn representatives<'a>(ctx: &'a Ctx, l: L, max_size: usize) -> Vec<&'a Erased> {
    let mut seen = BTreeSet::new();
    of(ctx.reg, l).into_iter().filter(|e| e.lo.size <= max_size && seen.insert(shape(&e.desc))).collect()
}

/// Runs a sequence on a sink that accepts everything, in whatever portions,
/// and compares with the model. Gives the observed padding lengths.
fn run_ops(rep: &mut Report, l: L, ops: &[Op], chunk: Chunk, interrupts: u64, seed: u64) -> Option<Vec<usize>> {
    let sink = Sink::new();
    {
        let mut s = sink.0.borrow_mut();
        s.chunk = chunk;
        s.interrupt_one_in = interrupts;
        s.rng = Rng(seed);
        s.max_calls = 50_000_000;
        s.nested = seed % 3 == 2;
        if s.nested {
            rep.count("histories on sinks that write too", 1);
        }
    }
    let what = || format!("{} writer: {}", l.name(), describe(ops));
    let mut m = Model::new(l);
    let mut w = writer(l, &sink);
    if w.len() != 0 {
        rep.viol(format!("fresh len {}", l.name()), format!("a fresh {} writer has length {}", l.name(), w.len()));
    }
    for (i, op) in ops.iter().enumerate() {
        let want = op.model(&mut m);
        let (got, taken) = rep.guard(&what, || op.exec(&mut w))?;
        let here = || format!("operation {i} ({}) of {} writer: {}", op.describe(), l.name(), describe(ops));
        let tag = format!("{} {}", l.name(), op.describe());
        match got {
            Err(x) => {
                rep.viol(format!("write fails: {tag}"), format!("{x} although the sink accepts everything: {}", here()));
                return None;
            }
            Ok(at) if at != want => {
                rep.viol(format!("offset: {tag}"), format!("returned offset {at}, the value starts at {want}: {}", here()));
                return None;
            }
            _ => {}
        }
        if let Some((taken, n)) = taken {
            if taken != n {
                rep.viol(format!("consumed: {tag}"), format!("{taken} of {n} elements were consumed: {}", here()));
                return None;
            }
        }
        if w.len() != sink.len() || w.len() != m.out.len() {
            rep.viol(
                format!("len: {tag}"),
                format!("length {} after {} bytes were emitted, {} expected: {}", w.len(), sink.len(), m.out.len(), here()),
            );
            return None;
        }
    }
    let got = sink.data();
    if let Some(at) = diff(&got, &m.out) {
        // Which operation wrote it.
        let v = m.starts.iter().rposition(|s| *s <= at).unwrap_or(0);
        let a = at.saturating_sub(16);
        rep.viol(
            format!("bytes: {} {}", l.name(), ops.iter().take(3).map(|o| o.describe()).collect::<Vec<_>>().join(";")),
            format!(
                "byte {at} of the output is {:02x?}, expected {:02x?} (near value {v} at {:?}; around: [{}] vs [{}]): {}",
                got.get(at),
                m.out.get(at),
                m.starts.get(v),
                hex(&got[a..(at + 16).min(got.len())]),
                hex(&m.out[a..(at + 16).min(m.out.len())]),
                what()
            ),
        );
        return None;
    }
    rep.count("bytes compared", got.len() as u64);
    rep.count("writes", ops.len() as u64);
    rep.count("values", m.starts.len() as u64);
    let s = sink.0.borrow();
    rep.count("sink calls", s.calls);
    rep.count("interrupted calls", s.interrupts);
    Some(m.pads)
}

/// C08.
pub fn writers(ctx: &Ctx, rep: &mut Report) {
    let mut r = ctx.rng("writer");
    let mut pads = BTreeSet::new();
    for l in LAYOUTS {
        let es = usable(ctx, l);
        let small: Vec<&Erased> = es.iter().copied().filter(|e| e.lo.size <= 2048 && e.lo.align <= 512).collect();
        // Random histories.
        for i in 0..ctx.n(4, 500) {
            if rep.full() {
                return;
            }
            let pool = if i % 4 == 0 { &es } else { &small };
            let n = 1 + r.below(if i % 50 == 0 { 120 } else { 30 });
            let n = if ctx.deep == 0 { n.min(6) } else { n };
            let ops: Vec<Op> = (0..n).map(|_| random_op(&mut r, pool, 6)).collect();
            let chunk = *r.pick(&[Chunk::Full, Chunk::Full, Chunk::Random, Chunk::One]);
            let intr = if r.chance(1, 3) { 2 + r.below(6) as u64 } else { 0 };
            let text = describe(&ops);
            if let Some(p) = run_ops(rep, l, &ops, chunk, intr, r.0) {
                pads.extend(p);
            }
            rep.case(&key(&[l.name().as_bytes(), text.as_bytes()]), n > 1);
            rep.sample(|| format!("{} {:?}: {}", l.name(), chunk, text));
        }
        // Every ordered pair of shapes.
        let reps = representatives(ctx, l, 300);
        let reps: Vec<&Erased> = reps.into_iter().take(ctx.n(6, 70)).collect();
        for a in &reps {
            for b in &reps {
                if rep.full() {
                    return;
                }
                let ops =
                    [Op::One(a, vals(a, Mode::Unique, &mut r)), Op::One(b, vals(b, Mode::Ones, &mut r)), Op::One(a, vals(a, Mode::Ones, &mut r))];
                if let Some(p) = run_ops(rep, l, &ops, Chunk::Full, 0, 1) {
                    pads.extend(p);
                }
                rep.case(&key(&[l.name().as_bytes(), shape(&a.desc).as_bytes(), shape(&b.desc).as_bytes()]), true);
                rep.count("ordered pairs of types", 1);
            }
        }
        // Every start offset.
        let Some(byte) = of(ctx.reg, l).into_iter().find(|e| e.desc == Desc::Raw { size: 1, align: 1 }) else {
            rep.harness_errors.push("no one-byte type".into());
            return;
        };
        for e in &reps {
            let most = (2 * e.lo.align).min(ctx.n(6, 300));
            for k in 0..most {
                if rep.full() {
                    return;
                }
                let ops = [
                    Op::Many(byte, k, How::Iter, many_vals(byte, k, Mode::Ones, &mut r)),
                    Op::One(e, vals(e, Mode::Ones, &mut r)),
                ];
                if let Some(p) = run_ops(rep, l, &ops, Chunk::Full, 0, 1) {
                    pads.extend(p);
                }
                rep.case(&key(&[l.name().as_bytes(), shape(&e.desc).as_bytes(), &k.to_le_bytes()]), true);
                rep.count("start offsets", 1);
            }
        }
        // Other sinks.
        for e in &es {
            if ctx.deep == 0 && !r.chance(1, 60) {
                continue;
            }
            let n = r.below(4);
            let v = many_vals(e, n, Mode::Unique, &mut r);
            let how = *r.pick(&HOWS);
            let mut m = Model::new(l);
            Op::Many(e, n, how, v.clone()).model(&mut m);
            let what = || format!("write {} to a vector", show(e));
            match rep.guard(&what, || (e.into_vec)(&v, n, how)) {
                Some(Ok(b)) if b == m.out => rep.count("vectors", 1),
                Some(x) => rep.viol(sig("vector", e), format!("{}*{n}: a vector receives {x:02x?} instead of [{}]", show(e), hex(&m.out))),
                None => {}
            }
        }
    }
    rep.count("distinct padding lengths", pads.len() as u64);
    unwinding(ctx, rep);
    in_turns(ctx, rep, false);
    concurrent(ctx, rep);
    if ctx.deep > 0 {
        for l in LAYOUTS {
            let pool: Vec<&Erased> = representatives(ctx, l, 32).into_iter().filter(|e| e.lo.align <= 32).collect();
            let ops: Vec<Op> = (0..MANY)
                .map(|_| {
                    let e = *r.pick(&pool);
                    Op::One(e, vals(e, Mode::Unique, &mut r))
                })
                .collect();
            if run_ops(rep, l, &ops, Chunk::Full, 0, 1).is_some() {
                rep.count("histories of 70000 writes", 1);
            }
        }
        if !rep.prop.starts_with("UB") {
            big_writer(rep);
        }
    }
}

/// An element whose write, or whose making, panics.
struct Frail<'a> {
    id: Box<u32>,
    boom: Boom,
    at: u32,
    dropped: &'a std::cell::RefCell<Vec<u32>>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Boom {
    /// The iterator, instead of giving the element.
    Next,
    /// The element, before it writes, or when it has written half.
    Before,
    Half,
    /// The sink, when that many bytes were accepted.
    Sink,
}
impl Frail<'_> {
    fn boom(&self, b: Boom) {
        if *self.id == self.at && self.boom == b {
            panic!("planned");
        }
    }
}
impl Drop for Frail<'_> {
    fn drop(&mut self) {
        self.dropped.borrow_mut()[*self.id as usize] += 1;
    }
}
macro_rules! frail {
    ($($tr:ident $f:ident $m:ident)*) => {$(
        impl crevice::$m::$tr for Frail<'_> {
            fn $f<W: Write>(&self, w: &mut crevice::$m::Writer<W>) -> io::Result<usize> {
                self.boom(Boom::Before);
                let at = w.write(&mint::Vector2 { x: *self.id, y: 1 })?;
                self.boom(Boom::Half);
                w.write(&*self.id)?;
                Ok(at)
            }
        }
    )*};
}
frail!(WriteStd140 write_std140 std140 WriteStd430 write_std430 std430);

/// A panic of the caller's own code in the middle of a write leaves the
/// writer with the length of what it emitted, and usable.
fn unwinding(ctx: &Ctx, rep: &mut Report) {
    for l in LAYOUTS {
        for n in [1u32, 2, 3, 9, 40] {
            for boom in [Boom::Next, Boom::Before, Boom::Half, Boom::Sink] {
                for style in ["iter", "vector", "slice"] {
                    let mut ats = vec![0, n / 2, n - 1];
                    ats.dedup();
                    for at in ats {
                        if n > 3 && ctx.deep == 0 || style == "slice" && boom == Boom::Next {
                            continue;
                        }
                        let dropped = std::cell::RefCell::new(vec![0; n as usize]);
                        let made = std::cell::Cell::new(0);
                        let make = |id| {
                            if boom == Boom::Next && id == at {
                                panic!("planned");
                            }
                            made.set(made.get() + 1);
                            Frail { id: Box::new(id), boom, at, dropped: &dropped }
                        };
                        let sink = Sink::new();
                        if boom == Boom::Sink {
                            sink.0.borrow_mut().panic_at = Some(8 + 16 * at as u64 + 4);
                        }
                        let mut w = AnyWriter::new(l, sink.clone());
                        macro_rules! each {
                            ($w:ident => $e:expr) => {
                                match &mut w {
                                    AnyWriter::W140($w) => $e,
                                    AnyWriter::W430($w) => $e,
                                }
                            };
                        }
                        let what = format!("{} {n} elements by {style}, a panic of {boom:?} at {at}", l.name());
                        let ran = crate::report::caught(|| {
                            let _ = each!(w => w.write(&7u32));
                            match style {
                                "iter" => each!(w => w.write_iter((0..n).map(make))),
                                "vector" if boom == Boom::Next => each!(w => w.write_iter((0..n).map(make).take(1_000_000))),
                                "vector" => each!(w => w.write_iter((0..n).map(make).collect::<Vec<_>>())),
                                _ => {
                                    let v: Vec<Frail> = (0..n).map(make).collect();
                                    each!(w => w.write(v.as_slice()))
                                }
                            }
                        });
                        rep.case(what.as_bytes(), n > 1);
                        rep.count("writes cut by a panic", 1);
                        match &ran {
                            Err((m, _)) if m.as_str() == "planned" => {}
                            x => {
                                let x = match x {
                                    Ok(r) => format!("{r:?}"),
                                    Err((m, at)) => format!("another panic, {m} at {at}"),
                                };
                                rep.viol(format!("panic {} {style}", l.name()), format!("{what}: the write gives {x}"));
                                continue;
                            }
                        }
                        let out = sink.data();
                        let whole: Vec<u8> = std::iter::once(vec![7, 0])
                            .chain((0..n).map(|i| vec![i, 1, i, 0]))
                            .flatten()
                            .flat_map(u32::to_ne_bytes)
                            .collect();
                        let fine = if boom == Boom::Sink { w.len() <= out.len() } else { w.len() == out.len() };
                        if !fine || out.len() > whole.len() || out[..] != whole[..out.len()] {
                            rep.viol(
                                format!("panic {} {style} length", l.name()),
                                format!("{what}: length {} and {} bytes emitted: [{}]", w.len(), out.len(), hex(&out)),
                            );
                            continue;
                        }
                        if dropped.borrow().iter().any(|d| *d > 1) || dropped.borrow().iter().sum::<u32>() > made.get() {
                            rep.viol(format!("panic {} {style} drop", l.name()), format!("{what}: elements are dropped {:?} times", dropped.borrow()));
                            continue;
                        }
                        // The writer goes on.
                        if boom != Boom::Sink {
                            let before = out.len();
                            let Some(got) = rep.guard(&|| what.clone(), || each!(w => w.write(&9u32))) else { continue };
                            let want = before.div_ceil(4) * 4;
                            if got.as_ref().ok() != Some(&want) || w.len() != want + 4 || sink.data()[want..] != 9u32.to_ne_bytes() {
                                rep.viol(
                                    format!("panic {} {style} after", l.name()),
                                    format!("{what}: the next write gives {got:?}, length {}, {} bytes; {before} were there", w.len(), sink.len()),
                                );
                            }
                        }
                    }
                }
            }
        }
    }
}

/// Something handed to another thread while this one waits for it.
struct Handed<T>(T);
// SAFETY: one thread at a time uses what is inside, see `elsewhere`.
unsafe impl<T> Send for Handed<T> {}
impl<T: FnOnce() -> R, R> Handed<T> {
    fn call(self) -> Handed<R> {
        Handed((self.0)())
    }
}

/// Runs `f` in a thread of its own and waits for it.
fn elsewhere<R>(f: impl FnOnce() -> R) -> R {
    let f = Handed(f);
    std::thread::scope(|s| s.spawn(move || f.call()).join()).unwrap_or_else(|_| panic!("harness: the thread panicked")).0
}

/// Several writers, with a sizer each, used in turns, replaced by fresh ones
/// now and then, and handed from thread to thread: they know nothing of each
/// other. Checks the writers, or that the sizers predict them.
fn in_turns(ctx: &Ctx, rep: &mut Report, sizers: bool) {
    struct Place {
        l: L,
        w: AnyWriter,
        sink: Sink,
        z: AnySizer,
        m: Model,
    }
    let fresh = |r: &mut Rng| {
        let l = *r.pick(&LAYOUTS);
        let sink = Sink::new();
        Place { l, w: AnyWriter::new(l, sink.clone()), sink, z: AnySizer::new(l), m: Model::new(l) }
    };
    let mut r = ctx.rng("turns");
    let pools: Vec<Vec<&Erased>> =
        LAYOUTS.iter().map(|l| of(ctx.reg, *l).into_iter().filter(|e| e.lo.size <= 512 && e.lo.align <= 256).collect()).collect();
    for round in 0..ctx.n(1, 120) {
        if rep.full() {
            return;
        }
        let moves = round % 2 == 0;
        let mut places: Vec<Place> = (0..2 + r.below(4)).map(|_| fresh(&mut r)).collect();
        let mut text = Vec::new();
        for step in 0..if ctx.deep == 0 { 8 } else { 60 } {
            let i = r.below(places.len());
            if r.chance(1, 12) {
                places[i] = fresh(&mut r);
                text.push(format!("{i} is new"));
            }
            if r.chance(1, 20) {
                // Moved in memory.
                let j = r.below(places.len());
                places.swap(i, j);
                text.push(format!("{i} and {j} change places"));
            }
            let p = &mut places[i];
            let pool = &pools[if p.l == L::S140 { 0 } else { 1 }];
            let op = if sizers {
                let e = *r.pick(pool);
                Op::One(e, vals(e, Mode::Plain, &mut r))
            } else {
                random_op(&mut r, pool, 4)
            };
            text.push(format!("{i} ({}): {}", p.l.name(), op.describe()));
            let what = || {
                format!(
                    "step {step} of writers used in turns{}: {}",
                    if moves { " and in several threads" } else { "" },
                    text[text.len().saturating_sub(12)..].join("; ")
                )
            };
            let want = op.model(&mut p.m);
            let (w, z) = (&mut p.w, &mut p.z);
            let mut go = || {
                crate::report::caught(|| {
                    let predicted = if let Op::One(e, _) = &op { Some((e.sizer_add)(z)) } else { None };
                    (predicted, op.exec(w).0)
                })
            };
            let got = if moves && r.chance(1, 3) { elsewhere(go) } else { go() };
            let (predicted, got) = match got {
                Ok(x) => x,
                Err((m, at)) => {
                    rep.panicked(&what, m, at);
                    return;
                }
            };
            rep.count("operations in turns", 1);
            if sizers && (predicted != Some(want) || got.as_ref().ok() != Some(&want) || p.z.len() != p.w.len() || p.z.len() != p.m.out.len()) {
                rep.viol(
                    format!("turns: sizer {} {}", p.l.name(), op.describe()),
                    format!(
                        "the sizer says {predicted:?}, length {}; the writer {got:?}, length {}; expected {want}, {}: {}",
                        p.z.len(), p.w.len(), p.m.out.len(), what()
                    ),
                );
                return;
            }
            if !sizers && (got.as_ref().ok() != Some(&want) || p.w.len() != p.m.out.len() || p.sink.data() != p.m.out) {
                rep.viol(
                    format!("turns: writer {} {}", p.l.name(), op.describe()),
                    format!(
                        "returned {got:?}, length {}; expected {want}, {}; first other byte: {:?}: {}",
                        p.w.len(), p.m.out.len(), diff(&p.sink.data(), &p.m.out), what()
                    ),
                );
                return;
            }
        }
        rep.case(text.join(";").as_bytes(), true);
    }
}

/// Several threads with a writer and a sizer each.
fn concurrent(ctx: &Ctx, rep: &mut Report) {
    let mut r = ctx.rng("threads");
    let threads = if ctx.deep == 0 { 3 } else { 8 };
    let mut jobs = Vec::new();
    for i in 0..ctx.n(4, 400) {
        let l = LAYOUTS[i % 2];
        let pool: Vec<&Erased> = of(ctx.reg, l).into_iter().filter(|e| e.lo.size <= 512 && e.lo.align <= 256).collect();
        // Many of one type, so that all threads do the same at once.
        let e = *r.pick(&pool);
        let mut ops: Vec<Op> = (0..1 + r.below(4)).map(|_| Op::One(e, vals(e, Mode::Unique, &mut r))).collect();
        ops.extend((0..r.below(5)).map(|_| random_op(&mut r, &pool, 4)));
        let mut m = Model::new(l);
        let offs: Vec<usize> = ops.iter().map(|o| o.model(&mut m)).collect();
        jobs.push((l, ops, offs, m.out));
    }
    let bad = std::sync::Mutex::new(Vec::new());
    let done = std::sync::atomic::AtomicUsize::new(0);
    let start = std::sync::Barrier::new(threads);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (jobs, bad, done, start) = (&jobs, &bad, &done, &start);
            s.spawn(move || {
                for round in 0..3 {
                    start.wait();
                    for i in 0..jobs.len() {
                        let i = if round == 0 { i } else { (i + t * 13 * round) % jobs.len() };
                        let (l, ops, offs, want) = &jobs[i];
                        let ran = crate::report::caught(|| {
                            let sink = Sink::new();
                            sink.0.borrow_mut().chunk = [Chunk::Full, Chunk::Random, Chunk::One][(t + round) % 3];
                            sink.0.borrow_mut().max_calls = 1_000_000;
                            let mut w = writer(*l, &sink);
                            let got: Vec<Option<usize>> = ops.iter().map(|o| o.exec(&mut w).0.ok()).collect();
                            let mut z = AnySizer::new(*l);
                            for o in ops {
                                if let Op::One(e, _) = o {
                                    (e.sizer_add)(&mut z);
                                } else {
                                    break;
                                }
                            }
                            (got, sink.data(), w.len())
                        });
                        match ran {
                            Ok((got, out, len))
                                if &out == want && len == want.len() && got.iter().zip(offs).all(|(a, b)| *a == Some(*b)) =>
                            {
                                done.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                            }
                            Ok((_, out, _)) => bad.lock().unwrap().push((i, hex(&out[..out.len().min(300)]))),
                            Err((m, at)) => bad.lock().unwrap().push((i, format!("panic {m} at {at}"))),
                        }
                    }
                }
            });
        }
    });
    rep.count("histories in concurrent threads", done.load(std::sync::atomic::Ordering::Relaxed) as u64);
    for (i, x) in bad.into_inner().unwrap().into_iter().take(2) {
        let (l, ops, _, want) = &jobs[i];
        rep.viol(
            format!("threads {}: {}", l.name(), ops[0].describe()),
            format!(
                "{threads} threads, each with its own {} writer, run {}: one observes [{x}] instead of [{}]",
                l.name(),
                describe(ops),
                hex(&want[..want.len().min(300)])
            ),
        );
    }
}

/// Counts, and keeps small writes with their position.
#[derive(Default)]
struct Counter {
    at: u64,
    small: Vec<(u64, Vec<u8>)>,
}
impl Write for Counter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.len() <= 64 && b.iter().any(|x| *x != 0) {
            self.small.push((self.at, b.to_vec()));
        }
        self.at += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Past 2 GiB and 4 GiB.
#[cfg(target_pointer_width = "64")]
fn big_writer(rep: &mut Report) {
    const MB: usize = 1 << 20;
    type Block = Odd<16, MB>;
    macro_rules! go {
        ($m:ident, $l:expr) => {{
            let got = std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(|| {
                    crate::report::caught(|| {
                        let mut bad = None;
                        let mut c = Counter::default();
                        let mut want_small: Vec<(u64, Vec<u8>)> = Vec::new();
                        {
                            let mut w = crevice::$m::Writer::new(&mut c);
                            let block: Box<Block> =
                                unsafe { Box::from_raw(std::alloc::alloc_zeroed(std::alloc::Layout::new::<Block>()) as *mut Block) };
                            let mut at = 0u64;
                            let mut check = |want: u64, size: u64, got: io::Result<usize>, len: usize, at: &mut u64| {
                                *at = want + size;
                                if bad.is_none() && (got.as_ref().ok() != Some(&(want as usize)) || len as u64 != *at) {
                                    bad = Some(format!("a write at offset {want} returned {got:?} and left length {len} (expected {})", *at));
                                }
                            };
                            for i in 0..4200u64 {
                                let want = round_up(at as usize, 16) as u64;
                                let got = w.write(&*block);
                                check(want, MB as u64, got, w.len(), &mut at);
                                if i == 2046 || i == 2047 || i >= 4093 && i < 4099 {
                                    let x = f32::from_bits(0x4141_0000 + i as u32);
                                    let want = round_up(at as usize, 4) as u64;
                                    let got = w.write(&x);
                                    want_small.push((want, x.to_bits().to_ne_bytes().to_vec()));
                                    check(want, 4, got, w.len(), &mut at);
                                    let d = [f64::from_bits(0x4041_4242_4343_4444 + i), f64::from_bits(0x4041_4242_4343_5555 + i)];
                                    let want = round_up(at as usize, 8) as u64;
                                    let got = w.write(&d[..]);
                                    want_small.push((want, d[0].to_bits().to_ne_bytes().to_vec()));
                                    want_small.push((want + 8, d[1].to_bits().to_ne_bytes().to_vec()));
                                    check(want, 16, got, w.len(), &mut at);
                                }
                            }
                        }
                        // However the padding is written.
                        c.small.retain(|(_, b)| b.iter().any(|x| *x != 0));
                        if bad.is_none() && flat(&c.small) != flat(&want_small) {
                            bad = Some("values past 2 GiB were not found where they belong".to_string());
                        }
                        (bad, c.at)
                    })
                })
                .unwrap()
                .join();
            match got {
                Ok(Ok((None, n))) => rep.count("bytes in long outputs", n),
                Ok(Ok((Some(msg), _))) => rep.viol(format!("long output {}", $l.name()), format!("{}: {msg}", $l.name())),
                Ok(Err((msg, at))) => {
                    rep.viol(format!("long output {}", $l.name()), format!("{}: panic {msg} at {at}", $l.name()))
                }
                Err(_) => rep.harness_errors.push("long output thread".into()),
            }
        }};
    }
    fn flat(v: &[(u64, Vec<u8>)]) -> BTreeMap<u64, u8> {
        v.iter()
            .flat_map(|(a, b)| b.iter().enumerate().filter(|(_, x)| **x != 0).map(|(i, x)| (*a + i as u64, *x)).collect::<Vec<_>>())
            .collect()
    }
    go!(std140, L::S140);
    go!(std430, L::S430);
}
#[cfg(not(target_pointer_width = "64"))]
fn big_writer(_rep: &mut Report) {}

/// C09.
pub fn sizer(ctx: &Ctx, rep: &mut Report) {
    let mut r = ctx.rng("sizer");
    for l in LAYOUTS {
        let es = usable(ctx, l);
        for i in 0..ctx.n(4, 700) {
            if rep.full() {
                return;
            }
            let n = 1 + r.below(if i % 40 == 0 { 150 } else { 20 });
            let seq: Vec<&Erased> = (0..n).map(|_| *r.pick(&es)).collect();
            sizer_seq(rep, l, &seq, &mut r);
        }
        let reps: Vec<&Erased> = representatives(ctx, l, 1 << 20).into_iter().take(ctx.n(5, 90)).collect();
        for a in &reps {
            for b in &reps {
                if rep.full() {
                    return;
                }
                sizer_seq(rep, l, &[a, b, a], &mut r);
                rep.count("ordered pairs of types", 1);
            }
        }
        for e in &es {
            let v = vals(e, Mode::Unique, &mut r);
            let size = e.lo.size;
            let mut buf = vec![0xeeu8; size + 8];
            let what = || format!("write {} to a buffer", show(e));
            let Some(x) = rep.guard(&what, || (e.into_slice)(&v, &mut buf[..size])) else { continue };
            rep.count("exact buffers", 1);
            if !matches!(x, Ok(0)) || buf[..size] != e.lo.image(&v) || buf[size..] != [0xee; 8] {
                rep.viol(sig("exact", e), format!("{}: a buffer of {size} bytes gives {x:?} [{}]", show(e), hex(&buf)));
            }
            if size > 0 {
                let Some(x) = rep.guard(&what, || (e.into_slice)(&v, &mut buf[..size - 1])) else { continue };
                if x.is_ok() {
                    rep.viol(sig("short", e), format!("{}: a buffer of {} bytes gives {x:?}", show(e), size - 1));
                }
            }
        }
    }
    if ctx.deep > 0 {
        for l in LAYOUTS {
            let pool: Vec<&Erased> = representatives(ctx, l, 32).into_iter().filter(|e| e.lo.align <= 32).collect();
            let seq: Vec<&Erased> = (0..MANY).map(|_| *r.pick(&pool)).collect();
            sizer_seq(rep, l, &seq, &mut r);
            rep.count("sequences of 70000 entries", 1);
        }
    }
    in_turns(ctx, rep, true);
    huge_sizer(ctx, rep, &mut r);
}

fn sizer_seq(rep: &mut Report, l: L, seq: &[&Erased], r: &mut Rng) {
    let names = || {
        let mut s = seq.iter().map(|e| e.name.as_str()).collect::<Vec<_>>().join("; ");
        s.truncate(s.char_indices().take(1200).last().map(|(i, c)| i + c.len_utf8()).unwrap_or(0));
        s
    };
    let what = || format!("{} sizer and writer: {}", l.name(), names());
    let mut sizer = AnySizer::new(l);
    let sink = Sink::new();
    let mut w = AnyWriter::new(l, sink.clone());
    let mut m = Model::new(l);
    let mut vs = Vec::new();
    for (i, e) in seq.iter().enumerate() {
        let v = vals(e, Mode::Plain, r);
        let Some(at) = rep.guard(&what, || (e.sizer_add)(&mut sizer)) else { return };
        let Some(got) = rep.guard(&what, || (e.write)(&v, &mut w)) else { return };
        let want = m.put(e.lo.align, &e.lo.image(&v));
        vs.push(v);
        if got.as_ref().ok() != Some(&at) || sizer.len() != w.len() {
            rep.viol(
                format!("sizer: {} {}", l.name(), e.name),
                format!(
                    "entry {i} ({}): the sizer says offset {at}, length {}; the writer {got:?}, {}: {}",
                    e.name, sizer.len(), w.len(), what()
                ),
            );
            return;
        }
        if at != want || sizer.len() != m.out.len() || sink.len() != sizer.len() {
            rep.viol(
                format!("sizer: {} {}", l.name(), e.name),
                format!(
                    "entry {i} ({}): offset {at}, length {}, {} bytes emitted; expected offset {want}, length {}: {}",
                    e.name, sizer.len(), sink.len(), m.out.len(), what()
                ),
            );
            return;
        }
        rep.count("entries compared", 1);
    }
    rep.case(&key(&[l.name().as_bytes(), names().as_bytes()]), seq.len() > 1);
    rep.sample(|| format!("{}: {} -> {} bytes", l.name(), names(), sizer.len()));
    // A buffer of that many bytes, and one with a byte less.
    let total = sizer.len() as u64;
    for cap in [total, total.saturating_sub(1)] {
        if cap == total && !r.chance(1, 4) || cap < total && !r.chance(1, 4) {
            continue;
        }
        let fixed = Sink::new();
        fixed.0.borrow_mut().fail_at = Some(cap);
        let mut w = AnyWriter::new(l, fixed.clone());
        let mut failed = false;
        for (e, v) in seq.iter().zip(&vs) {
            match rep.guard(&what, || (e.write)(v, &mut w)) {
                Some(Ok(_)) => {}
                Some(Err(_)) => {
                    failed = true;
                    break;
                }
                None => return,
            }
        }
        rep.count("buffers of the predicted size", 1);
        if failed != (cap < total) {
            rep.viol(
                format!("capacity: {}", l.name()),
                format!("{total} bytes predicted, and a buffer of {cap} {}: {}", if failed { "fails" } else { "suffices" }, what()),
            );
        }
    }
}

#[cfg(target_pointer_width = "64")]
const HUGE: [usize; 6] = [(1 << 32) - 1, (1 << 32) + 1, 3 << 30, 1 << 40, (1 << 31) - 3, (1 << 44) + 5];
#[cfg(not(target_pointer_width = "64"))]
const HUGE: [usize; 6] = [(1 << 24) - 1, (1 << 24) + 1, 3 << 22, 1 << 25, (1 << 16) - 3, (1 << 26) + 5];

/// Offsets that do not fit 31 or 32 bits; only types are named, no value is
/// made.
fn huge_sizer(ctx: &Ctx, rep: &mut Report, r: &mut Rng) {
    macro_rules! huge {
        ($m:ident, $l:expr) => {{
            use crevice::$m::Sizer;
            type Add = (fn(&mut Sizer) -> usize, usize, usize, &'static str);
            macro_rules! t {
                ($t:ty, $a:expr, $n:expr) => {
                    (Sizer::add::<$t> as fn(&mut Sizer) -> usize, $a, $n, stringify!($t))
                };
            }
            let (d3, m3) = match $l {
                L::S140 => (32, 48),
                L::S430 => (32, 48),
            };
            let table: Vec<Add> = vec![
                t!(Odd<1, { HUGE[0] }>, 1, HUGE[0]),
                t!(Odd<8, { HUGE[1] }>, 8, HUGE[1]),
                t!(Odd<256, { HUGE[2] }>, 256, HUGE[2]),
                t!(Odd<4, { HUGE[3] }>, 4, HUGE[3]),
                t!(Odd<2, { HUGE[4] }>, 2, HUGE[4]),
                t!(Odd<64, { HUGE[5] }>, 64, HUGE[5]),
                t!(f32, 4, 4),
                t!(f64, 8, 8),
                t!(mint::Vector3<f32>, 16, 12),
                t!(mint::Vector3<f64>, d3, 24),
                t!(mint::ColumnMatrix3<f32>, 16, m3),
                t!(Odd<4096, 5>, 4096, 5),
                t!(Odd<{ HUGE[2] / 3 }, 7>, HUGE[2] / 3, 7),
            ];
            for _ in 0..ctx.n(3, 400) {
                let mut s = Sizer::new();
                let mut at: u128 = 0;
                let mut names = Vec::new();
                for _ in 0..1 + r.below(14) {
                    let (add, a, n, name) = r.pick(&table);
                    let want = at.div_ceil(*a as u128) * *a as u128;
                    if want + (*n as u128) > (isize::MAX as u128) / 2 {
                        break;
                    }
                    names.push(*name);
                    let text = names.join("; ");
                    let Some(got) = rep.guard(&|| format!("{} sizer: {text}", $l.name()), || add(&mut s)) else { break };
                    at = want + *n as u128;
                    rep.count("entries at huge offsets", (want > u32::MAX as u128) as u64);
                    if got as u128 != want || s.len() as u128 != at {
                        rep.viol(
                            format!("huge sizer {} {name}", $l.name()),
                            format!("{} sizer: {text}: offset {got}, length {}; expected {want}, {at}", $l.name(), s.len()),
                        );
                        break;
                    }
                }
                rep.case(names.join(";").as_bytes(), names.len() > 1);
            }
        }};
    }
    huge!(std140, L::S140);
    huge!(std430, L::S430);
}

/// C10.
pub fn slices(ctx: &Ctx, rep: &mut Report) {
    tokens(ctx, rep);
    let mut r = ctx.rng("slices");
    for l in LAYOUTS {
        let es = usable(ctx, l);
        let byte = es.iter().copied().find(|e| e.desc == Desc::Raw { size: 1, align: 1 });
        let Some(byte) = byte else {
            rep.harness_errors.push("no one-byte type".into());
            return;
        };
        for e in &es {
            for how in HOWS {
                if ctx.deep == 0 && !r.chance(1, 60) {
                    continue;
                }
                for round in 0..ctx.n(1, 3) {
                    if rep.full() {
                        return;
                    }
                    let lens: &[usize] = if e.lo.size > 512 { &[0, 1, 2, 3] } else { &[0, 1, 2, 3, 4, 5, 7, 8, 16] };
                    let n = if round == 0 { 2 } else { *r.pick(lens) };
                    slice_case(rep, l, byte, e, n, how, &mut r);
                }
            }
        }
        // Long ones, of every length around powers of two.
        let reps: Vec<&Erased> = representatives(ctx, l, 64).into_iter().collect();
        if ctx.deep > 0 {
            for e in &reps {
                for n in [15, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4096, 4097] {
                    if rep.full() {
                        return;
                    }
                    if n > 300 && (e.lo.align > 64 || !r.chance(1, 4)) || n > 70 && e.lo.align > 512 {
                        continue;
                    }
                    let how = *r.pick(&HOWS);
                    slice_case(rep, l, byte, e, n, how, &mut r);
                    rep.count("long slices", 1);
                }
            }
        }
        if ctx.deep > 0 {
            for e in reps.iter().filter(|e| e.lo.size <= 16 && e.lo.align <= 16) {
                if r.chance(1, 3) && !rep.full() {
                    let how = *r.pick(&HOWS);
                    slice_case(rep, l, byte, e, MANY, how, &mut r);
                    rep.count("slices of 70000 elements", 1);
                }
            }
        }
        // Elements of varying kind and size, and elements that emit nothing.
        for _ in 0..ctx.n(5, 3000) {
            if rep.full() {
                return;
            }
            let v: Vec<Item> = (0..r.below(7)).map(|_| Item::random(&mut r, 2)).collect();
            let k = r.below(40);
            let iter = r.chance(1, 2);
            let ops = [Op::Many(byte, k, How::Iter, many_vals(byte, k, Mode::Ones, &mut r)), Op::Items(v, iter)];
            let text = describe(&ops);
            if run_ops(rep, l, &ops, Chunk::Full, 0, 1).is_some() {
                rep.count("heterogeneous slices", 1);
            }
            rep.case(&key(&[l.name().as_bytes(), text.as_bytes()]), true);
        }
    }
}

/// Elements that know what becomes of them.
struct Token<'a> {
    id: usize,
    /// Written, dropped.
    log: &'a std::cell::RefCell<Vec<(usize, usize)>>,
    order: &'a std::cell::RefCell<Vec<usize>>,
}
impl Token<'_> {
    fn written(&self) -> u32 {
        self.log.borrow_mut()[self.id].0 += 1;
        self.order.borrow_mut().push(self.id);
        self.id as u32
    }
}
impl Drop for Token<'_> {
    fn drop(&mut self) {
        self.log.borrow_mut()[self.id].1 += 1;
    }
}
impl crevice::std140::WriteStd140 for Token<'_> {
    fn write_std140<W: Write>(&self, w: &mut crevice::std140::Writer<W>) -> io::Result<usize> {
        w.write(&self.written())
    }
}
impl crevice::std430::WriteStd430 for Token<'_> {
    fn write_std430<W: Write>(&self, w: &mut crevice::std430::Writer<W>) -> io::Result<usize> {
        w.write(&self.written())
    }
}

/// Each element is made, written and dropped once, in order.
fn tokens(ctx: &Ctx, rep: &mut Report) {
    for l in LAYOUTS {
        for n in [0, 1, 2, 3, 5, 8, 16, 17, 100, 257, 1000] {
            if n > ctx.n(5, 10_000) {
                continue;
            }
            for style in ["iter", "filtered", "vector", "boxed", "by reference", "slice"] {
                let log = std::cell::RefCell::new(vec![(0, 0); n]);
                let order = std::cell::RefCell::new(Vec::new());
                let make = |id| Token { id, log: &log, order: &order };
                let sink = Sink::new();
                let mut w = AnyWriter::new(l, sink.clone());
                macro_rules! go {
                    ($it:expr) => {
                        match &mut w {
                            AnyWriter::W140(w) => w.write_iter($it),
                            AnyWriter::W430(w) => w.write_iter($it),
                        }
                    };
                }
                let what = format!("{} {n} elements by {style}", l.name());
                let got = rep.guard(&|| what.clone(), || {
                    let _ = go!([7u32]);
                    match style {
                        "iter" => go!((0..n).map(make)),
                        "filtered" => go!((0..2 * n).filter(|i| i % 2 == 0).map(|i| make(i / 2))),
                        "vector" => go!((0..n).map(make).collect::<Vec<_>>()),
                        "boxed" => {
                            let b: Box<dyn Iterator<Item = Token> + '_> = Box::new((0..n).map(make));
                            go!(b)
                        }
                        "by reference" => {
                            let mut it = (0..n).map(make).fuse();
                            let r = go!(&mut it);
                            if it.next().is_some() {
                                return Err(io::Error::other("elements are left"));
                            }
                            r
                        }
                        _ => {
                            let v: Vec<Token> = (0..n).map(make).collect();
                            match &mut w {
                                AnyWriter::W140(w) => w.write(v.as_slice()),
                                AnyWriter::W430(w) => w.write(v.as_slice()),
                            }
                        }
                    }
                });
                let Some(got) = got else { return };
                let want: Vec<u8> = std::iter::once(7).chain(0..n as u32).flat_map(u32::to_ne_bytes).collect();
                rep.count("elements followed", n as u64);
                rep.case(what.as_bytes(), n > 1);
                if got.as_ref().ok() != Some(&4)
                    || sink.data() != want
                    || log.borrow().iter().any(|x| *x != (1, 1))
                    || !order.borrow().iter().copied().eq(0..n)
                {
                    let bad = log.borrow().iter().position(|x| *x != (1, 1));
                    rep.viol(
                        format!("elements {} {style}", l.name()),
                        format!(
                            "{what}: gives {got:?}, {} bytes; element {bad:?} is (written, dropped) {:?} times; written in order {:?}",
                            sink.len(),
                            bad.map(|i| log.borrow()[i]),
                            &order.borrow()[..order.borrow().len().min(20)]
                        ),
                    );
                }
            }
        }
    }
}

fn slice_case(rep: &mut Report, l: L, byte: &Erased, e: &Erased, n: usize, how: How, r: &mut Rng) {
    let k = match r.below(4) {
        0 => 0,
        1 => r.below(2 * e.lo.align.min(300) + 1),
        _ => r.below(48),
    };
    let v = many_vals(e, n, Mode::Unique, r);
    let ops = [
        Op::Many(byte, k, How::Iter, many_vals(byte, k, Mode::Ones, r)),
        Op::Many(e, n, how, v.clone()),
        Op::Many(byte, 1, How::Each, vec![0x7e]),
    ];
    rep.case(&key(&[l.name().as_bytes(), e.name.as_bytes(), &n.to_le_bytes(), &[how as u8], &k.to_le_bytes()]), n != 1);
    if run_ops(rep, l, &ops, Chunk::Full, 0, 1).is_none() {
        return;
    }
    rep.count("slices", 1);
    if n == 0 {
        rep.count("empty slices", 1);
    }
    rep.sample(|| format!("{} after {k} bytes: {}*{n} by {how:?}", l.name(), e.name));
    // The writer against itself: the same elements one by one.
    let sinks = [Sink::new(), Sink::new()];
    let per = e.lo.leaves.len();
    let _ = rep.guard(&|| format!("{} {}*{n}", l.name(), e.name), || {
        let mut a = AnyWriter::new(l, sinks[0].clone());
        let mut b = AnyWriter::new(l, sinks[1].clone());
        let _ = ops[0].exec(&mut a).0;
        let _ = ops[0].exec(&mut b).0;
        let _ = (e.many)(&v, n, &mut a, how);
        for i in 0..n {
            let _ = (e.write)(&v[i * per..(i + 1) * per], &mut b);
        }
    });
    if sinks[0].data() != sinks[1].data() {
        rep.viol(
            sig("slice", e),
            format!("{}*{n} by {how:?} after {k} bytes: [{}] but one by one [{}]", show(e), hex(&sinks[0].data()), hex(&sinks[1].data())),
        );
    }
}

/// C11.
pub fn arrays(ctx: &Ctx, rep: &mut Report) {
    let mut r = ctx.rng("arrays");
    for l in LAYOUTS {
        let es = usable(ctx, l);
        let byte = es.iter().copied().find(|e| e.desc == Desc::Raw { size: 1, align: 1 });
        let Some(byte) = byte else {
            rep.harness_errors.push("no one-byte type".into());
            return;
        };
        for e in &es {
            if has_raw(&e.desc) || e.lo.size == 0 {
                continue;
            }
            for how in [How::Slice, How::Iter, How::Blind, How::Old, How::Trait] {
                for (n, k) in [(2, 0), (3, r.below(33)), (*r.pick(&[4, 5, 9, 17]), r.below(600)), (17, 1)].into_iter().take(ctx.n(1, 3)) {
                    if rep.full() {
                        return;
                    }
                    array_case(rep, l, byte, e, n, k, how, &mut r);
                }
            }
        }
        if ctx.deep > 0 {
            for e in representatives(ctx, l, 512) {
                if has_raw(&e.desc) || e.lo.size == 0 {
                    continue;
                }
                let most = 1 + 400_000 / e.lo.size.max(e.lo.align);
                for n in [32, 33, 64, 65, 128, 129, 256, 257, 1024, 1025, 4097, MANY] {
                    if rep.full() {
                        return;
                    }
                    if n > most || n > 300 && !r.chance(1, 3) || n == MANY && e.lo.leaves.len() > 1 {
                        continue;
                    }
                    let how = *r.pick(&[How::Slice, How::Slice, How::Iter, How::Blind, How::Old, How::Trait]);
                    let k = r.below(40);
                    array_case(rep, l, byte, e, n, k, how, &mut r);
                    rep.count("long arrays", 1);
                }
            }
        }
    }
}

fn array_case(rep: &mut Report, l: L, byte: &Erased, e: &Erased, n: usize, k: usize, how: How, r: &mut Rng) {
    let per = e.lo.leaves.len();
    // Distinct elements, none of which is all zero.
    let mut v = many_vals(e, n, Mode::Unique, r);
    if e.lo.leaves.iter().all(|l| l.k == crate::model::K::B) {
        v.iter_mut().enumerate().for_each(|(i, x)| *x = (i % 3 != 1) as u64);
    }
    let sink = Sink::new();
    let what = || format!("{}*{n} by {how:?} after {k} bytes", show(e));
    let ran = rep.guard(&what, || {
        let mut w = AnyWriter::new(l, sink.clone());
        let _ = (byte.many)(&vec![0; k], k, &mut w, How::Iter);
        (e.many)(&v, n, &mut w, how).0
    });
    let Some(ran) = ran else { return };
    rep.case(&key(&[l.name().as_bytes(), e.name.as_bytes(), &n.to_le_bytes(), &k.to_le_bytes(), &[how as u8]]), true);
    rep.count("arrays", 1);
    rep.count("elements", n as u64);
    let out = sink.data();
    let start = match ran {
        Ok(s) => s,
        Err(x) => {
            rep.viol(sig("array write", e), format!("{}: {x}", what()));
            return;
        }
    };
    let images: Vec<Vec<u8>> = (0..n).map(|i| e.lo.image(&v[i * per..(i + 1) * per])).collect();
    let fits = |stride: usize| {
        images.iter().enumerate().all(|(i, img)| out.get(start + i * stride..start + i * stride + img.len()) == Some(&img[..]))
    };
    let want = array_stride(&e.lo, l);
    if start % e.lo.align != 0 || start < k {
        rep.viol(sig("array start", e), format!("{}: starts at {start}, alignment is {}", what(), e.lo.align));
        return;
    }
    if fits(want) {
        rep.count("at the GLSL stride", 1);
        return;
    }
    // The distance the elements of one size must have to fill the output.
    let spread = out.len().saturating_sub(start + e.lo.size);
    let stride = if spread % (n - 1) == 0 { Some(spread / (n - 1)) } else { None };
    match stride.filter(|s| *s > 0 && fits(*s)) {
        Some(s) => rep.viol(
            format!("{} array element={} stride={s} glsl={want}", l.name(), short(&e.desc)),
            format!("{}: elements are {s} bytes apart, in a GLSL {} array of {} they are {want}", what(), l.name(), e.desc.glsl()),
        ),
        None => rep.viol(
            format!("{} array element={} at no fixed stride", l.name(), short(&e.desc)),
            format!("{}: the elements are not at any fixed stride ({want} in GLSL): [{}]", what(), hex(&out)),
        ),
    }
}

fn short(d: &Desc) -> String {
    match d {
        Desc::Struct(..) => shape(d),
        d => d.glsl(),
    }
}

/// C12.
pub fn faults(ctx: &Ctx, rep: &mut Report) {
    let mut r = ctx.rng("faults");
    for l in LAYOUTS {
        let pool: Vec<&Erased> = of(ctx.reg, l).into_iter().filter(|e| e.lo.size <= 200 && e.lo.align <= 64).collect();
        let wide: Vec<&Erased> = of(ctx.reg, l).into_iter().filter(|e| e.lo.size <= 600).collect();
        for i in 0..ctx.n(1, 60) {
            if rep.full() {
                return;
            }
            let n = 1 + r.below(6);
            let mut ops: Vec<Op> = (0..n).map(|_| random_op(&mut r, if i % 8 == 0 { &wide } else { &pool }, 4)).collect();
            // At least one that pads, most of the time.
            if let Some(e) = pool.iter().find(|e| e.lo.align == 16 && e.lo.size == 12) {
                ops.push(Op::One(e, vals(e, Mode::Ones, &mut r)));
            }
            let mut m = Model::new(l);
            let mut bounds = vec![0];
            let mut offs = Vec::new();
            for op in &ops {
                offs.push(op.model(&mut m));
                bounds.push(m.out.len());
            }
            if m.out.len() > 3000 {
                continue;
            }
            let text = describe(&ops);
            rep.count("histories", 1);
            rep.sample(|| format!("{}: {} ({} bytes, a fault at each)", l.name(), text, m.out.len()));
            // Portions and interruptions only.
            for chunk in [Chunk::One, Chunk::Random] {
                run_ops(rep, l, &ops, chunk, 3, r.0);
                rep.count("histories on slow sinks", 1);
            }
            let step = if ctx.deep == 0 { 1 + m.out.len() / 12 } else { 1 };
            // Every byte; every kind of fault where an operation starts.
            for at in (0..m.out.len()).step_by(step) {
                let starts = bounds.contains(&at);
                let n = if starts || ctx.deep > 4 { 8 } else { 1 };
                for variant in 0..n {
                    if rep.full() {
                        return;
                    }
                    let (zero, transient) = match n {
                        1 => (r.chance(3, 8), r.chance(1, 2)),
                        _ => (variant % 2 == 0, variant / 2 % 2 == 0),
                    };
                    let fault = if zero {
                        Fault::Zero
                    } else {
                        fault(&mut r)
                    };
                    let chunk = *r.pick(&[Chunk::Full, Chunk::Full, Chunk::One, Chunk::Random]);
                    fault_case(rep, l, &ops, &bounds, &offs, &m.out, at, fault, transient, chunk, r.next());
                    rep.case(
                        &key(&[l.name().as_bytes(), text.as_bytes(), &at.to_le_bytes(), format!("{fault:?}{transient}{chunk:?}").as_bytes()]),
                        true,
                    );
                }
            }
        }
    }
    long_faults(ctx, rep, &mut r);
}

/// How sinks fail.
const KINDS: [ErrorKind; 16] = [
    ErrorKind::Other,
    ErrorKind::WriteZero,
    ErrorKind::WouldBlock,
    ErrorKind::BrokenPipe,
    ErrorKind::UnexpectedEof,
    ErrorKind::OutOfMemory,
    ErrorKind::PermissionDenied,
    ErrorKind::TimedOut,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::ConnectionReset,
    ErrorKind::NotConnected,
    ErrorKind::StorageFull,
    ErrorKind::Unsupported,
    ErrorKind::NotFound,
    ErrorKind::ConnectionAborted,
];

fn fault(r: &mut Rng) -> Fault {
    match r.below(4) {
        // EIO, EAGAIN, ENOSPC, EPIPE, EFBIG, and a number no one knows.
        0 => Fault::Os(*r.pick(&[5, 11, 28, 32, 27, 9999])),
        1 => Fault::Plain(*r.pick(&KINDS)),
        _ => Fault::Error(*r.pick(&KINDS)),
    }
}

/// Long slices against sinks that fail somewhere in the middle.
fn long_faults(ctx: &Ctx, rep: &mut Report, r: &mut Rng) {
    for l in LAYOUTS {
        let pool: Vec<&Erased> = representatives(ctx, l, 200).into_iter().filter(|e| e.lo.size > 0 && e.lo.align <= 256).collect();
        for i in 0..ctx.n(0, 60) {
            if rep.full() {
                return;
            }
            let e = *r.pick(&pool);
            let bytes = *r.pick(&[600, 1500, 5000, 9000, 20000]);
            let n = 2 + bytes / e.lo.size.max(e.lo.align);
            let how = HOWS[i % HOWS.len()];
            let (a, b) = (*r.pick(&pool), *r.pick(&pool));
            let ops = [
                Op::One(a, vals(a, Mode::Unique, r)),
                Op::Many(e, n, how, many_vals(e, n, Mode::Unique, r)),
                Op::One(b, vals(b, Mode::Ones, r)),
            ];
            let mut m = Model::new(l);
            let mut bounds = vec![0];
            let mut offs = Vec::new();
            for op in &ops {
                offs.push(op.model(&mut m));
                bounds.push(m.out.len());
            }
            let end = m.out.len();
            let mut ats: Vec<usize> = (0..6).map(|_| r.below(end)).collect();
            for k in [256, 1024, 4096, 8192, 16384] {
                ats.extend([k - 1, k, bounds[1] + k, bounds[1] + k - 1]);
            }
            ats.extend([bounds[1], bounds[1] + 1, bounds[2] - 1, bounds[2], end - 1]);
            for at in ats.into_iter().filter(|at| *at < end) {
                let fault = if r.chance(1, 2) { Fault::Zero } else { fault(r) };
                let chunk = *r.pick(&[Chunk::Full, Chunk::Random]);
                let transient = r.chance(1, 2);
                fault_case(rep, l, &ops, &bounds, &offs, &m.out, at, fault, transient, chunk, r.next());
                rep.count("faults in long slices", 1);
                rep.case(
                    &key(&[l.name().as_bytes(), describe(&ops).as_bytes(), &at.to_le_bytes(), format!("{fault:?}{transient}{chunk:?}").as_bytes()]),
                    true,
                );
            }
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn fault_case(
    rep: &mut Report,
    l: L,
    ops: &[Op],
    bounds: &[usize],
    offs: &[usize],
    full: &[u8],
    at: usize,
    fault: Fault,
    transient: bool,
    chunk: Chunk,
    tag: u64,
) {
    let sink = Sink::new();
    {
        let mut s = sink.0.borrow_mut();
        s.fail_at = Some(at as u64);
        s.fault = fault;
        s.transient = transient;
        s.chunk = chunk;
        s.tag = tag;
        s.rng = Rng(tag);
        s.max_calls = 1_000_000;
        s.interrupt_one_in = if tag % 3 == 0 { 4 } else { 0 };
    }
    let what = || {
        format!(
            "{} writer, {fault:?} {}after {at} bytes, sink accepts {chunk:?}: {}",
            l.name(),
            if transient { "once " } else { "" },
            describe(ops)
        )
    };
    let kind = |s: &str| {
        format!("{s} {} {}", l.name(), if matches!(fault, Fault::Zero) { "write zero" } else { "error" })
    };
    let mut w = writer(l, &sink);
    // The operation in which the fault falls.
    let hit = (0..ops.len()).find(|i| bounds[*i] <= at && at < bounds[*i + 1]).expect("harness: no operation at this offset");
    for i in 0..hit {
        let Some((got, _)) = rep.guard(&what, || ops[i].exec(&mut w)) else { return };
        if got.as_ref().ok() != Some(&offs[i]) || w.len() != bounds[i + 1] {
            rep.viol(kind("early"), format!("operation {i}, before the fault, gives {got:?}, length {}: {}", w.len(), what()));
            return;
        }
    }
    let Some((got, _)) = rep.guard(&what, || ops[hit].exec(&mut w)) else { return };
    rep.count("faults injected", 1);
    if sink.0.borrow().faults == 0 {
        rep.viol(kind("not reached"), format!("operation {hit} never reached the fault: {}", what()));
        return;
    }
    match (&got, fault) {
        (Ok(at), _) => {
            rep.viol(kind("swallowed"), format!("operation {hit} reports success at {at} although the sink failed: {}", what()));
            return;
        }
        (Err(x), Fault::Zero) => {
            if x.kind() != ErrorKind::WriteZero {
                rep.viol(kind("other error"), format!("operation {hit} reports {x:?}: {}", what()));
            }
        }
        (Err(x), Fault::Plain(k)) => {
            if x.kind() != k || x.get_ref().is_some() || x.raw_os_error().is_some() {
                rep.viol(kind("other error"), format!("operation {hit} reports {x:?}, not the error of the sink: {}", what()));
            }
        }
        (Err(x), Fault::Os(code)) => {
            if x.raw_os_error() != Some(code) {
                rep.viol(kind("other error"), format!("operation {hit} reports {x:?}, not the error of the sink: {}", what()));
            }
        }
        (Err(x), Fault::Error(k)) => {
            let same = x.get_ref().and_then(|e| e.downcast_ref::<Tagged>()).map(|t| t.0) == Some(tag);
            if x.kind() != k || !same {
                rep.viol(kind("other error"), format!("operation {hit} reports {x:?}, not the error of the sink: {}", what()));
            }
        }
    }
    let data = sink.data();
    if data.len() != at {
        rep.viol(
            kind("emits on"),
            format!("operation {hit} emitted {} more bytes after the fault: {}", data.len().saturating_sub(at), what()),
        );
        return;
    }
    if data[..] != full[..at] {
        rep.viol(kind("prefix"), format!("the sink did not receive a prefix of the fault-free output: {}", what()));
        return;
    }
    if w.len() > data.len() {
        rep.viol(kind("len"), format!("length {} after only {} bytes were accepted: {}", w.len(), data.len(), what()));
        return;
    }
    let nothing = at == bounds[hit];
    if nothing && w.len() != at {
        rep.viol(kind("len"), format!("length {} instead of {at} after a write that emitted nothing: {}", w.len(), what()));
        return;
    }
    if !transient {
        // Still failing: nothing may be emitted, and the length stays.
        if nothing {
            let Some((again, _)) = rep.guard(&what, || ops[hit].exec(&mut w)) else { return };
            if again.is_ok() || sink.len() != at || w.len() != at {
                rep.viol(
                    kind("again"),
                    format!("repeating operation {hit} on the failed sink gives {again:?}, length {}: {}", w.len(), what()),
                );
            }
            rep.count("repeated while failing", 1);
        }
        return;
    }
    if nothing {
        for i in hit..ops.len() {
            let Some((got, _)) = rep.guard(&what, || ops[i].exec(&mut w)) else { return };
            if got.as_ref().ok() != Some(&offs[i]) || w.len() != bounds[i + 1] || sink.len() != bounds[i + 1] {
                rep.viol(
                    kind("retry"),
                    format!(
                        "operation {i}, retried after a fault that emitted nothing, gives {got:?}, length {}, {} bytes; expected {} and {}: {}",
                        w.len(), sink.len(), offs[i], bounds[i + 1], what()
                    ),
                );
                return;
            }
        }
        if sink.data() != full {
            rep.viol(kind("retry"), format!("retrying gives another output: {}", what()));
        }
        rep.count("retries", 1);
    } else {
        // The rest, after a value that was cut off.
        for op in &ops[hit..] {
            let Some((got, _)) = rep.guard(&what, || op.exec(&mut w)) else { return };
            if w.len() > sink.len() {
                rep.viol(
                    kind("len"),
                    format!("length {} after only {} bytes were accepted, once writes go on and give {got:?}: {}", w.len(), sink.len(), what()),
                );
                return;
            }
        }
        rep.count("histories continued after a cut", 1);
    }
}

/// C13.
pub fn sizes(ctx: &Ctx, rep: &mut Report) {
    let mut r = ctx.rng("sizes");
    for e in &ctx.reg.types {
        if rep.full() {
            return;
        }
        if ctx.deep == 0 && !r.chance(1, 4) {
            continue;
        }
        rep.count("types", 1);
        for mode in [Mode::Unique, Mode::Zero] {
            let v = vals(e, mode, &mut r);
            let sink = Sink::new();
            let got = rep.guard(&|| format!("sizes of {}", show(e)), || {
                let mut w = AnyWriter::new(e.lay, sink.clone());
                let _ = (e.write)(&v, &mut w);
                let mut s = AnySizer::new(e.lay);
                (e.sizer_add)(&mut s);
                vec![
                    ("static size", (e.size_static)()),
                    ("dynamic size", (e.size_dyn)(&v)),
                    ("byte length", (e.encode)(&v).bytes.len()),
                    ("bytes emitted", sink.len()),
                    ("writer length", w.len()),
                    ("sizer", s.len()),
                    ("size of the output type", e.size_of),
                ]
            });
            let Some(got) = got else { break };
            rep.case(&key(&[e.label().as_bytes(), &valbytes(&v)]), true);
            rep.count("sizes compared", got.len() as u64);
            rep.sample(|| format!("{}: {got:?}", e.label()));
            if got.iter().any(|(_, n)| *n != got[0].1) {
                rep.viol(sig("sizes", e), format!("{}: sizes disagree: {got:?}", show(e)));
            }
        }
        for n in [0, 1, 2, 3, 1 + r.below(if e.lo.size > 512 { 3 } else { 40 })].into_iter().take(ctx.n(3, 5)) {
            let v = many_vals(e, n, Mode::Plain, &mut r);
            let sink = Sink::new();
            let got = rep.guard(&|| format!("sizes of {}", show(e)), || {
                let mut w = AnyWriter::new(e.lay, sink.clone());
                let _ = (e.many)(&v, n, &mut w, How::Slice);
                ((e.many_size)(&v, n), sink.len(), w.len())
            });
            let Some((size, emitted, len)) = got else { break };
            rep.count("slice sizes", 1);
            rep.case(&key(&[e.label().as_bytes(), &n.to_le_bytes()]), true);
            if size != emitted || len != emitted {
                rep.viol(
                    sig("slice size", e),
                    format!("{}: a slice of {n} reports size {size}, a writer emits {emitted} and has length {len}", show(e)),
                );
            }
        }
    }
    if ctx.deep > 0 {
        for l in LAYOUTS {
            for e in representatives(ctx, l, 256) {
                for n in [64, 257, 1000, 4097, MANY] {
                    if n > 1 + 300_000 / e.lo.size.max(1) || n > 300 && !r.chance(1, 8) || rep.full() {
                        continue;
                    }
                    let v = many_vals(e, n, Mode::Unique, &mut r);
                    let mut m = Model::new(l);
                    Op::Many(e, n, How::Slice, v.clone()).model(&mut m);
                    let Some(size) = rep.guard(&|| format!("size of {}*{n}", show(e)), || (e.many_size)(&v, n)) else { break };
                    rep.count("sizes of long slices", 1);
                    let sink = Sink::new();
                    let mut w = AnyWriter::new(l, sink.clone());
                    let _ = rep.guard(&|| format!("write {}*{n}", show(e)), || (e.many)(&v, n, &mut w, How::Slice).1);
                    if size != sink.len() || size != m.out.len() {
                        rep.viol(
                            sig("slice size", e),
                            format!("{}: a slice of {n} reports size {size}, a writer emits {}, expected {}", show(e), sink.len(), m.out.len()),
                        );
                    }
                }
            }
        }
        if !rep.prop.starts_with("UB") {
            big_sizes(rep);
        }
    }
    // User-defined writable types, which use the default, and slices of them.
    for l in LAYOUTS {
        for _ in 0..ctx.n(4, 2500) {
            if rep.full() {
                return;
            }
            let v: Vec<Item> = (0..r.below(5)).map(|_| Item::random(&mut r, 2)).collect();
            let item = Item::random(&mut r, 2);
            let text = format!("{} and [{}]", item.describe(), v.iter().map(|i| i.describe()).collect::<Vec<_>>().join(","));
            let sinks = [Sink::new(), Sink::new()];
            let got = rep.guard(&|| text.clone(), || {
                use crevice::std140::WriteStd140;
                use crevice::std430::WriteStd430;
                let s = match l {
                    L::S140 => (item.std140_size(), v.as_slice().std140_size()),
                    L::S430 => (item.std430_size(), v.as_slice().std430_size()),
                };
                let mut a = AnyWriter::new(l, sinks[0].clone());
                let mut b = AnyWriter::new(l, sinks[1].clone());
                match (&mut a, &mut b) {
                    (AnyWriter::W140(a), AnyWriter::W140(b)) => {
                        let _ = a.write(&item);
                        let _ = b.write(v.as_slice());
                    }
                    (AnyWriter::W430(a), AnyWriter::W430(b)) => {
                        let _ = a.write(&item);
                        let _ = b.write(v.as_slice());
                    }
                    _ => unreachable!(),
                }
                s
            });
            let Some(s) = got else { break };
            rep.count("user-defined writable values", 1);
            rep.case(&key(&[l.name().as_bytes(), text.as_bytes()]), true);
            if s != (sinks[0].len(), sinks[1].len()) {
                rep.viol(
                    format!("default size {}", l.name()),
                    format!("{}: {text}: reported sizes {s:?}, emitted {} and {}", l.name(), sinks[0].len(), sinks[1].len()),
                );
            }
        }
    }
}

/// Sizes past 4 GiB: values that take no memory and emit a megabyte.
#[cfg(target_pointer_width = "64")]
fn big_sizes(rep: &mut Report) {
    use crevice::{std140::WriteStd140, std430::WriteStd430};
    const MB: usize = 1 << 20;
    #[derive(Clone, Copy)]
    struct Page;
    static ZEROES: Odd<16, MB> = Odd([0; MB]);
    impl WriteStd140 for Page {
        fn write_std140<W: Write>(&self, w: &mut crevice::std140::Writer<W>) -> io::Result<usize> {
            w.write(&ZEROES)
        }
    }
    impl WriteStd430 for Page {
        fn write_std430<W: Write>(&self, w: &mut crevice::std430::Writer<W>) -> io::Result<usize> {
            w.write(&ZEROES)
        }
    }
    struct Book(usize);
    impl WriteStd140 for Book {
        fn write_std140<W: Write>(&self, w: &mut crevice::std140::Writer<W>) -> io::Result<usize> {
            w.write_iter((0..self.0).map(|_| Page))
        }
    }
    impl WriteStd430 for Book {
        fn write_std430<W: Write>(&self, w: &mut crevice::std430::Writer<W>) -> io::Result<usize> {
            w.write_iter((0..self.0).map(|_| Page))
        }
    }
    const N: usize = 4100;
    const V: [Page; N] = [Page; N];
    let asks: [(&str, fn() -> usize); 4] = [
        ("std140 slice", || V[..].std140_size()),
        ("std430 slice", || V[..].std430_size()),
        ("std140 iterator", || Book(N).std140_size()),
        ("std430 iterator", || Book(N).std430_size()),
    ];
    let threads: Vec<_> = asks
        .into_iter()
        .map(|(_, f)| std::thread::Builder::new().stack_size(256 << 20).spawn(move || crate::report::caught(f)).expect("harness: thread"))
        .collect();
    for ((what, _), t) in asks.into_iter().zip(threads) {
        match t.join() {
            Ok(Ok(n)) => {
                rep.count("sizes past 4 GiB", 1);
                if n != N * MB {
                    rep.viol(format!("big size: {what}"), format!("{what} of {N} values of one MiB has size {n}, expected {}", N * MB));
                }
            }
            Ok(Err((msg, at))) => rep.viol(format!("big size: {what}"), format!("{what} of {N} values of one MiB: panic {msg} at {at}")),
            Err(_) => rep.harness_errors.push("big size thread".into()),
        }
    }
}
#[cfg(not(target_pointer_width = "64"))]
fn big_sizes(_rep: &mut Report) {}

/// C14, in sequences.
pub fn dynamic(ctx: &Ctx, rep: &mut Report) {
    let mut r = ctx.rng("dynamic sequences");
    let l = L::S140;
    let all = of(ctx.reg, l);
    let dyns: Vec<&Erased> = all.iter().copied().filter(|e| has_dyn(&e.desc) && e.lo.size <= 4096).collect();
    let rest: Vec<&Erased> = all.iter().copied().filter(|e| !has_dyn(&e.desc) && e.lo.size <= 1024).collect();
    for _ in 0..ctx.n(3, 250) {
        if rep.full() {
            return;
        }
        let n = 1 + r.below(10);
        let mut seq = Vec::new();
        let mut ops = Vec::new();
        for _ in 0..n {
            let wrapped = r.chance(1, 2);
            let e = *r.pick(if wrapped { &dyns } else { &rest });
            seq.push(e);
            ops.push(if r.chance(1, 3) {
                let k = r.below(4);
                let how = *r.pick(&HOWS);
                Op::Many(e, k, how, many_vals(e, k, Mode::Unique, &mut r))
            } else {
                Op::One(e, vals(e, Mode::Unique, &mut r))
            });
        }
        let text = describe(&ops);
        rep.case(text.as_bytes(), true);
        if run_ops(rep, l, &ops, Chunk::Full, 0, 1).is_some() {
            rep.count("sequences with wrapped values", 1);
        }
        sizer_seq(rep, l, &seq, &mut r);
    }
    for e in &dyns {
        if rep.full() {
            return;
        }
        for n in [0, 1, 2, 3] {
            let v = many_vals(e, n, Mode::Unique, &mut r);
            let k = r.below(20);
            let f = many_vals(rest[0], k, Mode::Unique, &mut r);
            let ops = [Op::Many(rest[0], k, How::Each, f), Op::Many(e, n, How::Slice, v.clone())];
            if run_ops(rep, l, &ops, Chunk::Full, 0, 1).is_some() {
                rep.count("slices of wrapped values", 1);
            }
            let mut m = Model::new(l);
            ops[1].model(&mut m);
            let Some(s) = rep.guard(&|| show(e), || (e.many_size)(&v, n)) else { break };
            if s != m.out.len() {
                rep.viol(sig("dynamic slice size", e), format!("{}: a slice of {n} reports size {s}, expected {}", show(e), m.out.len()));
            }
        }
    }
}
