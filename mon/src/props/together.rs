//! The same operations in many threads at once: what each observes is what it
//! would observe alone. Runs before anything else has run in the process, so
//! that the first use of everything happens in several threads, too.

use super::ops::*;
use super::*;
use crate::erased::{AnySizer, HOWS};
use crate::report::caught;
use crate::sink::{Chunk, Sink};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Barrier, Mutex};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Act {
    Encode,
    Decode,
    Round,
    Sizes,
    SliceSize,
    UserSize,
    Sizer,
    Write,
    Into,
    Define,
}
pub const ALL: [Act; 10] = [
    Act::Encode,
    Act::Decode,
    Act::Round,
    Act::Sizes,
    Act::SliceSize,
    Act::UserSize,
    Act::Sizer,
    Act::Write,
    Act::Into,
    Act::Define,
];

#[derive(Clone, PartialEq, Debug)]
enum Out {
    Bytes(Vec<u8>),
    Nums(Vec<u64>),
    Fields(Result<(String, Vec<(String, String)>), String>),
}
impl Out {
    fn show(&self) -> String {
        let mut s = match self {
            Out::Bytes(b) => format!("[{}]", hex(&b[..b.len().min(400)])),
            Out::Nums(v) => format!("{:x?}", &v[..v.len().min(60)]),
            Out::Fields(f) => format!("{f:?}"),
        };
        s.truncate(1500);
        s
    }
}

struct Job<'a> {
    act: Act,
    sig: String,
    what: String,
    run: Box<dyn Fn() -> Out + Send + Sync + 'a>,
    want: Out,
}

fn job<'a>(ctx: &'a Ctx, act: Act, r: &mut Rng) -> Option<Job<'a>> {
    let e = r.pick(&ctx.reg.types);
    if (e.size_of, e.alignment) != (e.lo.size, e.lo.align) || e.lo.size > 4096 {
        return None;
    }
    let mode = *r.pick(&[Mode::Unique, Mode::Random]);
    let n = r.below(6);
    let how = *r.pick(&HOWS);
    let (mut sig_of, mut what) = (sig("together", e), show(e));
    let covered = e.lo.covered();
    // Padding is not looked at here.
    let bare = move |mut b: Vec<u8>| {
        b.iter_mut().zip(&covered).filter(|(_, c)| !**c).for_each(|(x, _)| *x = 0);
        Out::Bytes(b)
    };
    let (run, want): (Box<dyn Fn() -> Out + Send + Sync + 'a>, Out) = match act {
        Act::Encode => {
            let v = vals(e, mode, r);
            let want = bare(e.lo.image(&v));
            (Box::new(move || bare((e.encode)(&v).bytes)), want)
        }
        Act::Decode => {
            let v = vals(e, mode, r);
            let b = e.lo.image(&v);
            (Box::new(move || Out::Nums((e.decode)(&b))), Out::Nums(v))
        }
        Act::Round => {
            let v = vals(e, mode, r);
            let want = v.clone();
            (Box::new(move || Out::Nums((e.round)(&v))), Out::Nums(want))
        }
        Act::Sizes => {
            let v = vals(e, mode, r);
            let want = vec![e.lo.size as u64; 2];
            (Box::new(move || Out::Nums(vec![(e.size_static)() as u64, (e.size_dyn)(&v) as u64])), Out::Nums(want))
        }
        Act::SliceSize | Act::Write | Act::Into => {
            let v = many_vals(e, n, mode, r);
            let mut m = Model::new(e.lay);
            let mut at = Op::Many(e, n, how, v.clone()).model(&mut m);
            what = format!("{what}*{n} by {how:?}");
            match act {
                Act::SliceSize => (Box::new(move || Out::Nums(vec![(e.many_size)(&v, n) as u64])), Out::Nums(vec![m.out.len() as u64])),
                Act::Into => (Box::new(move || Out::Bytes((e.into_vec)(&v, n, how).unwrap_or_default())), Out::Bytes(m.out)),
                _ => {
                    let mut before = None;
                    if r.chance(1, 2) {
                        let i = Item::random(r, 2);
                        m = Model::new(e.lay);
                        m.item(&i);
                        at = Op::Many(e, n, how, v.clone()).model(&mut m);
                        what = format!("{}; {what}", i.describe());
                        before = Some(Op::Item(i));
                    }
                    let chunk = *r.pick(&[Chunk::Full, Chunk::Random, Chunk::One]);
                    let op = Op::Many(e, n, how, v);
                    let mut want = m.out.clone();
                    // Where the last value of nothing goes is not of interest.
                    let at = if n == 0 { m.out.len() } else { at };
                    want.extend((at as u64).to_le_bytes());
                    want.extend((m.out.len() as u64).to_le_bytes());
                    let f = move || {
                        let sink = Sink::new();
                        sink.0.borrow_mut().chunk = chunk;
                        sink.0.borrow_mut().max_calls = 1_000_000;
                        let mut w = writer(e.lay, &sink);
                        if let Some(b) = &before {
                            let _ = b.exec(&mut w);
                        }
                        let at = op.exec(&mut w).0.unwrap_or(usize::MAX);
                        let at = if n == 0 { w.len() } else { at };
                        let mut got = sink.data();
                        got.extend((at as u64).to_le_bytes());
                        got.extend((w.len() as u64).to_le_bytes());
                        Out::Bytes(got)
                    };
                    (Box::new(f), Out::Bytes(want))
                }
            }
        }
        Act::UserSize => {
            let v: Vec<Item> = (0..r.below(4)).map(|_| Item::random(r, 2)).collect();
            let l = e.lay;
            let mut m = Model::new(l);
            m.items(&v);
            what = format!("[{}]", v.iter().map(|i| i.describe()).collect::<Vec<_>>().join(","));
            sig_of = format!("together: {} user-defined writable", l.name());
            (Box::new(move || Out::Nums(vec![items_size(l, &v) as u64])), Out::Nums(vec![m.out.len() as u64]))
        }
        Act::Sizer => {
            let pool: Vec<&Erased> = of(ctx.reg, e.lay).into_iter().filter(|e| (e.size_of, e.alignment) == (e.lo.size, e.lo.align)).collect();
            let seq: Vec<&Erased> = std::iter::once(e).chain((0..1 + r.below(5)).map(|_| *r.pick(&pool))).collect();
            let mut end = 0;
            let mut want: Vec<u64> = seq
                .iter()
                .map(|e| {
                    let at = crate::model::round_up(end, e.lo.align);
                    end = at + e.lo.size;
                    at as u64
                })
                .collect();
            want.push(end as u64);
            what = seq.iter().map(|e| e.name.clone()).collect::<Vec<_>>().join("; ");
            let l = e.lay;
            let f = move || {
                let mut z = AnySizer::new(l);
                let mut got: Vec<u64> = seq.iter().map(|e| (e.sizer_add)(&mut z) as u64).collect();
                got.push(z.len() as u64);
                Out::Nums(got)
            };
            (Box::new(f), Out::Nums(want))
        }
        Act::Define => {
            if ctx.reg.glsl.is_empty() {
                return None;
            }
            let g = r.pick(&ctx.reg.glsl);
            let Desc::Struct(name, fields) = &g.desc else { return None };
            let want = Ok((name.clone(), fields.iter().map(|(f, d)| (d.glsl(), f.clone())).collect()));
            what = format!("GLSL of {}", g.name);
            sig_of = format!("together: GLSL {}", g.desc.long());
            (Box::new(move || Out::Fields(super::glsl::parse(&(g.text)()))), Out::Fields(want))
        }
    };
    Some(Job { act, sig: sig_of, what, run, want })
}

pub fn items_size(l: L, v: &[Item]) -> usize {
    use crevice::{std140::WriteStd140, std430::WriteStd430};
    match l {
        L::S140 => v.std140_size(),
        L::S430 => v.std430_size(),
    }
}

pub fn together(ctx: &Ctx, rep: &mut Report, acts: &[Act]) {
    let mut r = ctx.rng("together");
    let threads = if ctx.deep == 0 { 3 } else { 8 };
    let mut jobs = Vec::new();
    for act in acts {
        for _ in 0..ctx.n(3, 150) {
            jobs.extend(job(ctx, *act, &mut r));
        }
    }
    for i in (1..jobs.len()).rev() {
        let j = r.below(i + 1);
        jobs.swap(i, j);
    }
    let burst = if ctx.deep == 0 { 1 } else { 12 };
    let (ran, overlapped) = (AtomicU64::new(0), AtomicU64::new(0));
    let bad: Mutex<Vec<(usize, String)>> = Mutex::new(Vec::new());
    let step = Barrier::new(threads);
    let inside = AtomicU64::new(0);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (jobs, bad, step, ran, overlapped, inside) = (&jobs, &bad, &step, &ran, &overlapped, &inside);
            let mut r = Rng::new(ctx.seed.wrapping_add(t as u64), "thread");
            s.spawn(move || {
                // All in step, then each in its own order.
                for round in 0..2 {
                    step.wait();
                    for i in 0..jobs.len() {
                        let i = if round == 0 { i } else { r.below(jobs.len()) };
                        if round == 0 && ctx.deep > 0 {
                            step.wait();
                        }
                        let j = &jobs[i];
                        for _ in 0..burst {
                            // Relaxed: these must not order what they count.
                            if inside.fetch_add(1, Ordering::Relaxed) > 0 {
                                overlapped.fetch_add(1, Ordering::Relaxed);
                            }
                            let got = caught(&j.run);
                            inside.fetch_sub(1, Ordering::Relaxed);
                            ran.fetch_add(1, Ordering::Relaxed);
                            match got {
                                Ok(got) if got == j.want => {}
                                Ok(got) => bad.lock().unwrap().push((i, got.show())),
                                Err((m, at)) => bad.lock().unwrap().push((i, format!("panic {m} at {at}"))),
                            }
                        }
                    }
                }
            });
        }
    });
    rep.count("operations in concurrent threads", ran.into_inner());
    rep.count("of them begun while another ran", overlapped.into_inner());
    for j in &jobs {
        rep.case(&key(&[format!("{:?}", j.act).as_bytes(), j.what.as_bytes(), j.want.show().as_bytes()]), true);
    }
    let mut bad = bad.into_inner().unwrap();
    bad.sort_by_key(|x| x.0);
    bad.dedup_by_key(|x| x.0);
    for (i, got) in bad.into_iter().take(5) {
        let j = &jobs[i];
        rep.viol(
            j.sig.clone(),
            format!("{threads} threads at once, {:?} of {}: one observes {got} instead of {}", j.act, j.what, j.want.show()),
        );
    }
}
