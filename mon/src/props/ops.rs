//! Sequences of writes: how to run them and what they should do.

use crate::erased::{AnyWriter, Erased, How, HOWS};
use crate::model::{layout, round_up, Desc, Mode, L, MODES};
use crate::props::{many_vals, vals};
use crate::rng::Rng;
use crate::sink::Sink;
use crate::src_impls::{Cur, Odd, Src};
use std::io;

/// Writable types that are not of one fixed size, as a user may define them.
pub enum Item {
    Nothing,
    F(f32),
    D(f64),
    V3(mint::Vector3<f32>),
    U2(mint::Vector2<u32>),
    M3(mint::ColumnMatrix3<f32>),
    M2(mint::ColumnMatrix2<f32>),
    DM2(mint::ColumnMatrix2<f64>),
    B(bool),
    O(Odd<32, 33>),
    Vs(Vec<mint::Vector3<f32>>),
    Ds(Vec<f64>),
    Bs(Vec<u8>),
    Is(Vec<Item>),
    /// Items through `write_iter`.
    It(Vec<Item>),
    /// A value and then items, the offset of the value being reported.
    Head(u32, Vec<Item>),
    /// The size of items, asked for while writing, and the items.
    Sized(Vec<Item>),
    /// Bytes that a writer of its own made of items.
    Own(Vec<Item>),
}

/// What the output should be, by the reference layout rules.
pub struct Model {
    pub l: L,
    pub out: Vec<u8>,
    pub starts: Vec<usize>,
    pub pads: Vec<usize>,
}

impl Model {
    pub fn new(l: L) -> Self {
        Model { l, out: Vec::new(), starts: Vec::new(), pads: Vec::new() }
    }
    pub fn put(&mut self, align: usize, image: &[u8]) -> usize {
        let at = round_up(self.out.len(), align);
        self.pads.push(at - self.out.len());
        self.out.resize(at, 0);
        self.out.extend_from_slice(image);
        self.starts.push(at);
        at
    }
    pub fn value<T: Src>(&mut self, v: &T) -> usize {
        let lo = layout(&T::desc(), self.l);
        let mut parts = Vec::new();
        v.put(&mut parts);
        self.put(lo.align, &lo.image(&parts))
    }
    fn all<T: Src>(&mut self, vs: &[T]) -> usize {
        let mut at = self.out.len();
        for (i, v) in vs.iter().enumerate() {
            let here = self.value(v);
            if i == 0 {
                at = here;
            }
        }
        at
    }
    pub fn items(&mut self, vs: &[Item]) -> usize {
        let mut at = self.out.len();
        for (i, v) in vs.iter().enumerate() {
            let here = self.item(v);
            if i == 0 {
                at = here;
            }
        }
        at
    }
    pub fn item(&mut self, v: &Item) -> usize {
        match v {
            Item::Nothing => self.out.len(),
            Item::F(x) => self.value(x),
            Item::D(x) => self.value(x),
            Item::V3(x) => self.value(x),
            Item::U2(x) => self.value(x),
            Item::M3(x) => self.value(x),
            Item::M2(x) => self.value(x),
            Item::DM2(x) => self.value(x),
            Item::B(x) => self.value(x),
            Item::O(x) => self.value(x),
            Item::Vs(x) => self.all(x),
            Item::Ds(x) => self.all(x),
            Item::Bs(x) => {
                let at = self.out.len();
                for b in x {
                    self.put(1, &[*b]);
                }
                at
            }
            Item::Is(x) | Item::It(x) => self.items(x),
            Item::Head(n, x) => {
                let at = self.value(n);
                self.items(x);
                at
            }
            Item::Sized(x) => {
                let mut m = Model::new(self.l);
                m.items(x);
                let at = self.value(&(m.out.len() as u32));
                self.items(x);
                at
            }
            Item::Own(x) => {
                let mut m = Model::new(self.l);
                m.items(x);
                let at = self.out.len();
                for b in m.out {
                    self.put(1, &[b]);
                }
                at
            }
        }
    }
}

macro_rules! item_write {
    ($m:ident, $Write:ident, $write:ident, $size:ident) => {
        impl crevice::$m::$Write for Item {
            fn $write<W: io::Write>(&self, w: &mut crevice::$m::Writer<W>) -> io::Result<usize> {
                match self {
                    Item::Nothing => Ok(w.len()),
                    Item::F(x) => w.write(x),
                    Item::D(x) => w.write(x),
                    Item::V3(x) => w.write(x),
                    Item::U2(x) => w.write(x),
                    Item::M3(x) => w.write(x),
                    Item::M2(x) => w.write(x),
                    Item::DM2(x) => w.write(x),
                    Item::B(x) => w.write(x),
                    Item::O(x) => w.write(x),
                    Item::Vs(x) => w.write(x.as_slice()),
                    Item::Ds(x) => w.write(x.as_slice()),
                    Item::Bs(x) => w.write_iter(x.iter().map(|b| Odd::<1, 1>([*b]))),
                    Item::Is(x) => w.write(x.as_slice()),
                    Item::It(x) => w.write_iter(x.iter().map(Ref)),
                    Item::Head(n, x) => {
                        let at = w.write(n)?;
                        w.write(&x[..])?;
                        Ok(at)
                    }
                    Item::Sized(x) => {
                        let at = w.write(&(crevice::$m::$Write::$size(x.as_slice()) as u32))?;
                        w.write(&x[..])?;
                        Ok(at)
                    }
                    Item::Own(x) => {
                        let mut b = Vec::new();
                        crevice::$m::Writer::new(&mut b).write(&x[..])?;
                        w.write_iter(b.into_iter().map(|b| Odd::<1, 1>([b])))
                    }
                }
            }
        }
        impl crevice::$m::$Write for Ref<'_> {
            fn $write<W: io::Write>(&self, w: &mut crevice::$m::Writer<W>) -> io::Result<usize> {
                self.0.$write(w)
            }
        }
    };
}
pub struct Ref<'a>(pub &'a Item);
item_write!(std140, WriteStd140, write_std140, std140_size);
item_write!(std430, WriteStd430, write_std430, std430_size);

fn any<T: Src>(r: &mut Rng) -> T {
    let leaves = layout(&T::desc(), L::S430).leaves;
    let m = *r.pick(&MODES);
    T::take(&mut Cur(&crate::model::values(&leaves, m, r)))
}

impl Item {
    pub fn random(r: &mut Rng, depth: usize) -> Item {
        let list = |r: &mut Rng| (0..r.below(5)).map(|_| Item::random(r, depth - 1)).collect::<Vec<_>>();
        match r.below(if depth == 0 { 13 } else { 18 }) {
            0 => Item::Nothing,
            1 => Item::F(any(r)),
            2 => Item::D(any(r)),
            3 => Item::V3(any(r)),
            4 => Item::U2(any(r)),
            5 => Item::M3(any(r)),
            6 => Item::M2(any(r)),
            7 => Item::DM2(any(r)),
            8 => Item::B(any(r)),
            9 => Item::O(any(r)),
            10 => Item::Vs((0..r.below(5)).map(|_| any(r)).collect()),
            11 => Item::Ds((0..r.below(5)).map(|_| any(r)).collect()),
            12 => Item::Bs((0..r.below(20)).map(|_| r.next() as u8).collect()),
            13 => Item::Is(list(r)),
            14 => Item::It(list(r)),
            15 => Item::Sized(list(r)),
            16 => Item::Own(list(r)),
            _ => Item::Head(r.next() as u32, list(r)),
        }
    }
    pub fn describe(&self) -> String {
        match self {
            Item::Nothing => "nothing".into(),
            Item::F(_) => "float".into(),
            Item::D(_) => "double".into(),
            Item::V3(_) => "vec3".into(),
            Item::U2(_) => "uvec2".into(),
            Item::M3(_) => "mat3".into(),
            Item::M2(_) => "mat2".into(),
            Item::DM2(_) => "dmat2".into(),
            Item::B(_) => "bool".into(),
            Item::O(_) => "raw<33,32>".into(),
            Item::Vs(x) => format!("vec3[{}]", x.len()),
            Item::Ds(x) => format!("double[{}]", x.len()),
            Item::Bs(x) => format!("byte*{}", x.len()),
            Item::Is(x) => format!("[{}]", x.iter().map(|i| i.describe()).collect::<Vec<_>>().join(",")),
            Item::It(x) => format!("iter[{}]", x.iter().map(|i| i.describe()).collect::<Vec<_>>().join(",")),
            Item::Sized(x) => format!("sized[{}]", x.iter().map(|i| i.describe()).collect::<Vec<_>>().join(",")),
            Item::Own(x) => format!("own[{}]", x.iter().map(|i| i.describe()).collect::<Vec<_>>().join(",")),
            Item::Head(_, x) => format!("head+[{}]", x.iter().map(|i| i.describe()).collect::<Vec<_>>().join(",")),
        }
    }
}

pub enum Op<'a> {
    One(&'a Erased, Vec<u64>),
    Many(&'a Erased, usize, How, Vec<u64>),
    Item(Item),
    Items(Vec<Item>, bool),
}

impl Op<'_> {
    pub fn describe(&self) -> String {
        match self {
            Op::One(e, _) => e.name.clone(),
            Op::Many(e, n, how, _) => format!("{}*{n} by {how:?}", e.name),
            Op::Item(i) => i.describe(),
            Op::Items(v, it) => {
                format!("{}[{}]", if *it { "iter" } else { "" }, v.iter().map(|i| i.describe()).collect::<Vec<_>>().join(","))
            }
        }
    }
    pub fn model(&self, m: &mut Model) -> usize {
        match self {
            Op::One(e, v) => m.put(e.lo.align, &e.lo.image(v)),
            Op::Many(e, n, _, v) => {
                let per = e.lo.leaves.len();
                let mut at = m.out.len();
                for i in 0..*n {
                    let here = m.put(e.lo.align, &e.lo.image(&v[i * per..(i + 1) * per]));
                    if i == 0 {
                        at = here;
                    }
                }
                at
            }
            Op::Item(i) => m.item(i),
            Op::Items(v, _) => m.items(v),
        }
    }
    /// Gives the result and the elements consumed, where that is known.
    pub fn exec(&self, w: &mut AnyWriter) -> (io::Result<usize>, Option<(usize, usize)>) {
        match self {
            Op::One(e, v) => ((e.write)(v, w), None),
            Op::Many(e, n, how, v) => {
                let (r, taken) = (e.many)(v, *n, w, *how);
                (r, Some((taken, *n)))
            }
            Op::Item(i) => (
                match w {
                    AnyWriter::W140(w) => w.write(i),
                    AnyWriter::W430(w) => w.write(i),
                },
                None,
            ),
            Op::Items(v, iter) => {
                let taken = std::cell::Cell::new(0);
                let it = v.iter().map(|x| {
                    taken.set(taken.get() + 1);
                    Ref(x)
                });
                let r = match (w, iter) {
                    (AnyWriter::W140(w), true) => w.write_iter(it),
                    (AnyWriter::W430(w), true) => w.write_iter(it),
                    (AnyWriter::W140(w), false) => w.write(v.as_slice()),
                    (AnyWriter::W430(w), false) => w.write(v.as_slice()),
                };
                (r, if *iter { Some((taken.get(), v.len())) } else { None })
            }
        }
    }
}

pub fn random_op<'a>(r: &mut Rng, es: &[&'a Erased], max_many: usize) -> Op<'a> {
    let e = *r.pick(es);
    let mode = *r.pick(&[Mode::Unique, Mode::Random, Mode::Ones, Mode::Plain, Mode::Special]);
    match r.below(20) {
        0..=11 => Op::One(e, vals(e, mode, r)),
        12..=16 => {
            let n = r.below(max_many + 1);
            let how = *r.pick(&HOWS);
            Op::Many(e, n, how, many_vals(e, n, mode, r))
        }
        17 | 18 => Op::Item(Item::random(r, 2)),
        _ => {
            let n = r.below(5);
            let v = (0..n).map(|_| Item::random(r, 1)).collect();
            Op::Items(v, r.chance(1, 2))
        }
    }
}

pub fn describe(ops: &[Op]) -> String {
    let mut s = ops.iter().map(|o| o.describe()).collect::<Vec<_>>().join("; ");
    if s.len() > 1500 {
        let mut n = 1500;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
        s.push_str("...");
    }
    s
}

pub fn writer(l: L, s: &Sink) -> AnyWriter {
    AnyWriter::new(l, s.clone())
}

pub fn desc_is_empty(d: &Desc) -> bool {
    layout(d, L::S430).size == 0
}
