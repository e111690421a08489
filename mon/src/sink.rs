//! A scripted sink: records what a writer emits, and injects faults.

use crate::rng::Rng;
use std::cell::RefCell;
use std::io::{self, Write};
use std::rc::Rc;

#[derive(Debug)]
pub struct Tagged(pub u64);
impl std::fmt::Display for Tagged {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected fault {}", self.0)
    }
}
impl std::error::Error for Tagged {}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault {
    /// An error carrying an id.
    Error(io::ErrorKind),
    /// An error of a kind and nothing else.
    Plain(io::ErrorKind),
    /// An error of the operating system's.
    Os(i32),
    /// `write` accepts nothing and returns `Ok(0)`.
    Zero,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Chunk {
    Full,
    One,
    Random,
}

pub struct State {
    pub data: Vec<u8>,
    /// Bytes accepted so far. Equals data.len() unless `keep` is limited.
    pub accepted: u64,
    pub calls: u64,
    /// Calls made after the sink reported a fault.
    pub calls_after_fault: u64,
    pub faults: u64,
    pub interrupts: u64,
    pub flushes: u64,
    /// Fault when this many bytes have been accepted.
    pub fail_at: Option<u64>,
    pub fault: Fault,
    /// Panic once when this many bytes have been accepted.
    pub panic_at: Option<u64>,
    /// The fault goes away after it was reported once.
    pub transient: bool,
    pub chunk: Chunk,
    pub interrupt_one_in: u64,
    pub rng: Rng,
    pub tag: u64,
    /// Keep only the last bytes (0: keep all).
    pub keep: usize,
    pub max_calls: u64,
    /// The sink uses writers of its own before it looks at what it is given.
    pub nested: bool,
}

/// What a sink does with writers and sizers of its own.
pub fn other_work() {
    let a = mint::ColumnMatrix4::<f32>::from([[-3.5f32; 4]; 4]);
    let v = mint::Vector3::<f64>::from([-3.5f64; 3]);
    macro_rules! go {
        ($m:ident) => {{
            let mut w = crevice::$m::Writer::new(io::sink());
            let _ = w.write(&true);
            let _ = w.write(&a);
            let _ = w.write(&[v, v][..]);
            let _ = w.write_iter([7u32, 8, 9]);
            let mut s = crevice::$m::Sizer::new();
            s.add::<f32>();
            s.add::<mint::ColumnMatrix3<f32>>();
        }};
    }
    go!(std140);
    go!(std430);
}

#[derive(Clone)]
pub struct Sink(pub Rc<RefCell<State>>);

impl Sink {
    pub fn new() -> Self {
        Sink(Rc::new(RefCell::new(State {
            data: Vec::new(),
            accepted: 0,
            calls: 0,
            calls_after_fault: 0,
            faults: 0,
            interrupts: 0,
            flushes: 0,
            fail_at: None,
            fault: Fault::Zero,
            panic_at: None,
            transient: false,
            chunk: Chunk::Full,
            interrupt_one_in: 0,
            rng: Rng(1),
            tag: 0,
            keep: 0,
            max_calls: u64::MAX,
            nested: false,
        })))
    }
    pub fn len(&self) -> usize {
        self.0.borrow().accepted as usize
    }
    pub fn data(&self) -> Vec<u8> {
        self.0.borrow().data.clone()
    }
}

impl Default for Sink {
    fn default() -> Self {
        Self::new()
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        if s.nested {
            other_work();
        }
        s.calls += 1;
        if s.calls > s.max_calls {
            drop(s);
            panic!("runaway: the writer keeps calling the sink");
        }
        if s.faults > 0 && !buf.is_empty() {
            s.calls_after_fault += 1;
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if s.interrupt_one_in > 0 {
            let n = s.interrupt_one_in;
            if s.rng.chance(1, n) {
                s.interrupts += 1;
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
        }
        let mut n = match s.chunk {
            Chunk::Full => buf.len(),
            Chunk::One => 1,
            Chunk::Random => 1 + s.rng.below(buf.len()),
        };
        if s.panic_at.is_some_and(|at| s.accepted + n as u64 > at) {
            s.panic_at = None;
            drop(s);
            panic!("planned");
        }
        if let Some(at) = s.fail_at {
            if s.accepted >= at {
                s.faults += 1;
                if s.transient {
                    s.fail_at = None;
                }
                return match s.fault {
                    Fault::Zero => Ok(0),
                    Fault::Error(kind) => Err(io::Error::new(kind, Tagged(s.tag))),
                    Fault::Plain(kind) => Err(io::Error::from(kind)),
                    Fault::Os(code) => Err(io::Error::from_raw_os_error(code)),
                };
            }
            n = n.min((at - s.accepted) as usize);
        }
        s.data.extend_from_slice(&buf[..n]);
        s.accepted += n as u64;
        if s.keep > 0 && s.data.len() > 2 * s.keep {
            let cut = s.data.len() - s.keep;
            s.data.drain(..cut);
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.borrow_mut().flushes += 1;
        Ok(())
    }
}
