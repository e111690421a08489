//! One monitor per property: what is run, and the oracle over what it did.

pub mod codec;
pub mod dump;
#[cfg(feature = "std")]
pub mod glsl;
#[cfg(feature = "std")]
pub mod ops;
#[cfg(feature = "std")]
pub mod stream;
#[cfg(feature = "std")]
pub mod together;

use crate::erased::Erased;
use crate::model::{hex, values, Desc, Mode, L};
use crate::registry::Registry;
use crate::report::Report;
use crate::rng::Rng;

pub struct Ctx<'a> {
    pub reg: &'a Registry,
    pub seed: u64,
    /// 1 for the quick tier, more for the thorough one, 0 for interpreters.
    pub deep: usize,
}

impl Ctx<'_> {
    pub fn n(&self, tiny: usize, quick: usize) -> usize {
        match self.deep {
            0 => tiny,
            d => quick * d,
        }
    }
    pub fn rng(&self, stream: &str) -> Rng {
        Rng::new(self.seed, stream)
    }
}

pub fn vals(e: &Erased, mode: Mode, r: &mut Rng) -> Vec<u64> {
    values(&e.lo.leaves, mode, r)
}

pub fn many_vals(e: &Erased, n: usize, mode: Mode, r: &mut Rng) -> Vec<u64> {
    (0..n).flat_map(|_| vals(e, mode, r)).collect()
}

/// First difference between what was observed and what was expected.
pub fn diff(got: &[u8], want: &[u8]) -> Option<usize> {
    if got == want {
        return None;
    }
    Some(got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len())))
}

pub fn show(e: &Erased) -> String {
    format!("{} ({}) in {}", e.name, e.desc.long(), e.lay.name())
}

pub fn sig(what: &str, e: &Erased) -> String {
    format!("{what}: {} {} {}", e.lay.name(), e.name, e.desc.long())
}

pub fn key(parts: &[&[u8]]) -> Vec<u8> {
    parts.concat()
}

pub fn valbytes(v: &[u64]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_le_bytes()).collect()
}

/// Whether the output type has the size GLSL gives it; without that its bytes
/// cannot have components where GLSL reads them.
pub fn size_ok(rep: &mut Report, e: &Erased) -> bool {
    if e.size_of != e.lo.size {
        rep.viol(
            sig("size", e),
            format!("{}: the encoded form has {} bytes, GLSL reads {}", show(e), e.size_of, e.lo.size),
        );
        return false;
    }
    true
}

pub fn has_dyn(d: &Desc) -> bool {
    match d {
        Desc::Dyn(_) => true,
        Desc::Struct(_, fs) => fs.iter().any(|(_, d)| has_dyn(d)),
        _ => false,
    }
}
pub fn has_raw(d: &Desc) -> bool {
    match d {
        Desc::Raw { .. } => true,
        Desc::Dyn(d) => has_raw(d),
        Desc::Struct(_, fs) => fs.iter().any(|(_, d)| has_raw(d)),
        _ => false,
    }
}

/// The shape of a type, whatever its structs are called.
pub fn shape(d: &Desc) -> String {
    match d {
        Desc::Struct(_, fs) => format!("{{{}}}", fs.iter().map(|(_, d)| shape(d)).collect::<Vec<_>>().join(";")),
        Desc::Dyn(d) => format!("dynamic<{}>", shape(d)),
        d => d.glsl(),
    }
}

pub fn of(reg: &Registry, l: L) -> Vec<&Erased> {
    reg.types.iter().filter(|e| e.lay == l).collect()
}

pub fn bytes_msg(e: &Erased, got: &[u8], want: &[u8], v: &[u64]) -> String {
    let at = diff(got, want).unwrap_or(0);
    format!(
        "{}: byte {at} ({}) differs; components {:x?}; observed [{}]; expected [{}]",
        show(e),
        if at < e.lo.size { e.lo.at(at) } else { "past the end".into() },
        &v[..v.len().min(24)],
        hex(got),
        hex(want)
    )
}

pub fn run(ctx: &Ctx, prop: &str) -> Report {
    let mut rep = Report::new(prop);
    #[cfg(feature = "std")]
    {
        use together::{Act::*, ALL};
        let acts: &[together::Act] = match prop {
            "C03" => &[Encode],
            "C05" => &[Encode, Decode, Round],
            "C08" => &[Write, Into],
            "C09" => &[Sizer],
            "C13" => &[Sizes, SliceSize, UserSize, Sizer],
            "C15" => &[Define],
            "UB1" | "UB2" | "UB3" | "UB4" => &ALL,
            _ => &[],
        };
        if !acts.is_empty() {
            together::together(ctx, &mut rep, acts);
        }
    }
    match prop {
        "C01" => codec::layout_rules(ctx, &mut rep, L::S140),
        "C02" => codec::layout_rules(ctx, &mut rep, L::S430),
        "C03" => codec::placement(ctx, &mut rep),
        "C04" => codec::padding(ctx, &mut rep),
        "C05" => codec::round_trip(ctx, &mut rep),
        "C06" => codec::any_bytes(ctx, &mut rep),
        "C07" => codec::libraries(ctx, &mut rep),
        #[cfg(feature = "std")]
        "C08" => stream::writers(ctx, &mut rep),
        #[cfg(feature = "std")]
        "C09" => stream::sizer(ctx, &mut rep),
        #[cfg(feature = "std")]
        "C10" => stream::slices(ctx, &mut rep),
        #[cfg(feature = "std")]
        "C11" => stream::arrays(ctx, &mut rep),
        #[cfg(feature = "std")]
        "C12" => stream::faults(ctx, &mut rep),
        #[cfg(feature = "std")]
        "C13" => stream::sizes(ctx, &mut rep),
        #[cfg(feature = "std")]
        "C14" => {
            codec::dynamic(ctx, &mut rep);
            stream::dynamic(ctx, &mut rep);
        }
        #[cfg(feature = "std")]
        "C15" => glsl::definitions(ctx, &mut rep),
        // Declarations in unusual forms.
        #[cfg(feature = "std")]
        "FORMS" => {
            codec::layout_rules(ctx, &mut rep, L::S140);
            codec::layout_rules(ctx, &mut rep, L::S430);
            codec::placement(ctx, &mut rep);
            codec::round_trip(ctx, &mut rep);
            codec::any_bytes(ctx, &mut rep);
            stream::sizes(ctx, &mut rep);
            glsl::definitions(ctx, &mut rep);
        }
        // Everything that touches memory, for the sanitizers, in three parts.
        "UB1" => {
            codec::placement(ctx, &mut rep);
            codec::round_trip(ctx, &mut rep);
        }
        "UB2" => {
            codec::padding(ctx, &mut rep);
            codec::any_bytes(ctx, &mut rep);
            codec::debug_output(ctx, &mut rep);
        }
        "UB3" => {
            codec::layout_rules(ctx, &mut rep, if ctx.seed % 2 == 0 { L::S140 } else { L::S430 });
            #[cfg(feature = "std")]
            {
                stream::writers(ctx, &mut rep);
                stream::slices(ctx, &mut rep);
                stream::sizes(ctx, &mut rep);
                stream::faults(ctx, &mut rep);
                glsl::definitions(ctx, &mut rep);
            }
        }
        // Threads alone, for the race detector.
        "UB4" => {
            codec::padding(ctx, &mut rep);
            #[cfg(feature = "std")]
            stream::writers(ctx, &mut rep);
        }
        p => panic!("harness: no monitor for {p}"),
    }
    rep
}
