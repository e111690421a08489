#!/usr/bin/env python3
"""One check: python3 run.py <property>. VERIF_SEED and VERIF_TIER choose the
random choices and the depth."""
import os
import re
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

import vlib
from vlib import Build, Check, NoAnswer, LIBS, monitor, program, sub_seed

FEATURES = ["std", "cgmath", "glam", "nalgebra"]

# The monitors over generated programs: depth in the quick tier, and what
# counts as a case.
PLAN = {
    "C01": (2, "every generated struct and every type of the crate and its math libraries, in std140: size, alignment, and "
               "the offset of each component found by encoding one-component-set values, compared with the layout rules "
               "of the OpenGL specification coded in mon/src/model.rs; distinct: (type, component) pairs"),
    "C02": (2, "as C01, in std430"),
    "C03": (3, "a value (unique, random, special, one-hot, plain components) of a type is encoded and every byte compared "
               "with the model's image; distinct: (type, layout, components), all-zero values not counted"),
    "C04": (1, "a value is encoded over stack and heap memory filled with a pattern, twice, and from several threads; "
               "padding bytes must be zero and all encodings equal; distinct: (type, layout, components) of types with padding, "
               "or concurrent encodings"),
    "C05": (3, "a value is encoded and decoded directly and through bytes at each misalignment; distinct: (type, layout, "
               "components), all-zero values not counted"),
    "C06": (3, "bytes of the right length (random, all ones, one bit set, padding noise) are decoded and re-encoded; distinct: "
               "(type, layout, bytes), all-zero bytes not counted"),
    "C07": (3, "the same components given to every library's type of one GLSL type, and to generated structs that differ in "
               "library only; bytes, sizes, alignments, names and cross decoding compared; distinct: (pair of types, components)"),
    "C08": (1, "a sequence of writes to one writer over a sink that keeps all it is given; output, returned offsets and len() "
               "after each operation compared with the model; distinct: sequences that wrote at least two values"),
    "C09": (2, "a sequence of types given to a sizer and to a writer over sinks of exactly the predicted length and one byte less, "
               "and offsets beyond 4 GiB; distinct: sequences of at least two operations"),
    "C10": (1, "a slice or iterator (exact, of unknown length, of loose size hints, of encoded values, empty) written after a prefix, against the "
               "same elements written one at a time; distinct: cases of at least two elements"),
    "C11": (3, "a slice of a type written to a writer, stride and start compared with a GLSL array of the type; distinct: (type, layout, "
               "prefix, length) with at least two elements"),
    "C12": (2, "a sequence of writes against a sink that fails, stops, interrupts or accepts part at a chosen byte or call; every "
               "byte of every sequence is a fault point; distinct: (sequence, fault point, fault kind)"),
    "C13": (2, "static size, dynamic size, bytes, fresh writer and sizer for a value or slice; distinct: (type, layout, length)"),
    "C14": (3, "a type wrapped for dynamic uniforms against the type itself, alone, in sequences, slices and struct fields; distinct: "
               "(type, components) and sequences holding a wrapped value"),
    "C15": (3, "the generated definition of a struct tokenised by an independent grammar and compared with the declaration; "
               "names of every supported type; distinct: structs and types"),
}
LEVEL = {"C12": "fault_enumeration"}


def programs_check(c, deep):
    """The monitors over generated programs."""
    # Thorough: more and larger programs, deeper, unoptimised and optimised.
    n = 6 if c.thorough else 2
    for i in range(n):
        if i and c.left(2400 if c.thorough else 500) < 300:
            break
        seed = sub_seed(c.seed, i)
        profile = "release" if i % 2 and c.thorough else "dev"
        b = Build("full", program(seed, scale=1 + i % 3 if c.thorough else 1), FEATURES, profile=profile)
        try:
            b.build(fresh=i < (2 if c.thorough else 1))
        except NoAnswer as e:
            missing(c, str(e))
            raise
        label = f"program {seed} {profile}"
        for name, msg in b.broken.items():
            if c.prop in ("C01", "C02", "C15"):
                what = vlib.attribute(b, name)
                mine = {"C01": "std140", "C02": "std430", "C15": "GlslStruct"}[c.prop]
                if mine in what:
                    c.viol(f"does not compile: {b.describe(name)}",
                           f"deriving the {mine} form of {b.describe(name)} fails to compile: {msg}", run=label)
        c.counters["structs in programs"] = c.counters.get("structs in programs", 0) + sum(len(p) for p in b.parts) - len(b.skip)
        monitor(c, b, c.prop, seed, deep * (8 if c.thorough else 1), label, timeout=900 if c.thorough else 400)
        if c.viols and not c.thorough:
            break


FORMS = {"AsStd140": ("C01", "std140 form"), "AsStd430": ("C02", "std430 form"), "Glsl": ("C15", "GLSL name")}


def missing(c, text):
    """A type of the crate or a library that lacks what the crate promises
    keeps the monitors from being built."""
    for ty, trait in re.findall(r"the trait bound `([^`]*?): (?:[a-z0-9_]+::)*(\w+)` is not satisfied", text):
        if trait in FORMS and "/mon/src/" in text:
            prop, what = FORMS[trait]
            if c.prop in (prop, "C07"):
                c.viol(f"{ty} has no {what}", f"{ty} has no {what}: {text[:2000]}")


def found_before():
    """A violation seen before something else went wrong still counts."""
    c = vlib.Check.current
    if c is None or not c.unlisted():
        return 2
    return c.finish()


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        if prop in PLAN:
            deep, rule = PLAN[prop]
            c = Check(prop, tier, seed, LEVEL.get(prop, "exploration"), rule)
            programs_check(c, deep)
            if prop == "C15":
                import special
                special.naga(c)
        else:
            import special
            c = special.run(prop, tier, seed)
        code = c.finish()
    except NoAnswer as e:
        print(f"{prop}: no answer: {e}")
        code = found_before()
    except Exception:
        traceback.print_exc()
        code = found_before()
    sys.stdout.flush()
    sys.exit(code)


main()
