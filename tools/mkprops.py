import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
D="crevice-derive/src/layout.rs"
p("C01","Derived std140 structs follow the GLSL std140 layout rules",
 "For every struct with named fields of supported types (scalars, vectors, square matrices, nested derived structs, from any supported math library), its derived std140 form exists and has exactly the field offsets, total size and alignment that the GLSL std140 rules assign to the same declaration. Struct alignment is the largest member alignment rounded up to 16, every member starts at the next multiple of its alignment, and the struct's size is padded to a multiple of its alignment so that consecutive structs form a GLSL array.",
 ["programs"],"all struct declarations: any number and order of fields, any nesting",
 "The tests pin about fifteen hand-written structs of at most four fields; the rule must hold for every combination, order and nesting of field types, each a different program.",
 [D,"src/std140/primitives.rs","src/internal.rs"],
 [("padding constants and struct alignment",D),("ALIGNMENT of primitives","src/std140/primitives.rs"),("align_offset / max_arr","src/internal.rs")],
 ["bytes and size of the std140 output of generated struct programs","the alignment the output type reports"])
p("C02","Derived std430 structs follow the GLSL std430 layout rules",
 "For every struct with named fields of supported types, its derived std430 form exists and has exactly the field offsets, total size and alignment that the GLSL std430 rules assign to the same declaration. As std140, except that the alignment of a struct, and the column stride of two-row matrices, is not rounded up to 16.",
 ["programs"],"all struct declarations: any number and order of fields, any nesting",
 "Only four structs are checked in std430 at all, none nested and none with doubles or matrices inside a struct.",
 [D,"src/std430/primitives.rs","src/internal.rs"],
 [("padding constants and struct alignment",D),("ALIGNMENT of primitives","src/std430/primitives.rs")],
 ["bytes and size of the std430 output of generated struct programs","the alignment the output type reports"])
p("C03","Encoding puts every component's exact bits where GLSL reads them",
 "Encoding any value to std140 or std430 stores each scalar component, unchanged bit for bit (NaN payloads, signed zeros, extremes included), at the offset at which GLSL reads that component, with matrices column by column. A boolean is stored as a 32-bit 0 or 1.",
 ["inputs","programs"],"all values of all supported types, in both layouts",
 "The tests compare type sizes and offsets, and look at actual values only in six structs of small positive floats; most conversions are never executed by any test.",
 ["src/std140/traits.rs","src/std430/traits.rs","src/imp/imp_mint.rs","src/imp/imp_cgmath.rs","src/imp/imp_glam.rs","src/imp/imp_nalgebra.rs","src/util.rs","src/bool.rs",D],
 [("as_std140 / as_std430 conversions","src/util.rs"),("generated struct init",D),("Bool","src/bool.rs")],
 ["bytes of the encoded value"])
p("C04","Padding is always zero and encoding is a pure function of the value",
 "Every byte of an encoded value that belongs to no component is initialised and zero, whatever memory held before. Encoding the same value again, elsewhere, or from several threads at once gives the same bytes, and leaves the value unchanged.",
 ["inputs","programs","histories"],"all values, struct declarations and prior memory contents",
 "No test looks at a padding byte; stale memory shows only if the surrounding memory is dirty.",
 [D,"src/util.rs","src/std140/primitives.rs","src/std430/primitives.rs"],
 [("explicit zeroed padding fields",D),("zeroed rest of matrices","src/util.rs")],
 ["bytes of the encoded value, on dirtied stack and heap, under valgrind memcheck and Miri"])
p("C05","Decoding an encoded value gives back the same value",
 "For every value of every supported type and derived struct, converting to std140 or std430 and back, directly or through its bytes at any memory alignment, returns a value with the same components, bit for bit.",
 ["inputs","programs"],"all values of all supported types and derived structs, in both layouts",
 "One round trip of one struct with one value is tested, in std140 only; the library conversions and std430 are never decoded without a GPU.",
 [D,"src/util.rs","src/imp/imp_mint.rs","src/imp/imp_cgmath.rs","src/imp/imp_glam.rs","src/imp/imp_nalgebra.rs","src/std140/traits.rs","src/std430/traits.rs"],
 [("from_std140 / from_std430","src/util.rs"),("generated from_*",D)],
 ["components after decode"])
p("C06","Any bytes of the right length decode, by component position only",
 "Every byte string of the right length is a valid std140 or std430 value: decoding it yields, for each component, exactly the bits at that component's GLSL offset, a boolean being true exactly when its 32-bit word is not zero. Padding bytes have no influence on the result, and encoding the result again gives the same components with zeroed padding and 0/1 booleans.",
 ["inputs","programs"],"all byte strings, as a GPU may write them, for all supported types and derived structs",
 "No test decodes bytes that the crate did not encode itself, so garbage padding and booleans other than 0 and 1 are never seen.",
 [D,"src/bool.rs","src/util.rs","src/std140/primitives.rs","src/std430/primitives.rs"],
 [("Pod/Zeroable implementations",D),("Bool to bool","src/bool.rs")],
 ["components decoded from arbitrary bytes"])
p("C07","All math libraries' types have the same GLSL form",
 "The same logical vector, point, or matrix given as a mint, cgmath, glam or nalgebra type, or as the crate's own primitive, encodes to identical bytes in both layouts (matrices column by column), has the same size, alignment and GLSL type name, and bytes encoded from one library decode to the same value in any other.",
 ["inputs","configurations"],"all supported types of the four libraries, all values",
 "The conversions for cgmath, glam and nalgebra are compiled but never run by the tests.",
 ["src/imp/imp_mint.rs","src/imp/imp_cgmath.rs","src/imp/imp_glam.rs","src/imp/imp_nalgebra.rs","src/util.rs"],
 [("easy_impl / minty_impl tables","src/util.rs")],
 ["bytes, names and decoded components, compared across libraries"])
p("C08","A writer emits each value at its next aligned offset, zero-padded",
 "Over any sequence of writes, the writer's output is exactly the encoded values in order, each preceded by the fewest zero bytes that bring its start to a multiple of its alignment. Each write returns the offset of the value's first byte in the output, and the reported length always equals the number of bytes emitted.",
 ["histories","inputs"],"all sequences of writes of all types, from any starting offset, to any sink",
 "Two writes of one type are tested; offset and padding depend on the whole history of types written.",
 ["src/std140/writer.rs","src/std430/writer.rs","src/std140/traits.rs","src/std430/traits.rs","src/internal.rs"],
 [("offset tracking and padding","src/std140/writer.rs"),("offset tracking and padding","src/std430/writer.rs")],
 ["bytes received by the sink","returned offsets","len() after every write"])
p("C09","The sizer predicts exactly what the writer does",
 "For any sequence of types, the sizer returns for each the offset at which a writer given values of those types in that order puts them, and its length equals the bytes the writer emits, so a buffer of that length suffices and one byte less does not. This holds for offsets of any magnitude that fits in memory addressing.",
 ["histories"],"all sequences of types, including alignments above 16 and offsets beyond 4 GiB",
 "Tests add two types once; agreement must hold for every sequence.",
 ["src/std140/sizer.rs","src/std430/sizer.rs","src/std140/writer.rs","src/std430/writer.rs","src/internal.rs"],
 [("Sizer::add","src/std140/sizer.rs"),("Sizer::add","src/std430/sizer.rs")],
 ["offsets and lengths of sizer and writer side by side"])
p("C10","Writing a slice or iterator equals writing its elements one by one",
 "Writing a slice, or any iterator, emits exactly the bytes that writing each element in order once would emit, consumes every element exactly once, and returns the offset of the first element. An empty slice or iterator emits nothing and returns the current length.",
 ["histories","inputs"],"all element types, lengths and starting offsets, including user-defined writable types",
 "No test writes a slice or an iterator of a checked content; a past release wrote the first element twice unnoticed.",
 ["src/std140/traits.rs","src/std430/traits.rs","src/std140/writer.rs","src/std430/writer.rs"],
 [("slice implementation","src/std140/traits.rs"),("slice implementation","src/std430/traits.rs"),("write_iter","src/std140/writer.rs"),("write_iter","src/std430/writer.rs")],
 ["bytes received by the sink","elements consumed","returned offset"])
p("C11","A written slice is laid out as a GLSL array of its element type",
 "A slice or iterator written to a buffer places its elements at the stride a GLSL array of that element type has in that layout, starting at an offset aligned for the element. In std430 the stride is the element size rounded up to its alignment; in std140 it is further rounded up to 16.",
 ["inputs","histories"],"all element types and lengths, both layouts",
 "No test checks where the second element of a slice goes.",
 ["src/std140/traits.rs","src/std430/traits.rs","src/std140/writer.rs","src/std430/writer.rs",D],
 [("per-element alignment","src/std140/writer.rs"),("struct size padding",D)],
 ["offsets of the elements found in the output"])
p("C12","Sink faults are reported and never corrupt what was emitted",
 "If the sink accepts only part of a buffer or interrupts a call, the output is unaffected; if it fails at any byte, the write in progress returns that error, nothing further of that write (or of later slice elements) is emitted, and the sink has received a prefix of the fault-free output. The reported length never exceeds the bytes the sink accepted, and a write that failed before emitting any byte leaves the writer as it was, so that retrying it gives the fault-free output.",
 ["fault_sequences","histories"],"all positions and kinds of sink failure in all write sequences",
 "No test uses a sink that fails or accepts part of a buffer.",
 ["src/std140/writer.rs","src/std430/writer.rs","src/std140/traits.rs","src/std430/traits.rs"],
 [("write_all and offset update order","src/std140/writer.rs"),("write_all and offset update order","src/std430/writer.rs")],
 ["calls and bytes at a scripted sink","returned errors","len()"])
p("C13","All ways of asking for a size agree with the bytes produced",
 "For every value, the static size of its type, its dynamic size, the length of its bytes, the bytes a fresh writer emits for it and the sizer's answer for it are all equal. For slices, and for user-defined writable types that use the default, the reported size equals the bytes a fresh writer emits for them.",
 ["inputs","programs"],"all types and values, all slice lengths",
 "Only the static size of a single scalar is compared with anything in the tests.",
 ["src/std140/traits.rs","src/std430/traits.rs","src/std140/sizer.rs","src/std430/sizer.rs"],
 [("size queries","src/std140/traits.rs"),("size queries","src/std430/traits.rs")],
 ["the sizes reported and the bytes emitted"])
p("C14","Dynamic-uniform wrapping changes only the alignment, to at least 256",
 "Wrapping any value for dynamic uniform use raises its alignment to the larger of 256 and its own, and changes nothing else: the same size, bytes and round trip. Wherever a wrapped value is written, sized, put in a slice, or used as a field of a struct, it starts at a multiple of that alignment and the layout around it follows.",
 ["inputs","programs","histories"],"all wrapped types (including wrapped wrappers and types with larger alignment), all positions",
 "Tests wrap one float and look at two lengths.",
 ["src/std140/dynamic_uniform.rs","src/std140/writer.rs","src/std140/sizer.rs",D],
 [("DynamicUniformStd140 ALIGNMENT","src/std140/dynamic_uniform.rs")],
 ["offsets, sizes and bytes of wrapped values"])
p("C15","Generated GLSL declares the struct that was laid out",
 "For every struct deriving the GLSL definition, the generated text is a valid GLSL struct declaration with the struct's name and one member per field, in declaration order, with the field's name and the GLSL type of the field's type, boolean and nested struct fields included. Every supported type reports the GLSL type name of its kind and shape, and the field list exposed to callers says the same as the text.",
 ["programs"],"all struct declarations and supported field types",
 "One struct with two fields is snapshotted; names of most types are never looked at.",
 ["crevice-derive/src/glsl.rs","src/glsl.rs","src/util.rs","src/std140/primitives.rs","src/std430/primitives.rs"],
 [("GlslStruct derive","crevice-derive/src/glsl.rs"),("glsl_definition","src/glsl.rs"),("type names","src/util.rs")],
 ["the generated text, tokenised and parsed by a GLSL front end"])
p("C16","A shader using the generated GLSL reads back the uploaded values",
 "When a shader declares a buffer with the generated GLSL definition in std140 or std430 and a program uploads encoded values (one value, or several through a writer), each component the shader reads equals the component of the original value. What the shader writes to such a buffer decodes to the value it wrote.",
 ["programs","inputs"],"all derived structs and values whose types the GLSL compiler supports",
 "The GPU tests send six small structs of floats through a whole-struct copy, which a consistent layout mistake on both sides survives.",
 [D,"crevice-derive/src/glsl.rs","src/glsl.rs","src/std140/writer.rs","src/std430/writer.rs","src/std140/primitives.rs","src/std430/primitives.rs"],
 [("layout derive",D),("GLSL derive","crevice-derive/src/glsl.rs")],
 ["component values computed by a compute shader on a software Vulkan device","member offsets computed by a GLSL front end"])
p("C17","Safe use never causes undefined behaviour",
 "No use of the crate and its derives from safe code causes undefined behaviour: no out-of-bounds or misaligned access, no read of uninitialised memory, no invalid value and no data race, on 32- and 64-bit, little- and big-endian targets. In particular every output type is plain old data: no implicit padding, valid for every bit pattern.",
 ["inputs","programs","configurations"],"all uses of the safe API on all types, on several targets",
 "Undefined behaviour is invisible to assertions; the tests run under no sanitizer and on one target.",
 [D,"src/bool.rs","src/std140/primitives.rs","src/std430/primitives.rs","src/std140/dynamic_uniform.rs","src/std140/traits.rs","src/std430/traits.rs"],
 [("unsafe impl Pod / Zeroable",D),("unsafe impl Pod / Zeroable","src/std140/primitives.rs"),("unsafe impl Pod / Zeroable","src/std430/primitives.rs")],
 ["Miri, AddressSanitizer and memcheck reports; implicit padding found by comparing field sizes with type size"])
p("C18","Every feature set, build mode and target gives the same layout and bytes",
 "Sizes, offsets, alignments, encoded components and decoded values are the same whichever features of the crate are enabled (with or without std, any selection of math libraries, the derives' debugging methods), in optimised and unoptimised builds, and on 32- and 64-bit, little- and big-endian targets. Without std the crate still offers all conversions, sizing and wrapping.",
 ["configurations"],"all combinations of features, build modes and several targets",
 "The tests run in one feature set, one build mode and one target; without std nothing is ever executed.",
 ["src/lib.rs","Cargo.toml","src/std140.rs","src/std430.rs","src/imp.rs","src/std140/traits.rs","src/std430/traits.rs","src/internal.rs",D],
 [("feature gates","src/lib.rs"),("feature gates","src/imp.rs")],
 ["layout and value dumps of one program built in every configuration"])
p("C19","Derives accept every plain struct and reject every other item",
 "The derives accept every non-generic struct with named fields of supported types, whatever its field count, field and type names (raw identifiers included; a struct named like a primitive type such as `usize`, or an item already named as the derives name theirs, is out of scope), visibility, attributes, documentation, place of definition, way of naming its field types, or generation by a macro, and the result works as any other. Tuple structs, unit structs, enums and unions, and structs with an unsupported field type, are rejected at compile time, never given a layout.",
 ["programs"],"all item declarations",
 "The tests derive for short public-domain shapes only, and none checks a rejection; structs of 20 fields did not compile.",
 [D,"crevice-derive/src/glsl.rs","crevice-derive/src/lib.rs"],
 [("struct checks and code generation",D),("struct checks and code generation","crevice-derive/src/glsl.rs")],
 ["compiler outcome for each declaration","layout and values of the accepted ones"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
import re
for x in P:
    n=len(re.findall(r'\.(?:\s|$)',x['statement'])); print(x['id'],len(x['title']),n)
