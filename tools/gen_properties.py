import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=obs or ["return value and output bytes of the public conversion call"],hook_needed=None)))
L="src/lib.rs"; D="src/dispatcher.rs"; PF="src/pixel_format.rs"; CO="src/convert_image/common.rs"; X="src/convert_image/x86.rs"; S="src/convert_image/sse2.rs"; A="src/convert_image/avx2.rs"; CI="src/cpu_info.rs"; H="include/dcv_color_primitives.h"

p("C01","Every conversion request is accepted or refused with the documented error",
"A conversion request succeeds or is refused exactly as documented: an image description whose color space does not fit its pixel format, whose number of planes is not one the format has, or whose odd width/height the format's subsampling forbids is an invalid value; otherwise a source/destination pair that is not in the published conversion table is an invalid operation; otherwise an image with zero width or height succeeds, and a request whose stride list or buffer list has fewer entries than planes, or one of whose buffers is shorter than the described plane, is reported as not enough data; everything else succeeds. When several reasons apply, the first in that order is reported.",
["inputs","configurations"],"all pixel formats x color spaces x plane counts (incl. 0 and 2^32-1) on both sides, all widths/heights, stride lists and buffer lists of any length and any values, every instruction set",
"Tests try a few invalid combinations per format at one or two sizes; the acceptance predicate ranges over the full product of formats, planes, sizes, strides and lengths, and over combinations of several errors at once.",
[L,D,PF,CO],[("convert_image argument validation and converter lookup",L),("is_compatible / PF_SPECS",PF),("get_image_index / get_index",D),("out_of_bounds and per-converter stride/buffer count checks",CO+", "+X+", "+S+", "+A)])

p("C02","No byte outside the caller's buffers is ever read or written",
"Whatever the image size, strides, buffer lengths and buffer alignment, a call of the safe API reads only bytes of the buffers it was given and writes only bytes of the destination buffers; a buffer that ends exactly after the last pixel of its last row is sufficient and is never overrun, and a buffer even one byte shorter is refused before anything is touched.",
["inputs","configurations"],"all supported conversions, all widths/heights, all strides (packed, padded, overlapping), all buffer lengths around the minimum, all alignments, every instruction set",
"Unit tests use heap buffers with slack and never observe out-of-range accesses; an over-read of a few bytes, or an insufficient length test for padded rows of three or more rows, leaves every output right.",
[CO,X,S,A],[("out_of_bounds length tests",CO),("vector part / scalar remainder split",X+", "+S+", "+A),("raw pointer loads and stores of the vector kernels",S+", "+A)],obs=["inaccessible memory placed immediately before and after each buffer"])

p("C03","A conversion changes exactly the destination image and nothing else",
"A successful conversion overwrites every byte of every row of every destination plane of the image and no other byte: row padding, bytes beyond the image, other planes and all source buffers keep their previous contents. A request that is refused, or whose image is empty, changes nothing at all.",
["inputs","configurations"],"all supported conversions, sizes, strides larger than the row, buffer lengths larger than needed, all error causes, every instruction set",
"Tests check padding bytes only for a few small sizes and strides, where the wide stores of the vector kernels are hardly exercised, and never compare destination contents after an error.",
[X,S,A,L],[("per-row addressing of kernels",X+", "+S+", "+A),("validation before the kernel runs",L)],obs=["bytes of every destination and source buffer before and after the call"])

p("C04","RGB to YUV luma and 4:4:4 chroma equal the ITU-weighted sums, correctly rounded",
"For every RGB triple and each of the four YUV color spaces, luma is the BT.601/BT.709 weighted sum (weights scaled to the limited or full range and rounded to 16 fractional bits, plus 16 in limited range) rounded to the nearest integer; in the 4:4:4 layout Cb and Cr are the corresponding weighted sums plus 128, rounded to nearest with ties downward, the chroma weights of each component summing to zero. The alpha byte has no influence, channel order follows the pixel format, and every pixel position of the image is computed by the same rule.",
["inputs"],"all 2^24 colors x 4 color spaces x 3 source formats x all positions in images of any size",
"Tests compare one fixed 8x8 colour matrix; 2^24 colours per colour space cannot be sampled, and the vector bodies run for few or no pixels at the tested sizes.",
[CO,X,S,A],[("forward weight tables",CO+", "+S+", "+A),("affine_transform / fix_to_i32 and vector counterparts",X+", "+S+", "+A),("channel unpacking per sampler",X+", "+S+", "+A)])

p("C05","4:2:0 chroma is the correctly rounded mean of each 2x2 block, in U/V order",
"When converting RGB to a 4:2:0 format, each Cb and Cr sample equals the weighted sum applied to the sum of exactly the four pixels of its 2x2 block, divided by four and rounded to nearest with ties downward; I420 stores Cb in the second and Cr in the third plane, NV12 stores Cb,Cr interleaved in that order.",
["inputs"],"all 2x2 blocks of colors x 4 color spaces x 3 source formats x {I420, NV12 one plane, NV12 two planes} x all block positions and image sizes",
"Tests check 16 blocks of one fixed matrix with no more than four blocks per row; block sums range over 1021^3 values and the vector code shuffles blocks across 16 to 32 pixel groups.",
[CO,X,S,A],[("2x2 neighbourhood sums",X+", "+S+", "+A),("chroma packing and plane offsets",X+", "+S+", "+A)])

p("C06","YUV to RGB equals the inverse ITU transform, saturated, with opaque alpha",
"For every Y, Cb, Cr triple and each YUV color space, red, green and blue are the inverse BT.601/BT.709 transform evaluated with 14-fractional-bit weights at the library's fixed-point precision (within one unit of the real-valued formula) and saturated to 0..255; alpha is 255; 4:2:0 sources use for each pixel the chroma sample of its 2x2 block; bytes are ordered as the destination pixel format says.",
["inputs"],"all 2^24 (Y,Cb,Cr) triples x 4 color spaces x {I444, I420, NV12} x {BGRA, RGBA, RGB} x all positions",
"Tests use 8 colours with tolerance 2 in images of at most 34x4; saturation at each channel's ends, out-of-range inputs and lane order deep in a row are not reached.",
[CO,X,S,A],[("backward weight tables",CO+", "+S+", "+A),("mulhi / fix_to_u8_sat and vector pack with unsigned saturation",X+", "+S+", "+A),("pack_rgb, pack_i16x3 ordering",X+", "+S+", "+A)])

p("C07","RGB to RGB conversions copy color channels exactly",
"RGB to BGRA, BGRA to RGB and BGR to RGB reproduce each pixel's red, green and blue values unchanged at the same position in the destination's channel order; a created alpha channel is 255 and a dropped one has no influence. Converting RGB to BGRA and back is the identity.",
["inputs"],"all pixel contents, widths, heights, strides, alignments and instruction sets for the three RGB to RGB conversions",
"Tests run a few widths with structured contents; a lane mix-up past the first vector group, or an error in the ragged end of a row, depends on width, stride and position.",
[X,S,A],[("rgb_to_bgra / bgra_to_rgb / bgr_to_rgb kernels and their vector forms",X+", "+S+", "+A)])

p("C08","Every instruction set produces byte-identical results",
"For any request whose destination rows do not overlap one another, the scalar, SSE2 and AVX2 implementations (and whatever implementation the library selects by default) report the same outcome and produce byte-for-byte the same destination buffers.",
["inputs","configurations"],"all conversions, sizes, strides, contents and buffer lengths; all pairs of instruction sets available on the CPU",
"Tests compare each set with the same tiny references; agreement at all widths (vector body plus remainder), extreme contents and odd strides is not sampled.",
[L,X,S,A],[("converter tables per instruction set",L),("vector part / scalar remainder split",S+", "+A),("vector forms of the fixed point arithmetic",S+", "+A)])

p("C09","The buffer-size query returns exactly the space the planes take",
"For a valid description the size query fills in, for each plane, the number of rows of that plane times its stride, where a stride of zero or an absent stride list means tightly packed rows; a format stored in one buffer gets the total of its parts, all laid out with the one stride given. Entries of the result array beyond the number of planes are not touched, strides beyond the number of planes have no influence, an impossible description is an invalid value, a result or stride array shorter than the number of planes is not enough data, and a refused query writes nothing.",
["inputs"],"all formats, plane counts, sizes up to 2^32-1 whose result is representable, stride lists of any length and value, result arrays of any length",
"Tests check packed sizes and separate-plane strides for a handful of sizes; padded single-buffer images and partial or oversized lists are not tested at all.",
[PF,L],[("get_buffers_size, STRIDE_SPECS, HEIGHT_SPECS",PF),("is_compatible",PF)],obs=["return value and contents of the size array"])

p("C10","Buffers of the queried size always suffice for conversion",
"For any description accepted by the size query and any row strides that are zero or at least a row long, buffers of exactly the returned sizes laid out with the same strides are accepted by every supported conversion from or to that description, as source and as destination, and the whole image fits in them.",
["inputs"],"all formats, plane counts, sizes, per-plane strides (packed, padded), used on either side of every supported conversion",
"Tests allocate buffers by their own formulas and only for small sizes; the agreement of two independent computations over all sizes and strides is never compared.",
[PF,CO,X,S,A],[("get_buffers_size",PF),("out_of_bounds and the split of single-buffer NV12",CO+", "+X+", "+S+", "+A)])

p("C11","The C interface behaves exactly as the Rust interface",
"For the same image descriptions, sizes, strides and sufficiently large buffers, the C conversion and size functions report success or the same error kind as the Rust functions and produce the same bytes; a null stride array means packed rows, the error location is written only on failure and may be null.",
["inputs"],"all formats, planes, sizes and strides through both interfaces, with and without strides and error locations",
"C tests repeat the small Rust vectors; equality of the two interfaces is a relation over all inputs including strides and error locations that are rarely passed.",
[L,H],[("c_api::dcp_convert_image, dcp_get_buffers_size, set_error",L)],obs=["return value, error location and buffers of C calls"])

p("C12","The C interface refuses null pointers and unknown enumeration values safely",
"A C call given a null format, plane-array or size-array pointer, a null plane pointer, a pixel format or (for conversion) color space number outside the published enumerations, or a plane count the format does not have, returns an error with kind invalid value, touches no image memory, and never crashes, whatever the other arguments are.",
["inputs"],"every subset of null arguments, all enumeration values of 32 bits, all plane counts, all sizes, with and without an error location, in optimized and in checked builds",
"Tests pass a couple of null pointers one at a time; subsets of nulls combined with arbitrary integers in enum fields depend on how the compiler treats the values.",
[L,D],[("null checks, is_pixel_format_valid, is_color_space_valid, are_planes_compatible",L+", "+D+", "+PF)],obs=["return value and error location of C calls; guard pages around buffers"])

p("C13","C description strings are independent, valid and released exactly once",
"Each C description call returns a fresh NUL-terminated string equal to the Rust description that stays valid and unchanged, whatever other calls are made, until it is released; releasing one string affects no other and frees its memory, and releasing null is a no-op.",
["histories","schedules"],"all interleavings of obtain and release calls, from any threads, mixed with conversions",
"The tests obtain and release one string; aliasing, double ownership or leaks only show over histories with several live strings.",
[L],[("dcp_describe_acceleration / dcp_unref_string via CString::into_raw/from_raw",L)],obs=["contents of all live strings and allocator balance"])

p("C14","First use and concurrent use from any threads is safe and uniform",
"However many threads make their first or later calls at the same time, each call returns the result and output bytes it would have returned alone in a single-threaded process, all threads see the same acceleration description, and no call blocks forever.",
["schedules","histories"],"all interleavings of first and later calls of conversion, size and description functions from several threads on disjoint destinations (sources may be shared)",
"Tests run single calls after initialization happened once; races of first use are only reachable in a fresh process under contention.",
[L],[("Context::global one-time initialization",L)],state=[("dispatch context","selected converters and CPU description, created on first use","Context::global in src/lib.rs")])

p("C15","Results depend only on the arguments of the call, not on earlier calls",
"The outcome and the bytes written by any call are a function of its own arguments and source bytes only: earlier successful, refused or empty calls, the previous contents of the destination, and repetition never change them, and a conversion chain of several calls composes accordingly.",
["histories"],"all sequences of API calls over shared pools of buffers, including failing and empty ones and reuse of outputs as inputs",
"Tests are single-shot with freshly initialised buffers; hidden state and read-before-write on the destination only show in histories.",
[L,X,S,A],[("no mutable global state beyond one-time initialization",L),("kernels never read the destination",X+", "+S+", "+A)])

p("C16","Image content is independent of how it is laid out in memory",
"Strides, buffer alignment, surplus buffer length and, for NV12, whether luma and chroma are in one buffer or two never change the pixel values of a conversion: the same image in any legal layout converts to the same image in any legal destination layout. A stride of zero or no stride list means the same as the packed row length.",
["inputs","configurations"],"all supported conversions x pairs of layouts (strides, offsets, plane splits, absent/zero/explicit strides, surplus list entries) of the same image",
"Tests use packed rows and one padding; equivalence between pairs of layouts is a relational property that tests do not evaluate.",
[CO,X,S,A,PF],[("compute_stride, wg_index addressing, single-buffer split of NV12",CO+", "+X+", "+S+", "+A)])

p("C17","Acceleration is selected and described according to what the CPU and OS can run",
"The description names the manufacturer and instruction set as {cpu-manufacturer:M,instruction-set:S}, with M Intel, Amd or Unknown from the CPU's vendor identification, and S the best set that CPU and operating system can execute (AVX2 where available and enabled by the OS except on AMD, otherwise SSE2, otherwise scalar); the description never changes during a process and conversions give the same results whichever is selected.",
["configurations"],"all CPU identifications: vendor, highest leaf, SSE2, AVX2, AVX and OS state-saving bits",
"Tests run on one CPU and only print the description.",
[CI,L],[("cpu_info::get",CI),("Context::new table selection, describe_acceleration",L)],obs=["description string under substituted CPU identification"])

p("C18","Colors survive: greys stay neutral, ranges hold, errors are bounded",
"Every conversion agrees with the real-valued BT.601/BT.709 formulas within one unit per sample (RGB to YUV) and one unit (YUV to RGB) before saturation; grey RGB gives Cb = Cr = 128 and white/black give 235/16 (limited) or 255/0 (full) luma; limited-range outputs stay in 16..235 / 16..240; neutral chroma decodes to equal R, G, B; and RGB to YUV 4:4:4 and back reproduces each channel within two units in limited range and one unit in full range.",
["inputs"],"all 2^24 RGB triples, all 2^24 YUV triples, 4 color spaces",
"Tests check one colour matrix with tolerance; the bounds are statements about all colours.",
[CO,X,S,A],[("weight tables generated from Kr/Kb",CO+", genweights.py"),("rounding and saturation",X+", "+S+", "+A)])

p("C19","Every call returns normally, whatever the numbers",
"No combination of widths, heights, plane counts, strides (up to the largest machine word) and buffer lengths makes a call of the Rust interface panic, overflow, hang or crash; sizes too large to represent are refused rather than wrapped around, in optimized and in overflow-checked builds alike.",
["inputs","configurations"],"all 32-bit widths/heights/plane counts, all word-sized strides, all list and buffer lengths, in release and checked builds",
"Tests use small numbers in one build profile; overflows need extreme strides or dimensions in exactly the arithmetic that computes bounds.",
[CO,PF,X,S,A],[("checked bound computation in out_of_bounds",CO),("stride x height products for single-buffer images and in get_buffers_size",PF+", "+X+", "+S+", "+A)],obs=["return value; panics and signals"])
p("C20","The C header, the enumerations and their names agree with the library",
"The C header can be included on its own, in C and in C++, and declares the library's functions with C linkage and the documented types; each of its enumerators (pixel formats, color spaces, error kinds) has the number of the Rust enumerator of the same name, success is 0, its image format structure is laid out as the Rust one, and its automatic stride is the Rust one, zero. Rust shows pixel formats and color spaces by their published names (argb, bgra, bgr, rgba, rgb, i444, i422, i420, nv12; rgb, bt-601, bt-709, bt-601-fr, bt-709-fr), and error kinds by texts that tell them apart.",
["configurations"],"all enumerators of all enumerations, all members of the structure, all functions, C99 to C17 and C++11 to C++20",
"Tests use a few enumerators, never show any, and include the header after the standard ones; an agreement of two lists has to hold for every entry.",
[H,PF,L,"src/color_space.rs"],[("repr(C) enumerations and ImageFormat",PF+", src/color_space.rs, "+L),("declarations of the header",H),("Display implementations",PF+", src/color_space.rs, "+L)],obs=["what a C or C++ program that includes the header sees; what Rust shows"])

with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+"\n")
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for q in P:
    jsonschema.validate(q,sch)
print(len(P))
