import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=mech,where=files[0])])))

p("P01","Accepted images are processed without stray memory access or panic",
 "For every source and destination image that the library accepts (any supported format, even width and height, any per-plane strides at or above the minimum, planes at least as long as required, optionally a crop window), convert returns without panicking and reads and writes only bytes that lie inside the planes it was given; the same holds for copy between images of the same format. In the destination it writes exactly the samples of the image rectangle: row padding, bytes behind the last row and pixels outside the crop window keep their previous content.",
 ["inputs","configurations"],
 "all format pairs, all widths/heights (incl. every residue modulo the vector width), all strides and plane lengths, all crop windows, with and without SIMD support",
 "Tests convert one 1920x1440 picture with packed or one fixed padding; unchecked vector loads and stores depend on width residues, unequal plane strides and window positions they never reach.",
 ["src/formats","src/vector","src/crop.rs","src/planes.rs"],
 "Readers/writers compute y*stride + x*size offsets and use raw vector loads/stores of LEN samples; only bounds_check and the slice start index guard them.")
p("P02","Every output sample is taken from its own pixel position and channel",
 "After convert, each sample of the destination depends only on the source pixels at the same position: luma and RGB(A) samples on the pixel itself (with its co-sited chroma), subsampled chroma on the 2x1 or 2x2 block it covers. Planes, interleaving order and channel order are those the formats document, for every pair of formats, at every position of the image and independent of strides.",
 ["inputs","configurations"],
 "all 15x15 format pairs, every sample position in images that exercise vector body, vector tail and scalar path, all sample values",
 "The visual test only writes PNG files for a human to look at; nothing asserts that a sample lands at its position.",
 ["src/formats","src/vector/mod.rs","src/vector/avx2.rs","src/vector/avx512.rs"],
 "Per-format readers and writers, zip/unzip and (de)interleave shuffles.")
p("P03","Converting to the same format and colour reproduces the image exactly",
 "Converting between two images that have the same pixel format and the same colour information copies every sample value unchanged, for all sample values valid in the format's bit depth. The same holds for the crate's plain copy function, for any strides on either side. (Samples above the format's bit depth are outside this guarantee.)",
 ["inputs","configurations"],
 "all formats, all in-range sample values (8, 10, 12 bit), all even dimensions, all strides, SIMD and scalar code",
 "No test compares the output of an identity conversion or copy with its input; exactness depends on x/max*max rounding for every value.",
 ["src/lib.rs","src/copy.rs","src/formats","src/primitive.rs"],
 "Identity conversions run through float normalisation (v/max*max) or row copies.")
p("P04","RGB-family conversions are exact channel permutations with opaque alpha",
 "Converting among RGB, BGR, RGBA and BGRA with the same transfer and primaries yields exactly the same 8-bit colour values in the destination's channel order. Alpha is carried over unchanged between formats that have it, set to 255 when the source (RGB or any YUV format) has none, and dropped when the destination has none.",
 ["inputs","configurations"],
 "all pairs, all 2^24/2^32 pixel values, all positions, SIMD and scalar code",
 "Existing tests never compare values; shuffles differ between vector body and tail.",
 ["src/formats/rgb","src/formats/rgba","src/vector"],
 "Interleaved 3x/4x loads and stores with REVERSE.")
p("P05","RGB to YUV follows the selected BT matrix and range",
 "For ColorSpace BT601, BT709 and BT2020, the YUV samples produced from RGB are within one code value of the standard's equations (Y = Kr*R+Kg*G+Kb*B with that standard's coefficients, Cb = 0.5*(B-Y)/(1-Kb), Cr = 0.5*(R-Y)/(1-Kr)), scaled to full range (0..max, chroma centred on half of max) or limited range (Y 16/255..235/255, chroma 16/255..240/255 of max) as the image's full_range flag says. Chroma of subsampled formats is that of the average of the 2x1 or 2x2 block it covers.",
 ["inputs","configurations"],
 "all RGB(A) source formats, all YUV destination formats and bit depths, three matrices, both ranges, all pixel values and positions, SIMD and scalar code",
 "No existing test checks a converted value against the standard.",
 ["src/color/space.rs","src/formats/i420/from_rgb.rs","src/formats/i422/from_rgb.rs","src/formats/i444/from_rgb.rs"],
 "make_matrices coefficients, range scaling in RgbToI4xx, 2x2 averaging in rgbx4_to_yx4_uv.")
p("P06","YUV to RGB follows the selected BT matrix and range",
 "For ColorSpace BT601, BT709 and BT2020, the RGB samples produced from YUV are within one code value of the exact inverse of that standard's equations applied to the source samples interpreted in full or limited range according to the image's full_range flag, with chroma replicated over the pixels it covers. Results outside the representable range saturate to 0 or the maximum.",
 ["inputs","configurations"],
 "all YUV source formats and bit depths, all RGB-family destinations, three matrices, both ranges, all sample values (also out-of-gamut combinations) and positions, SIMD and scalar code",
 "No existing test checks a converted value against the standard; saturation of out-of-gamut values depends on vector packing instructions.",
 ["src/color/space.rs","src/formats/i420/to_rgb.rs","src/formats/i422/to_rgb.rs","src/formats/i444/to_rgb.rs"],
 "make_matrices coefficients, range expansion in I4xxToRgb, zip for chroma replication.")
p("P07","YUV to YUV conversion changes only representation, range or matrix",
 "Converting between two YUV formats re-encodes the same colours: with equal colour information, equal subsampling and equal or greater bit depth the normalised value of every sample is preserved to within one code of the destination; changing subsampling averages or replicates chroma; changing full_range or the matrix yields within one code value the composition of the exact decode and encode equations.",
 ["inputs","configurations"],
 "all YUV format pairs, matrices and ranges, all in-gamut and out-of-gamut sample values and positions",
 "Existing tests have no oracle for YUV-to-YUV paths.",
 ["src/lib.rs","src/formats","src/color/space.rs"],
 "I4xxToRgb followed by RgbToI4xx through a boxed reader.")
p("P08","SIMD and scalar code agree at every position",
 "The value computed for a pixel does not depend on where it sits in a row or on the CPU features that were detected: the vector code and the scalar fallback yield results that differ by at most one code value for the same input, for every format and matrix conversion.",
 ["inputs","configurations"],
 "all format pairs, AVX2, AVX-512 (unstable feature) and scalar paths, all sample values",
 "Tests never run the scalar fallback and compare nothing.",
 ["src/vector","src/formats/visit_2x2.rs"],
 "visit dispatches on detected CPU features; tail pixels of each row use the scalar implementation.")
p("P09","Multi-threaded conversion equals single-threaded conversion",
 "For every pair of images and any number of worker threads, convert_multi_thread produces the same result (returned value and destination bytes) as convert. The sections given to the workers cover the image and write disjoint bytes, so the result does not depend on the schedule.",
 ["schedules","inputs","configurations"],
 "all format pairs, heights that do not divide evenly, thread counts 1..n (also more threads than row pairs), any order of execution of the sections, images with padding, crop windows, and images that convert rejects",
 "Tests run with the machine's core count and check nothing; the section split depends on height and thread count.",
 ["src/multi_thread.rs"],
 "split_planes hands each worker an even number of rows per plane; rayon runs them in any order.")
p("P10","A crop window selects exactly its rectangle",
 "A cropped image whose window lies on the chroma grid (even origin and size) behaves as an independent image whose pixel (i, j) is the parent's pixel (x+i, y+j), as conversion source and as destination, for every format, also when the window touches the right or bottom edge. Windows that do not fit inside the parent, including those whose coordinates overflow, are rejected with an error.",
 ["inputs","configurations"],
 "all formats, all windows with origin and size aligned to the chroma grid, all strides, any usize window values for the rejection",
 "No test crops anything.",
 ["src/crop.rs"],
 "Cropped::new overflow-checked comparison; crop_planes slices every plane.")
p("P11","Size computation and bounds check agree and are exact",
 "bounds_check accepts a set of planes exactly if every stride is at least the plane's packed row size and every plane is long enough for its rows, so that planes of buffer_size bytes with packed_strides are always accepted and anything shorter is rejected with an error. Sizes that do not fit into usize never wrap around silently.",
 ["inputs"],
 "all formats, all widths, heights, strides and plane lengths (usize), all numbers of planes",
 "Tests only construct valid images of one size.",
 ["src/pixel_format.rs","src/plane_decs.rs","src/image.rs"],
 "PlaneDesc width_op/height_op with strict (checked) arithmetic.")
p("P12","Plane inference splits a buffer into consecutive, exact planes",
 "infer (and the per-format variants) returns the planes of a contiguous buffer in the documented order, each starting where the previous one ends and exactly stride times rows long, using the given strides or packed ones (for formats with a single plane the plane is the whole buffer, which may be longer); an image built from one buffer therefore exposes the same samples as one built from the separate planes. A buffer or stride list that does not fit makes image construction return an error instead of panicking.",
 ["inputs"],
 "all formats, all dimensions and strides, all buffer lengths, numbers of strides",
 "Tests use exact-size buffers only.",
 ["src/planes.rs","src/image.rs"],
 "infer_impl's repeated split_at.")
p("P13","Bit-depth scaling is full-scale and never exceeds the depth",
 "Converting between 8-, 10- and 12-bit formats maps full scale to full scale, so that zero stays zero and the maximum code of one depth becomes the maximum code of the other, to within one code value of the destination. No conversion ever writes a sample above 2^bits-1 of the destination format, whatever the source samples and colours are.",
 ["inputs","configurations"],
 "all source formats, all 10- and 12-bit destination formats, all sample values including u16 values above the depth, matrices and ranges, SIMD and scalar code",
 "No test inspects 10/12-bit output values.",
 ["src/formats","src/vector","src/primitive.rs"],
 "max_value_for_bits scaling in readers and writers; conversion to u16.")
p("P14","Transfer functions match their standards and invert each other",
 "linear_to_scaled and scaled_to_linear implement the named curve (gamma 2.2/2.8, sRGB, BT.709 SDR, BT.2100 PQ and HLG) to within a small error over the whole domain, are inverse to each other, and map 0 to 0 and the curve's white to white. Finite input, including the negative values produced by out-of-gamut colours, never yields NaN.",
 ["inputs"],
 "all f32 values in the curve's domain (and finite values around it), all seven curves, scalar and vector implementation",
 "Tests sample the vector pow/exp/log at a grid with tolerance 1e-4 and never call the transfer functions.",
 ["src/color/transfer.rs","src/vector/avx2.rs","src/vector/avx512.rs"],
 "Piecewise curves through Vector::vpow/vln/select.")
p("P15","Primaries matrices are derived from the standard's chromaticities",
 "For each set of primaries, the RGB-to-XYZ matrix reproduces the standard's chromaticities and D65 white with luminance 1, and the XYZ-to-RGB matrix is its inverse. Converting primaries therefore preserves black, white and greys and is undone by the opposite conversion.",
 ["inputs","configurations"],
 "all pairs of primaries, all linear RGB values in [0,1]^3",
 "The only test that recomputes the matrices is ignored and asserts nothing.",
 ["src/color/primaries.rs","src/formats/transfer_and_primaries_convert.rs"],
 "generated_consts and the matrix application order.")
p("P16","Colour management applies decode, gamut and encode in the right order",
 "When transfer or primaries differ, convert linearises with the source's transfer, changes primaries from source to destination, and encodes with the destination's transfer, for every pixel and colour channel and leaving alpha alone; when they are equal it does none of this.",
 ["inputs","configurations"],
 "transfer/primaries pairs, all pixel values and positions, SIMD and scalar",
 "No test converts between different transfers or primaries with an oracle.",
 ["src/formats/transfer_and_primaries_convert.rs","src/lib.rs"],
 "TransferAndPrimariesConvert wraps the reader when colours differ.")
p("P17","ICtCp conversions follow BT.2100",
 "For ColorSpace ICtCpPQ and ICtCpHLG, the conversion matrices between R'G'B', LMS and ICtCp are those of BT.2100 and mutually inverse, greys map to neutral chroma, and subsampled chroma is the average over the whole block it covers.",
 ["inputs","configurations"],
 "both ICtCp spaces, 4:2:0, 4:2:2 and 4:4:4 destinations, all pixel values and positions",
 "No test converts ICtCp with an oracle.",
 ["src/color/space.rs"],
 "bt2100 module and bt2100_rgbx4_to_yx4_uv / bt2100_yx4_uv_to_rgb.")
p("P18","Invalid requests are rejected with the right error and no side effects",
 "convert and convert_multi_thread return MismatchedImageSize for different sizes, OddImageDimensions for odd ones, a bounds error when either image's planes are too few, too short or have too small a stride, and InvalidColorInfo when a YUV format is combined with RGB colour information; Image construction rejects zero dimensions. A request that is invalid in several ways may be reported with any of the matching errors. In all these cases nothing panics and no destination byte has been modified.",
 ["inputs","configurations"],
 "all format pairs, all dimensions, strides, plane lengths and counts, colour kinds",
 "No test triggers any error path.",
 ["src/lib.rs","src/image.rs","src/pixel_format.rs","src/multi_thread.rs"],
 "verify_input_windows, bounds_check in readers and writers, ColorInfo match in RgbToI4xx/I4xxToRgb.")
p("P19","Resizer fills exactly the image rectangle, plane by plane",
 "Resizer::resize rejects images of different formats, leaving the destination alone, and otherwise fills exactly the destination's image rectangle from the source's image rectangle, plane by plane with the plane's own subsampled size, honouring strides, crop windows and planes longer than needed, and without touching bytes outside the rectangle (even dimensions; two-byte samples at two-byte aligned rows; colour information is ignored). With nearest-neighbour sampling every sample is the source sample of the same component whose area contains its centre (YUYV is sampled in pairs of pixels), so resizing to the same size reproduces the source. With interpolating filters a sample depends only on samples of its own component around that position and keeps the value of flat areas to within one code. No filter writes a sample above 2^bits-1 of the format.",
 ["inputs","configurations"],
 "all formats, source and destination dimensions, strides, trailing bytes",
 "No test runs the resizer.",
 ["src/resize.rs","src/plane_decs.rs"],
 "PlaneDesc pixel_type/width_op drive per-plane fast_image_resize views.")
p("P20","Every way of holding an image presents the same image",
 "An image reports the same format, width, height, colour and planes whether it is handed over by value, by shared or mutable reference, as a trait object, or wrapped in Cropped and unwrapped again, through planes and planes_mut alike. Image::blank yields an all-zero image of the requested format, size and colour whose packed planes are together exactly PixelFormat::buffer_size bytes long and pass its own bounds check. PixelFormat::variants lists every pixel format once and bits_per_component is its depth (8, 10 or 12).",
 ["inputs","configurations"],
 "all formats, all descriptions and plane layouts, all ways of holding an image, all sizes of blank images below 4096x4096",
 "Tests construct images of one size and hand them over in one way.",
 ["src/image_traits.rs","src/image.rs","src/crop.rs","src/pixel_format.rs"],
 "impl ImageRef/ImageMut for &T and &mut T, Image::blank, Cropped::into_inner.")
p("P21","Images of every size are converted completely",
 "Conversion does not degrade with size: for every even width and height (from 2 to beyond a million), every stride and every plane length the library accepts, including planes of more than four gigabytes, convert succeeds, writes every sample of the destination, computes each one from the source pixels at its own position by the same equation that holds near the origin, leaves out no columns and no rows, converts none to the wrong place, and touches nothing outside the image.",
 ["inputs","configurations"],
 "all format pairs, all even widths and heights up to 2^20, all strides up to 2^24-1, all plane lengths, all positions in the image, SIMD and scalar code",
 "Tests convert one picture of one size; wrong chunking of rows or columns, offsets that are kept in too small an integer, or a wrong split between vector loop and remainder show only at sizes they never use.",
 ["src/formats/visit_2x2.rs","src/formats","src/planes.rs"],
 "visit_impl runs the block conversion over rows and columns; readers and writers compute y*stride + x*size offsets.")
open(__import__("os").path.dirname(__import__("os").path.abspath(__file__))+"/../properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
