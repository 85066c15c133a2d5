#!/usr/bin/env python3
"""Writes properties.jsonl (run by hand; the output is committed)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
ALL = ["src/*.c", "include/*.h"]

prop("C01", "Every image operation stays inside its buffers",
 "For every call of a library function whose pointer arguments have the documented sizes (images of at most 2^31-1 bytes), every byte the call reads or writes lies inside a caller's buffer of that size, inside a block the call itself allocated, or inside one of its own local objects. This holds for every width, height, channel count, coordinate, radius, factor, marker list and pixel content, including 1-pixel-wide images and out-of-range coordinates.",
 ["inputs"], "all dimensions, channel counts, scalar parameters and pixel contents within the documented buffer sizes",
 "The tests use a handful of 2x2 to 4x4 images and photographs; a bad index shows only for particular sizes/parameters, and without a sanitizer an out-of-bounds access usually goes unnoticed.",
 ALL, [("index arithmetic bounded by the loop limits and clamps", "src/*.c loops"), ("buffer sizes computed from the dimensions", "every malloc/calloc"), ("explicit coordinate guards", "src/draw.c fcv_set_circle_pixel, src/watershed_segmentation.c, src/perspectivetransform.c, src/sobel_edge_detection.c")])

prop("C02", "Invalid arguments are rejected without touching memory",
 "Called with a null pointer for an image, colour, matrix, kernel, marker or output argument, or with a zero or negative width, height or channel count (directly or through a dimension pointer), every image operation returns its failure result - null for operations that return an image or a list, the whole image's corners for the corner detection, nothing for the drawing operations - and writes to no memory of the caller. No argument values make a library function divide by an integer zero, fail an assertion or terminate the calling process. (The colour string parser and the EXIF reader are not image operations.)",
 ["inputs"], "all argument combinations, valid or not",
 "The tests call the functions with valid arguments only; rejection must hold for each pointer and dimension of each of the operations.",
 ALL, [("guard clauses at the top of each operation", "src/*.c"), ("assert()/exit() only where callers rule the case out", "src/corner_detection.c")])

prop("C03", "A failed allocation is reported, never dereferenced",
 "If any memory allocation inside a library function or the command line program fails, no null pointer is dereferenced, and a library function that returns a heap block and could not allocate one of the buffers it needs returns null rather than a partly computed result. No library function terminates the process because of it.",
 ["fault_sequences", "inputs"], "every subset of allocations failing, on every path",
 "Tests never see malloc fail.",
 ALL, [("null checks after malloc/calloc/realloc/strdup and after calls that return buffers", "src/*.c")])

prop("C04", "Heap blocks and files are released exactly once",
 "On every path through a library function or the command line program's own functions, each block the function allocated (or received from another library function) is, when the function returns, either returned to the caller, stored in the caller's structure, or has been freed exactly once; nothing is used after it is freed, nothing is freed that was not heap-allocated, and caller-owned buffers are never freed. Opened files are closed exactly once on every path.",
 ["inputs", "fault_sequences"], "every control-flow path, including all error paths",
 "Leaks and double frees on error paths are invisible to tests that only compare outputs on successful paths.",
 ALL, [("free() calls on every exit", "src/*.c"), ("ownership of returned blocks passes to the caller", "include/*.h, bindings")])

prop("C05", "Operations are pure: inputs untouched, no hidden state",
 "An image operation writes only to its own local and freshly allocated memory and to the arguments documented as outputs or as modified in place (the drawing operations, the threshold operation, and the out-dimension pointers); input images, matrices, corner and marker lists are unchanged after the call. No library function keeps or reads mutable static state, or calls a non-reentrant or non-deterministic library routine (time, rand, environment, strtok), so results depend only on the arguments and concurrent calls on distinct buffers do not interfere.",
 ["inputs", "schedules", "histories"], "all inputs, all call histories and all interleavings of calls on distinct buffers",
 "Tests make single calls and look at the result only; they do not compare inputs before and after, nor run calls concurrently.",
 ALL, [("const-qualified inputs", "include/*.h"), ("no file-scope variables", "src/*.c")])

prop("C06", "Returned buffers have exactly the documented size",
 "Every image operation returns a block of exactly (result width x result height x result channels) bytes for the dimensions it reports to the caller, and neither that size nor the size of any internal buffer is computed with an arithmetic wrap-around for any image dimensions. Reported output dimensions equal the dimensions used for the block and are the documented ones: adding a border gives the source size plus twice the border width, resizing gives the source size times the factor rounded down, trimming gives the size of the remaining rectangle.",
 ["inputs"], "all dimensions and scalar parameters",
 "A wrap-around needs images of several gigabytes, and a short block is not visible in the tests' output comparison.",
 ALL, [("size_t computations guarded by SIZE_MAX checks", "src/*.c"), ("output dimension pointers", "fcv_resize, fcv_add_border, fcv_generate_histogram, fcv_trim, fcv_extract_document_auto")])

prop("C07", "Flip, rotate, transpose, crop and border move pixels exactly",
 "For every image, horizontal/vertical flip, transpose, transverse and the 90/180/270 degree clockwise rotations return the image whose pixel at each position is, in all four channels, exactly the source pixel given by the geometric definition, with no pixel skipped, repeated or altered. Cropping returns exactly the requested rectangle, adding a border returns the source image shifted by the border width in both directions with every other pixel in the border colour, and single-to-multichannel conversion keeps pixel positions.",
 ["inputs"], "all image sizes, channel counts, rectangles and border widths",
 "Tests compare a few tiny images; an error that needs non-square images, odd sizes, a particular channel or a particular row is not seen.",
 ["src/flip.c", "src/rotate.c", "src/crop.c", "src/draw.c", "src/single_to_multichannel.c"], [("source and destination index expressions inside the pixel loops", "src/flip.c, src/rotate.c, src/crop.c, src/draw.c fcv_add_border")])

prop("C08", "Pixel format: opaque alpha, equal grey channels, binary values",
 "Operations that return RGBA images with computed colours (grayscale, contrast stretch, Otsu thresholding, black/white conversion, blur with a positive radius, resize, watershed, histogram, single-to-multichannel) set the alpha of every pixel to 255, whatever the alpha of the input. Grayscale, contrast stretch, Otsu thresholding, black/white conversion and single-to-multichannel give the three colour channels of each pixel the same value. Binary operations (erosion, dilation, closing, opening, conversion to binary, global threshold) produce only the values 0 and 255, for inputs that are not binary too.",
 ["inputs"], "all images and parameters",
 "Tests look at a few pixels of a few images.",
 ["src/conversion.c", "src/single_to_multichannel.c", "src/watershed_segmentation.c", "src/histogram.c", "src/binary_closing_disk.c", "src/convert_to_binary.c"], [("four stores per pixel, alpha constant", "pixel loops")])

prop("C09", "Result images contain no uninitialised bytes",
 "Every byte of a result image, every byte of an intermediate buffer that the call reads or hands to another operation, and every local variable that is read was written before by the same call (or allocated zeroed), so the result depends only on the arguments and never on what memory held before. This holds for all dimensions and supported channel counts (border: 1, 3 or 4 channels), including images too small for the operation's neighbourhood, constant images and images with unusual pixel values.",
 ["inputs"], "all dimensions, channel counts and parameters",
 "Fresh heap memory is usually zero in tests, so a skipped pixel looks black and passes.",
 ALL, [("full-range pixel loops or calloc", "src/*.c")])

prop("C10", "One luma formula everywhere",
 "Every conversion from colour to grey (RGBA to single channel, grayscale, contrast stretch, and hence thresholding, Sobel and black/white conversion) computes for each pixel exactly (76 R + 150 G + 30 B) div 256 from the red, green and blue bytes of that same pixel, ignoring alpha. The grey of a pixel therefore does not depend on which operation computed it.",
 ["inputs"], "all 2^24 colours, all pixel positions and image sizes",
 "Tests check a few colours; a deviating weight, channel order or pixel offset in one of the implementations shows only on other colours.",
 ["src/rgba_to_grayscale.c", "src/conversion.c", "include/rgba_to_grayscale.h"], [("R_WEIGHT/G_WEIGHT/B_WEIGHT", "include/rgba_to_grayscale.h")])

prop("C11", "CLI runs the named operation with the user's parameters",
 "For each pipeline operation of the command line program, naming it runs exactly that library operation on the current image with the current dimensions and the parameters the user gave, in the documented order, and no other. After the step the program's image dimensions are those of the step's result (swapped for 90/270 degree rotations, output dimensions for resize, crop, trim, border, histogram and document extraction, unchanged otherwise). The operations of a pipeline are applied in the order given, each to the result of the previous one; a name that is no operation makes the step fail.",
 ["inputs", "histories"], "all operation names, parameters and pipelines",
 "The stable test suite does not execute the command line program's pipeline operations at all, except corner detection.",
 ["src/cli.c"], [("strcmp dispatch", "src/cli.c apply_operation"), ("pipeline representation", "src/cli.c add_operation, execute_pipeline")])

prop("C12", "CLI reports every failure and writes only complete results",
 "The program exits 0 and prints its success message only if the pipeline was parsed, the input was loaded, every operation returned an image and the output file was written successfully. If any of these steps fails it exits non-zero, and when a step before saving fails the output file is not written. What is saved is the result of the last operation with its dimensions, as four bytes per pixel, to the path named by the last argument; when every step succeeds the program exits 0.",
 ["inputs", "fault_sequences"], "all inputs and all failures of loading, parsing, operations and saving",
 "Failures of the individual steps are not provoked by the stable tests.",
 ["src/cli.c"], [("return codes and error branches", "src/cli.c main, execute_pipeline, apply_operation")])

prop("C13", "EXIF orientation is honoured and always in range",
 "For every file, reading the EXIF orientation yields a value from 1 to 8 (1 when there is none, or when the stored one is invalid). For each orientation the program applies exactly the transformation the EXIF standard prescribes, swaps the dimensions exactly for orientations 5 to 8, and keeps image and dimensions consistent when the transformation fails.",
 ["inputs", "fault_sequences"], "all files (any byte content) and all orientations",
 "Tests have no JPEG with unusual or malformed EXIF data.",
 ["src/exif.c", "src/cli.c"], [("orientation switch", "src/cli.c main"), ("tag parser", "src/exif.c fcv_get_exif_orientation")])

prop("C14", "Haskell bindings agree with the C interface",
 "Each foreign call of the Haskell binding passes arguments in the number, order, type and signedness of the C function's declaration, and the structures it reads and writes have the C layout. Result vectors expose no more bytes than the C function allocated, and every block received from C is released exactly once.",
 ["programs", "inputs"], "all uses of the bindings",
 "The binding tests use 4x4 images and check vector lengths only; reading past the end of a C block is silent.",
 ["bindings/flatcv-hs/src"], [("c2hs call declarations and marshalling", "bindings/flatcv-hs/src")])

prop("C15", "Library calls terminate",
 "Every library call returns after a number of steps bounded in terms of its arguments: no input (including NaN, huge radii or malformed files) makes one of its loops run forever.",
 ["inputs"], "all inputs", "A hanging input is by definition not among the tests.",
 ALL, [("counted loops", "src/*.c")])

prop("C16", "Colour strings parse totally and deterministically",
 "A colour string is accepted exactly when, after an optional leading '#', it consists of six hexadecimal digits (either case), and then yields the red, green and blue bytes in that order; every other string yields white (255,255,255). All three outputs are always set and no character beyond the terminator is read.",
 ["inputs"], "all strings", "Tests use a few valid colours.",
 ["src/parse_hex_color.c"], [("validation loop and shifts", "src/parse_hex_color.c")])

# --- properties that static analysis cannot decide here (not applicable)
prop("C31", "Blur and resize are convex combinations of source pixels",
 "Each output channel of blur and resize lies between the minimum and maximum of the source values in its footprint, a constant image is a fixed point, and radius 0 / factor 1 return an identical image.",
 ["inputs"], "all images, radii and factors", "Tests sample a few images.", ["src/conversion.c"], [("weights normalised by their sum", "src/conversion.c")])
prop("C32", "Otsu picks a variance-maximising threshold",
 "The threshold used for binarisation maximises the between-class variance of the grey histogram.", ["inputs"], "all images", "Tests sample two images.", ["src/conversion.c"], [("variance loop", "src/conversion.c")])
prop("C33", "Watershed labels every reachable pixel from its markers",
 "Each marker keeps its own label, each pixel connected to a marker below the flood level is labelled, and with boundaries disabled labels form connected regions.", ["inputs"], "all images and marker sets", "Tests sample one image.", ["src/watershed_segmentation.c"], [("level-wise flooding", "src/watershed_segmentation.c")])
prop("C34", "Corner detection finds the document corners",
 "For a photograph of a convex document the four reported corners lie within a few pixels of the true ones, in clockwise order from the top left.", ["inputs"], "all photographs", "Tests use 19 photographs.", ["src/corner_detection.c", "src/sort_corners.c"], [("detection chain", "src/corner_detection.c")])
prop("C35", "The perspective transform maps the four corners",
 "The computed matrix maps each of the four source corners to its destination corner up to rounding; the identity is returned only for degenerate quadrilaterals.", ["inputs"], "all quadrilaterals", "Tests sample a few.", ["src/perspectivetransform.c"], [("Gaussian elimination", "src/perspectivetransform.c")])
prop("C36", "Trim removes exactly the uniform border",
 "The result of trim is the maximal-trimmed rectangle: no border row or column of the result is uniform (within the threshold) unless it is one pixel wide.", ["inputs"], "all images", "Tests sample a few.", ["src/trim.c"], [("four shrinking loops", "src/trim.c")])
prop("C37", "Histogram bar heights are proportional to counts",
 "Each bar's height is floor(200 count / max count) for its value and channel.", ["inputs"], "all images", "Tests sample one image.", ["src/histogram.c"], [("bar loop", "src/histogram.c")])
prop("C38", "Morphology laws",
 "Erosion and dilation are dual, opening is anti-extensive, closing extensive, and both idempotent.", ["inputs"], "all binary images and radii", "Tests sample a few.", ["src/binary_closing_disk.c"], [("disk neighbourhood loops", "src/binary_closing_disk.c")])
prop("C39", "Saved files decode to the processed image",
 "Decoding the written PNG yields exactly the pipeline's result pixels.", ["inputs"], "all images", "The stable tests write no image.", ["src/cli.c", "include/stb_image_write.h"], [("vendored encoder", "include/stb_image_write.h")])

with open("/verif/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
