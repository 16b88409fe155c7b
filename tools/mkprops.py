#!/usr/bin/env python3
"""writes properties.jsonl (the text of the properties lives here)"""
import json, os
S = "boofcpp/src/boofcv/"
J = "boofcpp-jni/src/main/"
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "observe_at": observe, "hook_needed": None}})


p("C01", "Image operations stay inside the memory of their arguments",
  "Every image operation reads and writes only array elements that belong to the images, kernels, histograms and work arrays it was given, for every image size, sub-image offset and stride, kernel width and anchor, radius and block size it accepts. In particular it never touches memory before the first or after the last pixel row of a view.",
  ["inputs"], "all image shapes, sub-image geometries, kernels, radii and block sizes accepted by the operation",
  "Tests use a handful of square-ish sizes and valid reads next to a heap block rarely crash; only a bound over symbolic sizes covers all of them.",
  [S + "convolve.h", S + "image_blur.h", S + "binary_ops.h", S + "binary_ops.cpp", S + "threshold_block_filters.h", S + "image_misc_ops.h", S + "image_statistics.h", S + "image_convert.h"],
  [("loop limits derived from image and kernel size", S + "convolve.h"), ("small-image dispatch", S + "image_blur.h")], ["array index of every load and store"])
p("C02", "Output images are resized and written completely",
  "After an image operation returns, its output image has the documented size and every one of its pixels is determined by the operation's inputs alone: the shape, size and pixel values the output and the work images had before the call do not influence the result.",
  ["inputs", "histories"], "all inputs, and all previous states of output and scratch images",
  "Tests start from fresh images, which are zero or have the right size already, so stale pixels look right.",
  [S + "convolve.h", S + "image_blur.h", S + "binary_ops.h", S + "binary_ops.cpp", S + "threshold_block_filters.h", S + "image_convert.h", S + "image_misc_ops.h"],
  [("output reshape", S + "image_types.h: reshape"), ("border passes next to inner loops", S + "image_blur.h")], ["pixels and shape of the output image"])
p("C03", "Operations change nothing but their outputs",
  "An image operation leaves its input images and kernels exactly as they were, and of an output that is a view into a larger image it changes only the pixels of the view.",
  ["inputs"], "all inputs, sub-image geometries and outputs",
  "Tests look at the output only; writes to an input or beside the view are not observed.",
  [S + "convolve.h", S + "image_blur.h", S + "binary_ops.h", S + "binary_ops.cpp", S + "threshold_block_filters.h", S + "image_convert.h", S + "image_misc_ops.h"],
  [("const inputs, row-by-row output pointers", S + "convolve.h")], ["memory of inputs", "memory of the parent image around an output view"])
p("C04", "Convolution equals its definition, including at the image border",
  "Horizontal, vertical and two-dimensional convolution with an image border give, at every output pixel, the sum over the kernel of coefficient times source pixel, the kernel being anchored at its offset and source pixels outside the image coming from the border rule. The division variants return that sum plus half the divisor, divided by the divisor.",
  ["inputs"], "all images, sub-image views, kernels (any width and anchor), border rules and output images",
  "Tests compare the fast code against the slow one on a few sizes and odd centred kernels with random data.",
  [S + "convolve.h", S + "image_border.h"],
  [("inner loops, unrolled variants, border strips", S + "convolve.h")], ["output pixels"])
p("C05", "Normalized convolution is the weighted average over the overlap",
  "Normalized horizontal and vertical convolution give, at every pixel, the kernel-weighted sum of the source pixels under the part of the kernel that lies inside the image divided by the sum of exactly those coefficients (rounded to nearest for integer images), also when the kernel is larger than the image.",
  ["inputs"], "all images and kernels whose overlapping weight is not zero",
  "Tests sample few widths; the strips near the border and the hand-over to the small-image code are reached only by some size/anchor combinations.",
  [S + "convolve.h"], [("border strips with running weight", S + "convolve.h"), ("naive variant for small images", S + "convolve.h")], ["output pixels"])
p("C06", "Mean and Gaussian blur equal the windowed average of the image",
  "Mean blur gives at every pixel the average of the source pixels within the radius in both axes, clipped to the image (rounded to nearest for integer images, horizontal pass first), and Gaussian blur equals the normalized convolution with the Gaussian kernel of the requested sigma and width; both hold for every radius, also one exceeding the image.",
  ["inputs"], "all images, radii, widths and sigmas",
  "Tests sample few radii, mostly smaller than the image, and few shapes.",
  [S + "image_blur.h", S + "convolve.h"], [("sliding window sum", S + "image_blur.h"), ("border strips", S + "image_blur.h")], ["output pixels"])
p("C07", "Image borders follow their rule for every coordinate",
  "Reading an image through a border object returns the image's own pixel inside the image and, for every integer coordinate outside, the pixel prescribed by the border type: the constant, the nearest edge pixel, the mirrored pixel or the periodically wrapped pixel. The border factory returns the requested type attached to the given image, and no such read touches memory outside the image.",
  ["inputs"], "all integer coordinates (any distance outside), image sizes and border types",
  "Tests read a few coordinates one or two pixels outside.",
  [S + "image_border.h"], [("coordinate adjustment per border type", S + "image_border.h"), ("factory", S + "image_border.h")], ["value returned by border get"])
p("C08", "Fixed threshold classifies every pixel against the threshold",
  "Thresholding a grey image writes 1 exactly for the pixels not above the threshold when thresholding down and exactly for the pixels above it when thresholding up, and 0 for all others; the fixed global filter does the same with its configured threshold and direction.",
  ["inputs"], "all images, views, thresholds and both directions",
  "Tests sample random pixels and rarely equality with the threshold or extreme values.",
  [S + "binary_ops.h"], [("threshold loops", S + "binary_ops.h")], ["output pixels"])
p("C09", "Local and block thresholds compare with their neighbourhood statistics",
  "The local mean threshold compares each pixel with the scaled mean of its clipped neighbourhood, and the block thresholds tile the image completely into blocks, derive each block's statistic from exactly its own pixels and compare every pixel with the statistic of the blocks around it clipped to the image. The result is binary and every output pixel belongs to exactly one block.",
  ["inputs", "histories"], "all image sizes, block sizes, scales, directions and earlier uses of the filter object",
  "Tests use few sizes where the block size divides the image or nearly so.",
  [S + "threshold_block_filters.h", S + "binary_ops.h"], [("block tiling", S + "threshold_block_filters.h: ThresholdBlockCommon"), ("block statistics", S + "threshold_block_filters.h")], ["output pixels", "block statistics"])
p("C10", "Otsu threshold maximises the between-class variance of the histogram",
  "For every histogram, the Otsu threshold is the first level with the greatest between-class variance of the two classes split there, computed from the histogram and its total; scaling and direction options then act on that level only as documented. The image functions count every pixel once in the bin of its value and return, respectively apply, the level as a pixel value.",
  ["inputs"], "all histograms, lengths, scales and directions",
  "Tests use a couple of bimodal images.",
  [S + "binary_ops.h", S + "binary_ops.cpp"], [("variance recurrence", S + "binary_ops.h: ComputeOtsu")], ["threshold, variance"])
p("C11", "Binary logic and 4-connected morphology follow their definitions",
  "Binary and/or give 1 exactly where both/either input is non-zero, also when the output is one of the inputs; 4-connected erosion and dilation give at every pixel including the image edge the conjunction/disjunction of the pixel and its 4 neighbours, with pixels outside the image counting as zero.",
  ["inputs"], "all binary images, sizes down to one pixel, views and aliasing of the output",
  "Tests check a few images; one-pixel-wide images and edges of views are sampled rarely.",
  [S + "binary_ops.cpp", S + "binary_ops.h"], [("inner loops", S + "binary_ops.cpp"), ("edge handling", S + "binary_ops.cpp")], ["output pixels"])
p("C12", "Image statistics and fills cover exactly the pixels of the view",
  "Minimum, maximum, sum, mean and histogram of an image equal the mathematical value over all its pixels and nothing else, for signed, unsigned and floating point pixels and for sub-images; fills set all pixels of the image (or of the border frame) to the value and no other pixel.",
  ["inputs"], "all images and views of every pixel type, all values and frame radii",
  "Tests use whole images of a few sizes and mostly positive values.",
  [S + "image_statistics.h", S + "image_misc_ops.h"], [("reductions", S + "image_statistics.h"), ("fills", S + "image_misc_ops.h")], ["returned value", "image pixels", "histogram bins"])
p("C13", "Image geometry stays consistent under construction, reshape and views",
  "After construction, assignment, reshape or taking a sub-image, an image's width, height, offset, stride and storage describe storage large enough for all pixels; pixel (x,y) of a view is pixel (x0+x,y0+y) of its parent; reshape reuses storage only when it is large enough and refuses to reshape a view to another size; copying an image from another makes all pixels equal whatever the geometries.",
  ["inputs", "histories"], "all sizes, sub-rectangles, and sequences of reshape, copy and view operations",
  "Tests construct a few shapes; growth, shrink and copy between views with different strides are sampled rarely.",
  [S + "image_types.h"], [("reshape", S + "image_types.h"), ("makeSubimage", S + "image_types.h"), ("setTo", S + "image_types.h")], ["geometry fields and pixel addresses"],
  [("width, height, offset, stride, data_length, subimage", "geometry of the image", S + "image_types.h")])
p("C14", "Every buffer is freed exactly once, by its owner",
  "Each dynamically allocated buffer has one owner, which frees it exactly once with the matching form of delete: no copy, assignment, reshape, move or failing constructor of an image, kernel, array, set or filter leaks a buffer, frees it twice or leaves two owners, and views never free their parent's pixels.",
  ["histories"], "all histories of construction, copying, assignment, reshape and destruction",
  "Tests run without leak or double-free detection and copy few of the classes.",
  [S + "base_types.h", S + "image_types.h", S + "packed_sets.h", S + "contour.h", S + "image_border.h", S + "convolve_kernels.h"],
  [("destructors, copy operations", S + "base_types.h, image_types.h, packed_sets.h")], ["allocation and deallocation sites"])
p("C15", "Growable array behaves as a sequence",
  "A growable array keeps its elements and their order across resize, reserve, push and assignment, never reports a size larger than its storage, grows only when needed, gives new elements their defined value, and rejects resizing when it wraps foreign memory that is too small.",
  ["histories", "inputs"], "all sequences of resize, reserve, push, pop, fill and copy with all sizes",
  "Tests try a few sizes.",
  [S + "base_types.h"], [("resize and reserve", S + "base_types.h: GrowArray")], ["size, capacity, elements"],
  [("data, size, array_length, can_resize", "storage", S + "base_types.h")])
p("C16", "Packed set returns the elements of each set in insertion order",
  "In a packed set, each set's recorded size and start address exactly the elements pushed to it, in order, across block boundaries; iterating a set visits each of its elements once; clearing or resetting forgets all elements while allowing reuse of the storage.",
  ["histories"], "all sequences of starting sets, pushing, popping, clearing and iterating, all block sizes",
  "Tests push one or two patterns into fixed block sizes.",
  [S + "packed_sets.h"], [("block index arithmetic", S + "packed_sets.h")], ["elements returned by iteration and element access"])
p("C17", "Contour tracing keeps its bookkeeping consistent with the image",
  "Labelling a binary image leaves the input's foreground unchanged outside its one-pixel work border, gives every output label a value between 0 and the number of contours, visits neighbours in the fixed clockwise order of the chosen connectivity, and records for each blob exactly one external contour and its internal ones in storage consistent with the point lists.",
  ["inputs"], "all binary images, both connectivity rules and contour storage options",
  "Tests use six small drawings.",
  [S + "contour.h", S + "contour.cpp"], [("tracer rules", S + "contour.cpp"), ("label pass", S + "contour.cpp")], ["label image, contour lists"])
p("C18", "Kernel factory builds correctly sized, normalised kernels",
  "Factory kernels have the requested width with the anchor in the middle; table and mean kernels have equal coefficients, Gaussian kernels sample the Gaussian of the given sigma symmetrically around the anchor, floating point kernels are normalised so that their coefficients sum to one over all coefficients, and converting to integers scales all coefficients by the smallest significant one.",
  ["inputs"], "all widths, sigmas, radii and coefficient types",
  "Tests check few widths and compare against the same formula.",
  [S + "convolve_kernels.h"], [("factory functions", S + "convolve_kernels.h: FactoryKernel"), ("normalisation", S + "convolve_kernels.h: normalize")], ["kernel width, offset and coefficients"])
p("C19", "Checked accessors reject exactly the coordinates outside the container",
  "The range-checked accessors of images, kernels, arrays and packed sets fail with an exception for every index or coordinate outside the container and for none inside, and otherwise return the addressed element.",
  ["inputs"], "all coordinates and all container geometries including views and empty containers",
  "Tests probe a few out-of-range values; off-by-one conditions on one side only are easily missed.",
  [S + "image_types.h", S + "base_types.h", S + "convolve_kernels.h", S + "packed_sets.h"], [("range tests in at()", S + "image_types.h, base_types.h")], ["exception or returned element"])
p("C20", "Native bridge releases every Java array it acquires",
  "Every native method of the Java bridge releases each Java array or string it acquired exactly once on every path on which it returns normally, with the same array it was acquired from, writes back the arrays that hold outputs, does not touch array memory after releasing it, and calls no Java method while holding a critical array.",
  ["inputs", "fault_sequences"], "all control-flow paths of the native methods, all image types",
  "The tests do not load the bridge into a virtual machine at all.",
  [J + "cpp/JNIBoofCPP.h", J + "cpp/JNIBoofCPP.cpp", J + "cpp/NativeImageBlurOps.cpp", J + "cpp/NativeChang2004.cpp"],
  [("critical array guards", J + "cpp/JNIBoofCPP.h")], ["acquire and release calls"])
p("C21", "Java declarations and native code agree",
  "Each native method declared in Java has a native function of the matching mangled name and parameter types, every field and method the native code looks up by name exists in the Java class with the signature used, and it is accessed with the accessor of its type.",
  ["programs"], "all native methods, field and method look-ups of the bridge",
  "The tests never load the bridge; a wrong name or signature fails only at run time in a Java program.",
  [J + "cpp/JNIBoofCPP.cpp", J + "cpp/NativeChang2004.cpp", J + "cpp/NativeBlockMean.cpp", J + "java/org/boofcpp"],
  [("JNI naming and descriptors", J + "cpp, " + J + "java")], ["symbols and descriptors"])
p("C22", "Native handles are used as the type they were created with",
  "A handle stored in a Java object by the native constructor is always converted back to the very type it was created from for that pixel-type combination, by processing, configuration and destruction alike, and constructor arguments reach the parameter of the same meaning.",
  ["inputs", "configurations"], "all pixel type combinations and native classes",
  "The tests never load the bridge.",
  [J + "cpp"], [("nativePtr casts", J + "cpp")], ["cast types of the handle"])
p("C23", "Operations share no mutable global state",
  "The library keeps no mutable static or global state, so operations on distinct objects running in different threads cannot influence each other and results depend only on arguments.",
  ["schedules", "histories"], "all interleavings of calls on distinct objects",
  "Tests are single threaded.",
  [S, J + "cpp"], [("absence of static mutable data", S)], ["global variables and their writers"])
p("C24", "Reused filters and buffers give the result of fresh ones",
  "Processing an image with a filter, tracer or kernel object that was used before on images of other sizes gives the same result as a newly constructed object with the same configuration.",
  ["histories"], "all histories of earlier uses",
  "Tests construct new objects for nearly every case.",
  [S + "threshold_block_filters.h", S + "binary_ops.h", S + "contour.cpp", S + "packed_sets.h", S + "base_types.h"], [("re-initialisation at the start of processing", S + "threshold_block_filters.h, contour.cpp")], ["result of the second use"])
p("C25", "Mismatched shapes are rejected before anything is written",
  "Operations that require images of equal shape, matching kernels or valid parameters check that first and fail with an exception without having written to any image when it is violated; they do not fail when it is satisfied.",
  ["inputs"], "all combinations of shapes and geometries",
  "Tests pass consistent shapes nearly everywhere.",
  [S + "sanity_checks.h", S + "sanity_checks.cpp", S + "convolve.h", S + "binary_ops.cpp", S + "image_types.h"], [("shape checks", S + "sanity_checks.cpp")], ["exception", "image memory"])
p("C26", "Band average of an interleaved image is the integer or real mean",
  "Converting an interleaved image to grey by averaging gives at every pixel the mean of that pixel's bands (truncated for integers), for every number of bands and for views.",
  ["inputs"], "all images, band counts, pixel types and geometries",
  "Tests use three bands, positive values and whole images.",
  [S + "image_convert.h"], [("averaging loops", S + "image_convert.h")], ["output pixels"])

p("C27", "Native methods perform the operation they stand for and deliver results",
  "A bridge call that returns normally has done the library operation it stands for, with the wrapper's arguments in place, on an output given the input's shape and with the pixel type set from the images; constructors leave the new object in the handle, destroy frees it. After contour extraction the Java object holds every contour (id, external index, internal ids) and every point of this image only.",
  ["inputs", "configurations", "histories"], "all native methods, pixel types, image sizes and earlier uses",
  "The tests never load the bridge or its Java classes.",
  ["boofcpp-jni/src/main/cpp", "boofcpp-jni/src/main/java/org/boofcpp"], [("native methods", "boofcpp-jni/src/main/cpp"), ("Java wrappers", "boofcpp-jni/src/main/java/org/boofcpp")], ["library calls on each returning path", "values handed to Java"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        assert x["statement"].count(". ") <= 2, x["id"]
        f.write(json.dumps(x) + "\n")
