// instantiations of every class template of the library (analysed, never executed)
#include <random>
#include "image_types.h"
#include "base_types.h"
#include "convolve.h"
#include "convolve_kernels.h"
#include "image_blur.h"
#include "image_border.h"
#include "image_convert.h"
#include "image_misc_ops.h"
#include "image_statistics.h"
#include "packed_sets.h"
#include "print_structures.h"
#include "threshold_block_filters.h"
#include "contour.h"
using namespace boofcv;
#define ALL(E) \
template class boofcv::GrowArray<E>; template class boofcv::Gray<E>; template class boofcv::Interleaved<E>; \
template class boofcv::Planar<Gray<E>>;
ALL(U8) ALL(S16) ALL(U16) ALL(S32) ALL(F32) ALL(F64)
#define THR(E) \
template class boofcv::ThresholdBlockMean<E>; template class boofcv::ThresholdBlockOtsu<E>; template class boofcv::ThresholdBlockMinMax<E>; \
template class boofcv::LocalMeanBinaryFilter<E>; template class boofcv::GlobalOtsuBinaryFilter<E>; template class boofcv::GlobalFixedBinaryFilter<E>;
THR(U8) THR(F32)
template class boofcv::PackedSet<Point2D<S32>>;
template class boofcv::PackedSet<S32>;
template class boofcv::Kernel1D<S32>; template class boofcv::Kernel1D<F32>; template class boofcv::Kernel1D<F64>;
template class boofcv::Kernel2D<S32>; template class boofcv::Kernel2D<F32>; template class boofcv::Kernel2D<F64>;
