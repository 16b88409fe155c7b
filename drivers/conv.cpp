// entry points analysed for the convolution properties (never executed)
#include "convolve.h"
using namespace boofcv;
template class boofcv::Gray<U8>;
template class boofcv::Gray<S16>;
template class boofcv::Gray<S32>;
template class boofcv::Gray<F32>;
#define CONV(P, E, R, K) \
extern "C" void conv_h_##P(const Kernel1D<K>& k, const ImageBorder<E>& a, Gray<R>& o){ ConvolveImage::horizontal(k,a,o); } \
extern "C" void conv_v_##P(const Kernel1D<K>& k, const ImageBorder<E>& a, Gray<R>& o){ ConvolveImage::vertical(k,a,o); } \
extern "C" void conv_2_##P(const Kernel2D<K>& k, const ImageBorder<E>& a, Gray<R>& o){ ConvolveImage::convolve(k,a,o); }
CONV(U8, U8, S32, S32)
CONV(F32, F32, F32, F32)
CONV(S16, S16, S16, S32)
#define NAIVE(P, E, K) \
extern "C" void naive_h_##P(const Kernel1D<K>& k, const ImageBorder<E>& a, Gray<E>& o, K d){ ConvolveNaive::horizontal(k,a,o,d); } \
extern "C" void naive_v_##P(const Kernel1D<K>& k, const ImageBorder<E>& a, Gray<E>& o, K d){ ConvolveNaive::vertical(k,a,o,d); } \
extern "C" void naive_2_##P(const Kernel2D<K>& k, const ImageBorder<E>& a, Gray<E>& o, K d){ ConvolveNaive::convolve(k,a,o,d); } \
extern "C" void inner_h_##P(const Kernel1D<K>& k, const Gray<E>& a, Gray<E>& o, K d){ ConvolveImage_Inner::horizontal_unrolled(k,a,o,d); } \
extern "C" void inner_v_##P(const Kernel1D<K>& k, const Gray<E>& a, Gray<E>& o, K d){ ConvolveImage_Inner::vertical_unrolled(k,a,o,d); } \
extern "C" void inner_2_##P(const Kernel2D<K>& k, const Gray<E>& a, Gray<E>& o, K d){ ConvolveImage_Inner::convolve(k,a,o,d); }
NAIVE(U8, U8, S32)
NAIVE(F32, F32, F32)
NAIVE(S16, S16, S32)
#define PLAIN(P, E, R, K) \
extern "C" void naivep_h_##P(const Kernel1D<K>& k, const ImageBorder<E>& a, Gray<R>& o){ ConvolveNaive::horizontal(k,a,o); } \
extern "C" void naivep_v_##P(const Kernel1D<K>& k, const ImageBorder<E>& a, Gray<R>& o){ ConvolveNaive::vertical(k,a,o); } \
extern "C" void naivep_2_##P(const Kernel2D<K>& k, const ImageBorder<E>& a, Gray<R>& o){ ConvolveNaive::convolve(k,a,o); } \
extern "C" void innerp_h_##P(const Kernel1D<K>& k, const Gray<E>& a, Gray<R>& o){ ConvolveImage_Inner::horizontal_unrolled(k,a,o); } \
extern "C" void innerp_v_##P(const Kernel1D<K>& k, const Gray<E>& a, Gray<R>& o){ ConvolveImage_Inner::vertical_unrolled(k,a,o); } \
extern "C" void innerp_2_##P(const Kernel2D<K>& k, const Gray<E>& a, Gray<R>& o){ ConvolveImage_Inner::convolve(k,a,o); }
PLAIN(U8, U8, S32, S32)
PLAIN(F32, F32, F32, F32)
PLAIN(S16, S16, S16, S32)
#define NORM(P, E, K) \
extern "C" void norm_h_##P(const Kernel1D<K>& k, const Gray<E>& a, Gray<E>& o){ ConvolveNormalized::horizontal(k,a,o); } \
extern "C" void norm_v_##P(const Kernel1D<K>& k, const Gray<E>& a, Gray<E>& o){ ConvolveNormalized::vertical(k,a,o); } \
extern "C" void norm_c_##P(const Kernel1D<K>& k, const Gray<E>& a, Gray<E>& o, Gray<E>& w){ ConvolveNormalized::convolve(k,a,o,w); } \
extern "C" void normn_h_##P(const Kernel1D<K>& k, const Gray<E>& a, Gray<E>& o){ ConvolveNormalizedNaive::horizontal(k,a,o); } \
extern "C" void normn_v_##P(const Kernel1D<K>& k, const Gray<E>& a, Gray<E>& o){ ConvolveNormalizedNaive::vertical(k,a,o); } 
NORM(U8, U8, S32)
NORM(S16, S16, S32)
NORM(F32, F32, F32)
#include "sanity_checks.cpp"
