// blur operators (analysed, never executed)
#include "image_blur.h"
using namespace boofcv;
template class boofcv::Gray<U8>;
template class boofcv::Gray<S16>;
template class boofcv::Gray<F32>;
#define BLUR(P, E) \
extern "C" void mean_h_##P(const Gray<E>& a, Gray<E>& o, uint32_t r){ ConvolveImageMean::horizontal(a,o,r); } \
extern "C" void mean_v_##P(const Gray<E>& a, Gray<E>& o, uint32_t r){ ConvolveImageMean::vertical(a,o,r); } \
extern "C" void blur_mean_##P(const Gray<E>& a, Gray<E>& o, uint32_t r, Gray<E>& t){ BlurImageOps::mean(a,o,r,t); } \
extern "C" void blur_gauss_##P(const Gray<E>& a, Gray<E>& o, double s, int32_t w, Gray<E>& t){ BlurImageOps::gaussian(a,o,s,w,t); }
BLUR(U8,U8) BLUR(S16,S16) BLUR(F32,F32)
#include "sanity_checks.cpp"
