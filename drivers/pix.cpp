// per-pixel operators, fills, statistics (analysed, never executed)
#include "image_misc_ops.h"
#include "image_statistics.h"
#include "image_convert.h"
#include "binary_ops.h"
using namespace boofcv;
template class boofcv::Gray<U8>;
template class boofcv::Gray<S16>;
template class boofcv::Gray<U16>;
template class boofcv::Gray<S32>;
template class boofcv::Gray<F32>;
template class boofcv::Gray<F64>;
template class boofcv::Interleaved<U8>;
template class boofcv::Interleaved<S16>;
template class boofcv::Interleaved<S32>;
template class boofcv::Interleaved<F32>;
struct Src { template<class D> void operator()(D&) {} };
#define PIX(P, E) \
extern "C" void fill_##P(Gray<E>& a, E v){ ImageMiscOps::fill(a,v); } \
extern "C" void fillb_##P(Gray<E>& a, E v, uint32_t r){ ImageMiscOps::fill_border(a,v,r); } \
extern "C" void filli_##P(Interleaved<E>& a, E v){ ImageMiscOps::fill(a,v); } \
extern "C" E min_##P(const Gray<E>& a){ return ImageStatistics::min(a); } \
extern "C" E max_##P(const Gray<E>& a){ return ImageStatistics::max(a); } \
extern "C" TypeInfo<E>::sum_type sum_##P(const Gray<E>& a){ return ImageStatistics::sum(a); } \
extern "C" E mean_##P(const Gray<E>& a){ return ImageStatistics::mean(a); } \
extern "C" void avg_##P(const Interleaved<E>& a, Gray<E>& o){ convert_average(a,o); }
PIX(U8,U8) PIX(S16,S16) PIX(S32,S32) PIX(F32,F32)
#define THR(P, E) \
extern "C" void thr_##P(const Gray<E>& a, E t, bool d, Gray<U8>& o){ ThresholdOps::threshold(a,t,d,o); } \
extern "C" void gthr_##P(GlobalFixedBinaryFilter<E>& f, const Gray<E>& a, Gray<U8>& o){ f.GlobalFixedBinaryFilter<E>::process(a,o); } \
extern "C" void hist_##P(const Gray<E>& a, E m, GrowArray<uint32_t>& h){ ImageStatistics::histogram(a,m,h); }
THR(U8,U8) THR(S16,S16) THR(F32,F32)
extern "C" void land(const Gray<U8>& a, const Gray<U8>& b, Gray<U8>& o){ BinaryImageOps::logicAnd(a,b,o); }
extern "C" void lor(const Gray<U8>& a, const Gray<U8>& b, Gray<U8>& o){ BinaryImageOps::logicOr(a,b,o); }
extern "C" void erode(const Gray<U8>& a, Gray<U8>& o){ BinaryImageOps::erode4(a,o); }
extern "C" void dilate(const Gray<U8>& a, Gray<U8>& o){ BinaryImageOps::dilate4(a,o); }
#include "binary_ops.cpp"
#include "sanity_checks.cpp"
#include "config_types.cpp"
