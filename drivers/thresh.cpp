// adaptive thresholds (analysed, never executed)
#include <new>
#include <string>
#include <vector>
#include <stdexcept>
#include <cmath>
#include <algorithm>
#include <limits>
#include "image_types.h"
#include "image_statistics.h"
#include "binary_ops.cpp"
#include "config_types.cpp"
#include "threshold_block_filters.h"
using namespace boofcv;
extern "C" void otsu_run(bool o2, double tuning, bool down, double scale, const GrowArray<uint32_t>& h, uint32_t total, double* thr, double* var) {
    ComputeOtsu o(o2,tuning,down,scale);
    o.compute(h,total);
    *thr = o.threshold;
    *var = o.variance;
}
extern "C" void otsu_raw(ComputeOtsu& o, const GrowArray<uint32_t>& h, uint32_t total) { o.compute(h,total); }
#define TH(P, E) \
extern "C" E otsu_img_##P(const Gray<E>& a, E lo, E hi){ return ThresholdOps::computeOtsu(a,lo,hi,false); } \
extern "C" void otsu_filter_##P(GlobalOtsuBinaryFilter<E>& f, const Gray<E>& a, Gray<U8>& o){ f.GlobalOtsuBinaryFilter<E>::process(a,o); } \
extern "C" void local_##P(const Gray<E>& a, Gray<U8>& o, const ConfigLength& w, float s, bool d, Gray<E>& t, Gray<E>& u){ ThresholdOps::localMean(a,o,w,s,d,t,u); }
TH(U8,U8) TH(F32,F32)
extern "C" void keep_vtables(){ Gray<U8> a(1,1); Gray<F32> b(1,1); }
