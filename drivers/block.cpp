// block thresholds (analysed, never executed)
#include <new>
#include <string>
#include <vector>
#include <stdexcept>
#include <cmath>
#include <algorithm>
#include <limits>
#include "image_types.h"
#include "image_statistics.h"
#include "binary_ops.cpp"
#include "config_types.cpp"
#include "sanity_checks.cpp"
#include "threshold_block_filters.h"
using namespace boofcv;
#define BL(C, P, E) \
extern "C" void C##_select_##P(C<E>& f, uint32_t w, uint32_t h, uint32_t r){ f.selectBlockSize(w,h,r); } \
extern "C" void C##_process_##P(C<E>& f, const Gray<E>& a, Gray<U8>& o){ f.process(a,o); } \
extern "C" void C##_stats_##P(C<E>& f, const Gray<E>& a, uint32_t iw, uint32_t ih){ f.C<E>::computeStatistics(a,iw,ih); } \
extern "C" void C##_apply_##P(C<E>& f, const Gray<E>& a, Gray<U8>& o){ f.applyThreshold(a,o); } \
extern "C" void C##_block_##P(C<E>& f, uint32_t bx, uint32_t by, const Gray<E>& a, Gray<U8>& o){ f.C<E>::thresholdBlock(bx,by,a,o); } \
extern "C" void C##_bstat_##P(C<E>& f, uint32_t x0, uint32_t y0, uint32_t w, uint32_t h, uint32_t i, const Gray<E>& a){ f.C<E>::computeBlockStatistics(x0,y0,w,h,i,a); }
BL(ThresholdBlockMean,U8,U8) BL(ThresholdBlockMean,F32,F32)
BL(ThresholdBlockMinMax,U8,U8) BL(ThresholdBlockMinMax,F32,F32)
BL(ThresholdBlockOtsu,U8,U8)
extern "C" void mk_Mean(void* p, const ConfigLength& c, bool l, double s, bool d){ new(p) ThresholdBlockMean<U8>(c,l,s,d); }
extern "C" void mk_MinMax(void* p, const ConfigLength& c, bool l, float m, float s, bool d){ new(p) ThresholdBlockMinMax<U8>(m,c,l,s,d); }
extern "C" void mk_Otsu(void* p, const ConfigLength& c, bool l, bool o2, double t, double s, bool d){ new(p) ThresholdBlockOtsu<U8>(o2,c,t,s,d,l); }
extern "C" void keep_vtables(const ConfigLength& c){ Gray<U8> a(1,1); Gray<F32> b(1,1); Interleaved<U8> e(1,1,1); Interleaved<F32> g(1,1,1); Interleaved<S32> h(1,1,1);
  ThresholdBlockMean<F32> m(c,true,1,true); ThresholdBlockMinMax<F32> n(1,c,true,1,true); }
