// growable arrays, image geometry, kernels (analysed, never executed)
#include <new>
#include "image_types.h"
#include "convolve_kernels.h"
using namespace boofcv;
template class boofcv::GrowArray<uint32_t>;
template class boofcv::GrowArray<U8>;
template class boofcv::GrowArray<S32>;
template class boofcv::GrowArray<F32>;
template class boofcv::GrowArray<F64>;
template class boofcv::Gray<U8>;
template class boofcv::Gray<S16>;
template class boofcv::Gray<F32>;
template class boofcv::Interleaved<U8>;
template class boofcv::Interleaved<S16>;
template class boofcv::Interleaved<F32>;
#define GA(P, E) \
extern "C" void ga_ctor_##P(GrowArray<E>* a, uint32_t n){ new (a) GrowArray<E>(n); } \
extern "C" void ga_ctor0_##P(GrowArray<E>* a){ new (a) GrowArray<E>(); } \
extern "C" void ga_wrap_##P(GrowArray<E>* a, E* d, uint32_t l, uint32_t n){ new (a) GrowArray<E>(d,l,n); } \
extern "C" void ga_copy_##P(GrowArray<E>* a, const GrowArray<E>& b){ new (a) GrowArray<E>(b); } \
extern "C" void ga_list_##P(GrowArray<E>* a, std::initializer_list<E> l){ new (a) GrowArray<E>(l); } \
extern "C" void ga_resize_##P(GrowArray<E>& a, uint32_t n){ a.resize(n); } \
extern "C" void ga_grow_##P(GrowArray<E>& a, uint32_t n){ a.grow_array(n); } \
extern "C" void ga_fill_##P(GrowArray<E>& a, E v){ a.fill(v); } \
extern "C" E ga_at_##P(const GrowArray<E>& a, uint32_t i){ return a.at(i); } \
extern "C" E ga_idx_##P(const GrowArray<E>& a, uint32_t i){ return a[i]; } \
extern "C" void ga_put_##P(const GrowArray<E>& a, uint32_t i, E v){ a.at(i) = v; } \
extern "C" void ga_assign_##P(GrowArray<E>& a, const GrowArray<E>& b){ a = b; } \
extern "C" void ga_self_##P(GrowArray<E>& a){ a = a; } \
extern "C" void ga_setTo_##P(GrowArray<E>& a, std::initializer_list<E> l){ a.setTo(l); } \
extern "C" void ga_set_##P(GrowArray<E>& a, const E* s, uint32_t n){ a.set(s,n); }
GA(U32,uint32_t) GA(U8,U8) GA(S32,S32) GA(F32,F32) GA(F64,F64)
#define IMG(P, E) \
extern "C" void g_ctor_##P(Gray<E>* a, uint32_t w, uint32_t h){ new (a) Gray<E>(w,h); } \
extern "C" void g_ctor0_##P(Gray<E>* a){ new (a) Gray<E>(); } \
extern "C" void g_wrap_##P(Gray<E>* a, E* d, uint32_t l, uint32_t w, uint32_t h, uint32_t o, uint32_t s){ new (a) Gray<E>(d,l,w,h,o,s); } \
extern "C" void g_copyctor_##P(Gray<E>* a, const Gray<E>& b){ new (a) Gray<E>(b); } \
extern "C" void g_reshape_##P(Gray<E>& a, uint32_t w, uint32_t h){ a.Gray<E>::reshape(w,h); } \
extern "C" E g_at_##P(const Gray<E>& a, uint32_t x, uint32_t y){ return a.at(x,y); } \
extern "C" void g_put_##P(const Gray<E>& a, uint32_t x, uint32_t y, E v){ a.at(x,y) = v; } \
extern "C" E g_uat_##P(const Gray<E>& a, uint32_t x, uint32_t y){ return a.unsafe_at(x,y); } \
extern "C" uint32_t g_idx_##P(const Gray<E>& a, uint32_t x, uint32_t y){ return a.index_of(x,y); } \
extern "C" uint32_t g_total_##P(const Gray<E>& a){ return a.total_pixels(); } \
extern "C" uint32_t g_w_##P(const Gray<E>& a){ return a.getWidth(); } \
extern "C" uint32_t g_h_##P(const Gray<E>& a){ return a.getHeight(); } \
extern "C" bool g_inb_##P(const Gray<E>& a, uint32_t x, uint32_t y){ return a.isInBounds(x,y); } \
extern "C" void g_copy_##P(Gray<E>& a, const Gray<E>& b){ a.copy(b); } \
extern "C" void g_assign_##P(Gray<E>& a, const Gray<E>& b){ a = b; } \
extern "C" void g_self_##P(Gray<E>& a){ a = a; } \
extern "C" void g_sub_##P(Gray<E>* r, const Gray<E>& a, uint32_t x0, uint32_t y0, uint32_t x1, uint32_t y1){ new (r) Gray<E>(a.makeSubimage(x0,y0,x1,y1)); } \
extern "C" void i_ctor_##P(Interleaved<E>* a, uint32_t w, uint32_t h, uint32_t n){ new (a) Interleaved<E>(w,h,n); } \
extern "C" void i_ctor0_##P(Interleaved<E>* a){ new (a) Interleaved<E>(); } \
extern "C" void i_wrap_##P(Interleaved<E>* a, E* d, uint32_t l, uint32_t w, uint32_t h, uint32_t n, uint32_t o, uint32_t s){ new (a) Interleaved<E>(d,l,w,h,n,o,s); } \
extern "C" void i_copyctor_##P(Interleaved<E>* a, const Interleaved<E>& b){ new (a) Interleaved<E>(b); } \
extern "C" void i_reshape_##P(Interleaved<E>& a, uint32_t w, uint32_t h){ a.Interleaved<E>::reshape(w,h); } \
extern "C" void i_reshape3_##P(Interleaved<E>& a, uint32_t w, uint32_t h, uint32_t n){ a.reshape(w,h,n); } \
extern "C" void i_bands_##P(Interleaved<E>& a, uint32_t n){ a.setNumberOfBands(n); } \
extern "C" E i_at_##P(const Interleaved<E>& a, uint32_t x, uint32_t y, uint32_t b){ return a.at(x,y,b); } \
extern "C" void i_put_##P(const Interleaved<E>& a, uint32_t x, uint32_t y, uint32_t b, E v){ a.at(x,y,b) = v; } \
extern "C" E i_uat_##P(const Interleaved<E>& a, uint32_t x, uint32_t y, uint32_t b){ return a.unsafe_at(x,y,b); } \
extern "C" uint32_t i_idx_##P(const Interleaved<E>& a, uint32_t x, uint32_t y, uint32_t b){ return a.index_of(x,y,b); } \
extern "C" void i_copy_##P(Interleaved<E>& a, const Interleaved<E>& b){ a.setTo(b); } \
extern "C" void i_assign_##P(Interleaved<E>& a, const Interleaved<E>& b){ a = b; } \
extern "C" void i_self_##P(Interleaved<E>& a){ a = a; } \
extern "C" void i_sub_##P(Interleaved<E>* r, Interleaved<E>& a, uint32_t x0, uint32_t y0, uint32_t x1, uint32_t y1){ new (r) Interleaved<E>(a.makeSubimage(x0,y0,x1,y1)); }
IMG(U8,U8) IMG(S16,S16) IMG(F32,F32)
#define KER(P, E) \
extern "C" void k1_ctor_##P(Kernel1D<E>* k, uint32_t w, uint32_t o){ new (k) Kernel1D<E>(w,o); } \
extern "C" void k1_ctor1_##P(Kernel1D<E>* k, uint32_t w){ new (k) Kernel1D<E>(w); } \
extern "C" void k1_list_##P(Kernel1D<E>* k, uint32_t o, std::initializer_list<E> l){ new (k) Kernel1D<E>(o,l); } \
extern "C" void k1_reshape_##P(Kernel1D<E>& k, uint32_t w, uint32_t o){ k.Kernel1D<E>::reshape(w,o); } \
extern "C" E k1_at_##P(const Kernel1D<E>& k, uint32_t i){ return k.at(i); } \
extern "C" E k1_idx_##P(const Kernel1D<E>& k, uint32_t i){ return k[i]; } \
extern "C" void k1_assign_##P(Kernel1D<E>& k, const Kernel1D<E>& o){ k = o; } \
extern "C" uint32_t k1_radius_##P(const Kernel1D<E>& k){ return k.radius(); } \
extern "C" TypeInfo<E>::sum_type k1_sum_##P(const Kernel1D<E>& k){ return k.sum(); } \
extern "C" E k1_max_##P(const Kernel1D<E>& k){ return k.element_max(); } \
extern "C" E k1_min_##P(const Kernel1D<E>& k){ return k.element_min(); } \
extern "C" E k1_amax_##P(const Kernel1D<E>& k){ return k.element_abs_max(); } \
extern "C" E k1_amin_##P(const Kernel1D<E>& k){ return k.element_abs_min(); } \
extern "C" void k2_ctor_##P(Kernel2D<E>* k, uint32_t w, uint32_t o){ new (k) Kernel2D<E>(w,o); } \
extern "C" void k2_ctor1_##P(Kernel2D<E>* k, uint32_t w){ new (k) Kernel2D<E>(w); } \
extern "C" void k2_reshape_##P(Kernel2D<E>& k, uint32_t w, uint32_t o){ k.Kernel2D<E>::reshape(w,o); } \
extern "C" E k2_at_##P(const Kernel2D<E>& k, uint32_t x, uint32_t y){ return k.at(x,y); } \
extern "C" void k2_assign_##P(Kernel2D<E>& k, const Kernel2D<E>& o){ k = o; } \
extern "C" void f_table_##P(Kernel1D<E>* k, uint32_t w){ new (k) Kernel1D<E>(FactoryKernel::table1D<E>(w)); } \
extern "C" void f_mean_##P(Kernel1D<E>* k, uint32_t w){ new (k) Kernel1D<E>(FactoryKernel::mean1D<E>(w)); } \
extern "C" void f_gauss1_##P(Kernel1D<E>* k, double s, int32_t w){ new (k) Kernel1D<E>(FactoryKernel::gaussian1D<E>(s,w)); } \
extern "C" void f_gauss2_##P(Kernel2D<E>* k, double s, int32_t w){ new (k) Kernel2D<E>(FactoryKernel::gaussian2D<E>(s,w)); } \
extern "C" void f_norm1_##P(Kernel1D<E>& k){ FactoryKernel::normalize(k); } \
extern "C" void f_norm2_##P(Kernel2D<E>& k){ FactoryKernel::normalize(k); }
KER(S32,S32) KER(F32,F32) KER(F64,F64)
extern "C" void f_toint1(Kernel1D<S32>* k, const Kernel1D<F64>& o, double m){ new (k) Kernel1D<S32>(FactoryKernel::float_to_int<S32>(o,m)); }
extern "C" void f_toint2(Kernel2D<S32>* k, const Kernel2D<F64>& o, double m){ new (k) Kernel2D<S32>(FactoryKernel::float_to_int<S32>(o,m)); }
extern "C" double f_pdf(double m, double s, double x){ return FactoryKernel::computePDF(m,s,x); }
extern "C" double f_sigma(double r, int32_t o){ return FactoryKernel::sigmaForRadius(r,o); }
extern "C" int32_t f_radius(double s, int32_t o){ return FactoryKernel::radiusForSigma(s,o); }
