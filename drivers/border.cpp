// image borders (analysed, never executed)
#include <memory>
#include <string>
#include <vector>
#include <stdexcept>
#include <random>
#include <functional>
#include <iostream>
#include <sstream>
// model of the shared pointer: one owner, released by the program's end (ownership is not analysed here)
namespace std {
template<class T> struct sa_shared_ptr {
    T* p;
    sa_shared_ptr() : p(nullptr) {}
    explicit sa_shared_ptr(T* q) : p(q) {}
    template<class U> sa_shared_ptr(const sa_shared_ptr<U>& o) : p(o.p) {}
    T* operator->() const { return p; }
    T& operator*() const { return *p; }
    T* get() const { return p; }
    explicit operator bool() const { return p != nullptr; }
    void reset() { p = nullptr; }
    template<class U> void reset(U* q) { p = q; }
};
template<class T, class... A> sa_shared_ptr<T> sa_make_shared(A&&... a) { return sa_shared_ptr<T>(new T(std::forward<A>(a)...)); }
}
#define shared_ptr sa_shared_ptr
#define make_shared sa_make_shared
#include "image_border.h"
using namespace boofcv;
template class boofcv::Gray<U8>;
template class boofcv::Gray<S16>;
template class boofcv::Gray<S32>;
template class boofcv::Gray<F32>;
#define BORD(P, E) \
extern "C" E value_##P(const Gray<E>& a, int32_t x, int32_t y, E v){ ImageBorderValue<E> b(a,v); return b.get(x,y); } \
extern "C" E value1_##P(const Gray<E>& a, int32_t x, int32_t y, E v){ ImageBorderValue<E> b(v); b.setImage(a); return b.get(x,y); } \
extern "C" E extend_##P(const Gray<E>& a, int32_t x, int32_t y){ ImageBorderExtend<E> b; b.setImage(a); return b.get(x,y); } \
extern "C" E reflect_##P(const Gray<E>& a, int32_t x, int32_t y){ ImageBorderReflect<E> b; b.setImage(a); return b.get(x,y); } \
extern "C" E wrap_##P(const Gray<E>& a, int32_t x, int32_t y){ ImageBorderWrap<E> b; b.setImage(a); return b.get(x,y); } \
extern "C" uint32_t bwidth_##P(const Gray<E>& a){ ImageBorderExtend<E> b; b.setImage(a); return b.getWidth(); } \
extern "C" uint32_t bheight_##P(const Gray<E>& a){ ImageBorderExtend<E> b; b.setImage(a); return b.getHeight(); } \
extern "C" E fac_##P(const Gray<E>& a, int32_t x, int32_t y, uint32_t t){ auto b = FactoryImageBorder::create_SB<E>((BorderType)t); b->setImage(a); return b->get(x,y); } \
extern "C" E facv_##P(const Gray<E>& a, int32_t x, int32_t y, E v){ auto b = FactoryImageBorder::value_SB<E>(v); b->setImage(a); return b->get(x,y); }
BORD(U8,U8) BORD(S16,S16) BORD(S32,S32) BORD(F32,F32)
