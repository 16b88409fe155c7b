// contour tracing (analysed, never executed)
#include <cstdint>
#include <cmath>
#include <memory>
#include <stdexcept>
#include <vector>
#include <string>
#include <limits>
#include <algorithm>
#include <new>
#include <random>
#include <functional>
#include <cstring>
#include <iostream>
#include <sstream>
#include <type_traits>
#include <typeinfo>
namespace boofcv { class ContourPacked; }
// model of the standard vector: a sequence in one array that is always large enough
extern "C" size_t sa_cleared(void*);
namespace std {
template<class T> void sa_put(T* d, const T& v) { *d = v; }
template<class T> struct sa_vector {
    T* d;
    size_t n;
    sa_vector() : d(nullptr), n(0) {}
    size_t size() const { return n; }
    bool empty() const { return n == 0; }
    T& operator[](size_t i) { return d[i]; }
    const T& operator[](size_t i) const { return d[i]; }
    T& at(size_t i) { if( i >= n ) throw std::out_of_range("vector"); return d[i]; }
    const T& at(size_t i) const { if( i >= n ) throw std::out_of_range("vector"); return d[i]; }
    T& back() { return d[n-1]; }
    const T& back() const { return d[n-1]; }
    T& front() { return d[0]; }
    const T& front() const { return d[0]; }
    T* data() { return d; }
    const T* data() const { return d; }
    T* begin() { return d; }
    T* end() { return d+n; }
    const T* begin() const { return d; }
    const T* end() const { return d+n; }
    void push_back(const T& v) { sa_put(d+n,v); n = n+1; }
    template<class... A> void emplace_back(A&&... a) { T v(std::forward<A>(a)...); sa_put(d+n,v); n = n+1; }
    void pop_back() { n = n-1; }
    void clear() { n = 0; }
    void reserve(size_t) {}
};
// a sequence of which one element, number sel, is represented (cur); other: elements besides that one were touched
template<> struct sa_vector<boofcv::ContourPacked> {
    boofcv::ContourPacked* cur;
    size_t n, sel, used, other;
    boofcv::ContourPacked& pick(size_t i) { if( used != 0 && sel != i ) other = 1; sel = i; used = 1; return *cur; }
    sa_vector() : cur(nullptr), n(0), sel(0), used(0), other(0) {}
    size_t size() const { return n; }
    bool empty() const { return n == 0; }
    boofcv::ContourPacked& operator[](size_t i) { return pick(i); }
    boofcv::ContourPacked& at(size_t i) { if( i >= n ) throw std::out_of_range("vector"); return pick(i); }
    boofcv::ContourPacked& back() { return pick(n-1); }
    boofcv::ContourPacked& front() { return pick(0); }
    inline void push_back(const boofcv::ContourPacked& v);
    inline void emplace_back();
    inline void resize(size_t);
    void pop_back() { n = n-1; }
    void clear() { n = sa_cleared(this); }
    void reserve(size_t) {}
};
}
#define vector sa_vector
#include "packed_sets.h"
#include "contour.h"
namespace boofcv {
static void sa_put(PackedSetInfo* d, const PackedSetInfo& v) { d->block = v.block; d->offset = v.offset; d->size = v.size; }
}
namespace std {
void sa_vector<boofcv::ContourPacked>::push_back(const boofcv::ContourPacked& v) {
    boofcv::ContourPacked& c = pick(n);
    c.id = v.id; c.externalIndex = v.externalIndex; c.internalIndexes.n = v.internalIndexes.n;
    n = n+1;
}
void sa_vector<boofcv::ContourPacked>::emplace_back() { push_back(boofcv::ContourPacked()); }
void sa_vector<boofcv::ContourPacked>::resize(size_t m) { while( n < m ) emplace_back(); n = m; }
}
#include "contour.cpp"
using namespace boofcv;
template class boofcv::Gray<U8>;
template class boofcv::Gray<S32>;
template class boofcv::PackedSet<Point2D<S32>>;
extern "C" {
void ct_ctor(ContourTracer* t, ConnectRule r){ new (t) ContourTracer(r); }
void ct_set_inputs(ContourTracer& t, Gray<U8>& b, Gray<S32>& l, PackedSet<Point2D<S32>>& s){ t.set_inputs(b,l,s); }
void ct_trace(ContourTracer& t, int label, uint32_t x, uint32_t y, bool ext){ t.trace(label,x,y,ext); }
bool ct_search(ContourTracer& t){ return t.searchBlack(); }
void ct_move(ContourTracer& t){ t.moveToNext(); }
void ct_add(ContourTracer& t, int x, int y){ t.add(x,y); }
void ct_max(ContourTracer& t, uint32_t m){ t.setMaxContourSize(m); }
ConnectRule ct_rule(ContourTracer& t){ return t.getConnectRule(); }
void cp_ctor(ContourPacked* c){ new (c) ContourPacked(); }
void cp_reset(ContourPacked& c){ c.reset(); }
void lc_ctor(LinearContourLabelChang2004* a, ConnectRule r){ new (a) LinearContourLabelChang2004(r); }
void lc_process(LinearContourLabelChang2004& a, const Gray<U8>& b, Gray<S32>& l){ a.process(b,l); }
void lc_step1(LinearContourLabelChang2004& a){ a.handleStep1(); }
void lc_step2(LinearContourLabelChang2004& a, Gray<S32>& l, uint32_t label){ a.handleStep2(l,label); }
void lc_step3(LinearContourLabelChang2004& a, Gray<S32>& l){ a.handleStep3(l); }
void lc_setrule(LinearContourLabelChang2004& a, ConnectRule r){ a.setConnectRule(r); }
ConnectRule lc_rule(LinearContourLabelChang2004& a){ return a.getConnectRule(); }
}
