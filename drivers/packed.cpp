// packed sets (analysed, never executed)
#include <cstdint>
#include <memory>
#include <stdexcept>
#include <vector>
#include <new>
// model of the standard vector: a sequence in one array that is always large enough
namespace std {
template<class T> void sa_put(T* d, const T& v) { *d = v; }
template<class T> struct sa_vector {
    T* d;
    size_t n;
    sa_vector() : d(nullptr), n(0) {}
    size_t size() const { return n; }
    bool empty() const { return n == 0; }
    T& operator[](size_t i) { return d[i]; }
    const T& operator[](size_t i) const { return d[i]; }
    T& at(size_t i) { if( i >= n ) throw std::out_of_range("vector"); return d[i]; }
    const T& at(size_t i) const { if( i >= n ) throw std::out_of_range("vector"); return d[i]; }
    T& back() { return d[n-1]; }
    const T& back() const { return d[n-1]; }
    T& front() { return d[0]; }
    const T& front() const { return d[0]; }
    T* data() { return d; }
    const T* data() const { return d; }
    T* begin() { return d; }
    T* end() { return d+n; }
    const T* begin() const { return d; }
    const T* end() const { return d+n; }
    void push_back(const T& v) { sa_put(d+n,v); n = n+1; }
    template<class... A> void emplace_back(A&&... a) { T v(std::forward<A>(a)...); sa_put(d+n,v); n = n+1; }
    void pop_back() { n = n-1; }
    void clear() { n = 0; }
    void reserve(size_t) {}
};
}
#define vector sa_vector
#include "packed_sets.h"
namespace boofcv {
static void sa_put(PackedSetInfo* d, const PackedSetInfo& v) { d->block = v.block; d->offset = v.offset; d->size = v.size; }
}
using namespace boofcv;
#define PS(P, E) \
template class boofcv::PackedSet<E>; \
extern "C" void ps_ctor_##P(PackedSet<E>* a, uint32_t n){ new (a) PackedSet<E>(n); } \
extern "C" void ps_start_##P(PackedSet<E>& a){ a.start_new_set(); } \
extern "C" void ps_push_##P(PackedSet<E>& a, const E& v){ a.push_tail(v); } \
extern "C" void ps_remove_##P(PackedSet<E>& a){ a.remove_tail(); } \
extern "C" void ps_clear_##P(PackedSet<E>& a){ a.clear(); } \
extern "C" uint32_t ps_tail_##P(const PackedSet<E>& a){ return a.size_of_tail(); } \
extern "C" uint32_t ps_count_##P(PackedSet<E>& a){ return a.number_of_sets(); } \
extern "C" E ps_at_##P(const PackedSet<E>& a, uint32_t s, uint32_t i){ return a.at(s,i); } \
extern "C" void ps_put_##P(PackedSet<E>& a, uint32_t s, uint32_t i, E v){ a.at(s,i) = v; } \
extern "C" void ps_load_##P(const PackedSet<E>& a, uint32_t s, std::vector<E>& o){ a.load_set(s,o); } \
extern "C" void ps_write_##P(PackedSet<E>& a, uint32_t s, const std::vector<E>& o){ a.write_set(s,o); }
PS(U32,uint32_t) PS(U8,unsigned char) PS(F32,float)
