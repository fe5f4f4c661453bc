// Classes whose one instance is requested through Singleton (U01).
#ifndef U01_H
#define U01_H
#include "GTMesh/Singleton/Singleton.h"
#include <cstddef>
#include <cstdlib>
#include <utility>
constexpr int classes = 243, batches = classes / 3;
void ctorBegin(int n, const void* self);
void ctorNeeds(int n);
void ctorEnd(int n, const void* self);      // throws when this constructor is to fail
void deleted(int n, const void* self);
// a plain class
template<int N, bool Derived> struct Cls {
    int value;
    Cls() : value(-1) { ctorBegin(N, this); ctorNeeds(N); ctorEnd(N, this); value = N; }
    ~Cls() { deleted(N, this); }
    static void* operator new(std::size_t n) { return std::malloc(n); }
    static void operator delete(void*) {}   // an address is never used again
};
// derived from the singleton of itself, only the singleton constructs it
template<int N> class Cls<N, true> : public Singleton<Cls<N, true>> {
    friend class Singleton<Cls<N, true>>;
    Cls() : value(-1) { ctorBegin(N, this); ctorNeeds(N); ctorEnd(N, this); value = N; }
public:
    int value;
    ~Cls() { deleted(N, this); }
    static void* operator new(std::size_t n) { return std::malloc(n); }
    static void operator delete(void*) {}
};
template<int N> struct Request {
    using C = Cls<N, N % 2 == 1>;
    static const void* get(int& value) { C& c = Singleton<C>::getInstance(); value = c.value; return &c; }
};
using Getter = const void* (*)(int&);
template<std::size_t... N> static Getter getter(int n, std::index_sequence<N...>) {
    static const Getter all[] = {&Request<int(N)>::get...};
    return all[n];
}
Getter getterA(int n);      // of this program's first translation unit
Getter getterB(int n);      // of its second one
const void* request(int unit, int n);
#endif
