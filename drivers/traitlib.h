// Common part of the generated drivers on traits: values as lists of numbers.
#ifndef TRAITLIB_H
#define TRAITLIB_H
#include <GTMesh/Traits/Traits.h>
#include <GTMesh/Traits/TraitsBind/TraitsBind.h>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <set>
#include <cmath>
#include <functional>
#include <memory>
[[noreturn]] inline void refuse(const std::string& why){ std::cerr << "refused: " << why << std::endl; std::cout.flush(); std::exit(77); }
using namespace std;
struct Nest { int p = 0; long q = 0; double r = 0; };
MAKE_CUSTOM_TRAIT_ARITHMETIC(Nest, "r", &Nest::r, "p", &Nest::p);
template <class T> string jarr(const T& c){ ostringstream o; o << "["; bool f = true; for (const auto& x : c) { if (!f) o << ","; f = false; o << x; } o << "]"; return o.str(); }
inline string jstr(const string& s){ string o = "\""; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; o += c; } return o + "\""; }
using V = vector<int>;
template <class T, enable_if_t<is_arithmetic<T>::value && is_integral<T>::value, bool> = true> V tov(const T& x){ return {int(x)}; }
template <class T, enable_if_t<is_floating_point<T>::value, bool> = true> V tov(const T& x){ return {x == floor(x) && fabs(x) < 1e8 ? int(x) : -99999}; }
inline V tov(const string& x){ return {x.size() > 3 && x.substr(0, 3) == "str" ? atoi(x.c_str() + 3) : -99999}; }
inline V tov(const vector<int>& x){ return {x.size() == 2 && x[1] == x[0] + 1 ? x[0] : -99999}; }
inline V tov(const Nest& n){ V a = tov(n.p), b = tov(n.q), c = tov(n.r); a.push_back(b[0]); a.push_back(c[0]); return a; }
template <class T, enable_if_t<is_arithmetic<T>::value, bool> = true> void fromv(T& t, const V& v){ t = T(v.at(0)); }
inline void fromv(string& t, const V& v){ t = "str" + to_string(v.at(0)); }
inline void fromv(vector<int>& t, const V& v){ t = {v.at(0), v.at(0) + 1}; }
inline void fromv(Nest& n, const V& v){ n.p = v.at(0); n.q = v.at(1); n.r = v.at(2); }
template <class T> T mk(const V& v){ T t{}; fromv(t, v); return t; }
template <class T> T shift(const T& x, int k){ V v = tov(x); for (int& e : v) e += k; return mk<T>(v); }
template <class T> void way(set<string>& s, const T& x){ s.insert(jarr(tov(x))); }
template <class... P> void append(V& v, const V& x){ v.insert(v.end(), x.begin(), x.end()); }
// functor template receiving the attributes; works on the current object
struct Cur { void* obj; vector<string>* out; };
inline Cur& cur(){ static Cur c; return c; }
template <class Class, class T> struct Collect {
    template <class Ref> void operator()(unsigned k, Ref& ref, const string& name) const {
        Class& c = *static_cast<Class*>(cur().obj); T x = ref.getValue(c);
        cur().out->push_back("[" + to_string(k) + "," + jstr(name) + "," + jarr(tov(x)) + "]");
    }
};
template <class C, class TR> string collected(C& c, const TR& tr){
    set<string> res; vector<string> a, b;
    tr.apply([&](unsigned k, const auto& ref, const string& name){ a.push_back("[" + to_string(k) + "," + jstr(name) + "," + jarr(tov(ref.getValue(c))) + "]"); });
    res.insert(jarr(a)); a.clear();
    unsigned k = 0;
    tr.apply([&](const auto& ref, const string& name){ a.push_back("[" + to_string(k++) + "," + jstr(name) + "," + jarr(tov(ref.getValue(c))) + "]"); });
    res.insert(jarr(a)); a.clear();
    cur() = {&c, &a}; tr.template apply<Collect>(); res.insert(jarr(a));
    return jarr(res);
}
template <class C, class TR> void addAll(C& c, const TR& tr, int k){
    tr.apply([&](unsigned, const auto& ref, const string&){ auto v = ref.getValue(c); ref.setValue(c, shift(v, k)); });
}
template <class TR, unsigned... I> string directs(integer_sequence<unsigned, I...>){ vector<string> v{(IsDirectAccess<typename TR::template memRefType<I>>::value ? "true" : "false")...}; return jarr(v); }
template <class TR, unsigned... I> string consts(integer_sequence<unsigned, I...>){ vector<string> v{(HasConstGetAccess<typename TR::template memRefType<I>>::value ? "true" : "false")...}; return jarr(v); }
struct Base { virtual ~Base(){} virtual string run(const string& op, istream& in) = 0; };
// ways of writing
template <unsigned J, class C, class TR, class T> bool writeBase(int w, C& c, const TR& tr, const T& x){
    switch (w) { case 0: tr.template setValue<J>(c, x); break; case 1: tr.template setValue<J>(&c, x); break;
        case 2: tr.template getReference<J>().setValue(c, x); break; case 3: tr.template getReference<J>().setValue(&c, x); break; default: return false; }
    return true;
}
template <unsigned J, class C, class TR, class T> bool writeDirect(int w, C& c, const TR& tr, const T& x){
    switch (w) { case 4: tr.template getAttr<J>(c) = x; break; case 5: tr.template getAttr<J>(&c) = x; break; default: return false; }
    return true;
}
template <unsigned J, class C, class T> bool writeFree(int w, C& c, const T& x){
    switch (w) { case 6: get<J>(c) = x; break; case 7: get<J>(&c) = x; break; default: return false; }
    return true;
}
// nested attributes by a path; by reference (8, 9) of the object
template <unsigned J, class C> bool writePath(C& c, int k, int w, int v){
    if (k == 1) (w ? get<J, 0>(&c) : get<J, 0>(c)) = v; else if (k == 2) (w ? get<J, 1>(&c) : get<J, 1>(c)) = v; else return false;
    return true;
}
template <unsigned J, class C, class TR> void readBase(set<string>& s, C& c, const TR& tr){
    way(s, tr.template getValue<J>(c)); way(s, tr.template getValue<J>(&c)); way(s, tr.template getReference<J>().getValue(c)); way(s, tr.template getReference<J>().getValue(&c));
}
template <unsigned J, class C, class TR> void readConst(set<string>& s, const C& c, const TR& tr){ readBase<J>(s, c, tr); }
template <unsigned J, class C, class TR> void readDirect(set<string>& s, C& c, const TR& tr){
    way(s, tr.template getAttr<J>(c)); way(s, tr.template getAttr<J>(&c)); way(s, tr.template getReference<J>().getAttr(c)); way(s, tr.template getReference<J>().getAttr(&c));
}
template <unsigned J, class C, class TR> void readMem(set<string>& s, const C& c, const TR& tr){ way(s, tr.template getReference<J>().getAttr(c)); way(s, tr.template getReference<J>().getAttr(&c)); }
template <unsigned J, class C> void readPath(set<string>& s, C& c){ Nest n = get<J>(c); n.r = get<J, 0>(c); n.p = get<J, 1>(&c); way(s, n); }
template <unsigned J, class C> void readFree(set<string>& s, C& c){ way(s, get<J>(c)); way(s, get<J>(&c)); }
// ---- selection
template <class Sel, class Tup, enable_if_t<Sel::valid, bool> = true> string selName(const Tup& t){ const auto& tr = Sel::getTraitsInstance(t); static_assert(is_same<decay_t<decltype(tr)>, typename Sel::TypeTraits>::value, ""); return tr.template getName<0>(); }
template <class Sel, class Tup, enable_if_t<!Sel::valid, bool> = true> string selName(const Tup&){ static_assert(is_same<typename Sel::TypeTraits, void>::value, ""); return ""; }
template <class TR> void namesOf(const TR& tr, vector<string>& v){ tr.apply([&](unsigned, const auto&, const string& n){ v.push_back(jstr(n)); }); }
template <class Sel, class Tup, enable_if_t<Sel::valid, bool> = true> string selShown(const Tup& t){ const auto& tr = Sel::getTraitsInstance(t); vector<string> v; namesOf(tr, v); return jarr(v); }
template <class Sel, class Tup, enable_if_t<!Sel::valid, bool> = true> string selShown(const Tup&){ return "[]"; }
#endif
