// Common part of the mesh drivers: projection of a mesh to JSON, construction of a mesh from a raw
// description, index encoding. Only the public API of GTMesh is used.
#ifndef VERIF_MESHLIB_H
#define VERIF_MESHLIB_H
#include <GTMesh/UnstructuredMesh/UnstructuredMesh.h>
#include <iostream>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <cmath>
#include <cstdlib>
#include <cstdio>
#include <memory>
#include <stdexcept>

[[noreturn]] inline void refuse(const std::string& why){ std::cerr << "refused: " << why << std::endl; std::cout.flush(); std::exit(77); }

// index -> JSON: -1 invalid, -(2+k) boundary index k, k otherwise
template <class I> long enc(I v){
    if (v == INVALID_INDEX(I)) return -1;
    if ((v & BOUNDARY_INDEX(I)) != 0) { long k = long(v & EXTRACTING_INDEX(I)); return k > 500000000 ? -99999999 : -2 - k; }
    unsigned long long u = (unsigned long long)v;
    return u > 1000000000ull ? -99999998 : long(u);
}
template <class I> I dec(long k){
    if (k == -1) return INVALID_INDEX(I);
    if (k < -1) return makeBoundaryIndex(I(-2 - k));
    return I(k);
}
// exact fixed point image of a coordinate, 2000000001 if it is none
template <class R> long fx(R x, long scale = 4){
    long double y = (long double)x * scale;
    if (!(y > -1e9L && y < 1e9L)) return 2000000001;
    long l = std::lround(y);
    return (long double)l == y ? l : 2000000001;
}
// exact image of a floating point number: odd integer * 2^exponent
template <class R> std::string exactText(R x){
    if (!std::isfinite(x)) return "\"none\"";
    if (x == 0) return "\"0\"";
    int e; long double f = std::frexp((long double)(x < 0 ? -x : x), &e);
    unsigned long long n = (unsigned long long)std::ldexp(f, 64); e -= 64;
    while (n % 2 == 0) { n /= 2; e++; }
    return std::string("\"") + (x < 0 ? "-" : "") + std::to_string(n) + "p" + std::to_string(e) + "\"";
}
// rounded fixed point image
template <class R> long fr(R x, long scale){
    long double y = (long double)x * scale;
    if (!(y > -2e9L && y < 2e9L)) return 2000000001;
    return std::lround(y);
}
// what the rounding took away, in units of 1/lim
template <class R> long frlo(R x, long scale, long lim){
    long double y = (long double)x * scale;
    if (!(y > -2e9L && y < 2e9L)) return 2000000001;
    return std::lround((y - (long double)std::lround(y)) * lim);
}
struct Js {
    std::ostringstream o; bool first = true;
    void sep(){ if (!first) o << ","; first = false; }
    template <class T> Js& kv(const char* k, const T& v){ sep(); o << "\"" << k << "\":" << v; return *this; }
    std::string str(){ return "{" + o.str() + "}"; }
};
inline std::string jbool(bool b){ return b ? "true" : "false"; }
template <class C> std::string jarr(const C& c){
    std::ostringstream o; o << "["; bool f = true;
    for (const auto& x : c) { if (!f) o << ","; f = false; o << x; }
    o << "]"; return o.str();
}
inline std::string jstr(const std::string& s){
    std::ostringstream o; o << '"';
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') o << '\\' << c;
        else if (c == '\n') o << "\\n"; else if (c == '\t') o << "\\t"; else if (c == '\r') o << "\\r";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o << b; }
        else o << c;
    }
    o << '"'; return o.str();
}
inline std::string unbar(std::string s){ for (auto& c : s) if (c == '|') c = '\n'; return s; }

// ---- sub-elements of dimensions 2..D-1 ---------------------------------------------------------
template <unsigned d, unsigned D> struct SubDump {
    template <class M> static void run(const M& m, std::ostream& o, bool& idx){
        if (d > 2) o << ",";
        o << "[";
        for (size_t e = 0; e < m.template getElements<d>().size(); e++) {
            const auto& el = m.template getElements<d>()[e];
            if (size_t(el.getIndex()) != e) idx = false;
            o << (e ? ",[" : "[");
            for (size_t k = 0; k < size_t(el.getSubelements().size()); k++) o << (k ? "," : "") << enc(el.getSubelements()[k]);
            o << "]";
        }
        o << "]";
        SubDump<d + 1, D>::run(m, o, idx);
    }
    template <class M> static void build(M& m, std::istream& ist){
        size_t n; ist >> n;
        m.template getElements<d>().resize(n);
        for (size_t e = 0; e < n; e++) {
            auto& el = m.template getElements<d>()[e];
            el.setIndex(e);
            size_t k; ist >> k;
            for (size_t q = 0; q < k; q++) { long x; ist >> x; el.getSubelements().addSubelement(x); }
        }
        SubDump<d + 1, D>::build(m, ist);
    }
};
template <unsigned D> struct SubDump<D, D> {
    template <class M> static void run(const M&, std::ostream&, bool&){}
    template <class M> static void build(M&, std::istream&){}
};

template <unsigned D, class I, class R, unsigned... Res>
std::string dumpMesh(const MeshElements<D, I, R, Res...>& m, bool geometry = false, long gscale = 4, bool exact = false){
    Js j; bool idx = true;
    std::ostringstream v, e, s, cen, fcen, bcen;
    v << "[";
    for (size_t i = 0; i < m.getVertices().size(); i++) {
        const auto& x = m.getVertices()[i];
        if (size_t(x.getIndex()) != i) idx = false;
        v << (i ? ",[" : "[");
        for (unsigned k = 0; k < D; k++) { v << (k ? "," : ""); if (exact) v << exactText(x[k]); else v << fx(x[k]); }
        v << "]";
    }
    v << "]"; e << "[";
    for (size_t i = 0; i < m.getEdges().size(); i++) {
        const auto& x = m.getEdges()[i];
        if (size_t(x.getIndex()) != i) idx = false;
        e << (i ? "," : "") << "[" << enc(x.getVertexAIndex()) << "," << enc(x.getVertexBIndex()) << "]";
    }
    e << "]";
    s << "["; SubDump<2, D>::run(m, s, idx); s << "]";
    std::vector<long> l, r, nl, nr, cb; std::ostringstream bc;
    for (const auto& f : m.getFaces()) { l.push_back(enc(f.getCellLeftIndex())); r.push_back(enc(f.getCellRightIndex()));
        nl.push_back(enc(f.getNextBElemWRTCL())); nr.push_back(enc(f.getNextBElemWRTCR())); }
    for (size_t i = 0; i < m.getCells().size(); i++) { if (size_t(m.getCells()[i].getIndex()) != i) idx = false;
        cb.push_back(enc(m.getCells()[i].getBoundaryElementIndex())); }
    bc << "[";
    for (size_t i = 0; i < m.getBoundaryCells().size(); i++)
        bc << (i ? "," : "") << "[" << enc(m.getBoundaryCells()[i].getIndex()) << "," << enc(m.getBoundaryCells()[i].getBoundaryElementIndex()) << "]";
    bc << "]";
    j.kv("dim", D).kv("v", v.str()).kv("e", e.str()).kv("s", s.str()).kv("l", jarr(l)).kv("r", jarr(r)).kv("nl", jarr(nl)).kv("nr", jarr(nr))
     .kv("cb", jarr(cb)).kv("bc", bc.str()).kv("idx", jbool(idx));
    if (geometry) {
        auto vec = [&](std::ostringstream& o, const Vertex<D, R>& x){ o << "["; for (unsigned k = 0; k < D; k++) o << (k ? "," : "") << fr(x[k], gscale); o << "]"; };
        cen << "["; for (size_t i = 0; i < m.getCells().size(); i++) { if (i) cen << ","; vec(cen, m.getCells()[i].getCenter()); } cen << "]";
        fcen << "["; for (size_t i = 0; i < m.getFaces().size(); i++) { if (i) fcen << ","; vec(fcen, m.getFaces()[i].getCenter()); } fcen << "]";
        bcen << "["; for (size_t i = 0; i < m.getBoundaryCells().size(); i++) { if (i) bcen << ","; vec(bcen, m.getBoundaryCells()[i].getCenter()); } bcen << "]";
        j.kv("cc", cen.str()).kv("fc", fcen.str()).kv("bcc", bcen.str());
    }
    return j.str();
}

// raw description: nv coords*4 | ne (a b)* | for d=2..D-1: n (k subs*)* | per face: l r nl nr | nc cb*
template <class M> struct RawBuild;
template <unsigned D, class I, class R, unsigned... Res>
struct RawBuild<UnstructuredMesh<D, I, R, Res...>> {
    static void build(UnstructuredMesh<D, I, R, Res...>& m, std::istream& ist){
        m.clear();
        size_t n; ist >> n;
        m.getVertices().resize(n);
        for (size_t i = 0; i < n; i++) { m.getVertices()[i].setIndex(i);
            for (unsigned k = 0; k < D; k++) { long x; ist >> x; m.getVertices()[i][k] = R(x) / 4; } }
        ist >> n;
        m.getEdges().resize(n);
        for (size_t i = 0; i < n; i++) { long a, b; ist >> a >> b; auto& e = m.getEdges()[i]; e.setIndex(i); e.setVertexAIndex(a); e.setVertexBIndex(b); }
        SubDump<2, D>::build(m, ist);
        for (auto& f : m.getFaces()) { long l, r, nl, nr; ist >> l >> r >> nl >> nr;
            f.setCellLeftIndex(dec<I>(l)); f.setCellRightIndex(dec<I>(r)); f.setNextBElemWRTCL(dec<I>(nl)); f.setNextBElemWRTCR(dec<I>(nr)); }
        ist >> n;
        m.getCells().resize(n);
        for (size_t i = 0; i < n; i++) { long b; ist >> b; m.getCells()[i].setIndex(i); m.getCells()[i].setBoundaryElementIndex(b); }
        if (!ist) refuse("raw mesh");
        m.updateSignature();
    }
};

template <class C> std::string dumpTypes(const C& ct){
    std::vector<long> t; for (auto x : ct.template getDataByPos<0>()) t.push_back(long(x)); return jarr(t);
}
#endif
