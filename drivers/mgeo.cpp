// Geometric functions on meshes built element by element. -DDIM=2|3|4
#include "meshlib.h"
#include <GTMesh/UnstructuredMesh/MeshFunctions/MeshFunctions.h>
using namespace std;

struct Base { virtual ~Base(){} virtual string run(const string& c, istream& a) = 0; };
template <class Mesh> struct Of;
template <unsigned D, class I, class R, unsigned... Res> struct Of<UnstructuredMesh<D, I, R, Res...>> { using Index = I; using Real = R; };

template <unsigned d> struct Each {      // dimensions 1..DIM of a container
    template <class C, class F> static string vec(const C& c, F f){
        ostringstream o; o << (d > 1 ? ",[" : "["); bool first = true;
        for (const auto& x : c.template getDataByDim<d>()) { if (!first) o << ","; first = false; o << f(x, d); }
        o << "]"; return o.str() + Each<d + 1>::vec(c, f);
    }
};
template <> struct Each<DIM + 1> { template <class C, class F> static string vec(const C&, F){ return ""; } };

template <class Mesh> struct Session : Base {
    using I = typename Of<Mesh>::Index; using R = typename Of<Mesh>::Real;
    Mesh m; double scl = 1;
    template <class V> string pt(const V& x, long sc){ ostringstream o; o << "["; for (unsigned k = 0; k < DIM; k++) o << (k ? "," : "") << fr((long double)x[k] / scl, sc); o << "]"; return o.str(); }
    template <class V> string lo(const V& x, long sc, long lim, long double s){ ostringstream o; o << "["; for (unsigned k = 0; k < DIM; k++) o << (k ? "," : "") << frlo((long double)x[k] / s, sc, lim); o << "]"; return o.str(); }
    static constexpr long L14 = 16384, L18 = 262144;      // units of the remainders
    template <class C> void centres(Js& j, const C& c){
        j.kv("c", "[" + Each<1>::vec(c, [&](const Vertex<DIM, R>& x, unsigned){ return pt(x, 1024); }) + "]");
        j.kv("cl", "[" + Each<1>::vec(c, [&](const Vertex<DIM, R>& x, unsigned){ return lo(x, 1024, L14, scl); }) + "]");
    }
    // measures: edges * 4*64, faces * 32*4 (in 2D * 32*16), cells * 384*2, in 4D * 4^d*16; simplices have a factor of d! more
    template <class C> string measures(Js& j, const C& c, const vector<long>& scale){
        j.kv("ms", "[" + Each<1>::vec(c, [&](R x, unsigned d){ return fr((long double)x / std::pow((long double)scl, (long double)d), scale[d - 1]); }) + "]");
        j.kv("ml", "[" + Each<1>::vec(c, [&](R x, unsigned d){ return frlo((long double)x / std::pow((long double)scl, (long double)d), scale[d - 1], L14); }) + "]");
        return j.str();
    }
    template <class C> string normals(Js& j, const C& c){ return j.kv("n", vecs(c, 1024)).kv("nl", veclo(c, 1024, L18)).str(); }
    template <class C> string veclo(const C& c, long sc, long lim){ ostringstream o; o << "["; bool f = true; for (const auto& x : c.template getDataByPos<0>()) { if (!f) o << ","; f = false; o << lo(x, sc, lim, 1); } o << "]"; return o.str(); }
    template <class C> string vecs(const C& c, long sc){ ostringstream o; o << "["; bool f = true; for (const auto& x : c.template getDataByPos<0>()) { if (!f) o << ","; f = false;
        ostringstream p; p << "["; for (unsigned k = 0; k < DIM; k++) p << (k ? "," : "") << fr((long double)x[k], sc); p << "]"; o << p.str(); } o << "]"; return o.str(); }
    string stored(){
        Mesh c(m);
        ostringstream cc, fc, bcc; cc << "["; fc << "["; bcc << "[";
        for (size_t k = 0; k < m.getCells().size(); k++) cc << (k ? "," : "") << pt(m.getCells()[k].getCenter(), 1024);
        for (size_t k = 0; k < m.getFaces().size(); k++) fc << (k ? "," : "") << pt(m.getFaces()[k].getCenter(), 1024);
        for (size_t k = 0; k < m.getBoundaryCells().size(); k++) bcc << (k ? "," : "") << pt(m.getBoundaryCells()[k].getCenter(), 1024);
        ostringstream ccl, fcl; ccl << "["; fcl << "[";
        for (size_t k = 0; k < m.getCells().size(); k++) ccl << (k ? "," : "") << lo(m.getCells()[k].getCenter(), 1024, L14, scl);
        for (size_t k = 0; k < m.getFaces().size(); k++) fcl << (k ? "," : "") << lo(m.getFaces()[k].getCenter(), 1024, L14, scl);
        return "\"cc\":" + cc.str() + "],\"fc\":" + fc.str() + "],\"bcc\":" + bcc.str() + "],\"ccl\":" + ccl.str() + "],\"fcl\":" + fcl.str() + "]";
    }
    string dump(){ Mesh c(m); for (auto& x : c.getVertices()) for (unsigned q = 0; q < DIM; q++) x[q] /= scl; return dumpMesh(c); }
    template <ComputationMethod M> string meth(const string& c, istream& a){
        Js j; string how; a >> how;
        if (c == "cen") {
            if (how == "M") { centres(j, m.template computeElementCenters<M>()); return j.str(); }
            centres(j, computeCenters<M>(m)); return j.str();
        }
        if (c == "init") {
            auto cs = computeCenters<M>(m);
            if (how == "M") m.template initializeCenters<M>(); else m.initializeCenters(cs);
            centres(j, cs); return j.str();
        }
        if (c == "meas") {
            vector<long> sc(DIM); for (auto& x : sc) a >> x;
#if DIM < 4
            if (how == "S") return measures(j, computeMeasures<M>(m), sc);
#else
            if (how == "P") return measures(j, computeMeasures<M>(computeCenters<M>(m), m), sc);
            if (how == "X") return measures(j, computeMeasures<M>(computeCenters<M == METHOD_DEFAULT ? METHOD_TESSELLATED : METHOD_DEFAULT>(m), m), sc);
#endif
            if (how == "M") return measures(j, m.template computeElementMeasures<M>(), sc);
        }
        if (c == "norm") {
#if DIM < 4
            if (how == "S") return normals(j, computeFaceNormals<M>(m));
#else
            if (how == "P") return normals(j, computeFaceNormals<M>(computeCenters<M>(m), m));
#endif
            if (how == "M") return normals(j, m.template computeFaceNormals<M>());
        }
        refuse("command " + c + " " + how);
    }
    string run(const string& c, istream& a) override {
        try {
            string r;
            if (c == "raw") {
                double e; a >> e; scl = std::pow(2.0, e);
                RawBuild<Mesh>::build(m, a);
                for (auto& x : m.getVertices()) for (unsigned q = 0; q < DIM; q++) x[q] *= R(scl);
                r = "{\"m\":" + dump() + "}";
            }
            else if (c == "empty") { m.clear(); scl = 1; r = "{\"m\":" + dump() + "}"; }
            else if (c == "bnd") { m.setupBoundaryCells(); m.setupBoundaryCellsCenters(); r = "{\"m\":" + dump() + "," + stored() + "}"; }
            else if (c == "bcen") { m.setupBoundaryCellsCenters(); r = "{\"m\":" + dump() + "," + stored() + "}"; }
            else if (c == "dump") r = "{\"m\":" + dump() + "," + stored() + "}";
            else if (c == "diff") {
                auto d = computeCellsCenterDifference(m); auto t = computeCellsDistance(m);
                for (auto& x : d.template getDataByPos<0>()) x = x / R(scl);
                ostringstream o; o << "["; for (size_t k = 0; k < t.template getDataByPos<0>().size(); k++) o << (k ? "," : "") << fr((long double)t.template getDataByPos<0>()[k] / scl, 128); o << "]";
                r = "{\"diff\":" + vecs(d, 1024) + ",\"diffl\":" + veclo(d, 1024, L14) + ",\"dist\":" + o.str() + "}";
            }
#if DIM == 3
            else if (c == "ori") {
                auto o = edgesOrientation(m); ostringstream s, s2; s << "["; s2 << "[";
                for (size_t f = 0; f < m.getFaces().size(); f++) {
                    vector<int> a1, a2;
                    for (bool b : o.template getDataByPos<0>().at(f)) a1.push_back(b);
                    for (size_t k = 0; k < size_t(m.getFaces()[f].getSubelements().size()); k++) a2.push_back(edgeIsLeft(m, I(f), I(m.getFaces()[f].getSubelements()[k])));
                    s << (f ? "," : "") << jarr(a1); s2 << (f ? "," : "") << jarr(a2);
                }
                r = "{\"ori\":" + s.str() + "],\"ori2\":" + s2.str() + "]}";
            }
#endif
#if DIM == 2
            else if (c == "ori") {
                ostringstream s, s2; s << "["; s2 << "["; bool first = true;
                MeshApply<2, 1>::apply(m, [&](I x, I e){
                    if (!first) { s << ","; s2 << ","; } first = false;
                    s << "[" << enc(x) << "," << enc(e) << "," << int(edgeIsLeft(m, x, e)) << "]";
                    s2 << int(edgeIsLeft(m, m.getCells().at(x), m.getEdges().at(e)));
                });
                r = "{\"ori\":" + s.str() + "],\"ori2\":" + s2.str() + "]}";
            }
#endif
            else {
                string me; a >> me;
                r = me == "D" ? meth<METHOD_DEFAULT>(c, a) : meth<METHOD_TESSELLATED>(c, a);
                if (c == "init") { r.pop_back(); r += "," + stored() + "}"; }
            }
            r.pop_back();
            return r + ",\"fine\":" + jbool(sizeof(R) >= sizeof(double)) + ",\"err\":0}";
        } catch (const std::exception& e) { return "{\"err\":1,\"what\":" + jstr(e.what()) + "}"; }
    }
};
static Base* make(int cfg){
    switch (cfg) {
        case 0: return new Session<UnstructuredMesh<DIM, size_t, double>>;
#if DIM == 2
        case 1: return new Session<UnstructuredMesh<DIM, unsigned short, float>>;
        case 2: return new Session<UnstructuredMesh<DIM, int, long double>>;
#elif DIM == 3
        case 1: return new Session<UnstructuredMesh<DIM, unsigned int, float, 12>>;
        case 2: return new Session<UnstructuredMesh<DIM, unsigned int, long double>>;
#else
        case 1: return new Session<UnstructuredMesh<DIM, int, float, 6, 4>>;
        case 2: return new Session<UnstructuredMesh<DIM, size_t, long double>>;
#endif
    }
    refuse("cfg");
}
int main(){
    unique_ptr<Base> b; string line;
    while (getline(cin, line)) {
        if (line.empty()) continue;
        istringstream ss(line); string c; ss >> c;
        if (c == "new") { int k; ss >> k; b.reset(make(k)); ss >> c; }
        cout << b->run(c, ss) << "\n";
    }
}
