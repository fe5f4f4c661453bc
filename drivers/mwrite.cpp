// Writing of meshes: sessions with two mesh slots and persistent writers. -DDIM=2|3
#include "meshlib.h"
#include <GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h>
#include <GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h>
#include <GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h>
#include <GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h>
#include <unistd.h>
using namespace std;
static string scratch;
using ET = MeshNativeType<DIM>::ElementType;
using Types = MeshDataContainer<ET, DIM>;

// a reader which only knows cell types
struct TypesReader : MeshReader<DIM> { Types t; MeshDataContainer<ET, DIM> getCellTypes() const override { return t; } };

struct Base { virtual ~Base(){} virtual string run(const string& c, istream& a) = 0; };
template <class Mesh> struct Fp;
template <class I, class R, unsigned... Res> struct Fp<UnstructuredMesh<2, I, R, Res...>> {
    struct W {};
    template <class M> static void write(W&, ostream&, M&){ refuse("fpma in 2D"); }
    template <class M> static string load(istream&, M&){ refuse("fpma in 2D"); }
    template <class VW> static string mapping(VW&){ return "[]"; }
};
template <class I, class R, unsigned... Res> struct Fp<UnstructuredMesh<3, I, R, Res...>> {
    using W = FPMAMeshWriter<3, I, R>;
    template <class M> static void write(W& w, ostream& o, M& m){ w.writeToStream(o, m); }
    template <class M> static string load(istream& s, M& m){ FPMAMeshReader<3> r; r.loadFromStream(s, m); return dumpTypes(r.getCellTypes()); }
    template <class VW> static string mapping(VW& w){ ostringstream o; o << "["; bool f = true;
        for (auto& p : w.backwardCellIndexMapping) { o << (f ? "" : ",") << "[" << long(p.first) << "," << long(p.second) << "]"; f = false; } o << "]"; return o.str(); }
};
template <class Mesh> struct Of;
template <unsigned D, class I, class R, unsigned... Res> struct Of<UnstructuredMesh<D, I, R, Res...>> { using Index = I; using Real = R; };

template <class Mesh> struct Session : Base {
    using I = typename Of<Mesh>::Index; using R = typename Of<Mesh>::Real;
    using VW = VTKMeshWriter<DIM, I, R>;
    struct Slot { Mesh m; double scl = 1; } s[2];
    VW vtk; typename Fp<Mesh>::W fpma;
    unique_ptr<MeshWriter<DIM>> ptr;
    int files = 0;

    static void rescale(Mesh& m, double k){
        for (auto& x : m.getVertices()) for (unsigned q = 0; q < DIM; q++) x[q] *= k;
        for (auto& x : m.getCells()) { auto c = x.getCenter(); for (unsigned q = 0; q < DIM; q++) c[q] *= k; x.setCenter(c); }
        for (auto& x : m.getFaces()) { auto c = x.getCenter(); for (unsigned q = 0; q < DIM; q++) c[q] *= k; x.setCenter(c); }
    }
    string dump(Slot& sl){ Mesh c(sl.m); rescale(c, 1 / sl.scl); return dumpMesh(c, true, 1024); }
    static Types types(const Mesh& m, istream& a){
        Types t; int n; a >> n; t.template getDataByPos<0>().resize(n);
        for (int k = 0; k < n; k++) { int x; a >> x; t.template getDataByPos<0>()[k] = ET(x); }
        return t;
    }
    static string slurp(const string& p){ ifstream f(p, ios::binary); ostringstream o; o << f.rdbuf(); return o.str(); }

    string run(const string& c, istream& a) override {
        string err; Js j;
        try {
            if (c == "new") {}
            else if (c == "mesh") {
                int k; double e; a >> k >> e; s[k].scl = std::pow(2.0, e);
                RawBuild<Mesh>::build(s[k].m, a); rescale(s[k].m, s[k].scl); s[k].m.initializeCenters(); s[k].m.updateSignature();
                j.kv("m", dump(s[k]));
            }
            else if (c == "edit") {
                int k; string w; a >> k >> w; Mesh& m = s[k].m; long x, y;
                if (w == "cb") { a >> x >> y; m.getCells().at(x).setBoundaryElementIndex(y); }
                else if (w == "swap") { a >> x; m.getFaces().at(x).swapCellsLR(); }
                else if (w == "rev") { a >> x; auto& e = m.getEdges().at(x); auto t = e.getVertexAIndex(); e.setVertexAIndex(e.getVertexBIndex()); e.setVertexBIndex(t); }
                else if (w == "vert") { a >> x >> y; m.getVertices().at(x)[y % DIM] += R(0.25 * s[k].scl); }
                else if (w == "cen") { a >> x >> y; auto q = m.getCells().at(x).getCenter(); q[y % DIM] += R(0.25 * s[k].scl); m.getCells().at(x).setCenter(q); }
                else if (w == "fcen") { a >> x >> y; auto q = m.getFaces().at(x).getCenter(); q[y % DIM] += R(0.25 * s[k].scl); m.getFaces().at(x).setCenter(q); }
                else if (w == "rot") { a >> x; rotate(m, x); }
                else if (w == "bnd") { m.setupBoundaryCells(); m.setupBoundaryCellsCenters(); }
                else if (w == "cent") { m.template initializeCenters<METHOD_TESSELLATED>(); }
                else if (w == "recen") { m.initializeCenters(); }
                else refuse("edit " + w);
                m.updateSignature();
                j.kv("m", dump(s[k]));
            }
            else if (c == "w") {      // w slot via fmt header types
                int k; string via, fmt, header; a >> k >> via >> fmt >> header; if (header == "-") header = "";
                for (auto& ch : header) if (ch == '_') ch = ' ';
                Mesh& m = s[k].m; Types t = types(m, a), eff = t;
                if (t.template getDataByPos<0>().empty() && via != "s") eff.allocateData(m, ET(DIM == 3 ? 305 : 202));
                string before = dump(s[k]);
                ostringstream fresh; VW fv; typename Fp<Mesh>::W ff;
                string map = "[]", text;
                auto doFresh = [&]{ if (fmt == "vtk") { fv.writeHeader(fresh, header); fv.writeToStream(fresh, m, eff); map = Fp<Mesh>::mapping(fv); } else Fp<Mesh>::write(ff, fresh, m); };
                // the fresh writer works on a copy, sometimes before, sometimes after the reused one
                bool first = files++ % 2;
                if (first) doFresh();
                string map2 = map;
                if (via == "s") {
                    ostringstream o;
                    if (fmt == "vtk") { vtk.writeHeader(o, header); vtk.writeToStream(o, m, t); map2 = Fp<Mesh>::mapping(vtk); }
                    else Fp<Mesh>::write(fpma, o, m);
                    text = o.str();
                } else {
                    string p = scratch + "/out." + fmt;
                    TypesReader rd; rd.t = t;
                    unique_ptr<MeshWriter<DIM>> got;
                    if (via == "p") m.write(p, ptr, t, header);                   // persistent pointer
                    else if (via == "q") m.write(p, ptr, static_cast<const MeshReader<DIM>&>(rd), header);
                    else if (via == "n") { got = m.write(p, t, header); }
                    else if (via == "r") { got = m.write(p, static_cast<const MeshReader<DIM>&>(rd), header); }
                    else if (via == "d") { got = m.write(p, header); }
                    else refuse("via " + via);
                    MeshWriter<DIM>* w = (via == "p" || via == "q") ? ptr.get() : got.get();
                    if (!w) { err = "no writer"; }
                    else if (fmt == "vtk") { auto v = dynamic_cast<VW*>(w); if (!v) err = "wrong writer"; else map2 = Fp<Mesh>::mapping(*v); }
                    text = slurp(p); remove(p.c_str());
                }
                if (!first) { string keep = map2; doFresh(); map2 = keep; }
                vector<long> et; for (auto x : eff.template getDataByPos<0>()) et.push_back(x);
                j.kv("same", jbool(text == fresh.str() && map == map2)).kv("kept", jbool(before == dump(s[k]))).kv("eff", jarr(et)).kv("map", map2).kv("head", jstr(header)).kv("text", jstr(text));
            }
            else if (c == "rt") {     // rt slot fmt types : write and load into a fresh mesh
                int k; string fmt; a >> k >> fmt; Mesh& m = s[k].m; Types t = types(m, a);
                stringstream io; Mesh n; string tt;
                if (fmt == "vtk") { VW w; w.writeHeader(io, "round trip"); w.writeToStream(io, m, t); VTKMeshReader<DIM> r; r.loadFromStream(io, n); tt = dumpTypes(r.getCellTypes()); }
                else { typename Fp<Mesh>::W w; Fp<Mesh>::write(w, io, m); tt = Fp<Mesh>::load(io, n); }
                vector<long> et; for (auto x : t.template getDataByPos<0>()) et.push_back(x);
                j.kv("eff", jarr(et)).kv("m2", dumpMesh(n)).kv("types2", tt).kv("kept", "true");
            }
            else refuse("command " + c);
        } catch (const std::exception& e) { err = e.what(); if (err.empty()) err = "?"; }
        j.kv("err", err.empty() ? "0" : "1").kv("what", jstr(err));
        return j.str();
    }
#if DIM == 3
    static void rotate(Mesh& m, long f){
        auto& sub = m.getFaces().at(f).getSubelements();
        size_t n = sub.size(); I x = sub[0];
        for (size_t q = 0; q + 1 < n; q++) sub[q] = sub[q + 1];
        sub[n - 1] = x;
    }
#else
    static void rotate(Mesh&, long){}
#endif
};
static Base* make(int cfg){
    switch (cfg) {
#if DIM == 3
        case 0: return new Session<UnstructuredMesh<3, size_t, double>>;
        case 1: return new Session<UnstructuredMesh<3, unsigned int, float, 12>>;
        case 2: return new Session<UnstructuredMesh<3, unsigned short, double>>;
        case 3: return new Session<UnstructuredMesh<3, int, long double>>;
#else
        case 0: return new Session<UnstructuredMesh<2, size_t, double>>;
        case 1: return new Session<UnstructuredMesh<2, unsigned int, float>>;
        case 2: return new Session<UnstructuredMesh<2, unsigned short, long double>>;
        case 3: return new Session<UnstructuredMesh<2, int, double>>;
#endif
    }
    refuse("cfg");
}
int main(int argc, char** argv){
    string tmpl = string(argc > 1 ? argv[1] : "/tmp") + "/gtmwrite.XXXXXX";
    if (!mkdtemp(&tmpl[0])) refuse("mkdtemp");
    scratch = tmpl;
    unique_ptr<Base> b; string line;
    while (getline(cin, line)) {
        if (line.empty()) continue;
        istringstream ss(line); string c; ss >> c;
        if (c == "new") { int k; ss >> k; b.reset(make(k)); }
        cout << b->run(c, ss) << "\n";
    }
    rmdir(scratch.c_str());
}
