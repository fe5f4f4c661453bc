// Loading of meshes: sessions on one mesh object and one pair of readers. -DDIM=2|3
#include "meshlib.h"
#include <GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h>
#include <GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h>
#include <unistd.h>
#include <sys/stat.h>
using namespace std;
static string scratch;

template <class C> bool plainAll(const C& c){
    typename std::decay<decltype(c[0])>::type d;
    for (const auto& x : c) {
        if (x.getFlag() != d.getFlag()) return false;
        for (unsigned k = 0; k < DIM; k++) if (!(x.getCenter()[k] == d.getCenter()[k])) return false;
    }
    return true;
}
// centres and flags are those of new elements
template <class M> bool plain(const M& m){ return plainAll(m.getCells()) && plainAll(m.getFaces()) && plainAll(m.getBoundaryCells()); }
struct Base { virtual ~Base(){} virtual string run(const string& c, istream& a) = 0; };

template <class Mesh> struct FpmaLoad { template <class Rd> static string load(Rd&, istream&, Mesh&){ refuse("fpma in 2D"); } struct Reader{}; };
template <class I, class R, unsigned... Res> struct FpmaLoad<UnstructuredMesh<3, I, R, Res...>> {
    using Reader = FPMAMeshReader<3>;
    template <class Rd> static string load(Rd& r, istream& s, UnstructuredMesh<3, I, R, Res...>& m){ r.loadFromStream(s, m); return dumpTypes(r.getCellTypes()); }
};
template <class Mesh> struct Session : Base {
    Mesh m;
    VTKMeshReader<DIM> vtk;
    typename FpmaLoad<Mesh>::Reader fpma;
    string types = "[]";

    string load(Mesh& mesh, VTKMeshReader<DIM>& v, typename FpmaLoad<Mesh>::Reader& f, const string& via, const string& kind, const string& text){
        if (via != "s") {   // a file: f plainly named, g in a folder named as a file of the other kind, h with more dots
            string p = scratch + (via == "g" ? kind == "vtk" ? "/set.fpma/" : "/set.vtk/" : via == "h" ? "/v1.2/my." : "/") + "mesh." + kind;
            { ofstream o(p); o << text; }
            auto rd = mesh.load(p);
            string t = rd ? dumpTypes(rd->getCellTypes()) : "[]";
            remove(p.c_str());
            return t;
        }
        istringstream s(text);
        if (kind == "vtk") { v.loadFromStream(s, mesh); return dumpTypes(v.getCellTypes()); }
        return FpmaLoad<Mesh>::load(f, s, mesh);
    }
    string run(const string& c, istream& a) override {
        string err; bool geo = false, exact = c == "loadp"; int sigeq = 2, same = 2; Js j;
        try {
            if (c == "new") {}
            else if (c == "load" || c == "loadp") {   // loadp: coordinates reported exactly
                string via, kind, text; a >> via >> kind; a.ignore(1); getline(a, text); text = unbar(text);
                types = "[]";
                types = load(m, vtk, fpma, via, kind, text);
                Mesh m2; VTKMeshReader<DIM> v2; typename FpmaLoad<Mesh>::Reader f2;
                load(m2, v2, f2, "s", kind, text);
                sigeq = m.getSignature() == m2.getSignature(); same = dumpMesh(m, false, 4, true) == dumpMesh(m2, false, 4, true);
            }
            else if (c == "missing") { m.load(scratch + "/does-not-exist.vtk"); }
            else if (c == "clear") { m.clear(); types = "[]"; }
            else if (c == "bnd") m.setupBoundaryCells();
            else if (c == "mark") {   // values at the elements which no file describes
                m.initializeCenters(); int n = 0;
                for (auto& x : m.getCells()) x.getFlag() = ++n;
                for (auto& x : m.getFaces()) x.getFlag() = ++n;
                for (auto& x : m.getBoundaryCells()) { x.getFlag() = ++n; x.getCenter()[0] = n; }
            }
            else if (c == "bndc") { m.initializeCenters(); m.setupBoundaryCellsCenters(); }
            else if (c == "raw") { RawBuild<Mesh>::build(m, a); types = "[]"; }
            else if (c == "bndg") { m.initializeCenters(); m.setupBoundaryCellsCenters(); geo = true; }
            else if (c == "setl" || c == "setr") { long f, x; a >> f >> x; auto& fc = m.getFaces().at(f);
                if (c == "setl") fc.setCellLeftIndex(dec<decltype(fc.getCellLeftIndex())>(x)); else fc.setCellRightIndex(dec<decltype(fc.getCellLeftIndex())>(x)); }
            else if (c == "edit") {   // scribble over the mesh through its public interface
                int k; a >> k;
                switch (k % 5) {
                    case 0: m.getVertices().push_back({}); break;
                    case 1: for (auto& f : m.getFaces()) f.swapCellsLR(); break;
                    case 2: m.getEdges().push_back({}); break;
                    case 3: m.getCells().push_back({}); break;
                    case 4: for (auto& x : m.getVertices()) x[0] += 1; break;
                }
                m.updateSignature();
            }
            else refuse("command " + c);
        } catch (const std::exception& e) { err = e.what(); if (err.empty()) err = "?"; }
        j.kv("m", dumpMesh(m, geo, 1024, exact)).kv("types", types).kv("sigeq", sigeq).kv("same", same).kv("plain", jbool(plain(m))).kv("err", err.empty() ? "0" : "1");
        return j.str();
    }
};
#if DIM == 3
static Base* make(int cfg){
    switch (cfg) {
        case 0: return new Session<UnstructuredMesh<3, size_t, double>>;
        case 1: return new Session<UnstructuredMesh<3, unsigned int, float, 12>>;
        case 2: return new Session<UnstructuredMesh<3, unsigned short, double, 8>>;
        case 3: return new Session<UnstructuredMesh<3, int, long double>>;
        case 4: return new Session<UnstructuredMesh<3, size_t, double, 4>>;   // exact for the solids
    }
    refuse("cfg");
}
#else
static Base* make(int cfg){
    switch (cfg) {
        case 0: return new Session<UnstructuredMesh<2, size_t, double>>;
        case 1: return new Session<UnstructuredMesh<2, unsigned int, float>>;
        case 2: return new Session<UnstructuredMesh<2, unsigned short, long double>>;
        case 3: return new Session<UnstructuredMesh<2, int, double>>;
    }
    refuse("cfg");
}
#endif
int main(int argc, char** argv){
    string tmpl = string(argc > 1 ? argv[1] : "/tmp") + "/gtmload.XXXXXX";
    if (!mkdtemp(&tmpl[0])) refuse("mkdtemp");
    scratch = tmpl;
    const char* folders[] = {"/set.vtk", "/set.fpma", "/v1.2"};
    for (auto d : folders) if (mkdir((scratch + d).c_str(), 0700)) refuse("mkdir");
    unique_ptr<Base> b; string line;
    while (getline(cin, line)) {
        if (line.empty()) continue;
        istringstream ss(line); string c; ss >> c;
        if (c == "new") { int k; ss >> k; b.reset(make(k)); }
        cout << b->run(c, ss) << "\n";
    }
    for (auto d : folders) rmdir((scratch + d).c_str());
    rmdir(scratch.c_str());
}
