// One file or raw mesh in several storage configurations; a battery of operations in each. -DDIM=3|4
#include "meshlib.h"
#include <GTMesh/UnstructuredMesh/MeshFunctions/MeshFunctions.h>
#if DIM == 3
#include <GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h>
#include <GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h>
#include <GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h>
#include <GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h>
#endif
using namespace std;
static string H(const string& s){ char b[40]; snprintf(b, 40, "%016zx%zu", hash<string>()(s), s.size()); return b; }
template <class C> string L(const C& c){ ostringstream o; for (const auto& q : c) { for (const auto& x : q) o << x << ","; o << ";"; } return o.str(); }
template <class C> string F(const C& c){ ostringstream o; o.precision(17); for (const auto& x : c) o << x << ","; return o.str(); }
template <class C> string V(const C& c, unsigned n){ ostringstream o; o.precision(17); for (const auto& x : c) { for (unsigned k = 0; k < n; k++) o << x[k] << " "; o << ","; } return o.str(); }
template <unsigned... Res> struct Cfg {
    using Mesh = UnstructuredMesh<DIM, size_t, double, Res...>;
    static string run(const string& kind, const string& text){
        Mesh m; int err = 0; vector<string> b; string dump = "{\"dim\":0}";
        try {
            istringstream s(text); 
            if (kind == "raw") RawBuild<Mesh>::build(m, s);
#if DIM == 3
            else if (kind == "vtk") { VTKMeshReader<3> r; r.loadFromStream(s, m); }
            else { FPMAMeshReader<3> r; r.loadFromStream(s, m); }
#endif
            dump = dumpMesh(m);
        } catch (const exception&) { err = 1; }
        if (!err) {
            auto add = [&](const string& x){ b.push_back("\"" + H(x) + "\""); };
            try {
            add(L(MeshConnections<DIM, 0>::connections(m).template getDataByPos<0>()));
            add(L(MeshConnections<0, DIM, ORDER_ORIGINAL>::connections(m).template getDataByPos<0>()));
            add(L(MeshConnections<DIM - 1, 1, ORDER_ORIGINAL>::connections(m).template getDataByPos<0>()));
            add(L(MeshNeighborhood<DIM, 1, DIM>::neighbors(m).template getDataByPos<0>()));
            add(F(MeshColoring<DIM, 0>::color(m).template getDataByPos<0>()));
            add(F(MeshColoring<DIM - 1, 0, METHOD_RANDOM>::color(m, 5).template getDataByPos<0>()));
            { auto c = computeCenters<METHOD_DEFAULT>(m); add(V(c.template getDataByDim<DIM>(), DIM) + V(c.template getDataByDim<DIM - 1>(), DIM) + V(c.template getDataByDim<1>(), DIM)); }
#if DIM == 3
            m.initializeCenters(); m.setupBoundaryCells(); m.setupBoundaryCellsCenters();
            { auto c = m.computeElementMeasures(); add(F(c.template getDataByDim<3>()) + F(c.template getDataByDim<2>()) + F(c.template getDataByDim<1>())); }
            { auto c = computeMeasures<METHOD_TESSELLATED>(m); add(F(c.template getDataByDim<3>()) + F(c.template getDataByDim<2>())); }
            add(V(m.computeFaceNormals().template getDataByPos<0>(), 3));
            add(F(computeCellsDistance(m).template getDataByPos<0>()));
            { auto o = edgesOrientation(m); ostringstream s; for (const auto& f : o.template getDataByPos<0>()) { for (bool x : f) s << x; s << ";"; } add(s.str()); }
            { ostringstream s; FPMAMeshWriter<3, size_t, double> w; w.writeToStream(s, m); add(s.str()); }
            { ostringstream s; VTKMeshWriter<3, size_t, double> w; w.writeHeader(s, "x");
              MeshDataContainer<MeshNativeType<3>::ElementType, 3> t(m, MeshNativeType<3>::POLYHEDRON); w.writeToStream(s, m, t); add(s.str()); }
#endif
            } catch (const exception& e) { b.push_back(jstr(string("exception: ") + e.what())); }
        }
        return "{\"m\":" + dump + ",\"err\":" + to_string(err) + ",\"battery\":" + jarr(b) + "}";
    }
};
int main(){
    string line;
    while (getline(cin, line)) {
        if (line.empty()) continue;
        istringstream ss(line); string c, kind; int k; ss >> c >> k >> kind; ss.ignore(1); string text; getline(ss, text); text = unbar(text);
        string r;
#if DIM == 3
        switch (k) { case 0: r = Cfg<>::run(kind, text); break; case 3: r = Cfg<3>::run(kind, text); break; case 4: r = Cfg<4>::run(kind, text); break;
            case 5: r = Cfg<5>::run(kind, text); break; case 6: r = Cfg<6>::run(kind, text); break; case 8: r = Cfg<8>::run(kind, text); break; case 24: r = Cfg<24>::run(kind, text); break; default: refuse("cfg"); }
#else
        switch (k) { case 0: r = Cfg<>::run(kind, text); break; case 6: r = Cfg<6>::run(kind, text); break; case 604: r = Cfg<6, 4>::run(kind, text); break;
            case 4: r = Cfg<0, 4>::run(kind, text); break; case 504: r = Cfg<5, 4>::run(kind, text); break; case 603: r = Cfg<6, 3>::run(kind, text); break; case 909: r = Cfg<9, 9>::run(kind, text); break; default: refuse("cfg"); }
#endif
        cout << r << "\n";
    }
}
