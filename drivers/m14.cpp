// Cell data next to VTK meshes. -DDIM=2|3
#include "meshlib.h"
#include <GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h>
#include <GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h>
#include <unistd.h>
using namespace std;
static string scratch;
using ET = MeshNativeType<DIM>::ElementType;
using Types = MeshDataContainer<ET, DIM>;
using V = vector<long>;
using It = V::const_iterator;

// ---- the data: put / get reach every member directly, in the order of declaration ---------------
struct A { double p; Vector<DIM, double> vel; array<double, DIM * DIM> sigma; double hidden; };
MAKE_ATTRIBUTE_TRAIT(A, p, vel, sigma);
struct B { int k; float f; array<float, DIM> w; Vector<DIM, int> iv; bool flag; long double rest; };
MAKE_NAMED_ATTRIBUTE_TRAIT(B, "vel_y", iv, "pp", f, "flag", flag, "count", k, "velo", w);
class C { double q_ = 0; Vector<DIM, double> u_; public: double own = 0;
    double getQ() const { return q_; } void setQ(const double& x){ q_ = x; }
    const Vector<DIM, double>& getU() const { return u_; } void setU(const Vector<DIM, double>& x){ u_ = x; } };
MAKE_CUSTOM_TRAIT(C, "u", make_pair(&C::getU, &C::setU), "q", make_pair(&C::getQ, &C::setQ));
struct D { double a; Vector<DIM * DIM, double> t; Vector<DIM, double> c; };
MAKE_ATTRIBUTE_TRAIT_IO(D, t, a);
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(D, a, c);
struct S { double only; };
MAKE_NAMED_ATTRIBUTE_TRAIT(S, "o", only);

inline void p1(It& i, double& x){ x = *i++ / 4.0; }
inline void p1(It& i, float& x){ x = *i++ / 4.0f; }
inline void p1(It& i, long double& x){ x = *i++ / 4.0L; }
inline void p1(It& i, int& x){ x = *i++ / 4; }
inline void p1(It& i, bool& x){ x = *i++ / 4; }
template <unsigned N, class T> void p1(It& i, Vector<N, T>& v){ for (unsigned k = 0; k < N; k++) p1(i, v[k]); }
template <class T, size_t N> void p1(It& i, array<T, N>& v){ for (auto& x : v) p1(i, x); }
template <class T> typename enable_if<is_arithmetic<T>::value>::type g1(V& o, const T& x){ o.push_back(fx(x)); }
template <unsigned N, class T> void g1(V& o, const Vector<N, T>& v){ for (unsigned k = 0; k < N; k++) g1(o, v[k]); }
template <class T, size_t N> void g1(V& o, const array<T, N>& v){ for (auto& x : v) g1(o, x); }
void put(It& i, A& x){ p1(i, x.p); p1(i, x.vel); p1(i, x.sigma); p1(i, x.hidden); }
void get(V& o, const A& x){ g1(o, x.p); g1(o, x.vel); g1(o, x.sigma); g1(o, x.hidden); }
void put(It& i, B& x){ p1(i, x.k); p1(i, x.f); p1(i, x.w); p1(i, x.iv); p1(i, x.flag); p1(i, x.rest); }
void get(V& o, const B& x){ g1(o, x.k); g1(o, x.f); g1(o, x.w); g1(o, x.iv); g1(o, x.flag); g1(o, x.rest); }
void put(It& i, C& x){ double q; Vector<DIM, double> u; p1(i, q); p1(i, u); x.setQ(q); x.setU(u); p1(i, x.own); }
void get(V& o, const C& x){ g1(o, x.getQ()); g1(o, x.getU()); g1(o, x.own); }
void put(It& i, D& x){ p1(i, x.a); p1(i, x.t); p1(i, x.c); }
void get(V& o, const D& x){ g1(o, x.a); g1(o, x.t); g1(o, x.c); }
void put(It& i, S& x){ p1(i, x.only); }
void get(V& o, const S& x){ g1(o, x.only); }
void put(It& i, double& x){ p1(i, x); }
void get(V& o, const double& x){ g1(o, x); }
void put(It& i, int& x){ p1(i, x); }
void get(V& o, const int& x){ g1(o, x); }

template <class X> void fill(It& i, X& c){ for (auto& x : c) put(i, x); }
template <class X> void drain(V& o, const X& c){ for (const auto& x : c) get(o, x); }

// ---- configurations: Box = container, how it is filled, written, read ------------------------------
template <class T, unsigned... Ds> struct Whole {
    MeshDataContainer<T, Ds...> c;
    template <class M> void alloc(const M& m){ c.allocateData(m); }
};
template <class Box, unsigned n> struct Parts {
    static void fillAll(It& i, Box& b){ Parts<Box, n - 1>::fillAll(i, b); fill(i, b.c.template getDataByPos<n - 1>()); }
    static void drainAll(V& o, const Box& b){ Parts<Box, n - 1>::drainAll(o, b); drain(o, b.c.template getDataByPos<n - 1>()); }
};
template <class Box> struct Parts<Box, 0> { static void fillAll(It&, Box&){} static void drainAll(V&, const Box&){} };
template <class T, unsigned n, unsigned... Ds> struct Plain : Whole<T, Ds...> {
    void in(It& i){ Parts<Plain, n>::fillAll(i, *this); }
    void out(V& o) const { Parts<Plain, n>::drainAll(o, *this); }
    template <class W> void write(ostream& o, W& w){ VTKMeshDataWriter<DIM>::writeToStream(o, this->c, w); }
    template <class I> void read(istream& i){ VTKMeshDataReader<DIM, I>::readFromStream(i, this->c); }
};
template <class T> struct Single : Plain<T, 1, DIM> {
    template <class W> void write(ostream& o, W& w){ VTKMeshDataWriter<DIM>::writeToStream(o, this->c.template getDataByPos<0>(), w); }
    template <class I> void read(istream& i){ VTKMeshDataReader<DIM, I>::readFromStream(i, this->c.template getDataByPos<0>()); }
};
static auto tA(){ return makeTraits<A>("SCALARS_t", &A::sigma, "vel", &A::hidden, "p", &A::p); }
struct Bound : Plain<A, 1, DIM> {
    template <class W> void write(ostream& o, W& w){ auto t = tA(); VTKMeshDataWriter<DIM>::writeToStream(o, bindTraits(c, t), w); }
    template <class I> void read(istream& i){ auto t = tA(); VTKMeshDataReader<DIM, I>::readFromStream(i, bindTraits(c, t)); }
};
struct Tuple : Plain<tuple<A, D>, 2, DIM, DIM> {
    template <class W> void write(ostream& o, W& w){ auto t = make_tuple(tA()); VTKMeshDataWriter<DIM>::writeToStream(o, c, w, t); }
    template <class I> void read(istream& i){ auto t = make_tuple(tA()); VTKMeshDataReader<DIM, I>::readFromStream(i, c, t); }
};
struct Bound2 : Plain<tuple<S, A>, 2, DIM, DIM> {
    static auto tS(){ return makeTraits<S>("single", &S::only); }
    template <class W> void write(ostream& o, W& w){ VTKMeshDataWriter<DIM>::writeToStream(o, bindTraits(c, tS(), tA()), w); }
    template <class I> void read(istream& i){ VTKMeshDataReader<DIM, I>::readFromStream(i, bindTraits(c, tS(), tA())); }
};

struct Base { virtual ~Base(){} virtual string run(const string& c, istream& a) = 0; };
template <class I, class R> struct Session : Base {
    using Mesh = UnstructuredMesh<DIM, I, R>;
    Mesh m; Types t; VTKMeshWriter<DIM, I, R> w; string text; V vals;

    void values(istream& a){ size_t n; a >> n; vals.resize(n); for (auto& x : vals) a >> x; }
    template <class Box> string wr(istream& a){
        values(a); Box b; b.alloc(m); It i = vals.begin(); b.in(i);
        if (i != vals.end()) refuse("number of values");
        V before; b.out(before);
        ostringstream o; b.write(o, w);
        V after; b.out(after);
        Js j; j.kv("kept", jbool(before == after)).kv("same", jbool(before == vals)).kv("text", jstr(o.str())); return j.str();
    }
    // read: the container gets n cells holding the given values, then the text is read
    template <class Box> string rd(istream& a, bool file, bool twice){
        Mesh n; size_t k, v, fc; a >> k >> v >> fc; n.getCells().resize(k); n.getVertices().resize(v); n.template getElements<DIM - 1>().resize(fc);
        values(a); Box b; b.alloc(n); It i = vals.begin(); b.in(i);
        if (i != vals.end()) refuse("number of values");
        string s; getline(a, s); s = unbar(s.substr(1));
        if (file) { string p = scratch + "/d.vtk"; { ofstream f(p); f << s; } ifstream f(p); if (twice) { Box b0(b); b0.template read<I>(f); } b.template read<I>(f); remove(p.c_str()); }
        else { istringstream f(s); if (twice) { Box b0(b); b0.template read<I>(f); } b.template read<I>(f); }
        V out; b.out(out); Js j; j.kv("got", jarr(out)); return j.str();
    }
    // the whole path: mesh and data in one file, the mesh loaded, the data read into containers of the loaded mesh
    template <class Box> string rt(istream& a, bool file){
        string title; a >> title; for (auto& ch : title) if (ch == '_') ch = ' ';
        values(a); Box b; b.alloc(m); It i = vals.begin(); b.in(i);
        if (i != vals.end()) refuse("number of values");
        ostringstream o; VTKMeshWriter<DIM, I, R> vw; vw.writeHeader(o, title); vw.writeToStream(o, m, t); b.write(o, vw);
        Mesh n; VTKMeshReader<DIM> r; Box c;
        if (file) { string p = scratch + "/r.vtk"; { ofstream f(p); f << o.str(); } ifstream f(p); r.loadFromStream(f, n); c.alloc(n); c.template read<I>(f); remove(p.c_str()); }
        else { istringstream f(o.str()); r.loadFromStream(f, n); c.alloc(n); c.template read<I>(f); }
        V out; c.out(out);
        Js j; j.kv("n", n.getCells().size()).kv("nv", n.getVertices().size()).kv("nf", n.template getElements<DIM - 1>().size()).kv("got", jarr(out)); return j.str();
    }
    template <class Box> string doit(const string& c, istream& a){
        if (c == "write") return wr<Box>(a);
        string via; a >> via;
        if (c == "read") return rd<Box>(a, via[0] == 'f', via.size() > 1);
        if (c == "rt") return rt<Box>(a, via == "f");
        refuse("command " + c);
    }
    string run(const string& c, istream& a) override {
        if (c == "new") return "{}";
        if (c == "mesh") {
            RawBuild<Mesh>::build(m, a); m.initializeCenters(); m.updateSignature();
            int n; a >> n; t.template getDataByPos<0>().resize(n);
            for (int k = 0; k < n; k++) { int x; a >> x; t.template getDataByPos<0>()[k] = ET(x); }
            ostringstream o; w.writeHeader(o, "x"); w.writeToStream(o, m, t);
            Js j; j.kv("n", w.getNumberOfCells()).kv("m", dumpMesh(m)); return j.str();
        }
        int cfg; a >> cfg;
        switch (cfg) {
            case 0: return doit<Single<A>>(c, a);
            case 1: return doit<Plain<A, 1, DIM>>(c, a);
            case 2: return doit<Plain<B, 1, DIM>>(c, a);
            case 3: return doit<Plain<C, 1, DIM>>(c, a);
            case 4: return doit<Plain<tuple<A, B>, 2, DIM, DIM>>(c, a);
            case 5: return doit<Plain<tuple<double, D, int>, 3, DIM, DIM, 0>>(c, a);
            case 6: return doit<Bound>(c, a);
            case 7: return doit<Tuple>(c, a);
            case 8: return doit<Bound2>(c, a);
            case 9: return doit<Single<S>>(c, a);
            case 10: return doit<Plain<tuple<S, C, D>, 3, DIM, DIM, DIM>>(c, a);
            case 11: return doit<Plain<tuple<C, double>, 2, DIM, DIM - 1>>(c, a);
        }
        refuse("cfg");
    }
};
int main(int argc, char** argv){
    string tmpl = string(argc > 1 ? argv[1] : "/tmp") + "/gtmdata.XXXXXX";
    if (!mkdtemp(&tmpl[0])) refuse("mkdtemp");
    scratch = tmpl;
    unique_ptr<Base> b; string line;
    while (getline(cin, line)) {
        if (line.empty()) continue;
        istringstream ss(line); string c; ss >> c;
        if (c == "new") { int k; ss >> k; if (k) b.reset(new Session<unsigned int, float>); else b.reset(new Session<size_t, double>); }
        string r;
        try { r = b->run(c, ss); if (r != "{}") r = r.substr(0, r.size() - 1) + ",\"err\":0}"; else r = "{\"err\":0}"; }
        catch (const std::exception& e) { Js j; j.kv("err", 1).kv("what", jstr(e.what())); r = j.str(); }
        cout << r << "\n";
    }
    rmdir(scratch.c_str());
}
