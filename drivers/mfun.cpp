// Connectivity queries on meshes built element by element. -DDIM=2|3|4 -DGROUP=1 (apply, connections) 2 (neighbours) 3 (colouring)
#include "meshlib.h"
#include <GTMesh/UnstructuredMesh/MeshFunctions/MeshFunctions.h>
using namespace std;

struct Base { virtual ~Base(){} virtual string run(const string& c, istream& a) = 0; };
template <class L> string lists(const L& l){
    ostringstream o; o << "["; bool f = true;
    for (const auto& q : l) { if (!f) o << ","; f = false; o << "["; bool g = true; for (const auto& x : q) { if (!g) o << ","; g = false; o << long(x.index); } o << "]"; }
    o << "]"; return o.str();
}
template <unsigned A, unsigned B, bool Same = (A == B)> struct Two;
template <unsigned A, unsigned B> struct Two<A, B, true> { template <class M> static string run(const M&, const string&, istream&){ refuse("equal dimensions"); } };
template <class M> struct IndexOf;
template <unsigned D, class I, class R, unsigned... Res> struct IndexOf<UnstructuredMesh<D, I, R, Res...>> { using type = I; };

template <unsigned S, unsigned T, bool Desc = (S > T)> struct One { template <class M> static string run(const M&){ return "[]"; } };
template <unsigned S, unsigned T> struct One<S, T, true> { template <class M> static string run(const M& m){
    ostringstream o; o << "["; using I = typename IndexOf<M>::type;
    for (size_t k = 0; k < m.template getElements<S>().size(); k++) {
        o << (k ? ",[" : "["); bool f = true;
        auto fn = [&](I a, I b){ o << (f ? "[" : ",[") << enc(a) << "," << enc(b) << "]"; f = false; };
        if (k % 2) m.template apply<S, T>(I(k), fn); else MeshApply<S, T>::apply(I(k), m, fn);
        o << "]";
    }
    o << "]"; return o.str();
} };
template <unsigned S, unsigned T> struct Two<S, T, false> {
    template <class M> static string run(const M& m, const string& c, istream& a){
        using I = typename IndexOf<M>::type;
        Js j;
#if GROUP == 1
        if (c == "apply") {
            ostringstream o; o << "["; bool f = true;
            MeshApply<S, T>::apply(m, [&](I x, I y){ o << (f ? "[" : ",[") << enc(x) << "," << enc(y) << "]"; f = false; });
            o << "]";
            // the functor may be any callable: also a function object kept by reference
            size_t n = 0; std::function<void(I, I)> fn = [&n](I, I){ n++; };
            m.template apply<S, T>(fn);
            return j.kv("pairs", o.str()).kv("n", n).kv("ones", One<S, T>::run(m)).str();
        }
        if (c == "conn") {
            string o; a >> o;
            if (o == "A") return j.kv("lists", lists(MeshConnections<S, T>::connections(m).template getDataByPos<0>()))
                          .kv("lists2", lists(m.template connections<S, T>().template getDataByPos<0>())).str();
            auto q = MeshConnections<S, T, ORDER_ORIGINAL>::connections(m);
            return j.kv("lists", lists(q.template getDataByPos<0>())).kv("lists2", lists(m.template connections<S, T, ORDER_ORIGINAL>().template getDataByDim<S>())).str();
        }
#endif
#if GROUP == 3
        if (c == "col") {
            string meth; a >> meth;
            if (meth == "G") return j.kv("col", jarr(MeshColoring<S, T>::color(m).template getDataByPos<0>())).kv("col2", jarr(m.template coloring<S, T>().template getDataByDim<S>())).str();
            unsigned seed; a >> seed;
            if (meth == "D") { auto q = MeshColoring<S, T, METHOD_RANDOM>::color(m); return j.kv("col", jarr(q.template getDataByPos<0>())).kv("col2", jarr(m.template coloring<S, T, METHOD_RANDOM>().template getDataByPos<0>())).str(); }
            auto q = MeshColoring<S, T, METHOD_RANDOM>::color(m, seed);
            MeshColoring<S, T, METHOD_RANDOM>::color(m, seed + 1);
            auto q2 = m.template coloring<S, T, METHOD_RANDOM>(seed);
            return j.kv("col", jarr(q.template getDataByPos<0>())).kv("col2", jarr(q2.template getDataByPos<0>())).str();
        }
#endif
        refuse("command " + c);
    }
};
#if GROUP == 2
template <unsigned S, unsigned C, unsigned T, bool Bad = (S == C || C == T)> struct Three { template <class M> static string run(const M&, istream&){ refuse("equal dimensions"); } };
template <unsigned S, unsigned C, unsigned T> struct Three<S, C, T, false> {
    template <class M> static string run(const M& m, istream& a){
        string o; a >> o; Js j;
        if (o == "A") {
            auto q = MeshNeighborhood<S, C, T>::neighbors(m);
            return j.kv("lists", lists(q.template getDataByPos<0>())).kv("lists2", lists(m.template neighborhood<S, C, T>().template getDataByPos<0>())).str();
        }
        // the connections it goes through (judged by M08)
        j.kv("first", lists(MeshConnections<S, C, ORDER_ORIGINAL>::connections(m).template getDataByPos<0>()))
         .kv("second", lists(MeshConnections<C, T, ORDER_ORIGINAL>::connections(m).template getDataByPos<0>()));
        return j.kv("lists", lists(MeshNeighborhood<S, C, T, ORDER_ORIGINAL>::neighbors(m).template getDataByPos<0>()))
                .kv("lists2", lists(m.template neighborhood<S, C, T, ORDER_ORIGINAL>().template getDataByPos<0>())).str();
    }
};
template <unsigned S, unsigned C, unsigned T> struct Disp3 {
    template <class M> static string run(const M& m, unsigned s, unsigned c, unsigned t, istream& a){
        if (s == S && c == C && t == T) return Three<S, C, T>::run(m, a);
        return Disp3<(T ? S : C ? S : S - 1), (T ? C : C ? C - 1 : DIM), (T ? T - 1 : DIM)>::run(m, s, c, t, a);
    }
};
template <> struct Disp3<0, 0, 0> { template <class M> static string run(const M&, unsigned, unsigned, unsigned, istream&){ refuse("dimensions"); } };
#endif
template <unsigned S, unsigned T> struct Disp2 {
    template <class M> static string run(const M& m, unsigned s, unsigned t, const string& c, istream& a){
        if (s == S && t == T) return Two<S, T>::run(m, c, a);
        return Disp2<(T ? S : S - 1), (T ? T - 1 : DIM)>::run(m, s, t, c, a);
    }
};
template <> struct Disp2<0, 0> { template <class M> static string run(const M&, unsigned, unsigned, const string&, istream&){ refuse("dimensions"); } };

template <class Mesh> struct Session : Base {
    Mesh m;
    string run(const string& c, istream& a) override {
        try {
            if (c == "raw") { RawBuild<Mesh>::build(m, a); return "{\"m\":" + dumpMesh(m) + ",\"err\":0}"; }
            if (c == "empty") { return "{\"m\":" + dumpMesh(m) + ",\"err\":0}"; }
            if (c == "dump") { return "{\"m\":" + dumpMesh(m) + ",\"err\":0}"; }
            string r; unsigned s, t, k;
#if GROUP == 2
            a >> s >> k >> t; r = Disp3<DIM, DIM, DIM>::run(m, s, k, t, a);
#else
            a >> s >> t; r = Disp2<DIM, DIM>::run(m, s, t, c, a);
#endif
            r.pop_back();
            return r + ",\"err\":0}";
        } catch (const std::exception& e) { return "{\"err\":1,\"what\":" + jstr(e.what()) + "}"; }
    }
};
static Base* make(int cfg){
    switch (cfg) {
        case 0: return new Session<UnstructuredMesh<DIM, size_t, double>>;
#if DIM == 2
        case 1: return new Session<UnstructuredMesh<DIM, unsigned short, float>>;
#elif DIM == 3
        case 1: return new Session<UnstructuredMesh<DIM, unsigned int, float, 12>>;
#else
        case 1: return new Session<UnstructuredMesh<DIM, int, float, 6, 4>>;
#endif
    }
    refuse("cfg");
}
int main(){
    unique_ptr<Base> b; string line;
    while (getline(cin, line)) {
        if (line.empty()) continue;
        istringstream ss(line); string c; ss >> c;
        if (c == "new") { int k; ss >> k; b.reset(make(k)); ss >> c; }
        cout << b->run(c, ss) << "\n";
    }
}
