// Data containers of several layouts under histories of operations.
#include "meshlib.h"
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerTraits.h>
#include <set>
using namespace std;
// the distinct ones of several views of the content
inline string distinct(const vector<string>& v){ return jarr(set<string>(v.begin(), v.end())); }
template <unsigned P> using Pos = integral_constant<unsigned, P>;
template <unsigned... P> using Seq = integer_sequence<unsigned, P...>;
// values
inline void put(int& x, int k){ x = k; }            inline int get_(const int& x){ return x; }
inline void put(double& x, int k){ x = k * .5; }    inline int get_(const double& x){ return x * 2 == floor(x * 2) && fabs(x) < 1e8 ? int(x * 2) : -1; }
inline void put(char& x, int k){ x = char(k); }     inline int get_(const char& x){ return (unsigned char)x; }
inline void put(string& x, int k){ x = k ? string(20, 's') + to_string(k) : ""; }
inline int get_(const string& x){ return x.empty() ? 0 : x.size() > 20 ? atoi(x.c_str() + 20) : -1; }
inline void put(vector<int>& x, int k){ if (k) x = {k, k + 1}; else x.clear(); }
inline int get_(const vector<int>& x){ return x.empty() ? 0 : x.size() == 2 && x[1] == x[0] + 1 ? x[0] : -1; }
template <class T> T mkv(int k){ T t{}; put(t, k); return t; }
template <class V> string arr(const V& v){ vector<int> o; for (auto& x : v) o.push_back(get_(x)); return jarr(o); }

template <unsigned D> struct ForeignOf;
template <> struct ForeignOf<2>{ using type = MeshDataContainer<char, 2, 1, 0, 1>; };
template <> struct ForeignOf<3>{ using type = MeshDataContainer<char, 3, 2, 1, 0, 1>; };
template <> struct ForeignOf<4>{ using type = MeshDataContainer<char, 4, 3, 2, 1, 0, 1>; };
static const int SZ[4][5] = {{2,1,1,1,1},{1,3,0,2,2},{0,0,0,0,0},{3,2,4,1,3}};
template <class M, unsigned D> struct Fill { static void go(M& m, int k){
    auto& v = m.template getElements<D>(); v.resize(SZ[k][D]); for (size_t i = 0; i < v.size(); i++) v[i].setIndex(i); Fill<M, D - 1>::go(m, k); } };
template <class M> struct Fill<M, 0> { static void go(M& m, int k){ auto& v = m.template getElements<0>(); v.resize(SZ[k][0]); for (size_t i = 0; i < v.size(); i++) v[i].setIndex(i); } };
template <class M, unsigned D> struct Same { static bool go(M& m, int k){
    auto& v = m.template getElements<D>(); bool ok = int(v.size()) == SZ[k][D]; for (size_t i = 0; i < v.size(); i++) ok = ok && size_t(v[i].getIndex()) == i; return ok && Same<M, D - 1>::go(m, k); } };
template <class M> struct Same<M, 0> { static bool go(M& m, int k){ return int(m.template getElements<0>().size()) == SZ[k][0]; } };

struct Base { virtual ~Base(){} virtual string run(istream&) = 0; };

template <class T> struct IsTup : false_type {};
template <class... T> struct IsTup<tuple<T...>> : true_type {};

template <class M, unsigned D, class T, unsigned... Dims>
struct Lay : Base {
    using C = MeshDataContainer<T, Dims...>;
    using Tr = Traits<C>;
    static constexpr unsigned N = sizeof...(Dims);
    template <unsigned P> using VT = typename C::template DataContainerType<P>::type;
    template <unsigned P> using Dim = integral_constant<unsigned, C::template dimensionAt<P>()>;
    M mesh[4]; unique_ptr<C> s[2]; Tr tr;
    Lay(){ for (int k = 0; k < 4; k++) Fill<M, D>::go(mesh[k], k); s[0].reset(new C); s[1].reset(new C); }
    using All = make_integer_sequence<unsigned, N>;
    // ---- element of a dimension with an index: of the mesh when there is one
    template <unsigned d> typename decay<decltype(declval<M>().template getElements<d>()[0])>::type elem(size_t k){
        for (auto& m : mesh) if (m.template getElements<d>().size() > k) return m.template getElements<d>()[k];
        typename decay<decltype(declval<M>().template getElements<d>()[0])>::type e{}; e.setIndex(k); return e;
    }
    template <unsigned p, class F> string list(F f, size_t n){ vector<int> o; for (size_t k = 0; k < n; k++) o.push_back(f(k)); return jarr(o); }
    template <unsigned p> string way(int w, C& c){
        constexpr unsigned d = Dim<p>::value; const C& cc = c; constexpr Seq<p> sq{};
        size_t n = cc.template getDataByDim<d>().size();
        switch (w) {
            case 0: return arr(c.template getDataByPos<p>()); case 1: return arr(cc.template getDataByPos<p>());
            case 2: return arr(c[sq]); case 3: return arr(cc[sq]);
            case 4: return arr(tr.template getValue<p>(cc)); case 5: return arr(tr.template getAttr<p>(c));
            case 10: return arr(c.template getDataByDim<d>()); case 11: return arr(cc.template getDataByDim<d>());
            case 12: return list<p>([&](size_t k){ return get_(c[elem<d>(k)]); }, n); case 13: return list<p>([&](size_t k){ return get_(cc[elem<d>(k)]); }, n);
            case 14: return list<p>([&](size_t k){ return get_(c.at(elem<d>(k))); }, n); case 15: return list<p>([&](size_t k){ return get_(cc.at(elem<d>(k))); }, n);
            case 16: return list<p>([&](size_t k){ ElementIndex<d, size_t> e; e.index = k; return get_(c[e]); }, n);
            case 17: return list<p>([&](size_t k){ ElementIndex<d, size_t> e; e.index = k; return get_(cc[e]); }, n);
        }
        refuse("way");
    }
    template <unsigned... p> string ways(int w, C& c, Seq<p...>){ vector<string> v{way<p>(w, c)...}; return jarr(v); }
    template <unsigned p> int oob1(C& c){
        constexpr unsigned d = Dim<p>::value; auto e = elem<d>(c.template getDataByDim<d>().size()); int k = 0; const C& cc = c;
        try { c.at(e); } catch (const out_of_range&) { k++; } try { cc.at(e); } catch (const out_of_range&) { k++; } return k;
    }
    template <unsigned... p> int oob(C& c, Seq<p...>){ int r = 0; (void)initializer_list<int>{(r += oob1<p>(c))...}; return r; }
    string dump(C& c){
        vector<string> a, b;
        for (int w = 0; w < 6; w++) a.push_back(ways(w, c, All{}));
        for (int w = 10; w < 18; w++) b.push_back(ways(w, c, All{}));
        return Js().kv("p", distinct(a)).kv("d", distinct(b)).kv("oob", oob(c, All{})).str();
    }
    template <unsigned... p> string statics(Seq<p...>){
        vector<unsigned> dims{C::template dimensionAt<p>()...}, di{C::template dimensionIndex<C::template dimensionAt<p>()>()...}, mp{C::template DataContainerType<p>::getMappedDimension()...};
        vector<string> nm{jstr(tr.template getName<p>())...};
        return Js().kv("dims", jarr(dims)).kv("didx", jarr(di)).kv("mapped", jarr(mp)).kv("names", jarr(nm)).kv("size", C::size()).kv("tsize", Tr::size()).str();
    }
    // ---- operations on a position known at run time
    template <class F, unsigned... p> void at(unsigned q, F f, Seq<p...>){ (void)initializer_list<int>{(q == p ? (f(Pos<p>{}), 0) : 0)...}; }
    template <unsigned p> int set(C& c, int w, size_t k, int v){
        constexpr unsigned d = Dim<p>::value;
        try { switch (w) {
            case 0: put(c[elem<d>(k)], v); break; case 1: put(c.at(elem<d>(k)), v); break;
            case 2: { ElementIndex<d, size_t> e; e.index = k; put(c[e], v); break; }
            case 3: put(c.template getDataByDim<d>()[k], v); break; case 4: put(c.template getDataByPos<p>()[k], v); break;
            case 5: put(c[Seq<p>{}][k], v); break; case 6: put(tr.template getAttr<p>(c)[k], v); break; default: refuse("way");
        } } catch (const out_of_range&) { return 1; }
        return 0;
    }
    // plain containers
    template <class U = T, enable_if_t<!IsTup<U>::value, bool> = true> C* ctorI(M& m, int v){ return new C(m, mkv<T>(v)); }
    template <class U = T, enable_if_t<!IsTup<U>::value, bool> = true> void allocI(C& c, M& m, int v){ c.allocateData(m, mkv<T>(v)); }
    template <class U = T, enable_if_t<!IsTup<U>::value, bool> = true> void allocCI(C& c, C& o, int v){ c.allocateData(o, mkv<T>(v)); }
    template <class U = T, enable_if_t<!IsTup<U>::value, bool> = true> C* ctorS(M& m){ return new C(m, Seq<Dims...>{}, T{}); }
    template <class U = T, enable_if_t<!IsTup<U>::value, bool> = true> C* ctorSI(M& m, int v){ return new C(m, mkv<T>(v), Seq<Dims...>{}, T{}); }
    template <class U = T, enable_if_t<!IsTup<U>::value, bool> = true> void foreign(C& c, bool ini, int v, istream& in){
        typename ForeignOf<D>::type f; unsigned k = 0; vector<int> n; int x; while (in >> x) n.push_back(x);
        resizeF(f, n, make_integer_sequence<unsigned, D + 2>{});
        if (ini) c.allocateData(f, mkv<T>(v)); else c.allocateData(f);
        if (!sameF(f, n, make_integer_sequence<unsigned, D + 2>{})) refuse("source changed");
    }
    template <class F, unsigned... p> void resizeF(F& f, const vector<int>& n, Seq<p...>){ (void)initializer_list<int>{(f.template getDataByPos<p>().resize(n.at(p)), 0)...}; }
    template <class F, unsigned... p> bool sameF(F& f, const vector<int>& n, Seq<p...>){ bool ok = true; (void)initializer_list<int>{(ok = ok && int(f.template getDataByPos<p>().size()) == n[p], 0)...}; return ok; }
    // containers of tuples
    template <unsigned... p> C* tctor(M& m, int v, Seq<p...>){ return new C(m, mkv<VT<p>>(v + int(p))...); }
    template <unsigned... p> void talloc(C& c, M& m, int v, Seq<p...>){ c.allocateData(m, mkv<VT<p>>(v + int(p))...); }
    template <unsigned... p> void tallocC(C& c, C& o, int v, Seq<p...>){ c.allocateData(o, mkv<VT<p>>(v + int(p))...); }
    template <class U = T, enable_if_t<IsTup<U>::value, bool> = true> C* ctorI(M& m, int v){ return tctor(m, v, All{}); }
    template <class U = T, enable_if_t<IsTup<U>::value, bool> = true> void allocI(C& c, M& m, int v){ talloc(c, m, v, All{}); }
    template <class U = T, enable_if_t<IsTup<U>::value, bool> = true> void allocCI(C& c, C& o, int v){ tallocC(c, o, v, All{}); }
    template <class U = T, enable_if_t<IsTup<U>::value, bool> = true> C* ctorS(M&){ refuse("ctors"); }
    template <class U = T, enable_if_t<IsTup<U>::value, bool> = true> C* ctorSI(M&, int){ refuse("ctorsi"); }
    template <class U = T, enable_if_t<IsTup<U>::value, bool> = true> void foreign(C&, bool, int, istream&){ refuse("foreign"); }

    string run(istream& in) override {
        string op; in >> op; int err = 0;
        if (op == "new") {
            string st = statics(All{});
            return st.substr(0, st.size() - 1) + ",\"s\":[" + dump(*s[0]) + "," + dump(*s[1]) + "]}";
        }
        int a = 0; in >> a; a--; unique_ptr<C>& x = s[a]; auto rd = [&]{ int k = 0; if (!(in >> k)) refuse("args"); return k; };
        if (op == "def") x.reset(new C);
        else if (op == "ctor") x.reset(new C(static_cast<const M&>(mesh[rd() - 1])));
        else if (op == "ctors") x.reset(ctorS(mesh[rd() - 1]));
        else if (op == "ctori") { int m = rd(); x.reset(ctorI(mesh[m - 1], rd())); }
        else if (op == "ctorsi") { int m = rd(); x.reset(ctorSI(mesh[m - 1], rd())); }
        else if (op == "am") x->allocateData(static_cast<const M&>(mesh[rd() - 1]));
        else if (op == "ami") { int m = rd(); allocI(*x, mesh[m - 1], rd()); }
        else if (op == "af") foreign(*x, false, 0, in);
        else if (op == "afi") { int v = rd(); foreign(*x, true, v, in); }
        else if (op == "ac") x->allocateData(*s[rd() - 1]);
        else if (op == "aci") { int b = rd(); allocCI(*x, *s[b - 1], rd()); }
        else if (op == "set") { int w = rd(), p = rd(), k = rd(), v = rd(); at(p - 1, [&](auto P){ err = this->template set<decltype(P)::value>(*x, w, k, v); }, All{}); }
        else if (op == "res") { int p = rd(), n = rd(), v = rd(); at(p - 1, [&](auto P){ constexpr unsigned q = decltype(P)::value; x->template getDataByPos<q>().resize(n, mkv<VT<q>>(v)); }, All{}); }
        else if (op == "tset") { int p = rd(), n = rd(), v = rd(); at(p - 1, [&](auto P){ constexpr unsigned q = decltype(P)::value;
            typename C::template DataContainerType<q> d; for (int k = 0; k < n; k++) d.push_back(mkv<VT<q>>(v + k)); tr.template setValue<q>(*x, d); }, All{}); }
        else if (op == "copyc") x.reset(new C(*s[rd() - 1]));
        else if (op == "asg") { const C& o = *s[rd() - 1]; *x = o; }
        else if (op == "movec") { int b = rd(); x.reset(new C(std::move(*s[b - 1]))); s[b - 1].reset(new C); }
        else if (op == "mova") { int b = rd(); *x = std::move(*s[b - 1]); s[b - 1].reset(new C); }
        else if (op == "swap") std::swap(*s[0], *s[1]);
        else refuse(op);
        bool same = true; for (int k = 0; k < 4; k++) same = same && Same<M, D>::go(mesh[k], k);
        return Js().kv("err", err).kv("meshes", jbool(same)).kv("s", "[" + dump(*s[0]) + "," + dump(*s[1]) + "]").str();
    }
};
// names of high dimensions: no mesh has them
struct Names : Base {
    using C = MeshDataContainer<int, 0, 10, 100, 999, 7, 205, 42, 30>; using Tr = Traits<C>; C s[2]; Tr tr;
    template <unsigned p> string way(int w, C& c){ const C& cc = c; constexpr unsigned d = C::template dimensionAt<p>();
        switch (w) { case 0: return arr(c.getDataByPos<p>()); case 1: return arr(cc[Seq<p>{}]); case 2: return arr(tr.template getValue<p>(cc)); case 10: return arr(c.getDataByDim<d>()); default: return arr(cc.getDataByDim<d>()); } }
    template <unsigned... p> string ways(int w, C& c, Seq<p...>){ vector<string> v{way<p>(w, c)...}; return jarr(v); }
    using All = make_integer_sequence<unsigned, 8>;
    string dump(C& c){ vector<string> a, b; for (int w = 0; w < 3; w++) a.push_back(ways(w, c, All{})); for (int w = 10; w < 12; w++) b.push_back(ways(w, c, All{}));
        return Js().kv("p", distinct(a)).kv("d", distinct(b)).kv("oob", 0).str(); }
    template <unsigned... p> string statics(Seq<p...>){
        vector<unsigned> dims{C::template dimensionAt<p>()...}, di{C::template dimensionIndex<C::template dimensionAt<p>()>()...}, mp{C::template DataContainerType<p>::getMappedDimension()...};
        vector<string> nm{jstr(tr.template getName<p>())...};
        return Js().kv("dims", jarr(dims)).kv("didx", jarr(di)).kv("mapped", jarr(mp)).kv("names", jarr(nm)).kv("size", C::size()).kv("tsize", Tr::size()).str();
    }
    template <class F, unsigned... p> void at(unsigned q, F f, Seq<p...>){ (void)initializer_list<int>{(q == p ? (f(Pos<p>{}), 0) : 0)...}; }
    string run(istream& in) override {
        string op; in >> op;
        if (op == "new") { string st = statics(All{}); return st.substr(0, st.size() - 1) + ",\"s\":[" + dump(s[0]) + "," + dump(s[1]) + "]}"; }
        int a, b; in >> a >> b;
        if (op == "asg") s[a - 1] = s[b - 1];
        else if (op == "res") { int n, v; in >> n >> v; at(b - 1, [&](auto P){ s[a - 1].template getDataByPos<decltype(P)::value>().resize(n, v); }, All{}); }
        else refuse(op);
        return Js().kv("err", 0).kv("meshes", "true").kv("s", "[" + dump(s[0]) + "," + dump(s[1]) + "]").str();
    }
};
int main(){
    unique_ptr<Base> b; string line;
    using M3 = UnstructuredMesh<3, size_t, double, 6>; using M2 = UnstructuredMesh<2, unsigned short, float>; using M4 = UnstructuredMesh<4, int, double, 6, 4>;
    while (getline(cin, line)) {
        if (line.empty()) continue;
        istringstream ss(line), s2(line); string op, l; s2 >> op >> l;
        if (op == "new") switch (l[0]) {
            case 'A': b.reset(new Lay<M3, 3, int, 3>); break; case 'B': b.reset(new Lay<M3, 3, int, 0, 1, 2, 3>); break;
            case 'C': b.reset(new Lay<M3, 3, double, 3, 3, 1>); break; case 'D': b.reset(new Lay<M3, 3, tuple<int, double, char, string>, 2, 0, 3, 3>); break;
            case 'E': b.reset(new Lay<M2, 2, tuple<string, vector<int>>, 2, 0>); break; case 'F': b.reset(new Lay<M2, 2, string, 2, 1, 2, 0>); break;
            case 'G': b.reset(new Lay<M3, 3, vector<int>, 1, 3>); break; case 'H': b.reset(new Lay<M4, 4, int, 4, 2, 0>); break;
            case 'I': b.reset(new Lay<M2, 2, tuple<double>, 1>); break;
            case 'J': b.reset(new Names); break; default: refuse("layout"); }
        cout << b->run(ss) << "\n";
    }
}
