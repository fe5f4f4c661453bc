// T03: vectors of all dimensions and real types; orthogonalisation.
#include <GTMesh/NumericStaticArray/Vector.h>
#include <GTMesh/NumericStaticArray/Vertex.h>
#include <GTMesh/NumericStaticArray/GramSchmidt.h>
#include <iostream>
#include <sstream>
#include <memory>
#include <tuple>
#include <string>
#include <vector>
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <new>
using namespace std;
[[noreturn]] static void refuse(const string& m) { cout << flush; cerr << m << "\n"; _Exit(77); }
template <class T> string show(const T& x) {
    long double v = x;
    if (!(v > -2e9L && v < 2e9L)) return "[2000000000,1]";
    int k = 0;
    while (v != floor(v) && k < 40) { v *= 2; k++; }
    if (!(v > -2e9L && v < 2e9L) || k > 30) return "[2000000000,2]";
    return "[" + to_string((long)v) + "," + to_string(k) + "]";
}
static string near(long double v) { return v > -2e9L && v < 2e9L ? to_string((long)llroundl(v)) : string("2000000000"); }
struct Base { virtual ~Base() {} virtual string run(const string& op, istream& in) = 0; };
template <unsigned D, class R> struct H : Base {
    using V = Vertex<D, R>;
    V v[3];
    static R num(istream& in) { long n; int k; if (!(in >> n >> k)) refuse("number"); return static_cast<R>(ldexp((long double)n, -k)); }
    static int rd(istream& in) { int n; if (!(in >> n)) refuse("argument"); return n; }
    // constructs a vector from a list in memory holding other values
    template <class... A> static V made(int way, const V& old, A... a) {
        alignas(V) unsigned char mem[sizeof(V)];
        memset(mem, 0x41, sizeof mem);
        if (way == 0) return *new (mem) V{a...};
        if (way == 1) { V t(old); V& r = (t = initializer_list<R>{a...}); return r; }
        V* p = new (mem) V(initializer_list<R>{a...});
        return *p;
    }
    static V init(int way, const V& o, const vector<R>& x) {
        switch (x.size()) {
        case 0: return made(way, o);
        case 1: return made(way, o, x[0]);
        case 2: return made(way, o, x[0], x[1]);
        case 3: return made(way, o, x[0], x[1], x[2]);
        case 4: return made(way, o, x[0], x[1], x[2], x[3]);
        case 5: return made(way, o, x[0], x[1], x[2], x[3], x[4]);
        default: refuse("list"); }
    }
    // a scalar of a type of the kind
    template <class F> static void withScalar(istream& in, F f) {
        long n; int k; string kind; int type;
        if (!(in >> n >> k >> kind >> type)) refuse("scalar");
        long double x = ldexp((long double)n, -k);
        if (kind == "i") switch (type % 3) { case 0: f((int)x); break; case 1: f((long)x); break; default: f((short)x); }
        else switch (type % 3) { case 0: f((double)x); break; case 1: f((float)x); break; default: f((long double)x); }
    }
    template <unsigned E> typename enable_if<E == 3, Vertex<E, R>>::type cross(const Vertex<E, R>& a, const Vertex<E, R>& b) { return vectorProduct(a, b); }
    template <unsigned E> typename enable_if<E != 3, Vertex<E, R>>::type cross(const Vertex<E, R>&, const Vertex<E, R>&) { refuse("cross"); }
    string run(const string& op, istream& in) override {
        string x; bool self = true;
        if (op == "new") { for (V& a : v) for (R& c : a) c = num(in); }
        else if (op == "init") { int d = rd(in) - 1, way = rd(in), n = rd(in); vector<R> l; while (n--) l.push_back(num(in)); v[d] = init(way, v[d], l); }
        else if (op == "put") { int d = rd(in) - 1, j = rd(in) - 1; v[d][j] = num(in); }
        else if (op == "bin") { int d = rd(in) - 1; string o; in >> o; const V& a = v[rd(in) - 1]; const V& b = v[rd(in) - 1]; V r = o == "+" ? a + b : a - b; v[d] = r; }
        else if (op == "cmp") { int d = rd(in) - 1; string o; in >> o; const V& b = v[rd(in) - 1]; V& r = o == "+" ? (v[d] += b) : (v[d] -= b); self = &r == &v[d]; }
        else if (op == "scale") { int d = rd(in) - 1; string o; in >> o; const V& a = v[rd(in) - 1]; withScalar(in, [&](auto s) { V r = o == "*" ? a * s : a / s; v[d] = r; }); }
        else if (op == "left") { int d = rd(in) - 1; const V& a = v[rd(in) - 1]; R s = num(in); V r = s * a; v[d] = r; }
        else if (op == "scaleby") { int d = rd(in) - 1; string o; in >> o; withScalar(in, [&](auto s) { V& r = o == "*" ? (v[d] *= s) : (v[d] /= s); self = &r == &v[d]; }); }
        else if (op == "own") { int d = rd(in) - 1; string o; in >> o; int j = rd(in) - 1; V& r = o == "*" ? (v[d] *= v[d][j]) : (v[d] /= v[d][j]); self = &r == &v[d]; }
        else if (op == "cross") { int d = rd(in) - 1; const V& a = v[rd(in) - 1]; const V& b = v[rd(in) - 1]; v[d] = cross<D>(a, b); }
        else if (op == "dot") { const V& a = v[rd(in) - 1]; const V& b = v[rd(in) - 1]; x = show(a * b); }
        else if (op == "sos") { x = show(v[rd(in) - 1].sumOfSquares()); }
        else if (op == "eq") { const V& a = v[rd(in) - 1]; const V& b = v[rd(in) - 1]; x = string(a == b ? "[1," : "[0,") + (a != b ? "1]" : "0]"); }
        else if (op == "wide") {       // more digits: A = 2^S a + b; the results are split the same way
            const V& a = v[rd(in) - 1]; const V& b = v[rd(in) - 1]; const V& c = v[rd(in) - 1];
            const int S = is_integral<R>::value ? (sizeof(R) > 4 ? 56 : 16) : sizeof(R) == 4 ? 0 : sizeof(R) == 8 ? 30 : 50;
            V A;
            for (unsigned j = 0; j < D; j++) A[j] = (R)ldexp((long double)a[j], S) + b[j];
            auto split = [&](R r) { long double f = is_integral<R>::value ? 1 : 4, hi = nearbyintl((long double)r / ldexp(1.0L, S) * f) / f; return "[" + show(hi) + "," + show((long double)r - ldexp(hi, S)) + "]"; };
            auto all = [&](const V& r) { string t; for (unsigned j = 0; j < D; j++) t += (j ? "," : "") + split(r[j]); return "[" + t + "]"; };
            V s1 = A, s2 = A; s1 += c; s2 -= c; V s3 = A; s3 *= R(3);
            x = "[" + split(A * c) + "," + all(A + c) + "," + all(A - c) + "," + all(A * R(3)) + "," + all(R(3) * A) + "," + all(s1) + "," + all(s2) + "," + all(s3) + "," + string(A == c ? "true" : "false") + "]";
        }
        else if (op == "norm") { x = "[" + near((long double)v[rd(in) - 1].normEuclid() * 256) + "]"; }
        else refuse(op);
        string s = "{\"x\":" + (x.empty() ? "[]" : x) + ",\"self\":" + (self ? "true" : "false") + ",\"v\":[";
        for (int a = 0; a < 3; a++) { s += a ? ",[" : "["; for (unsigned j = 0; j < D; j++) s += (j ? "," : "") + show(v[a][j]); s += "]"; }
        return s + "]}";
    }
};
template <class A> static string arr(const A& a, size_t n, const vector<int>& sc, long double f) {
    string s = "[";
    for (size_t m = 0; m < n; m++) {
        s += m ? ",[" : "[";
        for (size_t c = 0; c < a[m].size(); c++) s += (c ? "," : "") + near(ldexp((long double)a[m][c], -(sc.empty() ? 0 : sc[m])) * f);
        s += "]";
    }
    return s + "]";
}
template <class A> static string squares(const A& a, const vector<int>& sc) {
    string s = "[";
    for (size_t m = 0; m < a.size(); m++) { long double x = ldexp((long double)a[m], -(m < sc.size() ? sc[m] : 0)); s += (m ? "," : "") + near(x * x * 512); }
    return s + "]";
}
template <unsigned N, unsigned D, class I, class R> static string gs(istream& in) {
    vector<int> sc(N);
    array<Vector<D, R>, N> a, an;
    array<R, N> norms;
    for (int& x : sc) in >> x;
    for (unsigned m = 0; m < N; m++) for (unsigned c = 0; c < D; c++) { int x; if (!(in >> x)) refuse("coordinates"); a[m][c] = ldexp((R)x, sc[m]); }
    an = a;
    vector<Vector<D, R>> b(a.begin(), a.end()), bn = b;
    vector<R> vnorms(N % 2 ? 7 : 0, R(5));
    gramSchmidt<N, D, I, R>(a);
    gramSchmidt<N, D, I, R>(an, norms);
    gramSchmidt<D, I, R>(b);
    gramSchmidt<D, I, R>(bn, vnorms);
    if (b.size() != N || bn.size() != N) return "{\"plain\":[[]],\"unit\":[],\"norm2\":[]}";
    return "{\"plain\":[" + arr(a, N, sc, 4096) + "," + arr(b, N, sc, 4096) + "],\"unit\":[" + arr(an, N, {}, 1024) + "," + arr(bn, N, {}, 1024) + "],\"norm2\":[" + squares(norms, sc) + "," + squares(vnorms, sc) + "]}";
}
template <unsigned N, unsigned D, class R> static string gsI(int it, istream& in) {
    using I = typename tuple_element<(N + D + sizeof(R)) % 3, tuple<size_t, int, unsigned char>>::type;
    return it % 2 ? gs<N, D, unsigned, R>(in) : gs<N, D, I, R>(in);
}
template <class R> static string gsR(int n, int d, int it, istream& in) {
    switch (n * 10 + d) {
    case 11: return gsI<1, 1, R>(it, in); case 12: return gsI<1, 2, R>(it, in); case 13: return gsI<1, 3, R>(it, in); case 14: return gsI<1, 4, R>(it, in);
    case 22: return gsI<2, 2, R>(it, in); case 23: return gsI<2, 3, R>(it, in); case 24: return gsI<2, 4, R>(it, in);
    case 33: return gsI<3, 3, R>(it, in); case 34: return gsI<3, 4, R>(it, in); case 44: return gsI<4, 4, R>(it, in); }
    refuse("gs");
}
template <class R> static Base* mk(int d) { switch (d) { case 1: return new H<1, R>; case 2: return new H<2, R>; case 3: return new H<3, R>; case 4: return new H<4, R>; } refuse("dim"); }
int main() {
    unique_ptr<Base> b;
    string line;
    while (getline(cin, line)) {
        if (line.empty()) continue;
        istringstream in(line);
        string op, t; in >> op;
        if (op == "gs") { int n, d, it; in >> t >> n >> d >> it; cout << (t == "double" ? gsR<double>(n, d, it, in) : t == "float" ? gsR<float>(n, d, it, in) : gsR<long double>(n, d, it, in)) << "\n"; continue; }
        if (op == "new") { int d; in >> t >> d; b.reset(t == "double" ? mk<double>(d) : t == "float" ? mk<float>(d) : t == "ldouble" ? mk<long double>(d) : t == "int" ? mk<int>(d) : t == "long" ? mk<long>(d) : (refuse(t), nullptr)); }
        cout << b->run(op, in) << "\n";
    }
}
