// Common part of the generated T02 drivers.
#include <GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h>
#include <GTMesh/NumericStaticArray/Vector.h>
#include <iostream>
#include <sstream>
#include <memory>
#include <string>
#include <vector>
#include <cmath>
#include <cstdlib>
// A symbolic value: its operations record the term, so that a result holds for all operand values.
struct Sym {
    std::string t;
    Sym(std::string s = "?") : t(std::move(s)) {}
};
template <class T> using Num = typename std::enable_if<std::is_arithmetic<T>::value, Sym>::type;
template <class T> std::string numText(const T& x) { std::ostringstream o; o << x; return o.str(); }
#define SYM_OP(op) \
    inline Sym operator op(const Sym& a, const Sym& b) { return Sym("(" + a.t + #op + b.t + ")"); } \
    template <class T> Num<T> operator op(const Sym& a, const T& b) { return Sym("(" + a.t + #op + numText(b) + ")"); }
SYM_OP(+) SYM_OP(-) SYM_OP(*) SYM_OP(/)
template <class T> Num<T> operator*(const T& b, const Sym& a) { return b == T(-1) ? Sym("(-" + a.t + ")") : a * b; }
inline Sym operator-(const Sym& a) { return Sym("(-" + a.t + ")"); }
inline Sym& operator+=(Sym& a, const Sym& b) { return a = a + b; }
inline Sym& operator-=(Sym& a, const Sym& b) { return a = a - b; }
template <class T> Sym& operator*=(Sym& a, const T& b) { return a = a * b; }
template <class T> Sym& operator/=(Sym& a, const T& b) { return a = a / b; }
#define SYM_FUN(f) inline Sym f(const Sym& a) { return Sym(#f "(" + a.t + ")"); }
SYM_FUN(exp) SYM_FUN(log) SYM_FUN(log2) SYM_FUN(log10) SYM_FUN(sqrt) SYM_FUN(cbrt) SYM_FUN(abs)
template <class T> Num<T> pow(const Sym& a, const T& b) { return Sym("pow(" + a.t + "," + numText(b) + ")"); }
template <class T> Num<T> pow(const T& a, const Sym& b) { return Sym("pow(" + numText(a) + "," + b.t + ")"); }

[[noreturn]] inline void refuse(const std::string& m) { std::cout << std::flush; std::cerr << m << "\n"; std::_Exit(77); }
inline std::string show(const Sym& s) { return "\"" + s.t + "\""; }
template <class T> typename std::enable_if<std::is_arithmetic<T>::value, std::string>::type show(const T& x) {
    long double v = x;
    if (!(v > -2e9L && v < 2e9L)) return "[2000000000,1]";
    int k = 0;
    while (v != std::floor(v) && k < 40) { v *= 2; k++; }
    if (!(v > -2e9L && v < 2e9L) || k > 30) return "[2000000000,2]";
    return "[" + std::to_string((long)v) + "," + std::to_string(k) + "]";
}
inline void put(Sym& s, std::istream& in) { if (!(in >> s.t)) refuse("symbol"); }
template <class T> typename std::enable_if<std::is_arithmetic<T>::value>::type put(T& x, std::istream& in) {
    long n; int k;
    if (!(in >> n >> k)) refuse("number");
    x = static_cast<T>(std::ldexp(static_cast<long double>(n), -k));
}
struct Base {
    virtual ~Base() {}
    virtual std::string start() = 0;
    virtual std::string poke(int d, std::istream& in) = 0;
    virtual std::string exec(int s) = 0;
};
