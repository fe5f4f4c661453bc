// Values of generated types as words of text: read from the input and shown.
// IO_PRINTED: shown as the leaves of a printed variable (text for characters, decimal numbers, iteration order).
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h>
#include <GTMesh/NumericStaticArray/Vector.h>
#include <GTMesh/NumericStaticArray/Vertex.h>
#include <algorithm>
#include <array>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <forward_list>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <valarray>
#include <vector>
[[noreturn]] inline void refuse(const std::string& m) { std::cout << std::flush; std::cerr << m << "\n"; std::_Exit(77); }
inline std::string word(std::istream& in) { std::string s; if (!(in >> s)) refuse("value expected"); return s; }
inline size_t count(std::istream& in) { return std::stoul(word(in)); }
enum class Level : short { low = -3, mid = 0, high = 700 };
enum class Strong : int { no, yes };
enum Plain { zero, one, many = 1000000 };
template <class T, class = void> struct IO;
template <class T> std::string show(const T& x) { return IO<T>::show(x); }
template <class T> void put(T& x, std::istream& in) { IO<T>::put(x, in); }
#ifdef IO_PRINTED
template <> struct IO<char> {
    static std::string show(const char& x) { char b[16]; std::snprintf(b, sizeof b, "\"h.%x\"", (unsigned) (unsigned char) x); return b; }
    static void put(char& x, std::istream& in) { std::string s = word(in); x = (char) std::stoul(s.substr(2), nullptr, 16); }
};
template <> struct IO<const char*> {
    static std::string show(const char* const& x) { std::string s = "\"h"; for (const char* p = x; *p; ++p) s += IO<char>::show(*p).substr(2, std::string::npos), s.pop_back(); return s + "\""; }
    static void put(const char*& x, std::istream& in);
};
#endif
// numbers
template <class T> struct IO<T, std::enable_if_t<std::is_integral<T>::value>> {
    static std::string show(const T& x) {
#ifdef IO_PRINTED
        if (std::is_same<T, bool>::value) return x ? "\"true\"" : "\"false\"";
#endif
        unsigned char c; std::memcpy(&c, &x, 1);
        if (std::is_same<T, bool>::value) return "\"" + std::to_string((int) c) + "\"";     // also for an invalid bool
        return std::is_unsigned<T>::value ? "\"" + std::to_string((unsigned long long) x) + "\"" : "\"" + std::to_string((long long) x) + "\"";
    }
    static void put(T& x, std::istream& in) { std::string s = word(in); x = std::is_unsigned<T>::value ? (T) std::stoull(s) : (T) std::stoll(s); }
};
template <class T> struct IO<T, std::enable_if_t<std::is_floating_point<T>::value>> {
    static std::string show(const T& x) {
#ifdef IO_PRINTED
        char b[64]; std::snprintf(b, sizeof b, "\"%.5Le\"", (long double) x); return b;
#else
        char b[64]; std::snprintf(b, sizeof b, "\"%La\"", (long double) x); return b;
#endif
    }
    static void put(T& x, std::istream& in) { std::string s = word(in); x = (T) std::strtold(s.c_str(), nullptr); }
};
template <class T> struct IO<T, std::enable_if_t<std::is_enum<T>::value>> {
    using U = std::underlying_type_t<T>;
    static std::string show(const T& x) { return IO<U>::show((U) x); }
    static void put(T& x, std::istream& in) { U u; IO<U>::put(u, in); x = (T) u; }
};
#ifdef IO_PRINTED
inline void IO<const char*>::put(const char*& x, std::istream& in) { static std::list<std::string> pool; std::string s = word(in); pool.emplace_back(); for (size_t p = s.find('.'); p != std::string::npos; p = s.find('.', p + 1)) pool.back().push_back((char) std::stoul(s.substr(p + 1), nullptr, 16)); x = pool.back().c_str(); }
template <size_t N> struct IO<char[N]> {
    static std::string show(const char (&x)[N]) { return IO<const char*>::show(x); }
    static void put(char (&x)[N], std::istream& in) { const char* s; IO<const char*>::put(s, in); if (std::strlen(s) >= N) refuse("size"); std::strcpy(x, s); }
};
#endif
// text: h and the characters in hexadecimal, separated by dots
template <class C> struct IO<std::basic_string<C>> {
    static std::string show(const std::basic_string<C>& x) { std::ostringstream o; o << "\"h" << std::hex; for (C c : x) o << "." << (unsigned long) (std::make_unsigned_t<std::conditional_t<std::is_same<C, wchar_t>::value, int, std::conditional_t<std::is_same<C, char16_t>::value, short, C>>>) c; o << "\""; return o.str(); }
    static void put(std::basic_string<C>& x, std::istream& in) { x.clear(); std::string s = word(in); for (size_t p = s.find('.'); p != std::string::npos; p = s.find('.', p + 1)) x.push_back((C) std::stoul(s.substr(p + 1), nullptr, 16)); }
};
// sequences and arrays
// long texts are shown by their length and hash
inline std::string digest(const std::string& s, size_t n) { if (n < 3000) return s; unsigned long h = 1469598103934665603ul; for (unsigned char c : s) h = (h ^ c) * 1099511628211ul; std::string d = "\"long " + std::to_string(n) + " " + std::to_string(h) + "\""; return s[0] == '[' ? "[" + d + "]" : d; }
template <class It> std::string showAll(It b, It e) { size_t n = 0; std::string s = "["; for (bool first = true; b != e; ++b, first = false, ++n) s += (first ? "" : ",") + show<typename std::iterator_traits<It>::value_type>(*b); return digest(s + "]", n); }
template <class T> struct Seq {
    static std::string show(const T& x) { return showAll(std::begin(x), std::end(x)); }
    static void put(T& x, std::istream& in) { T n; for (size_t k = count(in); k > 0; k--) { typename T::value_type v{}; ::put(v, in); n.insert(n.end(), v); } x = n; }
};
template <class T> struct Unordered : Seq<T> {
#ifndef IO_PRINTED
    static std::string show(const T& x) { std::vector<std::string> v; for (const auto& e : x) v.push_back(::show(e)); std::sort(v.begin(), v.end()); std::string s = "["; for (const auto& e : v) s += (s.size() > 1 ? "," : "") + e; return digest(s + "]", v.size()); }
#endif
};
template <class T> struct MapIO : Seq<T> {
    static void put(T& x, std::istream& in) { T n; for (size_t k = count(in); k > 0; k--) { std::pair<typename T::key_type, typename T::mapped_type> v{}; ::put(v, in); n.insert(v); } x = n; }
};
template <class T> struct UnorderedMap : Unordered<T> { static void put(T& x, std::istream& in) { MapIO<T>::put(x, in); } };
template <class T> struct IO<std::vector<T>> : Seq<std::vector<T>> {};
template <class T> struct IO<std::deque<T>> : Seq<std::deque<T>> {};
template <class T> struct IO<std::list<T>> : Seq<std::list<T>> {};
template <class T> struct IO<std::set<T>> : Seq<std::set<T>> {};
template <class T> struct IO<std::multiset<T>> : Seq<std::multiset<T>> {};
template <class T> struct IO<std::unordered_set<T>> : Unordered<std::unordered_set<T>> {};
template <class T> struct IO<std::unordered_multiset<T>> : Unordered<std::unordered_multiset<T>> {};
template <class K, class T> struct IO<std::map<K, T>> : MapIO<std::map<K, T>> {};
template <class K, class T> struct IO<std::multimap<K, T>> : MapIO<std::multimap<K, T>> {};
template <class K, class T> struct IO<std::unordered_map<K, T>> : UnorderedMap<std::unordered_map<K, T>> {};
template <class K, class T> struct IO<std::unordered_multimap<K, T>> : UnorderedMap<std::unordered_multimap<K, T>> {};
template <class T> struct IO<std::valarray<T>> {
    static std::string show(const std::valarray<T>& x) { return showAll(std::begin(x), std::end(x)); }
    static void put(std::valarray<T>& x, std::istream& in) { x.resize(count(in)); for (size_t k = 0; k < x.size(); k++) ::put(x[k], in); }
};
template <class T> struct IO<std::forward_list<T>> {
    static std::string show(const std::forward_list<T>& x) { return showAll(x.begin(), x.end()); }
    static void put(std::forward_list<T>& x, std::istream& in) { std::vector<T> v; ::put(v, in); x.assign(v.begin(), v.end()); }
};
template <class T, size_t N> struct IO<std::array<T, N>> {
    static std::string show(const std::array<T, N>& x) { return showAll(x.begin(), x.end()); }
    static void put(std::array<T, N>& x, std::istream& in) { if (count(in) != N) refuse("size"); for (T& e : x) ::put(e, in); }
};
template <unsigned int D, class T> struct IO<Vertex<D, T>> {
    static std::string show(const Vertex<D, T>& x) { return showAll(x.begin(), x.end()); }
    static void put(Vertex<D, T>& x, std::istream& in) { if (count(in) != D) refuse("size"); for (T& e : x) ::put(e, in); }
};
// pairs, tuples, mesh data
template <class A, class B> struct IO<std::pair<A, B>> {
    static std::string show(const std::pair<A, B>& x) { return "[" + ::show<std::remove_const_t<A>>(x.first) + "," + ::show(x.second) + "]"; }
    static void put(std::pair<A, B>& x, std::istream& in) { ::put(x.first, in); ::put(x.second, in); }
};
template <class... A> struct IO<std::tuple<A...>> {
    template <size_t... I> static std::string all(const std::tuple<A...>& x, std::index_sequence<I...>) { std::string s; int d[] = {(s += (I ? "," : "") + ::show(std::get<I>(x)), 0)...}; (void) d; return s; }
    template <size_t... I> static void get(std::tuple<A...>& x, std::istream& in, std::index_sequence<I...>) { int d[] = {(::put(std::get<I>(x), in), 0)...}; (void) d; }
    static std::string show(const std::tuple<A...>& x) { return "[" + all(x, std::index_sequence_for<A...>{}) + "]"; }
    static void put(std::tuple<A...>& x, std::istream& in) { get(x, in, std::index_sequence_for<A...>{}); }
};
template <class T, unsigned int... D> struct IO<MeshDataContainer<T, D...>> {
    using M = MeshDataContainer<T, D...>;
    template <class V> static std::string one(const V& v) { return showAll(v.begin(), v.end()); }
    template <class V> static void read(V& v, std::istream& in) { v.resize(count(in)); for (size_t k = 0; k < v.size(); k++) ::put(v[k], in); }
    template <size_t... I> static std::string all(const M& x, std::index_sequence<I...>) { std::string s; int d[] = {(s += (I ? "," : "") + one(x.template getDataByPos<I>()), 0)...}; (void) d; return s; }
    template <size_t... I> static void get(M& x, std::istream& in, std::index_sequence<I...>) { int d[] = {(read(x.template getDataByPos<I>(), in), 0)...}; (void) d; }
    static std::string show(const M& x) { return "[" + all(x, std::make_index_sequence<sizeof...(D)>{}) + "]"; }
    static void put(M& x, std::istream& in) { get(x, in, std::make_index_sequence<sizeof...(D)>{}); }
};
