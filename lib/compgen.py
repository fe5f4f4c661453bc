"""Generates programs of iteration at compile time (U02)."""
HEAD = r"""
#include "GTMesh/Utils/ConstexprFor.h"
#include "GTMesh/Macros/MacroForEach.h"
#include <iostream>
#include <string>
#include <vector>
#include <cstddef>
using namespace std;
using Pos = vector<string>;
struct Seen { vector<long long> idx; vector<vector<long long>> args; unsigned long long base; };
// by reference, by value and counting
struct Log {
    template <size_t I> static void exec(Seen& s, string text, int& count) {
        s.idx.push_back((long long)(I - size_t(s.base)));
        s.args.push_back({count, (long long)(text == string(60, 't')), count});
        count++;
        text.clear();
    }
};
struct Bare { static vector<long long> idx; template <size_t I> static void exec() { idx.push_back((long long)I); } };
vector<long long> Bare::idx;
static void put(const Seen& s) {
    cout << "{\"out\":[";
    for (size_t k = 0; k < s.idx.size(); k++) cout << (k ? "," : "") << "[" << s.idx[k] << "]";
    cout << "],\"text\":1,\"args\":[";
    for (size_t k = 0; k < s.args.size(); k++) cout << (k ? "," : "") << "[" << s.args[k][0] << "," << s.args[k][1] << "," << s.args[k][2] << "]";
    cout << "]}" << endl;
}
static void put(const vector<Pos>& v, const Pos& expected) {
    cout << "{\"out\":[";
    for (size_t k = 0; k < v.size(); k++) {
        cout << (k ? "," : "") << "[";
        for (size_t q = 0; q < v[k].size(); q++) {
            long long p = -1;
            for (size_t e = 0; e < expected.size(); e++) if (expected[e] == v[k][q]) p = e;
            cout << (q ? "," : "") << p;
        }
        cout << "]";
    }
    cout << "],\"text\":1,\"args\":[]}" << endl;
}
#define P1(x) Pos{#x}
#define P2(x, y) Pos{#x, #y}
#define P3(s, x, y) Pos{#s, #x, #y}
"""


def texts(rng, n):
    forms = [lambda k: "a%d" % k, lambda k: '"s,%d"' % k, lambda k: "(b%d, c%d)" % (k, k), lambda k: "T<%d>()" % k, lambda k: "x.y[%d]" % k,
             lambda k: "%d" % (k + 100), lambda k: "&Cls::m%d" % k, lambda k: "'%c'" % "abcdefgh"[k % 8] + "+%d" % k]
    style = rng.random()
    if style < .3:
        f = rng.choice(forms[:1] + forms[3:])
        return [f(k) for k in range(n + 1)]
    return [rng.choice(forms)(k) for k in range(n + 1)]


def quoted(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def emit(rng, progs):
    """progs: [(program, base)]; base shifts the indices of a loop"""
    o = [HEAD]
    for i, (p, base) in enumerate(progs):
        o.append("static void prog%d() {" % i)
        if p["k"] == "for":
            a, b, s = p["from"] + base, p["to"] + base, p["by"]
            forms = ["constexprFor<Log, %dULL, %dULL, size_t(%d)>(s, string(60, 't'), n);" % (a, b, s), "ConstexprFor<%dULL, %dULL, size_t(%d)>::exec<Log>(s, t, n);" % (a, b, s), "constexprFor<Log, %dULL, %dULL, size_t(%d)>(s, t, n);" % (a, b, s)]
            if s == 1:
                forms += ["constexprFor<Log, %dULL, %dULL>(s, t, n);" % (a, b), "ConstexprFor<%dULL, %dULL>::exec<Log>(s, t, n);" % (a, b)]
                if a == 0: forms += ["constexprFor<Log, %dULL>(s, t, n);" % b, "constexprFor<Log, %dULL>(s, string(60, 't'), n);" % b]
            o.append("    Seen s{{}, {}, %dULL};\n    int n = 0;\n    const string t(60, 't');" % base)
            if base == 0 and rng.random() < .15:
                o.append("    Bare::idx.clear();\n    constexprFor<Bare, %d, %d, size_t(%d)>();\n    s.idx = Bare::idx;" % (a, b, s))
            else:
                o.append("    " + rng.choice(forms))
            o.append("    put(s);")
        else:
            t = texts(rng, p["n"])
            args = ", ".join(t[1:])
            if p["k"] == "triples":
                e = "FOR_EACH_3ARGS_1STAT(P3, %s, %s)" % (t[0], args)
            else:
                m, w = {"each": ("FOR_EACH", "P1"), "even": ("FOR_EACH_EVEN", "P1"), "odd": ("FOR_EACH_ODD", "P1"), "pairs": ("FOR_EACH_2ARGS", "P2")}[p["k"]]
                r = rng.random()
                if r < .2: args = "UNWRAP(WRAP(%s))" % args
                elif r < .3: args = "UNWRAP((%s))" % args
                e = "%s(%s, %s)" % (m, w, args)
            o.append("    put(vector<Pos>{%s}, Pos{%s});" % (e, ", ".join(map(quoted, t))))
        o.append("}")
    o.append("int main() {\n    string w;\n    void (*const all[])() = {%s};\n    while (cin >> w) all[stoul(w)]();\n}" % ", ".join("prog%d" % i for i in range(len(progs))))
    return "\n".join(o)


# ------------------------------------------------------------------------------ descriptions of types (U03)
DHEAD = r"""
#include "GTMesh/Traits/CustomTypeTraits.h"
#include "GTMesh/Traits/FunctionTraits.h"
#include "GTMesh/Utils/ClassSelector.h"
#include <iostream>
#include <string>
#include <vector>
using namespace std;
struct C {};
struct Key {};
@ALIASES@
template <class T> struct Name { static string get() { return "?"; } };
template <> struct Name<void> { static string get() { return "void"; } };
@NAMES@
template <class F, size_t N> using Arg = typename function_traits<F>::template argument_t<N>;
template <class F, size_t N> using Arg2 = typename function_traits<F>::template argument<N>::type;
template <class F, size_t... N> static void sig(index_sequence<N...>) {
    vector<string> v{Name<Arg<F, N>>::get()...}, v2{Name<Arg2<F, N>>::get()...};
    cout << "{\"arity\":" << function_traits<F>::arity << ",\"ret\":\"" << Name<typename function_traits<F>::return_type>::get() << "\",\"args\":[";
    for (size_t k = 0; k < v.size(); k++) cout << (k ? "," : "") << "\"" << (v[k] == v2[k] ? v[k] : "?") << "\"";
    cout << "]}" << endl;
}
template <class F> static void sig() { sig<F>(make_index_sequence<function_traits<F>::arity>()); }
template <class T> static void caps(const char* name) {
    const char* b[] = {"false", "true"};
    cout << "\"" << name << "\":{\"iterable\":" << b[IsIterable<T>::value] << ",\"indexable\":" << b[IsIndexable<T>::value] << ",\"resizable\":" << b[IsResizable<T>::value]
         << ",\"tnlIndexable\":" << b[IsTNLIndexable<T>::value] << ",\"tnlResizable\":" << b[IsTNLResizable<T>::value] << ",\"exportable\":" << b[IsExportable<T>::value] << "}";
}
template <class T> static void cls() { cout << "{"; caps<T>("plain"); cout << ","; caps<const T>("const"); cout << "}" << endl; }
template <int N, bool B> struct Item { static constexpr int number = N; };
template <class V, class I> struct Cond : public false_type {};
template <class V, int N> struct Cond<V, Item<N, true>> : public true_type {};
"""


def alias(t, types):
    return "void" if t == "void" else "A%d" % types.index(t)


def emit_desc(rng, progs, types):
    types = [t for t in dict.fromkeys(types + ["C&", "const C&"]) if t != "void"]
    al = "\n".join("using A%d = %s;" % (i, t) for i, t in enumerate(types))
    nm = "\n".join('template <> struct Name<A%d> { static string get() { return "%s"; } };' % (i, t) for i, t in enumerate(types) if t != "const int")
    o = [DHEAD.replace("@ALIASES@", al).replace("@NAMES@", nm)]
    calls = []
    for i, p in enumerate(progs):
        if p["k"] == "class":
            f = p["f"]
            decl = {"begin": "int* begin()", "end": "int* end()", "index": "int& operator[](size_t)", "size": "size_t size()", "resize": "void resize(size_t)", "getSize": "int getSize()", "setSize": "void setSize(int)"}
            other = {"begin": ["int begin;", "int* begin(Key);"], "end": ["int end;", "int* end(int);"], "index": ["int& operator[](Key) const;"], "size": ["size_t size;", "size_t size(int) const;"],
                     "resize": ["void resize(Key);", "void resize(size_t, Key);", "int resize;", "void resize();"], "getSize": ["int getSize;", "int getSize(Key) const;"], "setSize": ["void setSize();", "void setSize(Key);", "int setSize;"]}
            body, base, priv = [], [], []
            for m in decl:
                w, d = f[m], decl[m]
                if m == "index": d = rng.choice([d, "const double& operator[](int)", "bool operator[](unsigned long long)"])
                if m in ("begin", "end"): d = rng.choice([d, d.replace("int*", "const vector<int>::iterator")])
                if m in ("resize", "setSize"): d = rng.choice([d, d.replace("void", "bool"), d[:-1] + ", Key = Key())"])
                dest = base if rng.random() < .3 else body
                if w == "plain": dest.append(d + ";")
                elif w == "const":
                    dest.append("static %s;" % d if m != "index" and rng.random() < .2 else d + " const;" if rng.random() < .7 else "template <int N = 0> %s const;" % d if m in ("begin", "size", "getSize") else d + " const;")
                elif w == "private": priv.append(d + " const;")
                elif w == "other": dest.append(rng.choice(other[m]))
            o.append("struct B%d { %s };\nclass S%d : public B%d { %s public: %s };" % (i, " ".join(base), i, i, " ".join(priv), " ".join(body)))
            w = f["out"]
            if w == "plain": o.append("ostream& operator<<(ostream& o, S%d&);" % i)
            elif w == "const": o.append("ostream& operator<<(ostream& o, const %s%d&);" % (rng.choice("SSB"), i))
            elif w == "other": o.append("ostream& operator<<(ostream& o, const S%d*);" % i)
            calls.append("cls<S%d>" % i)
        elif p["k"] == "sig":
            s = p["s"]
            r, a = alias(s["ret"], types), [alias(t, types) for t in s["args"]]
            aa = ", ".join(a)
            if s["form"] == "function": t = "%s(%s)" % (r, aa)
            elif s["form"] == "pointer": t = "%s(*)(%s)" % (r, aa)
            elif s["form"] == "method": t = "%s (C::*)(%s)" % (r, aa)
            elif s["form"] == "constMethod": t = "%s (C::*)(%s) const" % (r, aa)
            elif s["form"] == "member": t = "%s C::*" % r
            elif s["form"] in ("functor", "mutable"):
                extra = rng.choice(["", " int state; void other(double);", " using result_type = char;"])
                o.append("struct F%d { %s operator()(%s)%s;%s };" % (i, r, aa, " const" if s["form"] == "functor" else "", extra))
                t = "F%d" % i
                if rng.random() < .2: t = "const F%d" % i
            else:
                o.append("static auto lam%d = [](%s)%s -> %s { throw 1; };" % (i, aa, rng.choice(["", " mutable"]), r))
                t = "decltype(lam%d)" % i
            o.append("using U%d = %s;" % (i, t))
            if s["form"] == "pointer" and rng.random() < .3 and not s["ref"]:   # of an existing function
                o.append("%s fun%d(%s);" % (r, i, aa))
                o.append("using V%d = decltype(&fun%d);" % (i, i))
                t = "V%d" % i
            else: t = "U%d" % i
            calls.append("sig<%s%s>" % (t, s["ref"]))
        else:
            items = ", ".join("Item<%d, %s>" % (j + 1, "true" if b else "false") for j, b in enumerate(p["c"]))
            o.append('static void sel%d() { cout << "{\\"sel\\":" << ClassSelector<%s, Cond, %s>::SelectedClass::number << "}" << endl; }' % (i, rng.choice(["int", "C", "vector<C>"]), items))
            calls.append("sel%d" % i)
    o.append("int main() {\n    string w;\n    void (*const all[])() = {%s};\n    while (cin >> w) all[stoul(w)]();\n}" % ", ".join(calls))
    return "\n".join(o)
