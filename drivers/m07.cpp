// Sub-element lists of several capacities, index types and owners.
#include "meshlib.h"
using namespace std;
struct Base { virtual ~Base(){} virtual string run(const string&, long) = 0; };
template <class El> struct R : Base {
    El e;
    string run(const string& c, long x) override {
        int err = 0; auto& s = e.getSubelements();
        try {
            if (c == "add") s.addSubelement(x); else if (c == "push") s.push_back(x); else if (c == "rem") s.removeSubelement(x); else if (c == "fill") for (long k = 0; k < x; k++) s.push_back(k);
            else if (c != "new") refuse(c);
        } catch (const exception&) { err = 1; }
        vector<long> a, b, d; const El cp = e; const auto& cs = e.getSubelements();
        for (auto v : cs) a.push_back(enc(v));
        for (size_t k = 0; k < size_t(cs.size()); k++) b.push_back(enc(cs[k]));
        for (auto v : cp.getSubelements()) d.push_back(enc(v));
        vector<long> a2; for (auto& v : s) a2.push_back(enc(v));
        if (a2 != a) a.push_back(-77);
        Js j; return j.kv("q", jarr(a)).kv("idx", jarr(b)).kv("copy", jarr(d)).kv("size", (long)cs.size()).kv("num", (long)cs.getNumberOfSubElements()).kv("err", err).str();
    }
};
template <unsigned Cap> Base* mk(int t){
    switch (t % 4) {
        case 0: return new R<MeshElement<3, 2, size_t, double, Cap>>;
        case 1: return new R<MeshElement<3, 2, unsigned short, float, Cap>>;
        case 2: return new R<MeshElement<4, 2, int, double, Cap>>;
        default: return new R<MeshElement<4, 3, unsigned int, long double, Cap>>;
    }
}
int main(){
    unique_ptr<Base> b; string line;
    while (getline(cin, line)) {
        if (line.empty()) continue;
        istringstream ss(line); string c; long x = 0; ss >> c >> x;
        if (c == "new") { int t; ss >> t; switch (x) { case 0: b.reset(mk<0>(t)); break; case 1: b.reset(mk<1>(t)); break; case 2: b.reset(mk<2>(t)); break;
            case 3: b.reset(mk<3>(t)); break; case 6: b.reset(mk<6>(t)); break; case 40: b.reset(mk<40>(t)); break; case 300: b.reset(mk<300>(t)); break; default: refuse("cap"); } }
        cout << b->run(c, x) << "\n";
    }
}
