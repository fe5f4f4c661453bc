// S02: histories of two serializers and two files in a scratch directory.
#include <GTMesh/BinarySerializer/BinarySerializer.h>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>
using namespace std;
[[noreturn]] static void refuse(const string& m) { cout << flush; cerr << m << "\n"; _Exit(77); }
static string dir;
static BinarySerializer* s[2];
typedef map<int, string> Map;
// the c-th value of a kind
static void make(int& x, int c) { x = c * 1234567 - 1; }
static void make(string& x, int c) { x.assign(c % 7, char('a' + c % 26)); x += to_string(c); }
static void make(vector<double>& x, int c) { x.assign(c % 4, c + 0.5); }
static void make(Map& x, int c) { x.clear(); for (int k = 0; k < c % 3; k++) x[c - k] = to_string(c * k); }
static void make(bool& x, int c) { x = c % 2; }
static void make(vector<char>& x, int c) { x.resize(300); for (int k = 0; k < 300; k++) x[k] = char(c * k); }
static string show(int x) { return "i" + to_string(x); }
static string show(const string& x) { return "s" + x; }
static string show(const vector<double>& x) { string o = "v"; for (double d : x) o += to_string(d) + ";"; return o; }
static string show(const Map& x) { string o = "m"; for (auto& e : x) o += to_string(e.first) + "=" + e.second + ";"; return o; }
static string show(bool x) { return x ? "true" : "false"; }
static string show(const vector<char>& x) { unsigned long h = x.size(); for (char c : x) h = h * 31 + (unsigned char) c; return "c" + to_string(h); }
static void make(vector<signed char>& x, int c) { x.resize(66000 + c % 97); for (size_t k = 0; k < x.size(); k++) x[k] = (signed char)(c * k + k / 251); }      // more than 64 KB
static string show(const vector<signed char>& x) { unsigned long h = x.size(); for (char c : x) h = h * 31 + (unsigned char) c; return "l" + to_string(h); }
template <class T> struct Type { using type = T; };
template <class F> static void kind(int k, F f) {
    switch (k) {
        case 0: f(Type<int>()); break; case 1: f(Type<string>()); break; case 2: f(Type<vector<double>>()); break;
        case 3: f(Type<Map>()); break; case 4: f(Type<bool>()); break; case 5: f(Type<vector<char>>()); break; case 6: f(Type<vector<signed char>>()); break;
        default: refuse("kind");
    }
}
static vector<string> vals;
static string bytes(const unsigned char* p, size_t n) { string o = "["; for (size_t k = 0; k < n; k++) o += (k ? "," : "") + to_string((int) p[k]); return o + "]"; }
static string file(int g) {
    ifstream f(dir + "/f" + to_string(g), ios::binary);
    string b((istreambuf_iterator<char>(f)), istreambuf_iterator<char>());
    return bytes((const unsigned char*) b.data(), b.size());
}
static string reply(bool threw) {
    string o = "{\"vals\":[";
    for (size_t k = 0; k < vals.size(); k++) o += (k ? ",\"" : "\"") + vals[k] + "\"";
    o += string("],\"threw\":") + (threw ? "true" : "false") + ",\"data\":[";
    for (int a = 0; a < 2; a++) o += (a ? "," : "") + bytes(s[a]->getData().data(), s[a]->getData().size());
    o += "],\"valid\":[";
    for (int a = 0; a < 2; a++) o += string(a ? "," : "") + (s[a]->isIteratorValid() ? "true" : "false");
    return o + "],\"files\":[" + file(1) + "," + file(2) + "]}";
}
static void clean() { for (int g = 1; g < 3; g++) unlink((dir + "/f" + to_string(g)).c_str()); }
static int turn = 0;
static void run(const string& op, istream& in) {
    int a = 0, g = 0;
    in >> a >> g; a--;
    if (!in || a < 0 || a > 1) refuse(op);
    BinarySerializer& b = *s[a];
    if (op == "w" || op == "r") {
        vector<pair<int, int>> ks; int k, c;
        while (in >> k >> c) ks.push_back({k, c});
        turn++;
        if (op == "w") {
            if (ks.size() == 1) kind(ks[0].first, [&](auto t) { typename decltype(t)::type x; make(x, ks[0].second); vals.push_back(show(x)); if (turn % 2) b.write(x); else b << x; });
            else if (ks.size() == 2) kind(ks[0].first, [&](auto t) { typename decltype(t)::type x; make(x, ks[0].second); vals.push_back(show(x));
                kind(ks[1].first, [&](auto u) { typename decltype(u)::type y; make(y, ks[1].second); vals.push_back(show(y)); if (turn % 2) b.write(x, y); else b << x << y; }); });
            else { string x; int y; vector<double> z; make(x, ks[0].second); make(y, ks[1].second); make(z, ks[2].second); vals = {show(x), show(y), show(z)}; b.write(x, y, z); }
        } else {
            if (ks.size() == 1) kind(ks[0].first, [&](auto t) { typedef typename decltype(t)::type X; X x; make(x, turn); if (turn % 3 == 0) b.read(x); else if (turn % 3 == 1) b >> x; else x = b.template read<X>(); vals.push_back(show(x)); });
            else kind(ks[0].first, [&](auto t) { typename decltype(t)::type x; make(x, turn);
                kind(ks[1].first, [&](auto u) { typename decltype(u)::type y; make(y, turn); if (turn % 2) b.read(x, y); else b >> x >> y; vals = {show(x), show(y)}; }); });
        }
    } else if (op == "b") b.resetIterator();
    else if (op == "c") b.clear();
    else if (op == "s") b.saveToFile(dir + "/f" + to_string(g));
    else if (op == "l") b.loadFromFile(dir + "/f" + to_string(g));
    else if (op == "x" && g == 3) {
        struct stat st;
        if (stat("/dev/full", &st) != 0 || !S_ISCHR(st.st_mode)) throw runtime_error("no full device here");
        b.saveToFile("/dev/full");
    } else if (op == "x") b.saveToFile(g == 1 ? dir : dir + "/missing/f");
    else if (op == "=") {
        if (g == 1) b = *s[1 - a];
        else if (g == 2) { BinarySerializer* n = new BinarySerializer(*s[1 - a]); delete s[a]; s[a] = n; }
        else { BinarySerializer c(*s[1 - a]); b = std::move(c); }
    } else if (op == "~") swap(*s[0], *s[1]);
    else refuse(op);
}
int main(int argc, char** argv) {
    string tmpl = string(argc > 1 ? argv[1] : "/tmp") + "/gtmser.XXXXXX";
    if (!mkdtemp(&tmpl[0])) refuse("scratch directory");
    dir = tmpl;
    string line;
    while (getline(cin, line)) {
        if (line.empty()) continue;
        istringstream in(line); string op; in >> op;
        vals.clear();
        if (op == "new") { clean(); turn = 0; for (auto& p : s) { delete p; p = new BinarySerializer; } cout << reply(false) << "\n"; continue; }
        bool threw = false;
        try { run(op, in); } catch (const std::exception&) { threw = true; }
        cout << reply(threw) << "\n";
    }
    for (auto& p : s) delete p;
    clean();
    rmdir(dir.c_str());
}
