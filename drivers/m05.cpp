// Replays calls on the cell adjacency of a face. Configurations: index type x kind of object.
#include <GTMesh/UnstructuredMesh/UnstructuredMesh.h>
#include <iostream>
#include <sstream>
#include <cstdlib>
#include <memory>
#include <limits>
using namespace std;

template <class I> struct Map {
    // abstract index k -> concrete one (also close to the limits of the type)
    static I to(long k){
        const I mx = std::numeric_limits<I>::max();
        switch (k) {
            case -1: return INVALID_INDEX(I);
            case 0: return 0; case 1: return I(mx - 1); case 2: return 7;
            case 3: return I(mx / 2); case 4: return I(mx / 2 + 1);
        }
        exit(77);
    }
    static long from(I v){
        for (long k = -1; k <= 4; k++) if (to(k) == v) return k;
        return -77;
    }
};
struct Base { virtual ~Base(){} virtual string run(const string&, long, long, long, long) = 0; };
template <class Obj, class I> struct Runner : Base {
    Obj o;
    using M = Map<I>;
    template <class O> static O make(long l, long r, long nl, long nr, decltype(O(I(), I(), I(), I()))*){ return O(M::to(l), M::to(r), M::to(nl), M::to(nr)); }
    template <class O> static O make(long l, long r, long nl, long nr, ...){
        O o; if (l != -1) o.setCellLeftIndex(M::to(l)); if (r != -1) o.setCellRightIndex(M::to(r));
        if (nl != -1) o.setNextBElemWRTCL(M::to(nl)); if (nr != -1) o.setNextBElemWRTCR(M::to(nr)); return o; }
    string run(const string& c, long a, long b, long d, long e) override {
        long res = 1;
        try {
            if (c == "new") o = make<Obj>(a, b, d, e, 0);
            else if (c == "set") res = o.setCellIndex(M::to(a));
            else if (c == "setL") o.setCellLeftIndex(M::to(a));
            else if (c == "setR") o.setCellRightIndex(M::to(a));
            else if (c == "setNL") o.setNextBElemWRTCL(M::to(a));
            else if (c == "setNR") o.setNextBElemWRTCR(M::to(a));
            else if (c == "other") res = M::from(o.getOtherCellIndex(M::to(a)));
            else if (c == "setNext") res = o.setNextBElem(M::to(a), M::to(b));
            else if (c == "next") res = M::from(o.getNextBElem(M::to(a)));
            else if (c == "swap") o.swapCellsLR();
            else if (c == "ok") res = o.cellsOK();
            else exit(77);
        } catch (const std::runtime_error&) { res = -9; }
        ostringstream s;
        s << "{\"res\":" << res << ",\"s\":[" << M::from(o.getCellLeftIndex()) << "," << M::from(o.getCellRightIndex()) << ","
          << M::from(o.getNextBElemWRTCL()) << "," << M::from(o.getNextBElemWRTCR()) << "]}";
        return s.str();
    }
};
template <class I> Base* mk(int kind){
    switch (kind) {
        case 0: return new Runner<CellBoundaryConnection<I>, I>;
        case 1: return new Runner<typename UnstructuredMesh<2, I, double>::Edge, I>;
        case 2: return new Runner<typename UnstructuredMesh<3, I, double, 4>::Face, I>;
        case 3: return new Runner<typename UnstructuredMesh<3, I, float>::Face, I>;
    }
    exit(77);
}
int main(){
    unique_ptr<Base> b;
    string line;
    while (getline(cin, line)) {
        if (line.empty()) continue;
        istringstream ss(line);
        string c; long a[4] = {0, 0, 0, 0}; ss >> c;
        if (c == "new") {
            int cfg; ss >> cfg;
            int kind = cfg / 5;
            switch (cfg % 5) {
                case 0: b.reset(mk<size_t>(kind)); break;
                case 1: b.reset(mk<unsigned int>(kind)); break;
                case 2: b.reset(mk<unsigned short>(kind)); break;
                case 3: b.reset(mk<int>(kind)); break;
                case 4: b.reset(mk<long long>(kind)); break;
            }
        }
        for (auto& x : a) ss >> x;
        cout << b->run(c, a[0], a[1], a[2], a[3]) << "\n";
    }
}
