// Marking, recognising and extracting boundary and invalid indices, for all index types.
#include <GTMesh/UnstructuredMesh/UnstructuredMeshDefine.h>
#include <iostream>
#include <sstream>
#include <string>
#include <limits>
#include <cstdlib>
using namespace std;
template <class I> string limbs(I v){ ostringstream o; o << "["; for (int k = 0; k < 4; k++) o << (k ? "," : "") << (unsigned long)(((unsigned long long)v >> (16 * k)) & 0xffff); o << "]"; return o.str(); }
template <class I> void run(unsigned long long x){
    I v = I(x);
    ostringstream o;
    o << "{\"d\":" << numeric_limits<I>::digits << ",\"x\":" << limbs(v) << ",\"isB\":" << isBoundaryIndex(v) << ",\"isI\":" << isInvalidIndex(v)
      << ",\"mk\":" << limbs(makeBoundaryIndex(v)) << ",\"ex\":" << limbs(extractBoundaryIndex(v))
      << ",\"inv\":" << limbs(I(INVALID_INDEX(I))) << ",\"bnd\":" << limbs(I(BOUNDARY_INDEX(I))) << ",\"exm\":" << limbs(I(EXTRACTING_INDEX(I) & numeric_limits<I>::max())) << "}";
    cout << o.str() << "\n";
}
int main(){
    string t; unsigned long long x;
    while (cin >> t >> x) {
        if (t == "u8") run<unsigned char>(x);
        else if (t == "i8") run<signed char>(x);
        else if (t == "u16") run<unsigned short>(x);
        else if (t == "i16") run<short>(x);
        else if (t == "u32") run<unsigned>(x);
        else if (t == "i32") run<int>(x);
        else if (t == "u64") run<unsigned long>(x);
        else if (t == "i64") run<long>(x);
        else if (t == "sz") run<size_t>(x);
        else exit(77);
    }
}
