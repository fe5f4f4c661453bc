// Common part of the generated E01 drivers: variables printed in all ways.
#define IO_PRINTED
#include <GTMesh/Debug/VariableExport.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerIOTraits.h>
#include "valuelib.h"
#include <fstream>
#include <unistd.h>
// the answers go to the original standard output, printed text to a file
struct Capture {
    int answer; FILE* f; long seen = 0;
    Capture() { std::fflush(stdout); answer = dup(1); f = std::tmpfile(); dup2(fileno(f), 1); }
    std::string take() {
        std::cout.flush(); std::fflush(stdout);
        std::string s; char b[4096]; ssize_t n;
        while ((n = pread(fileno(f), b, sizeof b, seen)) > 0) { s.append(b, n); seen += n; }
        return s;
    }
    void say(const std::string& s) { std::string l = s + "\n"; size_t d = 0; while (d < l.size()) { ssize_t n = ::write(answer, l.data() + d, l.size() - d); if (n <= 0) std::_Exit(77); d += n; } }
};
inline std::string hex(const std::string& s) { static const char* h = "0123456789abcdef"; std::string r; for (unsigned char c : s) { r += h[c / 16]; r += h[c % 16]; } return r; }
struct Printed {
    std::ostringstream os; size_t seen = 0;
    Capture cap;
    std::string text() { std::string s = os.str().substr(seen); seen = os.str().size(); return s; }
};
struct Out {
    Printed& p; std::string how; std::string& out;
    template <class X> void operator()(const X& x) const {
        if (how == "derived") { VariableExport::exportVariable(p.os, x); out = p.text(); }
        else if (how == "stream") { std::ostream& o = p.os; VariableExport::exportVariable(o, x); out = p.text(); }
        else if (how == "stdout") { VariableExport::exportVariable(x); out = p.cap.take(); }
        else refuse(how);
        std::string rest = p.cap.take() + p.text();
        if (!rest.empty()) out += " ELSEWHERE " + rest;
    }
    template <class X, class T> void operator()(const X& x, const T& traits) const {
        if (how == "derived") { VariableExport::exportVariable(p.os, x, traits); out = p.text(); }
        else if (how == "stream") { std::ostream& o = p.os; VariableExport::exportVariable(o, x, traits); out = p.text(); }
        else if (how == "stdout") { VariableExport::exportVariable(x, traits); out = p.cap.take(); }
        else refuse(how);
        std::string rest = p.cap.take() + p.text();
        if (!rest.empty()) out += " ELSEWHERE " + rest;
    }
};
