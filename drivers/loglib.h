// Common part of the generated E02 drivers: each scenario runs in a process of its own, in a scratch folder.
#define IO_PRINTED
#include <GTMesh/Debug/Debug.h>
#ifdef UNDEBUG
#include <GTMesh/Debug/HTMLLogger.h>
#include <GTMesh/Debug/JSONLogger.h>
#endif
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerIOTraits.h>
#include "valuelib.h"
#include <fstream>
#include <sys/wait.h>
#include <unistd.h>
inline std::string hex(const std::string& s) { static const char* h = "0123456789abcdef"; std::string r; for (unsigned char c : s) { r += h[c / 16]; r += h[c % 16]; } return r; }
inline void say(int fd, const std::string& s) { std::string l = s + "\n"; size_t d = 0; while (d < l.size()) { ssize_t n = ::write(fd, l.data() + d, l.size() - d); if (n <= 0) _exit(77); d += n; } }
static int evals = 0;
template <class A, class T> T& pick(const A&, T& x) { evals++; return x; }
static const char* NAMES[] = {"", "a", "b", "c", "DBG.json", "own.json", "DBG.html", "own.html"};
template <class... A> void use(const A&...) {}
// all files as they are on disk
inline std::string files() {
    std::string s = "[";
    for (int k = 1; k < 8; k++) {
        std::ifstream f(NAMES[k], std::ios::binary);
        std::ostringstream o;
        if (f) o << f.rdbuf();
        s += std::string(k > 1 ? "," : "") + "\"" + (f ? "+" + hex(o.str()) : "") + "\"";
    }
    return s + "]";
}
// text written to the standard output
struct Capture {
    FILE* f; long seen = 0;
    Capture() { std::fflush(stdout); f = std::tmpfile(); dup2(fileno(f), 1); }
    std::string take() {
        std::cout.flush(); std::fflush(stdout);
        std::string s; char b[4096]; ssize_t n;
        while ((n = pread(fileno(f), b, sizeof b, seen)) > 0) { s.append(b, n); seen += n; }
        return s;
    }
};
void putVar(int k, std::istream& in);
void putAll(std::istream& in);
std::string show();
void site(int logger, int s, int how, JSONLogger& json, HtmlLogger& html);
static int errfd = -1;   // the standard error of a program that ends with an exception
inline void scenario(const std::vector<std::string>& lines, int fd) {
    static Capture& cap = *new Capture;
    static JSONLogger json("own.json");
    static HtmlLogger html("own.html");
    // the loggers write to the streams also at exit
    static std::ostringstream& err = *new std::ostringstream;
    std::streambuf* was = std::cerr.rdbuf(err.rdbuf());
#ifndef UNDEBUG
    auto& st = Singleton<dbg::DBGStatics>::getInstance();
    auto& con = dbg::getDebugConsoleLogger();
#endif
    for (const std::string& line : lines) {
        std::istringstream in(line); std::string op; in >> op;
        err.str(""); evals = 0;
        int a = 0, b = 0, c = 0;
        if (op == "new") { putAll(in); say(fd, "{\"vals\":" + show() + "}"); continue; }
        if (op == "p") { in >> a; putVar(a, in); say(fd, "{\"vals\":" + show() + "}"); continue; }
        if (op == "log") { in >> a >> b >> c; site(a, b, c, json, html); say(fd, "{\"out\":\"" + hex(cap.take()) + "\",\"err\":\"" + hex(err.str()) + "\",\"evals\":" + std::to_string(evals) + "}"); continue; }
        if (op == "throw") { in >> a; std::cerr.rdbuf(was); dup2(errfd, 2); site(8, a, 2, json, html); _exit(76); }
#ifndef UNDEBUG
        if (op == "create") { in >> a >> b; if (a == 1) st.JSONDBGLog.create(NAMES[b]); else if (a == 2) json.create(NAMES[b]); else if (a == 3) st.HDBGLog.create(NAMES[b]); else html.create(NAMES[b]); }
        else if (op == "close") { in >> a; if (a == 1) st.JSONDBGLog.destroy(); else if (a == 2) json.destroy(); else if (a == 3) st.HDBGLog.destroy(); else html.destroy(); }
        else if (op == "opt") {
            in >> a >> b;
            if (a == 1) con.setColoredOutput(b); else if (a == 2) con.setOnlyFliename(b); else if (a == 3) con.setPrintFunction(b); else if (a == 4) con.setPrintAggregated(b); else if (a == 5) con.setIdentation(b ? "..." : "||     "); else con.reset();
            say(fd, std::string("{\"opts\":[") + (con.getColoredOutput() ? "true," : "false,") + (con.getOnlyFilename() ? "true," : "false,") + (con.getPrintFunction() ? "true," : "false,") + (con.getPrintAggregated() ? "true," : "false,") + "\"" + con.getIdentation() + "\"]}");
            continue;
        } else
#endif
        refuse(op);
        say(fd, "{\"files\":" + files() + "}");
    }
}
inline int run() {
    std::vector<std::string> lines; std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        bool thrown = line.compare(0, 5, "throw") == 0;
        if (thrown) lines.push_back(line);
        if (line != "end" && !thrown) { lines.push_back(line); continue; }
        char dir[] = "log_XXXXXX"; if (!mkdtemp(dir) || chdir(dir)) refuse("scratch");
        std::fflush(stdout);
        int fd = dup(1);
        FILE* ef = std::tmpfile(); errfd = fileno(ef);
        pid_t p = fork();
        if (p == 0) { scenario(lines, fd); std::exit(0); }
        int st = 1; waitpid(p, &st, 0);
        std::string err; char b[4096]; ssize_t n; off_t o = 0;
        while ((n = pread(errfd, b, sizeof b, o)) > 0) { err.append(b, n); o += n; }
        fclose(ef);
        int code = WIFEXITED(st) ? WEXITSTATUS(st) : 99;
        if (thrown && code == 1 && err.find("Sanitizer") == std::string::npos && err.find("runtime error") == std::string::npos) { say(fd, "{\"out\":\"\",\"err\":\"" + hex(err) + "\",\"files\":" + files() + "}"); st = 0; }
        else { std::cerr << err; if (!thrown && st == 0) say(fd, "{\"files\":" + files() + "}"); if (thrown && st == 0) st = 76 << 8; }
        for (int k = 1; k < 8; k++) unlink(NAMES[k]);
        if (chdir("..") || rmdir(dir)) { std::cerr << "other files were written\n"; std::_Exit(3); }
        ::close(fd);
        if (st != 0) std::_Exit(WIFEXITED(st) ? WEXITSTATUS(st) : 99);
        lines.clear();
    }
    return 0;
}
