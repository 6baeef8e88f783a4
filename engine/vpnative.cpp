// Native runtime: replays one counterexample on the real, uninstrumented build.
#include <map>
#include <vector>
#include <string>
#include <fstream>
#include <iostream>
#include <sstream>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include "vp.h"
using std::string;
static std::map<string, string> in;
static std::map<string, int> names;
static string uniq(const char* n) { int& k = names[n]; string s = n; if (k++) s += "#" + std::to_string(k); return s; }
static string get(const char* name) {
    string n = uniq(name);
    if (!in.count(n)) { fprintf(stderr, "replay diverged: no input %s\n", n.c_str()); _Exit(4); }
    return in[n];
}
extern "C" {
double vp_sym(const char* n, double lo, double hi) { double x = strtod(get(n).c_str(), 0); return x < lo ? lo : x > hi ? hi : x; }
double vp_symx(const char* n, double lo, double hi) { double x = strtod(get(n).c_str(), 0); return x; }
int vp_choose(const char* n, int k) { return (int)strtod(get(n).c_str(), 0); }
unsigned char vp_symbyte(const char* n) { return (unsigned char)strtoll(get(n).c_str(), 0, 10); }
long vp_symbits(const char* n, int) { return strtoll(get(n).c_str(), 0, 10); }
static void hex(void* p, unsigned long n, const string& h) { for (unsigned long i = 0; i < n && 2 * i + 1 < h.size(); ++i) ((unsigned char*) p)[i] = (unsigned char)strtol(h.substr(2 * i, 2).c_str(), 0, 16); }
void vp_havoc(void* p, unsigned long n, const char* name) { hex(p, n, get(name)); }
void vp_overflow(int) {}
int vp_havoc_global(const char*) {
    // the k-th call takes the k-th value of every variable in the file
    static int k = 0; int cnt = 0;
    const string suffix = k ? "#" + std::to_string(k + 1) : string();
    for (auto& kv : in) {
        if (kv.first.compare(0, 7, "global:")) continue;
        size_t h = kv.first.find('#');
        const string nm = kv.first.substr(7, h == string::npos ? h : h - 7), sf = h == string::npos ? string() : kv.first.substr(h);
        if (sf != suffix) continue;
        void* p = dlsym(RTLD_DEFAULT, nm.c_str());
        if (!p) { fprintf(stderr, "replay: no variable %s\n", nm.c_str()); _Exit(4); }
        hex(p, kv.second.size() / 2, kv.second); ++cnt;
    }
    ++k;
    return cnt;
}
static void out(const char* why) { fprintf(stderr, "replay: assumption fails (%s)\n", why); exit(5); }
void vp_assume(int c) { if (!c) out("assume"); }
void vp_assume_lt(double a, double b) { if (!(a < b + 1e-9)) out("lt"); }
void vp_assume_le(double a, double b) { if (!(a <= b + 1e-9)) out("le"); }
void vp_assume_ne(double a, double b) { if (!(a != b)) out("ne"); }
static void fail(const char* id, const string& d) { printf("REPLAY-CONFIRMED check=%s %s\n", id, d.c_str()); fflush(stdout); _Exit(3); }
void vp_check(int c, const char* id) { if (!c) fail(id, "condition is false"); }
void vp_check_eq(double a, double b, double tol, const char* id) {
    if (std::isnan(a) && std::isnan(b)) return;
    double t = tol > 0 ? tol : 0;
    t = t * 0.999 + 1e-11 * (1 + fabs(a));
    if (tol < 0) t = 0;
    if (a == b || fabs(a - b) <= t) return;
    std::ostringstream s; s.precision(17); s << a << " differs from " << b; fail(id, s.str());
}
void vp_check_le(double a, double b, double tol, const char* id) {
    if (a <= b + tol * 0.999 + 1e-11 * (1 + fabs(b))) return;
    std::ostringstream s; s.precision(17); s << a << " exceeds " << b; fail(id, s.str());
}
void vp_check_finite(double a, const char* id) { if (!std::isfinite(a)) { std::ostringstream s; s << "value is " << a; fail(id, s.str()); } }
void vp_reach(const char*) {}
void vp_mode(const char*) {}
void vp_note(const char* t) { printf("note %s\n", t); }
int vp_is_native(void) { return 1; }
}
int main(int argc, char** argv) {
    std::ifstream f(argv[1]); string line; bool on = false;
    while (std::getline(f, line)) {
        if (line == "inputs") { on = true; continue; }
        if (!on || line.empty() || line[0] == '#') continue;
        size_t p = line.rfind(' ');
        if (p == string::npos) continue;
        in[line.substr(0, p)] = line.substr(p + 1);
    }
    vp_main();
    printf("replay: no check failed\n");
    return 0;
}
