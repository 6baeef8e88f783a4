// Symbolic runtime.  Symbolic doubles are boxed in signalling NaNs that carry an
// expression id, so that they travel unchanged through any compiled code that
// only moves them; arithmetic on a box by code that was not instrumented sets
// FE_INVALID and is reported as an engine error.  Feasibility of every branch
// and validity of every check are decided by Z3; when both sides are feasible
// the process forks.
#include <z3++.h>
#include <vector>
#include <map>
#include <string>
#include <unordered_map>
#include <tuple>
#include <set>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <cfenv>
#include <csignal>
#include <climits>
#include <ctime>
#include <semaphore.h>
#include <unistd.h>
#include <execinfo.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include "vp.h"

using std::string;

// ------------------------------------------------------------------ shared
namespace {

struct Tab { char name[120]; volatile long n; volatile long m; };
struct Shared {
    sem_t slots, lock;
    volatile long paths, killed, queries, unknown_branch, unknown_check, forks, trivial,
         checks_proved, nviol, nerr, fallbacks, stop, timeouts, maxdepth, infeasible;
    volatile double solver_s;
    double deadline;
    Tab reach[256]; Tab checks[1024]; Tab fns[2048];
    char viol[64][16384];
    volatile long nsamp; char samp[16][16384];
    char err[32][1024];
} *S;

double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

void lock() { while (sem_wait(&S->lock) != 0) {} }
void unlock() { sem_post(&S->lock); }

long g_maxviol = 8;
void tabadd(Tab* t, int n, const char* name, long dn, long dm) {
    char b[120]; strncpy(b, name, 119); b[119] = 0;
    lock();
    for (int i = 0; i < n; ++i) {
        if (!t[i].name[0]) strcpy(t[i].name, b);
        if (strncmp(t[i].name, b, 119) == 0) { t[i].n += dn; t[i].m += dm; break; }
    }
    unlock();
}

bool g_ownslot = true;
std::vector<pid_t> g_children;
int g_depth = 0;
bool g_insolver = false;

[[noreturn]] void leave() {
    fflush(stdout); fflush(stderr);
    sem_post(&S->slots);
    for (pid_t c : g_children) { int st; while (waitpid(c, &st, 0) < 0 && errno == EINTR) {} 
        if (!WIFEXITED(st)) { lock(); if (S->nerr < 32) snprintf(S->err[S->nerr], 1023, "child died with status %d", st); S->nerr++; unlock(); } }
    _exit(0);
}
[[noreturn]] void engine_error(const char* msg, const char* fn = "") {
    lock();
    if (S->nerr < 32) snprintf(S->err[S->nerr], 1023, "%s in %s", msg, fn);
    S->nerr++;
    unlock();
    if (getenv("VP_TRACE")) { void* bt[40]; int n = backtrace(bt, 40); backtrace_symbols_fd(bt, n, 2); }
    leave();
}
void tick() {
    if (S->stop) leave();
    if (now() > S->deadline) { lock(); S->timeouts++; S->stop = 1; unlock(); leave(); }
}

// ------------------------------------------------------------------ nodes
enum Op { CONST, VAR, ADD, SUB, MUL, DIV, NEG, ABS, SQRT, ITE, EXP, LOG, SIN, COS, TAN, ACOS, ASIN,
          ATAN, RECIP, UFN, B_LT, B_LE, B_EQ, B_NOT, MIN_, MAX_ };
struct Node { Op op; int a, b, c; double k; };
std::vector<Node> N(1);
struct Key { int op, a, b, c; uint64_t k; bool operator==(const Key& o) const { return op == o.op && a == o.a && b == o.b && c == o.c && k == o.k; } };
struct KeyHash { size_t operator()(const Key& x) const {
    uint64_t h = x.k * 0x9E3779B97F4A7C15ull;
    for (uint64_t v : {(uint64_t)x.op, (uint64_t)(unsigned)x.a, (uint64_t)(unsigned)x.b, (uint64_t)(unsigned)x.c}) { h ^= v; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 29; }
    return h; } };
std::unordered_map<Key, int, KeyHash> H;
z3::context* Z;
z3::solver* SV;
std::vector<z3::expr>* PC;
std::vector<z3::expr*> E(1, (z3::expr*)0);
z3::model* MODEL = 0;
std::map<int,int> g_decided;
struct Input { string name; int node; double conc; bool isconc; };
std::vector<Input> g_inputs;
std::map<string,int> g_names;
string g_notes;
const char* g_where = "";
bool g_fp = false, g_trigperiod = false;

struct FpSave { fenv_t f; FpSave() { feholdexcept(&f); } ~FpSave() { fesetenv(&f); } };

int mk(Op op, int a = 0, int b = 0, int c = 0, double k = 0) {
    uint64_t kb; memcpy(&kb, &k, 8);
    Key key{(int)op, a, b, c, kb};
    auto it = H.find(key);
    if (it != H.end()) return it->second;
    int id = N.size();
    N.push_back(Node{op, a, b, c, k}); E.push_back(0);
    H[key] = id;
    return id;
}

// Nodes for functions of one argument are shared when the arguments are equal
// as polynomials (sum-of-monomials normal form).
std::map<std::pair<int,unsigned>, int> g_canon;
std::vector<z3::expr>* g_keep;
z3::expr ex(int id);
z3::expr normal(const z3::expr& e) {
    FpSave fs;
    z3::params p(*Z); p.set("som", true); p.set("sort_sums", true); p.set("som_blowup", 1000u);
    return e.simplify(p);
}
int mkfun(Op op, int a) {
    if (g_fp) return mk(op, a);
    z3::expr e = normal(ex(a));
    auto key = std::make_pair((int)op, Z3_get_ast_id(*Z, e));
    auto it = g_canon.find(key);
    if (it != g_canon.end()) return it->second;
    if (!g_keep) g_keep = new std::vector<z3::expr>;
    g_keep->push_back(e);
    return g_canon[key] = mk(op, a);
}

const uint64_t TAG = 0x7FF4ull << 48;
inline uint64_t bits(double x) { uint64_t u; memcpy(&u, &x, 8); return u; }
inline bool isbox(double x) {
    uint64_t u = bits(x);
    return (u >> 48) == 0x7FF4 && (u & 0xFFFFFFFFFFFFull);
}
inline double box(int id) { uint64_t u = TAG | (uint64_t)(unsigned)id; double d; memcpy(&d, &u, 8); return d; }
inline int idof(double x) { return (int)(bits(x) & 0xFFFFFFFF); }
void badbox(double x, const char* fn) {
    uint64_t u = bits(x);
    if (((u >> 48) == 0x7FFC || (u >> 48) == 0xFFF4 || (u >> 48) == 0xFFFC) && (u & 0xFFFFFFFFFFFFull))
        engine_error("symbolic value went through uninstrumented arithmetic", fn);
}

string pow2str(int e) {
    std::vector<int> d(1, 1);
    for (int i = 0; i < e; ++i) {
        int c = 0;
        for (auto& x : d) { x = 2 * x + c; c = x / 10; x %= 10; }
        if (c) d.push_back(c);
    }
    string s; for (int i = d.size() - 1; i >= 0; --i) s += char('0' + d[i]);
    return s;
}
z3::expr numeral(double k) {
    if (k == 0) return Z->real_val(0);
    int e; double m = frexp(k, &e);
    int64_t im = (int64_t)ldexp(m, 53); e -= 53;
    while (im % 2 == 0) { im /= 2; ++e; }
    if (e >= 0 && e < 9) return Z->real_val((int64_t)(im << e));
    string p = pow2str(e < 0 ? -e : e);
    if (e < 0) return Z->real_val((std::to_string(im) + "/" + p).c_str());
    z3::expr a = Z->real_val(std::to_string(im).c_str()), b = Z->real_val(p.c_str());
    return (a * b).simplify();
}
z3::expr rm() { return z3::expr(*Z, Z3_mk_fpa_rne(*Z)); }

void addpc(const z3::expr& e);
std::vector<int> g_exps, g_sins, g_acoss, g_logs, g_ufs;
z3::expr ex(int id);

z3::expr build(int id) {
    Node n = N[id];
    if (g_fp) {
        switch (n.op) {
            case CONST: return Z->fpa_val(n.k);
            case VAR: engine_error("var"); 
            case ADD: return z3::expr(*Z, Z3_mk_fpa_add(*Z, rm(), ex(n.a), ex(n.b)));
            case SUB: return z3::expr(*Z, Z3_mk_fpa_sub(*Z, rm(), ex(n.a), ex(n.b)));
            case MUL: return z3::expr(*Z, Z3_mk_fpa_mul(*Z, rm(), ex(n.a), ex(n.b)));
            case DIV: return z3::expr(*Z, Z3_mk_fpa_div(*Z, rm(), ex(n.a), ex(n.b)));
            case NEG: return z3::expr(*Z, Z3_mk_fpa_neg(*Z, ex(n.a)));
            case ABS: return z3::expr(*Z, Z3_mk_fpa_abs(*Z, ex(n.a)));
            case SQRT: return z3::expr(*Z, Z3_mk_fpa_sqrt(*Z, rm(), ex(n.a)));
            case MIN_: return z3::expr(*Z, Z3_mk_fpa_min(*Z, ex(n.a), ex(n.b)));
            case MAX_: return z3::expr(*Z, Z3_mk_fpa_max(*Z, ex(n.a), ex(n.b)));
            case ITE: return z3::ite(ex(n.a), ex(n.b), ex(n.c));
            case B_LT: return z3::expr(*Z, Z3_mk_fpa_lt(*Z, ex(n.a), ex(n.b)));
            case B_LE: return z3::expr(*Z, Z3_mk_fpa_leq(*Z, ex(n.a), ex(n.b)));
            case B_EQ: return z3::expr(*Z, Z3_mk_fpa_eq(*Z, ex(n.a), ex(n.b)));
            case B_NOT: return !ex(n.a);
            default: break;
        }
        // uninterpreted function of one argument
        string nm = "uf" + std::to_string((int)n.op);
        z3::sort fs = Z->fpa_sort(11, 53);
        return z3::function(nm.c_str(), fs, fs)(ex(n.a));
    }
    switch (n.op) {
        case CONST: return numeral(n.k);
        case VAR: engine_error("var");
        case ADD: return ex(n.a) + ex(n.b);
        case SUB: return ex(n.a) - ex(n.b);
        case MUL: return ex(n.a) * ex(n.b);
        case DIV: return ex(n.a) / ex(n.b);     // constant divisor
        case NEG: return -ex(n.a);
        case ABS: { z3::expr x = ex(n.a); return z3::ite(x >= 0, x, -x); }
        case ITE: return z3::ite(ex(n.a), ex(n.b), ex(n.c));
        case B_LT: return ex(n.a) < ex(n.b);
        case B_LE: return ex(n.a) <= ex(n.b);
        case B_EQ: return ex(n.a) == ex(n.b);
        case B_NOT: return !ex(n.a);
        default: break;
    }
    z3::expr x = ex(n.a);
    z3::expr v = Z->real_const(("t" + std::to_string(id)).c_str());
    z3::expr one = Z->real_val(1);
    switch (n.op) {
        case RECIP: addpc(v * x == 1); break;
        case SQRT: addpc(v >= 0); addpc(v * v == x); break;
        case EXP:
            addpc(v > 0); addpc(v >= 1 + x); addpc(z3::implies(x < 1, v * (1 - x) <= 1));
            addpc(z3::implies(x <= 0, v <= 1)); addpc(z3::implies(x < 0, v < 1));
            for (int o : g_exps) { z3::expr ox = ex(N[o].a), ov = ex(o);
                addpc(z3::implies(x < ox, v < ov)); addpc(z3::implies(x > ox, v > ov)); addpc(z3::implies(x == ox, v == ov)); }
            g_exps.push_back(id); break;
        case LOG:
            for (int o : g_logs) { z3::expr ox = ex(N[o].a), ov = ex(o);
                addpc(z3::implies(x < ox, v < ov)); addpc(z3::implies(x > ox, v > ov)); addpc(z3::implies(x == ox, v == ov)); }
            addpc(v <= x - 1); addpc(z3::implies(x == 1, v == 0)); addpc(z3::implies(x > 1, v > 0)); addpc(z3::implies(x < 1, v < 0));
            g_logs.push_back(id); break;
        case SIN: case COS: {
            addpc(v >= -1); addpc(v <= 1);
            for (int o : g_sins) { z3::expr ox = ex(N[o].a), ov = ex(o);
                if (N[o].op == n.op) addpc(z3::implies(x == ox, v == ov));
                else if (N[o].a == n.a) addpc(v * v + ov * ov == 1);
                if (N[o].op == n.op) addpc(z3::implies(x == -ox, n.op == SIN ? v == -ov : v == ov)); }
            if (g_trigperiod) for (int o : g_sins) { z3::expr ox = ex(N[o].a), ov = ex(o);
                // f(x) = f(ox) when x = +-ox + shift, with round-off tolerance
                for (int k = -3; k <= 3; ++k) {
                    z3::expr e9 = numeral(1e-9), e8 = numeral(2e-9);
                    auto rel = [&](const z3::expr& d, double shift, bool minus) {
                        z3::expr w = minus ? v + ov : v - ov;
                        addpc(z3::implies(d - numeral(shift) <= e9 && d - numeral(shift) >= -e9, w <= e8 && w >= -e8));
                    };
                    double sh = 2 * M_PI * k;
                    if (N[o].op == n.op) { if (k) rel(x - ox, sh, false); rel(x + ox, n.op == SIN ? sh + M_PI : sh, false); }
                    // sin(s) = cos(c) when s + c = pi/2 + 2 k pi or s - c = pi/2 + 2 k pi
                    else { rel(x + ox, sh + M_PI_2, false); rel(n.op == SIN ? x - ox : ox - x, sh + M_PI_2, false); }
                } }
            addpc(z3::implies(x == 0, n.op == SIN ? v == 0 : v == 1));
            if (n.op == SIN) { addpc(z3::implies(x > 0 && x <= 3, v > 0)); addpc(z3::implies(x > 0, v < x)); addpc(z3::implies(x >= -3 && x < 0, v < 0)); addpc(z3::implies(x < 0, v > x));
                addpc(z3::implies(x > 0, 6 * v > 6 * x - x * x * x)); }
            g_sins.push_back(id); break; }
        case ACOS: {
            addpc(v >= 0); addpc(v <= numeral(3.1415926535897936));
            // values at n*30 degrees
            const double px[5] = {-1, -0.5, 0, 0.5, 1}, pv[5] = {M_PI, 2*M_PI/3, M_PI_2, M_PI/3, 0};
            for (int i = 0; i < 5; ++i) {
                z3::expr X = numeral(px[i]), lo = numeral(pv[i] - 1e-15), hi = numeral(pv[i] + 1e-15);
                addpc(z3::implies(x <= X, v >= lo)); addpc(z3::implies(x >= X, v <= hi));
            }
            for (int o : g_acoss) { z3::expr ox = ex(N[o].a), ov = ex(o);
                addpc(z3::implies(x < ox, v > ov)); addpc(z3::implies(x > ox, v < ov)); addpc(z3::implies(x == ox, v == ov)); }
            g_acoss.push_back(id); break; }
        default:
            for (int o : g_ufs) if (N[o].op == n.op && N[o].b == n.b && N[o].c == n.c) { addpc(z3::implies(x == ex(N[o].a), v == ex(o))); }
            g_ufs.push_back(id); break;
    }
    return v;
}
z3::expr ex(int id) {
    if (!E[id]) { FpSave fs; z3::expr e = build(id); if (!E[id]) E[id] = new z3::expr(e); }
    return *E[id];
}

// ------------------------------------------------------------------ solver


void newsolver() {
    delete SV;
    SV = new z3::solver(*Z);
    for (auto& e : *PC) SV->add(e);
}
void setmodel(z3::model m) { delete MODEL; MODEL = new z3::model(m); }
void addpc(const z3::expr& e) {
    FpSave fs;
    PC->push_back(e); SV->add(e);
    if (MODEL) { delete MODEL; MODEL = 0; }
}
int g_nfallback = 0;
// cvc5 as a second solver: 1 unsat, 2 sat, 0 unknown
int cvc5(const z3::expr& extra, int secs) {
    z3::solver s(*Z); for (auto& e : *PC) s.add(e); s.add(extra);
    char fn[200]; snprintf(fn, 199, "/tmp/vpq_%d.smt2", (int)getpid());
    FILE* f = fopen(fn, "w"); if (!f) return 0;
    fputs("(set-logic QF_NRA)\n", f); fputs(s.to_smt2().c_str(), f); fclose(f);
    char cmd[400]; snprintf(cmd, 399, "timeout %d cvc5 %s 2>/dev/null", secs, fn);
    FILE* p = popen(cmd, "r"); char buf[64] = ""; if (p) { if (!fgets(buf, 63, p)) buf[0] = 0; pclose(p); }
    unlink(fn);
    return strncmp(buf, "unsat", 5) == 0 ? 1 : strncmp(buf, "sat", 3) == 0 ? 2 : 0;
}
z3::check_result query(const z3::expr& extra, z3::model** out) {
    FpSave fs;
    tick();
    double t0 = now();
    z3::check_result r = z3::unknown;
    g_insolver = true;
    if (getenv("VP_DUMPALL")) { z3::solver s(*Z); for (auto& e : *PC) s.add(e); s.add(extra); char fnm[200]; snprintf(fnm, 199, "%s/%d.smt2", getenv("VP_DUMPALL"), (int)getpid()); FILE* f = fopen(fnm, "w"); fputs(s.to_smt2().c_str(), f); fclose(f); }
    auto inc = [&](unsigned ms) {
        try {
            z3::params p(*Z); p.set("timeout", ms); SV->set(p);
            SV->push(); SV->add(extra);
            r = SV->check();
            if (r == z3::sat && out) *out = new z3::model(SV->get_model());
            SV->pop();
        } catch (z3::exception& e) { r = z3::unknown; newsolver(); }
    };
    auto tac = [&](int k, unsigned ms) {
        try {
            z3::tactic t = k == 0 ? z3::tactic(*Z, "qfnra") : k == 1 ? z3::tactic(*Z, "smt") :
                (z3::tactic(*Z, "simplify") & z3::tactic(*Z, "purify-arith") & z3::tactic(*Z, "elim-term-ite") & z3::tactic(*Z, "solve-eqs") & z3::tactic(*Z, "tseitin-cnf") & z3::tactic(*Z, "qfnra-nlsat"));
            z3::solver s = t.mk_solver();
            z3::params p(*Z); p.set("timeout", ms); s.set(p);
            for (auto& e : *PC) s.add(e);
            s.add(extra);
            r = s.check();
            if (r == z3::sat && out) *out = new z3::model(s.get_model());
        } catch (z3::exception& e) { r = z3::unknown; }
    };
    // portfolio; the engine that decided the last hard query goes first
    static int winner = -1;
    bool tried = false;
    if (winner >= 0 && !g_fp) { tac(winner, 1500); tried = true; }
    if (r == z3::unknown) { if (g_nfallback >= 3) inc(300); else inc(1500); if (r != z3::unknown && tried) winner = -1; }
    if (r == z3::unknown && g_fp) inc(60000);
    else if (r == z3::unknown) {
        ++g_nfallback;
        lock(); S->fallbacks++; unlock();
        const int ord[3] = {0, 2, 1};
        for (int k = 0; k < 3 && r == z3::unknown; ++k) { tac(ord[k], 1500); if (r != z3::unknown) winner = ord[k]; }
        int c5 = 0;
        if (r == z3::unknown) { c5 = cvc5(extra, 5); if (c5 == 1) r = z3::unsat; }
        for (int k = 0; k < 3 && r == z3::unknown; ++k) { tac(ord[k], 8000); if (r != z3::unknown) winner = ord[k]; }
        if (r == z3::unknown && c5 == 0) { c5 = cvc5(extra, 40); if (c5 == 1) r = z3::unsat; }
        if (r == z3::unknown) tac(0, 30000);
    }
    g_insolver = false;
    double dt = now() - t0;
    if (getenv("VP_SLOW") && dt > atof(getenv("VP_SLOW"))) { { fprintf(stderr, "slow query %.2fs r=%d", dt, (int)r); for (auto& in : g_inputs) if (in.isconc) fprintf(stderr, " %s=%g", in.name.c_str(), in.conc); fprintf(stderr, " [%s]\n", g_where); }
        if (getenv("VP_DUMP")) { z3::solver s(*Z); for (auto& e : *PC) s.add(e); s.add(extra); FILE* f = fopen(getenv("VP_DUMP"), "w"); fputs(s.to_smt2().c_str(), f); fclose(f);} }
    lock(); S->queries++; S->solver_s = S->solver_s + dt; unlock();
    return r;
}
bool ensuremodel() {
    if (MODEL) return true;
    z3::model* m = 0;
    z3::check_result r = query(Z->bool_val(true), &m);
    if (r == z3::sat) { delete MODEL; MODEL = m; return true; }
    if (r == z3::unsat) { lock(); S->infeasible++; unlock(); leave(); }
    return false;
}
int modeleval(const z3::expr& c) {   // 1 true 0 false -1 unknown
    if (!MODEL) return -1;
    FpSave fs;
    try { z3::expr v = MODEL->eval(c, true); if (v.is_true()) return 1; if (v.is_false()) return 0; } catch (z3::exception&) {}
    return -1;
}

// Numeric evaluation of nodes at the model's inputs: a hint about which side of
// a branch the model takes that avoids exact algebraic numbers.
z3::model* g_nvmodel = 0;
std::vector<double> NV; std::vector<char> NVk;
bool nveval(int id, double& out) {
    if (id < (int)NVk.size() && NVk[id]) { out = NV[id]; return NVk[id] == 1; }
    Node n = N[id];
    double a = 0, b = 0, r = 0; bool ok = true;
    switch (n.op) {
        case CONST: r = n.k; break;
        case VAR: { z3::expr v = MODEL->eval(ex(id), true); r = strtod(v.get_decimal_string(20).c_str(), 0); break; }
        case ITE: {
            int c = n.a; bool neg = N[c].op == B_NOT; if (neg) c = N[c].a;
            ok = nveval(N[c].a, a) && nveval(N[c].b, b) && fabs(a - b) > 1e-7 * (1 + fabs(a) + fabs(b));
            if (ok) { bool t = N[c].op == B_EQ ? false : a < b; if (neg) t = !t; ok = nveval(t ? n.b : n.c, r); }
            break; }
        default:
            ok = nveval(n.a, a);
            if (ok && (n.op == ADD || n.op == SUB || n.op == MUL || n.op == DIV)) ok = nveval(n.b, b);
            if (ok) switch (n.op) {
                case ADD: r = a + b; break; case SUB: r = a - b; break; case MUL: r = a * b; break; case DIV: r = a / b; break;
                case NEG: r = -a; break; case ABS: r = fabs(a); break; case SQRT: r = a < 0 ? 0 : sqrt(a); break;
                case RECIP: ok = fabs(a) > 1e-12; r = 1 / a; break;
                case EXP: r = exp(a); break; case LOG: ok = a > 0; if (ok) r = log(a); break;
                case SIN: r = sin(a); break; case COS: r = cos(a); break; case TAN: r = tan(a); break;
                case ACOS: r = acos(a > 1 ? 1 : a < -1 ? -1 : a); break; case ATAN: r = atan(a); break;
                default: ok = false;
            }
    }
    if (!std::isfinite(r)) ok = false;
    if (id >= (int)NVk.size()) { NVk.resize(id + 64, 0); NV.resize(id + 64, 0); }
    NVk[id] = ok ? 1 : 2; NV[id] = r;
    out = r;
    return ok;
}
int nvhint(int bid) {
    if (g_fp || !MODEL) return -1;
    FpSave fs;
    if (!g_nvmodel || (Z3_model)*g_nvmodel != (Z3_model)*MODEL) { delete g_nvmodel; g_nvmodel = new z3::model(*MODEL); NVk.clear(); NV.clear(); }
    Node n = N[bid];
    if (n.op == B_NOT) { int h = nvhint(n.a); return h < 0 ? h : !h; }
    if (n.op != B_LT && n.op != B_LE && n.op != B_EQ) return -1;
    double a, b;
    try { if (!nveval(n.a, a) || !nveval(n.b, b)) return -1; } catch (z3::exception&) { return -1; }
    if (fabs(a - b) < 1e-7 * (1 + fabs(a) + fabs(b))) return -1;
    return n.op == B_EQ ? 0 : a < b;
}

// Interval bounds of nodes from the bounds of the inputs; they decide many
// comparisons without a query.  Bounds are widened for round-off.
struct Iv { double lo, hi; };
std::map<int, Iv> g_varbounds;
std::vector<Iv> IVc; std::vector<char> IVk;
Iv widen(double lo, double hi) {
    if (std::isnan(lo)) lo = -INFINITY; if (std::isnan(hi)) hi = INFINITY;
    return Iv{lo - 1e-12 * fabs(lo) - 1e-290, hi + 1e-12 * fabs(hi) + 1e-290};
}
int ivcmp(int bid);
Iv ivmul(Iv a, Iv b) {
    double p[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}, lo = INFINITY, hi = -INFINITY;
    for (double x : p) { if (std::isnan(x)) return Iv{-INFINITY, INFINITY}; lo = std::min(lo, x); hi = std::max(hi, x); }
    return widen(lo, hi);
}
Iv iv(int id) {
    if (id < (int)IVk.size() && IVk[id]) return IVc[id];
    Node n = N[id];
    Iv r{-INFINITY, INFINITY}, a, b;
    switch (n.op) {
        case CONST: r = Iv{n.k, n.k}; break;
        case VAR: { auto it = g_varbounds.find(id); if (it != g_varbounds.end()) r = it->second; break; }
        case ADD: a = iv(n.a); b = iv(n.b); r = widen(a.lo + b.lo, a.hi + b.hi); break;
        case SUB: if (n.a == n.b) { r = Iv{0, 0}; break; } a = iv(n.a); b = iv(n.b); r = widen(a.lo - b.hi, a.hi - b.lo); break;
        case MUL:
            a = iv(n.a);
            if (n.a == n.b) { double l = a.lo > 0 ? a.lo : a.hi < 0 ? -a.hi : 0, h = std::max(fabs(a.lo), fabs(a.hi)); r = widen(l * l, h * h); if (l == 0) r.lo = 0; }
            else r = ivmul(a, iv(n.b));
            break;
        case DIV: a = iv(n.a); { double k = N[n.b].k; r = k > 0 ? widen(a.lo / k, a.hi / k) : widen(a.hi / k, a.lo / k); } break;
        case NEG: a = iv(n.a); r = Iv{-a.hi, -a.lo}; break;
        case ABS: a = iv(n.a); r = Iv{a.lo > 0 ? a.lo : a.hi < 0 ? -a.hi : 0, std::max(fabs(a.lo), fabs(a.hi))}; break;
        case SQRT: a = iv(n.a); r = widen(a.lo > 0 ? sqrt(a.lo) : 0, a.hi > 0 ? sqrt(a.hi) : 0); if (r.lo < 0) r.lo = 0; break;
        case RECIP: a = iv(n.a); if (a.lo > 0 || a.hi < 0) r = widen(1 / a.hi, 1 / a.lo); break;
        case ITE: { int c = ivcmp(n.a);
            if (c >= 0) r = iv(c ? n.b : n.c); else { a = iv(n.b); b = iv(n.c); r = Iv{std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; } break; }
        case EXP: a = iv(n.a); r = widen(exp(a.lo), exp(a.hi)); if (r.lo < 0) r.lo = 0; break;
        case LOG: a = iv(n.a); if (a.lo > 0) r = widen(log(a.lo), log(a.hi)); else r = widen(-INFINITY, a.hi > 0 ? log(a.hi) : INFINITY); break;
        case SIN: case COS: r = Iv{-1, 1}; break;
        case ACOS: r = Iv{0, 3.1415926535898}; break;
        default: break;
    }
    if (std::isnan(r.lo) || std::isnan(r.hi)) r = Iv{-INFINITY, INFINITY};
    if (id >= (int)IVk.size()) { IVk.resize(id + 64, 0); IVc.resize(id + 64); }
    IVk[id] = 1; IVc[id] = r;
    return r;
}
int ivcmp(int bid) {
    if (g_fp) return -1;
    Node n = N[bid];
    if (n.op == B_NOT) { int h = ivcmp(n.a); return h < 0 ? h : !h; }
    if (n.op != B_LT && n.op != B_LE && n.op != B_EQ) return -1;
    Iv a = iv(n.a), b = iv(n.b);
    if (a.hi < b.lo) return n.op != B_EQ;
    if (a.lo > b.hi) return 0;
    return -1;
}
// a decided comparison of an input with a constant tightens the input's bounds
void tighten(int bid, bool val) {
    if (g_fp) return;
    Node n = N[bid];
    if (n.op == B_NOT) { tighten(n.a, !val); return; }
    if (n.op != B_LT && n.op != B_LE && n.op != B_EQ) return;
    int v = 0; double lo = -INFINITY, hi = INFINITY;
    if (N[n.a].op == VAR && N[n.b].op == CONST) {
        v = n.a; double k = N[n.b].k;
        if (n.op == B_EQ) { if (!val) return; lo = hi = k; } else if (val) hi = k; else lo = k;
    } else if (N[n.b].op == VAR && N[n.a].op == CONST) {
        v = n.b; double k = N[n.a].k;
        if (n.op == B_EQ) { if (!val) return; lo = hi = k; } else if (val) lo = k; else hi = k;
    } else return;
    Iv& b = g_varbounds[v];
    if (lo > b.lo || hi < b.hi) { b.lo = std::max(b.lo, lo); b.hi = std::min(b.hi, hi); IVk.clear(); IVc.clear(); }
}

// returns 1 in the child, 0 in the parent
int dofork() {
    tick();
    lock(); S->forks++; unlock();
    fflush(stdout); fflush(stderr);
    bool conc = sem_trywait(&S->slots) == 0;
    // bound on the number of idle children kept by one process
    pid_t p = fork();
    if (p < 0) engine_error("fork failed");
    ++g_depth;
    if (p == 0) { g_children.clear(); prctl(PR_SET_PDEATHSIG, SIGKILL); return 1; }
    if (conc) {
        g_children.push_back(p);
        for (size_t i = 0; i < g_children.size();) { int st; if (waitpid(g_children[i], &st, WNOHANG) == g_children[i]) {
            if (!WIFEXITED(st)) { lock(); if (S->nerr < 32) snprintf(S->err[S->nerr], 1023, "child died with status %d", st); S->nerr++; unlock(); }
            g_children.erase(g_children.begin() + i); } else ++i; }
    } else {
        int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (!WIFEXITED(st)) { lock(); if (S->nerr < 32) snprintf(S->err[S->nerr], 1023, "child died with status %d", st); S->nerr++; unlock(); }
        while (sem_wait(&S->slots) != 0) {}
        tick();
    }
    return 0;
}

bool decide_expr(const z3::expr& c0, int bid = 0) {
    FpSave fs;
    z3::expr c = c0.simplify();
    if (c.is_true()) return true;
    if (c.is_false()) return false;
    ensuremodel();
    int me = bid ? nvhint(bid) : -1;
    if (me < 0) me = modeleval(c);
    z3::model *mt = 0, *mf = 0;
    z3::check_result rt = z3::unknown, rf = z3::unknown;
    if (me == 1) { rt = z3::sat; } else rt = query(c, &mt);
    if (rt == z3::unsat) { return false; }
    if (me == 0) rf = z3::sat; else rf = query(!c, &mf);
    if (rf == z3::unsat) { delete mt; return true; }
    if (rt == z3::unknown || rf == z3::unknown) { lock(); S->unknown_branch++; unlock(); }
    // both sides possible
    z3::model* keep = MODEL ? new z3::model(*MODEL) : 0;
    if (dofork()) {
        addpc(c);
        if (mt) MODEL = mt; else if (me == 1 && keep) MODEL = keep;
        return true;
    }
    addpc(!c);
    if (mf) MODEL = mf; else if (me == 0 && keep) MODEL = keep;
    return false;
}
bool decide(int bid) {
    auto it = g_decided.find(bid);
    if (it != g_decided.end()) return it->second;
    FpSave fs;
    int k = ivcmp(bid);
    if (k >= 0) { g_decided[bid] = k; return k; }
    z3::expr e = ex(bid);
    bool r = decide_expr(e, bid);
    g_decided[bid] = r;
    tighten(bid, r);
    return r;
}

// ------------------------------------------------------------------ violations
string inputs_text() {
    string s;
    for (auto& in : g_inputs) {
        char b[512];
        if (in.isconc) { snprintf(b, 511, "%s %.17g\n", in.name.c_str(), in.conc); s += b; continue; }
        if (in.node < 0) continue;
        FpSave fs;
        z3::expr v = MODEL->eval(ex(in.node), true);
        string t;
        if (g_fp) {
            z3::expr bvx(*Z, Z3_mk_fpa_to_ieee_bv(*Z, v)); bvx = bvx.simplify();
            uint64_t u = 0; Z3_get_numeral_uint64(*Z, bvx, &u);
            double d; memcpy(&d, &u, 8); snprintf(b, 511, "%.17g", d); t = b;
        } else {
            t = v.get_decimal_string(25);
            if (!t.empty() && t[t.size() - 1] == '?') t.erase(t.size() - 1);
        }
        s += in.name + " " + t + "\n";
    }
    return s;
}
string ints_text();
bool g_violated = false;
void record_violation(const char* id, const string& detail) {
    g_violated = true;
    string s = string("check ") + id + "\n";
    if (!detail.empty()) s += "detail " + detail + "\n";
    if (!g_notes.empty()) { s += g_notes; }
    s += "inputs\n" + inputs_text() + ints_text();
    lock();
    // at most two counterexamples for one check id
    int same = 0;
    string head = string("check ") + id + "\n";
    for (int i = 0; i < S->nviol && i < 64; ++i) if (strncmp(S->viol[i], head.c_str(), head.size()) == 0) ++same;
    if (same < 12 && S->nviol < 64) { strncpy(S->viol[S->nviol], s.c_str(), 16383); S->nviol++; }
    unlock();
}
void fpcheck(const char* where) {
    if (fetestexcept(FE_INVALID)) engine_error("FE_INVALID raised by uninstrumented code", where);
}
bool settle_quiet();
// completed paths number 1, 2, 4, ... leave their inputs for a native replay
static void record_sample() {
    lock();
    long n = S->paths + 1;
    bool want = (n & (n - 1)) == 0 && S->nsamp < 12;
    unlock();
    if (!want || g_fp || !ensuremodel() || !settle_quiet()) return;
    string s = "check sample\ninputs\n" + inputs_text() + ints_text();
    if (s.size() > 16000) return;
    lock();
    if (S->nsamp < 16) { strcpy(S->samp[S->nsamp], s.c_str()); S->nsamp++; }
    unlock();
}
[[noreturn]] void path_end(bool killed) {
    if (!killed) { fpcheck("end of path"); if (!g_violated) record_sample(); }
    lock();
    if (killed) S->killed++; else S->paths++;
    if (g_depth > S->maxdepth) S->maxdepth = g_depth;
    unlock();
    leave();
}
// Transcendental functions are uninterpreted symbols with axioms.  A model that
// gives one of them a wrong value is refined with lemmas that hold for the real
// function (monotonicity, tangents, Lipschitz bounds at the model's argument).
// Returns false when the model already agrees with the real functions.
double mval(const z3::expr& e) {
    string s = MODEL->eval(e, true).get_decimal_string(30);
    return strtod(s.c_str(), 0);
}
double ufeval(Op op, double x) {
    switch (op) { case EXP: return exp(x); case LOG: return log(x); case SIN: return sin(x); case COS: return cos(x);
        case TAN: return tan(x); case ACOS: return acos(x); case ATAN: return atan(x); default: return NAN; }
}
bool refine_model() {
    FpSave fs;
    if (g_fp || !MODEL) return false;
    std::vector<z3::expr> lem;
    std::vector<int> all;
    for (auto* v : {&g_exps, &g_logs, &g_sins, &g_acoss, &g_ufs}) for (int i : *v) all.push_back(i);
    for (int id : all) {
        Op op = N[id].op;
        z3::expr x = ex(N[id].a), v = ex(id);
        double x0 = mval(x), v0 = mval(v);
        if (op == ACOS) { if (x0 > 1) x0 = 1; if (x0 < -1) x0 = -1; }
        double f = ufeval(op, x0);
        if (!std::isfinite(f)) continue;
        if (fabs(f - v0) <= 1e-10 * (1 + fabs(f))) continue;
        double eps = 1e-12 * (1 + fabs(f));
        z3::expr X = numeral(x0), up = numeral(f + eps), dn = numeral(f - eps);
        if (op == EXP || op == LOG || op == ATAN) {
            lem.push_back(z3::implies(x <= X, v <= up)); lem.push_back(z3::implies(x >= X, v >= dn));
            if (op == EXP) lem.push_back(v >= numeral(f) * (1 + x - X) - numeral(eps));
            if (op == LOG) lem.push_back(v <= up + (x - X) * numeral(1.0 / x0));
        }
        else if (op == ACOS) { lem.push_back(z3::implies(x <= X, v >= dn)); lem.push_back(z3::implies(x >= X, v <= up)); }
        else if (op == SIN || op == COS) {
            double g = op == SIN ? cos(x0) : -sin(x0);
            z3::expr dx = x - X, l = numeral(f) + numeral(g) * dx, q = dx * dx / 2 + numeral(2e-12);
            lem.push_back(v <= l + q); lem.push_back(v >= l - q);
        }
        else lem.push_back(z3::implies(x == X, v <= up && v >= dn));
    }
    if (lem.empty()) return false;
    for (auto& l : lem) addpc(l);
    return true;
}
// asserts `bad`, looks for a model in which it holds with a margin
bool find_violation(const z3::expr& bad, const std::vector<z3::expr>& margins, z3::check_result& r) {
    z3::model* m = 0;
    for (int iter = 0; ; ++iter) {
        m = 0;
        r = query(bad, &m);
        if (r != z3::sat) return false;
        for (auto& g : margins) {
            z3::model* m2 = 0;
            if (query(bad && g, &m2) == z3::sat) { delete m; m = m2; break; }
        }
        delete MODEL; MODEL = m;
        if (iter >= 20) return true;
        z3::model keep(*m);
        if (!refine_model()) return true;
        // keep the inputs of this model and correct the functions' values only
        if (iter % 3 == 2) {
            z3::expr pin = bad;
            for (auto& in : g_inputs) if (!in.isconc && in.node > 0) { z3::expr v = ex(in.node); pin = pin && v == keep.eval(v, true); }
            z3::model* m3 = 0;
            if (query(pin, &m3) == z3::sat) {
                delete MODEL; MODEL = m3;
                if (!refine_model()) return true;
            }
        }
    }
}
bool settle_quiet() {
    z3::check_result r;
    FpSave fs;
    return find_violation(Z->bool_val(true), {}, r);
}

}  // namespace

// ------------------------------------------------------------------ arithmetic
static std::set<const char*> g_seenfn;
static long g_symops;
static void touch(const char* fn) {
    g_where = fn;
    if (!S) return;
    ++g_symops;
    if (g_seenfn.insert(fn).second) tabadd(S->fns, 2048, fn, 1, 0);
}
static int node(double x, const char* fn) {
    if (isbox(x)) return idof(x);
    badbox(x, fn);
    return mk(CONST, 0, 0, 0, x);
}
static bool isc(int n) { return N[n].op == CONST; }
static double ret(int n) { return isc(n) ? N[n].k : box(n); }

static int n_neg(int a) { if (isc(a)) return mk(CONST,0,0,0,-N[a].k); if (N[a].op == NEG) return N[a].a; return mk(NEG, a); }
static int n_add(int a, int b) {
    if (!g_fp) { if (isc(a) && N[a].k == 0) return b; if (isc(b) && N[b].k == 0) return a; }
    if (a > b) std::swap(a, b);
    return mk(ADD, a, b);
}
static int n_sub(int a, int b) {
    if (!g_fp) { if (isc(b) && N[b].k == 0) return a; if (a == b) return mk(CONST,0,0,0,0.0); if (isc(a) && N[a].k == 0) return n_neg(b); }
    return mk(SUB, a, b);
}
static int n_mul(int a, int b) {
    if (!g_fp) for (int k = 0; k < 2; ++k, std::swap(a, b)) if (isc(a)) {
        if (N[a].k == 0) return mk(CONST,0,0,0,0.0);
        if (N[a].k == 1) return b;
        if (N[a].k == -1) return n_neg(b);
    }
    if (!g_fp) {
        if (a == b && N[a].op == SQRT) return N[a].a;
        if (N[a].op == RECIP && N[a].a == b) return mk(CONST,0,0,0,1.0);
        if (N[b].op == RECIP && N[b].a == a) return mk(CONST,0,0,0,1.0);
    }
    if (a > b) std::swap(a, b);
    return mk(MUL, a, b);
}
static int n_cmp(Op op, int a, int b);
static int mkabs(int a) {
    if (g_fp) return mk(ABS, a);
    // |e| and |-e| share a node
    int x = mkfun(ABS, a);
    if (x != 0 && N[x].a == a) {
        z3::expr e = normal(-ex(a));
        auto it = g_canon.find(std::make_pair((int)ABS, Z3_get_ast_id(*Z, e)));
        if (it != g_canon.end() && it->second != x) return it->second;
    }
    return x;
}
static int n_abs(int a) {
    if (isc(a)) return mk(CONST,0,0,0,fabs(N[a].k));
    if (N[a].op == NEG) return n_abs(N[a].a);
    if (N[a].op == ABS || N[a].op == SQRT || N[a].op == EXP) return a;
    if (!g_fp) { Iv v = iv(a); if (v.lo >= 0) return a; if (v.hi <= 0) return n_neg(a); }
    return mkabs(a);
}
static int n_sqrt(int a) {
    if (!g_fp && N[a].op == MUL && N[a].a == N[a].b) return n_abs(N[a].a);
    return mkfun(SQRT, a);
}
static int n_cmp(Op op, int a, int b) {
    if (!g_fp) {
        if (a == b) return -2 - (op == B_LT ? 0 : 1);      // constant
        // sqrt(e) against a constant or another sqrt
        if (N[a].op == SQRT && N[b].op == SQRT) return n_cmp(op, N[a].a, N[b].a);
    }
    if (op == B_EQ && a > b) std::swap(a, b);
    return mk(op, a, b);
}
static bool d_cmp(Op op, int a, int b) {
    int c = n_cmp(op, a, b);
    if (c == -2) return false;
    if (c == -3) return true;
    return decide(c);
}

// a/b for a nonzero b: reciprocals of products are split into their factors
static int n_div(int a, int b) {
    if (isc(b)) {
        if (N[b].k == 1) return a;
        int e; if (frexp(fabs(N[b].k), &e) == 0.5) return n_mul(mk(CONST,0,0,0,1.0 / N[b].k), a);
        return mk(DIV, a, b);
    }
    switch (N[b].op) {
        case NEG: return n_neg(n_div(a, N[b].a));
        case MUL: { int x = N[b].a, y = N[b].b; return n_div(n_div(a, x), y); }
        case DIV: { int x = N[b].a, y = N[b].b; return n_div(n_mul(a, y), x); }
        case RECIP: return n_mul(a, N[b].a);
        default: break;
    }
    if (a == b) return mk(CONST,0,0,0,1.0);
    if (N[a].op == MUL && N[a].a == b) return N[a].b;
    if (N[a].op == MUL && N[a].b == b) return N[a].a;
    return n_mul(a, mkfun(RECIP, b));
}

enum Sp { FIN, PINF, NINF, NAN_ };
static Sp sp(double x) { if (isbox(x)) return FIN; if (std::isnan(x)) return NAN_; if (std::isinf(x)) return x > 0 ? PINF : NINF; return FIN; }
static double conc(double r) { if (r != r) feclearexcept(FE_INVALID); return r; }

extern "C" {
double vp_m_fmod(double x, double y, const char* fn);

void vp_enter(const char* fn) { if (S) tabadd(S->fns, 2048, fn, 0, 1); }
double vp_fadd(double x, double y, const char* fn) {
    if (!isbox(x) && !isbox(y)) return conc(x + y);
    touch(fn);
    if (!g_fp) { if (sp(x) != FIN) return x; if (sp(y) != FIN) return y; }
    return ret(n_add(node(x, fn), node(y, fn)));
}
double vp_fneg(double x, const char* fn) {
    if (!isbox(x)) return -x;
    touch(fn);
    return ret(n_neg(idof(x)));
}
double vp_fsub(double x, double y, const char* fn) {
    if (!isbox(x) && !isbox(y)) return conc(x - y);
    touch(fn);
    if (!g_fp) { if (sp(x) != FIN) return x; if (sp(y) != FIN) return -y; }
    return ret(n_sub(node(x, fn), node(y, fn)));
}
double vp_fmul(double x, double y, const char* fn) {
    if (!isbox(x) && !isbox(y)) return conc(x * y);
    touch(fn);
    if (!g_fp && (sp(x) != FIN || sp(y) != FIN)) {
        if (sp(x) == FIN) std::swap(x, y);
        if (sp(x) == NAN_) return x;
        int b = node(y, fn), z = mk(CONST,0,0,0,0.0);
        if (d_cmp(B_EQ, b, z)) return NAN;
        return d_cmp(B_LT, b, z) ? -x : x;
    }
    return ret(n_mul(node(x, fn), node(y, fn)));
}
double vp_fdiv(double x, double y, const char* fn) {
    if (!isbox(x) && !isbox(y)) return conc(x / y);
    touch(fn);
    if (g_fp) return ret(mk(DIV, node(x, fn), node(y, fn)));
    if (sp(x) == NAN_) return x;
    if (sp(y) == NAN_) return y;
    int z = mk(CONST,0,0,0,0.0);
    if (!isbox(y)) {
        if (sp(y) != FIN) return 0.0;
        if (y == 0) {
            int a = node(x, fn);
            if (d_cmp(B_EQ, a, z)) return NAN;
            bool neg = d_cmp(B_LT, a, z); if (std::signbit(y)) neg = !neg;
            return neg ? -INFINITY : INFINITY;
        }
        int a = node(x, fn);
        if (y == 1) return x;
        int e; if (frexp(y, &e) == 0.5) return ret(n_mul(mk(CONST,0,0,0,1.0 / y), a));
        return ret(mk(DIV, a, mk(CONST,0,0,0,y)));
    }
    int b = idof(y);
    if (d_cmp(B_EQ, b, z)) {
        if (!isbox(x)) { if (x == 0) return NAN; return x > 0 ? INFINITY : -INFINITY; }
        int a = idof(x);
        if (d_cmp(B_EQ, a, z)) return NAN;
        return d_cmp(B_LT, a, z) ? -INFINITY : INFINITY;
    }
    if (sp(x) != FIN) return d_cmp(B_LT, b, z) ? -x : x;
    if (!isbox(x) && x == 0) return 0.0;
    int a = node(x, fn);
    if (a == b) return 1.0;
    if (N[a].op == MUL && N[a].a == b) return ret(N[a].b);
    if (N[a].op == MUL && N[a].b == b) return ret(N[a].a);
    return ret(n_div(a, b));
}
double vp_frem(double x, double y, const char* fn) {
    return vp_m_fmod(x, y, fn);
}

// predicate numbers follow llvm::CmpInst::Predicate
static int cmpbool(int pred, double x, double y, const char* fn, bool& known) {
    // returns node id of boolean (known=false) or constant in return (known=true)
    known = true;
    bool unord_true = pred >= 8;
    int rel = pred & 7;     // bit0 EQ, bit1 GT, bit2 LT
    if (pred == 0) return 0;
    if (pred == 15) return 1;
    bool bx = isbox(x), by = isbox(y);
    if (!bx && !by) {
        badbox(x, fn); badbox(y, fn);
        if (std::isnan(x) || std::isnan(y)) return unord_true;
        if (x == y) return rel & 1;
        if (x > y) return (rel >> 1) & 1;
        return (rel >> 2) & 1;
    }
    touch(fn);
    if (!g_fp) {
        if (sp(x) == NAN_ || sp(y) == NAN_) return unord_true;
        if (rel == 7) return 1;     // ord
        if (rel == 0) return 0;     // uno
        if (sp(x) != FIN || sp(y) != FIN) {
            bool lt = sp(x) == NINF || sp(y) == PINF;
            return lt ? (rel >> 2) & 1 : (rel >> 1) & 1;
        }
    }
    int a = node(x, fn), b = node(y, fn);
    if (g_fp) {
        int r = 0;
        auto E_ = [&]{ return mk(B_EQ, a, b); };
        auto L = [&](int p, int q){ return mk(B_LT, p, q); };
        auto LE = [&](int p, int q){ return mk(B_LE, p, q); };
        known = false;
        // ordered relation, unordered variants through the negated complement
        auto ordrel = [&](int rl) -> int {
            switch (rl) {
                case 1: return E_();
                case 2: return L(b, a);
                case 3: return LE(b, a);
                case 4: return L(a, b);
                case 5: return LE(a, b);
            }
            return 0;
        };
        if (!unord_true) {
            if (rel == 6) { // one
                int e = 0; (void)e;
                bool t = decide(L(a, b)) || decide(L(b, a)); known = true; return t;
            }
            if (rel == 7) { bool t = decide(mk(B_EQ, a, a)) && decide(mk(B_EQ, b, b)); known = true; return t; }
            return ordrel(rel);
        }
        if (rel == 0) { bool t = decide(mk(B_EQ, a, a)) && decide(mk(B_EQ, b, b)); known = true; return !t; }
        // unordered or rel  ==  not (ordered complement)
        int comp = 7 & ~rel;
        if (comp == 6) { bool t = decide(L(a, b)) || decide(L(b, a)); known = true; return !t; }
        return mk(B_NOT, ordrel(comp)); (void)r;
    }
    int c;
    bool neg = false;
    switch (rel) {
        case 1: c = n_cmp(B_EQ, a, b); break;
        case 6: c = n_cmp(B_EQ, a, b); neg = true; break;
        case 2: c = n_cmp(B_LT, b, a); break;
        case 5: c = n_cmp(B_LT, b, a); neg = true; break;
        case 4: c = n_cmp(B_LT, a, b); break;
        case 3: c = n_cmp(B_LT, a, b); neg = true; break;
        default: engine_error("predicate", fn);
    }
    if (c == -2) return neg;
    if (c == -3) return !neg;
    known = false;
    return neg ? mk(B_NOT, c) : c;
}
static bool decide_maybe_not(int c) {
    if (N[c].op == B_NOT) return !decide(N[c].a);
    return decide(c);
}
int vp_fcmp(int pred, double x, double y, const char* fn) {
    bool known; int c = cmpbool(pred, x, y, fn, known);
    if (known) return c;
    return decide_maybe_not(c);
}
static double n_ite(int c, double t, double f, const char* fn) {
    bool neg = N[c].op == B_NOT;
    if (neg) { c = N[c].a; std::swap(t, f); }
    auto it = g_decided.find(c);
    if (it != g_decided.end()) return it->second ? t : f;
    if (bits(t) == bits(f)) return t;
    if (!g_fp && (sp(t) != FIN || sp(f) != FIN)) return decide(c) ? t : f;
    return ret(mk(ITE, c, node(t, fn), node(f, fn)));
}
double vp_fsel(int pred, double x, double y, double t, double f, const char* fn) {
    bool known; int c = cmpbool(pred, x, y, fn, known);
    if (known) return c ? t : f;
    return n_ite(c, t, f, fn);
}
void vp_nosym(double x, const char* fn) { if (isbox(x)) engine_error("symbolic double in unsupported operation", fn); }
int64_t vp_dbits(double x, const char* fn) {
    if (isbox(x) && getenv("VP_STRICTBITS")) engine_error("bits of a symbolic double", fn);
    return (int64_t)bits(x);
}
int vp_fpclass(double x, int mask, const char* fn) {
    if (!isbox(x)) {
        // snan 1 qnan 2 ninf 4 nnorm 8 nsub 16 nzero 32 pzero 64 psub 128 pnorm 256 pinf 512
        int c = std::fpclassify(x); bool n = std::signbit(x);
        int m = c == FP_NAN ? 3 : c == FP_INFINITE ? (n ? 4 : 512) : c == FP_NORMAL ? (n ? 8 : 256) :
            c == FP_SUBNORMAL ? (n ? 16 : 128) : (n ? 32 : 64);
        return (m & mask) != 0;
    }
    if (g_fp) engine_error("fpclass in fp mode", fn);
    int fin = 8 | 16 | 32 | 64 | 128 | 256;
    if ((mask & fin) == fin) return 1;
    if ((mask & fin) == 0) return 0;
    engine_error("fpclass of symbolic value", fn);
}

// ---- integer-valued functions: the integer is enumerated by the solver
enum RK { R_TRUNC, R_FLOOR, R_CEIL, R_ROUND, R_EVEN };
static double rconc(RK k, double v) {
    switch (k) { case R_TRUNC: return trunc(v); case R_FLOOR: return floor(v); case R_CEIL: return ceil(v); case R_EVEN: return rint(v); default: return round(v); }
}
static std::map<std::pair<int,int>, double> g_rounded;
static double roundsym(RK k, double x, const char* fn) {
    FpSave fs;
    touch(fn);
    if (g_fp) engine_error("rounding in fp mode", fn);
    int a = idof(x);
    auto it = g_rounded.find(std::make_pair((int)k, a));
    if (it != g_rounded.end()) return it->second;
    { Iv b = iv(a);
      if (std::isfinite(b.lo) && std::isfinite(b.hi) && rconc(k, b.lo) == rconc(k, b.hi)) { double r = rconc(k, b.lo); g_rounded[std::make_pair((int)k, a)] = r; return r == 0 ? 0.0 : r; } }
    z3::expr e = ex(a);
    for (int iter = 0; iter < 400; ++iter) {
        if (!ensuremodel()) engine_error("no model while rounding", fn);
        string s = MODEL->eval(e, true).get_decimal_string(30);
        double v = strtod(s.c_str(), 0);
        double lo = 0, hi = 0; bool clo = true, chi = false; double r = 0;
        // candidates around v to cope with decimal truncation
        bool ok = false;
        double base = rconc(k, v);
        double tryv[3] = {base, base - 1, base + 1};
        z3::expr c = Z->bool_val(false);
        for (int t = 0; t < 3 && !ok; ++t) {
            r = tryv[t];
            switch (k) {
                case R_FLOOR: lo = r; hi = r + 1; clo = true; chi = false; break;
                case R_CEIL: lo = r - 1; hi = r; clo = false; chi = true; break;
                case R_TRUNC: if (r > 0) { lo = r; hi = r + 1; clo = true; chi = false; }
                    else if (r < 0) { lo = r - 1; hi = r; clo = false; chi = true; }
                    else { lo = -1; hi = 1; clo = false; chi = false; } break;
                case R_EVEN: lo = r - 0.5; hi = r + 0.5; clo = chi = fmod(r, 2) == 0; break;
                case R_ROUND: if (r > 0) { lo = r - 0.5; hi = r + 0.5; clo = true; chi = false; }
                    else if (r < 0) { lo = r - 0.5; hi = r + 0.5; clo = false; chi = true; }
                    else { lo = -0.5; hi = 0.5; clo = false; chi = false; } break;
            }
            c = (clo ? e >= numeral(lo) : e > numeral(lo)) && (chi ? e <= numeral(hi) : e < numeral(hi));
            if (modeleval(c) == 1) ok = true;
        }
        if (!ok) engine_error("rounding candidate", fn);
        if (decide_expr(c)) { g_rounded[std::make_pair((int)k, a)] = r; return r == 0 ? 0.0 : r; }
    }
    engine_error("too many integer values of a symbolic double", fn);
}
int64_t vp_fptoi(double x, int issigned, const char* fn) {
    if (!isbox(x)) { badbox(x, fn);
        if (!(x > -9.3e18 && x < (issigned ? 9.2e18 : 1.8e19))) { feclearexcept(FE_INVALID); return INT64_MIN; }
        return issigned ? (int64_t)x : (int64_t)(uint64_t)x; }
    return (int64_t)roundsym(R_TRUNC, x, fn);
}
double vp_m_floor(double x, const char* fn) { return isbox(x) ? roundsym(R_FLOOR, x, fn) : floor(x); }
double vp_m_ceil(double x, const char* fn) { return isbox(x) ? roundsym(R_CEIL, x, fn) : ceil(x); }
double vp_m_trunc(double x, const char* fn) { return isbox(x) ? roundsym(R_TRUNC, x, fn) : trunc(x); }
double vp_m_round(double x, const char* fn) { return isbox(x) ? roundsym(R_ROUND, x, fn) : round(x); }
double vp_m_rint(double x, const char* fn) { if (isbox(x)) return roundsym(R_EVEN, x, fn); return rint(x); }
double vp_m_nearbyint(double x, const char* fn) { if (isbox(x)) return roundsym(R_EVEN, x, fn); return nearbyint(x); }
double vp_m_roundeven(double x, const char* fn) { if (isbox(x)) return roundsym(R_EVEN, x, fn); return rint(x); }
double vp_m_fabs(double x, const char* fn) {
    if (!isbox(x)) return fabs(x);
    touch(fn); return ret(n_abs(idof(x)));
}
double vp_m_copysign(double x, double y, const char* fn) {
    if (!isbox(x) && !isbox(y)) return copysign(x, y);
    if (isbox(y)) engine_error("copysign", fn);
    double a = vp_m_fabs(x, fn);
    return std::signbit(y) ? vp_fneg(a, fn) : a;
}
double vp_m_sqrt(double x, const char* fn) {
    if (!isbox(x)) return conc(sqrt(x));
    touch(fn);
    int a = idof(x);
    if (g_fp) return ret(mk(SQRT, a));
    int z = mk(CONST,0,0,0,0.0);
    if (!(N[a].op == MUL && N[a].a == N[a].b) && d_cmp(B_LT, a, z)) return NAN;
    return ret(n_sqrt(a));
}
static double uf(Op op, double x, const char* fn) { touch(fn); return ret(mkfun(op, idof(x))); }
double vp_m_exp(double x, const char* fn) { return isbox(x) ? uf(EXP, x, fn) : exp(x); }
double vp_m_log(double x, const char* fn) {
    if (!isbox(x)) return conc(log(x));
    int z = mk(CONST,0,0,0,0.0);
    if (d_cmp(B_LT, idof(x), z)) return NAN;
    if (d_cmp(B_EQ, idof(x), z)) return -INFINITY;
    if (N[idof(x)].op == EXP) return ret(N[idof(x)].a);
    return uf(LOG, x, fn);
}
double vp_m_sin(double x, const char* fn) { return isbox(x) ? uf(SIN, x, fn) : conc(sin(x)); }
double vp_m_cos(double x, const char* fn) { return isbox(x) ? uf(COS, x, fn) : conc(cos(x)); }
double vp_m_tan(double x, const char* fn) { return isbox(x) ? uf(TAN, x, fn) : conc(tan(x)); }
double vp_m_atan(double x, const char* fn) { return isbox(x) ? uf(ATAN, x, fn) : atan(x); }
static double inv1(Op op, double x, const char* fn) {
    int o = mk(CONST,0,0,0,1.0), m = mk(CONST,0,0,0,-1.0);
    if (!g_fp && (d_cmp(B_LT, o, idof(x)) || d_cmp(B_LT, idof(x), m))) return NAN;
    return uf(op, x, fn);
}
double vp_m_acos(double x, const char* fn) { return isbox(x) ? inv1(ACOS, x, fn) : conc(acos(x)); }
double vp_m_asin(double x, const char* fn) {
    if (!isbox(x)) return conc(asin(x));
    return vp_fsub(M_PI_2, inv1(ACOS, x, fn), fn);
}
double vp_m_pow(double x, double y, const char* fn) {
    if (!isbox(x) && !isbox(y)) return conc(pow(x, y));
    if (!isbox(y) && y == (int)y && fabs(y) <= 8) {
        int n = abs((int)y); double r = 1.0;
        for (int i = 0; i < n; ++i) r = vp_fmul(r, x, fn);
        return y < 0 ? vp_fdiv(1.0, r, fn) : r;
    }
    if (!isbox(y) && y == 0.5) return vp_m_sqrt(x, fn);
    engine_error("symbolic pow", fn);
}
double vp_m_fma(double x, double y, double z, const char* fn) { return vp_fadd(vp_fmul(x, y, fn), z, fn); }
double vp_m_fmin(double x, double y, const char* fn) {
    if (!isbox(x) && !isbox(y)) return fmin(x, y);
    if (g_fp) return ret(mk(MIN_, node(x, fn), node(y, fn)));
    if (sp(x) == NAN_) return y; if (sp(y) == NAN_) return x;
    return vp_fsel(4, x, y, x, y, fn);
}
double vp_m_fmax(double x, double y, const char* fn) {
    if (!isbox(x) && !isbox(y)) return fmax(x, y);
    if (g_fp) return ret(mk(MAX_, node(x, fn), node(y, fn)));
    if (sp(x) == NAN_) return y; if (sp(y) == NAN_) return x;
    return vp_fsel(2, x, y, x, y, fn);
}
double vp_m_hypot(double x, double y, const char* fn) {
    if (!isbox(x) && !isbox(y)) return hypot(x, y);
    return vp_m_sqrt(vp_fadd(vp_fmul(x, x, fn), vp_fmul(y, y, fn), fn), fn);
}
#define UNSUP1(f) double vp_m_##f(double x, const char* fn) { if (isbox(x)) engine_error("symbolic " #f, fn); return conc(f(x)); }
#define UNSUP2(f) double vp_m_##f(double x, double y, const char* fn) { if (isbox(x) || isbox(y)) engine_error("symbolic " #f, fn); return conc(f(x, y)); }
UNSUP1(cbrt) UNSUP1(log10) UNSUP1(log2) UNSUP1(exp2) UNSUP1(expm1) UNSUP1(log1p)
UNSUP1(sinh) UNSUP1(cosh) UNSUP1(tanh) UNSUP1(erf)
UNSUP2(atan2)
double vp_m_fmod(double x, double y, const char* fn) {
    if (!isbox(x) && !isbox(y)) return conc(fmod(x, y));
    return vp_fsub(x, vp_fmul(y, vp_m_trunc(vp_fdiv(x, y, fn), fn), fn), fn);
}
double vp_m_remainder(double x, double y, const char* fn) {
    if (!isbox(x) && !isbox(y)) return conc(remainder(x, y));
    return vp_fsub(x, vp_fmul(y, vp_m_rint(vp_fdiv(x, y, fn), fn), fn), fn);
}

// ------------------------------------------------------------------ harness API
static string uniq(const char* name) {
    int& k = g_names[name];
    string s = name;
    if (k++) s += "#" + std::to_string(k);
    return s;
}
static double symvar(const char* name, double lo, double hi, bool open) {
    FpSave fs;
    string nm = uniq(name);
    if (lo == hi) { g_inputs.push_back(Input{nm, 0, lo, true}); return lo; }
    int id = N.size();
    N.push_back(Node{VAR, 0, 0, 0, 0});
    if (g_fp) {
        z3::expr v = Z->constant(nm.c_str(), Z->fpa_sort(11, 53));
        E.push_back(new z3::expr(v));
        if (lo == lo && !(lo == -INFINITY && hi == INFINITY)) {
            addpc(z3::expr(*Z, open ? Z3_mk_fpa_lt(*Z, Z->fpa_val(lo), v) : Z3_mk_fpa_leq(*Z, Z->fpa_val(lo), v)));
            addpc(z3::expr(*Z, open ? Z3_mk_fpa_lt(*Z, v, Z->fpa_val(hi)) : Z3_mk_fpa_leq(*Z, v, Z->fpa_val(hi))));
        }
    } else {
        z3::expr v = Z->real_const(nm.c_str());
        E.push_back(new z3::expr(v));
        addpc(open ? v > numeral(lo) : v >= numeral(lo));
        addpc(open ? v < numeral(hi) : v <= numeral(hi));
    }
    if (!g_fp) g_varbounds[id] = Iv{lo, hi};
    g_inputs.push_back(Input{nm, id, 0, false});
    return box(id);
}
double vp_sym(const char* name, double lo, double hi) { return symvar(name, lo, hi, false); }
double vp_symx(const char* name, double lo, double hi) { return symvar(name, lo, hi, true); }
int vp_choose(const char* name, int n) {
    string nm = uniq(name);
    int v = 0;
    while (v < n - 1 && !dofork()) ++v;
    g_inputs.push_back(Input{nm, 0, (double)v, true});
    return v;
}
void vp_assume(int c) { if (!c) path_end(true); }
static void assume_c(int c) {
    FpSave fs;
    if (c == -3) return;
    if (c == -2) path_end(true);
    auto it = g_decided.find(c);
    if (it != g_decided.end()) { if (it->second) return; path_end(true); }
    tighten(c, true);
    addpc(ex(c)); g_decided[c] = 1; if (N[c].op == B_NOT) g_decided[N[c].a] = 0;
    z3::model* m = 0;
    z3::check_result r = query(Z->bool_val(true), &m);
    if (r == z3::unsat) path_end(true);
    if (r == z3::sat) MODEL = m;
}
void vp_assume_lt(double a, double b) {
    if (!isbox(a) && !isbox(b)) { vp_assume(a < b); return; }
    assume_c(n_cmp(B_LT, node(a, "assume"), node(b, "assume")));
}
void vp_assume_le(double a, double b) {
    if (!isbox(a) && !isbox(b)) { vp_assume(a <= b); return; }
    assume_c(n_cmp(B_LE, node(a, "assume"), node(b, "assume")));
}
void vp_assume_ne(double a, double b) {
    if (!isbox(a) && !isbox(b)) { vp_assume(a != b); return; }
    int c = n_cmp(B_EQ, node(a, "assume"), node(b, "assume"));
    if (c == -3) path_end(true);
    if (c == -2) return;
    assume_c(mk(B_NOT, c));
}
static void settle_model();
void vp_check(int cond, const char* id) {
    fpcheck(id);
    if (cond) { tabadd(S->checks, 1024, id, 1, 0); lock(); S->checks_proved++; unlock(); return; }
    if (!ensuremodel()) { lock(); S->unknown_check++; unlock(); path_end(false); }
    settle_model();
    tabadd(S->checks, 1024, id, 0, 1);
    record_violation(id, "");
    path_end(false);
}
// the current path is about to be reported: make its model agree with the real
// functions, or drop the path when it turns out to be infeasible
static void settle_model() {
    if (g_fp) return;
    z3::check_result r;
    FpSave fs;
    if (!find_violation(Z->bool_val(true), {}, r)) {
        if (r == z3::unsat) path_end(true);
        lock(); S->unknown_check++; unlock(); path_end(false);
    }
}
static void finish_check(const z3::expr& bad0, const std::vector<z3::expr>& margins, const char* id, const string& det) {
    g_where = id;
    z3::expr bad = bad0;
    z3::check_result r;
    if (find_violation(bad, margins, r)) {
        tabadd(S->checks, 1024, id, 0, 1);
        record_violation(id, det);
        path_end(false);
    }
    if (r == z3::unknown) { lock(); S->unknown_check++; unlock(); tabadd(S->checks, 1024, (string("UNKNOWN ") + id).c_str(), 1, 0); return; }
    tabadd(S->checks, 1024, id, 1, 0);
    lock(); S->checks_proved++; unlock();
}
void vp_check_eq(double a, double b, double tol, const char* id) {
    fpcheck(id);
    if (bits(a) == bits(b)) { tabadd(S->checks, 1024, id, 1, 0); lock(); S->checks_proved++; S->trivial++; unlock(); return; }
    if (!isbox(a) && !isbox(b)) {
        badbox(a, id); badbox(b, id);
        bool ok = (std::isnan(a) && std::isnan(b)) || a == b || (!std::isnan(a) && !std::isnan(b) && fabs(a - b) <= (tol > 0 ? tol : 1e-9 * (1 + fabs(a))));
        if (!ok) { char t[200]; snprintf(t, 199, "%.17g != %.17g", a, b); g_notes += string("detail ") + t + "\n"; }
        vp_check(ok, id); return;
    }
    if (!g_fp && (sp(a) != FIN || sp(b) != FIN)) { g_notes += "detail special value against finite value\n"; vp_check(0, id); return; }
    int na = node(a, id), nb = node(b, id);
    if (g_fp) {
        z3::expr bad = !z3::expr(*Z, Z3_mk_eq(*Z, ex(na), ex(nb)));
        finish_check(bad, {}, id, ""); return;
    }
    FpSave fs;
    z3::params p(*Z); p.set("som", true);
    z3::expr d = (ex(na) - ex(nb)).simplify(p);
    if (d.is_numeral() && tol > 0) {
        double v = fabs(strtod(d.get_decimal_string(20).c_str(), 0));
        if (v < 0.5 * tol) { tabadd(S->checks, 1024, id, 1, 0); lock(); S->checks_proved++; S->trivial++; unlock(); return; }
    }
    auto bad = [&](double t) { return d > numeral(t) || d < numeral(-t); };
    std::vector<z3::expr> mg;
    mg.push_back(bad(std::max(tol * 1e4, 1e-2))); mg.push_back(bad(std::max(tol * 1e2, 1e-4))); mg.push_back(bad(10 * tol));
    finish_check(bad(tol), mg, id, "");
}
void vp_check_le(double a, double b, double tol, const char* id) {
    fpcheck(id);
    if (!isbox(a) && !isbox(b)) {
        badbox(a, id); badbox(b, id);
        bool ok = a <= b + tol;
        feclearexcept(FE_INVALID);   // a NaN fails the check
        if (!ok) { char t[200]; snprintf(t, 199, "%.17g > %.17g", a, b); g_notes += string("detail ") + t + "\n"; }
        vp_check(ok, id); return;
    }
    if (!g_fp && (sp(a) != FIN || sp(b) != FIN)) { vp_check(sp(a) == NINF || sp(b) == PINF, id); return; }
    FpSave fs;
    int na = node(a, id), nb = node(b, id);
    if (g_fp) { finish_check(!z3::expr(*Z, Z3_mk_fpa_leq(*Z, ex(na), ex(nb))), {}, id, ""); return; }
    z3::expr d = (ex(na) - ex(nb)).simplify();
    std::vector<z3::expr> mg;
    mg.push_back(d > numeral(std::max(tol * 1e4, 1e-2))); mg.push_back(d > numeral(std::max(tol * 1e2, 1e-4))); mg.push_back(d > numeral(10 * tol));
    finish_check(d > numeral(tol), mg, id, "");
}
void vp_check_finite(double a, const char* id) {
    fpcheck(id);
    if (isbox(a)) {
        if (g_fp) { finish_check(z3::expr(*Z, Z3_mk_fpa_is_nan(*Z, ex(idof(a)))) || z3::expr(*Z, Z3_mk_fpa_is_infinite(*Z, ex(idof(a)))), {}, id, ""); return; }
        vp_check(1, id); return;
    }
    badbox(a, id);
    vp_check(std::isfinite(a), id);
}
void vp_reach(const char* label) {
    // a witness counts only when the path condition has a model
    ensuremodel();
    tabadd(S->reach, 256, label, 1, 0);
}
void vp_mode(const char* m) {
    if (strcmp(m, "trigperiod") == 0) { g_trigperiod = true; return; }
    g_fp = strcmp(m, "fp") == 0;
}
void vp_note(const char* t) { g_notes += string("note ") + t + "\n"; }
int vp_is_native(void) { return 0; }

}  // extern "C"

#include "vpints.inc"

// ------------------------------------------------------------------ main
static void onsignal(int sig) {
    signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL); signal(SIGFPE, SIG_DFL); signal(SIGBUS, SIG_DFL);
    if (g_insolver) engine_error("signal inside the solver");
    sigset_t ss; sigemptyset(&ss); sigaddset(&ss, sig); sigprocmask(SIG_UNBLOCK, &ss, 0);
    if (getenv("VP_TRACE")) { void* bt[60]; int n = backtrace(bt, 60); backtrace_symbols_fd(bt, n, 2); }
    feclearexcept(FE_INVALID);
    char t[100]; snprintf(t, 99, "crash-signal-%d", sig);
    if (!ensuremodel()) engine_error("crash without model");
    settle_model();
    tabadd(S->checks, 1024, t, 0, 1);
    record_violation(t, "");
    path_end(false);
}
static void jstr(FILE* f, const char* s) {
    fputc('"', f);
    for (; *s; ++s) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
        else if (c == '\n') fputs("\\n", f);
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}
int main(int argc, char** argv) {
    double budget = argc > 2 ? atof(argv[2]) : 600;
    int jobs = argc > 3 ? atoi(argv[3]) : 8;
    S = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)S, 0, sizeof(Shared));
    sem_init(&S->slots, 1, jobs); sem_init(&S->lock, 1, 1);
    double t0 = now();
    S->deadline = t0 + budget;
    pid_t p = fork();
    if (p == 0) {
        setpgid(0, 0);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        while (sem_wait(&S->slots) != 0) {}
        stack_t ss; ss.ss_sp = malloc(1 << 20); ss.ss_size = 1 << 20; ss.ss_flags = 0; sigaltstack(&ss, 0);
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsignal; sa.sa_flags = SA_NODEFER;
        sigaction(SIGSEGV, &sa, 0); sigaction(SIGABRT, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGBUS, &sa, 0);
        z3::set_param("smt.random_seed", getenv("VERIF_SEED") ? getenv("VERIF_SEED") : "1");
        Z = new z3::context; PC = new std::vector<z3::expr>; newsolver();
        feclearexcept(FE_ALL_EXCEPT);
        if (getenv("VP_TRAP")) feenableexcept(FE_INVALID);
        vp_main();
        path_end(false);
    }
    setpgid(p, p);
    int st; bool killed = false;
    for (;;) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (now() > S->deadline + 20) { kill(-p, SIGKILL); S->timeouts++; killed = true; waitpid(p, &st, 0); break; }
        usleep(5000);
    }
    (void)killed;
    if (!killed && (!WIFEXITED(st) || WEXITSTATUS(st))) { S->nerr++; if (S->nerr <= 32) snprintf(S->err[S->nerr - 1], 1023, "root died with status %d", st); }
    kill(-p, SIGKILL);
    FILE* f = argc > 1 ? fopen(argv[1], "w") : stdout;
    fprintf(f, "{\"paths\":%ld,\"killed\":%ld,\"infeasible\":%ld,\"forks\":%ld,\"maxdepth\":%ld,\"queries\":%ld,\"solver_s\":%.3f,\"wall_s\":%.3f,\"checks_proved\":%ld,\"trivial\":%ld,"
        "\"fallbacks\":%ld,\"unknown_branch\":%ld,\"unknown_check\":%ld,\"timeouts\":%ld,\"nerr\":%ld,\"nviol\":%ld,\n",
        S->paths, S->killed, S->infeasible, S->forks, S->maxdepth, S->queries, S->solver_s, now() - t0, S->checks_proved, S->trivial,
        S->fallbacks, S->unknown_branch, S->unknown_check, S->timeouts, S->nerr, S->nviol);
    auto tab = [&](const char* nm, Tab* t, int n) {
        fprintf(f, "\"%s\":{", nm);
        for (int i = 0; i < n && t[i].name[0]; ++i) { if (i) fputc(',', f); jstr(f, t[i].name); fprintf(f, ":[%ld,%ld]", t[i].n, t[i].m); }
        fprintf(f, "},\n");
    };
    tab("reach", S->reach, 256); tab("checks", S->checks, 1024); tab("functions", S->fns, 2048);
    fprintf(f, "\"errors\":[");
    for (int i = 0; i < S->nerr && i < 32; ++i) { if (i) fputc(',', f); jstr(f, S->err[i]); }
    fprintf(f, "],\n\"violations\":[");
    for (int i = 0; i < S->nviol && i < 64; ++i) { if (i) fputc(',', f); jstr(f, S->viol[i]); }
    fprintf(f, "],\n\"samples\":[");
    for (int i = 0; i < S->nsamp && i < 16; ++i) { if (i) fputc(',', f); jstr(f, S->samp[i]); }
    fprintf(f, "]}\n");
    fclose(f);
    return 0;
}
