// Bond valence parameters: lookups after any sequence of table operations,
// the valence formula and its inverse, and loading of the standard data.
#include "common.hpp"
#include <cstdlib>
#include <fstream>
#include <map>
#include <diffpy/srreal/BVParametersTable.hpp>

typedef std::pair<std::pair<string, int>, std::pair<string, int> > Key;
struct Par { double Ro, B; };

static Key key(string a, int va, string b, int vb)
{
    std::pair<string, int> x(a, va), y(b, vb);
    if (vb > va || (va == vb && b < a)) std::swap(x, y);
    return Key(x, y);
}

static std::map<Key, Par> standard()
{
    std::map<Key, Par> rv;
    std::ifstream fp((string(getenv("DIFFPYRUNTIME")) + "/bvparm2011sel.cif").c_str());
    string line;
    bool on = false;
    while (getline(fp, line))
    {
        std::istringstream ls(line);
        string a, b;
        int v, w;
        Par p;
        if (line.find("_valence_param_B") != string::npos) on = true;
        if (!on || line.empty() || line[0] == '#') continue;
        if (ls >> a >> v >> b >> w >> p.Ro >> p.B) rv[key(a, v, b, w)] = p;
    }
    return rv;
}

struct U { const char* a; int v; const char* b; int w; };
static const U uni[] = {{"Na", 1, "Cl", -1}, {"Pt", 2, "C", 2}, {"Fe", 9, "Br", -1}, {"Fe", 2, "Br", -1}, {"Xx", 1, "Aa", 1}};
static const int NU = 5;
static const U asked[] = {{"Na", 1, "Cl", -1}, {"Pt", 2, "C", 2}, {"Fe", 9, "Br", -1}, {"Fe", 2, "Br", -1}, {"Xx", 1, "Aa", 1},
    {"Fe", 5, "Br", -1}, {"Fe", -2, "Br", -1}, {"Fe", 0, "Br", -1}, {"Na", -1, "Cl", 1}, {"Xx", 2, "Aa", 1}, {"Cl", 0, "Na", 0}};
static const int NA = 11;

static bool expected(const std::map<Key, Par>& cust, const std::map<Key, Par>& stdt, Key k, Par& p)
{
    for (int pass = 0; pass < 2; ++pass)
    {
        if (cust.count(k)) { p = cust.find(k)->second; return true; }
        if (stdt.count(k)) { p = stdt.find(k)->second; return true; }
        if (k.first.second <= 0) return false;
        k.first.second = 9;
    }
    return false;
}

static void check_lookups(const BVParametersTable& t, const std::map<Key, Par>& cust, const std::map<Key, Par>& stdt)
{
    for (int i = 0; i < NA; ++i) for (int sw = 0; sw < 2; ++sw)
    {
        const U& u = asked[i];
        const BVParam& bp = sw ? t.lookup(u.b, u.w, u.a, u.v) : t.lookup(u.a, u.v, u.b, u.w);
        Par p;
        bool has = expected(cust, stdt, key(u.a, u.v, u.b, u.w), p);
        vp_check(has == (&bp != &t.none()), "known pairs");
        if (!has) { vp_check(bp == BVParam(), "blank parameters of an unknown pair"); continue; }
        vp_check_eq(bp.mRo, p.Ro, 1e-12, "Ro");
        vp_check_eq(bp.mB, p.B, 1e-12, "B");
        vp_check((bp.matom0 == u.a && bp.matom1 == u.b) || (bp.matom0 == u.b && bp.matom1 == u.a), "atoms");
    }
}

void vp_main()
{
    const std::map<Key, Par> stdt = standard();
    vp_check(stdt.size() > 500, "standard data");
    const char* home = getenv("DIFFPYRUNTIME");
    const string rt = home;
    switch (vp_choose("part", 3))
    {
        case 0:
        {
            BVParametersTable t, other;
            t.lookup("Na1+", "Cl1-");
            std::map<Key, Par> cust;
            const int nops = VP_T(2, 3);
            for (int op = 0; op < nops; ++op)
            {
                const int what = vp_choose("op", 2 * NU + NU + 1);
                if (what == 3 * NU) { t.resetAll(); cust.clear(); continue; }
                const U& u = uni[what % NU];
                const Key k = key(u.a, u.v, u.b, u.w);
                if (what < 2 * NU)
                {
                    Par p = {vp_sym("Ro", 0.5, 4), vp_sym("B", 0.2, 0.6)};
                    if (what < NU) t.setCustom(u.a, u.v, u.b, u.w, p.Ro, p.B, "x");
                    else t.setCustom(BVParam(u.b, u.w, u.a, u.v, p.Ro, p.B));
                    cust[k] = p;
                }
                else
                {
                    if (op % 2) t.resetCustom(u.b, u.w, u.a, u.v);
                    else t.resetCustom(BVParam(u.a, u.v, u.b, u.w, 77, 88));
                    cust.erase(k);
                }
            }
            check_lookups(t, cust, stdt);
            check_lookups(other, std::map<Key, Par>(), stdt);
            vp_check(t.getAllCustom().size() == cust.size(), "number of custom parameters");
            BVParametersTable::SetOfBVParam all = t.getAll();
            size_t n = stdt.size();
            for (auto kp : cust) n += !stdt.count(kp.first);
            vp_check(all.size() == n, "number of all parameters");
            for (auto kp : cust)
            {
                BVParam bp(kp.first.first.first, kp.first.first.second, kp.first.second.first, kp.first.second.second);
                BVParametersTable::SetOfBVParam::const_iterator it = all.find(bp);
                vp_check(it != all.end(), "custom parameters are listed");
                if (it != all.end()) vp_check_eq(it->mRo, kp.second.Ro, 1e-12, "listed parameters");
            }
            vp_reach("custom");
            break;
        }
        case 1:
        {
            // atom valences from the symbol or as customized
            BVParametersTable t;
            const char* s[5] = {"Na1+", "Cl1-", "Na", "Cl", "Fe2+"};
            const char* bare[5] = {"Na", "Cl", "Na", "Cl", "Fe"};
            int v[5] = {1, -1, 0, 0, 2};
            const int dv[5] = {1, -1, 0, 0, 2};
            for (int op = 0; op < 3; ++op)
            {
                int what = vp_choose("valence op", 6);
                int val = what < 5 ? vp_choose("valence", 3) - 1 : 0;
                if (what == 5) { t.resetAtomValences(); std::copy(dv, dv + 5, v); }
                else { t.setAtomValence(s[what], val); v[what] = val; }
            }
            for (int i = 0; i < 5; ++i) vp_check(t.getAtomValence(s[i]) == v[i], "getAtomValence");
            for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j)
            {
                Par p;
                bool has = expected(std::map<Key, Par>(), stdt, key(bare[i], v[i], bare[j], v[j]), p);
                const BVParam& bp = t.lookup(s[i], s[j]);
                vp_check(has == (&bp != &t.none()), "pairs by symbol");
                if (has) vp_check_eq(bp.mRo, p.Ro, 1e-12, "Ro by symbol");
            }
            vp_reach("valences");
            break;
        }
        case 2:
        {
            // a failed load must not be taken for an empty table
            if (vp_choose("fail", 2))
            {
                setenv("DIFFPYRUNTIME", vp_choose("where", 2) ? "/" : "/no/such/place", 1);
                bool failed = false;
                try { BVParametersTable t; if (vp_choose("by", 2)) t.getAll(); else t.lookup("Na", 1, "Cl", -1); }
                catch (std::exception&) { failed = true; }
                vp_check(failed, "missing data are reported");
                setenv("DIFFPYRUNTIME", rt.c_str(), 1);
            }
            BVParametersTable t;
            check_lookups(t, std::map<Key, Par>(), stdt);
            vp_check(t.getAll().size() == stdt.size(), "complete standard table");
            // valence of a bond and the length that has it
            BVParam bp("A", 1, "B", -1, vp_sym("Ro", 0.5, 4), vp_sym("B", -0.1, 0.6));
            const double d = vp_sym("d", 0.1, 6), w = 0.05 * (1 + vp_choose("w", 3));
            if (bp.mB > 0)
            {
                vp_check_eq(bp.bondvalence(d), exp((bp.mRo - d) / bp.mB), 1e-12, "bondvalence");
                vp_assume(bp.mB > 0.2);
                const double x = bp.bondvalenceToDistance(w);
                vp_check_eq(bp.mRo - x, bp.mB * log(w), 1e-9, "bondvalenceToDistance");
            }
            else vp_check(bp.bondvalence(d) == 0, "no valence without parameters");
            vp_reach("formula");
        }
    }
}
