// Scattering factor and radii tables: custom values, resets, tickers, clones,
// atom symbol variants and formulas of the standard factors.
#include "common.hpp"
#include <diffpy/srreal/ScatteringFactorTable.hpp>
#include <diffpy/srreal/AtomRadiiTable.hpp>
#include <diffpy/srreal/ConstantRadiiTable.hpp>
#include <diffpy/srreal/PDFCalculator.hpp>
#include <diffpy/srreal/DebyePDFCalculator.hpp>
#include <map>

using diffpy::eventticker::EventTicker;
static const char* TYPES[4] = {"xray", "neutron", "electron", "electronnumber"};
static const char* RAD[4] = {"X", "N", "E", "EN"};

static bool known(const ScatteringFactorTable& t, const string& s)
{
    try { t.standardLookup(s, 1.0); } catch (std::invalid_argument&) { return false; }
    return true;
}

// formulas of the standard factors over Q
static void formulas()
{
    ScatteringFactorTablePtr x = ScatteringFactorTable::createByType("xray"), e = ScatteringFactorTable::createByType("electron"),
        n = ScatteringFactorTable::createByType("neutron"), z = ScatteringFactorTable::createByType("electronnumber");
    const char* S[6] = {"C", "Na1+", "O2-", "Cl1-", "Pb", "Fe3+"};
    const string s = S[vp_choose("symbol", VP_T(4, 6))];
    const double q = vp_sym("q", 0.01, 20), st = q / (4 * M_PI);
    const double fx = x->lookup(s, q), fe = e->lookup(s, q);
    // Mott-Bethe relation of the electron and x-ray factors
    const double Z = floor(x->lookup(s, 0) + 0.5);
    vp_check_eq(fe * (st * st), 0.023934 * (Z - fx), 1e-9, "Mott-Bethe formula");
    vp_check_eq(Z, z->lookup(s, q), 0, "all electrons scatter at Q = 0");
    // other factors do not depend on Q
    vp_check_eq(n->lookup(s, q), n->lookup(s), 0, "neutron length");
    vp_check_eq(z->lookup(s, q), z->lookup(s, 3), 0, "electron number");
    vp_check_eq(x->lookup(s), x->lookup(s, 0), 0, "default Q");
    // x-ray factors are even functions, largest at the origin
    vp_check_eq(x->lookup(s, -q), fx, 0, "even function");
    vp_check_le(fx, x->lookup(s, 0), 1e-9, "largest at the origin");
    vp_reach("formulas");
}

// variants of the atom symbol
static void symbols()
{
    const int k = vp_choose("table", 4);
    ScatteringFactorTablePtr t = ScatteringFactorTable::createByType(TYPES[k]);
    vp_check(t->type() == TYPES[k] && t->radiationType() == RAD[k], "type");
    vp_check(ScatteringFactorTable::createByType(RAD[k])->type() == TYPES[k], "alias");
    const double q = vp_sym("q", 0.5, 10);
    const char* SAME[6][3] = {{"Na1+", "Na+", 0}, {"Cl1-", "Cl-", 0}, {"C", "C0+", 0}, {"O2-", "O2-", 0}, {"12-C", "12-C4+", 0}, {"D", "D1+", 0}};
    const int s = vp_choose("symbol", 6);
    const bool ok = known(*t, SAME[s][0]);
    vp_check(s >= 4 || ok, "known symbol");
    vp_check(k != 1 || ok, "neutron isotopes");
    if (ok && (s < 3 || k == 1))
    {
        vp_check(known(*t, SAME[s][1]), "variant of the symbol");
        vp_check_eq(t->lookup(SAME[s][0], q), t->lookup(SAME[s][1], q), 0, "variant of the symbol");
        vp_reach("symbols");
    }
    bool bad = false;
    try { t->lookup("Xx", q); } catch (std::invalid_argument&) { bad = true; }
    vp_check(bad, "unknown symbol");
    bad = false;
    try { t->lookup("", q); } catch (std::invalid_argument&) { bad = true; }
    vp_check(bad, "empty symbol");
    // custom factor for an unknown symbol
    t->setCustomAs("Xx", "C");
    vp_check_eq(t->lookup("Xx", q), t->lookup("C", q), 0, "custom symbol");
    bad = false;
    EventTicker t0 = t->ticker();
    try { t->setCustomAs("Yy", "Xx", 2, 1); } catch (std::invalid_argument&) { bad = true; }
    // custom symbols are no source of others
    if (bad) vp_check(!(t0 < t->ticker()) && !t->getCustomSymbols().count("Yy"), "refused entry leaves no trace");
}

// histories of custom values
static void custom()
{
    const int k = vp_choose("table", 4);
    ScatteringFactorTablePtr t = ScatteringFactorTable::createByType(TYPES[k]);
    const char* S[3] = {"C", "O2-", "X"};
    struct Entry { bool set; string src; double v, q0; bool scaled; };
    Entry e[3] = {{false, "", 0, 0, false}, {false, "", 0, 0, false}, {false, "", 0, 0, false}};
    const bool neg = VP_T(k % 2, vp_choose("negative", 2));
    const double v = vp_sym("value", neg ? -3 : 10, neg ? -0.5 : 20), q0 = 2.5;
    const int N = VP_T(3, 4);
    ScatteringFactorTablePtr orig;
    PDFCalculator owner;
    owner.setScatteringFactorTable(t);
    for (int step = 0; step < N; ++step)
    {
        const int op = vp_choose("operation", 6);
        const int i = op == 4 || op == 5 ? 0 : vp_choose("symbol", VP_T(2, 3));
        const EventTicker t0 = t->ticker(), o0 = owner.ticker();
        Entry old = e[i];
        bool clear = false;
        switch (op)
        {
            case 0: t->setCustomAs(S[i], "N"); e[i] = {true, "N", 0, 0, false}; break;
            case 1: t->setCustomAs(S[i], "N", v, q0); e[i] = {true, "N", v, q0, true}; break;
            case 2: t->setCustomAs(S[i], S[0], 1.5, q0); e[i] = {true, S[0], 1.5, q0, true}; break;
            case 3: t->resetCustom(S[i]); e[i].set = false; break;
            case 4: clear = e[0].set || e[1].set || e[2].set; t->resetAll(); for (int j = 0; j < 3; ++j) e[j].set = false; break;
            case 5: orig = t; t = t->clone(); orig->setCustomAs("C", "Pb", 50.0, 0.7); orig->setCustomAs("O2-", "Pb", 50.0, 0.7); owner.setScatteringFactorTable(t); break;
        }
        const bool same = old.set == e[i].set && (!e[i].set || (old.src == e[i].src && old.scaled == e[i].scaled && old.q0 == e[i].q0 && (!old.scaled || op != 1 || old.v == e[i].v)));
        if (op < 4 && !same) vp_check(t0 < t->ticker() && o0 < owner.ticker(), "change is noticed");
        if (op == 4 && clear) vp_check(t0 < t->ticker() && o0 < owner.ticker(), "change is noticed");
        if (op == 5) vp_check(o0 < owner.ticker(), "change of the table is noticed");
        if ((op < 4 && same && op != 1 && op != 2) || (op == 4 && !clear)) vp_check(!(t0 < t->ticker()), "no change");
    }
    std::unordered_set<string> names = t->getCustomSymbols();
    const double q = vp_sym("q", 0.5, 10);
    size_t cnt = 0;
    for (int i = 0; i < 3; ++i)
    {
        cnt += e[i].set;
        vp_check(bool(names.count(S[i])) == e[i].set, "custom symbols");
        if (!e[i].set)
        {
            vp_check(known(*t, S[i]) == (i < 2), "unknown symbol");
            if (i < 2) vp_check_eq(t->lookup(S[i], q), t->standardLookup(S[i], q), 0, "standard factor");
            continue;
        }
        const double y = t->lookup(S[i], q), s = t->standardLookup(e[i].src, q);
        if (!e[i].scaled) { vp_check_eq(y, s, 0, "factor of the source"); continue; }
        const double s0 = t->standardLookup(e[i].src, e[i].q0);
        vp_check_eq(t->lookup(S[i], e[i].q0), e[i].v, 1e-9, "value at the given Q");
        vp_check_eq(y * s0, s * e[i].v, 1e-7, "factor of the source, scaled");
        vp_reach("custom");
    }
    vp_check(cnt == names.size(), "custom symbols");
    vp_check(owner.getScatteringFactorTable() == t && owner.getRadiationType() == RAD[k], "table of the owner");
    vp_check(t->create()->getCustomSymbols().empty(), "new table has no custom values");
}

// radii tables
static void radii()
{
    AtomRadiiTablePtr t(new ConstantRadiiTable);
    const char* S[3] = {"C", "O2-", "Na1+"};
    bool set[3] = {false, false, false};
    double val[3] = {0, 0, 0}, def = 0;
    const double v = vp_sym("radius", 0, 3);
    for (int step = 0; step < VP_T(3, 4); ++step)
    {
        const int op = vp_choose("operation", 6);
        const int i = op == 0 || op == 1 || op == 2 ? vp_choose("symbol", VP_T(2, 3)) : 0;
        switch (op)
        {
            case 0: t->setCustom(S[i], v); set[i] = true; val[i] = v; break;
            case 1: t->fromString(string(S[i]) + ":1.25, Na1+:0.5"); set[i] = true; val[i] = 1.25; set[2] = true; val[2] = 0.5; break;
            case 2: if (set[i]) t->resetCustom(S[i]); else { bool bad = false; try { t->resetCustom(S[i]); } catch (std::exception&) { bad = true; } (void)bad; } set[i] = false; break;
            case 3: t->resetAll(); for (int j = 0; j < 3; ++j) set[j] = false; break;
            case 4: { AtomRadiiTablePtr o = t; t = t->clone(); o->setCustom("C", 77); o->resetCustom("C"); o->resetAll(); break; }
            case 5: if (ConstantRadiiTable* c = dynamic_cast<ConstantRadiiTable*>(t.get())) { c->setDefault(0.5 * v); def = 0.5 * v; } break;
        }
    }
    size_t cnt = 0;
    for (int i = 0; i < 3; ++i)
    {
        cnt += set[i];
        vp_check_eq(t->lookup(S[i]), set[i] ? val[i] : def, 0, "radius");
        vp_check(bool(t->getAllCustom().count(S[i])) == set[i], "custom radii");
    }
    vp_check(cnt == t->getAllCustom().size(), "custom radii");
    vp_check_eq(t->lookup("Zz"), def, 0, "default radius");
    // refused strings leave the table as it is
    const char* BAD[4] = {"C:x", "C", "C:1:2, O2-:", ":1"};
    bool refused = false;
    const size_t n = t->getAllCustom().size();
    try { t->fromString(string("C:9, ") + BAD[vp_choose("bad", 4)]); } catch (std::invalid_argument&) { refused = true; }
    if (refused)
    {
        vp_check(t->getAllCustom().size() == n, "refused string");
        vp_check_eq(t->lookup("C"), set[0] ? val[0] : def, 0, "refused string");
        vp_reach("refused");
    }
    vp_reach("radii");
}

void vp_main()
{
    switch (vp_choose("what", 4))
    {
        case 0: formulas(); break;
        case 1: symbols(); break;
        case 2: custom(); break;
        case 3: radii(); break;
    }
}
