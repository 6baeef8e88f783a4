// Attributes accessed by name, and registries of component types.
#include "common.hpp"
#include <functional>
#include <map>
#include <set>
#include <diffpy/Attributes.hpp>
#include <diffpy/srreal/PDFCalculator.hpp>
#include <diffpy/srreal/DebyePDFCalculator.hpp>
#include <diffpy/srreal/BVSCalculator.hpp>
#include <diffpy/srreal/BondCalculator.hpp>
#include <diffpy/srreal/OverlapCalculator.hpp>
#include <diffpy/srreal/ConstantPeakWidth.hpp>
#include <diffpy/srreal/JeongPeakWidth.hpp>
#include <diffpy/srreal/DebyeWallerPeakWidth.hpp>
#include <diffpy/srreal/GaussianProfile.hpp>
#include <diffpy/srreal/ConstantRadiiTable.hpp>
#include <diffpy/srreal/SFTXray.hpp>
#include <diffpy/srreal/LinearBaseline.hpp>
#include <diffpy/srreal/StepCutEnvelope.hpp>

using diffpy::attributes::Attributes;
using diffpy::attributes::DoubleAttributeError;
typedef std::set<string> Names;

static Names words(const char* s) { Names rv; std::istringstream is(s); string w; while (is >> w) rv.insert(w); return rv; }

static std::map<string, double> all(const Attributes& a)
{
    std::map<string, double> rv;
    const Names nm = a.namesOfDoubleAttributes();
    for (const string& s : nm) rv[s] = a.getDoubleAttr(s);
    return rv;
}

// value that is valid for an attribute
static double value(const string& n, bool debye)
{
    double lo = 0.1, hi = 2;
    if (n == "rmin") { lo = 0.02; hi = 0.09; }
    else if (n == "rmax") { lo = 0.42; hi = 0.48; }
    else if (n == "rstep") { lo = 0.05; hi = 0.06; }
    else if (n == "maxextension") { lo = 0.01; hi = 0.09; }
    else if (n == "peakprecision" || n == "valenceprecision") { lo = 0.001; hi = 0.9; }
    else if (n == "slope" || n == "scale" || n == "delta1" || n == "delta2") lo = -2;
    else if (n == "qmax") { lo = debye ? 1.1 : 20; hi = debye ? 2.5 : 30; }
    else if (n == "qstep") { lo = 0.3; hi = 0.7; }
    return vp_sym("value", lo, hi);
}

// names of all attributes; each is independent of the others except for the derived ones
static void check(Attributes& a, const char* writable, const char* readonly, const char* derived,
    const std::map<string, std::function<double()>>& getters, bool debye = false)
{
    const Names w = words(writable), r = words(readonly), d = words(derived);
    Names wr = w; wr.insert(r.begin(), r.end());
    vp_check(a.namesOfDoubleAttributes() == wr, "names of attributes");
    vp_check(a.namesOfWritableDoubleAttributes() == w, "names of writable attributes");
    for (const string& s : wr) vp_check(a.hasDoubleAttr(s), "attribute exists");
    const std::map<string, double> v0 = all(a);
    for (auto& g : getters) vp_check_eq(g.second(), v0.at(g.first), 0, "same as the method");
    // invalid names and read-only attributes
    const char* bad[4] = {"", "none", "Rmin", "scale "};
    for (const char* b : bad)
    {
        int n = 0;
        try { a.getDoubleAttr(b); } catch (DoubleAttributeError&) { ++n; }
        try { a.setDoubleAttr(b, 1); } catch (DoubleAttributeError&) { ++n; }
        vp_check(n == 2 && !a.hasDoubleAttr(b), "invalid name");
    }
    for (const string& s : r)
    {
        bool refused = false;
        try { a.setDoubleAttr(s, 0.5); } catch (DoubleAttributeError&) { refused = true; }
        vp_check(refused, "read-only attribute");
        vp_reach("read-only");
    }
    auto v1 = all(a);
    for (auto& x : v0) vp_check_eq(v1[x.first], x.second, 0, "refused operations have no effect");
    if (w.empty()) return;
    const vector<string> wv(w.begin(), w.end());
    const string n = wv[vp_choose("attribute", wv.size())];
    const double v = value(n, debye);
    a.setDoubleAttr(n, v);
    vp_check_eq(a.getDoubleAttr(n), v, 1e-9, "attribute is set");
    v1 = all(a);
    const bool isd = d.count(n);      // a change of a derived one changes others
    for (auto& x : v0) if (x.first != n && !d.count(x.first) && !(x.first == "qmax" && n == "rstep" && !debye)) vp_check_eq(v1[x.first], x.second, 0, (n + " leaves " + x.first).c_str());
    for (auto& g : getters) vp_check_eq(g.second(), v1.at(g.first), 0, "same as the method");
    (void) isd;
    vp_reach("set");
}

#define G(name, method) {name, [&]() { return double(c.method()); }}

static void calculators()
{
    switch (vp_choose("class", 6))
    {
        case 0:
        {
            PDFCalculator c;
            c.setRmax(0.5); c.setRstep(0.05); c.setMaxExtension(0.1);
            string w = "qmin qmax rmin rmax rstep maxextension scale qdamp peakprecision";
            const int b = vp_choose("baseline", 2), m = vp_choose("width", 3);
            if (b) c.setBaselineByType("zero"); else w += " slope";
            if (m == 0) w += " delta1 delta2 qbroad qbroad_seperable";
            if (m == 1) { c.setPeakWidthModelByType("constant"); c.setDoubleAttr("width", 0.1); w += " width bisowidth uisowidth"; }
            if (m == 2) c.setPeakWidthModelByType("debye-waller");
            if (vp_choose("envelopes", 2)) { c.addEnvelopeByType("sphericalshape"); c.addEnvelopeByType("stepcut"); c.popEnvelopeByType("qdamp"); w += " spdiameter stepcut"; }
            check(c, w.c_str(), "qstep extendedrmin extendedrmax", m == 1 ? "qstep extendedrmin extendedrmax width bisowidth uisowidth" : "qstep extendedrmin extendedrmax",
                {G("qmin", getQmin), G("qmax", getQmax), G("qstep", getQstep), G("rmin", getRmin), G("rmax", getRmax), G("rstep", getRstep),
                 G("maxextension", getMaxExtension), G("extendedrmin", getExtendedRmin), G("extendedrmax", getExtendedRmax),
                 {"peakprecision", [&]() { return c.getPeakProfile()->getPrecision(); }}});
            vp_reach("pdf");
            break;
        }
        case 1:
        {
            DebyePDFCalculator c;
            c.setRmax(0.5); c.setRstep(0.05); c.setMaxExtension(0.1); c.setQmin(0.2); c.setQmax(3);
            check(c, "qmin qmax qstep rmin rmax rstep maxextension scale qdamp debyeprecision delta1 delta2 qbroad qbroad_seperable",
                "extendedrmin extendedrmax", "qstep extendedrmin extendedrmax",
                {G("qmin", getQmin), G("qmax", getQmax), G("qstep", getQstep), G("rmin", getRmin), G("rmax", getRmax), G("rstep", getRstep),
                 G("maxextension", getMaxExtension), G("debyeprecision", getDebyePrecision)}, true);
            vp_reach("debye");
            break;
        }
        case 2: { BVSCalculator c; check(c, "rmin rmax valenceprecision", "rmaxused", "rmaxused", {G("rmin", getRmin), G("rmax", getRmax), G("valenceprecision", getValencePrecision), G("rmaxused", getRmaxUsed)}); break; }
        case 3: { OverlapCalculator c; check(c, "rmin rmax", "rmaxused", "rmaxused", {G("rmin", getRmin), G("rmax", getRmax), G("rmaxused", getRmaxUsed)}); break; }
        case 4: { BondCalculator c; check(c, "rmin rmax", "", "", {G("rmin", getRmin), G("rmax", getRmax)}); break; }
        case 5:
        {
            // the attributes of a copy are those of the copy
            VpSum a;
            const double x = vp_sym("x", 0, 3), y = vp_sym("y", 0, 3);
            a.setRmin(x);
            VpSum b(a), c;
            c = a;
            vp_check_eq(b.getDoubleAttr("rmin"), x, 0, "copied value");
            vp_check_eq(c.getDoubleAttr("rmin"), x, 0, "copied value");
            const int k = vp_choose("copy", 2);
            (k ? b : c).setDoubleAttr("rmin", y);
            vp_check_eq((k ? b : c).getRmin(), y, 0, "attribute of a copy");
            vp_check_eq((k ? c : b).getRmin(), x, 0, "other copy is unchanged");
            vp_check_eq(a.getRmin(), x, 0, "original is unchanged");
            vp_check_eq(a.getDoubleAttr("rmin"), x, 0, "original is unchanged");
            vp_reach("copies");
            break;
        }
    }
}

static void components()
{
    switch (vp_choose("component", 5))
    {
        case 0: { ConstantPeakWidth c; check(c, "width bisowidth uisowidth", "", "width bisowidth uisowidth", {G("width", getWidth)}); break; }
        case 1: { JeongPeakWidth c; check(c, "delta1 delta2 qbroad qbroad_seperable", "", "", {G("delta1", getDelta1), G("delta2", getDelta2), G("qbroad", getQbroad), G("qbroad_seperable", getQbroad_seperable)}); break; }
        case 2: { DebyeWallerPeakWidth c; check(c, "", "", "", {}); break; }
        case 3: { PeakProfilePtr p = PeakProfile::createByType(vp_choose("cropped", 2) ? "croppedgaussian" : "gaussian"); PeakProfile& c = *p; check(c, "peakprecision", "", "", {G("peakprecision", getPrecision)}); break; }
        case 4:
        {
            const char* T[4] = {"scale", "qresolution", "sphericalshape", "stepcut"};
            const char* N[4] = {"scale", "qdamp", "spdiameter", "stepcut"};
            const int k = vp_choose("envelope", 4);
            PDFEnvelopePtr p = PDFEnvelope::createByType(T[k]); PDFEnvelope& c = *p; check(c, N[k], "", "", {}); break;
        }
    }
}

// attribute defined twice
struct Twice : public Attributes
{
    double x; struct In : public Attributes { double x; double get() const { return x; } void set(double y) { x = y; } In() : x(2) { registerDoubleAttribute("x", this, &In::get, &In::set); } } in;
    double get() const { return x; }
    void set(double y) { x = y; }
    Twice() : x(1) { registerDoubleAttribute("x", this, &Twice::get, &Twice::set); registerDoubleAttribute("ro", this, &Twice::get); }
    virtual void accept(diffpy::attributes::BaseAttributesVisitor& v) { in.accept(v); Attributes::accept(v); }
    virtual void accept(diffpy::attributes::BaseAttributesVisitor& v) const { in.accept(v); Attributes::accept(v); }
};

static void twice()
{
    Twice t;
    const double v = vp_sym("v", -2, 2);
    int n = 0;
    try { t.setDoubleAttr("x", v); } catch (std::logic_error&) { ++n; }
    try { t.getDoubleAttr("x"); } catch (std::logic_error&) { ++n; }
    try { t.setDoubleAttr("ro", v); } catch (DoubleAttributeError&) { ++n; }
    vp_check(n == 3, "ambiguous attribute is refused");
    vp_check_eq(t.x, 1, 0, "no effect"); vp_check_eq(t.in.x, 2, 0, "no effect");
    vp_check_eq(t.getDoubleAttr("ro"), 1, 0, "read-only value");
    vp_check(t.hasDoubleAttr("x") && t.namesOfDoubleAttributes().size() == 2 && t.namesOfWritableDoubleAttributes().size() == 1, "names");
    vp_reach("ambiguous");
}

// registries
template <class B, class D> struct Extra : public D
{
    typedef typename B::SharedPtr P;
    static const string& nm() { static const string s("vpextra"); return s; }
    virtual P create() const { return P(new Extra()); }
    virtual P clone() const { return P(new Extra(*this)); }
    virtual const string& type() const { return nm(); }
};

static bool ahas(const Attributes& a, const char* n) { return a.hasDoubleAttr(n); }
static double aget(const Attributes& a, const char* n) { return a.getDoubleAttr(n); }
static void aset(Attributes& a, const char* n, double v) { a.setDoubleAttr(n, v); }
static bool ahas(const ScatteringFactorTable& a, const char* n) { return true; }
static double aget(const ScatteringFactorTable& a, const char* n) { return a.lookup(n, 0.5); }
static void aset(ScatteringFactorTable& a, const char* n, double v) { a.setCustomAs(n, "C", v, 0.5); }
static bool ahas(const AtomRadiiTable& a, const char* n) { return true; }
static double aget(const AtomRadiiTable& a, const char* n) { return a.lookup(n); }
static void aset(AtomRadiiTable& a, const char* n, double v) { a.setCustom(n, v); }

// a scattering factor table is also registered under its radiation type
template <class B> static string second(const B&) { return ""; }
static string second(const ScatteringFactorTable& t) { return t.radiationType(); }

template <class B, class D> static void registry(const char* const* types, int nt, const char* attr)
{
    typedef typename B::SharedPtr P;
    const double v = vp_sym("v", 0.2, 0.7);
    // model: names and what they stand for
    std::map<string, string> m;
    for (const string& s : B::getRegisteredTypes()) m[s] = s;
    { const std::map<string, string> al = B::getAliasedTypes(); m.insert(al.begin(), al.end()); }
    for (int i = 0; i < nt; ++i) vp_check(m.count(types[i]) && m[types[i]] == types[i], "standard type");
    const string names[5] = {types[0], types[nt - 1], "vpextra", "vpalias", m.begin()->first};
    const int n = VP_T(2, 3);
    for (int i = 0; i < n; ++i)
    {
        bool ok = true;
        switch (vp_choose("operation", 4))
        {
            case 0: // alias
            {
                const string t = names[vp_choose("of", 4)], a = names[2 + vp_choose("alias", 2)];
                const bool good = m.count(t) && (!m.count(a) || m[a] == m[t]);
                try { B::aliasType(t, a); } catch (std::logic_error&) { ok = false; }
                vp_check(ok == good, "alias is accepted if it is new");
                if (good) { const string s = m[t]; m[a] = s; }
                vp_reach(good ? "alias" : "alias refused");
                break;
            }
            case 1: // register
            {
                Extra<B, D> e;
                const B& eb = e;
                const string a = second(eb);
                const bool good = !m.count(e.type()) && !m.count(a);
                try { e.registerThisType(); } catch (std::logic_error&) { ok = false; }
                vp_check(ok == good, "type is registered if it is new");
                if (good) m[e.type()] = e.type();
                if (good && a.size()) m[a] = e.type();
                vp_reach(good ? "register" : "register refused");
                break;
            }
            case 2: // deregister
            {
                const string t = names[vp_choose("of", 5)];
                int c = 0;
                if (m.count(t)) { const string s = m[t]; for (auto ii = m.begin(); ii != m.end();) if (ii->second == s) { ii = m.erase(ii); ++c; } else ++ii; }
                vp_check(B::deregisterType(t) == c, "number of removed names");
                if (c > 1) vp_reach("deregister all names");
                break;
            }
            case 3: // instances are independent
            {
                const string t = names[vp_choose("of", 4)];
                if (!m.count(t)) break;
                P p = B::createByType(t), q = B::createByType(t);
                vp_check(p.get() != q.get() && p->type() == m[t], "new instance");
                if (attr && ahas(*p, attr))
                {
                    const double d = aget(*q, attr);
                    aset(*p, attr, v);
                    vp_check_eq(aget(*q, attr), d, 0, "instances are independent");
                    P r = B::createByType(t), k = p->clone(), c = p->create();
                    vp_check_eq(aget(*r, attr), d, 0, "prototype is unchanged");
                    vp_check_eq(aget(*c, attr), d, 0, "created in default state");
                    vp_check_eq(aget(*k, attr), v, 0, "clone keeps the state");
                    vp_check(k->type() == m[t] && c->type() == m[t], "type of copies");
                    aset(*p, attr, 0.9);
                    vp_check_eq(aget(*k, attr), v, 0, "clone is independent");
                    vp_reach("instances");
                }
                break;
            }
        }
        // queries agree with the model
        Names rt; std::map<string, string> al;
        for (auto& x : m) { rt.insert(x.second); if (x.first != x.second) al[x.first] = x.second; }
        vp_check(B::getRegisteredTypes() == rt, "registered types");
        vp_check(B::getAliasedTypes() == al, "aliases");
        for (const string& s : names)
        {
            vp_check(B::isRegisteredType(s) == bool(m.count(s)), "is registered");
            string got;
            try { got = B::createByType(s)->type(); } catch (std::invalid_argument&) { }
            vp_check(got == (m.count(s) ? m[s] : string()), "created type");
        }
    }
}

static void registries()
{
    switch (vp_choose("registry", 6))
    {
        case 0: { const char* t[] = {"jeong", "debye-waller", "constant"}; registry<PeakWidthModel, ConstantPeakWidth>(t, 3, vp_choose("a", 2) ? "width" : "delta2"); break; }
        case 1: { const char* t[] = {"gaussian", "croppedgaussian"}; registry<PeakProfile, GaussianProfile>(t, 2, "peakprecision"); break; }
        case 2: { const char* t[] = {"linear", "zero"}; registry<PDFBaseline, LinearBaseline>(t, 2, "slope"); break; }
        case 4: { const char* t[] = {"electron", "electronnumber", "neutron", "xray"}; registry<ScatteringFactorTable, SFTXray>(t, 4, "Na"); break; }
        case 5: { const char* t[] = {"constant"}; registry<AtomRadiiTable, ConstantRadiiTable>(t, 1, "Na"); break; }
        case 3: { const char* t[] = {"scale", "qresolution", "sphericalshape", "stepcut"}; registry<PDFEnvelope, StepCutEnvelope>(t, 4, vp_choose("a", 2) ? "scale" : "stepcut"); break; }
    }
}

void vp_main()
{
    switch (vp_choose("what", 4))
    {
        case 0: calculators(); break;
        case 1: components(); break;
        case 2: twice(); break;
        case 3: registries(); break;
    }
}
