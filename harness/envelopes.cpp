// PDF envelopes and baselines: functions, ownership and application.
#include "common.hpp"
#include <diffpy/srreal/PDFEnvelope.hpp>
#include <diffpy/srreal/PDFBaseline.hpp>
#include <diffpy/srreal/PDFCalculator.hpp>
#include <diffpy/srreal/DebyePDFCalculator.hpp>
#include <map>
#include <set>

static const char* TYPES[4] = {"scale", "qresolution", "sphericalshape", "stepcut"};
static const char* ATTR[4] = {"scale", "qdamp", "spdiameter", "stepcut"};

static double envelope(int k, double a, double r)
{
    switch (k)
    {
        case 0: return a;
        case 1: return a > 0 ? exp(-(r * a) * (r * a) / 2) : 1.0;
        case 2:
        {
            if (a <= 0) return 1;
            if (r > a) return 0;
            const double x = r / a;
            return 1 - 1.5 * x + 0.5 * x * x * x;
        }
        default: return a > 0 && r > a ? 0.0 : 1.0;
    }
}

static void functions()
{
    const int k = vp_choose("envelope", 4);
    PDFEnvelopePtr e = PDFEnvelope::createByType(TYPES[k]);
    vp_check(e->type() == TYPES[k], "type");
    const double r = vp_sym("r", 0, 20);
    // the default leaves the PDF as it is
    vp_check_eq((*e)(r), 1, 0, "neutral by default");
    vp_check_eq(e->getDoubleAttr(ATTR[k]), k == 0 ? 1 : 0, 0, "default");
    const double a = vp_sym("a", k == 1 ? -0.2 : -2, k == 1 ? 0.8 : 25);
    e->setDoubleAttr(ATTR[k], a);
    vp_check_eq(e->getDoubleAttr(ATTR[k]), a, 0, "attribute");
    switch (vp_choose("object", 3)) {
        case 1: { PDFEnvelopePtr q = e->clone(); e->setDoubleAttr(ATTR[k], 3.5); e = q; break; }
        case 2: { PDFEnvelopePtr q = e->create(); vp_check_eq(q->getDoubleAttr(ATTR[k]), k == 0 ? 1 : 0, 0, "default"); q->setDoubleAttr(ATTR[k], a); e = q; break; }
        default: break;
    }
    vp_assume(k != 2 || a <= 0 || a > 0.01);
    const double y = (*e)(r);
    vp_check_eq(y, envelope(k, a, r), 1e-9, "envelope function");
    if (k)
    {
        vp_check_le(0, y, 1e-9, "between 0 and 1");
        vp_check_le(y, 1, 1e-9, "between 0 and 1");
        vp_check_eq((*e)(0), 1, 1e-12, "one at origin");
    }
    vp_reach(TYPES[k]);
}

static void baselines()
{
    const double r = vp_sym("r", 0, 20), s = vp_sym("slope", -3, 3);
    PDFBaselinePtr z = PDFBaseline::createByType("zero"), l = PDFBaseline::createByType("linear");
    vp_check_eq((*z)(r), 0, 0, "zero baseline");
    vp_check_eq((*l)(r), 0, 0, "default baseline");
    l->setDoubleAttr("slope", s);
    if (vp_choose("clone", 2)) { PDFBaselinePtr q = l->clone(); l->setDoubleAttr("slope", 9); l = q; }
    vp_check_eq((*l)(r), s * r, 1e-12, "linear baseline");
    // applied on a vector
    PDFCalculator c;
    if (vp_choose("zero", 2)) { c.setBaseline(z); vp_check(c.getBaseline() == z, "baseline kept"); }
    else { c.setBaseline(l); vp_check(c.getBaseline() == l, "baseline kept"); }
    vector<double> x, y, v;
    for (int i = 0; i < 3; ++i) { x.push_back(i == 1 ? r : 2.0 * i); y.push_back(i == 2 ? s : 0.5 - i); }
    v = c.applyBaseline(x, y);
    vp_check(v.size() == 3, "size");
    for (int i = 0; i < 3; ++i) vp_check_eq(v[i], y[i] + (c.getBaseline() == z ? 0 : s * x[i]), 1e-9, "applied baseline");
    vp_reach("baseline");
}

template <class C>
static void owner()
{
    C c;
    std::map<string, double> m;
    m["scale"] = 1; m["qresolution"] = 0;
    std::map<string, PDFEnvelopePtr> obj;
    const int N = VP_T(3, 4);
    const double a = vp_sym("a", 0.5, 3);
    for (int step = 0; step < N; ++step)
    {
        const int k = vp_choose("envelope", VP_T(3, 4));
        const string t = TYPES[k];
        switch (vp_choose("operation", 6)) {
            case 0: c.addEnvelopeByType(t); m[t] = k == 0 ? 1 : 0; break;
            case 1:
            {
                PDFEnvelopePtr e = PDFEnvelope::createByType(t);
                e->setDoubleAttr(ATTR[k], k == 1 ? 0.2 : a);
                c.addEnvelope(e);
                obj[t] = e;
                m[t] = k == 1 ? 0.2 : a;
                break;
            }
            case 2: c.popEnvelopeByType(t); m.erase(t); break;
            case 3:
            {
                // only the very object that is in use gets removed
                if (!obj.count(t)) { c.popEnvelope(PDFEnvelope::createByType(t)); break; }
                const bool used = m.count(t) && c.getEnvelopeByType(t) == obj[t];
                c.popEnvelope(obj[t]);
                if (used) m.erase(t);
                break;
            }
            case 4: vp_assume(k == 0); c.clearEnvelopes(); m.clear(); break;
            case 5:
            {
                // attribute of the calculator
                const double v = k == 1 ? 0.1 : 2 * a;
                bool set = true;
                try { c.setDoubleAttr(ATTR[k], v); } catch (std::exception&) { set = false; }
                vp_check(set == bool(m.count(t)), "attribute exists for envelopes in use");
                if (set) m[t] = v;
                break;
            }
        }
    }
    std::set<string> used = c.usedEnvelopeTypes();
    vp_check(used.size() == m.size(), "used types");
    for (int k = 0; k < 4; ++k)
    {
        const bool in = m.count(TYPES[k]);
        vp_check(in == bool(used.count(TYPES[k])), "used types");
        bool got = true;
        try { vp_check_eq(c.getEnvelopeByType(TYPES[k])->getDoubleAttr(ATTR[k]), m[TYPES[k]], 0, "envelope kept"); }
        catch (std::invalid_argument&) { got = false; }
        vp_check(got == in, "missing envelope is reported");
        if (!in) m.erase(TYPES[k]);
    }
    bool thrown = false;
    try { c.addEnvelopeByType("none such"); } catch (std::invalid_argument&) { thrown = true; }
    vp_check(thrown && c.usedEnvelopeTypes() == used, "unknown type is refused");
    // product of all envelopes
    vector<double> x, y, v;
    for (int i = 0; i < 3; ++i) { x.push_back(0.9 * i); y.push_back(i == 2 ? a : 1.5 - i); }
    v = c.applyEnvelopes(x, y);
    vp_check(v.size() == 3, "size");
    for (int i = 0; i < 3; ++i)
    {
        double e = y[i];
        for (int k = 0; k < 4; ++k) if (m.count(TYPES[k])) e *= envelope(k, m[TYPES[k]], x[i]);
        vp_check_eq(v[i], e, 1e-8, "product of envelopes");
    }
    vp_reach("owner");
}

void vp_main()
{
    switch (vp_choose("what", 4)) {
        case 0: functions(); break;
        case 1: baselines(); break;
        case 2: owner<PDFCalculator>(); break;
        case 3: owner<DebyePDFCalculator>(); break;
    }
}
