// The CHECK evaluator: it reports every fast update that differs from the
// from-scratch result, and nothing else.
#include "common.hpp"
#include <diffpy/srreal/BondCalculator.hpp>
#include <diffpy/srreal/PDFCalculator.hpp>
#include <diffpy/srreal/DebyePDFCalculator.hpp>

// quantity whose fast update is off by an error in one of its values
struct Faulty : PairQuantity
{
    double error; int where; double unit; int size;
    Faulty() : error(0), where(0), unit(1), size(2) { this->resizeValue(2); }
    using PairQuantity::mvalue;
    virtual void addPairContribution(const BaseBondGenerator& b, int scale)
    {
        if (mvalue.size() > 0) mvalue[0] += unit * scale * mstructure->siteOccupancy(b.site0()) * mstructure->siteOccupancy(b.site1());
        if (mvalue.size() > 1) mvalue[1] += scale * 0.5;
    }
    virtual void stashPartialValue() { st = mvalue; }
    virtual void resetValue() { this->resizeValue(2); PairQuantity::resetValue(); }
    virtual void restorePartialValue() { mvalue = st; mvalue[where] += error; mvalue.resize(size, 0.0); }
    QuantityType st;
};

static AtomicStructureAdapterPtr build(int k, double w, double x)
{
    AtomicStructureAdapterPtr s = mkstru();
    s->append(mkatom("Na", 0, 0, 0, 1.0, 0.01));
    s->append(mkatom("Cl", x, 0.2, 0, w, 0.01));
    s->append(mkatom("Na", 0.3, 1.9, 0, 0.7, 0.01));
    switch (k)
    {
        case 1: s->at(2).xyz_cartn[0] += 0.35; break;
        case 2: s->append(mkatom("Cl", -1, -1.2, 0.2, 0.9, 0.01)); break;
        case 3: s->erase(0); break;
        case 4: std::swap(s->at(0), s->at(2)); break;
    }
    return s;
}

static void faulty()
{
    Faulty f;
    const double w = 0.8;
    const double units[5] = {1, -1, 1000, -1000, 1e5};
    f.unit = units[vp_choose("unit", 5)];
    const double err = vp_sym("error", -0.01, 0.01);
    f.where = vp_choose("where", 2);
    f.setRmax(10);
    f.setEvaluatorType(CHECK);
    vp_check(f.getEvaluatorType() == CHECK, "type");
    f.eval(build(0, w, 1.2));
    vp_check(f.getEvaluatorTypeUsed() == BASIC, "first evaluation is basic");
    const int sizes[4] = {2, 0, 1, 3};
    f.size = sizes[f.unit == 1 && f.where == 0 ? vp_choose("values left", 4) : 0];
    f.error = f.size == 2 ? err : 0.0;
    const int k = vp_choose("change", 5);
    bool raised = false;
    try { f.eval(build(k, w, 1.2)); } catch (std::logic_error&) { raised = true; }
    Faulty b; b.unit = f.unit; b.setRmax(10); b.eval(build(k, w, 1.2));
    const double m = std::max(fabs(b.value()[0]), fabs(b.value()[1]));
    const double eps = 1.490116119384765625e-8 * std::max(1.0, m);
    const double a = err < 0 ? -err : err;
    if (f.getEvaluatorTypeUsed() == BASIC) { vp_check(!raised, "basic evaluation is not checked"); vp_reach("basic"); return; }
    if (f.size != 2)
    {
        vp_check(raised, "missing or extra values are reported");
        vp_reach("lost value");
        return;
    }
    if (raised) { vp_check(a > 0.9 * eps, "reported without a reason"); vp_reach("reported"); }
    else
    {
        vp_check(a < 1.1 * eps, "inconsistency is not reported");
        check_same(f.value(), b.value(), 1e-9, "value is that of the basic evaluation");
        vp_reach("accepted");
    }
}

template <class C> static void genuine(C& c, C& b)
{
    double x = 1.22;
    PDFCalculator* pc = dynamic_cast<PDFCalculator*>((PairQuantity*) &c);
    if (pc)
    {
        const double f = vp_sym("factor", 0.5, 3);
        pc->getScatteringFactorTable()->setCustomAs("Na", "Na", f);
        dynamic_cast<PDFCalculator*>((PairQuantity*) &b)->getScatteringFactorTable()->setCustomAs("Na", "Na", f);
    }
    else x = vp_sym("x", 1.2, VP_T(1.24, 1.8));
    c.setRmin(0.3); c.setRmax(3.1); b.setRmin(0.3); b.setRmax(3.1);
    b.setEvaluatorType(BASIC);
    c.setEvaluatorType(CHECK);
    int m = vp_choose("mask", 3);
    for (C* p : {&c, &b}) { if (m == 1) p->setPairMask(0, 1, false); if (m == 2) p->setTypeMask("Na", "Na", false); }
    c.eval(build(vp_choose("first", VP_T(2, 5)), 0.8, x));
    const int k = vp_choose("second", 5);
    bool raised = false;
    try { c.eval(build(k, 0.8, x)); } catch (std::logic_error&) { raised = true; }
    vp_check(!raised, "consistent update is accepted");
    if (raised) return;
    b.eval(build(k, 0.8, x));
    check_same(c.value(), b.value(), 1e-9, "value");
    vp_reach(c.getEvaluatorTypeUsed() == CHECK ? "checked" : "not checked");
}

static vector<double> all(const BondCalculator& c)
{
    vector<double> r = c.distances();
    vector<int> s = c.sites0(); r.insert(r.end(), s.begin(), s.end()); s = c.sites1(); r.insert(r.end(), s.begin(), s.end());
    vector<R3::Vector> d = c.directions(); for (auto& v : d) for (int i = 0; i < 3; ++i) r.push_back(v[i]);
    return r;
}

void vp_main()
{
    switch (vp_choose("what", 4))
    {
        case 0: faulty(); break;
        case 1:
        {
            BondCalculator c, b;
            if (vp_choose("cone", 2)) { c.filterCone(R3::Vector(1, 0, 0), 60); b.filterCone(R3::Vector(1, 0, 0), 60); }
            genuine(c, b);
            check_same(all(c), all(b), 1e-9, "bonds");
            break;
        }
        case 2: { PDFCalculator c, b; for (auto p : {&c, &b}) { p->setRstep(0.35); p->setMaxExtension(0.2); p->setScatteringFactorTableByType("neutron"); } genuine(c, b); break; }
        case 3: { VpSum c, b; genuine(c, b); break; }
    }
}
