// Fast updates of several changes at once: the optimized evaluator gives what a
// from-scratch evaluation of the changed structure gives.
#include "common.hpp"

static const char* TYPES[2] = {"C", "O"};

static void change(AtomicStructureAdapterPtr s, const Atom& a, const char* kind)
{
    // sites are identified by their original position, as indices may have moved
    int i = 0;
    while (i < s->countSites() && !((*s)[i].xyz_cartn == a.xyz_cartn)) ++i;
    if (i == s->countSites()) return;
    switch (vp_choose(kind, 5)) {
        case 0: (*s)[i].occupancy = vp_sym("newocc", 0.0, 2.0); break;
        case 1: (*s)[i].xyz_cartn[1] = 0.75; break;
        case 2: s->erase(i); break;
        case 3: s->insert(i, mkatom("C", a.xyz_cartn[0] + 0.5, 1.0, 0, vp_sym("newocc", 0.0, 2.0))); break;
        case 4: { Atom b = (*s)[i]; s->erase(i); s->append(b); break; }
    }
}

void vp_main()
{
    AtomicStructureAdapterPtr a = mkstru();
    const int n = VP_NATOMS, nchanges = VP_CHANGES;
    for (int i = 0; i < n; ++i)
        a->append(mkatom(TYPES[i % 2], 1.5 * i, 0, 0, vp_sym("occ", 0.0, 2.0)));
    VpSum opt;
    const bool full = vp_choose("fullsum", 2);
    const bool mask = vp_choose("mask", 2);
    opt.setRmax(5.0);
    opt.setEvaluatorType(OPTIMIZED);
    opt.fullsum(full);
    if (mask) { opt.setPairMask(1, 2, false); opt.setPairMask(3, 3, false); }
    opt.eval(a);
    AtomicStructureAdapterPtr b = a;
    if (vp_choose("clone", 2)) b = boost::dynamic_pointer_cast<AtomicStructureAdapter>(b->clone());
    std::vector<Atom> old(a->begin(), a->end());
    const int step = nchanges > 2 ? 4 : mask ? 3 : 1;
    int i = vp_choose("first", 2);
    for (int k = 0; k < nchanges; ++k)
    {
        change(b, old[i], k ? "next" : "change");
        if (k + 1 == nchanges) break;
        const int left = n - 1 - i - (nchanges - 2 - k);
        if (left < 1) break;
        i += 1 + step * vp_choose("gap", (left + step - 1) / step);
    }
    opt.eval(b);
    vp_reach(opt.getEvaluatorTypeUsed() == OPTIMIZED ? "fast path" : "slow path");
    VpSum basic;
    basic.setRmax(5.0);
    basic.fullsum(full);
    if (mask) { basic.setPairMask(1, 2, false); basic.setPairMask(3, 3, false); }
    basic.eval(b);
    check_same(opt.value(), basic.value(), 1e-6, "optimized==basic");
    vp_reach("compared");
}
