// Fast updates: after any short history of structure changes the optimized
// evaluator gives what a from-scratch evaluation of the last structure gives.
#include "common.hpp"

static const char* TYPES[2] = {"C", "O"};

void vp_main()
{
    // structure A
    AtomicStructureAdapterPtr a = mkstru();
    const int n = VP_NATOMS;
    for (int i = 0; i < n; ++i)
        a->append(mkatom(TYPES[i % 2], 1.5 * i, 0, 0, vp_sym("occ", 0.0, 2.0)));
    VpSum opt;
    bool full = vp_choose("fullsum", 2);
    opt.setRmax(4.0);
    opt.setEvaluatorType(OPTIMIZED);
    opt.fullsum(full);
    opt.fixedsite(vp_choose("fixedsite", 2));
    opt.eval(a);
    AtomicStructureAdapterPtr b = a;
    const int nsteps = VP_STEPS;
    for (int step = 0; step < nsteps; ++step)
    {
        // new object or change in place
        if (vp_choose("clone", 2)) b = boost::dynamic_pointer_cast<AtomicStructureAdapter>(b->clone());
        int sz = b->countSites();
        switch (vp_choose("change", 6)) {
            case 0:     // other weight (possibly the same)
                if (sz) (*b)[vp_choose("site", sz)].occupancy = vp_sym("newocc", 0.0, 2.0);
                break;
            case 1:     // move a site
                if (sz) (*b)[vp_choose("site", sz)].xyz_cartn[0] = vp_sym("newx", -1.0, 6.0);
                break;
            case 2:     // remove a site
                if (sz) b->erase(vp_choose("site", sz));
                break;
            case 3:     // insert a site
                b->insert(vp_choose("site", sz + 1), mkatom("C", vp_sym("newx", -1.0, 6.0), 1.0, 0, vp_sym("newocc", 0.0, 2.0)));
                break;
            case 4:     // exchange the order of two sites
                if (sz > 1) std::swap((*b)[0], (*b)[vp_choose("site", sz - 1) + 1]);
                break;
            case 5:     // configuration change
                opt.setRmax(2.0);
                break;
        }
        opt.eval(b);
        if (opt.getEvaluatorTypeUsed() == OPTIMIZED) vp_reach("fast path");
    }
    if (opt.getEvaluatorTypeUsed() == BASIC) vp_reach("slow path");
    VpSum basic;
    basic.setRmax(opt.getRmax());
    basic.fullsum(full);
    basic.eval(b);
    check_same(opt.value(), basic.value(), 1e-6, "optimized==basic");
    vp_reach("compared");
}
