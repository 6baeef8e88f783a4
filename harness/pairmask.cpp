// Pair masks: getPairMask and the evaluated sum follow the last mask operation
// that concerns the pair, whatever the order of operations and structures.
#include "common.hpp"
#include <diffpy/srreal/PairCounter.hpp>

struct Op { int i, j; bool mask; int kind; };

// last operation that concerns the pair wins; inversion flips what came before
static bool refmask(const vector<Op>& ops, int i, int j)
{
    bool rv = true;
    for (size_t k = 0; k < ops.size(); ++k)
    {
        const Op& o = ops[k];
        if (o.kind == 1) { rv = !rv; continue; }
        bool hit = (o.i < 0 || o.i == i) && (o.j < 0 || o.j == j);
        hit = hit || ((o.i < 0 || o.i == j) && (o.j < 0 || o.j == i));
        if (hit) rv = o.mask;
    }
    return rv;
}

void vp_main()
{
    const int n = VP_NATOMS;
    AtomicStructureAdapterPtr a = mkstru();
    vector<double> w;
    for (int i = 0; i < n; ++i)
    {
        w.push_back(vp_sym("occ", 0.0, 2.0));
        a->append(mkatom("C", 1.5 * i, 0, 0, w[i]));
    }
    VpSum pq;
    pq.setRmax(100);
    const bool optimized = vp_choose("optimized", 2);
    if (optimized) pq.setEvaluatorType(OPTIMIZED);
    // operations happen before the structure is known or with it in place,
    // possibly with evaluations in between
    const int when = vp_choose("structure", 3);
    if (when) pq.setStructure(a);
    vector<Op> ops;
    for (int s = 0; s < VP_OPS; ++s)
    {
        Op o;
        o.kind = 0;
        o.mask = false;
        o.i = vp_choose("i", n + 2) - 1;
        if (o.i == n) { o.kind = 1; pq.invertMask(); }
        else
        {
            o.j = vp_choose("j", n + 1) - 1;
            o.mask = vp_choose("mask", 2);
            pq.setPairMask(o.i, o.j, o.mask);
        }
        ops.push_back(o);
        if (when == 2) pq.eval(a);
        // masks of pairs within a structure that is in place act at once
        if (when) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
            vp_check(pq.getPairMask(i, j) == refmask(ops, i, j), "getPairMask-now");
    }
    pq.eval(a);
    double expect = 0, cnt = 0;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
    {
        vp_check(pq.getPairMask(i, j) == refmask(ops, i, j), "getPairMask-eval");
        if (i != j && refmask(ops, i, j)) { expect += w[i] * w[j]; cnt += 1; }
    }
    vp_check_eq(pq.value()[0], expect, 1e-9, "masked-sum");
    vp_check_eq(pq.value()[2], cnt, 1e-9, "masked-count");
    // still the same after the structure is set again
    pq.setStructure(a);
    pq.eval();
    vp_check_eq(pq.value()[0], expect, 1e-9, "masked-sum-again");
    if (optimized) vp_reach("optimized");
    vp_reach("done");
}
