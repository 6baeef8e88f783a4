// Type masks: the last operation that concerns a pair of atom types decides it;
// index masks and type masks replace each other.
#include "common.hpp"

static const char* T[5] = {"C", "O", "N", "all", "ALL"};
struct Op { int i, j; bool mask; };

// Reference: default mask and the operations of the current mode
struct Ref
{
    bool dflt, bytype;
    vector<Op> ops;
    Ref() : dflt(true), bytype(false) { }
    static bool match(int o, int x, bool bytype) { return o == x || (bytype ? o >= 3 : o < 0); }
    bool get(int i, int j) const
    {
        bool rv = dflt;
        for (size_t k = 0; k < ops.size(); ++k)
        {
            const Op& o = ops[k];
            if ((match(o.i, i, bytype) && match(o.j, j, bytype)) || (match(o.i, j, bytype) && match(o.j, i, bytype))) rv = o.mask;
        }
        return rv;
    }
    void invert() { dflt = !dflt; for (size_t k = 0; k < ops.size(); ++k) ops[k].mask = !ops[k].mask; }
    void add(int i, int j, bool m, bool t)
    {
        const bool all = t ? (i >= 3 && j >= 3) : (i < 0 && j < 0);
        if (all) { dflt = m; ops.clear(); return; }
        if (t != bytype) ops.clear();
        bytype = t;
        Op o = {i, j, m};
        ops.push_back(o);
    }
};

void vp_main()
{
    const int types[3] = {0, 1, 0};
    AtomicStructureAdapterPtr a = mkstru(), b = mkstru();
    vector<double> w;
    for (int i = 0; i < 3; ++i)
    {
        w.push_back(vp_sym("occ", 0.0, 2.0));
        a->append(mkatom(T[types[i]], 1.5 * i, 0, 0, w[i]));
        b->append(mkatom(T[2 - types[i]], 1.5 * i, 0, 0, w[i]));
    }
    VpSum pq;
    pq.setRmax(100);
#ifdef VP_FEW
    const bool optimized = true;
#else
    const bool optimized = vp_choose("optimized", 2);
#endif
    if (optimized) pq.setEvaluatorType(OPTIMIZED);
#ifdef VP_FEW
    const int when = 2;
#else
    const int when = vp_choose("structure", 3);
#endif
    if (when) pq.setStructure(a);
    Ref ref;
    for (int s = 0; s < VP_OPS; ++s)
    {
        const int kind = vp_choose("kind", VP_KINDS);
        if (kind == 0)
        {
            int i = vp_choose("i", 4), j = vp_choose("j", 4);
            if (i == 3 && s) i = 4;     // "ALL" is the same as "all"
            bool m = vp_choose("mask", 2);
            pq.setTypeMask(T[i], T[j], m);
            ref.add(i, j, m, true);
        }
        else if (kind == 1) { pq.invertMask(); ref.invert(); }
        else
        {
            int i = vp_choose("i", 2) - 1, j = vp_choose("j", 2) + 1;
            bool m = vp_choose("mask", 2);
            pq.setPairMask(i, j, m);
            ref.add(i, j, m, false);
            vp_reach("index mask");
        }
        if (when == 2) pq.eval(a);
        if (ref.bytype) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
            vp_check(pq.getTypeMask(T[i], T[j]) == ref.get(i, j), "getTypeMask");
    }
    // the same for another structure
    for (int k = 0; k < 2; ++k)
    {
        AtomicStructureAdapterPtr st = k ? b : a;
        pq.eval(st);
        double expect = 0, cnt = 0;
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
        {
            int ti = k ? 2 - types[i] : types[i], tj = k ? 2 - types[j] : types[j];
            bool m = ref.bytype ? ref.get(ti, tj) : ref.get(i, j);
            vp_check(pq.getPairMask(i, j) == m, "getPairMask");
            if (i != j && m) { expect += w[i] * w[j]; cnt += 1; }
        }
        vp_check_eq(pq.value()[0], expect, 1e-9, "masked-sum");
        vp_check_eq(pq.value()[2], cnt, 1e-9, "masked-count");
    }
    if (optimized) vp_reach("optimized");
    vp_reach("done");
}
