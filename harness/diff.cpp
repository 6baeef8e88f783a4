// Structure differences and the ordering of atoms they rely upon.
#include "crystal.hpp"

static bool same(const Atom& a, const Atom& b)
{
    bool rv = a.atomtype == b.atomtype && a.anisotropy == b.anisotropy;
    for (int k = 0; rv && k < 3; ++k) rv = a.xyz_cartn[k] == b.xyz_cartn[k];
    rv = rv && a.occupancy == b.occupancy;
    for (int i = 0; rv && i < 3; ++i) for (int j = 0; rv && j < 3; ++j) rv = a.uij_cartn(i, j) == b.uij_cartn(i, j);
    return rv;
}

static void ordering()
{
    Atom a, b, c;
    Atom* p[3] = {&a, &b, &c};
    const int field = vp_choose("fields", 4);
    const int n = field == 3 ? 2 : 3;
    for (int i = 0; i < n; ++i)
    {
        Atom& t = *p[i];
        t.atomtype = field == 0 && vp_choose("type", 2) ? "O" : "C";
        if (field == 0) { t.xyz_cartn[0] = vp_sym("x", -1, 1); t.anisotropy = vp_choose("anisotropy", 2); }
        if (field == 1) { t.xyz_cartn[2] = vp_sym("z", -1, 1); t.occupancy = vp_sym("occ", 0, 1); }
        if (field == 2) { t.occupancy = vp_sym("occ", 0, 1); t.uij_cartn(1, 2) = vp_sym("U", -1, 1); }
        if (field == 3)
        {
            for (int k = 0; k < 3; ++k) t.xyz_cartn[k] = vp_sym("xyz", -1, 1);
            t.occupancy = vp_sym("occ", 0, 1);
            for (int k = 0; k < 9; ++k) t.uij_cartn.data()[k] = vp_sym("U", -1, 1);
        }
    }
    vp_check((a == b) == same(a, b), "equal atoms");
    vp_check((a != b) == !(a == b), "unequal atoms");
    vp_check(int(a < b) + int(b < a) + int(a == b) == 1, "trichotomy");
    vp_check((a > b) == (b < a) && (a <= b) == !(b < a) && (a >= b) == !(a < b), "derived comparisons");
    vp_check(!(a < a) && a == a, "irreflexive");
    if (n == 3 && a < b && b < c) { vp_check(a < c, "transitive"); vp_reach("transitive"); }
    if (n == 3 && a == b) { vp_check((a < c) == (b < c) && (c < a) == (c < b), "congruent"); vp_reach("equal"); }
    vp_reach("ordering");
}

static void checkdiff(const AtomicStructureAdapter& a, const AtomicStructureAdapter& b, const StructureDifference& d)
{
    const int na = a.countSites(), nb = b.countSites();
    for (size_t i = 0; i < d.pop0.size(); ++i)
    {
        vp_check(0 <= d.pop0[i] && d.pop0[i] < na, "pop0 is a site");
        if (i) vp_check(d.pop0[i - 1] < d.pop0[i], "pop0 sorted, unique");
    }
    for (size_t i = 0; i < d.add1.size(); ++i)
    {
        vp_check(0 <= d.add1[i] && d.add1[i] < nb, "add1 is a site");
        if (i) vp_check(d.add1[i - 1] < d.add1[i], "add1 sorted, unique");
    }
    // what remains of both structures is the same
    vector<int> ra, rb;
    for (int i = 0; i < na; ++i) if (!std::count(d.pop0.begin(), d.pop0.end(), i)) ra.push_back(i);
    for (int i = 0; i < nb; ++i) if (!std::count(d.add1.begin(), d.add1.end(), i)) rb.push_back(i);
    vp_check(ra.size() == rb.size(), "common sites");
    for (size_t i = 0; i < ra.size(); ++i)
    {
        bool found = false;
        for (size_t j = 0; j < rb.size() && !found; ++j)
            if (same(a[ra[i]], b[rb[j]])) { found = true; rb.erase(rb.begin() + j); }
        vp_check(found, "common sites");
    }
    vp_check(d.allowsfastupdate() == (double(d.pop0.size()) < (1 - sqrt(0.5)) * na), "fast update bound");
    // the side by side difference is unlike at every index, the sorted one has nothing in common
    if (d.diffmethod == StructureDifference::Method::SORTED)
    {
        for (size_t i = 0; i < d.pop0.size(); ++i) for (size_t j = 0; j < d.add1.size(); ++j)
            vp_check(!same(a[d.pop0[i]], b[d.add1[j]]), "nothing in common");
        vp_reach("sorted");
    }
    if (d.diffmethod == StructureDifference::Method::SIDEBYSIDE) vp_reach("side by side");
    if (d.diffmethod == StructureDifference::Method::NONE)
    {
        vp_check(int(d.pop0.size()) == na && int(d.add1.size()) == nb, "unrelated structures");
        vp_reach("unrelated");
    }
}

template <class T> static void fillcommon(T& s, int n, const char* nm)
{
    for (int i = 0; i < n; ++i)
    {
        Atom a = mkatom("C", vp_sym(nm, 0, 2));
        s->append(a);
    }
}

static void atomic()
{
    AtomicStructureAdapterPtr a = mkstru(), b = mkstru();
    const int na = vp_choose("na", VP_T(4, 5)), nb = vp_choose("nb", VP_T(4, 5));
    fillcommon(a, na, "xa");
    fillcommon(b, nb, "xb");
    vp_assume(na + nb <= VP_T(5, 6));
    StructureDifference d = a->diff(b);
    vp_check(d.stru0 == a && d.stru1 == b, "structures recorded");
    checkdiff(*a, *b, d);
    vp_reach("atomic");
}

// larger structures: copies in another order with one or two changes
static void edited()
{
    AtomicStructureAdapterPtr a = mkstru();
    const int n = VP_T(7, 8);
    for (int i = 0; i < n; ++i) a->append(mkatom(i % 2 ? "C" : "O", i / 2, 0, 0, 1 + (i == 3)));
    AtomicStructureAdapterPtr b = boost::dynamic_pointer_cast<AtomicStructureAdapter>(a->clone());
    vp_check(*a == *b && !(*a != *b), "clone is equal");
    const int steps = 2;
    for (int s = 0; s < steps; ++s)
    {
        int sz = b->countSites();
        switch (vp_choose("edit", 6)) {
            case 0: (*b)[vp_choose("site", 2) * 3].xyz_cartn[0] = vp_sym("x", 0, 4); break;
            case 1: b->erase(vp_choose("site", 2) * 4); break;
            case 2: b->insert(vp_choose("site", 2) * 5, mkatom("C", vp_sym("x", 0, 4))); break;
            case 3: std::reverse(b->begin(), b->end()); break;
            case 4: std::swap((*b)[0], (*b)[sz - 1]); break;
            case 5: (*b)[1].occupancy = vp_sym("occ", 0, 2); break;
        }
    }
    StructureDifference d = a->diff(b);
    checkdiff(*a, *b, d);
    checkdiff(*b, *a, b->diff(a));
    vp_check((*a == *b) == (a->countSites() == b->countSites() && std::equal(a->begin(), a->end(), b->begin(), same)), "structure equality");
    if (*a == *b) vp_check(d.pop0.empty() && d.add1.empty(), "equal structures have no difference");
    vp_reach("edited");
}

// lattices and symmetry operations have to agree
static void lattices()
{
    const int kind = vp_choose("adapter", 2);
    double la = 3, lb = vp_sym("lattice", 2, 4);
    vp_assume(lb == 3 || lb > 3 + 1e-6 || lb < 3 - 1e-6);
    PeriodicStructureAdapterPtr a, b;
    if (kind) { a = boost::make_shared<CrystalStructureAdapter>(); b = boost::make_shared<CrystalStructureAdapter>(); }
    else { a = boost::make_shared<PeriodicStructureAdapter>(); b = boost::make_shared<PeriodicStructureAdapter>(); }
    a->setLatPar(la, 4, 5, 90, 90, 90);
    const int other = vp_choose("parameter", 2);
    b->setLatPar(other ? la : lb, 4, 5, 90, 90, other ? 30 * lb : 90);
    for (int i = 0; i < 4; ++i) { Atom t = mkatom("C", 0.5 * i); a->append(t); b->append(t); }
    (*b)[2].xyz_cartn[1] = vp_sym("y", 0, 1);
    bool samesym = true;
    if (kind)
    {
        CrystalStructureAdapter& ca = dynamic_cast<CrystalStructureAdapter&>(*a), &cb = dynamic_cast<CrystalStructureAdapter&>(*b);
        ca.addSymOp(opR(GROUPS[1].op[0]), R3::zerovector);
        ca.addSymOp(opR(GROUPS[1].op[1]), R3::Vector(0, 0, 0.5));
        cb.addSymOp(opR(GROUPS[1].op[0]), R3::zerovector);
        R3::Vector t(0, 0, vp_sym("t", 0, 1));
        cb.addSymOp(opR(GROUPS[1].op[1]), t);
        samesym = t[2] == 0.5;
        if (vp_choose("precision", 2)) { cb.setSymmetryPrecision(1e-4); samesym = false; }
    }
    const bool samelat = other ? lb == 3 : lb == la;
    StructureDifference d = a->diff(b);
    vp_check(d.pop0.size() == 4 || (samelat && samesym), "different lattice or symmetry: nothing in common");
    if (samelat && samesym)
    {
        vp_check(d.pop0.size() <= 1 && d.add1.size() == d.pop0.size(), "same lattice and symmetry");
        vp_reach("same lattice");
    }
    else vp_check(d.add1.size() == 4 && !d.allowsfastupdate(), "no fast update");
    // other kinds of structures are unrelated
    AtomicStructureAdapterPtr c = mkstru();
    c->append((*a)[0]);
    d = a->diff(c);
    vp_check(d.pop0.size() == 4 && d.add1.size() == 1 && !d.allowsfastupdate(), "other structure kind");
    d = a->diff(a);
    vp_check(d.pop0.empty() && d.add1.empty() && d.stru0 == a && d.stru1 == a, "same object");
    d = a->diff(StructureAdapterPtr());
    vp_check(d.pop0.size() == 4 && d.add1.empty(), "no structure");
    vp_reach("lattices");
}

void vp_main()
{
    switch (vp_choose("kind", 4)) {
        case 0: ordering(); break;
        case 1: atomic(); break;
        case 2: edited(); break;
        case 3: lattices(); break;
    }
}
