// Crystal: expansion of the asymmetric unit by the symmetry operations.
#include "crystal.hpp"

static const double PREC = 5e-5;

// the cached symmetry positions follow changes of the crystal
static void history()
{
    double x = vp_sym("x", 0.05, 0.45);
    vector<SymOpRotTrans> ops;
    double prec = PREC;
    double lat = 3;
    vector<Atom> atoms;
    CrystalStructureAdapterPtr s = boost::make_shared<CrystalStructureAdapter>();
    s->setLatPar(lat, 4, 5, 90, 90, 90);
    atoms.push_back(mkatom("C", x, 0.3, 0.4, 0.5));
    s->append(atoms[0]);
    const bool started = vp_choose("start", 2);
    if (started) for (int k = 0; k < 2; ++k)
    {
        SymOpRotTrans o = {opR(GROUPS[1].op[k]), R3::zerovector};
        ops.push_back(o);
        s->addSymOp(o);
    }
    bool seen = true;      // changes that queries detect on their own
    const int N = VP_T(3, 4);
    for (int step = 0; step < N; ++step)
    {
        vp_check(s->siteMultiplicity(0) > 0, "siteMultiplicity");
        switch (vp_choose("change", 7)) {
            case 0: atoms.push_back(mkatom("O", 0.1, 0.2, 2 * x)); s->append(atoms.back()); break;
            case 1: vp_assume(atoms.size() > 1); atoms.pop_back(); s->erase(int(atoms.size())); break;
            case 2: ops.clear(); s->clearSymOps(); break;
            case 3: { SymOpRotTrans o = {opR(GROUPS[1].op[ops.empty() ? 0 : 1]), R3::zerovector}; ops.push_back(o); s->addSymOp(o); break; }
            case 4: prec = prec == 1.2 ? 0.001 : 1.2; s->setSymmetryPrecision(prec); break;
            case 5: seen = false; lat = 6; s->setLatPar(lat, 4, 5, 90, 90, 90); break;
            case 6: seen = false; atoms[0].xyz_cartn[1] = 3.1; (*s)[0].xyz_cartn[1] = 3.1; break;
        }
    }
    vp_check_eq(s->getSymmetryPrecision(), prec, 0, "symmetry precision");
    vp_check(s->countSymOps() == int(ops.size()), "operations");
    for (size_t i = 0; i < ops.size(); ++i) vp_check(s->getSymOp(i) == ops[i], "operations");
    CrystalStructureAdapterPtr f = boost::make_shared<CrystalStructureAdapter>();
    f->setLatPar(lat, 4, 5, 90, 90, 90);
    for (size_t i = 0; i < ops.size(); ++i) f->addSymOp(ops[i].R, ops[i].t);
    f->setSymmetryPrecision(prec);
    for (size_t i = 0; i < atoms.size(); ++i) f->append(atoms[i]);
    // bond generation always starts from fresh positions
    if (!seen || vp_choose("generator", 2)) s->createBondGenerator();
    for (int i = 0; i < f->countSites(); ++i)
    {
        const CrystalStructureAdapter::AtomVector &p = s->getEquivalentAtoms(i), &q = f->getEquivalentAtoms(i);
        vp_check(p.size() == q.size() && s->siteMultiplicity(i) == int(q.size()), "history: multiplicity");
        for (size_t k = 0; k < p.size() && k < q.size(); ++k) for (int c = 0; c < 3; ++c)
            vp_check_eq(p[k].xyz_cartn[c], q[k].xyz_cartn[c], 1e-9, "history: positions");
    }
    vp_check_eq(s->totalOccupancy(), f->totalOccupancy(), 1e-9, "history: totalOccupancy");
    vp_reach("history");
}

void vp_main()
{
    if (vp_choose("mode", 2)) { history(); return; }
    const Group& g = GROUPS[vp_choose("group", NGROUPS)];
    CrystalStructureAdapterPtr s = mkcrystal(g);
    const Lattice& L = s->getLattice();
    // the atom: general position with one free coordinate, or close to a
    // special position
    const int where = vp_choose("where", VP_T(4, 5)) + VP_T(1, 0);
    R3::Vector u;
    switch (where) {
        case 0: u = R3::Vector(vp_sym("x", -1.2, 1.2), 0.21, 0.33); break;
        case 1: u = R3::Vector(vp_sym("x", -1e-4, 1e-4), 0, 0); break;
        case 2: u = R3::Vector(0.5, vp_sym("y", 0.4999, 0.5001), 0); break;
        case 3: u = R3::Vector(1.31, -0.17, vp_sym("z", VP_T(-0.3, -1.2), VP_T(0.6, 1.2))); break;
    }
    if (where == 4)
    {
        // oblique offset from the origin, comparable with the precision
        vp_assume(g.n == 2);
        const double h = vp_sym("h", -2e-5, 2e-5);
        u = R3::Vector(h, 0.6 * h, 0.7 * h);
    }
    Atom a = mkatom("C", 0, 0, 0, vp_sym("occ", 0, 2));
    a.xyz_cartn = L.cartesian(u);
    a.anisotropy = true;
    double m[6];
    const bool tensor = where == 3;
    for (int i = 0; i < 6; ++i) m[i] = tensor ? vp_sym("U", -1, 1) : 0.01 * (i + 1);
    if (!tensor) { m[3] = m[4] = m[5] = 0; m[1] = m[2] = m[0]; }
    a.uij_cartn = R3::Matrix(m[0], m[3], m[4], m[3], m[1], m[5], m[4], m[5], m[2]);
    s->append(a);
    Atom fixed = mkatom("O", 0, 0, 0, 0.75, 0.02);
    fixed.xyz_cartn = L.cartesian(R3::Vector(0.4, 0.15, 0.9));
    s->append(fixed);
    const CrystalStructureAdapter::AtomVector eq = s->getEquivalentAtoms(0);
    // images
    vector<R3::Vector> im;
    for (int i = 0; i < g.n; ++i) im.push_back(image(g.op[i], u));
    // distances of images, classes of equal positions
    vector<int> cls(g.n, -1);
    int ncls = 0;
    for (int i = 0; i < g.n; ++i)
    {
        for (int j = 0; j < i; ++j)
        {
            double d = L.norm(reduced(im[i], im[j]));
            // keep away from the threshold and from chains of neighbours
            if (g.n == 2) vp_assume(d < 0.999 * PREC || d > 1.001 * PREC);
            else vp_assume(d < 0.45 * PREC || d > 2 * PREC);
            if (d < PREC && cls[i] < 0) cls[i] = cls[j];
        }
        if (cls[i] < 0) cls[i] = ncls++;
    }
    vp_check(int(eq.size()) == ncls, "number of equivalent atoms");
    vp_check(s->siteMultiplicity(0) == ncls, "siteMultiplicity");
    if (ncls < g.n) vp_reach("merged");
    vector<int> hit(ncls, 0);
    for (size_t k = 0; k < eq.size(); ++k)
    {
        const Atom& e = eq[k];
        vp_check(e.atomtype == a.atomtype && e.anisotropy == a.anisotropy, "type kept");
        vp_check_eq(e.occupancy, a.occupancy, 0, "occupancy kept");
        R3::Vector f = L.fractional(e.xyz_cartn);
        for (int i = 0; i < 3; ++i)
        {
            vp_check_le(-1e-7, f[i], 1e-7, "in the unit cell low");
            vp_check_le(f[i], 1, 1e-7, "in the unit cell high");
        }
        int found = -1, opi = -1;
        for (int i = 0; i < g.n && found < 0; ++i)
            if (L.norm(reduced(im[i], f)) < PREC) { found = cls[i]; opi = i; }
        vp_check(found >= 0, "is an image");
        if (found < 0) continue;
        hit[found] += 1;
        if (ncls == g.n)
        {
            R3::Matrix U = imageU(g.op[opi], L, a.uij_cartn);
            for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
                vp_check_eq(e.uij_cartn(i, j), U(i, j), 1e-6, "displacement tensor follows the operation");
            if (tensor) vp_reach("tensors");
        }
        if (ncls < g.n)
        {
            // merged images: the mean position is as close to each of them
            for (int i = 0; i < g.n; ++i) if (cls[i] == found)
                vp_check_le(L.norm(reduced(im[i], f)), (g.n == 2 ? 0.501 : 0.5) * PREC, 1e-9, "mean of the merged images");
        }
    }
    for (int c = 0; c < ncls; ++c) vp_check(hit[c] == 1, "every image once");
    // derived quantities
    double occ = ncls * a.occupancy + s->siteMultiplicity(1) * 0.75;
    vp_check(s->siteMultiplicity(1) == int(s->getEquivalentAtoms(1).size()), "siteMultiplicity");
    vp_check_eq(s->totalOccupancy(), occ, 1e-9, "totalOccupancy");
    vp_check_eq(s->numberDensity(), occ / L.volume(), 1e-9, "numberDensity");
    vp_reach("expanded");
}
