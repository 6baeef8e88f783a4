// NoMeta / NoSymmetry wrappers, empty structure, total occupancy and density.
#include "crystal.hpp"
#include <diffpy/srreal/NoMetaStructureAdapter.hpp>
#include <diffpy/srreal/NoSymmetryStructureAdapter.hpp>
#include <diffpy/srreal/PDFCalculator.hpp>
#include <diffpy/srreal/PairCounter.hpp>

static const char* T[3] = {"C", "O", "Na"};

// structure with meta data: configures the calculator that uses it
struct Meta : PeriodicStructureAdapter
{
    virtual StructureAdapterPtr clone() const { return boost::make_shared<Meta>(*this); }
    virtual void customPQConfig(PairQuantity* pq) const { if (pq) pq->setDoubleAttr("rmax", 2.5); }
};

// every bond of every anchor, as numbers
static vector<double> bonds(StructureAdapterPtr s, double rmax)
{
    vector<double> rv;
    BaseBondGeneratorPtr b = s->createBondGenerator();
    b->setRmax(rmax);
    for (int i = 0; i < s->countSites(); ++i)
    {
        b->selectAnchorSite(i);
        for (b->rewind(); !b->finished(); b->next())
        {
            rv.push_back(b->site0()); rv.push_back(b->site1()); rv.push_back(b->multiplicity());
            for (int k = 0; k < 3; ++k) { rv.push_back(b->r0()[k]); rv.push_back(b->r1()[k]); }
            rv.push_back(b->msd());
        }
    }
    return rv;
}

static void same_sites(StructureAdapterPtr a, StructureAdapterPtr b)
{
    vp_check(a->countSites() == b->countSites(), "countSites");
    for (int i = 0; i < a->countSites(); ++i)
    {
        vp_check(a->siteAtomType(i) == b->siteAtomType(i), "siteAtomType");
        vp_check_eq(a->siteOccupancy(i), b->siteOccupancy(i), 0, "siteOccupancy");
        vp_check(a->siteAnisotropy(i) == b->siteAnisotropy(i), "siteAnisotropy");
        for (int k = 0; k < 3; ++k)
        {
            vp_check_eq(a->siteCartesianPosition(i)[k], b->siteCartesianPosition(i)[k], 0, "siteCartesianPosition");
            for (int l = 0; l < 3; ++l) vp_check_eq(a->siteCartesianUij(i)(k, l), b->siteCartesianUij(i)(k, l), 0, "siteCartesianUij");
        }
    }
}

void vp_main()
{
    const int kind = vp_choose("structure", NGROUPS + 4);       // empty, isolated, periodic, meta, crystals
    const Group* g = kind > 3 ? &GROUPS[kind - 4] : kind > 1 ? &GROUPS[0] : 0;
    vector<double> occ;
    for (int i = 0; i < 3; ++i) occ.push_back(vp_sym("occ", 0, 1));
    Cell c(g);
    c.u.push_back(kind == 6 ? R3::Vector(0.25, 0, 0) : kind > 4 && vp_choose("special", 2) ? R3::Vector(0, 0, 0) : R3::Vector(0.02, 0.05, 0.1));
    c.u.push_back(R3::Vector(0.31, 0.12, 0.45));
    c.u.push_back(R3::Vector(0.5, 0.6, 0.7));
    if (!g) for (int i = 0; i < 3; ++i) c.u[i] *= 4.0;
    AtomicStructureAdapterPtr s;
    PeriodicStructureAdapterPtr p;
    if (kind < 2) s = mkstru();
    else if (kind == 2) { s = p = boost::make_shared<PeriodicStructureAdapter>(); }
    else if (kind == 3) { s = p = boost::make_shared<Meta>(); }
    else s = mkcrystal(*g);
    if (p) p->setLatPar(g->lat[0], g->lat[1], g->lat[2], g->lat[3], g->lat[4], g->lat[5]);
    const int n = kind ? 3 : 0;
    double total = 0;
    const double U = vp_sym("U", 0, 0.1);
    for (int i = 0; i < n; ++i)
    {
        R3::Vector r = c.cart(i);
        Atom a = mkatom(T[i], r[0], r[1], r[2], occ[i], 0.01);
        if (i == 1)
        {
            a.anisotropy = true;
            a.uij_cartn(0, 0) = U;
            a.uij_cartn(0, 1) = a.uij_cartn(1, 0) = 0.3 * U;
        }
        s->append(a);
        const int m = c.multiplicity(i);
        vp_check(s->siteMultiplicity(i) == m || p, "siteMultiplicity");
        total += occ[i] * m;
    }
    vp_check_eq(s->totalOccupancy(), total, 1e-9, "totalOccupancy");
    if (g) vp_check_eq(s->numberDensity() * c.L.volume(), total, 1e-8, "numberDensity");
    else vp_check(s->numberDensity() == 0, "density of an isolated object");

    // NoMeta
    StructureAdapterPtr nm = nometa(s), nm2 = nometa(nm);
    vp_check(nm2 == nm, "nometa twice");
    if (vp_choose("nested", 2)) nm = boost::make_shared<NoMetaStructureAdapter>(nm);
    vp_check(boost::dynamic_pointer_cast<NoMetaStructureAdapter>(nm)->getSourceStructure() == s, "source of nometa");
    same_sites(nm, s);
    for (int i = 0; i < n; ++i) vp_check(nm->siteMultiplicity(i) == s->siteMultiplicity(i), "multiplicity without meta data");
    vp_check_eq(nm->numberDensity(), s->numberDensity(), 0, "density without meta data");
    check_same(bonds(nm, 3.5), bonds(s, 3.5), 1e-12, "bonds without meta data");
    if (kind > 1 && kind < 4)
    {
        PairCounter pc, pm;
        pc.setRmax(4); pm.setRmax(4);
        pm(nm); pc(s);
        vp_check_eq(pm.getRmax(), 4, 0, "no custom configuration");
        vp_check_eq(pc.getRmax(), kind == 3 ? 2.5 : 4, 0, "custom configuration");
        PairCounter pn;
        pn.setRmax(4);
        pn(nosymmetry(s));
        vp_check_eq(pn.getRmax(), kind == 3 ? 2.5 : 4, 0, "custom configuration without symmetry");
        vp_reach("meta");
    }

    // NoSymmetry: isolated atoms of the asymmetric unit
    StructureAdapterPtr ns = nosymmetry(s);
    vp_check(nosymmetry(ns) == ns, "nosymmetry twice");
    const int nest = vp_choose("nosymmetry", 3);
    if (nest == 1) ns = boost::make_shared<NoSymmetryStructureAdapter>(ns);
    if (nest < 2) vp_check(boost::dynamic_pointer_cast<NoSymmetryStructureAdapter>(ns)->getSourceStructure() == s, "source of nosymmetry");
    else ns = nosymmetry(nm);
    same_sites(ns, s);
    double tot1 = 0;
    AtomicStructureAdapterPtr flat = mkstru();
    for (int i = 0; i < n; ++i)
    {
        vp_check(ns->siteMultiplicity(i) == 1, "multiplicity without symmetry");
        tot1 += occ[i];
        flat->append((*s)[i]);
    }
    vp_check_eq(ns->totalOccupancy(), tot1, 1e-12, "occupancy without symmetry");
    vp_check(ns->numberDensity() == 0, "density without symmetry");
    check_same(bonds(ns, 9), bonds(flat, 9), 1e-12, "bonds without symmetry");

    // clones are independent of the wrapped structure
    StructureAdapterPtr cm = nm->clone(), cs = ns->clone();
    vp_check(!cm->diff(nm).pop0.size() && !cm->diff(nm).add1.size(), "clone equals");
    const int edit = n ? vp_choose("edit", 5) : 0;
    if (edit)
    {
        // difference of the wrapped structures, before and after an edit
        AtomicStructureAdapterPtr s1 = boost::dynamic_pointer_cast<AtomicStructureAdapter>(s->clone());
        if (edit == 1) (*s1)[1].occupancy = 2;
        if (edit == 2) s1->erase(0);
        if (edit == 3) s1->append(mkatom("C", 0.1, 0.2, 0.3));
        if (edit == 4) std::swap((*s1)[0], (*s1)[2]);
        StructureDifference d0 = s->diff(s1), d1 = nm->diff(nometa(s1)), d2 = ns->diff(nosymmetry(s1));
        vp_check(d1.stru0 == nm, "stru0 of the difference");
        vp_check(d0.allowsfastupdate() == d1.allowsfastupdate() && d0.pop0 == d1.pop0 && d0.add1 == d1.add1 && d0.diffmethod == d1.diffmethod, "difference without meta data");
        if (nest < 2) vp_check(d0.allowsfastupdate() == d2.allowsfastupdate() && d0.pop0 == d2.pop0 && d0.add1 == d2.add1 && d0.diffmethod == d2.diffmethod, "difference without symmetry");
        vp_check(!nm->diff(s1).allowsfastupdate() && !s->diff(nm).allowsfastupdate() && !ns->diff(nm).allowsfastupdate() && !ns->diff(s1).allowsfastupdate(), "different kinds of structures");
        // changing the source in place shows in the wrapper, not in its clone

        (*s)[0].occupancy = 5;
        vp_check_eq(nm->siteOccupancy(0), 5, 0, "wrapper follows its source");
        vp_check_eq(cm->siteOccupancy(0), occ[0], 0, "clone without meta data is independent");
        vp_check_eq(cs->siteOccupancy(0), occ[0], 0, "clone without symmetry is independent");
        vp_reach("edited");
    }
    if (kind == 0)
    {
        StructureAdapterPtr none;
        StructureAdapterPtr e[3] = {emptyStructureAdapter(), nometa(none), nosymmetry(none)};
        for (int i = 0; i < 3; ++i)
        {
            vp_check(e[i] && e[i]->countSites() == 0 && e[i]->totalOccupancy() == 0 && e[i]->numberDensity() == 0, "empty structure");
            vp_check(e[i]->clone()->countSites() == 0, "clone of an empty structure");
            vp_check(bonds(e[i], 5).empty(), "no bonds in an empty structure");
            PDFCalculator pc;
            pc.eval(e[i]);
            QuantityType y = pc.getPDF();
            vp_check(!y.empty(), "grid of the empty structure");
            for (size_t k = 0; k < y.size(); ++k) vp_check(y[k] == 0, "PDF of the empty structure");
        }
        vp_reach("empty");
    }
    vp_reach(kind > 3 ? "crystal" : kind > 1 ? "periodic" : "isolated");
}
