#ifndef VP_COMMON_HPP
#define VP_COMMON_HPP
#include <string>
#include <vector>
#include <sstream>
#include <algorithm>
#include <cmath>
#include <stdexcept>
#include <boost/make_shared.hpp>
#include <diffpy/srreal/AtomicStructureAdapter.hpp>
#include <diffpy/srreal/PeriodicStructureAdapter.hpp>
#include <diffpy/srreal/CrystalStructureAdapter.hpp>
#include <diffpy/srreal/StructureDifference.hpp>
#include <diffpy/srreal/BaseBondGenerator.hpp>
#include <diffpy/srreal/PairQuantity.hpp>
#include <diffpy/srreal/PQEvaluator.hpp>
#include "vp.h"

using namespace diffpy::srreal;
using std::string;
using std::vector;

#ifdef VP_THOROUGH
#define VP_T(q, t) (t)
#else
#define VP_T(q, t) (q)
#endif

// Iso atom at a position
inline Atom mkatom(const char* tp, double x, double y = 0, double z = 0, double occ = 1.0, double uiso = 0.0)
{
    Atom a;
    a.atomtype = tp;
    a.xyz_cartn = R3::Vector(x, y, z);
    a.occupancy = occ;
    a.anisotropy = false;
    a.uij_cartn = R3::zeromatrix();
    for (int i = 0; i < 3; ++i) a.uij_cartn(i, i) = uiso;
    return a;
}

inline AtomicStructureAdapterPtr mkstru() { return boost::make_shared<AtomicStructureAdapter>(); }

// Minimal pair quantity: a sum of pair terms that depend on the sites' weights
// (occupancies), types and distance.  Supports the optimized evaluator.
class VpSum : public PairQuantity
{
    public:
        VpSum() { this->resizeValue(3); this->resetValue(); }
        void fullsum(bool f) { mevaluator->setFlag(USEFULLSUM, f); }
        void fixedsite(bool f) { mevaluator->setFlag(FIXEDSITEINDEX, f); }
    protected:
        // site data are cached with the structure, the way the library's
        // calculators do it (resetValue is called from setStructure)
        virtual void resetValue()
        {
            mw.clear();
            for (int i = 0; i < this->countSites(); ++i)
                mw.push_back(mstructure->siteOccupancy(i));
            PairQuantity::resetValue();
        }
        virtual void addPairContribution(const BaseBondGenerator& b, int scale)
        {
            double w0 = mw[b.site0()];
            double w1 = mw[b.site1()];
            mvalue[0] += scale * w0 * w1;
            mvalue[1] += scale * (w0 + w1) * b.distance();
            mvalue[2] += scale;
        }
        virtual void stashPartialValue() { mstash = mvalue; }
        virtual void restorePartialValue() { mvalue = mstash; }
        QuantityType mstash;
        std::vector<double> mw;
};

template <class C1, class C2>
inline void check_same(const C1& a, const C2& b, double tol, const char* id)
{
    if (a.size() != b.size()) { vp_check(0, (string(id) + ".size").c_str()); return; }
    for (size_t i = 0; i < a.size(); ++i) vp_check_eq(a[i], b[i], tol, id);
}
#endif
