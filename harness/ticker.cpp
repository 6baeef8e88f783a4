// Event tickers: a total order of events that survives every history of clicks,
// updates and restores.  All counters are symbolic 64-bit integers.
#include <utility>
#include <diffpy/EventTicker.hpp>
#include "vp.h"
#ifdef VP_THOROUGH
#define VP_T(q, t) (t)
#else
#define VP_T(q, t) (q)
#endif
using diffpy::eventticker::EventTicker;
typedef EventTicker::value_type Value;

static bool before(const Value& a, const Value& b)
{
    return (a.first < b.first) | ((a.first == b.first) & (a.second < b.second));
}
static bool same(const Value& a, const Value& b) { return (a.first == b.first) & (a.second == b.second); }

static const long BIG = 1L << VP_T(32, 60);

// the process-wide counter takes any value; the newest event is then known
// from a ticker that has just been clicked
static Value any_time()
{
    vp_assume(vp_havoc_global("diffpy::eventticker::") > 0);
    EventTicker t;
    vp_overflow(0);
    t.click();
    vp_overflow(1);
    const Value g = t.value();
    vp_assume((0 <= g.first) & (g.first < BIG) & (0 <= g.second) & (g.second < BIG));
    return g;
}

// a ticker in any state that is not in the future
static void any_ticker(EventTicker& t, const Value& g, const char* name)
{
    vp_havoc(&t, sizeof(t), name);
    const Value v = t.value();
    vp_assume((0 <= v.first) & (-BIG < v.second) & (v.second < BIG));
    vp_assume(!before(g, v));
}

struct Archive
{
    long buf[64]; int n, i; bool loading;
};
template <bool L> struct ArchiveOf
{
    typedef boost::mpl::bool_<L> is_loading;
    typedef boost::mpl::bool_<!L> is_saving;
    Archive& a;
    ArchiveOf(Archive& x) : a(x) { }
    void io(long& x) { if (L) x = a.buf[a.i++]; else a.buf[a.n++] = x; }
    void io(Value& x) { io(x.first); io(x.second); }
    template <class T> void io(T& x) { long v = x; io(v); x = T(v); }
    template <class T> ArchiveOf& operator&(const T& x) { io(const_cast<T&>(x)); return *this; }
    template <class T> ArchiveOf& operator<<(const T& x) { io(const_cast<T&>(x)); return *this; }
    template <class T> ArchiveOf& operator>>(T& x) { io(x); return *this; }
};
static void save(Archive& a, EventTicker& t) { ArchiveOf<false> s(a); boost::serialization::access::serialize(s, t, 0); }
static void load(Archive& a, EventTicker& t) { ArchiveOf<true> s(a); boost::serialization::access::serialize(s, t, 0); }

extern "C" void vp_main()
{
    const Value g = any_time();
    EventTicker a, b, c;
    const EventTicker z;
    vp_check(same(z.value(), Value(0, 0)), "a new ticker has seen no event");
    any_ticker(a, g, "a"); any_ticker(b, g, "b"); any_ticker(c, g, "c");
    const Value a0 = a.value(), b0 = b.value(), c0 = c.value();
    switch (vp_choose("what", 4))
    {
        case 0:
        {
            // strict total order of the values
            const bool lt = a < b, gt = a > b, eq = a == b;
            vp_check(int(lt) + int(gt) + int(eq) == 1, "exactly one of before, after and equal");
            vp_check((a <= b) == (lt | eq), "less or equal");
            vp_check((a >= b) == (gt | eq), "greater or equal");
            vp_check((a != b) == !eq, "not equal");
            vp_check(lt == before(a0, b0), "order of the values");
            vp_check(eq == same(a0, b0), "equality of the values");
            vp_check((b > a) == lt, "mirrored");
            vp_check(!(lt & (b < c)) | (a < c), "transitive");
            vp_check(!(a < a) & (a == a) & (a <= a), "reflexive");
            vp_reach("order");
            break;
        }
        case 1:
        {
            a.click();
            vp_check(before(a0, a.value()), "a click is newer than the previous events of the ticker");
            vp_check((a > b) & (a > c), "a click is newer than all other tickers");
            vp_check(before(g, a.value()), "a click is newer than every past event");
            vp_check(same(b.value(), b0) & same(c.value(), c0), "other tickers are not affected");
            b.click();
            vp_check((b > a) & (b > c), "the next click is newer again");
            vp_check(same(c.value(), c0), "other tickers are not affected");
            a.click();
            vp_check(a > b, "and so is any further click");
            vp_reach("click");
            break;
        }
        case 2:
        {
            a.updateFrom(b);
            vp_check(same(a.value(), before(a0, b0) ? b0 : a0), "update gives the newer of the two");
            vp_check(same(b.value(), b0), "source is not affected");
            const Value m = a.value();
            a.updateFrom(a);
            vp_check(same(a.value(), m), "update from itself");
            a.updateFrom(z);
            vp_check(same(a.value(), before(m, z.value()) ? z.value() : m), "update from a new ticker");
            a.updateFrom(c);
            EventTicker d = c; d.updateFrom(b);
            // updates do not make events
            EventTicker e; e.click();
            vp_check((e > a) & (e > b) & (e > c) & (e > d), "events after the update are newer");
            vp_check(!(a < b) & !(a < c), "all updates count");
            vp_reach("update");
            break;
        }
        case 3:
        {
            // saved together, restored later in this process, or in another one
            const bool other = vp_choose("what-process", 2);
            Archive ar; ar.n = ar.i = 0;
            save(ar, a); save(ar, b); save(ar, c);
            vp_check(same(a.value(), a0), "saved ticker is not affected");
            Value h;
            if (other) h = any_time();
            else { EventTicker t; if (vp_choose("later", 2)) t.click(); h = g; }
            EventTicker x, y, w;
            x.click();          // target with a history of its own
            load(ar, x); load(ar, y); load(ar, w);
            const Value x1 = x.value(), y1 = y.value(), w1 = w.value();
            EventTicker t; t.click();
            vp_check((t > x) & (t > y) & (t > w), "events after the restore are newer");
            if (!other || before(g, h))
            {
                vp_check(same(x1, a0) & same(y1, b0) & same(w1, c0), "restored in a process that is not younger");
                vp_reach("same or older process");
            }
            else
            {
                vp_check(!before(a0, b0) | !before(y1, x1), "order is never inverted");
                vp_check(!before(b0, a0) | !before(x1, y1), "order is never inverted");
                vp_check(!same(a0, b0) | same(x1, y1), "equal tickers stay equal");
                if (h.first == g.first)
                {
                    vp_check(before(a0, b0) == before(x1, y1), "order is kept");
                    vp_check(before(b0, c0) == before(y1, w1), "order is kept");
                    vp_reach("younger process");
                }
                else vp_reach("much younger process");
            }
            break;
        }
    }
}
