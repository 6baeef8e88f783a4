// Element symbols and valences read from atom labels.  Every byte of the label
// is symbolic.
#include <string>
#include <diffpy/srreal/AtomUtils.hpp>
#include "vp.h"
#ifdef VP_THOROUGH
#define VP_T(q, t) (t)
#else
#define VP_T(q, t) (q)
#endif
using std::string;
using diffpy::srreal::atomBareSymbol;
using diffpy::srreal::atomValence;
typedef unsigned char uc;

static bool digit(uc c) { return ('0' <= c) & (c <= '9'); }
static bool blank(uc c) { return (c == ' ') | (c == '\t'); }
static bool space(uc c) { return (c == ' ') | ((9 <= c) & (c <= 13)); }
static bool sign(uc c) { return (c == '+') | (c == '-'); }
static bool letter(uc c) { return (('A' <= c) & (c <= 'Z')) | (('a' <= c) & (c <= 'z')); }
static bool lead(uc c) { return digit(c) | blank(c) | (c == '-'); }
static bool trail(uc c) { return (digit(c) & (c != '9')) | blank(c) | sign(c); }

static string text(const char* name, int n)
{
    char b[32];
    for (int i = 0; i < n; ++i) b[i] = (char) vp_symbyte(name);
    return string(b, n);
}

// any label
static void anything()
{
    const int n = vp_choose("length", VP_T(8, 12));
    const string s = text("byte", n);
    const string b = atomBareSymbol(s);
    // the result is a piece of the label
    const int m = b.size();
    vp_check(m <= n, "not longer than the label");
    if (m > n) return;
    // what is cut off are digits, signs and blanks only
    int letters = 0, kept = 0;
    for (int i = 0; i < n; ++i) letters += letter(s[i]);
    for (int i = 0; i < m; ++i) kept += letter(b[i]);
    vp_check(letters == kept, "letters are kept");
    if (letters)
    {
        bool piece = false;
        for (int k = 0; k + m <= n; ++k)
        {
            bool eq = true, cut = true;
            for (int i = 0; i < m; ++i) eq &= (b[i] == s[k + i]);
            for (int i = 0; i < k; ++i) cut &= lead(s[i]);
            for (int i = k + m; i < n; ++i) cut &= trail(s[i]);
            piece |= eq & cut;
        }
        vp_check(piece, "symbol is the label without isotope and charge");
        vp_check(!lead(b[0]) & !trail(b[m - 1]), "isotope and charge are removed");
        vp_check(atomBareSymbol(b) == b, "symbol of a symbol");
        // (line breaks are blanks to the valence only)
        if (!space(b[m - 1])) { vp_check(atomValence(b) == 0, "symbol has no valence"); vp_reach("plain symbol"); }
        vp_reach("symbol");
    }
    else vp_reach("no symbol");
}

// valence is read from the end
static void valence()
{
    const int n = vp_choose("length", VP_T(8, 12));
    const string s = text("byte", n);
    const int v = atomValence(s);
    int i = n - 1;
    while (i >= 0 && space(s[i])) --i;
    int e = 0;
    if (i >= 0 && sign(s[i]))
    {
        e = s[i] == '+' ? 1 : -1;
        --i;
        while (i >= 0 && space(s[i])) --i;
        if (i >= 0) e *= (digit(s[i]) & (s[i] != '9')) ? s[i] - '0' : 1;
        vp_reach("charged");
    }
    else vp_reach("neutral");
    vp_check(v == e, "valence");
}

// isotope, symbol and charge put together
static void composed()
{
    const int nl = vp_choose("isotope", VP_T(3, 4)), nc = 1 + vp_choose("letters", VP_T(2, 3)), q = vp_choose("charge", 4), nt = vp_choose("blanks", 2);
    const string l = text("lead", nl), c = text("symbol", nc), t = text("blank", nt);
    bool ok = true;
    for (int i = 0; i < nl; ++i) ok &= lead(l[i]);
    for (int i = 0; i < nc; ++i) ok &= letter(c[i]);
    for (int i = 0; i < nt; ++i) ok &= blank(t[i]);
    vp_assume(ok);
    const uc d = vp_symbyte("digit");
    vp_assume(('1' <= d) & (d <= '8'));
    string s = l + c;
    int v = 0;
    switch (q)
    {
        case 0: break;
        case 1: s += '+'; v = 1; break;
        case 2: s += (char) d; s += '-'; v = -(d - '0'); break;
        case 3: s += (char) d; s += '+'; v = d - '0'; break;
    }
    s += t;
    vp_check(atomBareSymbol(s) == c, "symbol of the composed label");
    vp_check(atomValence(s) == v, "valence of the composed label");
    vp_reach("composed");
}

extern "C" void vp_main()
{
    switch (VP_PART) { case 0: anything(); break; case 1: valence(); break; case 2: composed(); break; }
}
