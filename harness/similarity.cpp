// C11: similarity measures and range predicates of every registered feature.
#include "feat_model.hpp"
#include <set>
using namespace mc;
namespace s = ppocr::strategies;
using ppocr::mp_list;

template<class S> struct Tag { using type = S; };
template<class F, class... S> void each(mp_list<S...>, F f) { (..., f(Tag<S>{})); }
template<class T> constexpr bool is_scalar_feature = std::is_same_v<T, unsigned>;

static std::string num(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }
static std::string str(unsigned v) { return std::to_string(v); }
template<class V> std::string vec(V const& v) { std::string t = "("; for (auto x : v) t += " " + std::to_string(x); return t + " )"; }

struct Scalar { char const* name; unsigned range;         // 0: equality only
    double (*dist)(unsigned, unsigned); bool (*in)(unsigned, unsigned, unsigned); unsigned (*count)();
    double (*ddist)(unsigned stored, unsigned searched); bool (*din)(unsigned stored, unsigned searched, unsigned); unsigned (*dcount)(); };
template<class S> Scalar scalar(char const* n, unsigned range)
{
    using D = ppocr::loader2::Data<S>; using R = typename D::relationship_type;
    return {n, range,
        [](unsigned a, unsigned b) { return double(R::dist(a, b)); }, [](unsigned a, unsigned b, unsigned d) { return bool(R::in_dist(a, b, d)); }, []() { return unsigned(R::count()); },
        [](unsigned st, unsigned se) { return double(D(typename D::container_type{st}).dist_with(0, se)); },
        [](unsigned st, unsigned se, unsigned d) { return bool(D(typename D::container_type{st}).in_dist_with(0, se, d)); },
        []() { return unsigned(D().count_posibilities()); }};
}
#define BOTH(x, r) scalar<fm::Img<s::x>>(#x, r), scalar<fm::Img90<s::x>>(#x "/90", r)
static std::vector<Scalar> const& scalars()
{
    static std::vector<Scalar> const v = {BOTH(dvgravity2, 100), BOTH(dvdirection2, 100), BOTH(dzdensity, 100), BOTH(hdirection, 200), BOTH(hdirection2, 100), BOTH(hgravity, 200),
        BOTH(hgravity2, 100), scalar<fm::Img<s::proportionality>>("proportionality", 100), BOTH(dvdirection, 200), BOTH(dvgravity, 200), scalar<fm::Img<s::density>>("density", 100),
        BOTH(hbar, 0)};
    return v;
}
// percent of similarity by definition
static unsigned spec(Scalar const& f, unsigned a, unsigned b)
{
    if (!f.range) return a == b ? 100 : 0;
    unsigned const d = a < b ? b - a : a - b;
    return 100 - d * 100 / f.range;
}
static void in01(Ctx& c, char const* n, double v) { c.check(v >= 0. && v <= 1., [&]{ return std::string(n) + ": similarity " + num(v) + " is outside [0,1]"; }); }

static void scalar_body(Ctx& c, unsigned dmax)
{
    Scalar const& f = scalars()[c.choose(unsigned(scalars().size()), "feature")];
    unsigned const top = f.range ? f.range : 40;
    unsigned const a = c.choose(top + 1, "a");
    c.note([&]{ return std::string(f.name) + " a=" + str(a) + ", every b in 0.." + str(top); });
    unsigned const want_count = f.range ? f.range + 1 : 2;
    c.check(f.count() == want_count && f.dcount() == want_count, [&]{ return std::string(f.name) + ": number of possible values is " + str(f.count()) + ", expected " + str(want_count); });
    for (unsigned b = 0; b <= top; ++b) {
        c.state(mix(mix(hash(f.name), a), b)); c.transition();
        double const v = f.dist(a, b), w = f.ddist(a, b), want = spec(f, a, b) / 100.;
        in01(c, f.name, v);
        auto what = [&]{ return std::string(f.name) + ": similarity of " + str(a) + " and " + str(b) + " is " + num(v) + " (database: " + num(w) + "), expected " + num(want); };
        c.check(v == want && w == want, what);
        c.check(a != b || v == 1., what);
        c.outcome(mix(spec(f, a, b), f.range));
        for (unsigned d = 0; d <= dmax; ++d) {
            bool const g = f.in(a, b, d), h = f.din(a, b, d);
            bool const want = f.range ? ((a < b ? b - a : a - b) > d) : a == b;
            c.check(g == want && h == want, [&]{ return std::string(f.name) + ": range predicate for stored " + str(a) + ", searched " + str(b) + ", " + str(d) + " units is " + str(g) + "/" + str(h) + ", expected " + str(want); });
        }
    }
}
template<class S, class V> void check_vector(Ctx& c, char const* n, V const& a, V const& b, unsigned want, unsigned want_rev, std::string const& txt)
{
    using D = ppocr::loader2::Data<S>; using R = typename D::relationship_type;
    c.transition();
    double const v = R::dist(a, b);
    in01(c, n, v);
    c.check(v == want / 100., [&]{ return std::string(n) + ": similarity is " + num(v) + ", expected " + num(want / 100.) + " for " + txt; });
    D const d(typename D::container_type{a});
    double const w = d.dist_with(0, b);
    c.check(w == want / 100. || w == want_rev / 100., [&]{ return std::string(n) + ": database similarity is " + num(w) + ", expected " + num(want / 100.) + " for " + txt; });
    c.check(R::count() == 101 && d.count_posibilities() == 101, [&]{ return std::string(n) + ": number of possible values is " + str(R::count()) + ", expected 101"; });
    unsigned const ds[] = {0, 1, want ? want - 1 : 0, want, want + 1, 49, 50, 51, 99, 100, 101, 1000};
    for (unsigned t : ds) {
        bool const g = R::in_dist(a, b, t), h = d.in_dist_with(0, b, t);
        c.check(g == (want >= t), [&]{ return std::string(n) + ": threshold predicate at " + str(t) + " is " + str(g) + " for " + txt; });
        c.check(h == (want >= t) || h == (want_rev >= t), [&]{ return std::string(n) + ": database threshold predicate at " + str(t) + " is " + str(h) + " for " + txt; });
    }
    c.outcome(want);
}
static void alternations_body(Ctx& c)
{
    using V = s::alternations::value_type;
    static unsigned const counts[][2] = {{1, 2}, {0, 256}, {300, 301}, {2, 65538}};
    auto const& ct = counts[c.choose(4, "counts")];
    V a{}, b{}; unsigned eq = 0; std::string t;
    for (unsigned i = 0; i < 7; ++i) {
        unsigned const k = c.choose(4, "position: equal / start differs / count differs / both differ");
        a[i].start_contains_letter = i % 2; a[i].count = ct[0];
        b[i].start_contains_letter = (i % 2) ^ (k & 1); b[i].count = ct[(k >> 1) & 1];
        eq += k == 0; t += "=sc*"[k];
    }
    c.note([&]{ return "alternations, relation per position " + t; });
    c.state(mix(hash(t), ct[1]));
    check_vector<fm::Img<s::alternations>>(c, "alternations", a, b, eq * 100 / 7, eq * 100 / 7, "positions " + t);
    check_vector<fm::Img<s::alternations>>(c, "alternations", b, a, eq * 100 / 7, eq * 100 / 7, "positions " + t + " (swapped)");
}
static void zone_body(Ctx& c)
{
    using V = s::zone::value_type;
    static unsigned const vals[][2] = {{0, 0}, {3, 3}, {0, 1}, {2, 1}, {0, 256}, {70000, 4464}};
    V a{}, b{}; unsigned eq = 0;
    for (unsigned i = 0; i < 7; ++i) { auto& k = vals[c.choose(6, "position")]; a[i] = k[0]; b[i] = k[1]; eq += k[0] == k[1]; }
    c.note([&]{ return "zone " + vec(a) + " " + vec(b); });
    c.state(hash(vec(a) + vec(b)));
    check_vector<fm::Img<s::zone>>(c, "zone", a, b, eq * 100 / 7, eq * 100 / 7, vec(a) + vec(b));
}
static unsigned pz_spec(std::vector<unsigned> const& a, std::vector<unsigned> const& b)
{
    if (a.size() != b.size()) return 0;
    if (a.empty()) return 100;
    unsigned total = 0;
    for (std::size_t i = 0; i < a.size(); ++i) total += a[i] + b[i] == 0 ? 50 : a[i] * 100 / (a[i] + b[i]);
    int const mean = int(total / a.size());
    return 100 - unsigned(std::abs(mean - 50));
}
static void pz_pair(Ctx& c, std::vector<unsigned> const& a, std::vector<unsigned> const& b)
{
    c.note([&]{ return "zone proportions " + vec(a) + " " + vec(b); });
    c.state(hash(vec(a) + vec(b)));
    check_vector<fm::Img<s::proportionality_zone>>(c, "zone proportions", a, b, pz_spec(a, b), pz_spec(b, a), vec(a) + vec(b));
    if (a == b) c.check(pz_spec(a, b) == 100, "reference: equal values must be fully similar");
}
// sorted percentages of n pieces whose sum is 100-n+1 .. 100, multiples of step plus the remainder
static void vectors(std::vector<std::vector<unsigned>>& out, std::vector<unsigned>& cur, unsigned n, unsigned low, unsigned left, unsigned step, unsigned lost)
{
    if (n == 1) {
        for (unsigned l = 0; l <= lost; ++l) if (left >= l && left - l >= low) { cur.push_back(left - l); out.push_back(cur); cur.pop_back(); }
        return;
    }
    for (unsigned v = low; v * n <= left; v += step) { cur.push_back(v); vectors(out, cur, n - 1, v, left - v, step, lost); cur.pop_back(); }
}
static std::vector<std::vector<unsigned>> pz_domain(bool thorough)
{
    std::vector<std::vector<unsigned>> r; std::vector<unsigned> cur;
    r.push_back({}); r.push_back({100});
    vectors(r, cur, 2, 0, 100, thorough ? 1 : 3, 1);
    vectors(r, cur, 3, 0, 100, thorough ? 5 : 12, 2);
    vectors(r, cur, 4, 0, 100, thorough ? 8 : 14, 1);
    vectors(r, cur, 7, 0, 100, thorough ? 10 : 14, 0);
    r.push_back(std::vector<unsigned>(100, 1)); r.push_back(std::vector<unsigned>(150, 0));
    { std::vector<unsigned> v(150, 0); v.back() = 26; r.push_back(v); }
    return r;
}

static std::vector<Family> families(Tier t)
{
    std::vector<Family> fs;
    unsigned const dm = t.thorough ? 210 : 25;
    fs.push_back({"scalar-features", "22 registered scalar features x every pair of values in the feature's range x every number of units 0.." + std::to_string(dm), [dm](Ctx& c){ scalar_body(c, dm); }});
    fs.push_back({"alternations", "every relation (equal, either part differs, both) at each of the 7 positions, 4 count values, both argument orders", [](Ctx& c){ alternations_body(c); }});
    fs.push_back({"zone", "6 value pairs (equal, smaller, larger, beyond 8/16 bits) at each of the 7 positions", [](Ctx& c){ zone_body(c); }});
    auto dom = std::make_shared<std::vector<std::vector<unsigned>>>(pz_domain(t.thorough));
    fs.push_back({"zone-proportions", "every ordered pair of " + std::to_string(dom->size()) + " sorted percentage lists (0, 1, 2, 3, 4, 7, 100 and 150 pieces)", [dom](Ctx& c){
        auto const& a = c.pick(*dom); auto const& b = c.pick(*dom); pz_pair(c, a, b); }});
    auto img = std::make_shared<std::vector<std::vector<unsigned>>>();
    {
        std::set<std::vector<unsigned>> st; unsigned const A = t.thorough ? 20 : 14;
        for (Size z : sizes_upto(7, 7, A)) for (unsigned m = 0; m < (1u << (z.w * z.h)); ++m) { if (z.w * z.h > (t.thorough ? 16u : 12u) && m % 7) continue; Pic p(z.w, z.h); for (unsigned i = 0; i < z.w * z.h; ++i) if (m >> i & 1) p.p[i] = 'x'; st.insert(fm::pzone(p)); }
        img->assign(st.begin(), st.end());
    }
    fs.push_back({"zone-proportions-of-images", "every ordered pair of the " + std::to_string(img->size()) + " distinct zone proportion lists of small images", [img](Ctx& c){
        auto const& a = c.pick(*img); auto const& b = c.pick(*img); pz_pair(c, a, b); }});
    return fs;
}
MC_MAIN(families)
