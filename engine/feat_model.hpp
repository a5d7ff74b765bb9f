// Reference definitions of every feature, written from the property statements (signed arithmetic, no reuse of the code).
#pragma once
#include "img.hpp"
#include "ppocr/defined_loader.hpp"
#include <array>

namespace fm {

using L = long long;
struct TB { L top = 0, bottom = 0; };

// (top, bottom) balance; weight of a row = distance from the middle (1 nearest) when gravity
inline TB halves(Pic const& p, bool gravity, bool diagonal)
{
    TB r; L const hh = p.h / 2, w = p.w;
    for (L k = 0; k < hh; ++k) {                  // k = distance from the outer edge
        L const lo = diagonal ? w / 2 - w / (1 + k) / 2 : 0, hi = w - lo;
        L const weight = gravity ? hh - k : 1;
        for (L x = lo; x < hi; ++x) {
            if (p.ink(unsigned(x), unsigned(k))) r.top += weight;
            if (p.ink(unsigned(x), unsigned(p.h - 1 - k))) r.bottom += weight;
        }
    }
    return r;
}
// maximal value of one half
inline L half_area(Pic const& p, bool gravity, bool diagonal)
{
    L const hh = p.h / 2, w = p.w; L a = 0;
    for (L k = 0; k < hh; ++k) {
        L const lo = diagonal ? w / 2 - w / (1 + k) / 2 : 0;
        a += (w - 2 * lo) * (gravity ? hh - k : 1);
    }
    return a;
}
inline unsigned form1(Pic const& p, bool gravity, bool diagonal)
{
    TB t = halves(p, gravity, diagonal); L s = t.top + t.bottom;
    return s ? unsigned((s + t.top - t.bottom) * 100 / s) : 100u;
}
inline unsigned form2_full(Pic const& p, bool gravity)      // hdirection2, hgravity2
{
    L const a = half_area(p, gravity, false); if (!a) return 50;
    TB t = halves(p, gravity, false);
    return unsigned((a + t.top - t.bottom) * 100 / (2 * a));
}
inline unsigned form2_diag(Pic const& p, bool gravity)      // dvdirection2, dvgravity2
{
    L const a = half_area(p, gravity, true); if (!a) return 50;
    TB t = halves(p, gravity, true); L s = t.top + t.bottom;
    return unsigned((s + t.top - t.bottom) * 100 / (2 * a));
}
inline unsigned density(Pic const& p)
{
    L n = 0; for (char c : p.p) n += c == 'x';
    return unsigned(n * 100 / L(p.p.size()));
}
inline unsigned dzdensity(Pic const& p)
{
    if (p.w < 3 || p.h < 3) return 0;
    L const w = p.w, h = p.h; L n = 0, area = 0;
    for (L y = 0; y < h; ++y) {
        // band:  ceil((y+1)*w/h - w/3) <= x < floor(y*w/h + w/3)
        L const num = 3 * w * (y + 1) - w * h, den = 3 * h;
        L const xs = num <= 0 ? 0 : (num + den - 1) / den;
        L const xe = std::min(w, (3 * w * y + w * h) / den);
        for (L x = xs; x < xe; ++x) { ++area; n += p.ink(unsigned(x), unsigned(y)); }
    }
    return unsigned(n * 100 / area);
}
inline unsigned hbar(Pic const& p)
{
    unsigned n = 0; bool prev = false;
    for (unsigned y = 0; y < p.h; ++y) {
        bool full = true; for (unsigned x = 0; x < p.w; ++x) full = full && p.ink(x, y);
        if (full && !prev) ++n;
        prev = full;
    }
    return n;
}
inline unsigned proportionality(Pic const& p) { return unsigned(L(p.w) * 100 / (L(p.w) + p.h)); }

using Alt = std::pair<bool, unsigned>;
inline Alt runs(std::vector<bool> const& v)
{
    unsigned n = 1; for (std::size_t i = 1; i < v.size(); ++i) if (v[i] != v[i - 1]) ++n;
    return {v[0], n};
}
inline Alt rows_band(Pic const& p, unsigned y0, unsigned n)   // per column: any ink in rows [y0, y0+n)
{
    std::vector<bool> v(p.w, false);
    for (unsigned x = 0; x < p.w; ++x) for (unsigned y = y0; y < y0 + n; ++y) if (p.ink(x, y)) v[x] = true;
    return runs(v);
}
inline Alt cols_band(Pic const& p, unsigned x0, unsigned n)   // per row, top to bottom
{
    std::vector<bool> v(p.h, false);
    for (unsigned y = 0; y < p.h; ++y) for (unsigned x = x0; x < x0 + n; ++x) if (p.ink(x, y)) v[y] = true;
    return runs(v);
}
inline std::array<Alt, 7> alternations(Pic const& p)
{
    unsigned const w = p.w, h = p.h;
    std::array<Alt, 7> r;
    r[0] = h < 2 ? Alt{false, 0} : rows_band(p, (h - 2) / 3, 1);
    r[1] = rows_band(p, (2 * h - 1) / 3, 1);
    r[2] = rows_band(p, 0, h / 3);
    r[3] = rows_band(p, h - h / 3, h / 3);
    r[4] = cols_band(p, w - 1 - (w - 1) / 2, 1);
    r[5] = cols_band(p, 0, w / 3);
    r[6] = cols_band(p, w - w / 3, w / 3);
    return r;
}

struct Zones { unsigned n = 0; std::vector<std::array<unsigned, 4>> contact; };   // top right bottom left per component
inline Zones zones(Pic const& p)
{
    std::vector<int> id(p.p.size(), -1); Zones z;
    // label propagation to a fixpoint (union-find would do; this is the boring one)
    std::vector<unsigned> parent(p.p.size());
    for (unsigned i = 0; i < parent.size(); ++i) parent[i] = i;
    auto find = [&](unsigned i) { while (parent[i] != i) i = parent[i] = parent[parent[i]]; return i; };
    auto idx = [&](unsigned x, unsigned y) { return y * p.w + x; };
    for (unsigned y = 0; y < p.h; ++y) for (unsigned x = 0; x < p.w; ++x) if (!p.ink(x, y)) {
        if (x && !p.ink(x - 1, y)) parent[find(idx(x, y))] = find(idx(x - 1, y));
        if (y && !p.ink(x, y - 1)) parent[find(idx(x, y))] = find(idx(x, y - 1));
    }
    std::vector<int> num(p.p.size(), -1);
    for (unsigned y = 0; y < p.h; ++y) for (unsigned x = 0; x < p.w; ++x) if (!p.ink(x, y)) {
        unsigned r = find(idx(x, y));
        if (num[r] < 0) { num[r] = int(z.n++); z.contact.push_back({0, 0, 0, 0}); }
        auto& c = z.contact[unsigned(num[r])];
        if (y == 0) ++c[0];
        if (x + 1 == p.w) ++c[1];
        if (y + 1 == p.h) ++c[2];
        if (x == 0) ++c[3];
    }
    return z;
}
inline std::array<unsigned, 7> zone(Pic const& p)
{
    Zones z = zones(p); std::array<unsigned, 7> r{};
    r[0] = p.ink(0, 0); r[1] = p.ink(p.w - 1, p.h - 1);
    unsigned inner = 0;
    for (auto& c : z.contact) {
        for (int d = 0; d < 4; ++d) r[2 + d] += c[d] != 0;
        inner += !c[0] && !c[1] && !c[2] && !c[3];
    }
    r[6] = inner;
    return r;
}
inline std::vector<unsigned> pzone(Pic const& p)
{
    Zones z = zones(p); std::vector<unsigned> r; unsigned total = 0;
    for (auto& c : z.contact) for (int d = 0; d < 4; ++d) if (c[d]) { r.push_back(c[d]); total += c[d]; break; }
    for (auto& n : r) n = unsigned(uint64_t(n) * 100 / total);
    std::sort(r.begin(), r.end());
    return r;
}

// ---- all registered features
struct Feat
{
    // [0] the picture, [1] the picture rotated
    unsigned dvg2[2], dvd2[2], dzd[2], hd[2], hd2[2], hg[2], hg2[2], prop, dvd[2], dvg[2], dens, hbar_[2];
    std::array<Alt, 7> alt; std::array<unsigned, 7> zone_; std::vector<unsigned> pz;

    template<class F> static void each_scalar(Feat const& a, F f)
    {
        f("dvgravity2", a.dvg2[0]); f("dvgravity2/90", a.dvg2[1]); f("dvdirection2", a.dvd2[0]); f("dvdirection2/90", a.dvd2[1]);
        f("dzdensity", a.dzd[0]); f("dzdensity/90", a.dzd[1]); f("hdirection", a.hd[0]); f("hdirection/90", a.hd[1]);
        f("hdirection2", a.hd2[0]); f("hdirection2/90", a.hd2[1]); f("hgravity", a.hg[0]); f("hgravity/90", a.hg[1]);
        f("hgravity2", a.hg2[0]); f("hgravity2/90", a.hg2[1]); f("proportionality", a.prop); f("dvdirection", a.dvd[0]);
        f("dvdirection/90", a.dvd[1]); f("dvgravity", a.dvg[0]); f("dvgravity/90", a.dvg[1]); f("density", a.dens);
        f("hbar", a.hbar_[0]); f("hbar/90", a.hbar_[1]);
    }
    // group: 0 all, 7 directions and gravities, 8 densities, bars and proportion, 9 alternations, 10 zones
    std::string str(int group = 0) const
    {
        std::string s;
        each_scalar(*this, [&](char const* n, unsigned v) {
            bool const g8 = strstr(n, "density") || strstr(n, "hbar") || strstr(n, "proportionality");
            if (group == 0 || group == (g8 ? 8 : 7)) s += std::string(n) + "=" + std::to_string(v) + " ";
        });
        if (group == 0 || group == 9) { s += "alternations="; for (auto& a : alt) s += std::to_string(a.first) + ":" + std::to_string(a.second) + " "; }
        if (group == 0 || group == 10) {
            s += "zone="; for (auto v : zone_) s += std::to_string(v) + " ";
            s += "zone-proportions="; for (auto v : pz) s += std::to_string(v) + " ";
        }
        return s;
    }
    bool operator==(Feat const& o) const { return str() == o.str(); }
};
inline Feat features(Pic const& p)
{
    Feat f; Pic const q = p.rot90(); Pic const* v[2] = {&p, &q};
    for (int i = 0; i < 2; ++i) {
        Pic const& x = *v[i];
        f.dvg2[i] = form2_diag(x, true); f.dvd2[i] = form2_diag(x, false); f.dzd[i] = dzdensity(x);
        f.hd[i] = form1(x, false, false); f.hd2[i] = form2_full(x, false); f.hg[i] = form1(x, true, false); f.hg2[i] = form2_full(x, true);
        f.dvd[i] = form1(x, false, true); f.dvg[i] = form1(x, true, true); f.hbar_[i] = hbar(x);
    }
    f.prop = proportionality(p); f.dens = density(p);
    f.alt = alternations(p); f.zone_ = zone(p); f.pz = pzone(p);
    return f;
}

template<class S> using Img = ppocr::loader2::Strategy<S, ppocr::loader2::PolicyLoader::img>;
template<class S> using Img90 = ppocr::loader2::Strategy<S, ppocr::loader2::PolicyLoader::img90>;

// what the real database holds at entry i
template<class D>
Feat from_datas(D const& d, std::size_t i)
{
    namespace s = ppocr::strategies; Feat f;
    f.dvg2[0] = d.template get<Img<s::dvgravity2>>()[i]; f.dvg2[1] = d.template get<Img90<s::dvgravity2>>()[i];
    f.dvd2[0] = d.template get<Img<s::dvdirection2>>()[i]; f.dvd2[1] = d.template get<Img90<s::dvdirection2>>()[i];
    f.dzd[0] = d.template get<Img<s::dzdensity>>()[i]; f.dzd[1] = d.template get<Img90<s::dzdensity>>()[i];
    f.hd[0] = d.template get<Img<s::hdirection>>()[i]; f.hd[1] = d.template get<Img90<s::hdirection>>()[i];
    f.hd2[0] = d.template get<Img<s::hdirection2>>()[i]; f.hd2[1] = d.template get<Img90<s::hdirection2>>()[i];
    f.hg[0] = d.template get<Img<s::hgravity>>()[i]; f.hg[1] = d.template get<Img90<s::hgravity>>()[i];
    f.hg2[0] = d.template get<Img<s::hgravity2>>()[i]; f.hg2[1] = d.template get<Img90<s::hgravity2>>()[i];
    f.prop = d.template get<Img<s::proportionality>>()[i];
    f.dvd[0] = d.template get<Img<s::dvdirection>>()[i]; f.dvd[1] = d.template get<Img90<s::dvdirection>>()[i];
    f.dvg[0] = d.template get<Img<s::dvgravity>>()[i]; f.dvg[1] = d.template get<Img90<s::dvgravity>>()[i];
    f.dens = d.template get<Img<s::density>>()[i];
    f.hbar_[0] = d.template get<Img<s::hbar>>()[i]; f.hbar_[1] = d.template get<Img90<s::hbar>>()[i];
    auto const& a = d.template get<Img<s::alternations>>()[i];
    for (unsigned k = 0; k < 7; ++k) f.alt[k] = {a[k].start_contains_letter, a[k].count};
    auto const& z = d.template get<Img<s::zone>>()[i]; for (unsigned k = 0; k < 7; ++k) f.zone_[k] = z[k];
    f.pz = d.template get<Img<s::proportionality_zone>>()[i];
    return f;
}
template<class D>
std::size_t sizes_equal(D const& d)   // all strategies have the same number of entries, or ~0
{
    std::size_t n = d.size(); bool ok = true;
    ppocr::loader2::apply_from_datas(d, [&](auto const& x) { ok = ok && x.size() == n; });
    return ok ? n : std::size_t(-1);
}
inline std::string diff(Feat const& got, Feat const& want, int group = 0)
{
    std::string a = got.str(group), b = want.str(group), r;
    std::size_t i = 0, j = 0;
    while (i < a.size() && j < b.size()) {
        std::size_t e = a.find(' ', i), g = b.find(' ', j);
        if (a.substr(i, e - i) != b.substr(j, g - j)) r += "got " + a.substr(i, e - i) + " expected " + b.substr(j, g - j) + "; ";
        i = e + 1; j = g + 1;
        if (e == std::string::npos || g == std::string::npos) break;
    }
    return r.empty() ? "got " + a + " expected " + b : r;
}

} // namespace fm
