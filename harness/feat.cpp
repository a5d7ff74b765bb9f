// C07-C10: every feature equals its definition.
#include "feat_model.hpp"
using namespace mc;
namespace s = ppocr::strategies;

template<class S> typename S::value_type load(Ctx& c, ppocr::Image const& i, ppocr::Image const& i90)
{
    typename S::ctx_type ctx; ctx.reset();
    c.transition();
    return S::load(i, i90, ctx);
}
static void eq(Ctx& c, char const* n, unsigned got, unsigned want, unsigned max, Pic const& p)
{
    c.check(got == want, [&]{ return std::string(n) + ": got " + std::to_string(got) + " expected " + std::to_string(want) + " for " + p.str(); });
    c.check(got <= max, [&]{ return std::string(n) + ": " + std::to_string(got) + " is out of its range 0.." + std::to_string(max) + " for " + p.str(); });
}

static void body(Ctx& c, Pic const& p)
{
    c.note([&]{ return "image " + p.str(); });
    c.state(p.hash());
    ppocr::Image const img = to_image(p), img90 = to_image(p.rot90());
    uint64_t o = 0;
#if PROP == 7
    unsigned const v[8] = {load<s::hdirection>(c, img, img90), load<s::hdirection2>(c, img, img90), load<s::hgravity>(c, img, img90), load<s::hgravity2>(c, img, img90),
        load<s::dvdirection>(c, img, img90), load<s::dvdirection2>(c, img, img90), load<s::dvgravity>(c, img, img90), load<s::dvgravity2>(c, img, img90)};
    for (auto x : v) o = mix(o, x);
    c.note([&]{ std::string t = "features"; for (auto x : v) t += " " + std::to_string(x); return t; });
    eq(c, "hdirection", v[0], fm::form1(p, false, false), 200, p);
    eq(c, "hdirection2", v[1], fm::form2_full(p, false), 100, p);
    eq(c, "hgravity", v[2], fm::form1(p, true, false), 200, p);
    eq(c, "hgravity2", v[3], fm::form2_full(p, true), 100, p);
    eq(c, "dvdirection", v[4], fm::form1(p, false, true), 200, p);
    eq(c, "dvdirection2", v[5], fm::form2_diag(p, false), 100, p);
    eq(c, "dvgravity", v[6], fm::form1(p, true, true), 200, p);
    eq(c, "dvgravity2", v[7], fm::form2_diag(p, true), 100, p);
    // mirror law (up to the truncation of the integer division)
    Pic const q = p.flip_v(); ppocr::Image const m = to_image(q), m90 = to_image(q.rot90());
    unsigned const a[4] = {v[0], v[2], v[4], v[6]};
    unsigned const b[4] = {load<s::hdirection>(c, m, m90), load<s::hgravity>(c, m, m90), load<s::dvdirection>(c, m, m90), load<s::dvgravity>(c, m, m90)};
    for (int i = 0; i < 4; ++i) c.check(a[i] + b[i] == 200 || a[i] + b[i] == 199, [&]{ return "mirror law broken for feature " + std::to_string(i) + ": " + std::to_string(a[i]) + " and " + std::to_string(b[i]) + " for " + p.str(); });
#elif PROP == 8
    unsigned const d = load<s::density>(c, img, img90), z = load<s::dzdensity>(c, img, img90), hb = load<s::hbar>(c, img, img90), pr = load<s::proportionality>(c, img, img90);
    o = mix(mix(mix(d, z), hb), pr);
    c.note([&]{ return "density " + std::to_string(d) + " dzdensity " + std::to_string(z) + " hbar " + std::to_string(hb) + " proportionality " + std::to_string(pr); });
    eq(c, "density", d, fm::density(p), 100, p);
    eq(c, "dzdensity", z, fm::dzdensity(p), 100, p);
    eq(c, "hbar", hb, fm::hbar(p), (p.h + 1) / 2, p);
    eq(c, "proportionality", pr, fm::proportionality(p), 100, p);
#elif PROP == 9
    auto const a = load<s::alternations>(c, img, img90); auto const m = fm::alternations(p);
    for (unsigned i = 0; i < 7; ++i) {
        o = mix(mix(o, a[i].count), a[i].start_contains_letter);
        c.check(a[i].start_contains_letter == m[i].first && a[i].count == m[i].second, [&]{
            return "alternation " + std::to_string(i) + ": got {" + std::to_string(a[i].start_contains_letter) + "," + std::to_string(a[i].count) + "} expected {" + std::to_string(m[i].first) + "," + std::to_string(m[i].second) + "} for " + p.str(); });
    }
    c.note([&]{ std::string t = "alternations"; for (auto& x : a) t += " " + std::to_string(x.start_contains_letter) + ":" + std::to_string(x.count); return t; });
#elif PROP == 10
    auto const z = load<s::zone>(c, img, img90); auto const m = fm::zone(p);
    auto const pz = load<s::proportionality_zone>(c, img, img90); auto const mp = fm::pzone(p);
    auto str = [](auto const& v) { std::string t; for (auto x : v) t += " " + std::to_string(x); return t; };
    for (auto x : z) o = mix(o, x);
    for (auto x : pz) o = mix(o, x);
    c.note([&]{ return "zone" + str(z) + " proportions" + str(pz); });
    for (unsigned i = 0; i < 7; ++i) c.check(z[i] == m[i], [&]{ return "zone: got" + str(z) + " expected" + str(m) + " for " + p.str(); });
    c.check(pz == mp, [&]{ return "zone proportions: got" + str(pz) + " expected" + str(mp) + " for " + p.str(); });
#endif
    c.outcome(o);
    c.check(from_image(img) == p, "the picture was modified");
}
// the same features through the registered database (picture and its rotation)
static void datas_body(Ctx& c, Pic const& p)
{
    c.note([&]{ return "image " + p.str() + " through the database"; });
    c.state(p.hash() ^ 0x5555);
    ppocr::PpOcrDatas d; d.load(to_image(p)); c.transition();
    c.check(fm::sizes_equal(d) == 1, "one entry expected");
    auto const got = fm::from_datas(d, 0), want = fm::features(p);
    c.outcome(got.str(PROP));
    c.check(got.str(PROP) == want.str(PROP), [&]{ return fm::diff(got, want, PROP) + " for " + p.str(); });
}

static std::vector<Family> families(Tier t)
{
    std::vector<Family> fs;
    unsigned const A = t.thorough ? 22 : 16, A2 = t.thorough ? 16 : 11;
    auto const S = sizes_upto(A, A, A), S2 = sizes_upto(A2, A2, A2);
    std::vector<Size> const big = {{1,40},{40,1},{2,31},{31,2},{3,3},{7,9},{9,7},{8,8},{16,15},{15,16},{17,33},{33,17},{12,40},{64,5},{5,64},{10,20},{11,21}};
    std::vector<Size> more;
    for (unsigned w = 1; w <= (t.thorough ? 40u : 26u); ++w) for (unsigned h = 1; h <= (t.thorough ? 40u : 26u); ++h) more.push_back({w, h});
    fs.push_back({"all-images", "every image with at most " + std::to_string(A) + " pixels (every width x height)", [S](Ctx& c){ body(c, choose_pic(c, S)); }});
    fs.push_back({"large-images", "17 larger sizes x 22 motifs x one pixel flipped on a 9x9 grid", [big](Ctx& c){ body(c, choose_motif(c, big, 9)); }});
    fs.push_back({"every-shape", "every width and height up to " + std::to_string(t.thorough ? 40 : 26) + " x 22 motifs x (nothing, a corner or the middle flipped)", [more](Ctx& c){ body(c, choose_motif(c, more, 2)); }});
    std::vector<Size> const large = {{90,90},{120,100},{100,120},{255,257},{256,256},{300,90},{90,300}};
    fs.push_back({"line-heights", "7 sizes of 90 to 300 pixels x 22 motifs x (nothing, a corner or the middle flipped)", [large](Ctx& c){ body(c, choose_motif(c, large, 2)); }});
    std::vector<Size> huge = {{600,600},{1,70000},{70000,1},{500,1300},{1500,1400}};
    if (t.thorough) huge.insert(huge.end(), {{2100,2000},{4800,4500},{5790,5790}});
    fs.push_back({"huge", std::to_string(huge.size()) + " sizes from 1x70000 and 600x600 to " + (t.thorough ? "5790x5790, just below 2^25 pixels" : "1500x1400") + " (weighted sums above 2^32) x (full, empty, ring, checkerboard, upper half, lower half)", [huge](Ctx& c){
        Size const z = c.pick(huge); unsigned const k = c.choose(6); Pic p = motif(k < 2 ? k : k == 2 ? 2 : k == 3 ? 5 : 1, z.w, z.h);
        if (k >= 4) for (unsigned y = 0; y < z.h; ++y) if ((y < z.h / 2) == (k == 4)) for (unsigned x = 0; x < z.w; ++x) p.set(x, y);
        body(c, p); }});
    std::vector<Size> giant = {{7000,7000},{50000000,1},{1,50000000}};
    if (t.thorough) giant.insert(giant.end(), {{25000000,3},{3,25000000}}); if (t.thorough && PROP != 10) giant.push_back({16000,16000}); if (t.thorough && PROP == 8) giant.push_back({27000,27000});
    if (PROP != 9) fs.push_back({"giant", std::to_string(giant.size()) + " sizes of 49 million pixels and more (a hundred times a count is above 2^32) x (full, empty, all but the first half)", [giant](Ctx& c){
        Size const z = c.pick(giant); unsigned const k = c.choose(3); Pic p(z.w, z.h); if (k != 1) for (std::size_t i = k ? p.p.size() / 2 : 0; i < p.p.size(); ++i) p.p[i] = 'x';
        body(c, p); }});
    static auto const N = scale(t.thorough ? 20001 : 5000, t.thorough ? 300 : 40);
    fs.push_back({"size-scale", "every n up to " + std::to_string(t.thorough ? 300 : 40) + " and next to powers of two and ten up to " + std::to_string(t.thorough ? 20001 : 5000) + " as width or height, other side 1, 2, 3, 7, 8, 20 x 22 motifs", [](Ctx& c){
        static unsigned const K[] = {1, 2, 3, 7, 8, 20}; unsigned const n = c.pick(N), o = K[c.choose(6)]; bool const tall = c.choose(2);
        body(c, motif(c.choose(MOTIFS), tall ? o : n, tall ? n : o)); }});
    fs.push_back({"bands", "pictures n wide or high (n on the same scale, other side 1, 2, 3, 20) with letter pixels only before, only after, or only between two of 9 cut positions", [](Ctx& c){
        static unsigned const K[] = {1, 2, 3, 20}; unsigned const n = c.pick(N), o = K[c.choose(4)]; bool const tall = c.choose(2);
        auto cut = [&](unsigned i) { return i == 0 ? 0 : i == 1 ? 1 : i == 2 ? n / 4 : i == 3 ? n / 3 : i == 4 ? n / 2 : i == 5 ? (n + 1) / 2 : i == 6 ? n * 2 / 3 : i == 7 ? n - 1 : n; };
        unsigned const a = cut(c.choose(9)), b = cut(c.choose(9)); if (a >= b) return;
        Pic p(tall ? o : n, tall ? n : o); for (unsigned i = a; i < b; ++i) for (unsigned j = 0; j < o; ++j) p.set(tall ? j : i, tall ? i : j);
        body(c, p); }});
    // no two neighbouring lines alike: a band or cut that is off by one line shows
    static auto const uneven = [](unsigned w, unsigned h, unsigned k) { Pic p(w, h); for (unsigned y = 0; y < h; ++y) for (unsigned x = 0; x < w; ++x) if (k == 1 ? mix(mix(y, k), x) % (w + h) < (w > h ? x : h - y) : mix(mix(y, k), x) % (k + 2) < 2 && (k == 0 || k == 3 || x * 2 < w || y * 2 < h)) p.set(x, y); return p; };
    static unsigned const M = t.thorough ? 3000 : 700;
    fs.push_back({"every-size", "every n up to " + std::to_string(M) + " as width or height, other side 4 or 21 x 3 uneven contents (no two neighbouring lines alike; denser towards one end; sparse in one corner)", [](Ctx& c){
        unsigned const n = 1 + c.choose(M), o = c.choose(2) ? 21 : 4, k = c.choose(3); bool const tall = c.choose(2); body(c, uneven(tall ? o : n, tall ? n : o, k)); }});
    static auto const FAR = [t]{ std::vector<unsigned> v; for (unsigned n : scale(t.thorough ? 1100000 : 140000)) if (n > 5000) v.push_back(n); for (unsigned d : {3u, 5u, 6u, 7u, 9u, 10u}) for (unsigned x = 0; x < 4; ++x) v.push_back((1u << 16) / d + x); return v; }();
    fs.push_back({"far-size", "n next to powers of two and ten from 5000 up to " + std::to_string(FAR.size() ? (t.thorough ? 1100000 : 140000) : 0) + " and where a multiple of n passes 65536, as width or height, other side 1, 2 or 4 x the same 3 contents", [](Ctx& c){
        static unsigned const K[] = {1, 2, 4}; unsigned const n = c.pick(FAR), o = K[c.choose(3)], k = c.choose(3); bool const tall = c.choose(2); body(c, uneven(tall ? o : n, tall ? n : o, k)); }});
    fs.push_back({"single-pixel", "a single letter pixel at every position of every image up to 14x14", [](Ctx& c){
        unsigned w = 1 + c.choose(14), h = 1 + c.choose(14); Pic p(w, h); unsigned k = c.choose(w * h); p.p[k] = 'x'; body(c, p); }});
    fs.push_back({"shipped-glyphs", "all 5465 pictures of the shipped latin glyph file", [](Ctx& c){ auto const& g = corpus(0); if (g.empty()) return; unsigned i = c.choose(64), j = c.choose(unsigned(g.size() + 63) / 64); if (i * ((g.size() + 63) / 64) + j >= g.size()) return; body(c, g[i * ((g.size() + 63) / 64) + j].pic); }});
    fs.push_back({"database-small", "every image with at most " + std::to_string(A2) + " pixels through PpOcrDatas (registered features of this group, both rotations)", [S2](Ctx& c){ datas_body(c, choose_pic(c, S2)); }});
    fs.push_back({"database-large", "17 larger sizes x 22 motifs x one pixel flipped on a 3x3 grid through PpOcrDatas", [big](Ctx& c){ datas_body(c, choose_motif(c, big, 3)); }});
    return fs;
}
MC_MAIN(families)
