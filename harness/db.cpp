// C12: feature extraction does not depend on what was processed before; C13: the database survives a save and reload.
#include "feat_model.hpp"
#include "ppocr/ocr2/image_context.hpp"
#include "ppocr/utils/read_file.hpp"
#include <sstream>
using namespace mc;
namespace s = ppocr::strategies;

struct Item { Pic pic; fm::Feat feat; };
// pictures that leave different traces in work buffers: sizes up and down, no / one / many background components, full, empty
static std::vector<Item> const& alphabet()
{
    static std::vector<Item> v;
    if (!v.empty()) return v;
    auto add = [&](Pic p) { fm::Feat f = fm::features(p); v.push_back({std::move(p), f}); };
    add(motif(0, 3, 4)); add(motif(5, 6, 5)); add(motif(2, 5, 7)); add(motif(1, 4, 4));
    add(Pic(1, 1, "x")); add(motif(9, 11, 11)); add(motif(8, 4, 9)); add(motif(15, 7, 9));
    add(motif(5, 33, 20)); add(motif(13, 9, 6)); add(Pic(3, 3, "xxxx-xxxx")); add(motif(12, 6, 12));
    add(Pic(1, 1, "-")); add(motif(19, 12, 13)); add(motif(3, 7, 7)); add(motif(18, 5, 5));
    add(Pic(2, 1, "x-")); add(Pic(1, 2, "-x")); add(motif(20, 10, 8)); add(motif(21, 8, 10));
    add(motif(7, 300, 2)); add(motif(8, 2, 300)); add(motif(16, 16, 16)); add(motif(17, 12, 7));
    return v;
}
static uint64_t fhash(fm::Feat const& f) { return hash(f.str()); }

static void check_entry(Ctx& c, ppocr::PpOcrDatas const& d, std::size_t i, fm::Feat const& want, Pic const& p, char const* when)
{
    fm::Feat const got = fm::from_datas(d, i);
    c.transition();
    if (!(got == want)) c.fail(std::string("entry ") + std::to_string(i) + " " + when + ": " + fm::diff(got, want) + " for " + p.str());
}
static std::vector<unsigned> sequence(Ctx& c, unsigned m, unsigned maxlen, unsigned minlen)
{
    std::vector<unsigned> q; unsigned n = minlen + c.choose(maxlen - minlen + 1, "length");
    for (unsigned i = 0; i < n; ++i) q.push_back(c.choose(m, "picture"));
    return q;
}
static std::string seqstr(std::vector<unsigned> const& q) { std::string t; for (auto i : q) t += (t.empty() ? "" : ", ") + alphabet()[i].pic.str(); return t; }
static uint64_t seqhash(std::vector<unsigned> const& q) { uint64_t h = 5; for (auto i : q) h = mix(h, i); return h; }

#if PROP == 12
static void history(Ctx& c, std::vector<Item const*> const& q)
{
    c.note([&]{ std::string t = "database loads:"; for (auto i : q) t += " [" + i->pic.str() + "]"; return t; });
    uint64_t h = 3; for (auto i : q) h = mix(h, i->pic.hash()); c.state(h);
    ppocr::PpOcrDatas d;
    for (std::size_t k = 0; k < q.size(); ++k) {
        d.load(to_image(q[k]->pic));
        c.check(fm::sizes_equal(d) == k + 1, "the features of the database have different numbers of entries");
        for (std::size_t i = 0; i <= k; ++i) check_entry(c, d, i, q[i]->feat, q[i]->pic, i == k ? "after it was added" : "after another picture was added");
    }
    c.outcome(fhash(q.back()->feat));
}
// one context for all features and characters, as the recogniser uses it
template<class S> typename S::value_type one(ppocr::PpOcrDataCtxs& ctx, ppocr::Image const& i, ppocr::Image const& r) { return S::load(i, r, static_cast<typename S::ctx_type&>(ctx)); }
static void shared_context(Ctx& c, std::vector<Item const*> const& q, unsigned order)
{
    c.note([&]{ std::string t = "recogniser context, evaluation order " + std::to_string(order) + ":"; for (auto i : q) t += " [" + i->pic.str() + "]"; return t; });
    uint64_t h = 11 + order; for (auto i : q) h = mix(h, i->pic.hash()); c.state(h);
    ppocr::PpOcrDataCtxs ctx; ppocr::ocr2::ImageContext ic;
    for (auto it : q) {
        Pic const& p = it->pic;
        ctx.reset();
        auto const& img = ic.img(ppocr::Bounds(p.w, p.h), [&](ppocr::Pixel* o) { memcpy(o, p.p.data(), p.p.size()); });
        auto const& img90 = ic.img90();
        c.check(from_image(img) == p, [&]{ return "the picture buffer differs from what was put in: " + from_image(img).str() + " instead of " + p.str(); });
        c.check(from_image(img90) == p.rot90(), [&]{ return "the rotated picture buffer is " + from_image(img90).str() + " for " + p.str(); });
        auto zone = [&]{ auto z = one<fm::Img<s::zone>>(ctx, img, img90); for (unsigned k = 0; k < 7; ++k) c.check(z[k] == it->feat.zone_[k], [&]{ return "zone counters of " + p.str() + " depend on earlier pictures (position " + std::to_string(k) + ": " + std::to_string(z[k]) + ", expected " + std::to_string(it->feat.zone_[k]) + ")"; }); };
        auto pzone = [&]{ auto z = one<fm::Img<s::proportionality_zone>>(ctx, img, img90); c.check(z == it->feat.pz, [&]{ return "zone proportions of " + p.str() + " depend on earlier pictures"; }); };
        auto scal = [&]{
            unsigned const g[] = {one<fm::Img<s::dvgravity2>>(ctx, img, img90), one<fm::Img90<s::dvgravity2>>(ctx, img, img90), one<fm::Img<s::dvdirection2>>(ctx, img, img90), one<fm::Img90<s::dvdirection2>>(ctx, img, img90),
                one<fm::Img<s::dzdensity>>(ctx, img, img90), one<fm::Img90<s::dzdensity>>(ctx, img, img90), one<fm::Img<s::hdirection>>(ctx, img, img90), one<fm::Img90<s::hdirection>>(ctx, img, img90),
                one<fm::Img<s::hdirection2>>(ctx, img, img90), one<fm::Img90<s::hdirection2>>(ctx, img, img90), one<fm::Img<s::hgravity>>(ctx, img, img90), one<fm::Img90<s::hgravity>>(ctx, img, img90),
                one<fm::Img<s::hgravity2>>(ctx, img, img90), one<fm::Img90<s::hgravity2>>(ctx, img, img90), one<fm::Img<s::proportionality>>(ctx, img, img90), one<fm::Img<s::dvdirection>>(ctx, img, img90),
                one<fm::Img90<s::dvdirection>>(ctx, img, img90), one<fm::Img<s::dvgravity>>(ctx, img, img90), one<fm::Img90<s::dvgravity>>(ctx, img, img90), one<fm::Img<s::density>>(ctx, img, img90),
                one<fm::Img<s::hbar>>(ctx, img, img90), one<fm::Img90<s::hbar>>(ctx, img, img90)};
            unsigned k = 0;
            fm::Feat::each_scalar(it->feat, [&](char const* n, unsigned w) { unsigned v = g[k++]; c.check(v == w, [&]{ return std::string(n) + " of " + p.str() + " depends on earlier pictures: " + std::to_string(v) + ", expected " + std::to_string(w); }); });
        };
        auto alt = [&]{ auto a = one<fm::Img<s::alternations>>(ctx, img, img90); for (unsigned k = 0; k < 7; ++k) c.check(a[k].start_contains_letter == it->feat.alt[k].first && a[k].count == it->feat.alt[k].second, [&]{ return "alternations of " + p.str() + " depend on earlier pictures"; }); };
        c.transition(4);
        switch (order) {
        case 0: scal(); alt(); zone(); pzone(); break;
        case 1: pzone(); zone(); alt(); scal(); break;
        case 2: pzone(); break;
        case 3: zone(); break;
        }
    }
    c.outcome(fhash(q.back()->feat));
}
#else
static std::string dump(ppocr::PpOcrDatas const& d) { std::ostringstream o; o << d; return o.str(); }
static void reload(Ctx& c, std::vector<Item const*> const& q)
{
    c.note([&]{ std::string t = "database of " + std::to_string(q.size()) + " pictures:"; for (auto i : q) t += " [" + i->pic.str() + "]"; return t; });
    uint64_t h = 7; for (auto i : q) h = mix(h, i->pic.hash()); c.state(h);
    ppocr::PpOcrDatas d; for (auto i : q) d.load(to_image(i->pic));
    std::string const bytes = dump(d);
    c.outcome(hash(bytes));
    auto same = [&](ppocr::PpOcrDatas const& r, char const* how) {
        c.check(fm::sizes_equal(r) == q.size(), [&]{ return std::string(how) + ": the reloaded database has not " + std::to_string(q.size()) + " entries for every feature"; });
        for (std::size_t i = 0; i < q.size(); ++i) check_entry(c, r, i, fm::from_datas(d, i), q[i]->pic, how);
        c.check(dump(r) == bytes, [&]{ return std::string(how) + ": writing the reloaded database gives other bytes"; });
    };
    ppocr::PpOcrDatas r; std::istringstream is(bytes);
    try { is >> r; } catch (std::exception const& e) { c.fail(std::string("reading back what was written is refused: ") + e.what()); }
    same(r, "after a reload");
    // as the recogniser loads it
    char const* dir = getenv("VERIF_SCRATCH"); std::string const f = std::string(dir ? dir : "/tmp") + "/db-" + std::to_string(getpid());
    spit(f, bytes); errno = 0;
    ppocr::PpOcrDatas r2;
    try { r2 = ppocr::utils::load_from_file<ppocr::PpOcrDatas>(f.c_str()); }
    catch (std::exception const& e) { c.fail(std::string("loading the written file is refused: ") + e.what()); }
    same(r2, "after loading the file");
    // reading into a database that already holds something replaces it
    ppocr::PpOcrDatas r3; r3.load(to_image(motif(3, 4, 4)));
    std::istringstream is3(bytes); is3 >> r3; same(r3, "after a reload over another database");
    // the reloaded database keeps working
    r.load(to_image(alphabet()[1].pic));
    check_entry(c, r, q.size(), alphabet()[1].feat, alphabet()[1].pic, "added to the reloaded database");
}
#endif

static std::vector<Item> const& smalls(unsigned area)
{
    static std::vector<Item> v;
    if (v.empty()) for (Size z : sizes_upto(area, area, area)) for (unsigned m = 0; m < (1u << (z.w * z.h)); ++m) { Pic p(z.w, z.h); for (unsigned i = 0; i < z.w * z.h; ++i) if (m >> i & 1) p.p[i] = 'x'; fm::Feat f = fm::features(p); v.push_back({p, f}); }
    return v;
}
static std::vector<Family> families(Tier t)
{
    std::vector<Family> fs;
    auto const& A = alphabet();
    auto pick = [&A](Ctx& c, unsigned m, unsigned len) { std::vector<Item const*> q; for (auto i : sequence(c, m, len, 1)) q.push_back(&A[i]); return q; };
    static auto item = [](Pic p) { fm::Feat f = fm::features(p); return Item{std::move(p), std::move(f)}; };
    auto desc = [](unsigned m, unsigned len) { return "every sequence of 1 to " + std::to_string(len) + " pictures out of " + std::to_string(m) + " (1x1 to 300 wide, zero to 330 background components)"; };
#if PROP == 12
    unsigned const L = t.thorough ? 6 : 4, M = t.thorough ? 8 : 7;
    fs.push_back({"database-history", desc(M, L), [=](Ctx& c){ history(c, pick(c, M, L)); }});
    fs.push_back({"database-history-wide", desc(unsigned(A.size()), t.thorough ? 3 : 2), [=, &A](Ctx& c){ history(c, pick(c, unsigned(A.size()), t.thorough ? 3 : 2)); }});
    unsigned const sa = t.thorough ? 7 : 5; smalls(sa);
    fs.push_back({"database-small-pairs", "every ordered pair of images with at most " + std::to_string(sa) + " pixels", [=](Ctx& c){ auto const& S = smalls(sa); history(c, {&c.pick(S), &c.pick(S)}); }});
    fs.push_back({"recogniser-contexts", desc(M, L) + " through one feature context and one picture buffer, four evaluation orders", [=](Ctx& c){ unsigned o = c.choose(4); shared_context(c, pick(c, M, L), o); }});
    fs.push_back({"recogniser-contexts-wide", desc(unsigned(A.size()), t.thorough ? 3 : 2) + " through one feature context and one picture buffer, four evaluation orders", [=, &A](Ctx& c){ unsigned o = c.choose(4); shared_context(c, pick(c, unsigned(A.size()), t.thorough ? 3 : 2), o); }});
    fs.push_back({"recogniser-contexts-small", "every ordered pair of images with at most " + std::to_string(sa) + " pixels through one context", [=](Ctx& c){ auto const& S = smalls(sa); shared_context(c, {&c.pick(S), &c.pick(S)}, 0); }});
    static auto const N = scale(t.thorough ? 600 : 300, t.thorough ? 40 : 12);
    fs.push_back({"size-pairs", "a picture n1 wide or high followed by one n2 wide or high (every pair of the scale up to " + std::to_string(N.back()) + ", other side 5, 3 x 3 motifs with many, some and no background components) through one database and one context", [](Ctx& c){
        static unsigned const m1[] = {5, 20, 0}, m2[] = {5, 20, 1}; unsigned const n1 = c.pick(N), n2 = c.pick(N), a = m1[c.choose(3)], b = m2[c.choose(3)]; bool const tall = c.choose(2);
        Item const x = item(motif(a, tall ? 5 : n1, tall ? n1 : 5)), y = item(motif(b, tall ? 5 : n2, tall ? n2 : 5)); history(c, {&x, &y}); shared_context(c, {&x, &y}, 0); }});
    static auto const K = scale(t.thorough ? 70000 : 20000, 70);
    fs.push_back({"components", "a picture with n background components (n up to 70 and next to powers of two and ten up to " + std::to_string(K.back()) + ") before and after a picture with none, one or 28", [](Ctx& c){
        unsigned const n = c.pick(K), o = c.choose(3); Pic p(2 * n + 1, 1); for (unsigned i = 0; i <= n; ++i) p.set(2 * i, 0);
        Item const x = item(p), y = item(o == 0 ? motif(0, 4, 4) : o == 1 ? motif(1, 3, 3) : motif(5, 8, 7)); if (c.choose(2)) { history(c, {&x, &y}); shared_context(c, {&x, &y, &x}, 1); } else { history(c, {&y, &x}); shared_context(c, {&y, &x, &y}, 0); } }});
    static auto const C = scale(t.thorough ? 10000 : 1025, 12);
    fs.push_back({"many-pictures", "n pictures one after the other, n on the scale up to " + std::to_string(C.back()) + ": one database, one context", [&A](Ctx& c){
        unsigned const n = c.pick(C), o = c.choose(3); std::vector<Item const*> q; for (unsigned i = 0; i < n; ++i) q.push_back(&A[(o + i * 7) % A.size()]);
        c.note([&]{ return std::to_string(n) + " pictures"; }); c.state(mix(n, o)); shared_context(c, q, o == 2 ? 1 : 0); ppocr::PpOcrDatas d; for (auto i : q) d.load(to_image(i->pic)); c.check(fm::sizes_equal(d) == n, "the features of the database have different numbers of entries"); for (std::size_t i = 0; i < n; ++i) check_entry(c, d, i, q[i]->feat, q[i]->pic, "after many pictures were added"); }});
#else
    static auto const C = scale(t.thorough ? 10000 : 2049, 12), K = scale(t.thorough ? 70000 : 20000, 70);
    fs.push_back({"entries-scale", "databases of n pictures, n on the scale up to " + std::to_string(C.back()), [&A](Ctx& c){
        unsigned const n = c.pick(C); std::vector<Item const*> q; for (unsigned i = 0; i < n; ++i) q.push_back(&A[(i * 7 + n) % 20]); reload(c, q); }});
    fs.push_back({"components", "a picture with n background components alone, before and after another (n up to 70 and next to powers of two and ten up to " + std::to_string(K.back()) + ")", [&A](Ctx& c){
        unsigned const n = c.pick(K), o = c.choose(3); Pic p(2 * n + 1, 1); for (unsigned i = 0; i <= n; ++i) p.set(2 * i, 0); Item const x = item(p); std::vector<Item const*> q = {&x}; if (o == 1) q.push_back(&A[1]); if (o == 2) q.insert(q.begin(), &A[2]); reload(c, q); }});
    fs.push_back({"size-scale", "one picture n wide or high, n on the scale up to " + std::to_string(C.back()) + ", other side 1, 3, 20, 6 motifs", [](Ctx& c){
        static unsigned const k[] = {1, 3, 20}, ms[] = {0, 1, 5, 10, 16, 20}; unsigned const n = c.pick(C), o = k[c.choose(3)]; bool const tall = c.choose(2); Item const x = item(motif(ms[c.choose(6)], tall ? o : n, tall ? n : o)); reload(c, {&x}); }});
    unsigned const L = t.thorough ? 5 : 3, M = t.thorough ? 10 : 12;
    fs.push_back({"empty", "the database of no picture", [](Ctx& c){ reload(c, {}); }, 0, 1});
    fs.push_back({"sequences", desc(M, L), [=](Ctx& c){ reload(c, pick(c, M, L)); }});
    fs.push_back({"sequences-wide", desc(unsigned(A.size()), t.thorough ? 3 : 2), [=, &A](Ctx& c){ reload(c, pick(c, unsigned(A.size()), t.thorough ? 3 : 2)); }});
    unsigned const sa = t.thorough ? 12 : 9;
    fs.push_back({"every-small-image", "every image with at most " + std::to_string(sa) + " pixels alone", [=](Ctx& c){ Item it; it.pic = choose_pic(c, sizes_upto(sa, sa, sa)); reload(c, {&it}); }});
    fs.push_back({"long", "databases of 1..400 entries (numbers of one to three digits in the header), three starting pictures", [&A](Ctx& c){ static unsigned const ns[] = {9, 10, 11, 99, 100, 101, 255, 256, 257, 400}; unsigned n = ns[c.choose(10)], o = c.choose(3);
        std::vector<Item const*> q; for (unsigned i = 0; i < n; ++i) q.push_back(&A[(o + i * 7) % 20]); reload(c, q); }});
#endif
    return fs;
}
MC_MAIN(families)
