// C22: candidate search; C23: grouping of glyphs; C24: independence of earlier characters; C31: line extraction end to end.
#include "knowledge.hpp"
#include "box_model.hpp"
#include "ppocr/ocr2/compute_image.hpp"
#include "ppocr/ocr2/views_index_ordered.hpp"
#include "ppocr/ocr2/image_context.hpp"
#include "ppocr/ocr2/filter_by_lines.hpp"
#include "ppocr/ocr2/filter_by_font.hpp"
#include "ppocr/ocr2/disambiguous_with_dict.hpp"
#include "ppocr/ocr2/words_infos.hpp"
#include "ppocr/ocr2/ambiguous.hpp"
#include "ppocr/spell/dictionary.hpp"
#include <map>
#include <set>
#include <tuple>
#include <deque>
#include <cmath>
using namespace mc;
namespace o2 = ppocr::ocr2;
namespace st = ppocr::strategies;

int main_ocr2_extract_text(int, char**);

static std::string word_of(o2::Glyphs const& g, o2::View const& v) { auto& w = g.get_word(v); return std::string(w.begin(), w.end()); }

using First = ppocr::loader2::Strategy<st::dvgravity2, ppocr::loader2::PolicyLoader::img90>;
// the recogniser's immutable knowledge
struct Base
{
    std::vector<Row> rows; std::vector<GV> views; PpOcrDatas datas; o2::Glyphs glyphs;
    std::unique_ptr<o2::DataIndexesByWords> by_words; decltype(o2::get_views_indexes_ordered(std::declval<o2::Glyphs const&>())) id_views; std::unique_ptr<o2::DataIndexesOrdered<First>> ordered;
    std::map<o2::View const*, unsigned> index; std::vector<unsigned> group; std::vector<std::vector<unsigned>> rivals;        // reference groupings
    Base(std::vector<Row> r, std::vector<GV> v) : rows(std::move(r)), views(std::move(v))
    {
        std::istringstream id(datas_text(rows)), ig(glyphs_text(views)); id >> datas; ig >> glyphs;
        if (datas.size() != rows.size() || glyphs.size() != views.size()) { fprintf(stderr, "harness: database misread\n"); _exit(3); }
        by_words.reset(new o2::DataIndexesByWords(glyphs)); id_views = o2::get_views_indexes_ordered(glyphs); ordered.reset(new o2::DataIndexesOrdered<First>(datas));
        std::map<Words, unsigned> g; std::map<std::string, std::vector<unsigned>> f;
        for (unsigned i = 0; i < views.size(); ++i) { Words w; for (auto& x : views[i]) w.push_back(x.word); group.push_back(g.emplace(w, i).first->second); f[w[0]].push_back(i); }
        rivals.resize(views.size()); for (unsigned i = 0; i < glyphs.size(); ++i) if (!glyphs[i].empty()) index[&glyphs[i][0]] = i;
        if (views.size() <= 1000) for (auto& p : f) for (auto i : p.second) for (auto j : p.second) if (i != j) rivals[i].push_back(j);
    }
};
struct State           // what the recogniser reuses from one character to the next
{
    o2::Probabilities a, b; ppocr::PpOcrDataCtxs ctx; o2::ImageContext ic;
    explicit State(std::size_t n) : a(unsigned(n)), b(unsigned(n)) {}
};
static o2::view_ref_list recognise(Base const& db, State& s, Pic const& p)
{
    auto const& img = s.ic.img(ppocr::Bounds(p.w, p.h), [&](ppocr::Pixel* o) { memcpy(o, p.p.data(), p.p.size()); });
    return o2::compute_image(ppocr::PpOcrSimpleDatas{}, ppocr::PpOcrComplexDatas{}, ppocr::PpOcrExclusiveDatas{}, s.a, s.b, db.datas, *db.ordered, *db.by_words, db.glyphs, db.id_views, img, s.ic.img90(), s.ctx, 0.5);
}
static std::string show(Base const& db, o2::view_ref_list const& l) { std::string r = "["; for (o2::View const& v : l) r += " " + word_of(db.glyphs, v) + "/" + std::to_string(v.font); return r + " ]"; }

// ---- exhaustive comparison with every entry
struct Want { std::vector<std::pair<double, unsigned>> groups; std::vector<double> best; double limit; std::vector<double> p; std::vector<bool> in; };
template<class... S> double simple_product(Row const& r, Row const& v, mp_list<S...>)
{
    double p = 1.; bool first = true; unsigned k = 0;
    auto one = [&](double d) { p = first ? d : p * d; first = false; };
    (..., (one(S::relationship_type::dist(r.s[k], v.s[k])), ++k)); return p;
}
static Want brute(Base const& db, Row const& v)
{
    Want w; std::size_t const n = db.rows.size(); w.p.assign(n, 0); w.in.assign(n, true); w.limit = 0;
    auto const& cnt = simple_counts(); double top = 0; bool any = false;
    for (std::size_t i = 0; i < n; ++i) {
        Row const& r = db.rows[i];
        for (unsigned k = 0; k < NS; ++k) { unsigned const d = r.s[k] < v.s[k] ? v.s[k] - r.s[k] : r.s[k] - v.s[k]; if (d > (cnt[k] - 1) / 10) w.in[i] = false; }
        if (!w.in[i]) continue;
        w.p[i] = simple_product(r, v, ppocr::PpOcrSimpleDatas{}); any = true; top = std::max(top, w.p[i]);
    }
    if (!any) { w.in.assign(n, false); return w; }
    bool const exact = top >= 1.;
    if (exact) w.limit = 1.;
    else {
        using AltR = st::alternations::relationship_type; using ZR = st::zone::relationship_type; using PR = st::proportionality_zone::relationship_type;
        std::vector<bool> in = w.in;
        for (std::size_t i = 0; i < n; ++i) if (w.in[i]) {
            Row const& r = db.rows[i];
            double const d[3] = {std::get<0>(r.c) == std::get<0>(v.c) ? 1. : 0., std::get<1>(r.c) == std::get<1>(v.c) ? 1. : 0., AltR::dist(std::get<2>(v.c), std::get<2>(r.c))};
            for (double x : d) { if (x < 0.5) in[i] = false; w.p[i] *= x; }
            if (!db.rivals[i].empty()) {
                bool ok = false;
                for (auto j : db.rivals[i]) { Row const& o = db.rows[j]; ok = ok || (ZR::in_dist(std::get<0>(o.e), std::get<0>(v.e), 50) && PR::in_dist(std::get<1>(o.e), std::get<1>(v.e), 50)); }
                if (!ok) in[i] = false;
            }
        }
        w.in = in; top = 0; for (std::size_t i = 0; i < n; ++i) if (in[i]) top = std::max(top, w.p[i]);
        w.limit = top * 0.5;
    }
    return w;
}
static void search(Ctx& c, Base const& db, Pic const& pic, Row const& v, State& s, std::string const& what)
{
    constexpr double E = 1e-9;
    Want const w = brute(db, v);
    auto const got = recognise(db, s, pic); c.transition();
    std::map<unsigned, double> best; for (unsigned i = 0; i < db.rows.size(); ++i) if (w.in[i]) { double& b = best[db.group[i]]; b = std::max(b, w.p[i]); }
    auto ctx = [&]{ std::string t = what + "; the search gives " + show(db, got) + "; comparing with every entry gives"; for (unsigned i = 0; i < db.rows.size(); ++i) if (w.in[i] && w.p[i] >= w.limit) { char b[32]; snprintf(b, sizeof b, "%.6f", w.p[i]); t += " #" + std::to_string(i) + ":"; for (auto& x : db.views[i]) t += x.word + "/" + x.font + " "; t += b; } return t; };
    // the list is a sequence of whole view lists of entries, one entry of each selected group, best first
    std::set<unsigned> seen; double last = 2; std::size_t k = 0; uint64_t o = 3;
    while (k < got.size()) {
        o2::View const* v0 = &got[k].get(); unsigned e = ~0u;
        auto it = db.index.find(v0); if (it != db.index.end()) e = it->second;
        c.check(e != ~0u, [&]{ return "candidates do not start with the first view of an entry: " + ctx(); });
        for (std::size_t j = 0; j < db.glyphs[e].size(); ++j) c.check(k + j < got.size() && &got[k + j].get() == &db.glyphs[e][j], [&]{ return "the views of an entry are not given whole and in order: " + ctx(); });
        k += db.glyphs[e].size();
        c.check(w.in[e], [&]{ return "entry " + std::to_string(e) + " is contradicted by a rule: " + ctx(); });
        c.check(seen.insert(db.group[e]).second, [&]{ return "a candidate is given twice: " + ctx(); });
        c.check(w.p[e] >= best[db.group[e]] - E, [&]{ return "entry " + std::to_string(e) + " is not the best of its words: " + ctx(); });
        c.check(w.p[e] >= w.limit - E, [&]{ return "entry " + std::to_string(e) + " is below the limit: " + ctx(); });
        c.check(w.p[e] <= last + E, [&]{ return "the candidates are not sorted: " + ctx(); });
        last = w.p[e]; o = mix(o, e);
    }
    for (auto& b : best) if (b.second > w.limit + E || (b.second == w.limit && b.second > 0)) c.check(seen.count(b.first) != 0, [&]{ return "candidate #" + std::to_string(b.first) + " is missing: " + ctx(); });
    c.outcome(o);
}
static void search_fresh(Ctx& c, Base const& db, Pic const& pic, Row const& v, std::string const& what) { State s(db.rows.size()); search(c, db, pic, v, s, what); }

static std::vector<Letter> const& alphabet()
{
    static std::vector<Letter> v;
    if (v.empty()) {
        auto add = [&](Pic p) { v.push_back({p, row_of(p)}); };
        add(motif(2, 7, 9)); add(motif(15, 7, 9)); add(motif(15, 7, 10)); add(motif(2, 8, 9)); add(motif(3, 7, 9)); add(motif(9, 9, 9));
        add(motif(2, 7, 10)); add(motif(13, 9, 9)); add(Pic(1, 1, "x")); add(motif(0, 7, 9)); add(motif(4, 9, 9)); add(motif(16, 9, 9));
        { Pic p = motif(2, 7, 9); p.at(6, 4) = '-'; add(p); } { Pic p = motif(15, 7, 9); p.at(6, 0) = '-'; add(p); } add(motif(0, 8, 9)); { Pic p = motif(2, 7, 9); p.set(3, 4); add(p); }
        add(motif(20, 9, 11)); add(motif(21, 9, 11)); add(motif(17, 9, 11)); add(motif(17, 9, 12));
    }
    return v;
}
static std::string feats(Row const& r) { std::string s; for (auto x : r.s) s += std::to_string(x) + " "; return s; }
static uint64_t rhash(Row const& r) { std::vector<Row> v = {r}; return hash(datas_text(v)); }

#if PROP == 22
static GV one(std::string const& w, std::string const& f = "f") { return {{w, f}}; }
static std::vector<Family> families(Tier t)
{
    std::vector<Family> fs; auto const& A = alphabet();
    static int const D[] = {-21, -20, -19, -11, -10, -9, -2, -1, 0, 1, 2, 9, 10, 11, 19, 20, 21};
    static std::vector<unsigned> const I = {0, 1, 5, 7, 16, 18};     // pictures in the middle of the ranges
    fs.push_back({"one-rule", "6 pictures x a database of the picture itself with one of the " + std::to_string(NS) + " scalar features moved by 17 distances around the limits, next to an entry with another move of 6, same words / same first word / other words", [&A](Ctx& c){
        auto& a = A[I[c.choose(6)]]; unsigned const k = c.choose(NS); int const d = D[c.choose(17)]; unsigned const other = c.choose(6), words = c.choose(3), first = c.choose(2);
        Row r = a.row, q = a.row; if (!move(r, k, d)) return; static int const m[][2] = {{0, 0}, {1, 3}, {NS - 1, -3}, {4, 9}, {2, -12}, {10, 20}}; if (!move(q, unsigned(m[other][0]), m[other][1])) return;
        std::vector<Row> rows = {r, q}; std::vector<GV> v = {one("a", "f"), words == 0 ? one("a", "g") : words == 1 ? GV{{"a", "f"}, {"b", "f"}} : one("b")}; if (first) { std::swap(rows[0], rows[1]); std::swap(v[0], v[1]); }
        c.note([&]{ return "picture " + a.pic.str() + " feature " + std::to_string(k) + " moved by " + std::to_string(d); }); c.state(mix(mix(rhash(rows[0]), rhash(rows[1])), words * 2 + first));
        search_fresh(c, Base(rows, v), a.pic, a.row, "two entries"); }});
    fs.push_back({"every-value", "20 pictures x each of the " + std::to_string(NS) + " scalar features x an entry like the picture but for that feature, which takes each of its values, alone or before a rival with the first word of another", [&A](Ctx& c){
        auto& a = A[c.choose(20)]; unsigned const k = c.choose(NS), x = c.choose(simple_counts()[k]), two = c.choose(2); Row r = a.row; r.s[k] = x; std::vector<Row> rows = {r}; std::vector<GV> v = {one("a")}; if (two) { Row q = a.row; if (!move(q, 3, q.s[3] > 50 ? -4 : 4)) return; rows.push_back(q); v.push_back({{"b", "f"}, {"a", "f"}}); }
        c.note([&]{ return "picture " + a.pic.str() + " feature " + std::to_string(k) + " is " + std::to_string(a.row.s[k]) + ", the entry's " + std::to_string(x); }); c.state(mix(mix(rhash(r), a.pic.hash()), two)); search_fresh(c, Base(rows, v), a.pic, a.row, "an entry with every value"); }});
    fs.push_back({"two-rules", "6 pictures x one entry with two scalar features moved by 5 distances each (every pair of features) and a rival at a fixed similarity", [&A](Ctx& c){
        static int const E[] = {-10, -5, 4, 10, 11}; auto& a = A[I[c.choose(6)]]; unsigned const k = c.choose(NS), l = c.choose(NS); int const d = E[c.choose(5)], e = E[c.choose(5)]; Row r = a.row, q = a.row; if (!move(r, k, d) || !move(r, l, e)) return; for (unsigned x = 0; x < 5; ++x) if (!move(q, 6 + x, a.row.s[6 + x] > 50 ? -8 : 8)) return;
        c.note([&]{ return "picture " + a.pic.str() + " entry " + feats(r); }); c.state(rhash(r)); search_fresh(c, Base({r, q}, {one("a"), one("b")}), a.pic, a.row, "two entries"); }});
    unsigned const N = t.thorough ? 6 : 5;
    fs.push_back({"order", "every sequence of 1.." + std::to_string(N) + " entries whose first feature is at one of 6 distances (-11 -10 -1 0 10 11) from the picture's, different words", [&A, N](Ctx& c){
        static int const E[] = {-11, -10, -1, 0, 10, 11}; unsigned const n = 1 + c.choose(N); auto& a = A[c.choose(2) ? 5 : 0]; std::vector<Row> rows; std::vector<GV> v; for (unsigned i = 0; i < n; ++i) { Row r = a.row; if (!move(r, 0, E[c.choose(6)])) return; move(r, NS - 1, -int(i)); rows.push_back(r); v.push_back(one(std::string(1, char('a' + i)))); }
        uint64_t h = 1; for (auto& r : rows) h = mix(h, rhash(r)); c.state(h); c.note([&]{ std::string s = "first features"; for (auto& r : rows) s += " " + std::to_string(r.s[0]); return s + ", searched " + std::to_string(a.row.s[0]); }); search_fresh(c, Base(rows, v), a.pic, a.row, "entries ordered by their first feature"); }});
    unsigned const P = t.thorough ? 5 : 4;
    fs.push_back({"groups", "every sequence of 2.." + std::to_string(P) + " entries with one of 5 similarities (exact, 0.99, 0.9, just above and below half of it) and one of 6 view lists (one view, other font, several words, same first word)", [&A, P](Ctx& c){
        unsigned const n = 2 + c.choose(P - 1); auto& a = A[0]; static std::vector<GV> const L = {{{"a", "f"}}, {{"a", "g"}}, {{"b", "f"}}, {{"a", "f"}, {"b", "f"}}, {{"a", "g"}, {"b", "f"}}, {{"b", "g"}, {"a", "f"}}};
        auto level = [&](Row& r, unsigned k) { auto down = [&](unsigned f, int d) { if (!move(r, f, r.s[f] > 50 ? -d : d)) abort(); }; switch (k) { case 0: break; case 1: down(0, 1); break; case 2: down(1, 10); break; case 3: for (unsigned f : {1u, 4u, 5u, 2u, 3u, 0u}) down(f, 10); break; case 4: for (unsigned f : {1u, 4u, 5u, 2u, 3u, 0u, 8u, 9u}) down(f, 10); break; } };
        std::vector<Row> rows; std::vector<GV> v; uint64_t h = n; for (unsigned i = 0; i < n; ++i) { unsigned k = c.choose(30); Row r = a.row; level(r, k % 5); rows.push_back(r); v.push_back(L[k / 5]); h = mix(h, k); }
        c.state(h); c.note([&]{ std::string s; for (unsigned i = 0; i < n; ++i) { s += " #" + std::to_string(i); for (auto& x : v[i]) s += " " + x.word + "/" + x.font; } return s; }); search_fresh(c, Base(rows, v), a.pic, a.row, "entries of equal words"); }});
    fs.push_back({"exclusion", "three entries (words equal, first word equal or different: 8 patterns) whose enclosed-zone features equal the picture's in 0, 3, 4 or 7 places and whose zone proportions are one of 4, and whose bars and alternations agree or not", [&A](Ctx& c){
        auto& a = A[5]; static std::vector<std::vector<GV>> const W = {{one("a"), one("b"), one("c")}, {one("a"), one("a"), one("b")}, {one("a"), one("a", "g"), one("a")}, {one("a"), {{"a", "f"}, {"b", "f"}}, one("c")}, {one("b"), {{"a", "f"}, {"b", "f"}}, one("b")}, {{{"a", "f"}, {"c", "f"}}, {{"a", "f"}, {"b", "f"}}, one("a")}, {one("b"), one("a"), one("a")}, {one("a"), one("b"), one("a")}};
        unsigned const w = c.choose(8), bars = c.choose(6), simple = c.choose(2); std::vector<Row> rows; uint64_t h = mix(w, bars * 2 + simple);
        for (unsigned i = 0; i < 3; ++i) { unsigned const z = c.choose(4), p = c.choose(4); Row r = a.row; if (simple || i) move(r, NS - 1, r.s[NS - 1] > 50 ? -1 - int(i) : 1 + int(i)); auto& zn = std::get<0>(r.e); static unsigned const same[] = {7, 4, 3, 0}; for (unsigned k = same[z]; k < 7; ++k) zn[k] += 5; auto& pz = std::get<1>(r.e); if (p == 1) pz.push_back(3); else if (p == 2) for (auto& x : pz) x = x * 3 + 1; else if (p == 3) pz.assign(pz.size(), 1);
            if (i == 0) { if (bars == 1) std::get<0>(r.c) += 1; if (bars == 2) std::get<1>(r.c) += 1; auto& al = std::get<2>(r.c); for (unsigned k = 0; k < (bars == 3 ? 3u : bars == 4 ? 4u : bars == 5 ? 7u : 0u); ++k) al[k].count += 1; } rows.push_back(r); h = mix(h, z * 4 + p); }
        c.state(h); c.note([&]{ return "words pattern " + std::to_string(w) + ", bars " + std::to_string(bars) + "\n" + datas_text(rows); }); search_fresh(c, Base(rows, W[w]), a.pic, a.row, "exclusion rules"); }});
    unsigned const M = t.thorough ? 16 : 12;
    fs.push_back({"picture-databases", "every database of 1..3 pictures out of " + std::to_string(M) + " (repetitions included) with 5 word patterns, searched for every one of 20 pictures through one recogniser", [&A, M](Ctx& c){
        unsigned const n = 1 + c.choose(3), w = c.choose(5); static Words const W[] = {{"a", "b", "c"}, {"a", "a", "b"}, {"a", "b", "a"}, {"a", "a", "a"}, {"b", "a", "a"}}; std::vector<Row> rows; std::vector<GV> v; uint64_t h = w; for (unsigned i = 0; i < n; ++i) { unsigned k = c.choose(M); rows.push_back(A[k].row); v.push_back(one(W[w][i], i % 2 ? "g" : "f")); if (w == 3 && i == 2) v.back().push_back({"d", "f"}); h = mix(h, k); }
        c.state(h); Base const db(rows, v); State s(n); for (auto& a : A) search(c, db, a.pic, a.row, s, "picture " + a.pic.str()); }});
    unsigned const sa = t.thorough ? 7 : 6, sb = t.thorough ? 12 : 10;
    fs.push_back({"small-pictures", "the database of every image of at most " + std::to_string(sa) + " pixels (3 word patterns, 2 orders), searched for every image of at most " + std::to_string(sb) + " pixels", [sa, sb](Ctx& c){
        static std::map<unsigned, std::unique_ptr<Base>> dbs; unsigned const w = c.choose(3), rev = c.choose(2); Pic const p = choose_pic(c, sizes_upto(sb, sb, sb)); auto& db = dbs[w * 2 + rev];
        if (!db) { std::vector<Row> rows; std::vector<GV> v; for (Size z : sizes_upto(sa, sa, sa)) for (unsigned m = 0; m < (1u << (z.w * z.h)); ++m) { Pic q(z.w, z.h); for (unsigned i = 0; i < z.w * z.h; ++i) if (m >> i & 1) q.p[i] = 'x'; rows.push_back(row_of(q)); unsigned k = w == 0 ? unsigned(rows.size()) : w == 1 ? unsigned(rows.size()) % 7 : z.w; v.push_back({{"w" + std::to_string(k), m % 3 ? "f" : "g"}}); if (w == 2 && m % 4 == 0) v.back().push_back({"x", "f"}); } if (rev) { std::reverse(rows.begin(), rows.end()); std::reverse(v.begin(), v.end()); } db.reset(new Base(rows, v)); }
        c.state(mix(p.hash(), w * 2 + rev)); c.note([&]{ return "picture " + p.str(); }); Row const r = row_of(p); search_fresh(c, *db, p, r, "picture " + p.str()); }});
    static std::vector<unsigned> const big = t.thorough ? std::vector<unsigned>{100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 5000, 9000} : std::vector<unsigned>{100, 127, 128, 129, 255, 256, 257, 512, 1000, 1025, 4097, 5000};
    fs.push_back({"size-scale", "databases of every size 1..70 and of " + std::to_string(big.size()) + " sizes of 100.." + std::to_string(big.back()) + ", entries spread over the first feature in 3 orders, the best entry exact or not, first, in the middle or last, every word distinct or 7 first words", [&A](Ctx& c){
        unsigned const zi = c.choose(unsigned(70 + big.size())), ord = c.choose(3), place = c.choose(3), exact = c.choose(2), seven = c.choose(2); unsigned const n = zi < 70 ? zi + 1 : big[zi - 70]; if (seven && n > 1000) return; unsigned const at = place == 0 ? 0 : place == 1 ? n / 2 : n - 1;
        auto& a = A[5]; std::vector<Row> rows; std::vector<GV> v; for (unsigned i = 0; i < n; ++i) { Row r = a.row; unsigned const k = ord == 0 ? i : ord == 1 ? n - 1 - i : unsigned(i * 7919ull % n); if (i == at) { if (!exact) move(r, 1, r.s[1] > 50 ? -1 : 1); } else { int const d = int(k * 40ull / n) - 20; move(r, 0, d); move(r, 1 + k % 3, r.s[1 + k % 3] > 50 ? -2 - int(k % 9) : 2 + int(k % 9)); } rows.push_back(r); v.push_back(one("w" + std::to_string(seven ? i % 7 : i), i % 2 ? "g" : "f")); if (seven && i % 3 == 0) v.back().push_back({"z" + std::to_string(i % 11), "f"}); }
        c.state(mix(n, ((ord * 3 + place) * 2 + exact) * 2 + seven)); c.note([&]{ return std::to_string(n) + " entries, the best one is " + std::to_string(at) + (exact ? ", exact" : ", not exact"); }); search_fresh(c, Base(rows, v), a.pic, a.row, std::to_string(n) + " entries"); }});
    fs.push_back({"ties-scale", "databases of every size 1..70 and some larger ones whose entries are all equally similar to the picture (exactly equal or not): every different word is a candidate; words distinct, 3 words, one word", [&A](Ctx& c){
        unsigned const zi = c.choose(76), exact = c.choose(2), words = c.choose(3); static unsigned const more[] = {128, 255, 256, 257, 700, 1000}; unsigned const n = zi < 70 ? zi + 1 : more[zi - 70]; auto& a = A[0]; std::vector<Row> rows; std::vector<GV> v; for (unsigned i = 0; i < n; ++i) { Row r = a.row; if (!exact) move(r, 1, r.s[1] > 50 ? -3 : 3); rows.push_back(r); v.push_back(one("w" + std::to_string(words == 0 ? i : words == 1 ? i % 3 : 0), i % 2 ? "g" : "f")); }
        c.state(mix(n, exact * 3 + words)); c.note([&]{ return std::to_string(n) + " equal entries"; }); search_fresh(c, Base(rows, v), a.pic, a.row, std::to_string(n) + " equal entries"); }});
    fs.push_back({"graded-scale", "databases of every size 1..70 and some larger ones whose entries differ from the picture in 0..12 features each (around half of the best one, which is 0, 1 or 3 features better than the next), 3 orders, words distinct, in pairs or of 7 first words", [&A](Ctx& c){
        unsigned const zi = c.choose(76), gap = c.choose(3), ord = c.choose(3), words = c.choose(3), best = c.choose(3); static unsigned const more[] = {128, 255, 256, 257, 700, 1000}, gaps[] = {0, 1, 3}; unsigned const n = zi < 70 ? zi + 1 : more[zi - 70]; auto& a = A[0]; std::vector<Row> rows; std::vector<GV> v;
        auto level = [&](Row& r, unsigned k, unsigned from) { for (unsigned i = 0; k && i < NS; ++i) { unsigned const f = (from + i) % NS; if (move(r, f, r.s[f] > 50 ? -10 : 10)) --k; } };
        for (unsigned i = 0; i < n; ++i) { unsigned const k = ord == 0 ? i : ord == 1 ? n - 1 - i : unsigned((i * 7919ull + 3) % n); Row r = a.row; level(r, k == 0 ? best : best + gaps[gap] + k % 9, k * 5); if (k % 4 == 3) move(r, NS - 1, r.s[NS - 1] > 50 ? -int(k % 7) : int(k % 7)); rows.push_back(r); v.push_back(one("w" + std::to_string(words == 0 ? i : words == 1 ? i / 2 : i % 7), i % 2 ? "g" : "f")); if (words == 2 && i % 3 == 0) v.back().push_back({"z" + std::to_string(i % 11), "f"}); }
        c.state(mix(mix(n, ord * 3 + gap), words * 3 + best)); c.note([&]{ return std::to_string(n) + " graded entries"; }); search_fresh(c, Base(rows, v), a.pic, a.row, std::to_string(n) + " graded entries"); }});
    unsigned const step = t.thorough ? 1 : 11, flips = t.thorough ? 4 : 2;
    fs.push_back({"shipped", "the first 1000 shipped latin glyphs as database, searched for every " + (step == 1 ? std::string("") : std::to_string(step) + "th ") + "shipped glyph (all 5465) unchanged and with " + std::to_string(flips - 1) + " single pixels flipped", [step, flips](Ctx& c){
        static std::unique_ptr<Base> db; auto const& g = corpus(0); unsigned const blocks = 64; unsigned const b = c.choose(blocks), rest = c.choose(unsigned(g.size()) / blocks / step + 1), f = c.choose(flips); unsigned const i = (b + rest * blocks) * step; if (i >= g.size()) return;
        if (!db) { std::vector<Row> rows; std::vector<GV> v; for (unsigned k = 0; k < 1000; ++k) { rows.push_back(row_of(g[k].pic)); v.emplace_back(); for (auto& x : g[k].views) v.back().push_back({x.word, x.font}); } db.reset(new Base(rows, v)); }
        Pic p = g[i].pic; if (f) { std::size_t k = p.p.size() * f / (flips + 1); p.p[k] = p.p[k] == 'x' ? '-' : 'x'; } c.state(p.hash()); c.note([&]{ return "picture " + p.str(); }); search_fresh(c, *db, p, row_of(p), "picture " + p.str()); }});
    return fs;
}
#elif PROP == 23
static void grouping(Ctx& c, std::vector<GV> const& gs)
{
    c.note([&]{ std::string s = "glyphs"; for (auto& g : gs) { s += " ["; for (auto& v : g) s += " " + v.word + "/" + v.font; s += " ]"; } return s; });
    uint64_t h = 1; for (auto& g : gs) { h = mix(h, g.size()); for (auto& v : g) h = mix(mix(h, hash(v.word)), hash(v.font)); } c.state(h);
    o2::Glyphs g; std::istringstream is(glyphs_text(gs)); is >> g; c.check(g.size() == gs.size(), "glyph file misread");
    auto const id = o2::get_views_indexes_ordered(g); c.transition();
    c.check(id.size() == gs.size(), [&]{ return std::to_string(id.size()) + " identities for " + std::to_string(gs.size()) + " glyphs"; });
    std::vector<Words> w; for (auto& x : gs) { w.emplace_back(); for (auto& v : x) w.back().push_back(v.word); }
    auto report = [&](std::size_t i, std::size_t j, char const* t) { std::string s = std::string("glyphs ") + std::to_string(i) + " and " + std::to_string(j) + " (words"; for (auto& x : w[i]) s += " " + x; s += " /"; for (auto& x : w[j]) s += " " + x; return s + ") " + t; };
    // identities are a bijection with the word lists
    std::map<Words, unsigned> by; std::map<unsigned, std::size_t> rev; uint64_t o = 5;
    for (std::size_t i = 0; i < gs.size(); ++i) {
        auto a = by.emplace(w[i], id[i]); c.check(a.first->second == id[i], [&]{ std::size_t j = 0; while (w[j] != w[i]) ++j; return report(j, i, "are not treated as the same candidate"); });
        auto b = rev.emplace(id[i], i); c.check(w[b.first->second] == w[i], [&]{ return report(b.first->second, i, "are treated as the same candidate"); });
        o = mix(o, by.size());
    }
    {
        o2::DataIndexesByWords const r(g); c.transition();
        std::map<std::string, std::vector<unsigned>> f; for (unsigned i = 0; i < gs.size(); ++i) if (!w[i].empty()) f[w[i][0]].push_back(i);
        for (unsigned i = 0; i < gs.size(); ++i) {
            std::vector<unsigned> got; for (unsigned const x : r[i]) got.push_back(x); std::sort(got.begin(), got.end()); std::vector<unsigned> want; if (!w[i].empty()) for (auto j : f[w[i][0]]) if (j != i) want.push_back(j);
            c.check(got == want, [&]{ std::string s = "the rivals of glyph " + std::to_string(i) + " are"; for (auto x : got) s += " " + std::to_string(x); s += " instead of"; for (auto x : want) s += " " + std::to_string(x); return s; });
            o = mix(o, got.size());
        }
    }
    c.outcome(o);
}
static std::vector<Family> families(Tier t)
{
    std::vector<Family> fs;
    static Words const W = {"a", "b", "\xc3\xa9"};
    static std::vector<GV> const L = [] { std::vector<GV> l; for (auto& a : W) l.push_back({{a, "f"}}); for (auto& a : W) for (auto& b : W) l.push_back({{a, "f"}, {b, "f"}}); l.push_back({{"a", "f"}, {"b", "f"}, {"a", "f"}}); l.push_back({{"a", "f"}, {"b", "f"}, {"b", "f"}}); l.push_back({{"ab", "f"}}); return l; }();
    unsigned const N = t.thorough ? 6 : 5;
    fs.push_back({"every-list", "every sequence of 0.." + std::to_string(N) + " glyphs out of 15 word lists of one to three words (fonts vary with the place), hence every order of every database", [N](Ctx& c){ unsigned n = c.choose(N + 1); std::vector<GV> g; for (unsigned i = 0; i < n; ++i) { GV v = L[c.choose(15)]; for (std::size_t k = 0; k < v.size(); ++k) v[k].font = (i + k) % 3 ? "f" : "g"; g.push_back(v); } grouping(c, g); }});
    unsigned const M = t.thorough ? 10 : 8;
    fs.push_back({"fonts", "every sequence of 0.." + std::to_string(M) + " glyphs out of 4 (the same word in two fonts, another word, two words)", [M](Ctx& c){ unsigned n = c.choose(M + 1); std::vector<GV> g; static std::vector<GV> const K = {{{"a", "f"}}, {{"a", "g"}}, {{"b", "f"}}, {{"a", "g"}, {"b", "f"}}}; for (unsigned i = 0; i < n; ++i) g.push_back(K[c.choose(4)]); grouping(c, g); }});
    fs.push_back({"no-views", "every sequence of 1..5 glyphs out of 5, one of them without views", [](Ctx& c){ unsigned n = 1 + c.choose(5); std::vector<GV> g; static std::vector<GV> const K = {{{"a", "f"}}, {}, {{"b", "f"}}, {{"a", "g"}, {"b", "f"}}, {{"b", "g"}, {"a", "f"}}}; for (unsigned i = 0; i < n; ++i) g.push_back(K[c.choose(5)]); grouping(c, g); }});
    fs.push_back({"long", "databases of 15..200 glyphs in 12 generated orders over 2..40 words", [](Ctx& c){ static unsigned const ns[] = {15, 16, 17, 18, 31, 33, 64, 129, 200}; unsigned const n = ns[c.choose(9)], o = c.choose(12), k = 2 + c.choose(6) * 7; static unsigned const mul[] = {1, 3, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41}; std::vector<GV> g; for (unsigned i = 0; i < n; ++i) { unsigned x = (i * mul[o] + o) % k; GV v = {{"w" + std::to_string(x), "f"}}; if (x % 3 == 1) v.push_back({"w" + std::to_string(i % 4), "g"}); g.push_back(v); } grouping(c, g); }});
    fs.push_back({"size-scale", "databases of every size 1..140 and of 255 256 257 500 1000 2049 5000 glyphs in 4 orders over 3, a third as many or as many words; glyphs of one view or two", [](Ctx& c){ static unsigned const more[] = {255, 256, 257, 500, 1000, 2049, 5000}; unsigned const zi = c.choose(147), n = zi < 140 ? zi + 1 : more[zi - 140], o = c.choose(4), kk = c.choose(3), two = c.choose(2); unsigned const k = kk == 0 ? (n > 1000 ? 40 : 3) : kk == 1 ? n / 3 + 1 : n; static unsigned const mul[] = {1, 7919, 3, 104729}; std::vector<GV> g; for (unsigned i = 0; i < n; ++i) { unsigned const j = o == 2 ? n - 1 - i : i; unsigned x = unsigned(j * 1ull * mul[o] % n) % k; GV v = {{"w" + std::to_string(x), i % 2 ? "f" : "g"}}; if (two && i % 2) v.push_back({"w" + std::to_string(x % 5), "g"}); g.push_back(v); } grouping(c, g); }});
    fs.push_back({"views-scale", "two or three glyphs of 1..40, 255..257 and 1000 views that agree but in one place (first, middle, last, one view more, nowhere), next to a glyph of the first word alone", [](Ctx& c){ unsigned const zi = c.choose(44), n = zi < 40 ? zi + 1 : zi == 43 ? 1000 : 215 + zi, where = c.choose(5), swap = c.choose(2), third = c.choose(2); GV a, b; for (unsigned i = 0; i < n; ++i) a.push_back({"v" + std::to_string(i % 50), "f"}); b = a; if (where == 0) b[0].word = "other"; else if (where == 1) b[n / 2].word = "other"; else if (where == 2) b[n - 1].word = "other"; else if (where == 3) b.push_back({"v0", "f"}); std::vector<GV> g = {a, b}; if (swap) std::swap(g[0], g[1]); if (third) g.insert(g.begin() + 1, GV{{"v0", "f"}}); grouping(c, g); }});
    fs.push_back({"shipped", "the shipped latin glyphs, as shipped and reversed and interleaved", [](Ctx& c){ unsigned const o = c.choose(3); auto const& s = corpus(0); std::vector<GV> g; for (std::size_t i = 0; i < s.size(); ++i) { std::size_t k = o == 0 ? i : o == 1 ? s.size() - 1 - i : (i * 2711) % s.size(); GV v; for (auto& x : s[k].views) v.push_back({x.word, x.font}); g.push_back(v); } grouping(c, g); }, 0, 1});
    return fs;
}
#else
// ---- tool runs
struct Setup { std::vector<Row> rows; std::vector<GV> views; std::string lines; Words dict; };
// a full picture with one pixel out, at one of seven places
static Pic twin(unsigned w, unsigned h, unsigned at) { Pic p(w, h); std::fill(p.p.begin(), p.p.end(), 'x'); std::size_t const n = p.p.size(), k[] = {0, 1, w - 1u, n / 2, n - w, n - 2, n - 1}; p.p[k[at]] = '-'; return p; }
static Size const& twin_size(unsigned k) { static Size const z[] = {{5, 4}, {20, 20}, {20, 21}, {21, 20}, {23, 23}, {33, 31}, {64, 64}, {91, 91}, {100, 101}, {300, 40}, {40, 300}}; return z[k]; }
// databases: every letter known; some unknown; ambiguous ones; one of them empty
static Setup const& setup(unsigned k)
{
    static std::vector<Setup> v;
    if (v.empty()) {
        auto const& L = letters();
        Setup a; for (unsigned i = 0; i < L.size(); ++i) { a.rows.push_back(L[i].row); a.views.push_back({{std::string(1, char('a' + i)), "f"}}); } a.views[2] = {{".", "f"}}; a.views[3] = {{"\xc3\xa9", "f"}}; v.push_back(a);
        Setup b; for (unsigned i : {0u, 2u, 4u, 5u}) { b.rows.push_back(L[i].row); b.views.push_back(a.views[i]); } b.dict = {"aa", "af"}; v.push_back(b);                                  // unknown letters
        Setup d = a;                                                                                                                                                                        // ambiguous letters, lines, fonts, dictionary
        d.views[0] = {{"o", "f"}, {"O", "g"}, {"0", "f"}}; d.views[1] = {{"e", "g"}, {"E", "f"}}; d.views[2] = {{".", "f"}, {"'", "f"}}; d.views[3] = {{"x", "f"}, {"X", "g"}, {"k", "g"}}; d.views[6] = {{"O", "f"}, {"o", "g"}};
        d.lines = "o 4 4 2 2\nO 4 2 1 2\n0 4 2 1 2\n. 4 4 4 2\n' 2 2 1 1\nx 4 4 2 2\nX 4 2 1 2\nk 2 2 1 2\ne 4 4 2 2\nE 4 2 1 2\n"; d.dict = {"oe", "x.", "Xe", "Ok", "eee", "kO", "o"}; v.push_back(d);
        Setup e = d; e.lines.clear(); e.dict.clear(); v.push_back(e);
        Setup f; v.push_back(f);                                                                                                                                                            // knows nothing
        Setup g = d; for (auto& r : g.rows) { unsigned x = NS - 1; move(r, x, r.s[x] > 50 ? -3 : 3); } v.push_back(g);                                                                         // nothing is known exactly
        Setup h; for (unsigned z : {1u, 3u, 7u}) for (unsigned i = 0; i < 7; ++i) { Size const q = twin_size(z); h.rows.push_back(row_of(twin(q.w, q.h, i))); h.views.push_back({{std::string(1, char('a' + i + z)) + std::to_string(i), "f"}}); } v.push_back(h);    // large pictures that differ in one pixel
    }
    return v[k];
}
constexpr unsigned SETUPS = 6;
static Base const& base(unsigned k) { static std::map<unsigned, std::unique_ptr<Base>> m; auto& b = m[k]; if (!b) b.reset(new Base(setup(k).rows, setup(k).views)); return *b; }
static std::string const& dict_text(unsigned k) { static std::map<unsigned, std::string> m; auto& s = m[k]; if (s.empty() && !setup(k).dict.empty()) { std::ostringstream o; o << ppocr::spell::Dictionary(setup(k).dict); s = o.str(); } return s; }
struct Read { std::string candidates, text; unsigned count = 0, unrec = 0; double rate = 0; bool ok = false; };
static ToolRun tool(unsigned k, Pic const& line, bool colour, unsigned nargs)
{
    static std::map<std::pair<unsigned, int>, std::string> files;
    auto file = [&](int what, std::string const& text) -> std::string const& { auto& f = files[{k, what}]; if (f.empty()) { f = scratch("k" + std::to_string(k) + "-" + std::to_string(what)); spit(f, text); } return f; };
    std::string const img = scratch("line"); spit(img, colour ? p6(line) : p4(line));
    std::vector<std::string> a = {file(0, glyphs_text(setup(k).views)), file(1, datas_text(setup(k).rows)), img};
    if (nargs > 3) a.push_back(file(2, setup(k).lines)); if (nargs > 4) a.push_back(file(3, dict_text(k)));
    return run_tool(main_ocr2_extract_text, a);
}
static Read parse(ToolRun const& r)
{
    Read x; if (r.failed()) return x;
    std::size_t a = r.out.find(" ## go\n"), b = r.out.rfind(" ## result: "); if (a == std::string::npos || b == std::string::npos || b < a) return x;
    x.candidates = r.out.substr(a + 7, b - a - 7); std::size_t e = r.out.find("\nunrecognized_count: ", b); if (e == std::string::npos) return x; x.text = r.out.substr(b + 12, e - b - 12);
    x.ok = sscanf(r.out.c_str() + e, "\nunrecognized_count: %u\ncount: %u\nunrecognized_rate: %lf", &x.unrec, &x.count, &x.rate) == 3; return x;
}
// pictures all different from one another: a frame whose inside is the number of the picture
static Pic numbered(unsigned i) { Pic p(7, 9); for (unsigned x = 0; x < 7; ++x) for (unsigned y = 0; y < 9; ++y) if (x == 0 || x == 6 || y == 0 || y == 8 || ((i * 2654435761u >> 3) >> (x + y * 5) % 23 & 1 && i % 3 != 0) || (y < 6 && x < 6 && (i >> ((y - 1) * 5 + x - 1)) & 1)) p.at(x, y) = 'x'; return p; }
#if PROP == 24
static std::vector<Family> families(Tier t)
{
    std::vector<Family> fs; auto const& A = alphabet();
    static std::vector<std::unique_ptr<Base>> const dbs = [] { auto const& A = alphabet(); std::vector<std::unique_ptr<Base>> r;
        for (unsigned k = 0; k < 4; ++k) { std::vector<Row> rows; std::vector<GV> v; for (unsigned i = 0; i < A.size(); ++i) { if (k == 1 && i % 2) continue; if (k == 3 && i != 8) continue; Row x = A[i].row; if (k == 2) move(x, NS - 1, x.s[NS - 1] > 50 ? -2 : 2); rows.push_back(x); v.push_back({{"w" + std::to_string(k == 2 ? i % 3 : i), i % 2 ? "f" : "g"}}); if (i % 3 == 0) v.back().push_back({"z", "f"}); } r.emplace_back(new Base(rows, v)); } return r; }();
    auto body = [&A](Ctx& c, unsigned m, unsigned len) {
        unsigned const k = c.choose(4); Base const& db = *dbs[k]; State s(db.rows.size()); unsigned const n = 1 + c.choose(len); std::vector<unsigned> q; for (unsigned i = 0; i < n; ++i) q.push_back(c.choose(m));
        c.note([&]{ std::string t = "database " + std::to_string(k) + " characters:"; for (auto i : q) t += " [" + A[i].pic.str() + "]"; return t; }); uint64_t h = k; for (auto i : q) h = mix(h, i); c.state(h);
        static std::map<std::pair<unsigned, unsigned>, std::vector<o2::View const*>> alone;
        for (std::size_t i = 0; i < n; ++i) {
            auto const got = recognise(db, s, A[q[i]].pic); c.transition();
            auto& want = alone[{k, q[i]}]; static std::set<std::pair<unsigned, unsigned>> done; if (done.insert({k, q[i]}).second) { State f(db.rows.size()); for (o2::View const& v : recognise(db, f, A[q[i]].pic)) want.push_back(&v); }
            bool same = got.size() == want.size(); for (std::size_t j = 0; same && j < want.size(); ++j) same = &got[j].get() == want[j];
            c.check(same, [&]{ o2::view_ref_list w; for (auto* v : want) w.push_back(std::cref(*v)); return "character " + std::to_string(i) + " is read as " + show(db, got) + ", alone as " + show(db, w); });
            if (i + 1 == n) { uint64_t o = k; for (o2::View const& v : got) o = mix(o, v.word * 77u + v.font); c.outcome(o); }
        } };
    unsigned const M = t.thorough ? 10 : 9, L = t.thorough ? 5 : 4;
    fs.push_back({"sequences", "4 databases (all exact, half of the pictures, none exact, one entry) x every sequence of 1.." + std::to_string(L) + " characters out of " + std::to_string(M) + " through one recogniser state", [=](Ctx& c){ body(c, M, L); }});
    fs.push_back({"sequences-wide", "4 databases x every sequence of 1.." + std::string(t.thorough ? "4" : "3") + " characters out of all 20", [=](Ctx& c){ body(c, 20, t.thorough ? 4 : 3); }});
    unsigned const sa = t.thorough ? 7 : 5;
    fs.push_back({"small-pairs", "every ordered pair of images of at most " + std::to_string(sa) + " pixels through one recogniser state, in 3 databases of every image of at most 4 pixels (exact, none exact, half of them)", [sa](Ctx& c){
        static std::vector<std::unique_ptr<Base>> const small = [] { std::vector<std::unique_ptr<Base>> r; for (unsigned k = 0; k < 3; ++k) { std::vector<Row> rows; std::vector<GV> v; unsigned n = 0; for (Size z : sizes_upto(4, 4, 4)) for (unsigned m = 0; m < (1u << (z.w * z.h)); ++m, ++n) { Pic q(z.w, z.h); for (unsigned i = 0; i < z.w * z.h; ++i) if (m >> i & 1) q.p[i] = 'x'; if (k == 2 && n % 2) continue; Row x = row_of(q); if (k == 1) move(x, 0, x.s[0] > 50 ? -1 : 1); rows.push_back(x); v.push_back({{"w" + std::to_string(n % 11), n % 2 ? "f" : "g"}}); } r.emplace_back(new Base(rows, v)); } return r; }();
        unsigned const k = c.choose(3); Base const& db = *small[k]; Pic const a = choose_pic(c, sizes_upto(sa, sa, sa)), b = choose_pic(c, sizes_upto(sa, sa, sa)); c.state(mix(mix(a.hash(), b.hash()), k)); c.note([&]{ return a.str() + " then " + b.str(); });
        static std::map<std::pair<unsigned, uint64_t>, o2::view_ref_list> alone; auto it = alone.find({k, b.hash()}); if (it == alone.end()) { State f(db.rows.size()); it = alone.emplace(std::make_pair(k, b.hash()), recognise(db, f, b)).first; }
        State s(db.rows.size()); recognise(db, s, a); auto const got = recognise(db, s, b); auto const& want = it->second; c.transition(); bool same = got.size() == want.size(); for (std::size_t j = 0; same && j < want.size(); ++j) same = &got[j].get() == &want[j].get(); c.check(same, [&]{ return "second character read as " + show(db, got) + ", alone as " + show(db, want); }); uint64_t o = k; for (o2::View const& v : got) o = mix(o, v.word * 77u + v.font); c.outcome(o); }});
    fs.push_back({"length-scale", "4 databases x every number 1..64 of characters and 100 127..129 255..257 300 600 1000 of them through one recogniser state, in 6 orders of the 20 pictures", [&A](Ctx& c){
        static unsigned const more[] = {100, 127, 128, 129, 255, 256, 257, 300, 600, 1000}; unsigned const k = c.choose(4), zi = c.choose(74), n = zi < 64 ? zi + 1 : more[zi - 64], o = c.choose(6); Base const& db = *dbs[k]; State s(db.rows.size()); static unsigned const mul[] = {1, 3, 7, 9, 11, 19}; c.state(mix(mix(k, n), o)); c.note([&]{ return "database " + std::to_string(k) + ", " + std::to_string(n) + " characters, order " + std::to_string(o); });
        static std::map<std::pair<unsigned, unsigned>, std::vector<o2::View const*>> alone; uint64_t out = n;
        for (unsigned i = 0; i < n; ++i) { unsigned const q = (i * mul[o] + i / 20 * (o + 1)) % 20; auto const got = recognise(db, s, A[q].pic); c.transition(); auto it = alone.find({k, q}); if (it == alone.end()) { std::vector<o2::View const*> w; State f(db.rows.size()); for (o2::View const& v : recognise(db, f, A[q].pic)) w.push_back(&v); it = alone.emplace(std::make_pair(k, q), w).first; }
            auto const& want = it->second; bool same = got.size() == want.size(); for (std::size_t j = 0; same && j < want.size(); ++j) same = &got[j].get() == want[j]; c.check(same, [&]{ o2::view_ref_list w; for (auto* v : want) w.push_back(std::cref(*v)); return "character " + std::to_string(i) + " [" + A[q].pic.str() + "] is read as " + show(db, got) + ", alone as " + show(db, w); }); for (o2::View const& v : got) out = mix(out, v.word); } c.outcome(out); }});
    fs.push_back({"picture-scale", "after a picture of every size pattern (square, wide, high) of side 1..40, 64, 100, 300, every one of the 20 pictures, and that picture again: read as alone, 2 databases", [&A](Ctx& c){
        unsigned const k = c.choose(2) * 2, zi = c.choose(43), z = zi < 40 ? zi + 1 : zi == 40 ? 64 : zi == 41 ? 100 : 300, f = c.choose(3), m = c.choose(3); Base const& db = *dbs[k]; State s(db.rows.size()); Pic const big = motif(m == 0 ? 2 : m == 1 ? 15 : 9, f == 2 ? 7 : z, f == 1 ? 7 : z); c.state(mix(mix(big.hash(), k), z)); c.note([&]{ return "database " + std::to_string(k) + ", first a picture of " + std::to_string(big.w) + "x" + std::to_string(big.h); });
        auto once = [&](Pic const& p) { State x(db.rows.size()); return recognise(db, x, p); }; static std::map<std::pair<unsigned, unsigned>, o2::view_ref_list> alone; auto const wb = once(big);
        auto same = [&](o2::view_ref_list const& got, o2::view_ref_list const& want, char const* what) { bool ok = got.size() == want.size(); for (std::size_t j = 0; ok && j < want.size(); ++j) ok = &got[j].get() == &want[j].get(); c.check(ok, [&]{ return std::string(what) + " is read as " + show(db, got) + ", alone as " + show(db, want); }); c.transition(); };
        same(recognise(db, s, big), wb, "the first picture"); for (unsigned q = 0; q < A.size(); ++q) { auto it = alone.find({k, q}); if (it == alone.end()) it = alone.emplace(std::make_pair(k, q), once(A[q].pic)).first; same(recognise(db, s, A[q].pic), it->second, ("picture " + std::to_string(q)).c_str()); if (q % 5 == 4) same(recognise(db, s, big), wb, "the large picture again"); } c.outcome(mix(wb.size(), z)); }});
    unsigned const K = t.thorough ? 5 : 4;
    fs.push_back({"tool", "the recogniser program on every line of 1.." + std::to_string(K) + " characters out of 5 (heights alternate), 3 databases: its candidates for each new picture are those it prints for that picture alone", [K](Ctx& c){
        unsigned const k = std::vector<unsigned>{0, 2, 5}[c.choose(3)]; unsigned const n = 1 + c.choose(K); std::vector<unsigned> q; for (unsigned i = 0; i < n; ++i) q.push_back(c.choose(5)); auto const& Ls = letters();
        std::vector<At> l; for (unsigned i = 0; i < n; ++i) l.push_back({&Ls[q[i]].pic, 2, i % 2 ? 1u : 4u}); c.note([&]{ std::string t = "database " + std::to_string(k) + " characters"; for (auto i : q) t += " " + Ls[i].pic.str(); return t; }); uint64_t h = k; for (auto i : q) h = mix(h, i); c.state(h);
        static std::map<std::pair<unsigned, unsigned>, std::string> alone; std::string want; std::set<unsigned> seen;
        for (auto i : q) { auto& s = alone[{k, i}]; if (s.empty()) { auto r = parse(tool(k, line_of({{&Ls[i].pic, 2, 4}}), false, 5)); if (!r.ok) c.fail("the recogniser fails on a single character"); s = r.candidates; } if (seen.insert(i).second) want += s; }
        auto const r = parse(tool(k, line_of(l), false, 5)); c.transition(); c.check(r.ok, "the recogniser fails"); c.check(r.candidates == want, [&]{ return "candidates printed for the line:\n" + r.candidates + "expected from each character alone:\n" + want; }); c.outcome(r.candidates); }});
    auto line_alone = [](Ctx& c, unsigned k, std::vector<Pic> const& ps, std::string const& what) {
        static std::map<std::pair<unsigned, uint64_t>, std::string> alone; std::string want; std::set<uint64_t> seen; std::vector<At> l; unsigned high = 0; for (auto& p : ps) high = std::max(high, p.h); for (auto& p : ps) l.push_back({&p, 2, high - p.h + 1});
        c.note([&]{ return "database " + std::to_string(k) + ", " + what; }); uint64_t h = k; for (auto& p : ps) h = mix(h, p.hash()); c.state(h);
        for (auto& p : ps) { auto& s = alone[{k, p.hash()}]; if (s.empty()) { auto r = parse(tool(k, line_of({{&p, 2, 4}}), false, 5)); if (!r.ok) c.fail("the recogniser fails on a single character"); s = r.candidates; } if (seen.insert(p.hash()).second) want += s; }
        auto const r = parse(tool(k, line_of(l), false, 5)); c.transition(); c.check(r.ok, "the recogniser fails"); c.check(r.candidates == want, [&]{ return "candidates printed for the line:\n" + r.candidates.substr(0, 3000) + "expected from each character alone:\n" + want.substr(0, 3000); }); c.check(r.count == ps.size(), "not every character is counted"); c.outcome(r.candidates); };
    fs.push_back({"near-twins", "the recogniser program on lines of 4 characters of 2 pictures that differ in one pixel or two: 11 sizes of 20..12000 pixels, 7 places each, 4 databases (one of them of such pictures)", [line_alone](Ctx& c){
        unsigned const k = std::vector<unsigned>{0, 2, 5, 6}[c.choose(4)], z = c.choose(11), a = c.choose(7), b = c.choose(7); Size const q = twin_size(z); std::vector<Pic> ps = {twin(q.w, q.h, a), twin(q.w, q.h, b)}; if (a == b) std::fill(ps[1].p.begin(), ps[1].p.end(), 'x'); ps.push_back(ps[0]); ps.push_back(ps[1]); line_alone(c, k, ps, "pictures of " + std::to_string(q.w) + "x" + std::to_string(q.h) + " differing in places " + std::to_string(a) + " and " + std::to_string(b)); }});
    fs.push_back({"all-distinct", "the recogniser program on lines of 1..10, 31..33, 63..66, 100, 127..130, 255..258 and 400 characters that are all different, or of which every second or third comes back later, 2 databases", [line_alone](Ctx& c){
        static unsigned const N[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 130, 255, 256, 257, 258, 400}; unsigned const k = c.choose(2) * 5, n = N[c.choose(27)], how = c.choose(3); std::vector<Pic> ps; for (unsigned i = 0; i < n; ++i) ps.push_back(how && i % (how + 1) == how ? ps[i / 2] : numbered(i)); line_alone(c, k, ps, std::to_string(n) + " pictures, pattern " + std::to_string(how)); }});
    return fs;
}
#else
// the text expected from the candidates of each character alone (fresh recogniser for each) and its position
static void extract(Ctx& c, unsigned k, Pic const& line, bool colour, unsigned nargs)
{
    c.note([&]{ return "database " + std::to_string(k) + ", " + std::to_string(nargs) + " files, line " + line.str(); });
    c.state(mix(mix(line.hash(), k), nargs * 2 + colour));
    auto const boxes = box_model(line); Base const& db = base(k); Setup const& su = setup(k);
    std::deque<o2::view_ref_list> lists; o2::ambiguous_t amb; std::vector<ppocr::Box> bx; std::vector<unsigned> spaces; unsigned right = 0;
    static std::map<std::pair<unsigned, uint64_t>, o2::view_ref_list> alone;
    for (std::size_t i = 0; i < boxes.size(); ++i) {
        auto const& b = boxes[i]; Pic const p = line.crop(b.x, b.y, b.w, b.h); auto key = std::make_pair(k, p.hash()); auto it = alone.find(key);
        if (it == alone.end()) { State s(db.rows.size()); it = alone.emplace(key, recognise(db, s, p)).first; }
        lists.push_back(it->second); amb.emplace_back(lists.back()); bx.push_back(ppocr::Box(ppocr::Index(b.x, b.y), ppocr::Bounds(b.w, b.h)));
        if (i && b.x - right > 4) spaces.push_back(unsigned(i)); right = b.x + b.w;
    }
    o2::WWordsLines wl; if (nargs > 3) { std::istringstream is(su.lines); is >> wl; } o2::WordsInfos const infos(db.glyphs, wl);
    o2::filter_by_lines(amb, infos, bx); o2::filter_by_font(amb);
    ppocr::spell::Dictionary const d(nargs > 4 ? su.dict : Words{}); spaces.push_back(unsigned(amb.size()));
    unsigned none = 0; for (auto& l : lists) none += l.empty();
    std::string want; o2::disambiguous_with_dict(amb, db.glyphs, d, spaces.cbegin(), want);
    ToolRun const t = tool(k, line, colour, nargs); c.transition(); c.check(!t.failed(), [&]{ return "the recogniser fails: " + t.err; });
    Read const r = parse(t); c.check(r.ok, [&]{ return "the result is missing from:\n" + t.out; });
    c.outcome(mix(hash(r.text), r.unrec));
    c.check(r.text == want, [&]{ return "the text is '" + r.text + "' instead of '" + want + "'"; });
    c.check(r.count == boxes.size(), [&]{ return std::to_string(r.count) + " characters reported instead of " + std::to_string(boxes.size()); });
    c.check(r.unrec == none, [&]{ return std::to_string(r.unrec) + " unrecognised characters reported instead of " + std::to_string(none); });
    double const rate = boxes.empty() ? 0 : 100. * none / double(boxes.size()); c.check(std::fabs(r.rate - rate) < 1e-3 * std::max(1., rate), [&]{ return "the rate is " + std::to_string(r.rate) + " instead of " + std::to_string(rate); });
    if (k == 0) {      // every letter known by one word: the text is simply that
        std::map<uint64_t, std::string> w; for (unsigned i = 0; i < letters().size(); ++i) w[letters()[i].pic.hash()] = su.views[i][0].word; std::string direct; bool all = true; right = 0;
        for (std::size_t i = 0; i < boxes.size(); ++i) { auto& b = boxes[i]; auto it = w.find(line.crop(b.x, b.y, b.w, b.h).hash()); if (it == w.end()) { all = false; break; } if (i && b.x - right > 4) direct += ' '; direct += it->second; right = b.x + b.w; }
        if (all) c.check(r.text == direct && r.unrec == 0, [&]{ return "the text of known characters is '" + r.text + "' instead of '" + direct + "'"; });
    }
}
static std::vector<Family> families(Tier t)
{
    std::vector<Family> fs; auto const& Ls = letters();
    unsigned const N = t.thorough ? 5 : 4;
    fs.push_back({"every-line", "every line of 0.." + std::to_string(N) + " characters out of 5, 6 databases (all known, some unknown, ambiguous with line classes and dictionary, without them, empty, none exact), bottoms aligned", [N, &Ls](Ctx& c){
        unsigned const k = c.choose(SETUPS), n = c.choose(N + 1); std::vector<At> l; for (unsigned i = 0; i < n; ++i) { auto& p = Ls[c.choose(5)].pic; l.push_back({&p, 1 + i % 3, 14 - p.h}); } extract(c, k, line_of(l), k % 2, 5); }});
    fs.push_back({"heights", "every line of 2..4 characters out of 3 at one of 3 heights each, ambiguous databases", [&Ls](Ctx& c){
        unsigned const k = 2 + c.choose(2) * 3, n = 2 + c.choose(3); std::vector<At> l; for (unsigned i = 0; i < n; ++i) { unsigned v = c.choose(9); static unsigned const y[] = {0, 5, 6}; auto& p = Ls[v % 3 == 0 ? 0 : v % 3 == 1 ? 2 : 3].pic; l.push_back({&p, 2, y[v / 3] + 12 - p.h}); } extract(c, k, line_of(l), false, 5); }});
    fs.push_back({"gaps", "every line of 1..4 characters with gaps 0 1 3 4 5 6 40 before each (the left margin included), 3 right margins, 3 databases", [&Ls](Ctx& c){
        unsigned const k = c.choose(3), n = 1 + c.choose(4), tail = c.choose(3) * 5; std::vector<At> l; static unsigned const g[] = {1, 3, 4, 5, 6, 0, 40}; for (unsigned i = 0; i < n; ++i) { unsigned v = c.choose(i ? 5 : 7); l.push_back({&Ls[(i * 2 + k) % 5].pic, g[v], 3}); } extract(c, k, line_of(l, tail), false, 5); }});
    fs.push_back({"files", "every line of 1..3 characters out of 6 with no optional file, word lines only, word lines and dictionary; bitmap or colour", [&Ls](Ctx& c){
        unsigned const k = c.choose(SETUPS), a = 3 + c.choose(3), col = c.choose(2), n = 1 + c.choose(3); std::vector<At> l; for (unsigned i = 0; i < n; ++i) { auto& p = Ls[c.choose(6)].pic; l.push_back({&p, 2 + (i % 2) * 4, 14 - p.h}); } extract(c, k, line_of(l), col, a); }});
    unsigned const A = t.thorough ? 14 : 12;
    fs.push_back({"small-lines", "every bitmap line of at most " + std::to_string(A) + " pixels, 2 databases", [A](Ctx& c){ unsigned const k = c.choose(2) * 2; Pic const p = choose_pic(c, sizes_upto(A, A, A)); extract(c, k, p, false, 5); }});
    unsigned const R = t.thorough ? 40 : 24;
    fs.push_back({"long", "lines of 5.." + std::to_string(R) + " characters: one of 12 repeated patterns, 4 databases; the same pictures at several heights", [R, &Ls](Ctx& c){
        static unsigned const ks[] = {0, 1, 2, 5}; unsigned const k = ks[c.choose(4)], n = 5 + c.choose(R - 4), m = c.choose(12); std::vector<At> l; for (unsigned i = 0; i < n; ++i) { auto& p = Ls[(i * (1 + m % 4) + m) % 6].pic; l.push_back({&p, (i * 3 + m) % 7 + 1, m % 3 == 0 ? 14 - p.h : (i + m) % 3 * 2}); } extract(c, k, line_of(l), m % 2, 5); }});
    fs.push_back({"length-scale", "lines of every number 25..70 of characters and of 100 128 255 256 257 300 600 of them, 3 databases, 3 patterns (equal gaps, word gaps, heights)", [&Ls](Ctx& c){
        static unsigned const ks[] = {0, 2, 5}, more[] = {100, 128, 255, 256, 257, 300, 600}; unsigned const k = ks[c.choose(3)], zi = c.choose(53), n = zi < 46 ? 25 + zi : more[zi - 46], m = c.choose(3); std::vector<At> l; for (unsigned i = 0; i < n; ++i) { auto& p = Ls[(i * 3 + i / 7 + m) % 6].pic; l.push_back({&p, m == 1 ? 1 + i % 6 : 2, m == 2 ? (i * 5) % 4 * 2 : 14 - p.h}); } extract(c, k, line_of(l), m == 0, 5); }});
    fs.push_back({"very-long", "lines of 5000, 65535..65537 and 70000 characters out of 6, word gaps everywhere or nowhere, 3 databases", [&Ls](Ctx& c){
        static unsigned const ks[] = {0, 2, 5}, N[] = {5000, 65535, 65536, 65537, 70000}; unsigned const k = ks[c.choose(3)], n = N[c.choose(5)]; bool const gaps = c.choose(2); std::vector<At> l; for (unsigned i = 0; i < n; ++i) { auto& p = Ls[(i * 3 + i / 7) % 6].pic; l.push_back({&p, gaps ? 9u : 2u, 14 - p.h}); } extract(c, k, line_of(l), false, 5); }});
    fs.push_back({"margins-scale", "lines of 3 characters with a left margin, an inner gap or a right margin of 0..70, 255..257, 1000, 5000, and a blank band of that many rows below or above, 2 databases", [&Ls](Ctx& c){
        unsigned const k = c.choose(2) * 2, zi = c.choose(76), z = zi < 71 ? zi : zi < 74 ? 184 + zi : zi == 74 ? 1000 : 5000, where = c.choose(5); if (zi >= 74 && where >= 3 ) return; std::vector<At> l; for (unsigned i = 0; i < 3; ++i) { auto& p = Ls[(i * 2 + 1) % 6].pic; l.push_back({&p, where == 0 && i == 0 ? z : where == 1 && i == 1 ? z : 2, 14 - p.h + (where == 3 ? z : 0)}); } Pic q = line_of(l, where == 2 ? z : 0); if (where == 4) { Pic r(q.w, q.h + z); for (unsigned y = 0; y < q.h; ++y) for (unsigned x = 0; x < q.w; ++x) r.at(x, y) = q.at(x, y); q = r; } extract(c, k, q, false, 5); }});
    fs.push_back({"near-twins", "lines of 4 characters of 2 pictures that differ in one pixel or two: 11 sizes of 20..12000 pixels, 7 places each, 4 databases (one of them of such pictures)", [](Ctx& c){
        unsigned const k = std::vector<unsigned>{0, 2, 5, 6}[c.choose(4)], z = c.choose(11), a = c.choose(7), b = c.choose(7); Size const q = twin_size(z); Pic const p0 = twin(q.w, q.h, a); Pic p1 = twin(q.w, q.h, b); if (a == b) std::fill(p1.p.begin(), p1.p.end(), 'x'); extract(c, k, line_of({{&p0, 2, 1}, {&p1, 2, 1}, {&p0, 7, 1}, {&p1, 1, 1}}), false, 5); }});
    fs.push_back({"all-distinct", "lines of 1..10, 31..33, 63..66, 100, 127..130, 255..258 and 400 characters that are all different, or of which every second or third comes back later, or with a known letter before each, 3 databases", [&Ls](Ctx& c){
        static unsigned const N[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 130, 255, 256, 257, 258, 400}; unsigned const k = std::vector<unsigned>{0, 2, 5}[c.choose(3)], n = N[c.choose(27)], how = c.choose(4); std::vector<Pic> ps; for (unsigned i = 0; i < n; ++i) ps.push_back(how == 3 && i % 2 == 0 ? Ls[i / 2 % 6].pic : how && how < 3 && i % (how + 1) == how ? ps[i / 2] : numbered(i)); std::vector<At> l; for (auto& p : ps) l.push_back({&p, 2 + (l.size() % 5 == 4) * 4u, 14 - p.h}); extract(c, k, line_of(l), false, 5); }});
    return fs;
}
#endif
#endif
MC_MAIN(families)
