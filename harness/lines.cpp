// C25-C29: line and font filtering, text assembly, replacement rules, word line classes.
#include "cli.hpp"
#include "ppocr/ocr2/filter_by_lines.hpp"
#include "ppocr/ocr2/filter_by_font.hpp"
#include "ppocr/ocr2/disambiguous_with_dict.hpp"
#include "ppocr/ocr2/replacement.hpp"
#include "ppocr/ocr2/words_infos.hpp"
#include "ppocr/ocr2/word_lines.hpp"
#include "ppocr/ocr2/glyphs.hpp"
#include "ppocr/spell/dictionary.hpp"
#include "ppocr/utils/read_file.hpp"
#include <map>
#include <set>
#include <functional>
using namespace mc;
namespace o2 = ppocr::ocr2;
using Words = std::vector<std::string>;

static std::string esc(std::string const& s) { std::string r; char b[8]; for (unsigned char c : s) { if (c >= 32 && c < 127) r += char(c); else { snprintf(b, sizeof b, "\\x%02x", c); r += b; } } return r; }
static std::string brief(std::string const& s) { return s.size() < 4000 ? s : s.substr(0, 2000) + "...(" + std::to_string(s.size()) + " bytes)"; }
static std::string word_of(o2::Glyphs const& g, o2::View const& v) { auto& w = g.get_word(v); return std::string(w.begin(), w.end()); }

// A recogniser's glyph database made from a file: one glyph per (word, font)
struct Db
{
    o2::Glyphs g; std::map<std::pair<std::string, std::string>, o2::View const*> at;
    Db(Words const& words, Words const& fonts)
    {
        std::string s; for (auto& w : words) for (auto& f : fonts) s += "1 1 x\n1\n" + w + " " + f + " 0\n";
        std::istringstream is(s); is >> g;
        std::size_t i = 0; for (auto& w : words) for (auto& f : fonts) { if (i >= g.size() || g[i].size() != 1) { fprintf(stderr, "harness: glyph file misread\n"); _exit(3); } at[{w, f}] = &g[i++][0]; }
    }
    o2::view_ref ref(std::string const& w, std::string const& f = "f") const { return std::cref(*at.at({w, f})); }
};
struct Line       // candidate lists with their own storage
{
    std::vector<o2::view_ref_list> lists; o2::ambiguous_t amb;
    void bind() { amb.clear(); for (auto& l : lists) amb.emplace_back(l); }
    std::vector<std::vector<o2::View const*>> snapshot() const { std::vector<std::vector<o2::View const*>> r; for (auto& l : lists) { r.emplace_back(); for (o2::View const& v : l) r.back().push_back(&v); } return r; }
};
using Snap = std::vector<std::vector<o2::View const*>>;
static std::string show(o2::Glyphs const& g, Snap const& s) { std::string r; for (auto& l : s) { r += " ["; for (auto* v : l) r += (r.back() == '[' ? "" : " ") + brief(word_of(g, *v)) + "/" + std::to_string(v->font); r += "]"; } return r; }
static uint64_t hs(Snap const& s) { uint64_t h = 7; for (auto& l : s) { h = mix(h, l.size()); for (auto* v : l) h = mix(h, v->word * 1000003ull + v->font); } return h; }

// Words a0..a6 and c0..c6 around one long word, as long as it takes for each c to be D places after the a of the same number
static unsigned const far_d[] = {32, 128, 256, 16384, 32768, 65536, 131072, 1 << 20};
struct Far { Words words; std::string glued; std::unique_ptr<Db> db; };
static Far const& far_words(unsigned k)
{
    static std::map<unsigned, Far> all; Far& f = all[k]; if (f.db) return f;
    for (unsigned i = 0; i < 7; ++i) f.words.push_back("a" + std::to_string(i)); f.words.push_back("b" + std::string(4 * (far_d[k] - 16) - 1, 'b')); for (unsigned i = 0; i < 7; ++i) f.words.push_back("c" + std::to_string(i));
    f.db.reset(new Db(f.words, {"f", "g"})); return f;
}
// ---------------------------------------------------------------- C25
struct Cls { int base, mean; };      // -1: the word is not listed
static bool contradicted(int cls, unsigned y, unsigned line)
{
    long const d = long(y) - long(line);
    bool const above = d < -1, on = d >= -1 && d <= 1, below = d > 1;     // where the edge is
    if (cls <= 0) return false;
    bool ok = false;
    if (cls & 1) ok |= above;
    if (cls & 2) ok |= on;
    if (cls & 4) ok |= below;
    return !ok;
}
static void lines(Ctx& c, Db const& db, std::map<std::string, Cls> const& cls, o2::WordsInfos const& infos, Snap const& before, std::vector<ppocr::Box> const& boxes)
{
    c.note([&]{ std::string s = "boxes (top..bottom):"; for (auto& b : boxes) s += " " + std::to_string(b.top()) + ".." + std::to_string(b.bottom()); return s + " candidates" + show(db.g, before); });
    { uint64_t h = hs(before); for (auto& b : boxes) h = mix(mix(h, b.top()), b.bottom()); c.state(h); }
    Line l; for (auto& p : before) { l.lists.emplace_back(); for (auto* v : p) l.lists.back().push_back(std::cref(*v)); } l.bind();
    // reference
    Snap want = before;
    auto common = [](std::vector<unsigned> const& ys) { std::map<unsigned, unsigned> n; for (auto y : ys) ++n[y]; unsigned best = 0, by = 0; for (auto& p : n) if (p.second > best) { best = p.second; by = p.first; } return by; };
    auto pass = [&](unsigned line, bool base, std::vector<unsigned>* vote) {
        for (std::size_t i = 0; i < want.size(); ++i) {
            std::vector<std::vector<o2::View const*>> groups;
            for (auto* v : want[i]) { if (groups.empty() || groups.back()[0]->word != v->word) groups.emplace_back(); groups.back().push_back(v); }
            if (groups.size() < 2) continue;
            std::vector<bool> keep; for (auto& g : groups) { auto& k = cls.at(word_of(db.g, *g[0])); keep.push_back(!contradicted(base ? k.base : k.mean, base ? boxes[i].bottom() : boxes[i].top(), line)); }
            want[i].clear(); for (std::size_t k = 0; k < groups.size(); ++k) if (keep[k]) want[i].insert(want[i].end(), groups[k].begin(), groups[k].end());
            // which positions tell where the mean line is: a small letter left nearly alone by the base line
            std::size_t others = 0; for (std::size_t k = 2; k < groups.size(); ++k) others += keep[k];
            if (vote && (keep[0] ? others == 0 : keep[1] + others == 1)) { auto& k = cls.at(word_of(db.g, *want[i][0])); if (k.base == 2 && k.mean == 2) vote->push_back(boxes[i].top()); }
        }
    };
    if (!boxes.empty()) {
        std::vector<unsigned> bottoms; for (auto& b : boxes) bottoms.push_back(b.bottom());
        std::vector<unsigned> votes;
        pass(common(bottoms), true, &votes);
        if (!votes.empty()) pass(common(votes), false, nullptr);
    }
    o2::filter_by_lines(l.amb, infos, boxes); c.transition();
    auto const got = l.snapshot();
    c.outcome(hs(got));
    c.check(got == want, [&]{ return "the filter keeps" + show(db.g, got) + " instead of" + show(db.g, want); });
}
struct LineWorld { Words words; std::map<std::string, Cls> cls; std::unique_ptr<Db> db; std::unique_ptr<o2::WordsInfos> infos; };
static LineWorld const& world()
{
    static LineWorld w = [] { LineWorld w; std::string t; static int const k[] = {-1, 0, 1, 2, 3, 4, 6};
        for (int b : k) for (int m : k) { if ((b < 0) != (m < 0)) continue; std::string n = b < 0 ? "u" : "b" + std::to_string(b) + "m" + std::to_string(m); w.words.push_back(n); w.cls[n] = {b, m}; if (b >= 0) t += n + " 4 2 " + std::to_string(m) + " " + std::to_string(b) + "\n"; }
        w.db.reset(new Db(w.words, {"f", "g"})); o2::WWordsLines l; std::istringstream is(t); is >> l; w.infos.reset(new o2::WordsInfos(w.db->g, l)); return w; }();
    return w;
}
static ppocr::Box box(unsigned x, unsigned top, unsigned bottom) { return ppocr::Box(ppocr::Index(x, top), ppocr::Bounds(3, bottom - top + 1)); }
static std::string wn(int b, int m) { return b < 0 ? "u" : "b" + std::to_string(b) + "m" + std::to_string(m); }
// a list of word groups, each with one or two views (dup bit)
static std::vector<o2::View const*> group_list(std::vector<std::pair<std::string, unsigned>> const& gs) { std::vector<o2::View const*> r; for (auto& g : gs) { if (g.second != 2) r.push_back(world().db->at.at({g.first, "f"})); if (g.second) r.push_back(world().db->at.at({g.first, "g"})); } return r; }
static void run_lines(Ctx& c, Snap const& s, std::vector<ppocr::Box> const& b) { auto& w = world(); lines(c, *w.db, w.cls, *w.infos, s, b); }
static std::vector<Family> c25(Tier t)
{
    std::vector<Family> fs;
    static int const K[] = {-1, 0, 1, 2, 3, 4, 6};
    unsigned const G = t.thorough ? 5 : 4;
    fs.push_back({"base-line", "one ambiguous position of 2.." + std::to_string(G) + " words over the 7 base line classes, its bottom -3..+3 from the base line of two other characters, as first, middle or last position, with one, two or mixed views per word", [G](Ctx& c){
        unsigned const place = c.choose(3), dup = c.choose(3); unsigned const bottom = 17 + c.choose(7); unsigned const n = 2 + c.choose(G - 1); std::vector<std::pair<std::string, unsigned>> gs;
        for (unsigned i = 0; i < n; ++i) gs.push_back({wn(K[c.choose(7)], 0), dup == 2 ? i % 3 : dup}); for (auto& g : gs) if (g.first == "b-1m0") g.first = "u";
        Snap s(3); std::vector<ppocr::Box> b; for (unsigned i = 0; i < 3; ++i) { bool const me = i == place; s[i] = me ? group_list(gs) : group_list({{"b2m2", 0}}); b.push_back(box(i * 5, 9, me ? bottom : 20)); } run_lines(c, s, b); }});
    fs.push_back({"mean-line", "one ambiguous position of 2.." + std::to_string(G) + " words over the 7 mean line classes, its top -3..+3 from the mean line voted by two other characters whose lists are 4 shapes (kept first, kept second, three words, no vote), as first, middle or last position", [G](Ctx& c){
        unsigned const place = c.choose(3), shape = c.choose(4); unsigned const top = 7 + c.choose(7), n = 2 + c.choose(G - 1); std::vector<std::pair<std::string, unsigned>> gs;
        for (unsigned i = 0; i < n; ++i) gs.push_back({wn(K[c.choose(7)], 0), i % 2}); for (auto& g : gs) if (g.first != "u" && g.first != "b-1m0") { g.first = wn(2, g.first[1] - '0'); } else g.first = "u";
        std::vector<std::vector<std::pair<std::string, unsigned>>> const sh = {{{"b2m2", 1}, {"b1m1", 0}}, {{"b4m1", 0}, {"b2m2", 0}}, {{"b1m2", 1}, {"b4m2", 0}, {"b2m2", 1}}, {{"b2m2", 0}, {"b1m1", 1}, {"b2m1", 0}}};
        Snap s(3); std::vector<ppocr::Box> b; for (unsigned i = 0; i < 3; ++i) { bool const me = i == place; s[i] = me ? group_list(gs) : group_list(sh[shape]); b.push_back(box(i * 5, me ? top : 10, 20)); } run_lines(c, s, b); }});
    fs.push_back({"both-lines", "one ambiguous position of two words over the 37 pairs of classes, edges -2..+2 from both lines, among two voting characters", [](Ctx& c){
        auto& w = world(); unsigned const a = c.choose(unsigned(w.words.size())), b2 = c.choose(unsigned(w.words.size())), top = 8 + c.choose(5), bottom = 18 + c.choose(5);
        Snap s = {group_list({{"b2m2", 0}, {"b1m1", 0}}), group_list({{w.words[a], 1}, {w.words[b2], 0}}), group_list({{"b4m1", 0}, {"b2m2", 1}})}; run_lines(c, s, {box(0, 10, 20), box(5, top, bottom), box(9, 10, 20)}); }});
    unsigned const P = t.thorough ? 4 : 3;
    fs.push_back({"every-line", "every line of 0.." + std::to_string(P) + " characters with tops out of 3, bottoms out of 4 and candidate lists out of 8 (empty, one word, several words, voting or not)", [P](Ctx& c){
        static std::vector<std::vector<std::pair<std::string, unsigned>>> const L = {{}, {{"b2m2", 1}}, {{"b2m2", 0}, {"b4m2", 1}}, {{"b4m4", 0}, {"b2m2", 0}}, {{"b1m1", 0}, {"u", 0}, {"b2m1", 2}}, {{"b2m4", 1}, {"b2m2", 0}, {"b6m3", 0}}, {{"b3m2", 0}, {"b2m2", 1}, {"b2m1", 0}, {"b4m6", 0}}, {{"b1m4", 0}, {"b4m1", 0}}};
        static unsigned const tops[] = {0, 4, 6}, bots[] = {7, 9, 10, 14}; unsigned const n = c.choose(P + 1); Snap s; std::vector<ppocr::Box> b;
        for (unsigned i = 0; i < n; ++i) { s.push_back(group_list(L[c.choose(8)])); unsigned k = c.choose(12); b.push_back(box(i * 5, tops[k % 3], bots[k / 3])); } run_lines(c, s, b); }});
    fs.push_back({"sizes", "two or three characters whose tops and bottoms are any of 0 1 2 3 30 31 400 4000, in every order (height 1 included), the lists turned in 3 ways or all of them voting", [](Ctx& c){
        static unsigned const y[] = {0, 1, 2, 3, 30, 31, 400, 4000}; unsigned const n = 2 + c.choose(2), rot = c.choose(4); Snap s; std::vector<ppocr::Box> b;
        for (unsigned i = 0; i < n; ++i) { unsigned k = c.choose(36), t0 = 0; while (k >= 8 - t0) { k -= 8 - t0; ++t0; } b.push_back(box(i * 5, y[t0], y[t0 + k])); unsigned const li = rot == 3 ? 0 : (i + rot) % 3; s.push_back(group_list(li == 0 ? std::vector<std::pair<std::string, unsigned>>{{"b2m2", 0}, {"b4m1", 0}} : li == 1 ? std::vector<std::pair<std::string, unsigned>>{{"b1m3", 0}, {"b2m2", 0}, {"b4m4", 1}} : std::vector<std::pair<std::string, unsigned>>{{"b2m1", 0}, {"b2m6", 0}, {"b3m2", 0}})); } run_lines(c, s, b); }});
    fs.push_back({"ties", "2..8 characters over two candidate base lines and two candidate mean lines (which line has most characters, ties included)", [](Ctx& c){
        unsigned const n = 2 + c.choose(7); Snap s; std::vector<ppocr::Box> b; unsigned const who = c.choose(3);
        for (unsigned i = 0; i < n; ++i) { unsigned k = c.choose(4); b.push_back(box(i * 5, k & 1 ? 5 : 9, k & 2 ? 20 : 24)); s.push_back(group_list(i % 3 == who ? std::vector<std::pair<std::string, unsigned>>{{"b4m2", 0}, {"b2m1", 1}, {"b1m4", 0}, {"b6m6", 0}} : std::vector<std::pair<std::string, unsigned>>{{"b2m2", 0}, {"b1m1", 1}})); } run_lines(c, s, b); }});
    fs.push_back({"every-box", "four characters with tops out of 5 and bottoms out of 3, in every order, and one more to decide on, voting lists of 2 kinds", [](Ctx& c){
        static unsigned const T[] = {0, 1, 2, 20, 21}; unsigned const m = c.choose(2); Snap s; std::vector<ppocr::Box> b; for (unsigned i = 0; i < 4; ++i) { unsigned const k = c.choose(15); b.push_back(box(i * 5, T[k % 5], 100 + k / 5)); s.push_back(group_list(m && i % 2 ? std::vector<std::pair<std::string, unsigned>>{{"b4m1", 0}, {"b2m2", 1}} : std::vector<std::pair<std::string, unsigned>>{{"b2m2", 0}, {"b4m1", 0}})); }
        s.push_back(group_list({{"b2m1", 0}, {"b2m2", 0}, {"b2m4", 0}, {"b2m3", 0}})); b.push_back(box(30, c.choose(2) ? 20 : 0, 101)); run_lines(c, s, b); }});
    fs.push_back({"far-counts", "two tops voted and two bottoms reached by 3, 65535 or 65540 characters each, and one more character to decide on", [](Ctx& c){
        static unsigned const N[] = {3, 65535, 65540}; unsigned const a = N[c.choose(3)], b = N[c.choose(3)]; bool const tops = c.choose(2), order = c.choose(2); if (a < 10 && b < 10) return; Snap s; std::vector<ppocr::Box> bx; auto const v = group_list({{"b2m2", 0}, {"b4m1", 0}}), one = group_list({{"b2m2", 0}});
        for (unsigned k = 0; k < 2; ++k) for (unsigned i = 0; i < (k ? b : a); ++i) { bool const second = bool(k) != order; s.push_back(i % 30000 == 0 || tops ? v : one); bx.push_back(box(0, tops && second ? 14 : 10, !tops && second ? 25 : 20)); }
        s.push_back(group_list({{"b1m1", 0}, {"b2m2", 0}, {"b4m4", 0}})); bx.push_back(box(0, 14, 20)); s.push_back(group_list({{"b2m1", 0}, {"b2m2", 0}, {"b2m4", 0}})); bx.push_back(box(0, 10, 25)); run_lines(c, s, bx); }});
    fs.push_back({"length-scale", "lines of every number 1..140 of characters and of 255 256 257 500 1000 5000 65535 65537 70000 140000 200000 of them: the base line of most characters is reached by a half more one, the mean line voted by them, 4 patterns of lists, 3 of heights", [](Ctx& c){
        static unsigned const more[] = {255, 256, 257, 500, 1000, 5000, 65535, 65537, 70000, 140000, 200000}; unsigned const zi = c.choose(151), n = zi < 140 ? zi + 1 : more[zi - 140], m = c.choose(4), hh = c.choose(3); Snap s; std::vector<ppocr::Box> b;
        static std::vector<std::vector<std::pair<std::string, unsigned>>> const L = {{{"b2m2", 0}, {"b4m1", 0}}, {{"b2m2", 1}}, {{"b4m4", 0}, {"b2m2", 0}}, {{"b1m1", 0}, {"u", 0}, {"b2m1", 2}}, {{"b2m4", 1}, {"b2m2", 0}, {"b6m3", 0}}, {{"b1m4", 0}, {"b4m1", 0}}};
        for (unsigned i = 0; i < n; ++i) { s.push_back(group_list(L[(i * (m + 1) + m) % 6])); unsigned const lo = hh == 0 ? (i < n / 2 ? 20 : 24) : hh == 1 ? (i % 2 ? 20 : 24) : 20 + i % 5 * 2; b.push_back(box(i * 5, hh == 2 ? 5 + i / 3 % 4 * 2 : i % 3 ? 9 : 5, lo)); } run_lines(c, s, b); }});
    fs.push_back({"lone-voter", "lines of 2..70, 127..129, 255..257, 299..301, 1000, 1025 characters of which one at one of 7 places tells where the mean line is (twice: 2 shapes of lists), the others to be decided on, their tops 2 under, on, 2 over that line or far away", [](Ctx& c){
        static unsigned const more[] = {127, 128, 129, 255, 256, 257, 299, 300, 301, 1000, 1025}; unsigned const zi = c.choose(80), n = zi < 69 ? zi + 2 : more[zi - 69], place = c.choose(7), shape = c.choose(2); unsigned const at = place == 0 ? 0 : place == 6 ? n - 1 : place == 5 ? n - 2 : place == 1 ? std::min(n - 1, 1u) : n * (place - 1) / 4; Snap s; std::vector<ppocr::Box> b;
        static unsigned const tops[] = {8, 10, 12, 0, 15};
        for (unsigned i = 0; i < n; ++i) { if (i == at) { s.push_back(group_list(shape ? std::vector<std::pair<std::string, unsigned>>{{"b4m1", 0}, {"b2m2", 1}} : std::vector<std::pair<std::string, unsigned>>{{"b2m2", 0}, {"b1m1", 0}})); b.push_back(box(i * 5, 10, 20)); } else { s.push_back(group_list({{"b2m1", 0}, {"b2m2", i % 2}, {"b2m4", 0}})); b.push_back(box(i * 5, tops[(i + place) % 5], 20)); } } run_lines(c, s, b); }});
    fs.push_back({"far-lines", "one character to decide on 2^8..2^24 rows (17 distances) over or under the base line and the mean line of the others, 7 x 7 classes in pairs", [](Ctx& c){
        auto& w = world(); unsigned const k = c.choose(17), d = 256u << k, under = c.choose(2), one = c.choose(unsigned(w.words.size())), top = under ? 10 + d : 10, bottom = top + 10, base = under ? 20 : 20 + d, mean = under ? 10 : 10 + d; if (k > 10 && one % 5) return;
        Snap s = {group_list({{"b2m2", 0}, {"b1m1", 0}}), group_list({{w.words[one], 1}, {w.words[(one * 5 + 3) % w.words.size()], 0}, {"b2m2", 0}}), group_list({{"b4m1", 0}, {"b2m2", 1}})}; run_lines(c, s, {box(0, mean, base), box(5, top, bottom), box(9, mean, base)}); }});
    fs.push_back({"coordinate-scale", "three characters whose tops and bottoms are the base and mean lines at 13 places from 0 to 16000000, -3..+3", [](Ctx& c){
        static unsigned const Y[] = {0, 3, 127, 128, 255, 256, 32767, 32768, 65534, 65535, 65536, 70000, 16000000}; unsigned const t0 = c.choose(13), h = c.choose(13), dt = c.choose(7), db2 = c.choose(7); unsigned const top = Y[t0] + 3, bottom = top + 10 + Y[h];
        Snap s = {group_list({{"b2m2", 0}, {"b1m1", 0}}), group_list({{"b2m4", 1}, {"b4m2", 0}, {"b2m2", 0}, {"b1m1", 0}, {"b2m1", 0}}), group_list({{"b4m1", 0}, {"b2m2", 1}})}; run_lines(c, s, {box(0, top, bottom), box(5, top + dt - 3, bottom + db2 - 3), box(9, top, bottom)}); }});
    fs.push_back({"word-positions", "one ambiguous position of two or three words 32..1048576 (8 distances) places apart in the database (a word between them is that long), 7 x 7 classes, one or two views per word, its edges -2..+2 from both lines", [](Ctx& c){
        static std::map<std::pair<unsigned, unsigned>, std::unique_ptr<LineWorld>> ws; unsigned const k = c.choose(8), sh = c.choose(7), one = c.choose(7), third = c.choose(2), place = c.choose(25); auto const& far = far_words(k); auto& w = ws[{k, sh}];
        if (!w) { w.reset(new LineWorld); std::string t; for (unsigned i = 0; i < 15; ++i) { int const b = i < 7 ? K[i] : i == 7 ? 2 : K[(i - 8 + sh) % 7], m = b < 0 ? -1 : i == 7 ? 2 : K[1 + i * (i + sh) % 6]; w->cls[far.words[i]] = {b, m}; if (b >= 0 && i != 7) t += far.words[i] + " 4 2 " + std::to_string(m) + " " + std::to_string(b) + "\n"; } w->cls[far.words[7]] = {-1, -1}; o2::WWordsLines l; std::istringstream is(t); is >> l; w->infos.reset(new o2::WordsInfos(far.db->g, l)); }
        unsigned const dup = c.choose(3); auto v = [&](unsigned i, char const* f = "f") { return far.db->at.at({far.words[i], f}); }; auto list = [&](std::vector<unsigned> const& is) { std::vector<o2::View const*> r; for (auto i : is) { r.push_back(v(i)); if (dup == 2 || (dup == 1 && i > 7)) r.push_back(v(i, "g")); } return r; };
        Snap s = {list({one, 8 + one}), list({8 + (one + 3) % 7, (one + 3) % 7}), list({(one + 1) % 7, 8 + (one + 5) % 7})}; if (third) { s[0].push_back(v((one + 2) % 7)); for (auto* x : list({8 + (one + 4) % 7})) s[2].push_back(x); }
        if (far.words.back() == far.words[0] || v(8)->word - v(0)->word != far_d[k]) { fprintf(stderr, "harness: words are not that far apart\n"); _exit(3); }
        lines(c, *far.db, w->cls, *w->infos, s, {box(0, 10, 20), box(5, 8 + place % 5, 18 + place / 5), box(9, 10, 20)}); }});
    fs.push_back({"words-scale", "one ambiguous position of every number 1..80, 255..257 and 1000 of words, classes cycled in 4 orders, its edges -2..+2 from both lines", [](Ctx& c){
        auto& w = world(); unsigned const zi = c.choose(84), n = zi < 80 ? zi + 1 : zi == 83 ? 1000 : 175 + zi, o = c.choose(4), top = 8 + c.choose(5), bottom = 18 + c.choose(5); static unsigned const mul[] = {1, 5, 11, 36}; std::vector<std::pair<std::string, unsigned>> gs; for (unsigned i = 0; i < n; ++i) gs.push_back({w.words[i * mul[o] % w.words.size()], i % 3});
        run_lines(c, {group_list({{"b2m2", 0}, {"b1m1", 0}}), group_list(gs), group_list({{"b4m1", 0}, {"b2m2", 1}})}, {box(0, 10, 20), box(5, top, bottom), box(9, 10, 20)}); }});
    return fs;
}

// ---------------------------------------------------------------- C26
static void font(Ctx& c, Db const& db, Snap const& before)
{
    c.note([&]{ return "candidates" + show(db.g, before); });
    c.state(hs(before));
    std::map<unsigned, unsigned> n; for (auto& l : before) if (l.size() == 1) ++n[l[0]->font];
    unsigned best = ~0u, cnt = 0; for (auto& p : n) if (p.second > cnt) { cnt = p.second; best = p.first; }
    Snap want = before;
    if (!n.empty() && (n.size() == 1 || cnt >= before.size() / 2)) for (auto& l : want) if (l.size() > 1) { o2::View const* k = l[0]; for (auto* v : l) if (v->font == best) { k = v; break; } l = {k}; }
    Line l; for (auto& p : before) { l.lists.emplace_back(); for (auto* v : p) l.lists.back().push_back(std::cref(*v)); } l.bind();
    unsigned const r = o2::filter_by_font(l.amb); c.transition();
    auto const got = l.snapshot();
    c.outcome(mix(hs(got), r));
    c.check(got == want, [&]{ return "the filter keeps" + show(db.g, got) + " instead of" + show(db.g, want); });
    c.check(r == best, [&]{ return "the font returned is " + std::to_string(r) + " instead of " + std::to_string(best); });
    // applying it again changes nothing that the rule does not demand: lists stay sub-lists in order
    Snap again = got; (void)again;
}
static std::vector<Family> c26(Tier t)
{
    std::vector<Family> fs;
    static Words const W = {"a", "b"}, F = {"f", "g", "h"};
    static Db const& db = *new Db(W, F);
    auto V = [](unsigned i) { return db.at.at({W[i / 3], F[i % 3]}); };
    unsigned const N = t.thorough ? 6 : 5;
    fs.push_back({"every-line", "every line of 0.." + std::to_string(N) + " positions whose candidate lists are one of 9 (empty, one candidate of each of 3 fonts, two and three candidates of several fonts and words)", [V, N](Ctx& c){
        static std::vector<std::vector<unsigned>> const L = {{}, {0}, {1}, {2}, {0, 1}, {2, 1}, {1, 0, 3}, {5, 2, 4}, {3, 4}}; unsigned const n = c.choose(N + 1); Snap s; for (unsigned i = 0; i < n; ++i) { s.emplace_back(); for (auto k : L[c.choose(9)]) s.back().push_back(V(k)); } font(c, db, s); }});
    unsigned const M = t.thorough ? 4 : 3;
    fs.push_back({"every-list", "one position with every list of 0.." + std::to_string(M) + " candidates out of 6 (2 words x 3 fonts, repetitions included), three other positions over the 4 lists of at most one candidate", [V, M](Ctx& c){
        unsigned const n = c.choose(M + 1); Snap s(4); for (unsigned i = 0; i < n; ++i) s[1].push_back(V(c.choose(6))); for (unsigned p : {0u, 2u, 3u}) { unsigned k = c.choose(4); if (k) s[p].push_back(V(k - 1)); } font(c, db, s); }});
    unsigned const Q = t.thorough ? 14 : 11;
    fs.push_back({"majority", "every composition of 0.." + std::to_string(Q) + " positions into counts of 3 single fonts, ambiguous and empty positions, in two orders", [V, Q](Ctx& c){
        unsigned k[5]; unsigned tot = 0; for (int i = 0; i < 4; ++i) { k[i] = c.choose(Q + 1 - tot); tot += k[i]; } k[4] = c.choose(3); unsigned const ord = c.choose(2); Snap s;
        for (int i = 0; i < 5; ++i) { int j = ord ? 4 - i : i; for (unsigned m = 0; m < k[j]; ++m) { s.emplace_back(); if (j < 3) s.back() = {V(j + 3 * (m % 2))}; else if (j == 3) s.back() = {V(m % 3), V((m + 1) % 3), V(2)}; } } font(c, db, s); }});
    unsigned const R = t.thorough ? 4 : 3;
    fs.push_back({"ties", "every assignment of 0.." + std::to_string(R - 1) + " single positions to each of 6 fonts, in both orders, with no, one or as many ambiguous positions of all fonts", [R](Ctx& c){
        static Words const F6 = {"p", "q", "r", "s", "t", "u"}; static Db const& d = *new Db({"a"}, F6); auto V = [](unsigned i) { return d.at.at({"a", F6[i]}); }; unsigned n[6], sum = 0; for (auto& x : n) { x = c.choose(R); sum += x; } unsigned const rev = c.choose(2), am = c.choose(3); Snap s;
        for (unsigned i = 0; i < 6; ++i) { unsigned const k = rev ? 5 - i : i; for (unsigned j = 0; j < n[k]; ++j) s.push_back({V(k)}); }
        for (unsigned i = 0; i < (am == 2 ? sum : am); ++i) { s.emplace_back(); for (unsigned k = 0; k < 6; ++k) s.back().push_back(V(5 - (k + i) % 6)); } font(c, d, s); }});
    fs.push_back({"tied-fonts", "every two fonts out of 12, each alone in m positions (m 1..9 and 15..17, 63..65, 127..129, 255..257, 1000), one of them in one more or none, in 3 orders, with no, one or every other font next to them and no or one ambiguous position", [](Ctx& c){
        static Words const F12 = [&]{ Words f; for (char x = 'a'; x < 'm'; ++x) f.push_back(std::string("f") + x); return f; }(); static Db const& d = *new Db({"a"}, F12); auto V = [](unsigned i) { return d.at.at({"a", F12[i]}); };
        static std::vector<unsigned> const M = {1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000};
        unsigned const i = c.choose(11), j = i + 1 + c.choose(11 - i), m = M[c.choose(unsigned(M.size()))], more = c.choose(3), ord = c.choose(3), others = c.choose(3), am = c.choose(2); Snap s; unsigned const a = m + (more == 1), b = m + (more == 2);
        auto put = [&](unsigned k, unsigned n) { for (unsigned x = 0; x < n; ++x) s.push_back({V(k)}); };
        if (ord == 0) { put(i, a); put(j, b); } else if (ord == 1) { put(j, b); put(i, a); } else { unsigned x = a, y = b; while (x || y) { if (y) { put(j, 1); --y; } if (x) { put(i, 1); --x; } } }
        unsigned left = others == 0 ? 0 : others == 1 ? 1 : 10; for (unsigned k = 0; k < 12 && left; ++k) if (k != i && k != j) { put(k, 1); --left; }
        if (am) { std::vector<o2::View const*> all; for (unsigned k = 0; k < 12; ++k) all.push_back(V((k * 5 + i) % 12)); s.insert(s.begin() + s.size() / 2, all); }
        font(c, d, s); }});
    static std::vector<unsigned> const S = {0, 1, 2, 3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000};
    fs.push_back({"counts-scale", "two fonts each of which is alone in one of " + std::to_string(S.size()) + " numbers (0..1000) of positions, next to 0, 1, as many or twice as many ambiguous ones and 0 or 5 empty ones", [V](Ctx& c){
        unsigned const a = S[c.choose(unsigned(S.size()))], b = S[c.choose(unsigned(S.size()))], am = c.choose(4), em = c.choose(2) * 5; unsigned const m = am == 0 ? 0 : am == 1 ? 1 : am == 2 ? std::max(a, b) : a + b; Snap s; for (unsigned i = 0; i < a; ++i) s.push_back({V(1)}); for (unsigned i = 0; i < em; ++i) s.push_back({}); for (unsigned i = 0; i < m; ++i) s.push_back({V(i % 3), V((i + 1) % 3), V(2)}); for (unsigned i = 0; i < b; ++i) s.push_back({V(3)}); font(c, db, s); }});
    fs.push_back({"far-counts", "two fonts each of which is alone in one of 7 numbers (0..131073) of positions, next to 0, 1 or 70000 ambiguous ones", [V](Ctx& c){
        static unsigned const N[] = {0, 3, 65534, 65535, 65536, 65537, 131073}; unsigned const a = N[c.choose(7)], b = N[c.choose(7)], m = c.choose(3); Snap s; for (unsigned i = 0; i < a; ++i) s.push_back({V(1)}); for (unsigned i = 0; i < (m == 2 ? 70000 : m); ++i) s.push_back({V(i % 3), V((i + 1) % 3), V(2)}); for (unsigned i = 0; i < b; ++i) s.push_back({V(3)}); font(c, db, s); }});
    fs.push_back({"fonts-scale", "databases of every number 1..70 and 127..129, 255..257, 1000 of fonts: one of them (first, middle, last, the one before last) alone in most positions or in one, an ambiguous position with every font in 2 orders", [](Ctx& c){
        static unsigned const more[] = {127, 128, 129, 255, 256, 257, 1000}; unsigned const zi = c.choose(77), n = zi < 70 ? zi + 1 : more[zi - 70], who = c.choose(4), most = c.choose(3), rev = c.choose(2); static std::map<unsigned, std::unique_ptr<Db>> dbs; auto& d = dbs[n]; auto f = [](unsigned i) { return "f" + std::to_string(i); }; if (!d) { Words F; for (unsigned i = 0; i < n; ++i) F.push_back(f(i)); d.reset(new Db({"a"}, F)); }
        unsigned const w = who == 0 ? 0 : who == 1 ? n / 2 : who == 2 ? n - 1 : n > 1 ? n - 2 : 0; auto at = [&](unsigned i) { return d->at.at({"a", f(i)}); }; Snap s; if (most == 1) for (unsigned i = 0; i < n; ++i) s.push_back({at(i)}); for (unsigned i = 0; i < (most == 2 ? n + 3 : 1); ++i) s.push_back({at(w)}); s.emplace_back(); for (unsigned i = 0; i < n; ++i) s.back().push_back(at(rev ? n - 1 - i : i)); if (n > 1) s.push_back({at((w + 1) % n), at(w)}); font(c, *d, s); }});
    return fs;
}

// ---------------------------------------------------------------- C27
// the first choice, in the order of the candidates, that spells a word; only the words that begin so far as chosen are looked at further
static bool spelled(std::set<std::string> const& words, std::vector<Words> const& cs, std::string& out)
{
    struct Frame { std::vector<std::string const*> alive; std::size_t next, off; };
    std::vector<Frame> st(1); st[0].next = st[0].off = 0; for (auto& w : words) st[0].alive.push_back(&w);
    while (!st.empty()) {
        std::size_t const i = st.size() - 1; Frame& f = st.back();
        if (i == cs.size()) { for (auto* w : f.alive) if (w->size() == f.off) { out = *w; return true; } st.pop_back(); continue; }
        if (f.next == cs[i].size()) { st.pop_back(); continue; }
        std::string const& x = cs[i][f.next++]; Frame n; n.next = 0; n.off = f.off + x.size();
        for (auto* w : f.alive) if (w->compare(f.off, x.size(), x) == 0) n.alive.push_back(w);
        if (!n.alive.empty()) st.push_back(std::move(n));
    }
    return false;
}
static void assemble(Ctx& c, Db const& db, Snap const& pos, std::vector<unsigned> spaces, Words const& listed)
{
    c.note([&]{ std::string s = "candidates" + show(db.g, pos) + " breaks before"; for (auto x : spaces) s += " " + std::to_string(x); s += " dictionary"; for (auto& w : listed) s += " " + esc(w); return s; });
    { uint64_t h = hs(pos); for (auto x : spaces) h = mix(h, x); for (auto& w : listed) h = mix(h, hash(w)); c.state(h); }
    std::set<std::string> const words(listed.begin(), listed.end());
    static std::string const punct = "!#$%&'()*+,-.:;<=>?[]{}";
    std::string want; unsigned unrec = 0;
    std::set<std::size_t> const breaks(spaces.begin(), spaces.end()); auto brk = [&](std::size_t i) { return i > 0 && i < pos.size() && breaks.count(i); };
    auto single = [&](std::size_t i) { if (pos[i].empty()) return true; auto w = word_of(db.g, *pos[i][0]); return w.size() == 1 && punct.find(w[0]) != std::string::npos; };
    for (std::size_t i = 0; i < pos.size();) {
        if (brk(i)) want += ' ';
        if (single(i)) { if (pos[i].empty()) { want += '?'; ++unrec; } else want += word_of(db.g, *pos[i][0]); ++i; continue; }
        std::size_t e = i + 1; while (e < pos.size() && !brk(e) && !single(e)) ++e;
        std::vector<Words> cs; for (std::size_t k = i; k < e; ++k) { cs.emplace_back(); for (auto* v : pos[k]) cs.back().push_back(word_of(db.g, *v)); }
        std::string w; if (spelled(words, cs, w)) want += w; else for (auto& x : cs) want += x[0];
        i = e;
    }
    Line l; for (auto& p : pos) { l.lists.emplace_back(); for (auto* v : p) l.lists.back().push_back(std::cref(*v)); } l.bind();
    ppocr::spell::Dictionary const dict(listed); spaces.push_back(unsigned(pos.size()));
    std::vector<unsigned> const sp(spaces.begin(), spaces.end());
    std::string got = "left over from before"; unsigned const r = o2::disambiguous_with_dict(l.amb, db.g, dict, sp.cbegin(), got); c.transition();
    c.outcome(mix(hash(got), r));
    c.check(got == want, [&]{ return "the text is '" + esc(got) + "' instead of '" + esc(want) + "'"; });
    c.check(r == unrec, [&]{ return std::to_string(r) + " unrecognised characters reported instead of " + std::to_string(unrec); });
    c.check(l.snapshot() == pos, "assembling the text changes the candidates");
}
static std::vector<Family> c27(Tier t)
{
    std::vector<Family> fs;
    static Words const W = {"a", "b", "\xc3\xa9", ".", "-", "ab", "..", "?", "1", "\xf0\x9f\x98\x80", "!", "[", "\"", "/"};
    static Db const& db = *new Db(W, {"f", "g"});
    auto list = [](std::vector<std::pair<int, int>> const& l) { std::vector<o2::View const*> r; for (auto& p : l) r.push_back(db.at.at({W[p.first], p.second ? "g" : "f"})); return r; };
    static std::vector<std::vector<std::pair<int, int>>> const L = {{}, {{0, 0}}, {{1, 0}, {1, 1}, {0, 0}}, {{3, 0}}, {{0, 1}, {3, 0}}, {{2, 0}, {5, 0}}, {{3, 0}, {1, 0}}, {{6, 0}, {0, 0}}};
    static std::vector<Words> const D = {{}, {"a", "b"}, {"ba", "ab", "aa"}, {"a\xc3\xa9", "\xc3\xa9" "a", "aab", "bb"}, {".", "a.", "..", "ab.a"}, {"aab", "aba", "abab", "baa", "b\xc3\xa9" "a"}};
    unsigned const N = t.thorough ? 5 : 4;
    fs.push_back({"every-line", "every line of 0.." + std::to_string(N) + " positions out of 8 candidate lists (empty, one, several views of a word, punctuation first, punctuation second, two-letter words), every set of word breaks (the margins included), 6 dictionaries", [list, N](Ctx& c){
        unsigned const d = c.choose(6), n = c.choose(N + 1); Snap s; for (unsigned i = 0; i < n; ++i) s.push_back(list(L[c.choose(8)])); std::vector<unsigned> sp; for (unsigned i = 0; i < n; ++i) if (c.choose(2)) sp.push_back(i); assemble(c, db, s, sp, D[d]); }});
    fs.push_back({"punctuation", "every single-byte character first or second in the list of the middle position, breaks around it or not, 3 dictionaries", [](Ctx& c){
        static Db const& all = *new Db([] { Words w; for (int i = 33; i < 127; ++i) w.push_back(std::string(1, char(i))); w.push_back("\xc2\xa7"); w.push_back("\xe2\x80\x99"); return w; }(), {"f"});
        unsigned const k = c.choose(96), where = c.choose(3), sp = c.choose(4), d = c.choose(3); std::string const w = k < 94 ? std::string(1, char(33 + k)) : k == 94 ? "\xc2\xa7" : "\xe2\x80\x99";
        auto V = [&](std::string const& x) { return all.at.at({x, "f"}); }; Snap s = {{V("x"), V("y")}, {V(w)}, {V("z"), V("y")}}; if (where == 1) s[1].push_back(V("y")); if (where == 2) s[1].insert(s[1].begin(), V("y"));
        std::vector<unsigned> b; if (sp & 1) b.push_back(1); if (sp & 2) b.push_back(2); assemble(c, all, s, b, d == 0 ? Words{} : d == 1 ? Words{"y" + w + "y", "y", "y" + w, w + "y"} : Words{"xyz", "yyy", "yy", w}); }});
    unsigned const R = t.thorough ? 9 : 8;
    fs.push_back({"long", "every line of 1.." + std::to_string(R) + " positions over (letter, punctuation, unrecognised), every set of word breaks, a dictionary of pairs and triples", [list, R](Ctx& c){
        unsigned const n = 1 + c.choose(R); static Words const d = {"ba", "aa", "bbb", "aba"}; Snap s; unsigned const lim = n > 7 ? 2 : 3; for (unsigned i = 0; i < n; ++i) { unsigned k = c.choose(lim); s.push_back(list(k == 0 ? L[2] : k == 1 ? L[0] : L[3])); } std::vector<unsigned> sp; for (unsigned i = 1; i < n; ++i) if (c.choose(2)) sp.push_back(i); assemble(c, db, s, sp, d); }});
    fs.push_back({"choices", "two or three positions, each any ordered list of 1..3 candidates out of 4 (repeated words with other fonts included), 4 dictionaries", [list](Ctx& c){
        static std::vector<Words> const ds = {{"aa", "bb"}, {"ab", "ba"}, {"ab\xc3\xa9", "aba", "abb"}, {"abab", "aab"}}; unsigned const d = c.choose(4), n = 2 + c.choose(2); static int const x[] = {0, 1, 2, 5};
        Snap s; for (unsigned i = 0; i < n; ++i) { unsigned m = 1 + c.choose(n == 2 ? 3 : 2); std::vector<std::pair<int, int>> l; for (unsigned k = 0; k < m; ++k) { unsigned v = c.choose(n == 2 ? 8 : 5); l.push_back({x[v % 4], int(v / 4)}); } s.push_back(list(l)); } assemble(c, db, s, {}, ds[d]); }});
    fs.push_back({"word-scale", "a word of every number 1..140 and 255..257, 1000, 5000, 65535..65537, 140000 of positions whose second candidate (first, middle, last position, nowhere or everywhere) makes the only listed word; alone, between words, between punctuation; letters of one or several bytes", [](Ctx& c){
        static unsigned const more[] = {255, 256, 257, 1000, 5000, 65535, 65536, 65537, 140000}; unsigned const zi = c.choose(149), n = zi < 140 ? zi + 1 : more[zi - 140], where = c.choose(5), around = c.choose(3), wide = c.choose(2), shorter = c.choose(2); auto V = [&](unsigned k) { return db.at.at({W[k], "f"}); }; unsigned const A = 0, B = wide ? 2 : 1; Snap s; std::vector<unsigned> sp; std::string w; unsigned const off = around ? 2 : 0; if (around == 1) { s.push_back({V(1)}); s.push_back({V(1)}); sp.push_back(2); } else if (around == 2) { s.push_back({V(1)}); s.push_back({V(3)}); }
        for (unsigned i = 0; i < n; ++i) { bool const alt = where == 4 || (where == 0 && i == 0) || (where == 1 && i == n / 2) || (where == 2 && i == n - 1); s.push_back({V(A)}); if (alt) s.back().push_back(V(B)); w += W[alt ? B : A]; } if (around == 1) { sp.push_back(n + off); s.push_back({V(B)}); } else if (around == 2) s.push_back({V(4), V(B)});
        Words d = {"b", "bb", w}; if (shorter && n > 1) d.push_back(w.substr(0, w.size() - 2)); if (where == 3) d[2] += "b"; if (n > 20 && where == 4 && !(n % 2)) d[2] += "a"; if (where == 4 && n > 20 && d[2] != w) return; assemble(c, db, s, sp, d); }});
    fs.push_back({"line-scale", "lines of every number 1..140 and 255..257, 1000, 5000, 65535..65537, 70000, 450000 of positions over letters, punctuation and unrecognised ones in 4 patterns, a break before every k-th position (k = 1 2 3 7, none)", [list](Ctx& c){
        static unsigned const more[] = {255, 256, 257, 1000, 5000, 65535, 65536, 65537, 70000, 450000}; unsigned const zi = c.choose(150), n = zi < 140 ? zi + 1 : more[zi - 140], m = c.choose(4), kk = c.choose(5); static unsigned const ks[] = {1, 2, 3, 7, 0}; static Words const d = {"ba", "aa", "bbb", "aba"}; Snap s; std::vector<unsigned> sp; for (unsigned i = 0; i < n; ++i) { unsigned const x = (i * (m + 1) + i / 5) % 6; s.push_back(list(x < 2 ? L[1] : x < 4 && i % 4 == 0 ? L[2] : x == 4 ? L[3] : m % 2 && x == 5 ? L[0] : L[1])); if (i && ks[kk] && i % ks[kk] == 0) sp.push_back(i); } assemble(c, db, s, sp, d); }});
    fs.push_back({"candidates-scale", "a word of 1..3 positions with every number 1..40 or 64 100 255 256 257 of candidates each (3 positions: up to 12) of which one, the first, middle or last at each place, is the only listed word, or none; words sharing first letters", [](Ctx& c){
        static unsigned const more[] = {64, 100, 255, 256, 257}; unsigned const len = 1 + c.choose(3), zi = c.choose(45), n = zi < 40 ? zi + 1 : more[zi - 40]; if (len == 3 && n > 12) return; unsigned const at = c.choose(27), none = c.choose(2); if ((len == 1 && at >= 3) || (len == 2 && at >= 9)) return; static Words const all = [] { Words w; for (unsigned i = 0; i < 257; ++i) w.push_back(std::string(1, char('a' + i % 26)) + (i >= 26 ? std::to_string(i) : "")); return w; }(); static Db const& many = *new Db(all, {"f"}); Snap s; std::string w; unsigned a = at; for (unsigned p = 0; p < len; ++p) { s.emplace_back(); for (unsigned i = 0; i < n; ++i) s.back().push_back(many.at.at({all[i], "f"})); unsigned k = a % 3; a /= 3; w += all[k == 0 ? 0 : k == 1 ? n / 2 : n - 1]; } assemble(c, many, s, {}, {none ? w + "!" : w, "zzzz", "a", "aaaa"}); }});
    fs.push_back({"dictionary-scale", "a word of two positions of 3 candidates among dictionaries of every number 1..70, 255..257, 1000, 5000 of words of 3 kinds that hold one of its spellings or none", [](Ctx& c){
        static unsigned const more[] = {255, 256, 257, 1000, 5000}; unsigned const zi = c.choose(75), n = zi < 70 ? zi + 1 : more[zi - 70], kind = c.choose(3), which = c.choose(5); static Words const sp = {"", "aa", "b\xc3\xa9", "\xc3\xa9" "b", "ab"}; Words d; for (unsigned i = 0; i < n; ++i) { std::string x; for (unsigned m = i + 1; m; m /= 4) x += "ab\xc3\xa9z"[m % 4]; if (kind == 1) x = std::to_string(i); if (kind == 2) x = "ab" + std::to_string(i * 7919ull % n) ; std::string ok; for (char ch : x) if (!(ch & 0x80)) ok += ch; else ok += ch == '\xc3' ? "\xc3\xa9" : "z"; if (ok.size() <= 4) ok += "zz"; d.push_back(ok); } if (which) d[n / 2] = sp[which];
        auto V = [&](unsigned k) { return db.at.at({W[k], "f"}); }; assemble(c, db, {{V(0), V(1), V(2)}, {V(1), V(0), V(2)}}, {}, d); }});
    return fs;
}

// ---------------------------------------------------------------- C28
static std::string rewrite(std::string const& s, std::string const& p, std::string const& r)
{
    std::string o; std::size_t i = 0;
    while (i < s.size()) { if (s.compare(i, p.size(), p) == 0) { o += r; i += p.size(); } else o += s[i++]; }
    return o;
}
struct Rule { std::string p, r; };
static void rules_apply(Ctx& c, std::vector<Rule> const& rules, std::string const& text)
{
    c.note([&]{ std::string s = "rules"; for (auto& r : rules) s += " '" + esc(r.p) + "'->'" + esc(r.r) + "'"; return s + " text '" + esc(text) + "'"; });
    { uint64_t h = hash(text); for (auto& r : rules) h = mix(mix(h, hash(r.p)), hash(r.r)); c.state(h); }
    std::string want = text; for (auto& r : rules) want = rewrite(want, r.p, r.r);
    o2::Replacements rep; for (auto& r : rules) rep.push_back({r.p, r.r});
    std::string got = text; o2::replace_words(got, rep); c.transition();
    c.outcome(got);
    c.check(got == want, [&]{ return "'" + esc(text) + "' becomes '" + esc(got) + "' instead of '" + esc(want) + "'"; });
}
static void rules_file(Ctx& c, std::vector<Rule> const& rules, std::string const& file)
{
    c.note([&]{ return "rule file '" + esc(file) + "'"; });
    c.state(file);
    o2::Replacements rep; std::istringstream is(file); is >> rep; c.transition();
    auto same = [&](o2::Replacements const& x, char const* how) {
        c.check(x.size() == rules.size(), [&]{ return std::string(how) + ": " + std::to_string(x.size()) + " rules read from '" + esc(file) + "'"; });
        for (std::size_t i = 0; i < rules.size(); ++i) c.check(x[i].pattern == rules[i].p && x[i].replace == rules[i].r, [&]{ return std::string(how) + ": rule " + std::to_string(i) + " of '" + esc(brief(file)) + "' is '" + esc(x[i].pattern) + "'->'" + esc(x[i].replace) + "'"; });
    };
    same(rep, "stream");
    std::string const f = scratch("rules"); spit(f, file);
    try { errno = 0; same(ppocr::utils::load_from_file<o2::Replacements>(f.c_str()), "file"); } catch (std::exception const& e) { c.fail(std::string("a complete rule file is refused: ") + e.what()); }
    c.transition(); uint64_t h = rules.size(); for (auto& r : rules) h = mix(mix(h, hash(r.p)), hash(r.r)); c.outcome(h);
}
static Words texts(Words const& a, unsigned n) { Words r = {""}; std::size_t b = 0; for (unsigned l = 0; l < n; ++l) { std::size_t e = r.size(); for (std::size_t i = b; i < e; ++i) for (auto& x : a) r.push_back(r[i] + x); b = e; } return r; }
static std::vector<Family> c28(Tier t)
{
    std::vector<Family> fs;
    static Words const A3 = texts({"a", "b"}, 3); unsigned const L = t.thorough ? 12 : 9; static Words const T = texts({"a", "b"}, L), T5 = texts({"a", "b"}, 5), T6 = texts({"a", "b", "c"}, 6);
    fs.push_back({"every-rule", "every pattern of 1..3 letters and replacement of 0..3 letters over {a b}, every text of at most " + std::to_string(L) + " letters", [](Ctx& c){
        Rule r; r.p = A3[1 + c.choose(14)]; r.r = A3[c.choose(15)]; unsigned k = c.choose(64); for (std::size_t i = k; i < T.size(); i += 64) rules_apply(c, {r}, T[i]); }});
    fs.push_back({"two-rules", "every ordered pair of rules with patterns of 1..2 letters and replacements of 0..2, every text of at most 5 letters", [](Ctx& c){
        std::vector<Rule> r(2); for (auto& x : r) { x.p = A3[1 + c.choose(6)]; x.r = A3[c.choose(7)]; } for (auto& s : T5) rules_apply(c, r, s); }});
    fs.push_back({"three-letters", "patterns out of 8 over {a b c} with replacements containing them, every text of at most 6 letters over {a b c}", [](Ctx& c){
        static Rule const R[] = {{"a", "aa"}, {"ab", "aab"}, {"abc", "cabcb"}, {"aa", "a"}, {"aba", "ab"}, {"cc", ""}, {"b", "cbc"}, {"abab", "ba"}}; std::vector<Rule> r = {R[c.choose(8)]}; if (unsigned k = c.choose(9)) r.push_back(R[k - 1]); for (auto& s : T6) rules_apply(c, r, s); }});
    fs.push_back({"utf8-and-long", "multi-byte rules; texts of 0..300 repeated characters", [](Ctx& c){
        static Rule const R[] = {{"\xc3\xa9", "e"}, {"e", "\xc3\xa9"}, {"rn", "m"}, {"\xc3\xa9\xc3\xa9", "\xc3\xa9"}, {"e", "eeee"}, {"...", "\xe2\x80\xa6"}}; Rule const& r = R[c.choose(6)]; unsigned const n = c.choose(301), k = c.choose(4); static char const* u[] = {"\xc3\xa9", "e", "rn.", "..."}; std::string s; for (unsigned i = 0; i < n; ++i) s += u[k]; rules_apply(c, {r}, s); }});
    unsigned const N = t.thorough ? 5 : 4;
    fs.push_back({"files", "every file of 0.." + std::to_string(N) + " lines out of 7 (with and without replacement, several blanks or a tab between, multi-byte, one blank line), with and without final newline", [N](Ctx& c){
        static std::pair<Rule, std::string> const S[] = {{{"a", "b"}, "a b"}, {{"ab", ""}, "ab"}, {{"\xc3\xa9", "e"}, "\xc3\xa9   e"}, {{"x", "yy"}, "x\tyy"}, {{"", ""}, ""}, {{"rn", "m"}, "  rn m"}, {{"->", "->"}, "-> ->"}};
        unsigned const n = c.choose(N + 1), end = c.choose(2); std::vector<Rule> r; std::string f; for (unsigned i = 0; i < n; ++i) { auto& x = S[c.choose(7)]; if (!x.first.p.empty()) r.push_back(x.first); f += x.second; if (i + 1 < n || !end) f += "\n"; } rules_file(c, r, f); }});
    fs.push_back({"text-scale", "texts of 511..513, 1000, 4095..4097, 10000, 65535..65537 and 70000 bytes where the pattern of one of 5 rules is everywhere, once (first, middle, last) or cut at the end", [](Ctx& c){
        static unsigned const N[] = {511, 512, 513, 1000, 4095, 4096, 4097, 10000, 65535, 65536, 65537, 70000}; static Rule const R[] = {{"ab", "x"}, {"ab", "abab"}, {"ab", ""}, {"abc", "q"}, {"a", "aa"}}; unsigned const n = N[c.choose(12)], how = c.choose(5); Rule const& r = R[c.choose(5)]; std::string s; if (how == 0) while (s.size() < n) s += r.p; else { s.assign(n, 'z'); if (how == 1) s.replace(0, r.p.size(), r.p); else if (how == 2) s.replace(n / 2, r.p.size(), r.p); else if (how == 3) s.replace(n - r.p.size(), r.p.size(), r.p); else s.back() = 'a'; } s.resize(n); rules_apply(c, {r}, s); }});
    fs.push_back({"pattern-scale", "patterns and replacements of 1..70, 255..257 and 1000 bytes (every pair): in a text of the pattern, of all but its last byte, twice, between letters", [](Ctx& c){
        auto len = [&] { unsigned k = c.choose(74); return k < 70 ? k + 1 : k == 73 ? 1000u : 185 + k; }; unsigned const p = len(), r = len(); auto mk = [](unsigned n, char a) { std::string s; for (unsigned i = 0; i < n; ++i) s += char(a + i % 5 * (i / 5 % 3 + 1)); return s; }; Rule x{mk(p, 'a'), mk(r, 'b')}; for (auto& s : {x.p, x.p.substr(1), x.p.substr(0, p - 1), x.p + x.p, "z" + x.p + "z" + x.p, x.p.substr(0, p - 1) + x.p, x.r}) rules_apply(c, {x}, s); }});
    fs.push_back({"far-pattern-scale", "patterns and replacements of 1, 3, 1023..1025, 4095..4097, 65534..65537 and 70000 bytes (every pair): in a text of the pattern twice, between letters, and where the outcome holds the pattern again; text and file", [](Ctx& c){
        static unsigned const N[] = {1, 3, 1023, 1024, 1025, 4095, 4096, 4097, 65534, 65535, 65536, 65537, 70000}; unsigned const p = N[c.choose(13)], r = N[c.choose(13)], how = c.choose(3); auto mk = [](unsigned n, char a) { std::string s; for (unsigned i = 0; i < n; ++i) s += char(a + i % 5 + i / 5 % 3 * 5); return s; }; Rule x{mk(p, 'a'), mk(r, how == 2 ? 'a' : 'b')};
        std::string const t = how == 0 ? x.p + x.p : "z" + x.p + "z" + x.p.substr(0, p - 1) + x.p + "zz" + x.p; rules_apply(c, {x}, t); rules_apply(c, {x, {"z", "y"}}, t); rules_file(c, {x, {"z", "y"}}, x.p + " " + x.r + "\nz y\n"); }});
    fs.push_back({"very-many-rules", "4095..4097, 10000, 65534..65537 and 70000 rules of which the first, a middle one and the last act on the text, each rewriting or not the outcome of the one before: text and file", [](Ctx& c){
        static unsigned const N[] = {1001, 4095, 4096, 4097, 10000, 65534, 65535, 65536, 65537, 70000}; unsigned const n = N[c.choose(10)]; bool const linked = c.choose(2); std::vector<Rule> r; std::string f; for (unsigned i = 0; i < n; ++i) { r.push_back(i == 0 ? Rule{"a", linked ? "b" : "x"} : i == n / 2 ? Rule{"b", linked ? "c" : "y"} : i == n - 1 ? Rule{"c", "z"} : Rule{"<" + std::to_string(i) + ">", "-"}); f += r.back().p + " " + r.back().r + "\n"; } rules_apply(c, r, "a<1>b<" + std::to_string(n - 2) + ">ca"); rules_file(c, r, f); }});
    fs.push_back({"rules-scale", "every number 1..140 and 255..257, 1000 of rules that each rewrite the outcome of the one before (or of the one after, or other letters): text and file", [](Ctx& c){
        unsigned const zi = c.choose(144), n = zi < 140 ? zi + 1 : zi == 143 ? 1000 : 115 + zi, how = c.choose(3); std::vector<Rule> r; std::string f; for (unsigned i = 0; i < n; ++i) { unsigned const k = how == 1 ? n - 1 - i : i; r.push_back({"<" + std::to_string(k) + ">", how == 2 ? std::to_string(i) : "<" + std::to_string(k + 1) + ">"}); f += r.back().p + " " + r.back().r + "\n"; } rules_apply(c, r, "<0> <" + std::to_string(n / 2) + "><" + std::to_string(n - 1) + ">"); rules_file(c, r, f); }});
    return fs;
}

// ---------------------------------------------------------------- C29
struct Entry { std::string word; unsigned a, cap, m, b; };
static std::string file_of(std::vector<Entry> const& es, std::size_t n) { std::string s; for (std::size_t i = 0; i < n; ++i) { auto& e = es[i]; s += e.word + " " + std::to_string(e.a) + " " + std::to_string(e.cap) + " " + std::to_string(e.m) + " " + std::to_string(e.b) + "\n"; } return s; }
static std::string file_of(std::vector<Entry> const& es) { return file_of(es, es.size()); }
// every view of the glyphs has the classes of one of the entries of its word (of the only one when it is listed once)
static void classes(Ctx& c, o2::Glyphs const& g, o2::WordsInfos const& wi, std::vector<Entry> const& es, std::string const& what)
{
    uint64_t o = 1;
    std::multimap<std::string_view, Entry const*> by; for (auto& e : es) by.emplace(e.word, &e);
    for (auto& vs : g) for (auto& v : vs) {
        std::string const w = word_of(g, v); auto p = wi.get(v.word); c.transition();
        bool listed = false, match = false;
        for (auto r = by.equal_range(w); r.first != r.second; ++r.first) if (w.size() <= 8) { auto& e = *r.first->second; listed = true; match |= p && p->lines.ascentline == e.a && p->lines.capline == e.cap && p->lines.meanline == e.m && p->lines.baseline == e.b; }
        c.check((p != nullptr) == listed, [&]{ return "the word '" + esc(brief(w)) + (p ? "' has classes although it is not listed" : "' has no classes although it is listed") + what; });
        c.check(!p || match, [&]{ return "the word '" + esc(brief(w)) + "' has classes " + std::to_string(p->lines.ascentline) + " " + std::to_string(p->lines.capline) + " " + std::to_string(p->lines.meanline) + " " + std::to_string(p->lines.baseline) + " which are not its own" + what; });
        o = mix(o, p ? p->lines.ascentline * 512u + p->lines.capline * 64 + p->lines.meanline * 8 + p->lines.baseline : 9999);
    }
    c.check(wi.get(o2::Glyphs::no_index) == nullptr, "a word that is in no glyph has classes");
    c.outcome(o);
}
static void word_lines(Ctx& c, o2::Glyphs const& g, std::vector<Entry> const& es, std::string const& file, std::size_t complete, bool clean)
{
    c.note([&]{ return "word lines '" + esc(brief(file)) + "'"; });
    c.state(mix(hash(file), g.size()));
    std::vector<Entry> lead(es.begin(), es.begin() + long(complete));
    o2::WWordsLines l; std::istringstream is(file); is >> l; c.transition();
    c.check(is.eof() == clean && !is.bad(), [&]{ return std::string(clean ? "the reader does not reach the end of '" : "the reader does not report the malformed '") + esc(brief(file)) + "'"; });
    classes(c, g, o2::WordsInfos(g, l), lead, " in '" + esc(brief(file)) + "'");
    std::string const f = scratch("wl"); spit(f, file); errno = 0; bool threw = false;
    try { auto const l2 = ppocr::utils::load_from_file<o2::WWordsLines>(f.c_str()); if (clean) classes(c, g, o2::WordsInfos(g, l2), lead, " in the file '" + esc(brief(file)) + "'"); } catch (std::exception const&) { threw = true; }
    c.transition(); c.check(threw == !clean, [&]{ return std::string(threw ? "a well formed file is refused: '" : "a malformed file is accepted: '") + esc(brief(file)) + "'"; });
}
static std::vector<Family> c29(Tier t)
{
    std::vector<Family> fs;
    static Words const W = {"a", "ab", "abc", "b", "\xc3\xa9", "12345678", "1234567", "\xf0\x9f\x98\x80" "abcd", "A", "123456789", "-"};
    static Db const& db = *new Db(W, {"f", "g"});
    unsigned const N = t.thorough ? 5 : 4;
    fs.push_back({"every-list", "every sequence of 0.." + std::to_string(N) + " entries out of 10 words (prefixes of one another, one to eight bytes, nine bytes, absent from the glyphs), looked up for every word of the database", [N](Ctx& c){
        static Words const E = {"a", "ab", "abcd", "b", "\xc3\xa9", "12345678", "1234567", "\xc3", "123456789", "aa"}; unsigned const n = c.choose(N + 1); std::vector<Entry> es; for (unsigned i = 0; i < n; ++i) es.push_back({E[c.choose(10)], (i * 3 + 1) % 8, (i + 2) % 8, (i * 5 + 4) % 8, (7 - i) % 8}); word_lines(c, db.g, es, file_of(es), es.size(), true); }});
    fs.push_back({"every-value", "every combination of the four classes 0..7 (4096) of one word between two others", [](Ctx& c){ unsigned v = c.choose(64), w = c.choose(64); std::vector<Entry> es = {{"a", 1, 2, 3, 4}, {"ab", v / 8, v % 8, w / 8, w % 8}, {"b", 7, 6, 5, 4}}; word_lines(c, db.g, es, file_of(es), 3, true); }});
    static auto const LW = scale(70000);
    fs.push_back({"long-words", "a word of n bytes (n on the scale up to " + std::to_string(LW.back()) + ") before, between or after two listed words, all of its bytes new or the first eight those of a word of the database", [](Ctx& c){
        unsigned const n = c.pick(LW), at = c.choose(3), known = c.choose(2); std::string w; for (unsigned i = 0; i < n; ++i) w += known && i < 8 ? "12345678"[i] : char('q' + i % 7); std::vector<Entry> es = {{"ab", 1, 2, 3, 4}, {"12345678", 4, 3, 2, 1}}; es.insert(es.begin() + at, Entry{w, 7, 6, 5, 3}); if (known && n <= 8) return; word_lines(c, db.g, es, file_of(es), 3, true); }});
    fs.push_back({"orders", "every permutation of 6 distinct entries", [](Ctx& c){ std::vector<Entry> all; for (unsigned i = 0; i < 6; ++i) all.push_back({W[i], i, i + 1, i + 2, 7 - i}); std::vector<Entry> es; while (!all.empty()) { unsigned k = c.choose(unsigned(all.size())); es.push_back(all[k]); all.erase(all.begin() + k); } word_lines(c, db.g, es, file_of(es), 6, true); }});
    fs.push_back({"malformed", "1..4 entries, one of them broken in one of 14 ways (missing, extra or non-numeric value, value out of range, negative), followed or not by complete entries", [](Ctx& c){
        unsigned const n = 1 + c.choose(4), at = c.choose(n), how = c.choose(14); std::vector<Entry> es; for (unsigned i = 0; i < n; ++i) es.push_back({W[i], 1 + i, 2, 4, 7 - i}); std::string s = file_of(es, at); auto& e = es[at];
        std::string v[4] = {std::to_string(e.a), std::to_string(e.cap), std::to_string(e.m), std::to_string(e.b)};
        if (how < 4) v[how] = "x"; else if (how < 8) v[how - 4] = "8"; else if (how < 10) v[how - 8] = "-1"; else if (how == 10) v[2] = "99999999999999999999"; else if (how == 11) v[3] = "q 3"; else if (how == 12) v[0] = "1.5"; else v[1] = "12";
        s += e.word; for (auto& x : v) s += " " + x; s += "\n"; for (unsigned i = at + 1; i < n; ++i) s += file_of({es[i]});
        word_lines(c, db.g, es, s, at, false); }});
    fs.push_back({"cut", "a file of 1..5 entries cut after every byte: exactly the complete leading entries", [](Ctx& c){
        unsigned const n = 1 + c.choose(5); std::vector<Entry> es; for (unsigned i = 0; i < n; ++i) es.push_back({W[(i * 2) % 7], 1 + i, 2, 4, 7 - i}); std::string const f = file_of(es); unsigned const cut = c.choose(unsigned(f.size()) + 1); std::size_t k = 0; while (k < n && file_of(es, k + 1).size() <= cut + 1) ++k; word_lines(c, db.g, es, f.substr(0, cut), k, true); }});
    fs.push_back({"many-words", "databases of 1..200 words and files listing every k-th of them in three orders", [](Ctx& c){
        static unsigned const ns[] = {1, 2, 3, 5, 17, 60, 200}; unsigned const n = ns[c.choose(7)], k = 1 + c.choose(4), ord = c.choose(3); Words w; for (unsigned i = 0; i < n; ++i) { std::string x; for (unsigned m = i * 37 % 1000 + 1; m; m /= 5) x += "abc\xc3\xa9"[m % 3] ; x += std::to_string(i); w.push_back(x.substr(0, 8)); }
        Db const d(w, {"f"}); std::vector<Entry> es; for (unsigned i = 0; i < n; ++i) { unsigned j = ord == 0 ? i : ord == 1 ? n - 1 - i : (i * 7 + 3) % n; if (j % k == 0) { bool dup = false; for (auto& e : es) dup |= e.word == w[j]; if (!dup) es.push_back({w[j], j % 8, (j + 1) % 8, j / 8 % 8, j / 3 % 8}); } } word_lines(c, d.g, es, file_of(es), es.size(), true); }});
    static std::vector<unsigned> const big = t.thorough ? std::vector<unsigned>{255, 256, 257, 511, 512, 513, 1000, 2000, 5000} : std::vector<unsigned>{255, 256, 257, 1000, 2000};
    fs.push_back({"size-scale", "files of every number 1..140 and " + std::to_string(big.size()) + " numbers of 255.." + std::to_string(big.back()) + " of entries (words of 1..8 bytes with common beginnings) in 4 orders, for a database of all, every other or a third of the words and of words that are not listed", [](Ctx& c){
        unsigned const zi = c.choose(unsigned(140 + big.size())), n = zi < 140 ? zi + 1 : big[zi - 140], ord = c.choose(4), part = 1 + c.choose(3); auto word = [](unsigned i) { std::string x; for (unsigned m = i + 1; m; m = (m - 1) / 3) x += "ab9"[(m - 1) % 3]; return x; }; std::vector<Entry> es; for (unsigned i = 0; i < n; ++i) { unsigned const j = ord == 0 ? i : ord == 1 ? n - 1 - i : ord == 2 ? (i % 2 ? n - 1 - i / 2 : i / 2) : unsigned(i * 7919ull % n); es.push_back({word(j), j % 8, (j + 1) % 8, j / 8 % 8, j / 3 % 8}); }
        Words w; for (unsigned i = 0; i < n; i += part) w.push_back(word(i)); w.push_back("absent"); w.push_back("zz"); w.push_back("A"); static std::map<std::pair<unsigned, unsigned>, std::unique_ptr<Db>> dbs; auto& d = dbs[{n, part}]; if (!d) d.reset(new Db(w, {"f"})); word_lines(c, d->g, es, file_of(es), es.size(), true); }});
    fs.push_back({"far-words", "fifteen words 32..1048576 (8 distances) places apart in the database (one of them is that long), every set of up to three and every set of all but up to two listed, in 2 orders", [](Ctx& c){
        auto const& far = far_words(c.choose(8)); unsigned const x = c.choose(15), y = c.choose(15), z = c.choose(3) ? x : 14, all = c.choose(2), ord = c.choose(2); std::vector<Entry> es; for (unsigned i = 0; i < 15; ++i) { unsigned const j = ord ? 14 - i : i; bool const in = (j == x || j == y || j == z) != bool(all); if (in && j != 7) es.push_back({far.words[j], j % 8, j / 8 + 2, (j + 5) % 8, (j * 3) % 8}); }
        word_lines(c, far.db->g, es, file_of(es), es.size(), true); }});
    fs.push_back({"very-many-entries", "files of 65534..65538 and 70000 entries, some of them words of the database (first, last, around the 32768th, 65536th)", [](Ctx& c){
        static unsigned const N[] = {32769, 65534, 65535, 65536, 65537, 65538, 70000}; unsigned const n = N[c.choose(7)]; auto word64 = [](unsigned i) { return std::string{char('0' + i / 3600 % 60), char('0' + i / 60 % 60), char('0' + i % 60)}; };
        static Db const& d = *new Db([&]{ Words w; for (unsigned i : {0u, 1u, 255u, 256u, 4464u, 32766u, 32767u, 32768u, 32769u, 65533u, 65534u, 65535u, 65536u, 65537u, 69999u}) w.push_back(word64(i)); w.push_back("x"); return w; }(), {"f"});
        std::vector<Entry> es; for (unsigned i = 0; i < n; ++i) es.push_back({word64(i), i % 8, i / 8 % 8, i / 64 % 8, i / 4096 % 8}); word_lines(c, d.g, es, file_of(es), es.size(), true); }});
    fs.push_back({"repeats-scale", "files that list one word 2..140 times, 255..257 times between two others, with the same classes each time", [](Ctx& c){ unsigned const zi = c.choose(142), n = zi < 139 ? zi + 2 : 116 + zi, where = c.choose(3); std::vector<Entry> es(n, Entry{"ab", 1, 2, 3, 4}); if (where != 0) es.insert(es.begin(), Entry{"b", 5, 6, 7, 0}); if (where == 2) es.insert(es.begin() + n / 2, Entry{"a", 7, 7, 0, 0}); word_lines(c, db.g, es, file_of(es), es.size(), true); }});
    fs.push_back({"shipped", "each shipped word-lines file with the shipped latin glyphs: every view", [](Ctx& c){
        static char const* names[] = {"latin", "cyrillic", "latin-cyrillic"}; unsigned const k = c.choose(3); std::string const s = slurp(repo_dir() + "/resources/words_lines-" + names[k] + ".txt"); std::vector<Entry> es; { std::istringstream is(s); Entry e; while (is >> e.word >> e.a >> e.cap >> e.m >> e.b) es.push_back(e); }
        c.check(!es.empty(), "the shipped file is empty"); o2::Glyphs g; std::istringstream is(slurp(repo_dir() + "/resources/glyphs/normalized-glyphs-latin.txt")); is >> g; word_lines(c, g, es, s, es.size(), true); }, 0, 1});
    return fs;
}
static std::vector<Family> families(Tier t)
{
    (void)c25; (void)c26; (void)c27; (void)c28; (void)c29;
#if PROP == 25
    return c25(t);
#elif PROP == 26
    return c26(t);
#elif PROP == 27
    return c27(t);
#elif PROP == 28
    return c28(t);
#else
    return c29(t);
#endif
}
MC_MAIN(families)
