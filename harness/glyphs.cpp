// C14: glyph files survive a save and reload, for both readers; C15: the recogniser keeps every word exactly.
#include "img.hpp"
#include "ppocr/loader2/glyphs_loader.hpp"
#include "ppocr/ocr2/glyphs.hpp"
#include "ppocr/utils/read_file.hpp"
#include <sstream>
#include <map>
#include <set>
using namespace mc;
namespace l2 = ppocr::loader2;
namespace o2 = ppocr::ocr2;

struct V { std::string word, font; unsigned info; };
struct G { Pic pic; std::vector<V> views; };
static std::string text(std::vector<G> const& gs)       // the file format, written independently
{
    std::string s;
    for (auto& g : gs) {
        s += std::to_string(g.pic.w) + " " + std::to_string(g.pic.h) + " " + g.pic.p + "\n" + std::to_string(g.views.size()) + "\n";
        for (auto& v : g.views) s += v.word + " " + v.font + " " + std::to_string(v.info) + "\n";
    }
    return s;
}
static l2::Glyphs real(std::vector<G> const& gs)
{
    l2::Glyphs r;
    for (auto& g : gs) { l2::Views vs; for (auto& v : g.views) vs.push_back({v.word, v.font, v.info}); r.push_back({to_image(g.pic), vs}); }
    return r;
}
static bool same_views(l2::Views const& a, std::vector<V> const& b)
{
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < b.size(); ++i) if (a[i].word != b[i].word || a[i].font != b[i].font || a[i].info_line != b[i].info) return false;
    return true;
}
static void same(Ctx& c, l2::Glyphs const& got, std::vector<G> const& want, std::size_t n, char const* how)
{
    c.check(got.size() == n, [&]{ return std::string(how) + ": " + std::to_string(got.size()) + " glyphs, expected " + std::to_string(n); });
    for (std::size_t i = 0; i < n; ++i) {
        c.check(from_image(got[i].img) == want[i].pic, [&]{ return std::string(how) + ": glyph " + std::to_string(i) + " has picture " + from_image(got[i].img).str() + " instead of " + want[i].pic.str(); });
        c.check(same_views(got[i].views, want[i].views), [&]{ std::string t = std::string(how) + ": glyph " + std::to_string(i) + " has views"; for (auto& v : got[i].views) t += " [" + v.word + " " + v.font + " " + std::to_string(v.info_line) + "]"; return t; });
    }
    c.transition(n + 1);
}
static std::string word_of(o2::Glyphs const& g, o2::View const& v) { auto& w = g.get_word(v); return std::string(w.begin(), w.end()); }
// words equal; fonts equal exactly where the file has the same font
static void same(Ctx& c, o2::Glyphs const& got, std::vector<G> const& want, std::size_t n, char const* how)
{
    c.check(got.size() == n, [&]{ return std::string(how) + ": the recogniser sees " + std::to_string(got.size()) + " glyphs, expected " + std::to_string(n); });
    std::map<std::string, unsigned> font; std::map<unsigned, std::string> inv; std::map<std::string, unsigned> wid;
    for (std::size_t i = 0; i < n; ++i) {
        c.check(got[i].size() == want[i].views.size(), [&]{ return std::string(how) + ": the recogniser sees " + std::to_string(got[i].size()) + " views of glyph " + std::to_string(i); });
        for (std::size_t k = 0; k < want[i].views.size(); ++k) {
            auto& w = want[i].views[k]; auto& v = got[i][k]; auto& s = got.get_word(v);
            c.check(s.size() == w.word.size() && word_of(got, v) == w.word && (w.word.empty() || s.front() == w.word[0]), [&]{ return std::string(how) + ": word of view " + std::to_string(k) + " of glyph " + std::to_string(i) + " is '" + word_of(got, v) + "' instead of '" + w.word + "'"; });
            auto a = font.emplace(w.font, v.font); auto b = inv.emplace(v.font, w.font);
            c.check(a.first->second == v.font && b.first->second == w.font, [&]{ return std::string(how) + ": font identity of view " + std::to_string(k) + " of glyph " + std::to_string(i) + " ('" + w.font + "') is not the file's"; });
            auto d = wid.emplace(w.word, v.word);
            c.check(d.first->second == v.word, [&]{ return std::string(how) + ": the same word '" + w.word + "' has two identities"; });
        }
    }
    std::set<unsigned> ids; for (auto& p : wid) ids.insert(p.second);
    c.check(ids.size() == wid.size(), "two different words have the same identity");
    c.transition(n + 1);
}
static std::string esc(std::string const& s) { return s.size() > 600 ? s.substr(0, 600) + "..." : s; }

#if PROP == 14
static std::vector<Pic> const& pics()
{
    static std::vector<Pic> const v = {Pic(1, 1, "x"), Pic(3, 2, "x-xx--"), motif(2, 5, 7), Pic(1, 1, "-"), motif(4, 12, 3), motif(13, 10, 11), Pic(2, 3, "xx-x-x"), motif(0, 100, 1)};
    return v;
}
static std::vector<V> const& views()
{
    static std::vector<V> const v = {{"a", "f", 0}, {"a", "f", ~0u}, {"\xc3\xa9", "g", 7}, {"5", "12", 3}, {"\xf0\x9f\x98\x80", "f", 10}, {"x-x", "a_very_long_font_name_0123456789", 4294967295u},
        {"a_word_longer_than_any_small_buffer_0123456789", "g", 1}, {"-", "-", 0}, {"10", "2", 2}};
    return v;
}
static void round_trip(Ctx& c, std::vector<G> const& gs)
{
    std::string const want = text(gs);
    c.note([&]{ return "glyph file:\n" + esc(want); });
    c.state(want);
    auto const g = real(gs);
    std::ostringstream os; os << g;
    c.check(os.str() == want, [&]{ return "the file written is\n" + esc(os.str()) + "instead of\n" + esc(want); });
    c.outcome(os.str());
    l2::Glyphs r; std::istringstream is(os.str()); is >> r;
    same(c, r, gs, gs.size(), "after a reload");
    c.check(is.eof() && !is.bad(), "reading a complete file does not end at its end");
    for (std::size_t i = 0; i < gs.size(); ++i) c.check(r[i] == g[i], "a reloaded glyph is not equal to the original");
    std::ostringstream os2; os2 << r; c.check(os2.str() == want, "writing the reloaded glyphs gives other bytes");
    o2::Glyphs q; std::istringstream is2(os.str()); is2 >> q;
    same(c, q, gs, gs.size(), "in the recogniser");
    c.check(is2.eof() && !is2.bad(), "the recogniser does not read a complete file to its end");
    std::string const f = std::string(getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp") + "/g-" + std::to_string(getpid());
    spit(f, want);
    try {
        errno = 0;
        same(c, ppocr::utils::load_from_file<l2::Glyphs>(f.c_str()), gs, gs.size(), "loading the file");
        same(c, ppocr::utils::load_from_file<o2::Glyphs>(f.c_str()), gs, gs.size(), "loading the file in the recogniser");
    } catch (std::runtime_error const& e) { c.fail(std::string("loading a complete file is refused: ") + e.what()); }
}
// files with exactly one syntax error: the reader must not report a clean end with anything but the leading complete glyphs
static void broken(Ctx& c)
{
    std::vector<G> gs; unsigned n = 1 + c.choose(3, "glyphs");
    for (unsigned i = 0; i < n; ++i) { G g; g.pic = pics()[(i * 2 + 1) % 5]; unsigned k = 1 + c.choose(3, "views"); for (unsigned j = 0; j < k; ++j) g.views.push_back(views()[(i + j) % 4]); gs.push_back(g); }
    unsigned const at = c.choose(n, "broken glyph"); unsigned const kind = c.choose(9, "error");
    std::string s; bool image_only = false;
    for (unsigned i = 0; i < n; ++i) {
        std::string w = std::to_string(gs[i].pic.w), h = std::to_string(gs[i].pic.h), px = gs[i].pic.p, cnt = std::to_string(gs[i].views.size());
        std::vector<std::string> lines; for (auto& v : gs[i].views) lines.push_back(v.word + " " + v.font + " " + std::to_string(v.info));
        if (i == at) switch (kind) {
            case 0: w = "w"; image_only = true; break;
            case 1: h = "h"; image_only = true; break;
            case 2: cnt = "x"; break;
            case 3: cnt = "v" + cnt; break;
            case 4: cnt = std::to_string(gs[i].views.size() + 1); break;
            case 5: cnt = std::to_string(gs[i].views.size() + 1000); break;
            case 6: lines.back() = gs[i].views.back().word + " " + gs[i].views.back().font + " line"; image_only = true; break;
            case 7: px += "-"; image_only = true; break;                      // one pixel too many
            case 8: cnt = ""; break;
        }
        s += w + " " + h + " " + px + "\n" + cnt + "\n"; for (auto& l : lines) s += l + "\n";
    }
    c.note([&]{ return "error kind " + std::to_string(kind) + " in glyph " + std::to_string(at) + ":\n" + esc(s); });
    c.state(s);
    l2::Glyphs r; std::istringstream is(s); is >> r; c.transition();
    // a reader stopping anywhere but the end reports it: the file loaders refuse a stream that is not at its end
    if (is.eof() && !is.bad()) same(c, r, gs, std::min<std::size_t>(r.size(), at), "broken file accepted by the learning tools");
    o2::Glyphs q; std::istringstream is2(s); is2 >> q; c.transition();
    if (is2.eof() && !is2.bad()) {
        if (image_only) same(c, q, gs, n, "file with a broken picture part, in the recogniser");   // it only reads the views
        else same(c, q, gs, std::min<std::size_t>(q.size(), at), "broken file accepted by the recogniser");
    }
    c.outcome(mix(is.eof() * 2 + is2.eof(), r.size() * 8 + q.size()));
}
static std::vector<Family> families(Tier t)
{
    std::vector<Family> fs;
    fs.push_back({"no-glyph", "the empty file", [](Ctx& c){ round_trip(c, {}); }, 0, 1});
    unsigned const MV = t.thorough ? 4 : 3;
    fs.push_back({"one-glyph", "8 pictures x every list of 0.." + std::to_string(MV) + " views out of 9 (UTF-8 of 1, 2 and 4 bytes, digits, pixel letters, long words and fonts; info 0..2^32-1)", [=](Ctx& c){
        G g; g.pic = c.pick(pics()); unsigned k = c.choose(MV + 1); for (unsigned i = 0; i < k; ++i) g.views.push_back(c.pick(views())); round_trip(c, {g}); }});
    unsigned const NG = t.thorough ? 4 : 3;
    fs.push_back({"lists", "every list of 2.." + std::to_string(NG) + " glyphs of 5 pictures x 0..1 views of 5 + two fixed lists", [=](Ctx& c){
        unsigned n = 2 + c.choose(NG - 1); std::vector<G> gs;
        for (unsigned i = 0; i < n; ++i) { G g; g.pic = pics()[c.choose(5)]; unsigned k = c.choose(n == 4 ? 4 : 8); if (k == 1) g.views = {views()[1], views()[0]}; else if (k == 2) g.views = {views()[4], views()[5], views()[6]}; else if (k) g.views = {views()[k]}; gs.push_back(g); }
        round_trip(c, gs); }});
    unsigned const A = t.thorough ? 16 : 11;
    fs.push_back({"every-small-picture", "every picture with at most " + std::to_string(A) + " pixels with one view", [=](Ctx& c){ G g; g.pic = choose_pic(c, sizes_upto(A, A, A)); g.views = {views()[3]}; round_trip(c, {g, g}); }});
    fs.push_back({"big", "1..30 glyphs and 0..130 views per glyph", [](Ctx& c){ static unsigned const ns[] = {1, 2, 9, 10, 11, 16, 17, 30}, ks[] = {0, 9, 10, 11, 99, 100, 130};
        unsigned n = ns[c.choose(8)], k = ks[c.choose(7)], o = c.choose(8); std::vector<G> gs;
        for (unsigned i = 0; i < n; ++i) { G g; g.pic = pics()[(i + o) % 8]; for (unsigned j = 0; j < k; ++j) g.views.push_back({"w" + std::to_string((i * 31 + j * 7 + o) % 97), "f" + std::to_string((i + j) % 5), j}); gs.push_back(g); }
        round_trip(c, gs); }});
    static auto const S = scale(t.thorough ? 1000001 : 70000), SC = scale(70000);
    fs.push_back({"field-lengths", "one field of the first, middle or last of three glyphs of every length of the scale (up to " + std::to_string(S.back()) + "): picture in one row, picture in one column, word, font; 0 or " + std::to_string(SC.back()) + " at most views or glyphs", [](Ctx& c){
        unsigned const field = c.choose(6), at = c.choose(3), n = field < 4 ? c.pick(S) : c.pick(SC); std::vector<G> gs(3); if (field >= 4 && n > 4100 && at) return;
        for (unsigned i = 0; i < 3; ++i) { gs[i].pic = pics()[i]; gs[i].views = {views()[i], views()[i + 2]}; }
        G& g = gs[at];
        switch (field) {
            case 0: g.pic = motif(5, n, 1); break;
            case 1: g.pic = motif(20, 1, n); break;
            case 2: g.views[n % 2].word = text_of(n); break;
            case 3: g.views[n % 2].font = text_of(n); break;
            case 4: g.views.clear(); for (unsigned i = 0; i < n; ++i) g.views.push_back({"w" + std::to_string(i * 31 % 977), "f" + std::to_string(i % 300), i}); break;
            case 5: if (at) return; gs.clear(); for (unsigned i = 0; i < n; ++i) { G x; x.pic = pics()[i % 7]; x.views = {{"w" + std::to_string(i), "f" + std::to_string(i / 3), i}}; gs.push_back(x); } break;
        }
        round_trip(c, gs); }});
    fs.push_back({"syntax-errors", "files of 1..3 glyphs with 1..3 views, one of 9 syntax errors at each glyph", [](Ctx& c){ broken(c); }});
    fs.push_back({"shipped", "the shipped latin glyph file through both readers", [](Ctx& c){
        auto const& g = corpus(0); if (g.empty()) return; std::vector<G> gs;
        for (auto& x : g) { G y; y.pic = x.pic; for (auto& v : x.views) y.views.push_back({v.word, v.font, unsigned(strtoul(v.info.c_str(), nullptr, 10))}); gs.push_back(y); }
        round_trip(c, gs); }, 0, 1});
    return fs;
}
#else
static std::vector<std::string> const& words()
{
    static std::vector<std::string> const v = {"a", "ab", "b", "abc", "abcd", "abcde", "\xc3\xa9", "\xf0\x9f\x98\x80", "abcdefgh", "A", "aa", "z\xc3\xa9", "abcdefghi", "~", "0", "\xd0\x96", "abcdefghijklmnopqrstuvwxyz"};
    return v;
}
static void lookup(Ctx& c, std::vector<G> const& gs, std::vector<std::string> const& probes)
{
    std::string const s = text(gs);
    c.note([&]{ return "glyph file:\n" + esc(s); });
    c.state(s);
    o2::Glyphs q; std::istringstream is(s); is >> q;
    same(c, q, gs, gs.size(), "in the recogniser");
    std::map<std::string, unsigned> ids;
    for (std::size_t i = 0; i < gs.size(); ++i) for (std::size_t k = 0; k < gs[i].views.size(); ++k) ids[gs[i].views[k].word] = q[i][k].word;
    uint64_t o = 1;
    auto probe = [&](std::string const& w) {
        std::unique_ptr<char[]> exact(new char[w.size() ? w.size() : 1]); memcpy(exact.get(), w.data(), w.size());
        unsigned const i = q.word_index_of(std::string_view(exact.get(), w.size())); c.transition();
        auto it = ids.find(w);
        if (it == ids.end()) c.check(i == o2::Glyphs::no_index, [&]{ return "looking '" + w + "' up succeeds although no view has this word"; });
        else {
            c.check(i != o2::Glyphs::no_index, [&]{ return "looking '" + w + "' up fails although a view has this word"; });
            c.check(i == it->second, [&]{ return "looking '" + w + "' up designates another word"; });
        }
        o = mix(o, i == o2::Glyphs::no_index);
    };
    for (auto& w : probes) { probe(w); }
    for (auto& p : ids) { probe(p.first); probe(p.first + "a"); probe(p.first + "\xff"); probe(p.first.substr(0, p.first.size() - 1)); probe(p.first.substr(1)); }
    probe("");
    c.outcome(o);
}
static std::vector<Family> families(Tier t)
{
    std::vector<Family> fs;
    unsigned const M = t.thorough ? 13 : 10, L = t.thorough ? 5 : 4;
    fs.push_back({"sequences", "every sequence of 0.." + std::to_string(L) + " words out of " + std::to_string(M) + " (prefixes of one another, 1 to 9 bytes, UTF-8), one view each; every word and every extension, prefix and suffix looked up", [=](Ctx& c){
        unsigned n = c.choose(L + 1); std::vector<G> gs; for (unsigned i = 0; i < n; ++i) { G g; g.pic = Pic(1, 1, "x"); g.views = {{words()[c.choose(M)], i % 2 ? "f" : "g", i}}; gs.push_back(g); } lookup(c, gs, words()); }});
    unsigned const B = t.thorough ? 17 : 14;
    fs.push_back({"subsets", "every subset of " + std::to_string(B) + " words (one to 26 bytes) in ascending, descending and interleaved order, all in one glyph or one glyph each", [=](Ctx& c){
        unsigned const order = c.choose(3), shape = c.choose(2); std::vector<G> gs; std::vector<V> vs;
        for (unsigned i = 0; i < B; ++i) { unsigned k = order == 0 ? i : order == 1 ? B - 1 - i : (i * 5) % B; if (c.choose(2)) vs.push_back({words()[k], "f" + std::to_string(k % 3), 0}); }
        if (shape) { for (auto& v : vs) { G g; g.pic = Pic(2, 1, "x-"); g.views = {v}; gs.push_back(g); } } else { G g; g.pic = Pic(2, 1, "x-"); g.views = vs; gs = {g}; }
        lookup(c, gs, words()); }});
    fs.push_back({"lengths", "words of every length 1..40 and their one-byte neighbours together with a shorter and a longer one", [](Ctx& c){
        unsigned const n = 1 + c.choose(40), k = c.choose(8); std::string w; for (unsigned i = 0; i < n; ++i) w += char('a' + (i * 7) % 26);
        std::string x = w, y = w + "q", z = w; if (k & 1) x.back() = '!'; else x.back() = '~'; if (k & 2) y = w + "\xc3\xa9"; if (k & 4) z = w.substr(0, n - 1);
        std::vector<G> gs; for (auto& a : {w, x, y, z}) if (!a.empty()) { G g; g.pic = Pic(1, 1, "x"); g.views = {{a, "f", 0}}; gs.push_back(g); } lookup(c, gs, {w, x, y, z}); }});
    static auto const S = scale(t.thorough ? 1000001 : 70000);
    fs.push_back({"long-words", "a word of every length of the scale (up to " + std::to_string(S.back()) + ") next to words that differ from it in the first, middle or last byte or are one byte shorter or longer", [](Ctx& c){
        unsigned const n = c.pick(S), k = c.choose(5); std::string const w = text_of(n); std::string x = w;
        if (k == 0) x[0] = '~'; else if (k == 1) x[n / 2] = '~'; else if (k == 2) x.back() = '!'; else if (k == 3) x += 'a'; else x.pop_back();
        std::vector<G> gs; for (auto& a : {x, w}) if (!a.empty()) { G g; g.pic = Pic(1, 1, "x"); g.views = {{a, "f", 0}, {a.substr(0, 3), "g", 1}}; gs.push_back(g); }
        lookup(c, gs, {w, x}); }});
    fs.push_back({"long-fonts", "a font name of every length of the scale (up to " + std::to_string(S.back()) + ") next to font names that differ from it in the first, middle or last byte or are one byte shorter or longer, in 2 orders, the name repeated", [](Ctx& c){
        unsigned const n = c.pick(S), k = c.choose(5), ord = c.choose(2); std::string const w = text_of(n); std::string x = w;
        if (k == 0) x[0] = '~'; else if (k == 1) x[n / 2] = '~'; else if (k == 2) x.back() = '!'; else if (k == 3) x += 'a'; else x.pop_back();
        if (x.empty()) return; std::vector<G> gs; for (auto& a : ord ? std::vector<std::string>{x, w, x} : std::vector<std::string>{w, x, w}) { G g; g.pic = Pic(1, 1, "x"); g.views = {{"a", a, 0}, {"b", "f", 1}, {"a", a, 2}}; gs.push_back(g); }
        lookup(c, gs, {}); }});
    fs.push_back({"fonts", "every sequence of 1..6 views over 3 fonts and 2 words", [](Ctx& c){
        static char const* f[3] = {"arial", "arial_9", "zz"}; unsigned n = 1 + c.choose(6); std::vector<G> gs;
        for (unsigned i = 0; i < n; ++i) { V v{c.choose(2) ? "a" : "zw", f[c.choose(3)], 0}; if (i % 3 == 0) { G g; g.pic = Pic(1, 1, "x"); gs.push_back(g); } gs.back().views.push_back(v); } lookup(c, gs, {}); }});
    fs.push_back({"large", "1000, 5000, 40000, 65537 and 140000 different words, up to 70000 fonts", [](Ctx& c){ static unsigned const ns[] = {1000, 5000, 40000, 65537, 140000}; unsigned const k = c.choose(10), n = ns[k % 5]; std::vector<G> gs; G g; g.pic = Pic(1, 1, "x");
        for (unsigned i = 0; i < n; ++i) g.views.push_back({"w" + std::to_string((i * 7919u) % n) + std::string(i % 5, 'x'), "f" + std::to_string(k < 5 ? i % 300 : i / 2), 0}); gs = {g};
        std::string const s = text(gs); o2::Glyphs q; std::istringstream is(s); is >> q; c.state(s); same(c, q, gs, 1, "in the recogniser");
        for (unsigned i = 0; i < n; i += 31) { auto& w = g.views[i].word; c.check(q.word_index_of(w) == q[0][i].word, "lookup in a large table"); c.transition(); } c.outcome(n); }});
    fs.push_back({"shipped", "the shipped latin glyph file: every view and every distinct word", [](Ctx& c){
        auto const& g = corpus(0); if (g.empty()) return; std::vector<G> gs;
        for (auto& x : g) { G y; y.pic = x.pic; for (auto& v : x.views) y.views.push_back({v.word, v.font, 0}); gs.push_back(y); }
        lookup(c, gs, words()); }, 0, 1});
    return fs;
}
#endif
MC_MAIN(families)
