// C16: glyph normalisation; C17: the learning chain.
#include "cli.hpp"
#include "feat_model.hpp"
#include "box_model.hpp"
#include <map>
#include <set>
#include <tuple>
#include <dirent.h>
#include "ppocr/image/image_from_file.hpp"
using namespace mc;

int main_normalize_glyphs(int, char**);
int main_write_glyphs(int, char**);
int main_write_datas(int, char**);

using V = std::tuple<std::string, std::string, unsigned>;
struct G { Pic pic; std::vector<V> views; };
static std::string text(G const& g)
{
    std::string s = std::to_string(g.pic.w) + " " + std::to_string(g.pic.h) + " " + g.pic.p + "\n" + std::to_string(g.views.size()) + "\n";
    for (auto& [w, f, i] : g.views) s += w + " " + f + " " + std::to_string(i) + "\n";
    return s;
}
static std::string text(std::vector<G> const& gs) { std::string s; for (auto& g : gs) s += text(g); return s; }
static std::string cut(std::string const& s) { return s.size() > 900 ? s.substr(0, 900) + "..." : s; }
// each distinct picture once, in comparison order (width, height, pixels), with the sorted set of all its views
static std::string normal(std::vector<std::vector<G>> const& files)
{
    std::map<Pic, std::set<V>> m;
    for (auto& f : files) for (auto& g : f) m[g.pic].insert(g.views.begin(), g.views.end());
    std::string s; for (auto& [p, v] : m) s += text(G{p, {v.begin(), v.end()}});
    return s;
}
static std::vector<Pic> const& pics()
{
    static std::vector<Pic> const v = {Pic(2, 2, "xx--"), Pic(2, 2, "x-xx"), Pic(1, 3, "xx-"), Pic(2, 1, "-x"), Pic(2, 2, "--xx"), Pic(3, 1, "x-x"), Pic(1, 3, "xxx"), motif(2, 11, 9), motif(3, 9, 11), motif(5, 11, 9)};
    return v;
}
static std::vector<std::vector<V>> const& vsets()    // each sorted and distinct, as the tools write them
{
    static std::vector<std::vector<V>> const v = {{{"a", "f", ~0u}}, {{"b", "f", ~0u}}, {{"a", "f", ~0u}, {"a", "g", ~0u}}, {{"a", "f", 3}, {"a", "f", ~0u}, {"\xc3\xa9", "f", 0}}, {{"a", "g", 10}}, {{"a", "f", 9}, {"a", "f", 10}}, {}};
    return v;
}

static void normalise(Ctx& c, std::vector<std::vector<G>> const& files)
{
    std::vector<std::string> in; for (auto& f : files) in.push_back(text(f));
    c.note([&]{ std::string t; for (auto& s : in) t += "input file:\n" + cut(s); return t; });
    uint64_t h = 1; for (auto& s : in) h = mix(h, hash(s)); c.state(h);
    std::string const want = normal(files);
    ToolRun const r = run_tool_on(main_normalize_glyphs, in); c.transition();
    c.check(!r.failed(), [&]{ return "normalising valid files fails: " + r.err; });
    c.check(r.out == want, [&]{ return "normalised to\n" + cut(r.out) + "expected\n" + cut(want); });
    c.outcome(r.out);
    ToolRun const again = run_tool_on(main_normalize_glyphs, {r.out}); c.transition();
    c.check(!again.failed() && again.out == want, [&]{ return "normalising the normalised file again changes it to\n" + cut(again.out); });
}

// ---- the chain
static Pic line_of(std::vector<Pic> const& chars, unsigned top, unsigned gap)
{
    unsigned w = 2, h = 0; for (auto& p : chars) { w += p.w + gap; h = std::max(h, p.h); }
    Pic r(w, h + top + 1); unsigned x = 1; unsigned k = 0;
    for (auto& p : chars) { unsigned const dy = k++ % 2 ? 0 : h - p.h; for (unsigned j = 0; j < p.h; ++j) for (unsigned i = 0; i < p.w; ++i) if (p.ink(i, j)) r.set(x + i, top + dy + j); x += p.w + gap; }
    return r;
}
static std::string p4(Pic const& p)      // a clear bit is a letter pixel
{
    std::string s = "P4\n" + std::to_string(p.w) + " " + std::to_string(p.h) + "\n";
    for (unsigned y = 0; y < p.h; ++y) for (unsigned x = 0; x < p.w; x += 8) { unsigned b = 0; for (unsigned k = 0; k < 8; ++k) b = b * 2 + (x + k < p.w ? !p.ink(x + k, y) : 0); s += char(b); }
    return s;
}
static std::string p6(Pic const& p, unsigned letter, unsigned back)
{
    std::string s = "P6\n" + std::to_string(p.w) + " " + std::to_string(p.h) + "\n255\n";
    for (char c : p.p) s += std::string(3, char(c == 'x' ? letter : back));
    return s;
}
static std::vector<Pic> const& letters()      // every column touches the next one, so each is one box with full-height extent
{
    static std::vector<Pic> const v = {Pic(1, 3, "xxx"), Pic(3, 3, "xxxx-xxxx"), Pic(2, 2, "x-xx"), Pic(1, 1, "x"), motif(2, 6, 8), motif(9, 9, 9)};
    return v;
}
struct Train { std::vector<Pic> chars; std::vector<std::string> words; std::string image, textfile, font; };

static void chain(Ctx& c, std::vector<Train> const& ts, std::string const& lum)
{
    std::vector<std::string> args; std::vector<G> want; bool ok = true;
    if (!lum.empty()) { args.push_back("-l"); args.push_back(lum); }
    for (std::size_t k = 0; k < ts.size(); ++k) {
        std::string const fi = scratch("i" + std::to_string(k)), ft = scratch("t" + std::to_string(k));
        spit(fi, ts[k].image); spit(ft, ts[k].textfile); args.push_back(fi); args.push_back(ft); args.push_back(ts[k].font);
        if (ts[k].chars.size() != ts[k].words.size()) ok = false;
        for (std::size_t i = 0; ok && i < ts[k].chars.size(); ++i) want.push_back({ts[k].chars[i], {{ts[k].words[i], ts[k].font, ~0u}}});
    }
    c.note([&]{ std::string t; for (auto& x : ts) { t += "training line of font " + x.font + ":"; for (auto& p : x.chars) t += " [" + p.str() + "]"; t += " words:"; for (auto& w : x.words) t += " " + w; t += "\n"; } return t; });
    uint64_t h = hash(lum); for (auto& t : ts) h = mix(mix(mix(h, hash(t.image)), hash(t.textfile)), hash(t.font)); c.state(h);
    ToolRun const r = run_tool(main_write_glyphs, args); c.transition();
    if (!ok) { c.outcome(r.failed()); c.check(r.failed(), "the number of boxes differs from the number of words and this is not reported"); return; }
    c.check(!r.failed(), [&]{ return "write_glyphs fails on matching files: " + r.err; });
    c.check(r.out == text(want), [&]{ return "write_glyphs writes\n" + cut(r.out) + "expected\n" + cut(text(want)); });
    ToolRun const n = run_tool_on(main_normalize_glyphs, {r.out}); c.transition();
    std::string const norm = normal({want});
    c.check(!n.failed() && n.out == norm, [&]{ return "normalize_glyphs writes\n" + cut(n.out) + "expected\n" + cut(norm); });
    c.outcome(n.out);
    ToolRun const d = run_tool_on(main_write_datas, {n.out}); c.transition();
    c.check(!d.failed(), [&]{ return "write_datas fails: " + d.err; });
    auto const gs = parse_glyph_text(norm);
    ppocr::PpOcrDatas db; std::istringstream is(d.out);
    try { is >> db; } catch (std::exception const&) { c.fail("the feature file cannot be read back"); }
    c.check(fm::sizes_equal(db) == gs.size(), [&]{ return "the feature file has not exactly one entry per glyph (" + std::to_string(gs.size()) + ")"; });
    for (std::size_t i = 0; i < gs.size(); ++i) { auto const got = fm::from_datas(db, i), w = fm::features(gs[i].pic); c.transition(); c.check(got == w, [&]{ return "entry " + std::to_string(i) + " of the feature file: " + fm::diff(got, w) + " for " + gs[i].pic.str(); }); }
    ToolRun const d2 = run_tool_on(main_write_datas, {n.out}); c.check(d2.out == d.out, "running write_datas again gives another file");
}
static std::string words_text(std::vector<std::string> const& w, unsigned layout)
{
    std::string s; static char const* sep[] = {" ", "\n", "  \n "};
    for (std::size_t i = 0; i < w.size(); ++i) s += (i ? sep[layout] : layout == 2 ? "\n " : "") + w[i];
    if (layout) s += "\n";
    return s;
}

static std::vector<std::string> ls(std::string const& d)
{
    std::vector<std::string> r;
    if (DIR* x = opendir(d.c_str())) { while (auto* e = readdir(x)) if (e->d_name[0] != '.') r.push_back(e->d_name); closedir(x); }
    std::sort(r.begin(), r.end());
    return r;
}
struct Training { std::string image, words, font; };
static std::vector<Training> training(std::string const& set)
{
    std::vector<Training> r; std::string const base = repo_dir() + "/resources/fonts/" + set;
    for (auto& d : ls(base + "/generated")) for (auto& f : ls(base + "/generated/" + d)) if (f.size() > 4 && f.substr(f.size() - 4) == ".pnm") r.push_back({base + "/generated/" + d + "/" + f, base + "/letters", d});
    for (auto& d : ls(base + "/mano")) for (auto& f : ls(base + "/mano/" + d)) if (f.size() > 4 && f.substr(f.size() - 4) == ".pbm") r.push_back({base + "/mano/" + d + "/" + f, base + "/mano/" + d + "/" + f.substr(0, f.size() - 3) + "txt", d});
    return r;
}

static std::vector<Family> families(Tier t)
{
    std::vector<Family> fs;
#if PROP == 16
    unsigned const N = t.thorough ? 5 : 4, MP = t.thorough ? 4 : 4, MV = t.thorough ? 3 : 3;
    fs.push_back({"sequences", "every sequence of 0.." + std::to_string(N) + " glyph occurrences of " + std::to_string(MP) + " pictures x " + std::to_string(MV) + " view lists, every split into one or two files", [=](Ctx& c){
        unsigned const n = c.choose(N + 1); std::vector<std::vector<G>> fs(1); unsigned const split = c.choose(n + 1);
        for (unsigned i = 0; i < n; ++i) { if (i == split && i) fs.emplace_back(); fs.back().push_back({pics()[c.choose(MP)], vsets()[c.choose(MV)]}); }
        normalise(c, fs); }});
    fs.push_back({"wide", "every sequence of 1..2 occurrences of 10 pictures x 7 view lists (also none), and every triple of occurrences of the same picture, one file each", [=](Ctx& c){
        unsigned const n = 1 + c.choose(3); std::vector<std::vector<G>> fs; unsigned const p = c.choose(10);
        for (unsigned i = 0; i < n; ++i) fs.push_back({{pics()[n == 3 ? p : i == 0 ? p : c.choose(10)], vsets()[c.choose(7)]}});
        normalise(c, fs); }});
    fs.push_back({"permutations", "every order of a mixed list of " + std::string(t.thorough ? "7" : "6") + " glyphs with three repeated pictures, split over 1..3 files", [=](Ctx& c){
        std::vector<G> l = {{pics()[0], vsets()[0]}, {pics()[1], vsets()[2]}, {pics()[0], vsets()[1]}, {pics()[2], vsets()[3]}, {pics()[2], vsets()[4]}, {pics()[0], vsets()[4]}};
        if (t.thorough) l.push_back({pics()[3], vsets()[0]});
        std::vector<G> q; while (!l.empty()) { unsigned k = c.choose(unsigned(l.size())); q.push_back(l[k]); l.erase(l.begin() + k); }
        unsigned const parts = 1 + c.choose(3); std::vector<std::vector<G>> fs(parts); for (std::size_t i = 0; i < q.size(); ++i) fs[i * parts / q.size()].push_back(q[i]);
        normalise(c, fs); }});
    fs.push_back({"long", "lists of 15..300 glyphs over 1..60 pictures, 5 orders, 1..3 files", [](Ctx& c){
        static unsigned const ns[] = {15, 16, 17, 33, 64, 100, 300}, ks[] = {1, 2, 7, 16, 60}; unsigned const n = ns[c.choose(7)], k = ks[c.choose(5)], order = c.choose(5), parts = 1 + c.choose(3);
        std::vector<std::vector<G>> fs(parts);
        for (unsigned i = 0; i < n; ++i) {
            unsigned const j = order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (i * 7) % n : order == 3 ? (i * i + 3) % n : i / 3;
            unsigned const p = j % k; G g; g.pic = motif(p % 20 == 1 ? 0 : p % 20, 2 + p % 7, 2 + (p / 7) % 5); g.views = {{"w" + std::to_string(j % 5), "f" + std::to_string(j % 3), ~0u}};
            fs[i * parts / n].push_back(g);
        }
        normalise(c, fs); }});
    static auto const S = scale(t.thorough ? 300000 : 70000), SC = scale(t.thorough ? 20000 : 2100);
    fs.push_back({"field-lengths", "three glyphs, two with the same picture, one field of every length of the scale (up to " + std::to_string(S.back()) + "): pictures in one row, one column, word, font; or up to " + std::to_string(SC.back()) + " views, glyphs", [](Ctx& c){
        unsigned const field = c.choose(6), two = c.choose(2), n = field < 4 ? c.pick(S) : c.pick(SC); std::vector<G> gs = {{pics()[0], vsets()[0]}, {pics()[1], vsets()[1]}, {pics()[0], vsets()[2]}};
        switch (field) {
            case 0: gs[0].pic = gs[2].pic = motif(5, n, 1); gs[1].pic = gs[0].pic; gs[1].pic.p[n - 1] ^= 'x' ^ '-'; break;
            case 1: gs[0].pic = gs[2].pic = motif(20, 1, n); gs[1].pic = gs[0].pic; gs[1].pic.p[n / 2] ^= 'x' ^ '-'; break;
            case 2: gs[0].views = {{text_of(n), "f", 1}}; gs[2].views = {{text_of(n), "f", 1}, {text_of(n + 1), "f", 1}}; break;
            case 3: gs[0].views = {{"a", text_of(n), 1}}; gs[2].views = {{"a", text_of(n), 1}, {"a", text_of(n) + "!", 1}}; std::sort(gs[2].views.begin(), gs[2].views.end()); break;
            case 4: { std::set<V> a, b; for (unsigned i = 0; i < n; ++i) { a.insert({"w" + std::to_string(i), "f", i}); b.insert({"w" + std::to_string(i * 2), "f", i * 2}); } gs[0].views.assign(a.begin(), a.end()); gs[2].views.assign(b.begin(), b.end()); break; }
            case 5: gs.clear(); for (unsigned i = 0; i < n; ++i) { Pic p(17, 1); unsigned const v = i * 7919u % (n - n / 4); for (unsigned b = 0; b < 17; ++b) if (v >> b & 1) p.set(b, 0); gs.push_back({p, {{"w" + std::to_string(i), "f", i}}}); } break;
        }
        std::vector<std::vector<G>> fs = {gs}; if (two) fs = {{gs.begin() + gs.size() / 2, gs.end()}, {gs.begin(), gs.begin() + gs.size() / 2}}; normalise(c, fs); }});
    fs.push_back({"many-files", "1..40, 63..65, 99..101, 127..129, 255..257 input files of one or two glyphs", [](Ctx& c){ static auto const F = scale(260); unsigned const n = c.pick(F), k = c.choose(3); std::vector<std::vector<G>> fs(n);
        for (unsigned i = 0; i < n; ++i) { fs[i].push_back({motif(5 + i % 3, 1 + (k ? i % 13 : 1), 1 + i / 13 % 5), {{"w" + std::to_string(i), "f", i}}}); if (k == 2) fs[i].push_back({pics()[i % 7], vsets()[i % 7]}); } normalise(c, fs); }});
    fs.push_back({"unreadable", "a missing input file at every place among 1..3 inputs is reported", [](Ctx& c){
        unsigned const n = 1 + c.choose(3), bad = c.choose(n); std::vector<std::string> args;
        for (unsigned i = 0; i < n; ++i) { std::string f = scratch("x" + std::to_string(i)); spit(f, text(std::vector<G>{{pics()[0], vsets()[0]}})); args.push_back(i == bad ? f + "-missing" : f); }
        c.state(mix(n, bad)); ToolRun r = run_tool(main_normalize_glyphs, args); c.transition(); c.outcome(r.rc); c.check(r.failed(), "a missing glyph file is not reported"); }});
    fs.push_back({"shipped", "the shipped latin glyph file: unchanged; cut into two files in either order, or doubled: the same file again", [](Ctx& c){
        std::string const s = slurp(repo_dir() + "/resources/glyphs/normalized-glyphs-latin.txt"); if (s.empty()) return; auto const& g = corpus(0);
        std::vector<G> gs; for (auto& x : g) { G y; y.pic = x.pic; for (auto& v : x.views) y.views.push_back({v.word, v.font, unsigned(strtoul(v.info.c_str(), nullptr, 10))}); gs.push_back(y); }
        std::vector<G> a, b; for (std::size_t i = 0; i < gs.size(); ++i) (i % 2 ? a : b).push_back(gs[i]);
        unsigned const k = c.choose(4); std::vector<std::string> in = k == 0 ? std::vector<std::string>{s} : k == 1 ? std::vector<std::string>{text(a), text(b)} : k == 2 ? std::vector<std::string>{text(b), text(a)} : std::vector<std::string>{s, s};
        c.state(k); ToolRun r = run_tool_on(main_normalize_glyphs, in); c.transition(); c.outcome(r.out);
        c.check(!r.failed() && r.out == s, "normalising the shipped glyph file does not give the shipped glyph file"); }});
#else
    unsigned const N = t.thorough ? 4 : 3;
    fs.push_back({"one-line", "every line of 0.." + std::to_string(N) + " characters out of 6, with 0.." + std::to_string(N + 1) + " words in three layouts, as P4 or P6", [=](Ctx& c){
        unsigned const n = c.choose(N + 1), w = c.choose(N + 2), lay = c.choose(3), kind = c.choose(2); Train t; t.font = "font_1";
        for (unsigned i = 0; i < n; ++i) t.chars.push_back(letters()[c.choose(6)]);
        static char const* ws[] = {"a", "\xc3\xa9", "fi", "a", "\xf0\x9f\x98\x80"}; for (unsigned i = 0; i < w; ++i) t.words.push_back(ws[i]);
        Pic const line = line_of(t.chars, 2, 1); t.image = kind ? p6(line, 200, 20) : p4(line); t.textfile = words_text(t.words, lay);
        chain(c, {t}, ""); }});
    fs.push_back({"several-lines", "1..3 lines of 0..2 characters out of 3, a count mismatch of -1, 0 or +1 words at any of them", [=](Ctx& c){
        unsigned const n = 1 + c.choose(3); std::vector<Train> ts; static char const* ws[] = {"a", "b", "\xd0\x96"};
        for (unsigned k = 0; k < n; ++k) { Train t; t.font = k % 2 ? "f" : "g"; unsigned m = c.choose(3); for (unsigned i = 0; i < m; ++i) t.chars.push_back(letters()[1 + c.choose(3)]);
            unsigned const d = c.choose(3); for (unsigned i = 0; i + 1 < m + d; ++i) t.words.push_back(ws[(i + k) % 3]); t.image = p4(line_of(t.chars, k, 1 + k)); t.textfile = words_text(t.words, k % 2); ts.push_back(t); }
        chain(c, ts, ""); }});
    fs.push_back({"luminance", "-l {0 1 99 100 101 128 200 255} x letter and background greys around it", [=](Ctx& c){
        static unsigned const ls[] = {0, 1, 99, 100, 101, 128, 200, 255}, gs[] = {0, 2, 98, 99, 100, 101, 102, 127, 128, 129, 199, 201, 254, 255};
        unsigned const l = ls[c.choose(8)], a = gs[c.choose(14)], b = gs[c.choose(14)]; Train t; t.font = "f";
        auto lum = [](unsigned v) { return ((511 * v + 511) >> 10) + ((396 * v + 511) >> 10) + ((117 * v + 511) >> 10); };
        std::vector<Pic> const ch = {letters()[1], letters()[0]}; Pic const line = line_of(ch, 1, 1); Pic seen = line;
        for (auto& x : seen.p) x = lum(x == 'x' ? a : b) < l ? '-' : 'x';
        for (auto& q : box_model(seen)) t.chars.push_back(seen.crop(q.x, q.y, q.w, q.h));
        for (std::size_t i = 0; i < t.chars.size(); ++i) t.words.push_back(i % 2 ? "y" : "z");
        t.image = p6(line, a, b); t.textfile = words_text(t.words, 1); chain(c, {t}, std::to_string(l)); }});
    unsigned const AP = t.thorough ? 16 : 12;
    fs.push_back({"any-line-picture", "every line picture with at most " + std::to_string(AP) + " pixels, with one word per box and with one word more", [=](Ctx& c){
        Train t; t.font = "f"; Pic const line = choose_pic(c, sizes_upto(16, 16, AP));
        for (auto& q : box_model(line)) t.chars.push_back(line.crop(q.x, q.y, q.w, q.h));
        for (std::size_t i = 0; i < t.chars.size(); ++i) t.words.push_back(std::string(1, char('a' + i)));
        if (c.choose(2)) t.words.push_back("more");
        t.image = p6(line, 255, 0); t.textfile = words_text(t.words, 1); chain(c, {t}, "100"); }});
    static auto const S = scale(t.thorough ? 100000 : 20000), SC = scale(t.thorough ? 5000 : 1030);
    fs.push_back({"field-lengths", "a line of n characters, a word, a font name of n bytes, n lines, a character of n columns or rows, for every n of the scale (up to " + std::to_string(S.back()) + "; characters and lines: " + std::to_string(SC.back()) + ", sizes: 600)", [](Ctx& c){
        unsigned const field = c.choose(6), off = c.choose(3); unsigned const n = field == 1 || field == 2 ? c.pick(S) : c.pick(SC); if (field >= 3 && n > (field == 3 ? 260u : 600u)) return;
        std::vector<Train> ts(1); Train& t = ts[0]; t.font = "f";
        auto fin = [](Train& t) { t.image = p4(line_of(t.chars, 1, 1)); t.textfile = words_text(t.words, 1); };
        auto abc = [&](Train& t) { for (unsigned i = 0; i < 3; ++i) { t.chars.push_back(letters()[i]); t.words.push_back(std::string(1, char('a' + i))); } };
        switch (field) {
            case 0: for (unsigned i = 0; i < n; ++i) { t.chars.push_back(letters()[(i * 5 + i / 7) % 4]); t.words.push_back("w" + std::to_string(i)); } if (off == 1) t.words.push_back("x"); if (off == 2) t.words.pop_back(); break;
            case 1: abc(t); t.words[off] = text_of(n); break;
            case 2: if (off) return; abc(t); t.font = text_of(n); break;
            case 3: if (off) return; ts.resize(n); for (unsigned i = 0; i < n; ++i) { ts[i].chars = {letters()[i % 5], letters()[i / 5 % 5]}; ts[i].words = {"w" + std::to_string(i), "v"}; ts[i].font = "f" + std::to_string(i); fin(ts[i]); } chain(c, ts, ""); return;
            case 4: abc(t); t.chars[off] = motif(0, n, 3); break;
            case 5: abc(t); t.chars[off] = motif(2, 3, n); break;
        }
        fin(t); chain(c, ts, ""); }});
    fs.push_back({"abutting", "three characters without an empty column between them, n columns wide or n rows high, for every n of the scale up to 5000, 3 places of the large one", [](Ctx& c){
        static auto const SA = scale(5000); unsigned const n = c.pick(SA), place = c.choose(3); bool const tall = c.choose(2); unsigned const H = tall ? n + 6 : 9; Train t; t.font = "f";
        unsigned x = 0; Pic line(tall ? 9 : n + 6, H); for (unsigned k = 0; k < 3; ++k) { unsigned const w = !tall && k == place ? n : 3, y = k % 2 ? H - 3 : 0, h = tall && k == place ? (k % 2 ? 3 : n) : 3; for (unsigned i = 0; i < w; ++i) for (unsigned j = 0; j < h; ++j) if (j == 0 || i == 0 || (i + j + k) % 4) line.set(x + i, y + j); x += w; }
        for (auto& q : box_model(line)) t.chars.push_back(line.crop(q.x, q.y, q.w, q.h));
        for (std::size_t i = 0; i < t.chars.size(); ++i) t.words.push_back(std::string(1, char('a' + i % 26)));
        t.image = p4(line); t.textfile = words_text(t.words, 1); chain(c, {t}, ""); }});
    fs.push_back({"unusable-inputs", "a missing or broken picture, a missing text file, at every place among 1..2 lines", [](Ctx& c){
        unsigned const n = 1 + c.choose(2), bad = c.choose(n), kind = c.choose(3); std::vector<std::string> args;
        for (unsigned i = 0; i < n; ++i) { std::string a = scratch("a" + std::to_string(i)), b = scratch("b" + std::to_string(i)); std::string img = p4(line_of({letters()[0]}, 1, 1)); if (i == bad && kind == 1) img.pop_back(); spit(a, img); spit(b, "w\n");
            args.push_back(i == bad && kind == 0 ? a + "-missing" : a); args.push_back(i == bad && kind == 2 ? b + "-missing" : b); args.push_back("f"); }
        c.state(mix(mix(n, bad), kind)); ToolRun r = run_tool(main_write_glyphs, args); c.transition(); c.outcome(r.failed()); c.check(r.failed(), "an unusable input is not reported"); }});
    fs.push_back({"shipped-datas", "write_datas on the shipped latin glyph file gives the shipped latin feature file, every entry equal to its reference features", [](Ctx& c){
        std::string const f = repo_dir() + "/resources/glyphs/normalized-glyphs-latin.txt", want = slurp(repo_dir() + "/resources/datas/latin.txt"); if (want.empty() || corpus(0).empty()) return;
        c.state(1); ToolRun r = run_tool(main_write_datas, {f}); c.transition(); c.outcome(r.out);
        c.check(!r.failed() && r.out == want, "write_datas does not reproduce resources/datas/latin.txt"); 
        ppocr::PpOcrDatas db; std::istringstream is(r.out); is >> db; auto const& g = corpus(0);
        c.check(fm::sizes_equal(db) == g.size(), "the shipped feature file has not one entry per glyph");
        for (std::size_t i = 0; i < g.size(); ++i) { auto const got = fm::from_datas(db, i), w = fm::features(g[i].pic); c.transition(); c.check(got == w, [&]{ return "shipped entry " + std::to_string(i) + ": " + fm::diff(got, w) + " for " + g[i].pic.str(); }); }
        }, 0, 1});
    static std::vector<std::pair<std::string, std::vector<Training>>> sets;
    if (sets.empty()) for (char const* s : {"latin", "cyrillic"}) sets.push_back({s, training(s)});
    fs.push_back({"shipped-training", "the whole learning chain on the " + std::to_string(sets[0].second.size()) + " latin and " + std::to_string(sets[1].second.size()) + " cyrillic training pictures (threshold 100) reproduces the shipped glyph and feature files", [](Ctx& c){
        auto const& s = sets[c.choose(2)]; if (s.second.empty()) return;
        std::string all; c.note([&]{ return "training set " + s.first; });
        for (auto& t : s.second) { ToolRun r = run_tool(main_write_glyphs, {"-l", "100", t.image, t.words, t.font}); c.transition(); c.check(!r.failed(), [&]{ return "write_glyphs fails on " + t.image + ": " + r.err; }); all += r.out; }
        c.state(all);
        ToolRun n = run_tool_on(main_normalize_glyphs, {all}); c.transition(); c.check(!n.failed(), "normalize_glyphs fails on the training set"); c.outcome(n.out);
        std::string const g = slurp(repo_dir() + "/resources/glyphs/normalized-glyphs-" + s.first + ".txt"), d = slurp(repo_dir() + "/resources/datas/" + s.first + ".txt");
        if (!g.empty()) c.check(n.out == g, [&]{ return "the chain does not reproduce the shipped glyph file of " + s.first; });
        ToolRun w = run_tool_on(main_write_datas, {n.out}); c.transition(); c.check(!w.failed(), "write_datas fails on the training set");
        if (!d.empty()) c.check(w.out == d, [&]{ return "the chain does not reproduce the shipped feature file of " + s.first; });
        }, 0, 2});
#endif
    return fs;
}
MC_MAIN(families)
