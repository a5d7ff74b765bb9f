// C37: the learning tools and cut or damaged glyph files.
#include "knowledge.hpp"
#include "damage.hpp"
#include <map>
#include <set>
int main_normalize_glyphs(int, char**);
int main_write_datas(int, char**);

struct GlyphView { std::string word, font; uint64_t info; bool operator<(GlyphView const& o) const { return std::tie(word, font, info) < std::tie(o.word, o.font, o.info); } bool operator==(GlyphView const& o) const { return word == o.word && font == o.font && info == o.info; } };
struct GlyphOf { unsigned w, h; std::string px; std::vector<GlyphView> views; };
// the glyphs a file consists of, or nothing: it ends inside a glyph or something else is in the place of a number
static bool complete(std::string const& f, std::vector<GlyphOf>& out)
{
    Lex x{f};
    for (;;) {
        x.skip(); if (x.end()) return true;
        uint64_t w, h, n; if (!x.num(w) || !x.num(h)) return false; ++x.i; unsigned __int128 const a = (unsigned __int128)w * h; if (x.i > f.size() || a > f.size() - x.i) return false;
        GlyphOf g{unsigned(w), unsigned(h), f.substr(x.i, std::size_t(a)), {}}; x.i += std::size_t(a); if (!x.num(n)) return false;
        for (uint64_t k = 0; k < n; ++k) { GlyphView v; if (!x.word(v.word) || !x.word(v.font) || !x.num(v.info)) return false; g.views.push_back(v); }
        out.push_back(std::move(g));
    }
}
static std::string features(std::vector<GlyphOf> const& gs)
{
    static std::map<Pic, Row> known; std::vector<Row> rows;
    for (auto& g : gs) { Pic const p(g.w, g.h, g.px); auto it = known.find(p); if (it == known.end()) { if (known.size() > 20000) known.clear(); it = known.emplace(p, row_of(p)).first; } rows.push_back(it->second); }
    return datas_text(rows);
}
using Norm = std::map<std::tuple<unsigned, unsigned, std::string>, std::set<GlyphView>>;
static Norm norm_of(std::vector<GlyphOf> const& gs) { Norm m; for (auto& g : gs) { auto& s = m[{g.w, g.h, g.px}]; s.insert(g.views.begin(), g.views.end()); } return m; }

enum Tool { NORMALIZE, DATAS, NORMALIZE_FIRST, NORMALIZE_SECOND, TOOLS };
static char const* const tool_name[] = {"normalize_glyphs", "write_datas", "normalize_glyphs (followed by another file)", "normalize_glyphs (after another file)"};
static std::string const other = "1 2 xx\n1\nl f 1\n1 1 x\n1\nz f 0\n";
static void judge(Ctx& c, Tool t, std::string const& f, bool intact)
{
    c.note([&]{ return std::string(tool_name[t]) + " with:\n" + esc(f); }); c.state(mix(hash(f), t));
    std::vector<std::string> in{f}; if (t == NORMALIZE_FIRST) in.push_back(other); if (t == NORMALIZE_SECOND) in.insert(in.begin(), other);
    ToolRun const r = run_tool_on(t == DATAS ? main_write_datas : main_normalize_glyphs, in); c.transition(); c.outcome(mix(hash(r.out), r.failed()));
    std::vector<GlyphOf> gs; bool ok = true; for (auto& s : in) ok = ok && complete(s, gs);
    bool empty = false; for (auto& g : gs) empty = empty || g.px.empty();
    if (r.failed()) { c.check(!intact, [&]{ return std::string(tool_name[t]) + " refuses an intact file: " + r.err; }); return; }
    c.check(ok, [&]{ return std::string(tool_name[t]) + " accepts a damaged glyph file and writes\n" + esc(r.out); });
    if (t == DATAS) { c.check(!empty, [&]{ return "write_datas accepts an empty picture and writes\n" + esc(r.out); }); std::string const w = features(gs); c.check(r.out == w, [&]{ return "write_datas writes\n" + esc(r.out) + "instead of\n" + esc(w); }); return; }
    std::vector<GlyphOf> got; Norm const want = norm_of(gs); c.check(complete(r.out, got), [&]{ return "normalize_glyphs writes no glyph file:\n" + esc(r.out); });
    c.check(got.size() == want.size() && norm_of(got) == want, [&]{ return std::string(tool_name[t]) + " writes\n" + esc(r.out) + "which is not what the file says"; });
}
static std::vector<std::string> const& bases()
{
    static std::vector<std::string> const v = {"1 1 x\n1\na f 0\n", "2 1 x-\n2\na f 0\nb gg 12\n1 1 x\n1\nab f 3\n", "1 1 x\n1\n1 10 0\n1 1 x\n1\n2 10 0\n1 1 x\n1\n1 11 5\n", "3 2 x-xx--\n3\n0 f 1\n1 f 2\n1 g 3\n1 2 x-\n2\n1 f 0\n2 1 1\n",
        "1 1 -\n1\n\xc3\xa9 font_with_a_name 4294967295\n2 2 xxxx\n1\na_word_longer_than_others f 1\n", "5 1 x-x-x\n12\n1 a 1\n2 a 1\n3 a 1\n4 a 1\n5 a 1\n6 a 1\n7 a 1\n8 a 1\n9 a 1\n1 b 1\n2 b 1\n3 b 1\n1 1 x\n1\n1 f 0\n", "", "2 2 x--x\n0\n1 1 x\n0\n"};
    return v;
}
static std::string n_glyphs(unsigned n, unsigned views) { std::string f; for (unsigned i = 0; i < n; ++i) { f += "2 3 " + std::string(i & 1 ? "x" : "-") + (i & 2 ? "x" : "-") + "xx-" + (i & 4 ? "x" : "-") + "\n" + std::to_string(views) + "\n"; for (unsigned k = 0; k < views; ++k) f += "w" + std::to_string(k) + " f" + std::to_string(i % 7) + " " + std::to_string(i) + "\n"; } return f; }

static std::vector<Family> families(Tier t)
{
    std::vector<Family> fs; auto const& B = bases(); std::string const S = "every one of " + std::to_string(B.size()) + " small glyph files, given to normalize_glyphs (alone, before, after another file) and to write_datas, ";
    fs.push_back({"intact", S + "as it is: accepted", [&B](Ctx& c){ Tool const k = Tool(c.choose(TOOLS)); judge(c, k, c.pick(B), true); }});
    fs.push_back({"one-change", S + "cut after every byte, with every number replaced by 40 values, every byte replaced by 19 others, deleted, 19 bytes inserted everywhere, every line deleted, doubled, swapped, an empty line inserted", [&B](Ctx& c){ Tool const k = Tool(c.choose(TOOLS)); judge(c, k, damage(c, c.pick(B), 6), false); }});
    fs.push_back({"change-and-cut", S + "with a number or a byte changed, a byte or a line deleted or a line doubled, then cut after every byte", [&B](Ctx& c){
        Tool const tl = Tool(c.choose(2)); std::string f = c.pick(B); if (f.size() > 90) return; unsigned const k = c.choose(3);
        if (k == 0) f = damage(c, f, 2); else if (f.empty()) return; else if (k == 1) f.erase(c.choose(unsigned(f.size())), 1);
        else { auto ls = lines(f); unsigned i = c.choose(unsigned(ls.size())); if (c.flag()) ls.erase(ls.begin() + i); else ls.insert(ls.begin() + i, ls[i]); f.clear(); for (auto& l : ls) f += l; }
        judge(c, tl, f.substr(0, c.choose(unsigned(f.size()) + 1)), false); }});
    fs.push_back({"two-numbers", S + "with every two numbers replaced by " + std::string(t.thorough ? "22" : "10") + " values each (files of at most 80 bytes)", [&B, T = t.thorough](Ctx& c){
        Tool const tl = Tool(c.choose(2)); std::string f = c.pick(B); if (f.size() > 80u) return; auto x = fields(f); if (x.size() < 2) return; unsigned const j = 1 + c.choose(unsigned(x.size()) - 1), i = c.choose(j);
        static char const* const W[] = {"0", "1", "2", "3", "5", "4294967295", "65536", "2147483649", "-1", "x", "4", "6", "7", "8", "9", "10", "100", "2147483648", "1 1", "", "4294967297", "18446744073709551615"}; unsigned const n = T ? 22 : 10; unsigned const u = c.choose(n), v = c.choose(n);
        f.replace(x[j].at, x[j].len, W[v]); f.replace(x[i].at, x[i].len, W[u]); judge(c, tl, f, false); }});
    unsigned const M = t.thorough ? 8 : 7;
    fs.push_back({"every-glyph-file", "every sequence of 0.." + std::to_string(M) + " lines out of 7 (picture, empty picture, counts 0 1 2, a view, a view that looks like numbers), both tools", [M](Ctx& c){ Tool const r = Tool(c.choose(2)); unsigned const n = c.choose(M + 1); static char const* const L[] = {"1 1 x\n", "0\n", "1\n", "2\n", "a f 0\n", "1 1 1\n", "0 2 \n"}; std::string f; for (unsigned i = 0; i < n; ++i) f += L[c.choose(n < M ? 7 : 6)]; judge(c, r, f, false); }});
    static auto const N = scale(t.thorough ? 20000 : 3000);
    fs.push_back({"sizes", "files of n glyphs or of n views of one glyph, n on the scale up to " + std::to_string(N.back()) + ", whole and cut before, in and after each part of the last glyph", [](Ctx& c){
        Tool const tl = Tool(c.choose(2)); unsigned const n = c.pick(N), how = c.choose(2); if (!n) return; std::string f = how ? n_glyphs(2, n) : n_glyphs(n, 2), const_last = how ? n_glyphs(2, n) : n_glyphs(n, 2);
        unsigned const at = c.choose(12), end = unsigned(f.size()); std::size_t const last = f.rfind("\n2 3 ") + 1, l2 = n == 1 && !how ? 0 : last, line = f.rfind('\n', f.size() - 2) + 1;
        std::size_t const cuts[12] = {end, l2 + 1, l2 + 3, l2 + 4, l2 + 7, l2 + 10, l2 + 11, f.find('\n', l2 + 11) + 1, line, line + 2, line + 5, end - 1};
        judge(c, tl, f.substr(0, std::min<std::size_t>(cuts[at], end)), at == 0); }});
    return fs;
}
MC_MAIN(families)
