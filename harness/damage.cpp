// C30: cut and damaged knowledge files.
#include "knowledge.hpp"
#include "damage.hpp"
#include "ppocr/ocr2/glyphs.hpp"
#include "ppocr/ocr2/word_lines.hpp"
#include "ppocr/ocr2/words_infos.hpp"
#include "ppocr/ocr2/data_indexes_by_words.hpp"
#include "ppocr/ocr2/data_indexes_ordered.hpp"
#include "ppocr/ocr2/views_index_ordered.hpp"
#include "ppocr/loader2/glyphs_loader.hpp"
#include "ppocr/spell/dictionary.hpp"
#include "ppocr/spell/word_disambiguouser.hpp"
#include "ppocr/utils/read_file.hpp"
#include <memory>
#include <optional>
#include <set>
using namespace mc;
namespace o2 = ppocr::ocr2;
namespace l2 = ppocr::loader2;
int main_ocr2_extract_text(int, char**);

static Said read_dict(std::string const& f)
{
    struct N { uint64_t c, p, n, t; }; std::vector<N> v; Said r; std::size_t i = 0;
    while (i < f.size()) {
        std::size_t e = f.find('\n', i); if (e == std::string::npos) break;         // an incomplete last line says nothing
        std::string const l = f.substr(i, e - i); N n; Lex x{l}; bool ok = true; uint64_t* q[] = {&n.c, &n.p, &n.n, &n.t};
        for (unsigned k = 0; k < 4; ++k) { if (k) ok = ok && x.i < l.size() && l[x.i++] == ' '; ok = ok && x.i < l.size() && !Lex::blank(l[x.i]) && x.num(*q[k]); }
        if (!ok || !x.end() || n.t > 1)  break;       // nor does a damaged one
        v.push_back(n); i = e + 1;
    }
    // nodes in breadth-first order: the children of a node follow those of the node before it
    uint64_t next = v.empty() ? 0 : v[0].p; if (!v.empty() && next == 0) return r;
    for (std::size_t k = 0; k < v.size(); ++k) { if (k + v[k].p != next || (v[k].n && v[k].p == 0)) return r; next += v[k].n; if (next > v.size()) return r; }
    if (next != v.size()) return r;
    r.consistent = true; r.n = v.size(); for (auto& n : v) r.text += std::to_string(n.c) + " " + std::to_string(n.p) + " " + std::to_string(n.n) + " " + std::to_string(n.t) + "\n"; return r;
}
static Said read_datas(std::string const& f)
{
    Said r; Lex x{f}; uint64_t n, v; if (!x.num(n, 64) || n > f.size()) return r; std::string t = std::to_string(n) + "\n";
    auto put = [&]{ if (!x.num(v)) return false; t += std::to_string(v) + " "; return true; };
    for (unsigned k = 0; k < NS + 2; ++k) { for (uint64_t i = 0; i < n; ++i) if (!put()) return r; t += "\n"; }
    for (uint64_t i = 0; i < n; ++i) for (unsigned k = 0; k < 7; ++k) { if (!x.num(v, 64) || v > 1) return r; t += std::to_string(v) + " "; if (!put()) return r; } t += "\n";
    for (uint64_t i = 0; i < n; ++i) for (unsigned k = 0; k < 7; ++k) if (!put()) return r; t += "\n";
    for (uint64_t i = 0; i < n; ++i) { uint64_t m; if (!x.num(m, 64) || m > f.size()) return r; t += std::to_string(m) + " "; for (uint64_t k = 0; k < m; ++k) if (!put()) return r; } t += "\n";
    x.skip(); if (!x.end()) return r; r.consistent = true; r.text = t; r.n = n; return r;
}
static Said read_o2(std::string const& f)         // the recogniser does not look at the pictures nor at the last field of the views
{
    Said r; r.consistent = true; Lex x{f};
    while (!x.end()) {
        x.line(); x.skip(); std::size_t const b = x.i; uint64_t n; if (!x.num(n)) break; (void)b;
        while (!x.end() && x.s[x.i] == ' ') ++x.i; if (x.end() || x.s[x.i] != '\n') break; ++x.i;      // nothing else on the line of the count
        std::string t = "1 1 x\n" + std::to_string(n) + "\n", w, o; bool ok = true; for (uint64_t k = 0; k < n && ok; ++k) { ok = x.word(w) && x.word(o); if (ok) { t += w + " " + o + " 0\n"; x.line(); } }
        if (!ok) break; if (n && f.back() != '\n' && x.end()) r.alt = r.text; r.text += t; ++r.n;      // the last line is cut
    }
    return r;
}
static Said read_lines(std::string const& f)
{
    Said r; r.consistent = true; Lex x{f}; std::string w; uint64_t v;
    while (x.word(w)) { std::string t = w; bool ok = true; for (unsigned k = 0; k < 4 && ok; ++k) { ok = x.num(v) && v < 8; t += " " + std::to_string(v); } if (!ok) break; if (w.size() <= 8) { r.text += t + "\n"; ++r.n; } }
    return r;
}

// ---- the real readers; their content rewritten canonically, "" + error when refused; then used
enum Role { DICT, DATAS, O2, L2, LINES, ROLES };
static char const* const role_name[] = {"dictionary", "feature file", "glyph file (recogniser)", "glyph file (learning)", "word-lines file"};
static Said said(Role r, std::string const& f) { switch (r) { case DICT: return read_dict(f); case DATAS: return read_datas(f); case O2: return read_o2(f); case L2: return read_l2(f); default: return read_lines(f); } }
struct Got { bool refused = false; std::string text, why; };
template<class T> struct Loaded { std::unique_ptr<T> v; std::string why; };
template<class T> Loaded<T> load_in(std::string const& bytes)
{
    static std::string const f = scratch("damaged"); spit(f, bytes); errno = 0; Loaded<T> r;
    try { r.v.reset(new T(ppocr::utils::load_from_file<T>(f.c_str()))); } catch (std::exception const& e) { r.why = e.what(); }
    return r;
}
static std::string word_of(o2::Glyphs const& g, o2::View const& v) { auto& w = g.get_word(v); return std::string(w.begin(), w.end()); }
static Words const& texts() { static Words const v = {"a", "b", "ab", "ba", "abc", "bc", "abcd", "\xc3\xa9", "a\xc3\xa9" "b", "zz", "1", "12", "aaaaaaaaaaaaaaaaaaaaaaaaa"}; return v; }
static void use(ppocr::spell::Dictionary const& d)
{
    ppocr::spell::WordDisambiguouser w; (void)d.empty(); std::string o;
    for (auto& t : texts()) { std::vector<Words> one = {{t}}, by; for (char c : t) if ((c & 0x80) == 0) by.push_back({std::string(1, c)}); else by.push_back({t}); w(d, one.begin(), one.end(), o); w(d, by.begin(), by.end(), o); }
    std::vector<Words> amb = {{"a", "b", "1"}, {"b", "a", "\xc3\xa9", "2"}, {"c", "ab", "b"}}; w(d, amb.begin(), amb.end(), o); std::ostringstream os; os << d;
}
template<class... S> void use(mp_list<S...>, PpOcrDatas const& d, Row const& v)
{
    std::size_t const n = d.size(); o2::DataIndexesOrdered<ppocr::loader2::Strategy<ppocr::strategies::dvgravity2, ppocr::loader2::PolicyLoader::img90>> const o(d); volatile double sum = 0; unsigned k = 0;
    for (unsigned x : {0u, 50u, 100u, ~0u}) for (auto i : o.get_range(d, x, 10)) sum = sum + i;
    (..., ([&]{ for (std::size_t i = 0; i < n; ++i) sum = sum + S::relationship_type::dist(d.get<S>()[i], v.s[k]); ++k; }()));
    std::apply([](auto const&...){}, v.c);
    for (std::size_t i = 0; i < n; ++i) { auto const& al = d.get<ppocr::loader2::Strategy<ppocr::strategies::alternations, ppocr::loader2::PolicyLoader::img>>()[i]; sum = sum + ppocr::strategies::alternations::relationship_type::dist(std::get<2>(v.c), al);
        sum = sum + d.get<ppocr::loader2::Strategy<ppocr::strategies::zone, ppocr::loader2::PolicyLoader::img>>().in_dist_with(i, std::get<0>(v.e), 50) + d.get<ppocr::loader2::Strategy<ppocr::strategies::proportionality_zone, ppocr::loader2::PolicyLoader::img>>().in_dist_with(i, std::get<1>(v.e), 50); }
}
static Got load(Role r, std::string const& f)
{
    Got g;
    switch (r) {
    case DICT: { auto l = load_in<ppocr::spell::Dictionary>(f); if (!l.v) { g.refused = true; g.why = l.why; break; } std::ostringstream o; o << *l.v; g.text = o.str(); use(*l.v); break; }
    case DATAS: { auto l = load_in<PpOcrDatas>(f); if (!l.v) { g.refused = true; g.why = l.why; break; } std::vector<Row> rows; bool same = true; ppocr::loader2::apply_from_datas(*l.v, [&](auto const& d) { same = same && d.size() == l.v->size(); }); if (!same) { g.text = "features with different numbers of entries"; break; } for (std::size_t i = 0; i < l.v->size(); ++i) rows.push_back(row_at(*l.v, i)); g.text = datas_text(rows); static Row const v = letters()[0].row; use(ppocr::PpOcrSimpleDatas{}, *l.v, v); break; }
    case O2: { auto l = load_in<o2::Glyphs>(f); if (!l.v) { g.refused = true; g.why = l.why; break; } std::map<unsigned, std::string> fonts; 
        for (auto& vs : *l.v) { g.text += "1 1 x\n" + std::to_string(vs.size()) + "\n"; for (auto& v : vs) g.text += word_of(*l.v, v) + " #" + std::to_string(v.font) + " 0\n"; }
        o2::DataIndexesByWords const by(*l.v); auto const id = o2::get_views_indexes_ordered(*l.v); for (std::size_t i = 0; i < l.v->size(); ++i) for (auto j : by[i]) if (j >= l.v->size()) g.text += "bad rival\n"; for (auto i : id) if (i >= l.v->size()) g.text += "bad identity\n";
        for (auto& t : texts()) (void)l.v->word_index_of(t); break; }
    case L2: { auto l = load_in<l2::Glyphs>(f); if (!l.v) { g.refused = true; g.why = l.why; break; } for (auto& x : *l.v) { g.text += std::to_string(x.img.width()) + " " + std::to_string(x.img.height()) + " " + std::string(x.img.data(), x.img.area()) + "\n" + std::to_string(x.views.size()) + "\n"; for (auto& v : x.views) g.text += v.word + " " + v.font + " " + std::to_string(v.info_line) + "\n"; if (x.img.width() && x.img.height()) { auto r90 = x.img.rotate90(); if (r90.width() != x.img.height()) g.text += "bad rotation\n"; } } break; }
    default: { auto l = load_in<o2::WWordsLines>(f); if (!l.v) { g.refused = true; g.why = l.why; break; } for (auto& w : *l.v) g.text += std::string(w.sv()) + " " + std::to_string(w.wlines.ascentline) + " " + std::to_string(w.wlines.capline) + " " + std::to_string(w.wlines.meanline) + " " + std::to_string(w.wlines.baseline) + "\n";
        static o2::Glyphs const gl = []{ o2::Glyphs g; std::istringstream i("1 1 x\n2\na f 0\nb f 0\n1 1 x\n1\nab f 0\n"); i >> g; return g; }(); o2::WordsInfos const wi(gl, *l.v); for (unsigned k = 0; k < 12; ++k) (void)wi.get(k); break; }
    }
    return g;
}
// fonts are known by their identity only: replaces names by the order of their first occurrence
static std::string font_ids(std::string const& t, bool hashed)
{
    std::string o; std::map<std::string, unsigned> id; std::istringstream is(t); std::string l; unsigned left = 0; bool cnt = false;
    while (std::getline(is, l)) {
        if (left) { --left; std::istringstream x(l); std::string w, f; x >> w >> f; o += w + " " + std::to_string(id.emplace(f, id.size()).first->second) + "\n"; continue; }
        if (!cnt) { cnt = true; continue; } cnt = false; left = unsigned(strtoul(l.c_str(), nullptr, 10)); o += l + "\n";
    }
    return o;
}
static void judge(Ctx& c, Role r, std::string const& f, bool intact)
{
    c.note([&]{ return std::string(role_name[r]) + ":\n" + esc(f); }); c.state(mix(hash(f), r));
    Said const want = said(r, f); Got const got = load(r, f); c.transition();
    bool const canonical = want.consistent && want.text == f;
    c.outcome(mix(hash(got.text), got.refused));
    if (got.refused) { c.check(!intact && !(canonical && r != O2), [&]{ return "a complete " + std::string(role_name[r]) + " is refused: " + got.why; }); return; }
    c.check(want.consistent, [&]{ return "an inconsistent " + std::string(role_name[r]) + " is accepted, as\n" + esc(got.text); });
    bool const same = r == O2 ? font_ids(got.text, true) == font_ids(want.text, false) || (want.alt && font_ids(got.text, true) == font_ids(*want.alt, false)) : got.text == want.text;
    c.check(same, [&]{ return "the " + std::string(role_name[r]) + " is read as\n" + esc(got.text) + "instead of\n" + esc(want.text); });
}

// ---- base files
static std::vector<std::string> const& bases(Role r)
{
    static std::vector<std::string> v[ROLES];
    if (v[0].empty()) {
        auto dict = [](Words const& w) { std::ostringstream o; o << ppocr::spell::Dictionary(w); return o.str(); };
        v[DICT] = {dict({"ab", "b"}), dict({"a", "ab", "abc", "bc", "\xc3\xa9", "a\xc3\xa9"}), dict({"aaaa"}), dict({"a", "b", "c", "ab", "ba", "bc", "ca", "cab"}), dict({"12", "1", "21"})};
        auto const& L = letters(); auto small = [](Pic const& p) { return row_of(p); };
        v[DATAS] = {datas_text({L[2].row}), datas_text({small(Pic(1, 1, "x")), small(Pic(2, 1, "x-"))}), datas_text({L[0].row, L[2].row, small(motif(9, 9, 9))}), datas_text({})};
        v[O2] = v[L2] = {"1 1 x\n1\na f 0\n", "2 1 x-\n2\na f 0\nb gg 12\n1 1 x\n1\nab f 3\n", "1 1 x\n1\n1 10 0\n1 1 x\n1\n2 10 0\n1 1 x\n1\n1 11 5\n", "3 2 x-xx--\n3\n0 f 1\n1 f 2\n1 g 3\n1 2 x-\n2\n1 f 0\n2 1 1\n", "1 1 -\n1\n\xc3\xa9 font_with_a_name 4294967295\n2 2 xxxx\n1\na_word_longer_than_others f 1\n", "5 1 x-x-x\n12\n1 a 1\n2 a 1\n3 a 1\n4 a 1\n5 a 1\n6 a 1\n7 a 1\n8 a 1\n9 a 1\n1 b 1\n2 b 1\n3 b 1\n1 1 x\n1\n1 f 0\n"};
        v[LINES] = {"a 4 4 2 2\n", "a 4 4 2 2\nb 4 2 1 2\n\xc3\xa9 1 2 3 4\n", "1 1 2 3 4\n2 4 4 2 2\n3 0 0 6 6\n", "12345678 1 1 1 1\n123456789 2 2 2 2\nab 3 3 3 3\n"};
    }
    return v[r];
}
static std::pair<Role, std::string> base(Ctx& c) { Role const r = Role(c.choose(ROLES)); auto const& b = bases(r); return {r, b[c.choose(unsigned(b.size()))]}; }
// ---- the recogniser with one damaged file
struct Files { std::string f[4]; };       // glyphs, features, word lines, dictionary
static Files const& intact() { static Files x; if (x.f[0].empty()) { auto const& L = letters(); std::vector<Row> rows; for (unsigned i = 0; i < 3; ++i) rows.push_back(L[i].row); x.f[0] = glyphs_text({{{"a", "f"}, {"b", "f"}}, {{"1", "f"}}, {{"b", "g"}}}); x.f[1] = datas_text(rows); x.f[2] = "a 4 4 2 2\nb 4 2 1 2\n1 4 2 1 2\n"; std::ostringstream o; o << ppocr::spell::Dictionary(Words{"ab", "b1", "1"}); x.f[3] = o.str(); } return x; }
static ToolRun recogniser(Files const& x)
{
    static std::string const img = [] { auto const& L = letters(); std::string f = scratch("line"); spit(f, p4(line_of({{&L[0].pic, 1, 2}, {&L[1].pic, 2, 2}, {&L[2].pic, 2, 9}, {&L[0].pic, 8, 2}}))); return f; }();
    std::vector<std::string> a; for (unsigned k = 0; k < 4; ++k) { std::string const f = scratch("k" + std::to_string(k)); spit(f, x.f[k]); a.push_back(f); if (k == 1) a.push_back(img); }
    ToolRun r = run_tool(main_ocr2_extract_text, {a[0], a[1], img, a[3], a[4]}); return r;
}
static void e2e(Ctx& c, unsigned which, std::string const& f)
{
    static Role const role[] = {O2, DATAS, LINES, DICT};
    c.note([&]{ return "recogniser with this " + std::string(role_name[role[which]]) + ":\n" + esc(f); }); c.state(mix(hash(f), which));
    Files x = intact(); x.f[which] = f; ToolRun const got = recogniser(x); c.transition(); c.outcome(mix(hash(got.out), got.failed()));
    if (got.failed()) { c.check(f != intact().f[which], [&]{ return "the recogniser fails with intact files: " + got.err; }); return; }
    Said const w = said(role[which], f); c.check(w.consistent, [&]{ return "the recogniser accepts an inconsistent file and prints\n" + got.out; });
    x.f[which] = w.text; ToolRun want = recogniser(x); if (w.alt && (want.failed() || want.out != got.out)) { x.f[which] = *w.alt; want = recogniser(x); } c.check(!want.failed() && want.out == got.out, [&]{ return "the recogniser prints\n" + got.out + "with the damaged file, and with its complete leading entries\n" + want.out + want.err; });
}
static std::vector<Family> families(Tier t)
{
    std::vector<Family> fs;
    std::string const B = "every one of " + std::to_string([]{ std::size_t n = 0; for (unsigned r = 0; r < ROLES; ++r) n += bases(Role(r)).size(); return n; }()) + " small files (5 kinds) ";
    fs.push_back({"intact", B + "as it is: accepted", [](Ctx& c){ auto b = base(c); judge(c, b.first, b.second, true); }, 0, 1});
    fs.push_back({"one-change", B + "cut after every byte, with every number replaced by 40 values, every byte replaced by 19 others, deleted, 19 bytes inserted everywhere, every line deleted, doubled, swapped, an empty line inserted", [](Ctx& c){ auto b = base(c); judge(c, b.first, damage(c, b.second, 6), false); }});
    fs.push_back({"change-and-cut", B + "with every one of those changes except the insertions, then cut after every byte", [](Ctx& c){ auto b = base(c); if (b.second.size() > 200) return; unsigned const k = c.choose(3); std::string f = b.second; if (k == 0) f = damage(c, f, 2); else if (k == 1) { if (f.empty()) return; f.erase(c.choose(unsigned(f.size())), 1); } else { auto ls = lines(f); if (ls.empty()) return; unsigned i = c.choose(unsigned(ls.size())); if (c.flag()) ls.erase(ls.begin() + i); else ls.insert(ls.begin() + i, ls[i]); f.clear(); for (auto& l : ls) f += l; } if (f.size() > 300) return; judge(c, b.first, f.substr(0, c.choose(unsigned(f.size()) + 1)), false); }});
    fs.push_back({"two-numbers", B + "with every two numbers replaced by " + std::string(t.thorough ? "22" : "10") + " values each" + (t.thorough ? "" : " (files of at most 80 bytes)"), [&t = *new Tier(t)](Ctx& c){
        auto b = base(c); std::string f = b.second; if (f.size() > (t.thorough ? 260u : 80u)) return; auto x = fields(f); if (x.size() < 2) return; unsigned const j = 1 + c.choose(unsigned(x.size()) - 1), i = c.choose(j);
        static char const* const V[] = {"0", "1", "2", "3", "5", "4294967295", "65536", "2147483649", "-1", "x", "4", "6", "7", "8", "9", "10", "100", "2147483648", "1 1", "", "4294967297", "18446744073709551615"}; unsigned const n = t.thorough ? 22 : 10; unsigned const u = c.choose(n), v = c.choose(n);
        f.replace(x[j].at, x[j].len, V[v]); f.replace(x[i].at, x[i].len, V[u]); judge(c, b.first, f, false); }});
    unsigned const D = t.thorough ? 5 : 4;
    fs.push_back({"every-dictionary-index", "every sequence of 1.." + std::to_string(D) + " dictionary nodes with offset 0..4, 0..3 children and codes a b", [D](Ctx& c){ unsigned const n = 1 + c.choose(D); std::string f; for (unsigned i = 0; i < n; ++i) { unsigned const v = c.choose(20); f += std::to_string(97 + i % 2) + " " + std::to_string(v % 5) + " " + std::to_string(v / 5) + " " + std::to_string((i + v) % 2) + "\n"; } judge(c, DICT, f, false); }});
    unsigned const M = t.thorough ? 8 : 7;
    fs.push_back({"every-glyph-file", "every sequence of 0.." + std::to_string(M) + " lines out of 6 (picture, counts 0 1 2, a view, a view that looks like numbers), both readers", [M](Ctx& c){ Role const r = c.flag() ? L2 : O2; unsigned const n = c.choose(M + 1); static char const* const L[] = {"1 1 x\n", "0\n", "1\n", "2\n", "a f 0\n", "1 1 1\n"}; std::string f; for (unsigned i = 0; i < n; ++i) f += L[c.choose(6)]; judge(c, r, f, false); }});
    unsigned const W = t.thorough ? 9 : 8;
    fs.push_back({"every-line-file", "every sequence of 0.." + std::to_string(W) + " tokens out of 5 (a, 1, 7, 8, x) with blanks or a newline after every fifth", [W](Ctx& c){ unsigned const n = c.choose(W + 1); static char const* const L[] = {"a", "1", "7", "8", "x"}; std::string f; for (unsigned i = 0; i < n; ++i) { f += L[c.choose(5)]; f += i % 5 == 4 ? '\n' : ' '; } judge(c, LINES, f, false); }});
    fs.push_back({"recogniser", "the recogniser program with each of its 4 knowledge files cut after every byte, with every number replaced by 40 values, every byte replaced, deleted, lines deleted, doubled, swapped" , [](Ctx& c){ unsigned const w = c.choose(4); e2e(c, w, damage(c, intact().f[w], 6)); }});
    return fs;
}
MC_MAIN(families)
