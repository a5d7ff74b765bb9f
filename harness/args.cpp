// C36: the arguments of a tool decide what it does: every argument list is either carried out, in order and completely, or refused.
#include "knowledge.hpp"
#include "box_model.hpp"
#include "ppocr/spell/dictionary.hpp"
#include <set>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
using namespace mc;

int main_normalize_glyphs(int, char**);
int main_write_glyphs(int, char**);
int main_write_datas(int, char**);
int main_make_trie_dictionary(int, char**);
int main_show_glyphs(int, char**);
int main_ocr2_extract_text(int, char**);

static std::string cut(std::string const& s) { return s.size() > 700 ? s.substr(0, 700) + "..." : s; }
// ---- the files
static unsigned lum_of(unsigned v) { return ((511 * v + 511) >> 10) + ((396 * v + 511) >> 10) + ((117 * v + 511) >> 10); }
struct Grey { unsigned w, h; std::vector<unsigned> v; };
static std::string p6(Grey const& g) { std::string s = "P6\n" + std::to_string(g.w) + " " + std::to_string(g.h) + "\n255\n"; for (auto x : g.v) s += std::string(3, char(x)); return s; }
static Pic at_threshold(Grey const& g, unsigned long bound) { Pic p(g.w, g.h); for (std::size_t i = 0; i < g.v.size(); ++i) p.p[i] = lum_of(g.v[i]) < bound ? '-' : 'x'; return p; }
static std::string glyph_text(Pic const& p, std::string const& views, unsigned n) { return std::to_string(p.w) + " " + std::to_string(p.h) + " " + p.p + "\n" + std::to_string(n) + "\n" + views; }
struct File { std::string text; Grey grey; Pic pic; bool image = false; };
static Pic image(File const& f, unsigned long bound) { return f.grey.w ? at_threshold(f.grey, bound) : f.pic; }
enum { P, Q, WP, WQ, W3, NONE, G1, G2, G3, D1, D2, KG, KD, LINE, WL, DICT, FILES };
static std::vector<File> const& files()
{
    static std::vector<File> v;
    if (v.empty()) {
        v.resize(FILES);
        Grey g{9, 2, {}}; for (unsigned y = 0; y < 2; ++y) for (unsigned x = 0; x < 9; ++x) g.v.push_back(x == 1 ? 240u : x == 4 ? (y ? 150u : 240u) : x == 7 && y ? 110u : 10u);      // one more letter at threshold 100 than at 128, one pixel less at 200
        v[P].grey = g; v[P].image = true; v[P].text = p6(g);
        v[Q].pic = Pic(4, 3, "x---xx-x---x"); v[Q].image = true; v[Q].text = p4(v[Q].pic);
        v[WP].text = "a b\n"; v[WQ].text = "c\n\n dd"; v[W3].text = "x\ny\tz\n"; v[NONE].text = "";
        v[G1].text = glyph_text(Pic(2, 2, "xx-x"), "a f 4294967295\nb g 1\n", 2) + glyph_text(Pic(1, 3, "xxx"), "l f 3\n", 1);
        v[G2].text = glyph_text(Pic(2, 2, "xx-x"), "a f 4294967295\na h 2\n", 2) + glyph_text(Pic(3, 1, "x-x"), "d f 1\n", 1);
        v[G3].text = glyph_text(Pic(1, 1, "x"), ". f 0\n", 1);
        v[D1].text = "abc\nab\n\n\xc3\xa9t\xc3\xa9\n"; v[D2].text = "b\nab";
        auto& L = letters(); std::vector<Row> rows; std::vector<GV> gv = {{{"a", "f"}}, {{"bb", "f"}, {"c", "g"}}, {{".", "f"}}}; for (unsigned i = 0; i < 3; ++i) rows.push_back(L[i].row);
        v[KG].text = glyphs_text(gv); v[KD].text = datas_text(rows); v[LINE].pic = line_of({{&L[0].pic, 1, 1}, {&L[1].pic, 2, 1}, {&L[2].pic, 6, 3}}); v[LINE].image = true; v[LINE].text = p4(v[LINE].pic);
        v[WL].text = "a 0 1 2 2\nbb 3 0 2 2\n"; { std::ostringstream o; o << ppocr::spell::Dictionary(Words{"abb", "a", "\xc3\xa9t\xc3\xa9"}); v[DICT].text = o.str(); }
    }
    return v;
}
static std::string path_of(unsigned k) { return scratch("arg" + std::to_string(k)); }
static void lay() { static pid_t owner = 0; if (owner == getpid()) return; owner = getpid(); for (unsigned k = 0; k < FILES; ++k) spit(path_of(k), files()[k].text); }
// an argument: a literal, or a file
struct Arg { std::string lit; int file = -1; std::string str() const { return file < 0 ? lit : path_of(unsigned(file)); } };
static char const* const names[FILES] = {"P", "Q", "WP", "WQ", "W3", "EMPTY", "G1", "G2", "G3", "D1", "D2", "GLYPHS", "DATAS", "LINE", "LINES", "DICT"};
static std::string shown(std::vector<Arg> const& v) { std::string s; for (auto& a : v) s += " " + (a.file < 0 ? "'" + a.lit + "'" : "<" + std::string(names[a.file]) + ">"); return s; }
static Arg lit(char const* s) { return {s, -1}; }
static Arg file(int k) { return {"", k}; }
static Arg const missing = {"/nowhere/no-such-file", -1};

struct Want { enum { REFUSE, USAGE, DO, EITHER } what = REFUSE; std::string out; };
static void judge(Ctx& c, char const* name, int (*tool)(int, char**), std::vector<Arg> const& a, Want const& w)
{
    lay(); c.note([&]{ return std::string(name) + shown(a); }); { uint64_t h = hash(name); for (auto& x : a) h = mix(mix(h, hash(x.lit)), uint64_t(x.file + 1)); c.state(h); }
    std::vector<std::string> args; for (auto& x : a) args.push_back(x.str());
    ToolRun const r = run_tool(tool, args); c.transition(); c.outcome(mix(hash(r.out), r.failed()));
    if (w.what == Want::DO || (w.what == Want::EITHER && !r.failed())) {
        c.check(!r.failed(), [&]{ return std::string(name) + shown(a) + " is refused: " + cut(r.err); });
        c.check(r.out == w.out, [&]{ return std::string(name) + shown(a) + " writes\n" + cut(r.out) + "instead of\n" + cut(w.out); });
    }
    else {
        c.check(r.failed(), [&]{ return std::string(name) + shown(a) + " cannot be carried out and is not reported"; });
        if (w.what == Want::USAGE) c.check(r.out.empty(), [&]{ return std::string(name) + shown(a) + " is no use of the tool, but writes\n" + cut(r.out); });
    }
}
// ---- the tools
static bool number(std::string const& s, unsigned long& n) { if (s.empty() || s.find_first_not_of("0123456789") != std::string::npos) return false; n = strtoul(s.c_str(), nullptr, 10); return true; }
// what remains after the option, with the threshold; false: refused
static bool option(std::vector<Arg> const& a, std::vector<Arg>& rest, unsigned long& bound)
{
    bound = 128; rest = a;
    if (a.size() >= 3 && a[0].file < 0 && a[0].lit == "-l") { if (a[1].file >= 0 || !number(a[1].lit, bound)) return false; rest.assign(a.begin() + 2, a.end()); }
    return true;
}
static Want want_write(std::vector<Arg> const& a)
{
    std::vector<Arg> r; unsigned long bound; Want w;
    if (!option(a, r, bound) || r.size() < 3 || r.size() % 3) { w.what = Want::USAGE; return w; }
    for (std::size_t i = 0; i < r.size(); i += 3) {
        if (r[i].file < 0 || !files()[unsigned(r[i].file)].image || r[i + 1].file < 0) return w;
        Pic const p = image(files()[unsigned(r[i].file)], bound); auto const boxes = box_model(p); std::istringstream is(files()[unsigned(r[i + 1].file)].text); std::vector<std::string> words; std::string s; while (is >> s) words.push_back(s);
        if (words.size() != boxes.size()) return w;
        for (std::size_t k = 0; k < boxes.size(); ++k) w.out += glyph_text(p.crop(boxes[k].x, boxes[k].y, boxes[k].w, boxes[k].h), words[k] + " " + r[i + 2].str() + " 4294967295\n", 1);
    }
    w.what = Want::DO; return w;
}
static Want want_show(std::vector<Arg> const& a)
{
    std::vector<Arg> r; unsigned long bound; Want w;
    if (!option(a, r, bound) || r.empty()) { w.what = Want::USAGE; return w; }
    for (auto& x : r) {
        if (x.file < 0 || !files()[unsigned(x.file)].image) return w;
        Pic const p = image(files()[unsigned(x.file)], bound);
        for (auto& b : box_model(p)) { Pic const q = p.crop(b.x, b.y, b.w, b.h); std::string const edge(q.w + 2, ':'); w.out += edge + "\n"; for (unsigned y = 0; y < q.h; ++y) w.out += ":" + q.p.substr(std::size_t(y) * q.w, q.w) + ":\n"; w.out += edge + "\n\n"; }
    }
    w.what = Want::DO; return w;
}
static bool is_glyphs(Arg const& a) { return a.file == G1 || a.file == G2 || a.file == G3 || a.file == KG || a.file == NONE; }
static Want want_normal(std::vector<Arg> const& a)
{
    Want w; if (a.empty()) { w.what = Want::USAGE; return w; }
    std::map<Pic, std::set<std::tuple<std::string, std::string, unsigned>>> m;
    for (auto& x : a) { if (!is_glyphs(x)) return w; for (auto& g : parse_glyph_text(files()[unsigned(x.file)].text)) for (auto& v : g.views) m[g.pic].insert({v.word, v.font, unsigned(strtoul(v.info.c_str(), nullptr, 10))}); }
    for (auto& [p, v] : m) { std::string s; for (auto& [x, f, i] : v) s += x + " " + f + " " + std::to_string(i) + "\n"; w.out += glyph_text(p, s, unsigned(v.size())); }
    w.what = Want::DO; return w;
}
static Want want_datas(std::vector<Arg> const& a)
{
    Want w; if (a.size() != 1) { w.what = Want::USAGE; return w; }
    if (!is_glyphs(a[0])) return w;
    std::vector<Row> rows; for (auto& g : parse_glyph_text(files()[unsigned(a[0].file)].text)) rows.push_back(row_of(g.pic));
    PpOcrDatas d; for (auto& g : parse_glyph_text(files()[unsigned(a[0].file)].text)) d.load(to_image(g.pic)); std::ostringstream o; o << d; w.out = o.str(); w.what = Want::DO; return w;
}
static Want want_dict(std::vector<Arg> const& a)
{
    Want w; if (a.empty()) { w.what = Want::USAGE; return w; }
    Words all; for (auto& x : a) { if (x.file < 0) return w; std::istringstream is(files()[unsigned(x.file)].text); std::string s; while (std::getline(is, s)) all.push_back(s); }
    std::ostringstream o; o << ppocr::spell::Dictionary(all); w.out = o.str(); w.what = Want::DO; return w;
}
static Want want_ocr(std::vector<Arg> const& a, std::string const* base)
{
    Want w; if (a.size() < 3) { w.what = Want::USAGE; return w; }
    static int const kind[5] = {KG, KD, LINE, WL, DICT}; bool exact = true;
    for (std::size_t i = 0; i < a.size(); ++i) { if (i < 5 && a[i].file < 0) return w; if (i >= 5 || a[i].file != kind[i]) { if (i < 3) return w; exact = false; } }
    if (!exact) { w.what = Want::EITHER; return w; }
    w.what = Want::DO; w.out = base[a.size() - 3]; return w;
}
static std::vector<Arg> list(Ctx& c, std::vector<Arg> const& al, unsigned max) { std::vector<Arg> v; for (unsigned n = c.choose(max + 1); n; --n) v.push_back(al[c.choose(unsigned(al.size()))]); return v; }

static std::vector<Family> families(Tier t)
{
    std::vector<Family> fs; unsigned const X = t.thorough ? 1 : 0;
    fs.push_back({"write_glyphs", "every list of 0.." + std::to_string(5 + X) + " arguments out of {-l, 100, 200, x, two pictures, three word files, a missing file}", [X](Ctx& c){
        static std::vector<Arg> const al = {lit("-l"), lit("100"), lit("200"), lit("x"), file(P), file(Q), file(WP), file(WQ), file(W3), missing}; auto const a = list(c, al, 5 + X); judge(c, "write_glyphs", main_write_glyphs, a, want_write(a)); }});
    fs.push_back({"write_glyphs-lines", "no option or one of 5, 1..3 lines out of 7 (fitting and not), 0..2 arguments missing at the end or one too many", [](Ctx& c){
        static std::vector<std::vector<Arg>> const opts = {{}, {lit("-l"), lit("100")}, {lit("-l"), lit("200")}, {lit("-l"), lit("")}, {lit("-l")}, {lit("-l100")}};
        static std::vector<std::vector<Arg>> const lines = {{file(P), file(WP), lit("f")}, {file(P), file(W3), lit("g")}, {file(Q), file(WQ), lit("f")}, {file(Q), file(WP), lit("-l")}, {file(WP), file(P), lit("f")}, {file(P), file(WP), lit("200")}, {missing, file(WQ), lit("f")}};
        std::vector<Arg> a = c.pick(opts); unsigned const n = 1 + c.choose(3); for (unsigned i = 0; i < n; ++i) { auto& l = c.pick(lines); a.insert(a.end(), l.begin(), l.end()); }
        unsigned const e = c.choose(4); if (e < 3) a.resize(a.size() - e); else a.push_back(lit("f")); judge(c, "write_glyphs", main_write_glyphs, a, want_write(a)); }});
    fs.push_back({"file-names", "write_glyphs, show_glyphs, normalize_glyphs, make_trie_dictionary: 1..3 files out of 20 whose names resemble options and numbers (-large, -l5, -L, --l, -, 100, -l itself ...): a name is an option only where the usage line says so", [](Ctx& c){
        static std::vector<std::string> const ns = {"-large", "-l5", "-l=5", "-lx", "-L", "--l", "--luminance", "-", "--", "-L100", "100", "200", "l", "-l", "--help", "-h", "--version", "-o", "a b", "*"};
        static pid_t owner = 0; static std::string const dir = scratch("names"); 
        struct Back { int fd = open(".", O_RDONLY | O_DIRECTORY); ~Back() { if (fchdir(fd)) {} close(fd); } } back; mkdir(dir.c_str(), 0700); if (chdir(dir.c_str())) throw std::runtime_error("chdir");
        unsigned const tool = c.choose(4), n = 1 + c.choose(3); std::vector<unsigned> k; for (unsigned i = 0; i < n; ++i) k.push_back(c.choose(20));
        static unsigned laid = 9; if (owner != getpid() || laid != tool) { owner = getpid(); laid = tool; for (unsigned i = 0; i < ns.size(); ++i) spit(ns[i], tool <= 1 ? p4(Pic(3, 1, "x-x")) : tool == 2 ? glyph_text(Pic(1, 1 + i, std::string(1 + i, 'x')), "a f 1\n", 1) : "w" + std::to_string(i) + "\n"); spit("words", "a b"); }
        std::vector<std::string> args; std::string want; bool refused = false; std::vector<unsigned> rest = k;
        for (auto i : k) { args.push_back(ns[i]); if (tool == 0) { args.push_back("words"); args.push_back("f"); } }
        unsigned pictures = n;
        if (tool == 0 && ns[k[0]] == "-l") refused = true;                                       // the number is "words"
        if (tool == 1 && ns[k[0]] == "-l" && n == 3) { unsigned long b; if (!number(ns[k[1]], b)) refused = true; pictures = 1; }
        for (unsigned i = 0; i < pictures; ++i) want += tool == 0 ? glyph_text(Pic(1, 1, "x"), "a f 4294967295\n", 1) + glyph_text(Pic(1, 1, "x"), "b f 4294967295\n", 1) : ":::\n:x:\n:::\n\n:::\n:x:\n:::\n\n";
        if (tool == 2) { want.clear(); std::set<unsigned> u(k.begin(), k.end()); for (auto i : u) want += glyph_text(Pic(1, 1 + i, std::string(1 + i, 'x')), "a f 1\n", 1); }
        if (tool == 3) { Words ws; for (auto i : k) ws.push_back("w" + std::to_string(i)); std::ostringstream o; o << ppocr::spell::Dictionary(ws); want = o.str(); }
        static char const* const names[] = {"write_glyphs", "show_glyphs", "normalize_glyphs", "make_trie_dictionary"}; std::string line = names[tool]; for (auto& a : args) line += " '" + a + "'"; c.note([&]{ return line; }); c.state(hash(line));
        ToolRun const r = run_tool(tool == 0 ? main_write_glyphs : tool == 1 ? main_show_glyphs : tool == 2 ? main_normalize_glyphs : main_make_trie_dictionary, args); c.transition(); c.outcome(mix(hash(r.out), r.failed()));
        c.check(r.failed() == refused, [&]{ return line + (refused ? " is not refused" : " is refused: " + cut(r.err)); });
        if (refused) c.check(r.out.empty(), [&]{ return line + " is no use of the tool, but writes\n" + cut(r.out); }); else c.check(r.out == want, [&]{ return line + " writes\n" + cut(r.out) + "instead of\n" + cut(want); }); }});
    fs.push_back({"show_glyphs", "every list of 0.." + std::to_string(5 + X) + " arguments out of {-l, 100, 200, x, nothing, two pictures, a word file, a missing file}", [X](Ctx& c){
        static std::vector<Arg> const al = {lit("-l"), lit("100"), lit("200"), lit("x"), lit(""), file(P), file(Q), file(WP), missing}; auto const a = list(c, al, 5 + X); judge(c, "show_glyphs", main_show_glyphs, a, want_show(a)); }});
    fs.push_back({"normalize_glyphs", "every list of 0.." + std::to_string(5 + X) + " arguments out of {three glyph files, an empty file, a word file, a picture, a missing file}", [X](Ctx& c){
        static std::vector<Arg> const al = {file(G1), file(G2), file(G3), file(NONE), file(WP), file(Q), missing}; auto const a = list(c, al, 5 + X); judge(c, "normalize_glyphs", main_normalize_glyphs, a, want_normal(a)); }});
    fs.push_back({"write_datas", "every list of 0..4 arguments out of {three glyph files, an empty file, a word file, a missing file, nothing}", [](Ctx& c){
        static std::vector<Arg> const al = {file(G1), file(G2), file(G3), file(NONE), file(WP), missing, lit("")}; auto const a = list(c, al, 4); judge(c, "write_datas", main_write_datas, a, want_datas(a)); }});
    fs.push_back({"make_trie_dictionary", "every list of 0.." + std::to_string(5 + X) + " arguments out of {three word files, an empty file, a missing file, nothing}", [X](Ctx& c){
        static std::vector<Arg> const al = {file(D1), file(D2), file(WP), file(NONE), missing, lit("")}; auto const a = list(c, al, 5 + X); judge(c, "make_trie_dictionary", main_make_trie_dictionary, a, want_dict(a)); }});
    fs.push_back({"ocr2_extract_text", "every list of 0.." + std::to_string(5 + X) + " arguments out of {glyphs, features, picture, word lines, dictionary, a missing file}", [X](Ctx& c){
        static std::vector<Arg> const al = {file(KG), file(KD), file(LINE), file(WL), file(DICT), missing}; auto const a = list(c, al, 5 + X); lay();
        static std::string base[3]; static pid_t owner = 0;
        if (owner != getpid()) { owner = getpid(); std::vector<std::string> v = {path_of(KG), path_of(KD), path_of(LINE)}; for (unsigned k = 0; k < 3; ++k) { if (k) v.push_back(path_of(k == 1 ? WL : DICT)); ToolRun const r = run_tool(main_ocr2_extract_text, v); c.check(!r.failed(), [&]{ return "the recogniser fails on valid files: " + r.err; }); base[k] = r.out; } }
        Want const w = want_ocr(a, base);
        if (w.what == Want::EITHER) { c.note([&]{ return "ocr2_extract_text" + shown(a); }); std::vector<std::string> v; for (auto& x : a) v.push_back(x.str()); ToolRun const r = run_tool(main_ocr2_extract_text, v); c.transition(); c.outcome(r.failed()); return; }
        judge(c, "ocr2_extract_text", main_ocr2_extract_text, a, w); }});
    fs.push_back({"many-files", "n files given to each tool that takes several, n on the scale up to 5000", [](Ctx& c){
        static auto const N = scale(5000); unsigned const n = c.pick(N), tool = c.choose(4), o = c.choose(2); std::vector<Arg> a; lay();
        for (unsigned i = 0; i < n; ++i) { unsigned const k = (i * 7 + i / 5 + o) % 3; if (tool == 0) { a.push_back(file(k ? P : Q)); a.push_back(file(k ? WP : WQ)); a.push_back({"font" + std::to_string(i), -1}); if (!k) a[a.size() - 2] = file(WP); } else a.push_back(file(tool == 1 ? k ? P : Q : tool == 2 ? G1 + int(k) : k == 2 ? WP : D1 + int(k))); }
        judge(c, tool == 0 ? "write_glyphs" : tool == 1 ? "show_glyphs" : tool == 2 ? "normalize_glyphs" : "make_trie_dictionary", tool == 0 ? main_write_glyphs : tool == 1 ? main_show_glyphs : tool == 2 ? main_normalize_glyphs : main_make_trie_dictionary, a, tool == 0 ? want_write(a) : tool == 1 ? want_show(a) : tool == 2 ? want_normal(a) : want_dict(a)); }});
    fs.push_back({"luminance", "write_glyphs and show_glyphs with 40 spellings of the luminance x a picture of every grey level: used as the number it is, or refused", [](Ctx& c){
        static char const* const ls[] = {"0", "1", "00", "0128", "99", "100", "127", "128", "129", "254", "255", "256", "257", "1000", "65535", "65536", "65664", "2147483647", "2147483648", "2147483776", "4294967295",
            "4294967296", "4294967297", "4294967424", "8589934720", "18446744073709551615", "18446744073709551616", "18446744073709551744", "99999999999999999999999", "-1", "-128", "-4294967168", "", " ", "x", "12x", "12 ", "0x80", "1.5", "--"};
        unsigned const k = c.choose(40), use = c.choose(3), tool = use > 0; std::string const l = ls[k]; Grey g{512, 1, {}}; for (unsigned i = 0; i < 256; ++i) { g.v.push_back(i); g.v.push_back(i % 3 ? 0 : 255); }
        bool const big = k >= 21 && k < 29, none = k >= 29; unsigned long const bound = big ? ~0ul : none ? 0 : strtoul(l.c_str(), nullptr, 10);
        std::string const fp = scratch("lum-p"), fw = scratch("lum-w"); spit(fp, p6(g)); Pic const p = at_threshold(g, bound); auto const boxes = box_model(p); std::string words, want; 
        for (std::size_t i = 0; i < boxes.size(); ++i) { Pic const q = p.crop(boxes[i].x, boxes[i].y, boxes[i].w, boxes[i].h); words += "w" + std::to_string(i) + " ";
            if (tool) want += glyph_text(q, "w" + std::to_string(i) + " f 4294967295\n", 1); else want += std::string(q.w + 2, ':') + "\n:" + q.p + ":\n" + std::string(q.w + 2, ':') + "\n\n"; }
        // the words that fit what the number is modulo 2^32
        if (use == 2) { auto const wrapped = box_model(at_threshold(g, unsigned(strtoul(l.c_str(), nullptr, 10)))); if (wrapped.size() == boxes.size()) return; words = ""; for (std::size_t i = 0; i < wrapped.size(); ++i) words += "w "; }
        spit(fw, words); c.note([&]{ return std::string(tool ? "write_glyphs" : "show_glyphs") + " -l '" + l + "'"; }); c.state(mix(k, use));
        ToolRun const r = tool ? run_tool(main_write_glyphs, {"-l", l, fp, fw, "f"}) : run_tool(main_show_glyphs, {"-l", l, fp}); c.transition(); c.outcome(mix(hash(r.out), r.failed()));
        if (use == 2) { c.check(r.failed(), [&]{ return "the luminance '" + l + "' is taken for another number: " + cut(r.out); }); return; }
        if (none) c.check(r.failed(), [&]{ return "the luminance '" + l + "' is accepted"; });
        else { c.check(big || !r.failed(), [&]{ return "the luminance '" + l + "' is refused"; }); if (!r.failed()) c.check(r.out == want, [&]{ return "the luminance '" + l + "' is taken for another number: " + cut(r.out) + "instead of " + cut(want); }); } }});
    return fs;
}
MC_MAIN(families)
