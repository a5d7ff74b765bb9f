// C18-C21: dictionary, dictionary files, UTF-8 decoding, dictionary-guided reading.
#include "cli.hpp"
#include "ppocr/spell/dictionary.hpp"
#include "ppocr/spell/word_disambiguouser.hpp"
#include "ppocr/utils/utf.hpp"
#include "ppocr/utils/read_file.hpp"
#include <set>
#include <map>
using namespace mc;
using ppocr::spell::Dictionary;
using Words = std::vector<std::string>;
using Cands = std::vector<std::vector<std::string>>;

int main_make_trie_dictionary(int, char**);

static std::string esc(std::string const& s) { std::string r; char b[8]; for (unsigned char c : s) { if (c >= 32 && c < 127) r += char(c); else { snprintf(b, sizeof b, "\\x%02x", c); r += b; } } return r; }
static std::string list(Words const& w) { std::string s = "{"; for (auto& x : w) s += " '" + esc(x) + "'"; return s + " }"; }
static std::string list(Cands const& w) { std::string s; for (auto& x : w) s += list(x); return s; }
static std::vector<std::string> chars(std::string const& s)       // valid UTF-8 only
{
    std::vector<std::string> r;
    for (std::size_t i = 0; i < s.size();) { unsigned char c = (unsigned char)s[i]; std::size_t n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; r.push_back(s.substr(i, n)); i += n; }
    return r;
}
static bool guided(Dictionary const& d, Cands const& cs, std::string& out) { ppocr::spell::WordDisambiguouser w; return w(d, cs.begin(), cs.end(), out); }
// does the dictionary accept this text: as one candidate, and character by character
static void accepts(Ctx& c, Dictionary const& d, std::set<std::string> const& words, std::string const& text, char const* how)
{
    bool const want = words.count(text) != 0;
    std::string o1 = "<", o2 = "<"; Cands by; for (auto& x : chars(text)) by.push_back({x});
    bool const a = guided(d, {{text}}, o1), b = by.empty() ? want : guided(d, by, o2); c.transition(2);
    c.check(a == want && b == want, [&]{ return std::string(how) + ": '" + esc(text) + "' is " + (a && b ? "accepted" : a || b ? "accepted in one way only" : "refused") + " by the dictionary of " + list(Words(words.begin(), words.end())); });
    c.check(o1 == (a ? "<" + text : "<") && (by.empty() || o2 == (b ? "<" + text : "<")), [&]{ return std::string(how) + ": accepting '" + esc(text) + "' gives '" + esc(o1) + "' and '" + esc(o2) + "'"; });
}
static std::string encode(uint32_t v)
{
    std::string s;
    if (v < 0x80) s += char(v); else if (v < 0x800) { s += char(0xc0 | v >> 6); s += char(0x80 | (v & 63)); }
    else if (v < 0x10000) { s += char(0xe0 | v >> 12); s += char(0x80 | (v >> 6 & 63)); s += char(0x80 | (v & 63)); }
    else { s += char(0xf0 | v >> 18); s += char(0x80 | (v >> 12 & 63)); s += char(0x80 | (v >> 6 & 63)); s += char(0x80 | (v & 63)); }
    return s;
}
static Words all_texts(Words const& letters, unsigned maxlen)
{
    Words r = {""}; std::size_t b = 0;
    for (unsigned l = 0; l < maxlen; ++l) { std::size_t e = r.size(); for (std::size_t i = b; i < e; ++i) for (auto& x : letters) r.push_back(r[i] + x); b = e; }
    return r;
}
static Words const& letters() { static Words const v = {"a", "b", "\xc3\xa9", "\xf0\x9f\x98\x80", "\xe2\x82\xac"}; return v; }

static std::vector<unsigned> FAR = {1023, 1024, 1025, 4095, 4096, 4097, 65534, 65535, 65536, 65537, 100000};   // and 1000000 in the thorough tier
// ---------------------------------------------------------------- C18
static void dictionary(Ctx& c, Words const& listed, Words const& probes)
{
    c.note([&]{ return "dictionary of " + list(listed); });
    { uint64_t h = 1; for (auto& w : listed) h = mix(h, hash(w)); c.state(h); }
    std::set<std::string> want; for (auto& w : listed) if (!w.empty()) want.insert(w);
    Dictionary const d(listed);
    c.check(d.empty() == want.empty(), "empty() is wrong");
    uint64_t o = 1; for (auto& p : probes) { accepts(c, d, want, p, "dictionary"); o = mix(o, want.count(p)); }
    for (auto& w : want) { accepts(c, d, want, w, "dictionary"); accepts(c, d, want, w + "a", "dictionary"); accepts(c, d, want, w + w, "dictionary"); }
    c.outcome(o);
}
static std::vector<Family> c18(Tier t)
{
    if (t.thorough && FAR.back() != 1000000) FAR.push_back(1000000);
    std::vector<Family> fs;
    static Words const A = all_texts({"a", "b"}, 3), P4 = all_texts({"a", "b"}, 4), PU = all_texts(letters(), 3);
    unsigned const n2 = t.thorough ? 15 : 15;
    fs.push_back({"every-set", "every subset of the " + std::to_string(n2) + " texts of at most 3 letters over {a b} (the blank one included); every text of at most 4 letters looked up", [](Ctx& c){
        Words l; for (auto& w : A) if (c.choose(2)) l.push_back(w); dictionary(c, l, P4); }});
    unsigned const L = t.thorough ? 5 : 4; static Words const W = {"a", "ab", "", "\xc3\xa9", "abc", "\xc3\xa9\xf0\x9f\x98\x80", "b", "\xf0\x9f\x98\x80"};
    fs.push_back({"every-list", "every list of 0.." + std::to_string(L) + " entries (order and repetition matter) out of 8 (blank, prefixes, 1 to 4 byte characters); every text of at most 3 characters out of 5 looked up", [L](Ctx& c){
        unsigned n = c.choose(L + 1); Words l; for (unsigned i = 0; i < n; ++i) l.push_back(W[c.choose(8)]); dictionary(c, l, PU); }});
    static Words const U = {"\x01", "\x7f", "\xc2\x80", "\xdf\xbf", "\xe0\xa0\x80", "\xed\x9f\xbf", "\xef\xbf\xbf", "\xf0\x90\x80\x80", "\xf4\x8f\xbf\xbf", "a\xc2\x80", "\xc2\x80" "a", "\xc3\x80"};
    fs.push_back({"boundaries", "every subset of 12 words at the borders of the UTF-8 lengths", [](Ctx& c){ Words l; for (auto& w : U) if (c.choose(2)) l.push_back(w); dictionary(c, l, U); }});
    fs.push_back({"large", "word lists of 50 to 20000 generated words, four orders", [](Ctx& c){ static unsigned const ns[] = {50, 300, 3000, 20000}; unsigned const n = ns[c.choose(4)], o = c.choose(4); Words l, probes;
        for (unsigned i = 0; i < n; ++i) { unsigned k = o == 0 ? i : o == 1 ? n - 1 - i : (i * 7919) % n; if (o == 3) k /= 2; std::string w; for (unsigned m = k * 2654435761u % (n * 4); ; m /= 23) { w += letters()[m % 3] + char('c' + m % 23); if (m < 23) break; } l.push_back(w); }
        for (unsigned i = 0; i < 60; ++i) { std::string w = l[i * n / 60]; probes.push_back(w); probes.push_back(w + "z"); w.pop_back(); probes.push_back(w); }
        std::set<std::string> want(l.begin(), l.end()); Dictionary const d(l); c.state(mix(n, o)); for (auto& p : probes) if (!p.empty()) accepts(c, d, want, p, "large dictionary"); c.outcome(want.size()); }});
    fs.push_back({"fan-out", "dictionaries of n words that differ in their first, second or last character, for every n of the scale up to " + std::to_string(t.thorough ? 140000 : 70000) + " (codes of all UTF-8 lengths)", [t](Ctx& c){
        static auto const S = scale(t.thorough ? 140000 : 70000); unsigned const n = c.pick(S), place = c.choose(3); if (!t.thorough && n > 11000 && (place != 1 || (n != 32769 && n != 65537))) return; Words l; auto code = [](unsigned i) { i += 'c'; if (i >= 0xd800) i += 0x800; return encode(i); };
        static char const* pre[] = {"", "a", "ab"}; static char const* post[] = {"b", "", ""}; for (unsigned i = 0; i < n; ++i) l.push_back(pre[place] + code(i) + post[place]);
        std::set<std::string> const want(l.begin(), l.end()); Dictionary const d(l); c.state(mix(n, place)); c.outcome(d.empty()); c.check(!d.empty(), "empty() is wrong");
        for (unsigned i = 0; i <= n + 1; i += (n < 50 || i < 3 || i + 3 > n) ? 1 : std::max(1u, n / 37)) { auto const x = code(i); for (auto& p : {pre[place] + x + post[place], x, pre[place] + x + "a", pre[place] + x + post[place] + x}) accepts(c, d, want, p, "wide dictionary"); } }});
    fs.push_back({"long-words", "words of 1..600 characters, the word, its prefix and its extension", [](Ctx& c){ unsigned n = 1 + c.choose(600), k = c.choose(5); std::string w; for (unsigned i = 0; i < n; ++i) w += letters()[(i * 3 + k) % 5]; dictionary(c, {w, w + "a", w + "b"}, {w, w + "a", w + "c", w + letters()[k]}); }});
    fs.push_back({"very-long-words", "words of 1023..1025, 4095..4097, 65534..65537, 100000 (thorough: 1000000) characters next to their half, their prefix, their extension and short words", [](Ctx& c){ unsigned const n = c.pick(FAR), k = c.choose(2) * 3; std::string w; for (unsigned i = 0; i < n; ++i) w += k ? letters()[(i * 3 + k) % 5] : std::string(1, char('a' + i % 7 + i / 1000 % 5)); std::string const half = k ? "a" : w.substr(0, n / 2);
        std::set<std::string> const want{w, w + "a", half, "b"}; Dictionary const d(Words{w + "a", "b", w, half}); c.state(mix(n, k)); c.outcome(d.empty()); for (auto& x : {w, w + "a", w + "b", half, half + "#", w.substr(0, w.size() - (k ? 5 : 1)) + "#", std::string("b"), std::string("ba")}) accepts(c, d, want, x, "dictionary of a very long word"); }});
    return fs;
}

// ---------------------------------------------------------------- C19
static void saved(Ctx& c, std::vector<std::string> const& files, Words const& probes)
{
    c.note([&]{ std::string s; for (auto& f : files) s += "file '" + esc(f) + "' "; return s; });
    { uint64_t h = 1; for (auto& w : files) h = mix(h, hash(w)); c.state(h); }
    std::set<std::string> want;
    for (auto& f : files) for (std::size_t i = 0; i < f.size();) { std::size_t e = f.find('\n', i); if (e == std::string::npos) e = f.size(); if (e > i) want.insert(f.substr(i, e - i)); i = e + 1; }
    ToolRun const r = run_tool_on(main_make_trie_dictionary, files); c.transition();
    c.check(!r.failed(), [&]{ return "make_trie_dictionary fails: " + r.err; });
    c.outcome(r.out);
    std::string const f = scratch("dict"); spit(f, r.out);
    Dictionary d; try { errno = 0; ppocr::utils::read_file(d, f.c_str()); } catch (std::exception const& e) { c.fail(std::string("the dictionary written cannot be loaded: ") + e.what()); }
    c.transition();
    c.check(d.empty() == want.empty(), "empty() is wrong after loading");
    for (auto& p : probes) if (!p.empty()) accepts(c, d, want, p, "loaded dictionary");
    for (auto& w : want) { accepts(c, d, want, w, "loaded dictionary"); accepts(c, d, want, w + "a", "loaded dictionary"); }
    std::ostringstream o; o << d; c.check(o.str() == r.out, "saving the reloaded dictionary gives another file");
    std::vector<std::string> rev(files.rbegin(), files.rend()); ToolRun const r2 = run_tool_on(main_make_trie_dictionary, rev); c.transition();
    c.check(r2.out == r.out, "the order of the word files changes the dictionary file");
    // loading replaces what was there
    Dictionary e(Words{"zz", "a"}); std::istringstream is(r.out); is >> e; std::ostringstream o2; o2 << e; c.check(o2.str() == r.out, "loading over another dictionary does not replace it");
}
static std::vector<Family> c19(Tier t)
{
    if (t.thorough && FAR.back() != 1000000) FAR.push_back(1000000);
    std::vector<Family> fs;
    static Words const L = {"", "a", "ab", "b", "\xc3\xa9", "aba", "\xf0\x9f\x98\x80" "a"}, P = all_texts({"a", "b", "\xc3\xa9", "\xf0\x9f\x98\x80"}, 3);
    unsigned const N = t.thorough ? 6 : 5;
    fs.push_back({"files", "every sequence of 0.." + std::to_string(N) + " lines out of 7 (blank ones included), every split into one or two files, with and without final newline; every text of at most 3 characters out of 4 looked up (longer sequences: the 20 shortest)", [N](Ctx& c){
        unsigned const n = c.choose(N + 1), split = c.choose(n + 1), end = c.choose(2); std::vector<std::string> f(1); for (unsigned i = 0; i < n; ++i) { if (i && i == split) f.emplace_back(); f.back() += L[c.choose(7)] + "\n"; }
        if (end && !f.back().empty()) f.back().pop_back();
        saved(c, f, n <= 4 ? P : Words(P.begin(), P.begin() + 20)); }});
    fs.push_back({"sets", "every subset of the 15 texts of at most 3 letters over {a b}, in one file", [](Ctx& c){ static Words const A = all_texts({"a", "b"}, 3); std::string f; for (auto& w : A) if (c.choose(2)) f += w + "\n"; saved(c, {f}, {"a", "b", "ab", "aa", "ba", "bb", "aab", "bab", "bba", "abba"}); }});
    fs.push_back({"lines-with-blanks", "every list of 1..3 lines out of 12 (blanks and tabs in front, behind and inside, carriage returns, control characters, punctuation), with and without final newline: a line is a word as it stands", [](Ctx& c){
        static Words const W = {"a", " a", "a ", " ", "a b", "\ta", "a\t", "a\r", "  a", "#a", "a\x01", "\xc2\xa0" "a"}; unsigned const n = 1 + c.choose(3), end = c.choose(2); std::string f; for (unsigned i = 0; i < n; ++i) f += W[c.choose(12)] + "\n"; if (end) f.pop_back(); saved(c, {f}, W); }});
    fs.push_back({"file-sizes", "n files of one word, one file of n words, a word of n characters (up to 3000), for every n of the scale", [t](Ctx& c){
        static auto const S = scale(t.thorough ? 20000 : 3000); unsigned const kind = c.choose(3), n = c.pick(S); std::vector<std::string> f; Words probes = {"w", "w0", "w1", "a", "b"};
        if (kind == 0) { if (n > 300) return; for (unsigned i = 0; i < n; ++i) f.push_back("w" + std::to_string(i) + (i % 3 ? "\n" : "")); }
        else if (kind == 1) { f.resize(1); for (unsigned i = 0; i < n; ++i) f[0] += "w" + std::to_string(i * 7919u % n) + "\n"; }
        else { if (n > 3000) return; f.push_back("b\n" + text_of(n) + "\na\n"); probes.push_back(text_of(n - 1)); probes.push_back(text_of(n + 1)); }
        saved(c, f, probes); }});
    fs.push_back({"very-long-lines", "a file whose second word has 1023..1025, 4095..4097, 65534..65537, 100000 (thorough: 1000000) characters", [](Ctx& c){ unsigned const n = c.pick(FAR), last = c.choose(2); std::string const w = text_of(n); saved(c, {last ? "b\nab\n" + w : "b\n" + w + "\na\n"}, {"a", "b", w.substr(1), w.substr(0, n - 1), w + w.substr(n - 1)}); }});
    fs.push_back({"three-files", "every triple of 8 word files (overlapping, empty, blank lines, blanks inside words)", [](Ctx& c){ static std::vector<std::string> const f = {"", "\n", "a\nb\n", "b\na", "abc\nab\na\n", "\n\nz\n\n", "two words\na\n", "\xc3\xa9t\xc3\xa9\n\xc3\xa9\n"}; std::vector<std::string> g; for (int i = 0; i < 3; ++i) g.push_back(f[c.choose(8)]); saved(c, g, {"a", "ab", "abc", "z", "two", "two words", "two word", "\xc3\xa9t\xc3\xa9", "\xc3\xa9t"}); }});
    fs.push_back({"large", "generated lists of 100..20000 words split over 1..4 files", [](Ctx& c){ static unsigned const ns[] = {100, 1000, 20000}; unsigned const n = ns[c.choose(3)], parts = 1 + c.choose(4); std::vector<std::string> f(parts); Words probes;
        for (unsigned i = 0; i < n; ++i) { unsigned m = i * 2654435761u % (n * 3); std::string w; for (;; m /= 19) { w += letters()[m % 5] + char('c' + m % 19); if (m < 19) break; } f[i % parts] += w + "\n"; if (i % (n / 20) == 0) probes.push_back(w.substr(0, w.size() - 1)); }
        c.state(mix(n, parts)); ToolRun r = run_tool_on(main_make_trie_dictionary, f); c.transition(); c.outcome(r.out); std::istringstream is(r.out); Dictionary d; is >> d;
        std::set<std::string> want; for (auto& x : f) { std::istringstream l(x); std::string w; while (std::getline(l, w)) want.insert(w); }
        unsigned k = 0; for (auto& w : want) if (k++ % 7 == 0) accepts(c, d, want, w, "large saved dictionary");
        for (auto& p : probes) if (!p.empty()) accepts(c, d, want, p, "large saved dictionary"); }});
    fs.push_back({"wide-files", "one word file of n words that share all, none or a few of their first characters, split over one or two files, for every n of the scale from 3000 up to " + std::to_string(t.thorough ? 300000 : 70000) + " (over 65536 nodes)", [t](Ctx& c){
        static auto const S = [t]{ std::vector<unsigned> v; for (unsigned n : scale(t.thorough ? 300000 : 70000)) if (n > 3000) v.push_back(n); return v; }(); unsigned const n = c.pick(S), kind = c.choose(3), parts = 1 + c.choose(2); if (!t.thorough && n > 11000 && (n != 65537 || (parts == 2 && kind != 1))) return; std::vector<std::string> f(parts);
        auto code = [](unsigned i) { i += 'c'; if (i >= 0xd800) i += 0x800; return encode(i); }; std::vector<std::string> w(n); std::set<std::string> want;
        for (unsigned i = 0; i < n; ++i) { w[i] = kind == 0 ? "a" + code(i) : kind == 1 ? code(i) + "a" : code(i % 40) + code(i / 40) + (i % 2 ? "" : "b"); f[i * 13 / 7 % parts] += w[i] + "\n"; want.insert(w[i]); }
        c.note([&]{ return "a file of " + std::to_string(n) + " words, kind " + std::to_string(kind); }); c.state(mix(mix(n, kind), parts));
        ToolRun const r = run_tool_on(main_make_trie_dictionary, f); c.transition(); c.check(!r.failed(), [&]{ return "make_trie_dictionary fails: " + r.err; }); c.outcome(r.out);
        std::istringstream is(r.out); Dictionary d; is >> d; c.transition(); std::ostringstream o; o << d; c.check(o.str() == r.out, "saving the reloaded dictionary gives another file");
        for (unsigned i = 0; i < n; i += i < 3 || i + 3 > n ? 1 : std::max(1u, n / 41)) for (auto& p : {w[i], w[i] + "a", w[i] + "b", code(i)}) accepts(c, d, want, p, "wide saved dictionary"); }});
    fs.push_back({"shipped", "the first words of the shipped French dictionary file, if it is a word list or a dictionary file: saving it again reproduces it", [](Ctx& c){
        std::string const s = slurp(repo_dir() + "/resources/dict_fr.txt"); c.state(s.size()); if (s.empty()) return;
        Dictionary d; std::istringstream is(s); bool trie = true; try { is >> d; } catch (std::exception const&) { trie = false; } c.transition();
        if (trie && !d.empty()) { std::ostringstream o; o << d; c.check(o.str() == s, "saving the shipped dictionary again gives another file"); c.outcome(1); return; }
        std::string cutoff = s.substr(0, s.find('\n', std::min<std::size_t>(s.size() - 1, 300000)) + 1); ToolRun r = run_tool_on(main_make_trie_dictionary, {cutoff}); c.transition(); std::istringstream is2(r.out); Dictionary e; is2 >> e;
        std::set<std::string> want; { std::istringstream l(cutoff); std::string w; while (std::getline(l, w)) if (!w.empty()) want.insert(w); }
        unsigned k = 0; for (auto& w : want) if (k++ % 11 == 0) { accepts(c, e, want, w, "shipped word list"); accepts(c, e, want, w + "q", "shipped word list"); } c.outcome(2); }, 0, 1});
    return fs;
}

// ---------------------------------------------------------------- C20
struct Ref { std::vector<std::pair<uint32_t, std::string>> cps; bool defined = true; };
// structure of a NUL-terminated byte string: characters up to its end, or up to a truncated sequence or stray continuation byte
static Ref decode(std::string const& s)
{
    Ref r; std::size_t i = 0;
    while (i < s.size()) {
        unsigned char const c = (unsigned char)s[i]; unsigned n; uint32_t v;
        if (c < 0x80) { n = 1; v = c; } else if (c < 0xc0) return r; else if (c < 0xe0) { n = 2; v = c & 0x1f; } else if (c < 0xf0) { n = 3; v = c & 15; } else { n = 4; v = c & 7; }
        for (unsigned k = 1; k < n; ++k) { if (i + k >= s.size() || ((unsigned char)s[i + k] & 0xc0) != 0x80) { if (c >= 0xf8) r.defined = false; return r; } v = v << 6 | ((unsigned char)s[i + k] & 0x3f); }
        // never valid: overlong forms, surrogates, beyond U+10FFFF: no demand but memory safety
        if ((n == 2 && v < 0x80) || (n == 3 && (v < 0x800 || (v >= 0xd800 && v < 0xe000))) || (n == 4 && (v < 0x10000 || v > 0x10ffff)) || c >= 0xf8) { r.defined = false; return r; }
        r.cps.push_back({v, s.substr(i, n)}); i += n;
    }
    return r;
}
static uint32_t packed(std::string const& s) { uint32_t v = 0; for (unsigned char c : s) v = v << 8 | c; return v; }
static void utf(Ctx& c, std::string const& s, bool dict)
{
    c.note([&]{ return "bytes '" + esc(s) + "'"; });
    c.state(s);
    Ref const r = decode(s);
    std::unique_ptr<char[]> buf(new char[s.size() + 1]); memcpy(buf.get(), s.c_str(), s.size() + 1);   // exactly sized: any overrun is seen by ASan
    auto walk = [&](auto it, bool pack, char const* n) {
        std::size_t k = 0; auto base = reinterpret_cast<uint8_t const*>(buf.get());
        for (; *it; ++it, ++k) {
            c.check(it.code() == *it, "code() differs from *");
            c.check(k <= s.size() && it.pos() > base && it.pos() <= base + s.size(), [&]{ return std::string(n) + ": leaves the string '" + esc(s) + "'"; });
            if (k < r.cps.size()) c.check(*it == (pack ? packed(r.cps[k].second) : r.cps[k].first), [&]{ return std::string(n) + ": character " + std::to_string(k) + " of '" + esc(s) + "' is " + std::to_string(*it); });
            else c.check(!r.defined, [&]{ return std::string(n) + ": a character is invented in '" + esc(s) + "'"; });
        }
        c.check(!r.defined || k == r.cps.size(), [&]{ return std::string(n) + ": " + std::to_string(k) + " characters in '" + esc(s) + "' instead of " + std::to_string(r.cps.size()); });
        c.check(k >= r.cps.size(), [&]{ return std::string(n) + ": '" + esc(s) + "' ends early"; });
        c.transition(k + 1);
    };
    walk(ppocr::utf::UTF8toUnicodeIterator(buf.get()), false, "unicode iterator");
    walk(ppocr::utf::UTF8Iterator(buf.get()), true, "character iterator");
    c.outcome(mix(r.cps.size(), r.defined));
    if (!dict || !r.defined) return;
    std::string text; for (auto& p : r.cps) text += p.second;
    Dictionary const d(Words{s}); c.transition();
    c.check(d.empty() == text.empty(), [&]{ return "dictionary of '" + esc(s) + "'"; });
    if (text.empty()) return;
    std::string o; bool const ok = guided(d, {{text}}, o); c.check(ok && o == text, [&]{ return "the word '" + esc(text) + "' comes back as '" + esc(o) + "'"; });
    struct Exact { char const* p; char const* data() const { return p; } };
    std::vector<std::vector<Exact>> one{{Exact{buf.get()}}}; std::string o2; ppocr::spell::WordDisambiguouser w;
    bool const ok2 = w(d, one.begin(), one.end(), o2); c.check(ok2 && o2 == text, [&]{ return "the word '" + esc(s) + "' is read as '" + esc(o2) + "'"; });
    c.transition(2);
}
static std::vector<Family> c20(Tier t)
{
    if (t.thorough && FAR.back() != 1000000) FAR.push_back(1000000);
    std::vector<Family> fs;
    fs.push_back({"every-code-point", "every Unicode scalar value U+1..U+10FFFF alone, decoded, stored in a dictionary and read back", [](Ctx& c){
        unsigned const hi = c.choose(0x110), lo = c.choose(0x1000); uint32_t v = hi * 0x1000 + lo; if (v == 0 || v > 0x10ffff || (v >= 0xd800 && v < 0xe000)) return; utf(c, encode(v), v % 16 < 2 || v < 0x3000); }});
    fs.push_back({"every-2-bytes", "every string of one or two bytes", [](Ctx& c){ std::string s(1, char(1 + c.choose(255))); unsigned const b = c.choose(256); if (b) s += char(b); utf(c, s, true); }});
    static unsigned char const rep[] = {0x01, 0x41, 0x7f, 0x80, 0x8f, 0xa0, 0xbf, 0xc0, 0xc2, 0xdf, 0xe0, 0xe2, 0xed, 0xef, 0xf0, 0xf3, 0xf4, 0xf7, 0xf8, 0xff};
    unsigned const L = t.thorough ? 6 : 5;
    fs.push_back({"byte-classes", "every string of 3.." + std::to_string(L) + " bytes over 20 byte classes (leads, continuations, ends of ranges; length " + std::to_string(L) + ": 12 of them)", [L](Ctx& c){
        unsigned const n = 3 + c.choose(L - 2); std::string s; for (unsigned i = 0; i < n; ++i) { unsigned k = c.choose(n == L ? 12 : n >= 5 ? 14 : 20); static unsigned char const sel[] = {1, 3, 6, 8, 10, 11, 14, 15, 17, 19, 9, 13, 2, 7}; s += char(n >= 5 ? rep[sel[k]] : rep[k]); } utf(c, s, n == 3); }});
    if (t.thorough) fs.push_back({"every-3-bytes", "every string of three bytes", [](Ctx& c){ std::string s; for (int i = 0; i < 3; ++i) s += char(1 + c.choose(255)); utf(c, s, false); }});
    fs.push_back({"mixed", "every sequence of 1..5 characters out of 8 of all lengths, cut after every byte", [](Ctx& c){ static char const* w[] = {"a", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\x7f", "\xdf\xbf", "\xef\xbf\xbd", "\xf4\x8f\xbf\xbf"};
        unsigned n = 1 + c.choose(5); std::string s; for (unsigned i = 0; i < n; ++i) s += w[c.choose(8)]; unsigned const cut = c.choose(4); if (cut >= s.size()) return; utf(c, s.substr(0, s.size() - cut), true); }});
    return fs;
}

// ---------------------------------------------------------------- C21
static bool reference(std::set<std::string> const& words, Cands const& cs, std::size_t i, std::string const& pre, std::string& out)
{
    if (i == cs.size()) { if (!words.count(pre)) return false; out = pre; return true; }
    for (auto& x : cs[i]) if (reference(words, cs, i + 1, pre + x, out)) return true;
    return false;
}
static void guide(Ctx& c, Words const& listed, Cands const& cs, std::string const& before)
{
    c.note([&]{ return "dictionary " + list(listed) + " candidates " + list(cs) + " output so far '" + esc(before) + "'"; });
    { uint64_t h = hash(before); for (auto& w : listed) h = mix(h, hash(w)); for (auto& x : cs) { h = mix(h, 99); for (auto& w : x) h = mix(h, hash(w)); } c.state(h); }
    std::set<std::string> words; for (auto& w : listed) if (!w.empty()) words.insert(w);
    std::string want; bool const w = !cs.empty() && reference(words, cs, 0, "", want);
    Dictionary const d(listed); std::string got = before; bool const r = guided(d, cs, got); c.transition();
    c.outcome(mix(w, hash(want)));
    auto ctx = [&]{ return " for dictionary " + list(listed) + " and candidates " + list(cs); };
    c.check(r == w, [&]{ return std::string(r ? "succeeds although no word can be spelled" : "fails although a word can be spelled") + ctx(); });
    c.check(got == before + (w ? want : ""), [&]{ return "appends '" + esc(got.size() >= before.size() ? got.substr(before.size()) : "(the earlier text is damaged) " + got) + "', expected '" + esc(w ? want : "") + "'" + ctx(); });
}
static std::vector<Family> c21(Tier t)
{
    if (t.thorough && FAR.back() != 1000000) FAR.push_back(1000000);
    std::vector<Family> fs;
    static Words const D = {"a", "ab", "ba", "bb", "aba", "abb", "bab", "aab"};
    static std::vector<Words> const sets = {{"a"}, {"b"}, {"a", "b"}, {"b", "a"}, {}, {"ab", "a"}, {"a", "ab"}, {"ba", "bb", "b"}};
    unsigned const P = t.thorough ? 4 : 3;
    fs.push_back({"every-dictionary", "every subset of 8 words over {a b} x every sequence of 0.." + std::to_string(P) + " positions out of 8 candidate lists (empty, one, two, three candidates of one or two letters)", [P](Ctx& c){
        Words l; for (auto& w : D) if (c.choose(2)) l.push_back(w); unsigned n = c.choose(P + 1); Cands cs; for (unsigned i = 0; i < n; ++i) cs.push_back(sets[c.choose(8)]); guide(c, l, cs, ""); }});
    static Words const U = {"\xc3\xa9t\xc3\xa9", "\xc3\xa9", "\xf0\x9f\x98\x80x", "\xe2\x82\xac\xe2\x82\xac", "t\xc3\xa9", "\xc3\xa9t"};
    static std::vector<Words> const us = {{"\xc3\xa9"}, {"t"}, {"e", "\xc3\xa9", "t"}, {"\xf0\x9f\x98\x80", "\xe2\x82\xac"}, {"x", "\xe2\x82\xac"}, {"\xc3\xa9t", "\xc3\xa8"}, {"t\xc3\xa9", "t"}, {"\xe2\x82\xac\xe2\x82\xac"}};
    fs.push_back({"utf8", "every subset of 6 UTF-8 words x every sequence of 0..3 positions out of 8 candidate lists x 3 texts already in the output", [](Ctx& c){
        Words l; for (auto& w : U) if (c.choose(2)) l.push_back(w); unsigned n = c.choose(4); Cands cs; for (unsigned i = 0; i < n; ++i) cs.push_back(us[c.choose(8)]); static char const* b[] = {"", "abc", "\xc3\xa9 "}; guide(c, l, cs, b[c.choose(3)]); }});
    unsigned const K = t.thorough ? 4 : 3;
    fs.push_back({"candidate-order", "3 dictionaries x every sequence of 2 positions, each any ordered list of 1.." + std::to_string(K) + " candidates out of {a b ab ba}", [K](Ctx& c){
        static std::vector<Words> const ds = {{"aa", "ab", "ba", "bb"}, {"aab", "aba", "ba", "abab"}, {"a", "b", "bab", "abb", "abba"}}; static char const* x[] = {"a", "b", "ab", "ba"};
        Words const& l = ds[c.choose(3)]; Cands cs(2); for (auto& v : cs) { unsigned n = 1 + c.choose(K); for (unsigned i = 0; i < n; ++i) v.push_back(x[c.choose(4)]); } guide(c, l, cs, "-"); }});
    fs.push_back({"backtracking", "words of 4..9 letters over {a b} reachable only through the last choice: 512 dictionaries of one word plus decoys", [](Ctx& c){
        unsigned const n = 4 + c.choose(6), m = c.choose(1u << 9), rot = c.choose(2); std::string w; for (unsigned i = 0; i < n; ++i) w += m >> i & 1 ? 'a' : 'b';
        Words l = {w, w + "a", w.substr(0, n - 1)}; for (unsigned i = 1; i < n; ++i) { std::string x = w; x[i] = '#'; l.push_back(x); }
        Cands cs(n, rot ? Words{"a", "b"} : Words{"b", "#", "a"}); guide(c, l, cs, "x"); }});
    static auto const N = scale(t.thorough ? 5000 : 1025);
    fs.push_back({"lengths", "a word of n characters among words that differ at its end, one candidate per character or two with the wrong one first, output of n bytes before it, n on the scale up to " + std::to_string(N.back()), [](Ctx& c){
        unsigned const n = c.pick(N), k = c.choose(3), o = c.choose(5); std::string w; Cands cs; for (unsigned i = 0; i < n; ++i) { std::string x = letters()[(i * 2 + o) % 5]; w += x; cs.push_back(k == 1 && (i < 9 || i + 9 > n) ? Words{letters()[(i * 2 + o + 1) % 5], x} : Words{x}); }
        guide(c, {w, w + "a", w + w}, cs, k == 2 ? text_of(n) : "y"); }});
    fs.push_back({"very-long", "a word of 1023..1025, 4095..4097, 65534..65537, 100000 (thorough: 1000000) characters, one candidate per character (the wrong one first at the ends), per two, or as a whole", [](Ctx& c){
        unsigned const n = c.pick(FAR), k = c.choose(3), o = c.choose(2) * 3, good = c.choose(2); std::string w; Cands cs; for (unsigned i = 0; i < n; ++i) { std::string const x = o ? letters()[(i * 2 + o) % 5] : std::string(1, char('a' + i % 7)); w += x; if (k == 0) cs.push_back(i < 9 || i + 9 > n ? Words{"-", x} : Words{x}); else if (cs.empty() || (k == 1 && i % 2 == 0)) cs.push_back({x}); else cs.back()[0] += x; }
        Words const listed = good ? Words{w, w + "a", "b"} : Words{w + "a", "b"}; Dictionary const d(listed); c.state(mix(mix(n, k), o + good)); c.outcome(mix(k, good)); std::string got = "-"; bool const r = guided(d, cs, got); c.transition(); c.check(r == bool(good) && got == (good ? "-" + w : "-"), [&]{ return "a word of " + std::to_string(n) + " characters: " + (r ? "spelled" : "refused") + ", " + std::to_string(got.size()) + " bytes of output"; }); }});
    fs.push_back({"candidate-counts", "n candidates at one of three positions, the fitting one first, in the middle, last or missing, n on the scale up to " + std::to_string(N.back()), [](Ctx& c){
        unsigned const n = c.pick(N), at = c.choose(3), place = c.choose(4); Cands cs = {{"x"}, {"y"}, {"z"}}; Words v; for (unsigned i = 0; i < n; ++i) v.push_back(encode(0x4e00 + i)); std::string const good = cs[at][0]; if (place < 3) v[place == 0 ? 0 : place == 1 ? n / 2 : n - 1] = good; cs[at] = v;
        guide(c, {"xyz", "xy", "yz", "z", encode(0x4e00)}, cs, "-"); }});
    fs.push_back({"dictionary-sizes", "dictionaries of n words with a common beginning, the candidates spell the first, the middle, the last or none of them, n on the scale up to " + std::to_string(N.back()), [](Ctx& c){
        unsigned const n = c.pick(N), place = c.choose(4); Words l; for (unsigned i = 0; i < n; ++i) l.push_back("ab" + encode('c' + i) + "d"); unsigned const i = place == 0 ? 0 : place == 1 ? n / 2 : place == 2 ? n - 1 : n;
        guide(c, l, {{"a"}, {"a", "b"}, {"!", encode('c' + i)}, {"c", "d"}}, ""); }});
    fs.push_back({"sibling-counts", "dictionaries of n words that differ in their first, second or last character, the candidates spell the word at one of 9 places or one that is not listed, n on the scale up to " + std::to_string(N.back()), [](Ctx& c){
        unsigned const n = c.pick(N), shape = c.choose(3), place = c.choose(10); auto x = [](unsigned i) { return encode(0x4e00 + i); }; Words l; for (unsigned i = 0; i < n; ++i) l.push_back(shape == 0 ? x(i) + "ab" : shape == 1 ? "a" + x(i) + "b" : "ab" + x(i));
        unsigned const i = place == 9 ? n : place == 8 ? n - 1 : uint64_t(n) * place / 8; Cands cs = {{"a"}, {"b"}}; cs.insert(cs.begin() + shape, Words{"b", x(i), x(0)}); guide(c, l, cs, "-"); }});
    fs.push_back({"long", "one word of 1..40 characters of 1..4 bytes, one candidate per character, per pair and as a whole", [](Ctx& c){ unsigned n = 1 + c.choose(40), k = c.choose(3), o = c.choose(5); std::string w; Cands cs; for (unsigned i = 0; i < n; ++i) { std::string x = letters()[(i * 2 + o) % 5]; w += x; if (k == 0 || cs.empty() || (k == 1 && i % 2 == 0)) cs.push_back({x}); else cs.back()[0] += x; } guide(c, {w}, cs, "y"); }});
    return fs;
}
static std::vector<Family> families(Tier t)
{
    if (t.thorough && FAR.back() != 1000000) FAR.push_back(1000000);
    (void)c18; (void)c19; (void)c20; (void)c21;
#if PROP == 18
    return c18(t);
#elif PROP == 19
    return c19(t);
#elif PROP == 20
    return c20(t);
#else
    return c21(t);
#endif
}
MC_MAIN(families)
