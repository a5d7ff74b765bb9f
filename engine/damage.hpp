// Damaged text files: reading them independently, and every way to damage them.
#pragma once
#include "mc.hpp"
#include <optional>
#include <string>
#include <vector>
#include <cstdint>
using namespace mc;

// ---- what a file says, read independently: its complete leading entries, canonically rewritten; nothing when it says nothing consistent
struct Lex
{
    std::string const& s; std::size_t i = 0;
    static bool blank(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
    bool end() const { return i >= s.size(); }
    void skip() { while (!end() && blank(s[i])) ++i; }
    // a decimal number that fits in bits; a sign is understood as the standard library does
    bool num(uint64_t& v, unsigned bits = 32)
    {
        skip(); bool neg = false; if (!end() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
        if (end() || s[i] < '0' || s[i] > '9') return false;
        unsigned __int128 x = 0; bool big = false; while (!end() && s[i] >= '0' && s[i] <= '9') { x = x * 10 + unsigned(s[i++] - '0'); if (x >> bits) { big = true; x = 0; } }
        if (big) return false; uint64_t const m = bits == 64 ? ~0ull : (1ull << bits) - 1; v = (neg ? 0 - uint64_t(x) : uint64_t(x)) & m; return true;
    }
    bool word(std::string& w) { skip(); w.clear(); while (!end() && !blank(s[i])) w += s[i++]; return !w.empty(); }
    void line() { while (!end() && s[i] != '\n') ++i; if (!end()) ++i; }
};
struct Said { bool consistent = false; std::string text; std::size_t n = 0; std::optional<std::string> alt{}; };      // text: canonical file of the complete leading entries; alt: also possible

inline Said read_l2(std::string const& f)
{
    Said r; r.consistent = true; Lex x{f};
    for (;;) {
        uint64_t w, h, n, v; if (!x.num(w) || !x.num(h)) break; ++x.i; unsigned __int128 const a = (unsigned __int128)w * h; if (x.i > f.size() || a > f.size() - x.i) break;
        std::string t = std::to_string(w) + " " + std::to_string(h) + " " + f.substr(x.i, std::size_t(a)) + "\n", wd, o; x.i += std::size_t(a);
        if (!x.num(n)) break; t += std::to_string(n) + "\n"; bool ok = true; for (uint64_t k = 0; k < n && ok; ++k) { ok = x.word(wd) && x.word(o) && x.num(v); if (ok) t += wd + " " + o + " " + std::to_string(v) + "\n"; }
        if (!ok) break; r.text += t; ++r.n;
    }
    return r;
}
// ---- damage
static char const* const REPL = "0123456789 \n-x.+\t\xc3";       // and the NUL byte
constexpr unsigned NREPL = 19;
struct Field { std::size_t at, len; };
inline std::vector<Field> fields(std::string const& f) { std::vector<Field> v; for (std::size_t i = 0; i < f.size();) { if (f[i] < '0' || f[i] > '9') { ++i; continue; } std::size_t e = i; while (e < f.size() && f[e] >= '0' && f[e] <= '9') ++e; v.push_back({i, e - i}); i = e; } return v; }
inline std::vector<std::string> values(std::string const& old)
{
    uint64_t const x = strtoull(old.c_str(), nullptr, 10); std::vector<std::string> v;
    for (uint64_t y : {x + 1, x - 1, x + 2, x - 2, uint64_t(0), uint64_t(1), uint64_t(2), uint64_t(3), uint64_t(4), uint64_t(5), uint64_t(6), uint64_t(7), uint64_t(8), uint64_t(9), uint64_t(10), x * 2, x * 10, uint64_t(100), uint64_t(1000), uint64_t(65535), uint64_t(65536), uint64_t(65537)}) if (y < (1u << 30)) v.push_back(std::to_string(y));
    for (auto s : {"2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "4294967297", "1073741825", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "-1", "-4294967295", "", " ", "x", "1 1", "0x10", "1e3", "00", "007"}) v.push_back(s);
    return v;
}
inline std::vector<std::string> lines(std::string const& f) { std::vector<std::string> v; std::size_t i = 0; while (i < f.size()) { std::size_t e = f.find('\n', i); e = e == std::string::npos ? f.size() : e + 1; v.push_back(f.substr(i, e - i)); i = e; } return v; }

inline std::string damage(Ctx& c, std::string f, unsigned kinds)      // one change
{
    switch (c.choose(kinds)) {
    case 0: return f.substr(0, c.choose(unsigned(f.size()) + 1));
    case 1: { auto fs = fields(f); if (fs.empty()) return f; Field const x = fs[c.choose(unsigned(fs.size()))]; auto vs = values(f.substr(x.at, x.len)); return f.replace(x.at, x.len, vs[c.choose(unsigned(vs.size()))]); }
    case 2: if (f.empty()) return f; { std::size_t const i = c.choose(unsigned(f.size())); unsigned const k = c.choose(NREPL); f[i] = k < NREPL - 1 ? REPL[k] : '\0'; return f; }
    case 3: if (f.empty()) return f; return f.erase(c.choose(unsigned(f.size())), 1);
    case 4: { std::size_t const i = c.choose(unsigned(f.size()) + 1); unsigned const k = c.choose(NREPL); return f.insert(i, 1, k < NREPL - 1 ? REPL[k] : '\0'); }
    default: { auto ls = lines(f); if (ls.empty()) return f; unsigned const i = c.choose(unsigned(ls.size())), how = c.choose(4); if (how == 0) ls.erase(ls.begin() + i); else if (how == 1) ls.insert(ls.begin() + i, ls[i]); else if (how == 2) { if (i + 1 < ls.size()) std::swap(ls[i], ls[i + 1]); } else ls.insert(ls.begin() + i, "\n"); std::string o; for (auto& l : ls) o += l; return o; }
    }
}
inline std::string esc(std::string const& s) { std::string r; char b[8]; for (unsigned char c : s.substr(0, 700)) { if ((c >= 32 && c < 127) || c == '\n') r += char(c); else { snprintf(b, sizeof b, "\\x%02x", c); r += b; } } return s.size() > 700 ? r + "..." : r; }
