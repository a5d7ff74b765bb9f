// Knowledge files of the recogniser, written independently of the code, and pictures of text lines.
#pragma once
#include "cli.hpp"
#include "ppocr/defined_loader.hpp"
#include <array>
#include <tuple>
#include <map>
using ppocr::mp_list;
using ppocr::PpOcrDatas;
using Words = std::vector<std::string>;

// ---- feature values of one entry, in the order of the feature file
template<class... S> std::array<unsigned, sizeof...(S)> scalars_of(mp_list<S...>, PpOcrDatas const& d, std::size_t i) { return {d.get<S>()[i]...}; }
template<class... S> auto tuple_of(mp_list<S...>, PpOcrDatas const& d, std::size_t i) { return std::tuple<typename S::value_type...>(d.get<S>()[i]...); }
constexpr unsigned NS = ppocr::PpOcrSimpleDatas::size;
struct Row
{
    std::array<unsigned, NS> s;
    decltype(tuple_of(ppocr::PpOcrComplexDatas{}, std::declval<PpOcrDatas const&>(), 0)) c;
    decltype(tuple_of(ppocr::PpOcrExclusiveDatas{}, std::declval<PpOcrDatas const&>(), 0)) e;
};
static Row row_at(PpOcrDatas const& d, std::size_t i) { return {scalars_of(ppocr::PpOcrSimpleDatas{}, d, i), tuple_of(ppocr::PpOcrComplexDatas{}, d, i), tuple_of(ppocr::PpOcrExclusiveDatas{}, d, i)}; }
static Row row_of(Pic const& p) { PpOcrDatas d; d.load(to_image(p)); return row_at(d, 0); }
template<class... S> std::array<unsigned, sizeof...(S)> counts(mp_list<S...>) { return {S::relationship_type::count()...}; }
static std::array<unsigned, NS> const& simple_counts() { static auto const v = counts(ppocr::PpOcrSimpleDatas{}); return v; }
template<class T> void put(std::ostream& o, T const& x) { o << x << ' '; }
template<class T> void put(std::ostream& o, std::vector<T> const& v) { o << v.size() << ' '; for (auto& x : v) o << x << ' '; }
template<class T, std::size_t N> void put(std::ostream& o, std::array<T, N> const& v) { for (auto& x : v) o << x << ' '; }
template<class T> std::size_t tsize(T const&) { return std::tuple_size_v<T>; }
static std::string datas_text(std::vector<Row> const& rows)
{
    std::ostringstream o; o << rows.size() << '\n';
    for (unsigned k = 0; k < NS; ++k) { for (auto& r : rows) o << r.s[k] << ' '; o << '\n'; }
    auto line = [&](auto get) { for (auto& r : rows) put(o, get(r)); o << '\n'; };
    line([](Row const& r) -> auto& { return std::get<0>(r.c); }); line([](Row const& r) -> auto& { return std::get<1>(r.c); }); line([](Row const& r) -> auto& { return std::get<2>(r.c); });
    line([](Row const& r) -> auto& { return std::get<0>(r.e); }); line([](Row const& r) -> auto& { return std::get<1>(r.e); });
    return o.str();
}
static_assert(ppocr::PpOcrComplexDatas::size == 3 && ppocr::PpOcrExclusiveDatas::size == 2, "feature file format");

struct V { std::string word, font; };
using GV = std::vector<V>;                 // views of one glyph
static std::string glyphs_text(std::vector<GV> const& gs) { std::string s; for (auto& g : gs) { s += "1 1 x\n" + std::to_string(g.size()) + "\n"; for (auto& v : g) s += v.word + " " + v.font + " 0\n"; } return s; }
struct Letter { Pic pic; Row row; };
static std::string p4(Pic const& p)      // a clear bit is a letter pixel
{
    std::string s = "P4\n" + std::to_string(p.w) + " " + std::to_string(p.h) + "\n";
    for (unsigned y = 0; y < p.h; ++y) for (unsigned x = 0; x < p.w; x += 8) { unsigned b = 0; for (unsigned k = 0; k < 8; ++k) b = b * 2 + (x + k < p.w ? !p.ink(x + k, y) : 0); s += char(b); }
    return s;
}
// light pixels are letters
static std::string p6(Pic const& p) { std::string s = "P6\n" + std::to_string(p.w) + " " + std::to_string(p.h) + "\n255\n"; for (char c : p.p) s += std::string(3, char(c == 'x' ? 240 : 10)); return s; }
struct At { Pic const* p; unsigned gap, y; };       // a character: blank columns before it, row of its top
static Pic line_of(std::vector<At> const& cs, unsigned tail = 2)
{
    unsigned w = tail, h = 1; for (auto& c : cs) { w += c.gap + c.p->w; h = std::max(h, c.y + c.p->h + 1); }
    Pic r(w, h); unsigned x = 0;
    for (auto& c : cs) { x += c.gap; for (unsigned j = 0; j < c.p->h; ++j) for (unsigned i = 0; i < c.p->w; ++i) if (c.p->ink(i, j)) r.set(x + i, c.y + j); x += c.p->w; }
    return r;
}
// characters made of one box with ink on each of its edges
static std::vector<Letter> const& letters()
{
    static std::vector<Letter> v;
    if (v.empty()) {
        auto add = [&](Pic p) { v.push_back({p, row_of(p)}); };
        add(motif(2, 7, 9)); add(motif(15, 7, 9)); add(Pic(2, 2, "xxxx")); add(motif(3, 7, 9)); add(Pic(7, 2, std::string(14, 'x'))); add(motif(0, 7, 12)); add(motif(2, 7, 10)); { Pic p = motif(2, 7, 9); p.set(3, 4); add(p); }
    }
    return v;
}
// feature k of r moved by delta, false when that is outside what the feature can hold
static bool move(Row& r, unsigned k, int delta) { int const v = int(r.s[k]) + delta; if (v < 0 || v > int(simple_counts()[k]) - 1) return false; r.s[k] = unsigned(v); return true; }
