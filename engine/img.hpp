// Reference pictures, enumeration of pictures, and the shipped glyph corpus as an input domain.
#pragma once
#include "mc.hpp"
#include "ppocr/image/image.hpp"
#include <memory>
#include <string>
#include <vector>
#include <cstdlib>

struct Pic
{
    unsigned w = 0, h = 0;
    std::string p;      // row-major, 'x' ink, '-' background
    Pic() = default;
    Pic(unsigned w, unsigned h, char c = '-') : w(w), h(h), p(std::size_t(w) * h, c) {}
    Pic(unsigned w, unsigned h, std::string s) : w(w), h(h), p(std::move(s)) {}
    bool ink(unsigned x, unsigned y) const { return p[std::size_t(y) * w + x] == 'x'; }
    char& at(unsigned x, unsigned y) { return p[std::size_t(y) * w + x]; }
    void set(unsigned x, unsigned y) { at(x, y) = 'x'; }
    Pic crop(unsigned x, unsigned y, unsigned cw, unsigned ch) const
    {
        Pic r(cw, ch);
        for (unsigned j = 0; j < ch; ++j) for (unsigned i = 0; i < cw; ++i) r.at(i, j) = p[std::size_t(y + j) * w + x + i];
        return r;
    }
    Pic rot90() const   // counter-clockwise
    {
        Pic r(h, w);
        for (unsigned y = 0; y < h; ++y) for (unsigned x = 0; x < w; ++x) r.at(y, w - 1 - x) = p[std::size_t(y) * w + x];
        return r;
    }
    Pic flip_v() const
    {
        Pic r(w, h);
        for (unsigned y = 0; y < h; ++y) for (unsigned x = 0; x < w; ++x) r.at(x, h - 1 - y) = p[std::size_t(y) * w + x];
        return r;
    }
    bool operator==(Pic const& o) const { return w == o.w && h == o.h && p == o.p; }
    bool operator<(Pic const& o) const { return w != o.w ? w < o.w : h != o.h ? h < o.h : p < o.p; }
    std::string str() const
    {
        std::string r = std::to_string(w) + "x" + std::to_string(h);
        if (p.size() > 3000) return r + " picture (hash " + std::to_string(hash() % 1000000) + ")";
        for (unsigned y = 0; y < h; ++y) { r += y ? "/" : " "; r += p.substr(std::size_t(y) * w, w); }
        return r;
    }
    uint64_t hash() const { return mc::hash(p, mc::mix(w, h)); }
};

inline ppocr::Image to_image(Pic const& p)
{
    ppocr::PtrImageData d(new ppocr::Pixel[p.p.size()]);   // exactly sized: any overrun is seen by ASan
    std::copy(p.p.begin(), p.p.end(), d.get());
    return ppocr::Image(ppocr::Bounds(p.w, p.h), std::move(d));
}
inline Pic from_image(ppocr::Image const& i)
{
    Pic r; r.w = i.width(); r.h = i.height();
    r.p.assign(i.data(), i.data() + std::size_t(r.w) * r.h);
    return r;
}

// every picture of one of the given sizes
struct Size { unsigned w, h; };
inline std::vector<Size> sizes_upto(unsigned maxw, unsigned maxh, unsigned maxarea)
{
    std::vector<Size> r;
    for (unsigned a = 1; a <= maxarea; ++a)
        for (unsigned w = 1; w <= maxw; ++w)
            if (a % w == 0 && a / w <= maxh) r.push_back({w, a / w});
    return r;
}
inline Pic choose_pic(mc::Ctx& c, unsigned w, unsigned h)
{
    Pic p(w, h);
    unsigned const n = w * h;
    for (unsigned i = 0; i < n;) {
        unsigned const k = std::min(4u, n - i);
        unsigned const v = c.choose(1u << k, "pixels");
        for (unsigned b = 0; b < k; ++b, ++i) if (v >> b & 1) p.p[i] = 'x';
    }
    return p;
}
inline Pic choose_pic(mc::Ctx& c, std::vector<Size> const& s)
{
    Size const z = c.pick(s, "size");
    return choose_pic(c, z.w, z.h);
}

// sizes at which fixed buffers, narrow integers and size limits change behaviour: every one up to dense, then the
// neighbours of every power of two and of ten
inline std::vector<unsigned> scale(unsigned max, unsigned dense = 40)
{
    std::vector<unsigned> r;
    for (unsigned i = 1; i <= std::min(dense, max); ++i) r.push_back(i);
    auto add = [&](unsigned v) { if (v > dense && v <= max) r.push_back(v); };
    for (unsigned b = 2; b && b / 2 < max; b *= 2) { add(b - 1); add(b); add(b + 1); }
    for (unsigned b = 10; b <= max; b *= 10) { add(b - 1); add(b); add(b + 1); add(b / 2 * 5); }
    std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
    return r;
}
inline std::string text_of(unsigned n, unsigned k = 0) { std::string s(n, 'a'); for (unsigned i = 0; i < n; ++i) s[i] = char('a' + (i * 7 + i / 26 + k) % 26); return s; }

// Parametric larger pictures: every size x every motif x a single pixel flipped at every position of a grid.
constexpr unsigned MOTIFS = 22;
inline Pic motif(unsigned k, unsigned w, unsigned h)
{
    Pic p(w, h);
    auto fill = [&](auto f) { for (unsigned y = 0; y < h; ++y) for (unsigned x = 0; x < w; ++x) if (f(x, y)) p.set(x, y); };
    switch (k) {
    case 0: fill([&](unsigned, unsigned){ return true; }); break;
    case 1: break;
    case 2: fill([&](unsigned x, unsigned y){ return x == 0 || y == 0 || x + 1 == w || y + 1 == h; }); break;           // frame
    case 3: fill([&](unsigned x, unsigned y){ return x == w / 2 || y == h / 2; }); break;                               // cross
    case 4: fill([&](unsigned x, unsigned y){ return std::size_t(x) * h / w == y || std::size_t(y) * w / h == x; }); break; // diagonal
    case 5: fill([&](unsigned x, unsigned y){ return (x + y) % 2 == 0; }); break;
    case 6: fill([&](unsigned x, unsigned y){ return (x + y) % 2 == 1; }); break;
    case 7: fill([&](unsigned x, unsigned){ return x % 2 == 0; }); break;
    case 8: fill([&](unsigned x, unsigned y){ return y % 2 == 0 || (x == 0); }); break;                                  // comb
    case 9: fill([&](unsigned x, unsigned y){ unsigned m = std::min(std::min(x, w - 1 - x), std::min(y, h - 1 - y)); return m % 2 == 0; }); break; // nested rings
    case 10: fill([&](unsigned x, unsigned y){ return y < h / 2; (void)x; }); break;
    case 11: fill([&](unsigned x, unsigned y){ return y >= (h + 1) / 2; (void)x; }); break;
    case 12: fill([&](unsigned x, unsigned y){ return y == 0 || y + 1 == h || (y % 3 == 0); (void)x; }); break;
    case 13: fill([&](unsigned x, unsigned y){ unsigned hw = w / 2; unsigned r = h ? (y * (hw + 1)) / h : 0; return x + r >= hw && x <= hw + r; }); break;  // triangle
    case 14: fill([&](unsigned x, unsigned y){ return x % 3 == 1 && y % 4 != 3; }); break;
    case 15: fill([&](unsigned x, unsigned y){ return x == 0 || (y == h / 2 && x < w * 2 / 3) || y == 0 || y + 1 == h; }); break; // E
    case 16: fill([&](unsigned x, unsigned y){ return (x == w - 1 - (std::size_t(y) * w / h)); }); break;                // anti diagonal
    case 17: fill([&](unsigned x, unsigned y){ return x * 3 < w || y * 3 < h; }); break;
    case 18: fill([&](unsigned x, unsigned y){ return (x == 0 && y == 0) || (x + 1 == w && y + 1 == h); }); break;       // corners
    case 19: fill([&](unsigned x, unsigned y){ return (y % 4 == 1 && x + 1 < w) || (y % 4 == 3 && x > 0); }); break;     // snake (one long background component)
    case 20: fill([&](unsigned x, unsigned y){ return ((x * 7 + y * 13 + x * y) % 5) < 2; }); break;
    case 21: fill([&](unsigned x, unsigned y){ return ((x * x + 3 * y * y + x * y) % 7) < 3; }); break;
    }
    return p;
}
inline Pic choose_motif(mc::Ctx& c, std::vector<Size> const& s, unsigned grid)
{
    Size const z = c.pick(s, "size");
    Pic p = motif(c.choose(MOTIFS, "motif"), z.w, z.h);
    unsigned const gx = std::min(z.w, grid), gy = std::min(z.h, grid);
    unsigned const f = c.choose(gx * gy + 1, "flip");
    if (f) {
        unsigned const ix = (f - 1) % gx, iy = (f - 1) / gx;
        unsigned const x = gx == 1 ? 0 : std::size_t(ix) * (z.w - 1) / (gx - 1), y = gy == 1 ? 0 : std::size_t(iy) * (z.h - 1) / (gy - 1);
        p.at(x, y) = p.ink(x, y) ? '-' : 'x';
    }
    return p;
}

// The shipped glyph files (parsed independently of the code under test).
struct CorpusView { std::string word, font, info; };
struct CorpusGlyph { Pic pic; std::vector<CorpusView> views; };
inline std::string repo_dir() { char const* r = getenv("VERIF_REPO"); return r ? r : "/repo"; }
inline std::string slurp(std::string const& path)
{
    std::string s; FILE* f = fopen(path.c_str(), "rb"); if (!f) return s;
    char buf[65536]; std::size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, n);
    fclose(f); return s;
}
inline void spit(std::string const& path, std::string_view s)
{
    FILE* f = fopen(path.c_str(), "wb"); if (!f) { perror(path.c_str()); _exit(3); }
    fwrite(s.data(), 1, s.size(), f); fclose(f);
}
inline std::vector<CorpusGlyph> parse_glyph_text(std::string const& s)
{
    std::vector<CorpusGlyph> r; std::size_t i = 0;
    auto num = [&](unsigned& n) { while (i < s.size() && (s[i] == ' ' || s[i] == '\n')) ++i; if (i >= s.size() || s[i] < '0' || s[i] > '9') return false; n = 0; while (i < s.size() && s[i] >= '0' && s[i] <= '9') n = n * 10 + unsigned(s[i++] - '0'); return true; };
    auto word = [&]() { while (i < s.size() && (s[i] == ' ' || s[i] == '\n')) ++i; std::size_t b = i; while (i < s.size() && s[i] != ' ' && s[i] != '\n') ++i; return s.substr(b, i - b); };
    for (;;) {
        CorpusGlyph g; unsigned n;
        if (!num(g.pic.w) || !num(g.pic.h)) break;
        ++i;
        g.pic.p = s.substr(i, std::size_t(g.pic.w) * g.pic.h); i += g.pic.p.size();
        if (!num(n)) break;
        for (unsigned k = 0; k < n; ++k) { CorpusView v; v.word = word(); v.font = word(); v.info = word(); g.views.push_back(v); }
        r.push_back(std::move(g));
    }
    return r;
}
inline std::vector<CorpusGlyph> const& corpus(unsigned which = 2)
{
    static std::vector<CorpusGlyph> c[3];
    static char const* names[3] = {"latin", "cyrillic", "latin-cyrillic"};
    if (c[which].empty()) c[which] = parse_glyph_text(slurp(repo_dir() + "/resources/glyphs/normalized-glyphs-" + names[which] + ".txt"));
    return c[which];
}
