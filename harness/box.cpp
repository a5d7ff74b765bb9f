// C04 / C05: character segmentation (make_box_character and the extraction loop of the tools).
#include "box_model.hpp"
#include "ppocr/box_char/box.hpp"
#include "ppocr/box_char/make_box_character.hpp"
#include <dirent.h>
#include "ppocr/image/image_from_file.hpp"
using namespace mc;

static std::string show(std::vector<B> const& v)
{
    std::string s;
    for (auto& b : v) s += "(" + std::to_string(b.x) + "," + std::to_string(b.y) + " " + std::to_string(b.w) + "x" + std::to_string(b.h) + ")";
    return s;
}

static std::vector<B> extract(Ctx& c, Pic const& p)
{
    ppocr::Image img = to_image(p);
    ppocr::Bounds const bounds = img.bounds();
    std::vector<B> r; unsigned x = 0;
    while (auto const box = ppocr::make_box_character(img, {x, 0}, bounds)) {
        c.transition();
        r.push_back({box.x(), box.y(), box.width(), box.height()});
        x = box.x() + box.width();
        if (r.size() > p.w + 1 || x > p.w) c.fail("the extraction loop does not end or leaves the image: " + show(r) + " in " + p.str());
    }
    c.transition();
    if (!(from_image(img) == p)) c.fail("the picture was modified");
    return r;
}

// C04, stated without the column-joining rule
static void check_cover(Ctx& c, Pic const& p, std::vector<B> const& bs)
{
    auto ctx = [&] { return show(bs) + " in " + p.str(); };
    std::vector<int> owner(p.p.size(), -1);
    unsigned prev = 0;
    for (std::size_t k = 0; k < bs.size(); ++k) {
        B const& b = bs[k];
        c.check(b.w && b.h && b.x + b.w <= p.w && b.y + b.h <= p.h, [&]{ return "empty box or box outside the image: " + ctx(); });
        c.check(b.x >= prev, [&]{ return "boxes overlap or are not ordered: " + ctx(); });
        prev = b.x + b.w;
        bool fc = false, fr = false, lr = false;
        for (unsigned y = b.y; y < b.y + b.h; ++y) for (unsigned x = b.x; x < b.x + b.w; ++x) {
            owner[std::size_t(y) * p.w + x] = int(k);
            if (p.ink(x, y)) { fc |= x == b.x; fr |= y == b.y; lr |= y == b.y + b.h - 1; }
        }
        c.check(fc, [&]{ return "first column of a box is empty: " + ctx(); });
        c.check(fr && lr, [&]{ return "first or last row of a box is empty: " + ctx(); });
    }
    for (unsigned y = 0; y < p.h; ++y) for (unsigned x = 0; x < p.w; ++x)
        if (p.ink(x, y)) c.check(owner[std::size_t(y) * p.w + x] >= 0, [&]{ return "a letter pixel is in no box: " + ctx(); });
}

static uint64_t outcome_of(std::vector<B> const& b) { uint64_t h = b.size(); for (auto& x : b) h = mix(mix(mix(mix(h, x.x), x.y), x.w), x.h); return h; }

static void cover_body(Ctx& c, Pic const& p)
{
    c.note([&]{ return "image " + p.str(); });
    c.state(p.hash());
    auto b = extract(c, p);
    c.note([&]{ return "boxes " + show(b); });
    c.outcome(outcome_of(b));
    check_cover(c, p, b);
}
static void cut_body(Ctx& c, Pic const& p, bool variants)
{
    c.note([&]{ return "image " + p.str(); });
    c.state(p.hash());
    auto const b = extract(c, p), m = box_model(p);
    c.note([&]{ return "boxes " + show(b); });
    c.outcome(outcome_of(b));
    c.check(b == m, [&]{ return "cut at the wrong columns: got " + show(b) + " expected " + show(m) + " in " + p.str(); });
    if (!variants) return;
    // shifting and padding change nothing but the origin
    unsigned const l = c.choose(3), t = c.choose(3), r = c.choose(2), d = c.choose(2);
    Pic q(p.w + l + r, p.h + t + d);
    for (unsigned y = 0; y < p.h; ++y) for (unsigned x = 0; x < p.w; ++x) if (p.ink(x, y)) q.set(x + l, y + t);
    auto v = extract(c, q);
    for (auto& x : v) { x.x -= l; x.y -= t; }
    c.check(v == b, [&]{ return "padding (left " + std::to_string(l) + " top " + std::to_string(t) + " right " + std::to_string(r) + " bottom " + std::to_string(d) + ") changes the characters: " + show(v) + " instead of " + show(b) + " of " + p.str(); });
}

static std::vector<std::string> list_pnm(std::string const& dir)
{
    std::vector<std::string> r;
    if (DIR* d = opendir(dir.c_str())) {
        while (auto* e = readdir(d)) {
            std::string n = e->d_name; if (n[0] == '.') continue;
            std::string p = dir + "/" + n;
            if (e->d_type == DT_DIR) { auto s = list_pnm(p); r.insert(r.end(), s.begin(), s.end()); }
            else if (n.size() > 4 && n.substr(n.size() - 4) == ".pnm") r.push_back(p);
        }
        closedir(d);
    }
    std::sort(r.begin(), r.end());
    return r;
}

// one measure of a line grows: the width or height of a character, the gap, the margins, the number of characters
static Pic scale_pic(Ctx& c, std::vector<unsigned> const& N)
{
    unsigned const kind = c.choose(10), n = c.pick(N), v = c.choose(3);
    auto col = [](Pic& p, unsigned x) { for (unsigned y = 0; y < p.h; ++y) p.set(x, y); };
    switch (kind) {
    case 0: { Pic p(n + 2, 3 + v); for (unsigned x = 0; x < n; ++x) p.set(x + 1, v + (v ? x % 2 : 0)); return p; }                 // wide character, straight or zigzag
    case 1: { Pic p(3, n + v, '-'); for (unsigned y = 0; y < n; ++y) p.set(1, y + v / 2); return p; }                               // high character
    case 2: { Pic p(n + 4, 2 + v); col(p, 0); col(p, n + 1); p.set(n + 3, v); return p; }                                           // n blank columns between characters
    case 3: { Pic p(2 * n, 2 + v); for (unsigned k = 0; k < n; ++k) p.set(2 * k + (v == 2), k % (2 + v)); return p; }               // n characters
    case 4: { Pic p(4, n + 3); p.set(0, v == 0 ? 0 : v == 1 ? n : n + 2); p.set(2, n + 1); p.set(3, v == 1 ? 0 : n); return p; }    // rows far below or above
    case 5: { Pic p(2, n + 3); p.set(0, n); p.set(1, n + v); return p; }                                                            // contact at row n: beside, diagonal, apart
    case 6: { Pic p(2, n + 3); p.set(0, n + v); p.set(1, n); return p; }
    case 7: { Pic p(n + 1, 2); p.set(n, v % 2); if (v == 2) p.set(0, 0); return p; }                                                // n blank columns first
    case 8: { Pic p(n + 2, 2); p.set(0, v % 2); if (v == 2) p.set(1, 1); return p; }                                                // n blank columns last
    default: { Pic p(n + 2, n > 300 ? 300 : n + 2); for (unsigned x = 0; x <= n + 1; ++x) p.set(x, v == 0 ? std::min(x, p.h - 1) : v == 1 ? p.h - 1 - std::min(x, p.h - 1) : (x * 2) % p.h); return p; } // diagonal lines
    }
}
static std::vector<Family> families(Tier t)
{
    std::vector<Family> fs;
    static auto const N = scale(t.thorough ? 300001 : 70000, t.thorough ? 300 : 70);
    std::string const scale_bounds = "10 line pictures with one growing measure n (character width, height, gap, number of characters, row distance, margins, diagonals) x every n up to " + std::to_string(t.thorough ? 300 : 70) + " and the neighbours of every power of two and ten up to " + std::to_string(t.thorough ? 300001 : 70000) + " x 3 variants";
    unsigned const A = t.thorough ? 24 : 18, A2 = t.thorough ? 16 : 12;
    auto const S = sizes_upto(A, A, A), S2 = sizes_upto(A2, A2, A2);
    std::vector<Size> const big = {{7,3},{8,3},{9,4},{15,5},{16,6},{17,5},{31,4},{33,9},{64,8},{65,12},{3,40},{1,50},{2,33},{5,70},{40,1},{120,2},{257,3}};
    (void)S2;
    static std::vector<std::string> const shipped = [] {
        std::vector<std::string> r, l = list_pnm(repo_dir() + "/resources/fonts");
        for (std::size_t i = 0; i < l.size(); ++i) r.push_back(l[i]);
        return r;
    }();
#if PROP == 4
    fs.push_back({"all-images", "every image with at most " + std::to_string(A) + " pixels (every width x height), full extraction loop",
        [S](Ctx& c){ cover_body(c, choose_pic(c, S)); }});
    fs.push_back({"size-scale", scale_bounds, [](Ctx& c){ cover_body(c, scale_pic(c, N)); }});
    fs.push_back({"large-images", "17 larger sizes x 22 motifs x one pixel flipped on a 12x12 grid",
        [big](Ctx& c){ cover_body(c, choose_motif(c, big, 12)); }});
    std::size_t const step = t.thorough ? 1 : 6;
    std::vector<std::string> pick; for (std::size_t i = 0; i < shipped.size(); i += step) pick.push_back(shipped[i]);
    fs.push_back({"shipped-lines", std::to_string(pick.size()) + " training line pictures shipped in resources/fonts",
        [pick](Ctx& c){ if (pick.empty()) return; std::string const f = c.pick(pick); c.note([&]{ return f; }); cover_body(c, from_image(ppocr::image_from_file(f.c_str()))); }});
#else
    fs.push_back({"all-images", "every image with at most " + std::to_string(A) + " pixels (every width x height) against the column-joining reference",
        [S](Ctx& c){ cut_body(c, choose_pic(c, S), false); }});
    fs.push_back({"padding", "every image with at most " + std::to_string(A2) + " pixels x 36 placements in a larger blank image",
        [S2](Ctx& c){ cut_body(c, choose_pic(c, S2), true); }});
    fs.push_back({"two-columns", "every pair of columns of height up to " + std::to_string(t.thorough ? 10 : 8) + " at every horizontal offset of a 5-column image",
        [t](Ctx& c){
            unsigned const h = 1 + c.choose(t.thorough ? 10 : 8), off = c.choose(4);
            Pic p(5, h);
            for (unsigned k = 0; k < 2; ++k) for (unsigned y = 0; y < h; ++y) if (c.choose(2)) p.set(off + k, y);
            cut_body(c, p, false);
        }});
    fs.push_back({"size-scale", scale_bounds, [](Ctx& c){ cut_body(c, scale_pic(c, N), false); }});
    fs.push_back({"large-images", "17 larger sizes x 22 motifs x one pixel flipped on a 12x12 grid",
        [big](Ctx& c){ cut_body(c, choose_motif(c, big, 12), false); }});
    std::size_t const step = t.thorough ? 1 : 6;
    std::vector<std::string> pick; for (std::size_t i = 0; i < shipped.size(); i += step) pick.push_back(shipped[i]);
    fs.push_back({"shipped-lines", std::to_string(pick.size()) + " training line pictures shipped in resources/fonts",
        [pick](Ctx& c){ if (pick.empty()) return; std::string const f = c.pick(pick); c.note([&]{ return f; }); cut_body(c, from_image(ppocr::image_from_file(f.c_str())), false); }});
#endif
    return fs;
}
MC_MAIN(families)
