// C06: image operations.
#include "img.hpp"
#include "ppocr/image/image_from_string.hpp"
#include "ppocr/utils/image_compare.hpp"
using namespace mc;

static void ops(Ctx& c, Pic const& p, bool all_rects)
{
    c.note([&]{ return "image " + p.str(); });
    c.state(p.hash());
    ppocr::Image const img = to_image(p);
    auto same = [&](ppocr::Image const& i, Pic const& want, char const* what) {
        c.transition();
        c.check(i.width() == want.w && i.height() == want.h && i.area() == want.w * want.h && i.data_end() - i.data() == std::ptrdiff_t(want.p.size()) && from_image(i) == want,
            [&]{ return std::string(what) + ": got " + from_image(i).str() + " expected " + want.str() + " for " + p.str(); });
    };
    Pic const r = p.rot90();
    same(img.rotate90(), r, "rotate90");
    { std::vector<char> buf(p.p.size() + 2, '#'); ppocr::rotate90(img, buf.data() + 1); c.transition();
      c.check(buf.front() == '#' && buf.back() == '#' && std::string(buf.begin() + 1, buf.end() - 1) == r.p, [&]{ return "rotate90 into a buffer is wrong for " + p.str(); }); }
    same(img.rotate90().rotate90(), p.rot90().rot90(), "two rotations");
    same(img.rotate90().rotate90().rotate90().rotate90(), p, "four rotations");
    { ppocr::Image cl = img.clone(); same(cl, p, "clone"); c.check(cl.data() != img.data(), "clone shares the pixels"); c.check(cl == img && !(cl != img), "clone differs"); 
      auto d = cl.release(); d[0] = d[0] == 'x' ? '-' : 'x'; }
    same(ppocr::image_from_string({p.w, p.h}, p.p.c_str()), p, "image_from_string");
    for (unsigned y = 0; y < p.h; ++y) for (unsigned x = 0; x < p.w; ++x)
        c.check((img[{x, y}] == 'x') == p.ink(x, y) && *img.data({x, y}) == p.p[y * p.w + x], [&]{ return "pixel access is wrong for " + p.str(); });
    if (all_rects) {
        for (unsigned x = 0; x < p.w; ++x) for (unsigned y = 0; y < p.h; ++y) for (unsigned w = 1; x + w <= p.w; ++w) for (unsigned h = 1; y + h <= p.h; ++h) {
            Pic const want = p.crop(x, y, w, h);
            same(img.section({x, y}, {w, h}), want, "section");
            std::vector<char> buf(want.p.size() + 2, '#'); ppocr::section(img, buf.data() + 1, {x, y}, {w, h});
            c.check(buf.front() == '#' && buf.back() == '#' && std::string(buf.begin() + 1, buf.end() - 1) == want.p, [&]{ return "section into a buffer is wrong for " + p.str(); });
        }
    }
    c.outcome(r.hash());
    c.check(from_image(img) == p, [&]{ return "an operation modified its operand " + p.str(); });
}
static int sgn(int x) { return (x > 0) - (x < 0); }
static int model_cmp(Pic const& a, Pic const& b) { return a < b ? -1 : b < a ? 1 : 0; }
static void compare(Ctx& c, Pic const& a, Pic const& b)
{
    ppocr::Image const x = to_image(a), y = to_image(b);
    int const r = sgn(ppocr::image_compare(x, y)), q = sgn(ppocr::image_compare(y, x)); c.transition(2);
    c.note([&]{ return a.str() + " compared to " + b.str() + " = " + std::to_string(r); });
    c.state(mix(a.hash(), b.hash())); c.outcome(mix(r + 5, mix(a.w != b.w, a.h != b.h)));
    auto s = [&]{ return a.str() + " and " + b.str(); };
    c.check(r == model_cmp(a, b), [&]{ return "image_compare is wrong for " + s(); });
    c.check(r == -q, [&]{ return "image_compare is not antisymmetric for " + s(); });
    c.check((x == y) == (a == b) && (x != y) == !(a == b), [&]{ return "equality is wrong for " + s(); });
    c.check((r == 0) == (x == y), [&]{ return "order and equality disagree for " + s(); });
    c.check(ppocr::image_less()(x, y) == (r < 0), [&]{ return "image_less disagrees for " + s(); });
    c.check(from_image(x) == a && from_image(y) == b, "a comparison modified its operand");
}
static std::vector<Pic> all_pics(unsigned maxarea)
{
    std::vector<Pic> r;
    for (auto z : sizes_upto(maxarea, maxarea, maxarea)) for (unsigned b = 0; b < 1u << z.w * z.h; ++b) {
        Pic p(z.w, z.h); for (unsigned i = 0; i < p.p.size(); ++i) if (b >> i & 1) p.p[i] = 'x'; r.push_back(p); }
    return r;
}
static std::vector<Family> families(Tier t)
{
    std::vector<Family> f;
    unsigned const A = t.thorough ? 16 : 12;
    auto const S = sizes_upto(A, A, A);
    f.push_back({"operations", "every image with at most " + std::to_string(A) + " pixels: rotation, clone, pixel access, every sub-rectangle", [S](Ctx& c){ ops(c, choose_pic(c, S), true); }});
    std::vector<Size> const big = {{1,40},{40,1},{7,9},{9,7},{8,8},{16,15},{17,33},{64,5},{5,64},{257,2},{2,257}};
    f.push_back({"large", "11 larger sizes x 22 motifs x one pixel flipped on a 5x5 grid, sub-rectangles on the smallest ones", [big](Ctx& c){ Pic p = choose_motif(c, big, 5); ops(c, p, p.p.size() < 70); }});
    static auto const N = scale(70000, 60), M = scale(300, 24);
    f.push_back({"size-scale", "every n up to 60 and next to powers of two and ten up to 70000 as width or height (other side 1, 2, 3) x 3 motifs: rotation, clone, pixel access, one sub-rectangle at each end and in the middle", [](Ctx& c){
        unsigned const n = c.pick(N), o = 1 + c.choose(3); bool const tall = c.choose(2); static unsigned const mt[] = {20, 2, 7};
        Pic const p = motif(mt[c.choose(3)], tall ? o : n, tall ? n : o); ops(c, p, false);
        ppocr::Image const img = to_image(p);
        for (unsigned at : {0u, n / 2, n - 1}) for (unsigned len : {1u, 2u, 9u, n}) { if (at + len > n) continue;
            for (unsigned q = 0; q < o; ++q) { unsigned const x = tall ? q : at, y = tall ? at : q, w = tall ? o - q : len, h = tall ? len : o - q;
                c.check(from_image(img.section({x, y}, {w, h})) == p.crop(x, y, w, h), [&]{ return "section (" + std::to_string(x) + "," + std::to_string(y) + " " + std::to_string(w) + "x" + std::to_string(h) + ") of " + p.str(); }); c.transition(); } } }});
    f.push_back({"section-scale", "every pair of sides of the scale up to 300 x a rectangle of 9 sizes at 9 positions", [](Ctx& c){
        unsigned const w = c.pick(M), h = c.pick(M); Pic const p = motif(21, w, h); ppocr::Image const img = to_image(p);
        c.note([&]{ return "sections of " + std::to_string(w) + "x" + std::to_string(h); }); c.state(p.hash());
        unsigned const ws[3] = {1, (w + 1) / 2, w}, hs[3] = {1, (h + 1) / 2, h};
        for (unsigned cw : ws) for (unsigned ch : hs) for (unsigned i = 0; i < 9; ++i) { unsigned const x = (w - cw) * (i % 3) / 2, y = (h - ch) * (i / 3) / 2; Pic const want = p.crop(x, y, cw, ch);
            c.transition(); c.outcome(want.hash()); c.check(from_image(img.section({x, y}, {cw, ch})) == want, [&]{ return "section (" + std::to_string(x) + "," + std::to_string(y) + " " + std::to_string(cw) + "x" + std::to_string(ch) + ") of " + p.str(); }); } }});
    f.push_back({"compare-scale", "pairs of pictures of n pixels (n on the scale up to 70000, wide, high or square) that differ in the first, second, middle, last but one or last pixel, or only in one side or not at all", [](Ctx& c){
        unsigned const n = c.pick(N), shape = c.choose(3); unsigned const w = shape == 0 ? n : shape == 1 ? 1 : unsigned(std::min(n, 250u)), h = shape == 0 ? 1 : w == 1 ? n : std::min(n, 250u);
        Pic a = motif(20, w, h), b = a; unsigned const d = c.choose(9); std::size_t const z = a.p.size();
        auto flip = [&](std::size_t i) { b.p[i] = b.p[i] == 'x' ? '-' : 'x'; };
        if (d < 5) flip(d == 0 ? 0 : d == 1 ? std::min<std::size_t>(1, z - 1) : d == 2 ? z / 2 : d == 3 ? (z > 1 ? z - 2 : 0) : z - 1);
        else if (d == 5) b = Pic(w + 1, h, 'x'); else if (d == 6) b = Pic(w, h + 1, '-'); else if (d == 7) b = Pic(h, w, a.p);
        if (c.choose(2)) std::swap(a, b); compare(c, a, b); }});
    static auto const P5 = all_pics(5); static auto const P7 = all_pics(7); static auto const P4 = all_pics(4);
    auto const* PP = t.thorough ? &P7 : &P5;
    f.push_back({"pairs", "every pair of images with at most " + std::to_string(t.thorough ? 7 : 5) + " pixels", [PP](Ctx& c){ auto& a = c.pick(*PP); compare(c, a, c.pick(*PP)); }});
    f.push_back({"same-size-pairs", "every pair of images of one size with at most " + std::to_string(t.thorough ? 10 : 8) + " pixels", [t](Ctx& c){
        static auto const S8 = sizes_upto(10, 10, 10); std::vector<Size> s; for (auto z : S8) if (z.w * z.h <= (t.thorough ? 10u : 8u)) s.push_back(z);
        Size z = c.pick(s); Pic a = choose_pic(c, z.w, z.h); compare(c, a, choose_pic(c, z.w, z.h)); }});
    f.push_back({"triples", "transitivity over every triple of images with at most 4 pixels", [](Ctx& c){
        auto& a = c.pick(P4); auto& b = c.pick(P4); auto& d = c.pick(P4);
        auto x = to_image(a), y = to_image(b), z = to_image(d); ppocr::image_less lt; c.transition(3);
        c.note([&]{ return a.str() + ", " + b.str() + ", " + d.str(); });
        c.state(mix(mix(a.hash(), b.hash()), d.hash())); c.outcome(lt(x, y) * 4 + lt(y, z) * 2 + lt(x, z));
        c.check(!(lt(x, y) && lt(y, z)) || lt(x, z), [&]{ return "not transitive: " + a.str() + " " + b.str() + " " + d.str(); }); }});
    f.push_back({"corpus-order", "consecutive and distance-2..8 pairs of the shipped glyph pictures (their file order is comparison order)", [](Ctx& c){
        auto const& g = corpus(0); if (g.empty()) return;
        unsigned const n = unsigned(g.size()), hi = (n + 99) / 100; unsigned i = c.choose(100) * hi; i += c.choose(hi); unsigned d = c.choose(9);
        if (i + d >= n) return; compare(c, g[i].pic, g[i + d].pic); }});
    return f;
}
MC_MAIN(families)
