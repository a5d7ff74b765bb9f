// C34: show_glyphs shows every character of every picture exactly, in order.
#include "cli.hpp"
#include "box_model.hpp"
using namespace mc;

int main_show_glyphs(int, char**);

static std::string p4(Pic const& p)      // a clear bit is a letter pixel
{
    std::string s = "P4\n" + std::to_string(p.w) + " " + std::to_string(p.h) + "\n";
    for (unsigned y = 0; y < p.h; ++y) for (unsigned x = 0; x < p.w; x += 8) { unsigned b = 0; for (unsigned k = 0; k < 8; ++k) b = b * 2 + (x + k < p.w ? !p.ink(x + k, y) : 0); s += char(b); }
    return s;
}
static std::string p6(Pic const& p, unsigned letter, unsigned back)
{
    std::string s = "P6\n" + std::to_string(p.w) + " " + std::to_string(p.h) + "\n255\n";
    for (char c : p.p) s += std::string(3, char(c == 'x' ? letter : back));
    return s;
}
static std::string framed(Pic const& p)
{
    std::string const edge(p.w + 2, ':'); std::string s = edge + "\n";
    for (unsigned y = 0; y < p.h; ++y) s += ":" + p.p.substr(std::size_t(y) * p.w, p.w) + ":\n";
    return s + edge + "\n";
}
static std::string shown(Pic const& line) { std::string s; for (auto& b : box_model(line)) s += framed(line.crop(b.x, b.y, b.w, b.h)) + "\n"; return s; }
static std::string cut(std::string const& s) { return s.size() > 1200 ? s.substr(0, 1200) + "..." : s; }
static void judge(Ctx& c, char const* tool, ToolRun const& r, std::string const& want)
{
    c.transition(); c.outcome(r.out);
    c.check(!r.failed(), [&]{ return std::string(tool) + " fails on valid pictures: " + r.err; });
    c.check(r.out == want, [&]{ return std::string(tool) + " shows\n" + cut(r.out) + "instead of\n" + cut(want); });
}
struct In { Pic seen; std::string file; };
static void show(Ctx& c, std::vector<In> const& in, std::string const& lum = "")
{
    std::vector<std::string> args; std::string want; uint64_t h = hash(lum);
    if (!lum.empty()) { args = {"-l", lum}; }
    for (std::size_t k = 0; k < in.size(); ++k) {
        std::string const f = scratch("p" + std::to_string(k)); spit(f, in[k].file); args.push_back(f); h = mix(h, hash(in[k].file));
        want += shown(in[k].seen);
        c.note([&]{ return "picture " + std::to_string(k) + (lum.empty() ? "" : " (luminance " + lum + ")") + ": " + in[k].seen.str(); });
    }
    c.state(h);
    judge(c, "show_glyphs", run_tool(main_show_glyphs, args), want);
}
static In in4(Pic const& p) { return {p, p4(p)}; }

static std::vector<Family> families(Tier t)
{
    std::vector<Family> fs; unsigned const A = t.thorough ? 20 : 15;
    fs.push_back({"pictures", "every picture of at most " + std::to_string(A) + " pixels", [=](Ctx& c){ show(c, {in4(choose_pic(c, sizes_upto(20, 20, A)))}); }});
    fs.push_back({"several", "every sequence of 1..3 pictures of at most 4 pixels", [=](Ctx& c){ std::vector<In> v; unsigned const n = 1 + c.choose(3); for (unsigned i = 0; i < n; ++i) v.push_back(in4(choose_pic(c, sizes_upto(4, 4, 4)))); show(c, v); }});
    fs.push_back({"motifs", "22 motifs x sizes 1..12 x 1..12 and one flipped pixel on a 3x3 grid", [=](Ctx& c){ std::vector<Size> z; for (unsigned w = 1; w <= 12; ++w) for (unsigned h = 1; h <= 12; ++h) z.push_back({w, h}); show(c, {in4(choose_motif(c, z, 3))}); }});
    static auto const S = scale(t.thorough ? 70000 : 5000), SN = scale(t.thorough ? 4100 : 600);
    fs.push_back({"sizes", "n characters on a line (up to " + std::to_string(SN.back()) + "), a character n columns wide, n rows high, with n columns before, behind, n rows above (up to " + std::to_string(S.back()) + "), n pictures (up to 260), for every n of the scale", [](Ctx& c){
        unsigned const field = c.choose(7); unsigned const n = c.pick(field == 0 || field == 6 ? SN : S); if (field == 6 && n > 260) return;
        auto place = [](Pic const& q, unsigned l, unsigned r, unsigned a) { Pic p(l + q.w + r, a + q.h); for (unsigned y = 0; y < q.h; ++y) for (unsigned x = 0; x < q.w; ++x) if (q.ink(x, y)) p.set(l + x, a + y); return p; };
        Pic const l(3, 2, "xx--xx");
        switch (field) {
            case 0: { Pic p(n * 3, 4); for (unsigned i = 0; i < n; ++i) { p.set(i * 3, i % 3); p.set(i * 3 + 1, i % 3 + 1); } show(c, {in4(p)}); } return;
            case 1: show(c, {in4(motif(5, n, 3))}); return;
            case 2: show(c, {in4(motif(2, 3, n))}); return;
            case 3: show(c, {in4(place(l, n, 0, 1))}); return;
            case 4: show(c, {in4(place(l, 1, n, 0))}); return;
            case 5: show(c, {in4(place(l, 2, 1, n))}); return;
            case 6: { std::vector<In> v; for (unsigned i = 0; i < n; ++i) v.push_back(in4(motif(i % MOTIFS, 1 + i % 5, 1 + i / 5 % 5))); show(c, v); } return;
        } }});
    fs.push_back({"far-sizes", "a character of n columns, of n rows, n columns before or behind it, n rows above it, n from 16383 to 140000 (17 numbers next to powers of two and ten)", [](Ctx& c){
        static unsigned const N[] = {16383, 16384, 16385, 32767, 32768, 32769, 65531, 65532, 65533, 65534, 65535, 65536, 65537, 70000, 100000, 131072, 140000}; unsigned const n = N[c.choose(17)], k = c.choose(5), h = 1 + c.choose(2);
        if (k == 0) { show(c, {in4(motif(5, n, h))}); return; } if (k == 1) { show(c, {in4(motif(2, h, n))}); return; }
        Pic p(k < 4 ? n + 5 : 4, k == 4 ? n + 3 : 3); for (unsigned i = 0; i < 3; ++i) { p.set(k == 2 ? n + i : i, k == 4 ? n : h - 1); p.set(k == 2 ? n + i : i, k == 4 ? n + i % 2 : i % 2); } show(c, {in4(p)}); }});
    static std::vector<unsigned> const many = t.thorough ? std::vector<unsigned>{511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000} : std::vector<unsigned>{511, 512, 513, 1000, 1001, 1024, 1025, 2049};
    fs.push_back({"many-pictures", std::to_string(many.front()) + ".." + std::to_string(many.back()) + " pictures (" + std::to_string(many.size()) + " numbers)", [](Ctx& c){
        unsigned const n = many[c.choose(unsigned(many.size()))]; std::vector<In> v; for (unsigned i = 0; i < n; ++i) v.push_back(in4(motif(i % MOTIFS, 1 + i % 5, 1 + i / 5 % 5))); show(c, v); }});
    fs.push_back({"luminance", "-l {0 1 2 99 100 101 127 128 129 200 254 255 256 1000 4294967295} x every grey level, and no option x every grey level", [](Ctx& c){
        static char const* const ls[] = {"", "0", "1", "2", "99", "100", "101", "127", "128", "129", "200", "254", "255", "256", "1000", "4294967295"};
        std::string const l = ls[c.choose(16)]; unsigned const g = c.choose(256), back = c.choose(2) ? 255 : 0; unsigned long const bound = l.empty() ? 128 : std::stoul(l);
        auto lum = [](unsigned v) { return ((511 * v + 511) >> 10) + ((396 * v + 511) >> 10) + ((117 * v + 511) >> 10); };
        Pic const line(4, 2, "x-xx--xx"); Pic seen = line; for (auto& x : seen.p) x = lum(x == 'x' ? g : back) < bound ? '-' : 'x';
        show(c, {{seen, p6(line, g, back)}}, l); }});
    fs.push_back({"several-luminance", "2..3 grey pictures of two of 5 greys each x 5 luminances", [](Ctx& c){
        static unsigned const gs[] = {0, 60, 100, 127, 200}; static char const* const ls[] = {"", "1", "90", "128", "255"}; std::string const l = ls[c.choose(5)]; unsigned long const bound = l.empty() ? 128 : std::stoul(l); std::vector<In> v; unsigned const n = 2 + c.choose(2);
        auto lum = [](unsigned v) { return ((511 * v + 511) >> 10) + ((396 * v + 511) >> 10) + ((117 * v + 511) >> 10); };
        for (unsigned i = 0; i < n; ++i) { unsigned const a = gs[c.choose(5)], b = gs[c.choose(5)]; Pic const line = i == 1 ? Pic(2, 2, "x--x") : Pic(3, 2, "x-x--x"); Pic seen = line; for (auto& x : seen.p) x = lum(x == 'x' ? a : b) < bound ? '-' : 'x'; v.push_back({seen, p6(line, a, b)}); }
        show(c, v, l); }});
    fs.push_back({"unusable", "a missing, empty, cut or non-picture file at every place among 1..3 pictures, and a luminance that is no number: reported", [](Ctx& c){
        unsigned const n = 1 + c.choose(3), k = c.choose(n), kind = c.choose(6); std::vector<std::string> args; Pic const l(3, 2, "x-xx--");
        if (kind >= 4) { args = {"-l", kind == 4 ? "x" : "12x"}; }
        for (unsigned i = 0; i < n; ++i) {
            std::string const f = scratch("u" + std::to_string(i)); std::string s = p4(l); args.push_back(f); spit(f, s);
            if (i != k || kind >= 4) continue;
            switch (kind) { case 0: args.back() += "-missing"; break; case 1: spit(f, ""); break; case 2: spit(f, s.substr(0, s.size() - 1)); break; case 3: spit(f, "words of a text file\n"); break; }
        }
        c.note([&]{ std::string s = "show_glyphs"; for (auto& a : args) s += " " + a; return s; }); c.state(mix(mix(n, k), kind));
        ToolRun const r = run_tool(main_show_glyphs, args); c.transition(); c.outcome(hash(r.err));
        c.check(r.failed(), "show_glyphs does not report an unusable picture or option"); }});
    return fs;
}
MC_MAIN(families)
