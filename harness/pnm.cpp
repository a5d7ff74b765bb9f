// C01-C03: loading of PNM files.
#include "img.hpp"
#include "ppocr/image/image_from_file.hpp"
#include <fcntl.h>
#include <sys/stat.h>
#include <stdarg.h>
using namespace mc;

static std::string const& path()
{
    static thread_local std::string p;
    static pid_t owner = 0;
    if (owner != getpid()) { owner = getpid(); char const* s = getenv("VERIF_SCRATCH"); p = std::string(s ? s : "/dev/shm") + "/pnm-" + std::to_string(getpid()) + ".img"; }
    return p;
}
static void put(std::string const& s)
{
    static int fd = -1; static pid_t owner = 0;
    if (owner != getpid()) { owner = getpid(); fd = open(path().c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); if (fd < 0) { perror("scratch"); _exit(3); } }
    if (pwrite(fd, s.data(), s.size(), 0) != ssize_t(s.size()) || ftruncate(fd, off_t(s.size()))) { perror("scratch"); _exit(3); }
}
static std::string vis(std::string const& s)
{
    std::string r; char b[8];
    for (unsigned char c : s.substr(0, 160)) { if (c == '\n') r += "\\n"; else if (c >= 32 && c < 127) r += char(c); else { snprintf(b, sizeof b, "\\x%02x", c); r += b; } }
    return r + (s.size() > 160 ? "..." : "");
}
struct Res { bool ok = false; Pic pic; std::string err; };
static Res load(unsigned lum)
{
    Res r;
    try { ppocr::Image i = ppocr::image_from_file(path().c_str(), lum); r.pic = from_image(i); r.ok = true; }
    catch (std::exception const& e) { r.err = e.what(); }
    return r;
}

// ---- C01: encoders
static unsigned lum_of(unsigned r, unsigned g, unsigned b) { return ((511 * r + 511) >> 10) + ((396 * g + 511) >> 10) + ((117 * b + 511) >> 10); }
static void expect(Ctx& c, std::string const& file, Pic const& want, unsigned lum)
{
    c.note([&]{ return "file \"" + vis(file) + "\" threshold " + std::to_string(lum) + " -> " + want.str(); });
    c.state(hash(file, lum));
    put(file);
    Res r = load(lum); c.transition();
    c.outcome(r.ok ? r.pic.hash() : 1);
    c.check(r.ok, [&]{ return "valid file rejected (" + r.err + "): \"" + vis(file) + "\""; });
    c.check(r.pic == want, [&]{ return "got " + r.pic.str() + " expected " + want.str() + " from \"" + vis(file) + "\" threshold " + std::to_string(lum); });
}
static std::string header(Ctx& c, char type, unsigned w, unsigned h, unsigned comments)
{
    static std::vector<std::string> const cs = {"", "#\n", "# a b\n", "#x\n#\n", "##12 3\n# 7 7\n# c\n", "# P6 255 #\n"};
    std::string s = {'P', type, '\n'};
    s += cs[comments ? c.choose(comments, "comments") : 0];
    s += std::to_string(w) + " " + std::to_string(h) + "\n";
    if (type != '1' && type != '4') { static char const* mx[] = {"255\n", "1\n", "65535\n"}; s += mx[comments ? c.choose(3, "max") : 0]; }
    return s;
}
static Pic p4_pic(unsigned w, unsigned h, std::string const& d)
{
    Pic p(w, h); unsigned const row = (w + 7) / 8;
    for (unsigned y = 0; y < h; ++y) for (unsigned x = 0; x < w; ++x) p.at(x, y) = ((unsigned char)d[y * row + x / 8] >> (7 - x % 8) & 1) ? '-' : 'x';
    return p;
}

static std::string encode(unsigned k, Pic const& p)   // P1, P3, P4, P6
{
    std::string d; unsigned const row = (p.w + 7) / 8;
    if (k < 2) for (char x : p.p) d += x == 'x' ? '1' : '0';
    else if (k == 2) { d.assign(std::size_t(row) * p.h, '\xff'); for (unsigned y = 0; y < p.h; ++y) for (unsigned x = 0; x < p.w; ++x) if (p.ink(x, y)) d[std::size_t(y) * row + x / 8] &= char(~(0x80 >> x % 8)); }
    else for (char x : p.p) d.append(3, x == 'x' ? '\xff' : '\0');
    return d;
}
static std::vector<Family> c01(Tier t)
{
    std::vector<Family> f;
    f.push_back({"P4-all-bits", "P4: every content including padding bits of every image whose packed data is 1 or 2 bytes", [](Ctx& c){
        unsigned const two = c.choose(2); unsigned w, h;
        if (!two) { w = 1 + c.choose(8); h = 1; } else if (c.choose(2)) { w = 9 + c.choose(8); h = 1; } else { w = 1 + c.choose(8); h = 2; }
        std::string d(1 + two, 0);
        for (auto& b : d) { unsigned hi = c.choose(16); b = char(hi * 16 + c.choose(16)); }
        expect(c, header(c, '4', w, h, 0) + d, p4_pic(w, h, d), 128);
    }});
    f.push_back({"P4-widths", "P4: every width 1..40 and height 1..4, bytes from {00 ff 80 01 a5 7f} up to 4 free bytes then a pattern, 3 thresholds", [t](Ctx& c){
        static unsigned const v[] = {0x00, 0xff, 0x80, 0x01, 0xa5, 0x7f};
        unsigned const w = 1 + c.choose(40), h = 1 + c.choose(4); std::string d;
        for (unsigned i = 0; i < (w + 7) / 8 * h; ++i) d += char(i < (t.thorough ? 6u : 4u) ? v[c.choose(6)] : (i * 73 + 29) & 255);
        expect(c, header(c, '4', w, h, 0) + d, p4_pic(w, h, d), 128);
    }});
    f.push_back({"ascii-contents", "P1 and P3 (0/1): every image with at most " + std::to_string(t.thorough ? 14 : 11) + " pixels, 3 layouts, 3 endings", [t](Ctx& c){
        char const type = c.choose(2) ? '3' : '1';
        static auto const S = sizes_upto(14, 14, 14), S1 = sizes_upto(11, 11, 11);
        Pic const p = choose_pic(c, t.thorough ? S : S1);
        unsigned const lay = c.choose(3); static char const* ends[] = {"\n", "", " \n\n "};
        std::string d;
        for (unsigned i = 0; i < p.p.size(); ++i) {
            if (i && lay == 1) d += ' ';
            if (i && lay == 2 && i % p.w == 0) d += '\n';
            d += p.p[i] == 'x' ? '1' : '0';
        }
        expect(c, header(c, type, p.w, p.h, 0) + d + ends[c.choose(3)], p, 128);
    }});
    f.push_back({"ascii-blanks", "P1 and P3: every image of at most 4 pixels, every placement of {nothing, blank, newline, two blanks} before each digit", [](Ctx& c){
        char const type = c.choose(2) ? '3' : '1'; static char const* sep[] = {"", " ", "\n", " \n"};
        static auto const S = sizes_upto(4, 4, 4); Pic const p = choose_pic(c, S);
        std::string d; for (char x : p.p) { d += sep[c.choose(4)]; d += x == 'x' ? '1' : '0'; }
        expect(c, header(c, type, p.w, p.h, 0) + d + sep[c.choose(4)], p, 128);
    }});
    f.push_back({"headers", "every format, every comment layout, every maximum value, sizes up to 4x3, thresholds 0 1 128 255 256 1000", [](Ctx& c){
        static unsigned const lums[] = {128, 0, 1, 255, 256, 1000};
        unsigned const k = c.choose(4), w = 1 + c.choose(4), h = 1 + c.choose(3), lum = lums[c.choose(6)];
        Pic const base = motif(20 + c.choose(2), w, h); std::string d, hd; Pic want = base;
        if (k == 0 || k == 1) { for (char x : base.p) d += x == 'x' ? "1 " : "0 "; hd = header(c, k ? '3' : '1', w, h, 6); }
        else if (k == 2) {
            d.assign((w + 7) / 8 * h, '\xff'); hd = header(c, '4', w, h, 6);
            for (unsigned y = 0; y < h; ++y) for (unsigned x = 0; x < w; ++x) if (base.ink(x, y)) d[y * ((w + 7) / 8) + x / 8] &= char(~(0x80 >> x % 8));
        }
        else {
            hd = header(c, '6', w, h, 6);
            for (unsigned i = 0; i < base.p.size(); ++i) { unsigned g = base.p[i] == 'x' ? 255 : 0; d += char(g); d += char(g); d += char(g); want.p[i] = lum_of(g, g, g) < lum ? '-' : 'x'; }
        }
        expect(c, hd + d, want, lum);
    }});
    f.push_back({"P6-grey", "P6: all 256 grey levels x every threshold 0..257", [](Ctx& c){
        unsigned const lum = c.choose(258); std::string d; Pic want(16, 16);
        for (unsigned g = 0; g < 256; ++g) { d += char(g); d += char(g); d += char(g); want.p[g] = lum_of(g, g, g) < lum ? '-' : 'x'; }
        expect(c, header(c, '6', 16, 16, 0) + d, want, lum);
    }});
    f.push_back({"P6-channels", "P6: every red level x every green level x " + std::string(t.thorough ? "every" : "32") + " blue levels, thresholds {1 64 127 128 129 200 254 255}", [t](Ctx& c){
        static unsigned const lums[] = {128, 1, 64, 127, 129, 200, 254, 255};
        unsigned const lum = lums[c.choose(8)], r = c.choose(256), step = t.thorough ? 1 : 8, nb = 256 / step;
        unsigned const off = step == 1 ? 0 : r % step;
        std::string d; Pic want(nb, 256);
        for (unsigned g = 0; g < 256; ++g) for (unsigned k = 0; k < nb; ++k) {
            unsigned const b = k * step + off; d += char(r); d += char(g); d += char(b);
            want.at(k, g) = lum_of(r, g, b) < lum ? '-' : 'x';
        }
        expect(c, header(c, '6', nb, 256, 0) + d, want, lum);
    }});
    f.push_back({"P6-layout", "P6: every size up to 5x4 with at most 6 pixels, each pixel one of 4 colours around the threshold", [](Ctx& c){
        static auto const S = sizes_upto(5, 4, 6); Size const z = c.pick(S);
        static unsigned const col[4][3] = {{0, 0, 0}, {255, 255, 255}, {127, 128, 128}, {129, 129, 120}};
        std::string d; Pic want(z.w, z.h);
        for (unsigned i = 0; i < z.w * z.h; ++i) { auto* k = col[c.choose(4)]; d += char(k[0]); d += char(k[1]); d += char(k[2]); want.p[i] = lum_of(k[0], k[1], k[2]) < 128 ? '-' : 'x'; }
        expect(c, header(c, '6', z.w, z.h, 0) + d, want, 128);
    }});
    f.push_back({"bigger", "every format x 24 sizes up to 300 columns x 22 motifs", [](Ctx& c){
        static std::vector<Size> const S = {{8,8},{9,8},{16,1},{17,2},{24,3},{25,3},{31,5},{32,5},{33,5},{63,2},{64,2},{65,2},{127,3},{128,3},{129,3},{255,2},{256,2},{257,2},{300,7},{1,300},{2,129},{7,65},{100,100},{200,60}};
        Size const z = c.pick(S); Pic const p = motif(c.choose(MOTIFS), z.w, z.h); unsigned const k = c.choose(4); std::string d;
        if (k < 2) for (char x : p.p) d += x == 'x' ? '1' : '0';
        else if (k == 2) { unsigned const row = (p.w + 7) / 8; d.assign(row * p.h, '\xff'); for (unsigned y = 0; y < p.h; ++y) for (unsigned x = 0; x < p.w; ++x) if (p.ink(x, y)) d[y * row + x / 8] &= char(~(0x80 >> x % 8)); }
        else for (char x : p.p) d += x == 'x' ? std::string("\xff\xff\xff") : std::string(3, '\0');
        expect(c, header(c, "1346"[k], p.w, p.h, 0) + d, p, 128);
    }});
    f.push_back({"size-scale", "every format x every n up to 70 and the neighbours of every power of two and ten up to 70000 as width or height (other side 1, 2, 3, 8) x 3 motifs", [](Ctx& c){
        static auto const N = scale(70000, 70); static unsigned const K[] = {1, 2, 3, 8};
        unsigned const k = c.choose(4), n = c.pick(N), o = K[c.choose(4)]; bool const tall = c.choose(2); static unsigned const mt[] = {20, 0, 2};
        Pic const p = motif(mt[c.choose(3)], tall ? o : n, tall ? n : o);
        expect(c, header(c, "1346"[k], p.w, p.h, 0) + encode(k, p), p, 128);
    }});
    f.push_back({"P6-grey-sizes", "P6: every width 1..140 and the neighbours of every power of two and ten up to 5000, as many rows as hold the 256 grey levels, in 3 orders, thresholds 1 64 127 128 129 192 255 256", [](Ctx& c){
        static auto const N = scale(5000, 140); static unsigned const lums[] = {128, 1, 64, 127, 129, 192, 255, 256}; unsigned const w = c.pick(N), lum = lums[c.choose(8)], ord = c.choose(3), h = std::max(1u, (255 + w) / w); std::string d; Pic want(w, h);
        for (unsigned i = 0; i < w * h; ++i) { unsigned const g = (ord == 0 ? i : ord == 1 ? 255 - i % 256 : i * 37 + 11) % 256; d.append(3, char(g)); want.p[i] = lum_of(g, g, g) < lum ? '-' : 'x'; } expect(c, header(c, '6', w, h, 0) + d, want, lum); }});
    f.push_back({"huge", std::string("P4: ") + (t.thorough ? "65536x32768, 65536x32767, 32768x65536 and 65537x65535" : "65536x32768") + " pixels (next to 2^31 and 2^32), all letters but for the first, the last, the middle one and those next to the 2^31st", [t](Ctx& c){
        static uint64_t const Z[][2] = {{65536, 32768}, {65536, 32767}, {32768, 65536}, {65537, 65535}}; auto const& z = Z[c.choose(t.thorough ? 4 : 1)]; uint64_t const w = z[0], h = z[1], row = (w + 7) / 8, n = w * h;
        std::string const hd = "P4\n" + std::to_string(w) + " " + std::to_string(h) + "\n"; c.note([&]{ return hd + "..."; }); c.state(n); put(hd);
        std::vector<uint64_t> off; for (uint64_t i : {uint64_t(0), n / 2, (uint64_t(1) << 31) - 1, uint64_t(1) << 31, n - 1}) if (i < n && (off.empty() || off.back() < i)) off.push_back(i);
        { int const fd = open(path().c_str(), O_RDWR); if (fd < 0 || ftruncate(fd, off_t(hd.size() + row * h))) { perror("scratch"); _exit(3); } for (auto i : off) { unsigned char b = 0; off_t const at = off_t(hd.size() + i / w * row + i % w / 8); if (pread(fd, &b, 1, at) != 1) _exit(3); b = (unsigned char)(b | 0x80 >> i % w % 8); if (pwrite(fd, &b, 1, at) != 1) _exit(3); } close(fd); }
        bool ok = false; std::string err; std::vector<uint64_t> got; bool dims = false;
        try { ppocr::Image const i = ppocr::image_from_file(path().c_str(), 128); ok = true; dims = i.width() == w && i.height() == h; if (dims) { char const* const d = i.data(); char const* const e = d + n; for (char const* p = d; p != e && got.size() < 100;) { static std::string const ink(1 << 16, 'x'); std::size_t const m = std::min<std::size_t>(ink.size(), std::size_t(e - p)); if (memcmp(p, ink.data(), m) == 0) { p += m; continue; } for (std::size_t k = 0; k < m; ++k) if (p[k] != 'x') got.push_back(uint64_t(p + k - d) + (p[k] == '-' ? 0 : uint64_t(1) << 60)); p += m; } } }
        catch (std::exception const& e) { err = e.what(); }
        put(""); c.transition(); c.outcome(mix(ok, got.size()));
        c.check(ok, [&]{ return "a valid picture of " + std::to_string(w) + "x" + std::to_string(h) + " is rejected (" + err + ")"; }); c.check(dims, "the dimensions differ from the header's"); c.check(got == off, [&]{ std::string s = "the pixels that are no letters are"; for (auto x : got) s += " " + std::to_string(x); s += ", expected"; for (auto x : off) s += " " + std::to_string(x); return s; }); }, 0, 1});
    f.push_back({"comment-scale", "every format x one comment of n bytes, or n comments of 1 or 3 bytes, n up to 40 and next to powers of two and ten up to 70000", [](Ctx& c){
        static auto const N = scale(70000); unsigned const k = c.choose(4), kind = c.choose(3), n = c.pick(N);
        std::string cm; if (!kind) cm = "#" + text_of(n) + "\n"; else for (unsigned i = 0; i < n; ++i) cm += kind == 1 ? "#\n" : "# a\n";
        Pic const p = motif(20, 9, 3); std::string hd = header(c, "1346"[k], p.w, p.h, 0);
        expect(c, hd.substr(0, 3) + cm + hd.substr(3) + encode(k, p), p, 128);
    }});
    f.push_back({"blank-scale", "P1 and P3: n blanks or newlines before the first, the middle or the last digit or at the end, n on the same scale", [](Ctx& c){
        static auto const N = scale(70000); unsigned const k = c.choose(2), n = c.pick(N), at = c.choose(4); char const b = c.choose(2) ? ' ' : '\n';
        Pic const p = motif(20, 5, 3); std::string d = encode(k, p); d.insert(at == 0 ? 0 : at == 1 ? d.size() / 2 : at == 2 ? d.size() - 1 : d.size(), std::string(n, b));
        expect(c, header(c, "13"[k], p.w, p.h, 0) + d, p, 128);
    }});
    return f;
}

// ---- C02: what the bytes of a file allow
struct Allowed { bool error = true, image = false; Pic pic; std::string why; };
static Allowed oracle(std::string const& s, unsigned lum)
{
    Allowed a; std::size_t i = 0;
    auto no = [&](char const* w) { a.error = true; a.image = false; a.why = w; return a; };
    if (s.size() < 3 || s[0] != 'P' || s[2] != '\n' || s[1] < '1' || s[1] > '6') return no("magic");
    char const t = s[1];
    if (t == '2' || t == '5') return no("unsupported format");
    i = 3;
    while (i < s.size() && s[i] == '#') { while (i < s.size() && s[i] != '\n') ++i; if (i < s.size()) ++i; }
    auto num = [&](unsigned long long& n, char end) {
        std::size_t const b = i; n = 0; bool big = false;
        while (i < s.size() && s[i] >= '0' && s[i] <= '9') { n = n * 10 + unsigned(s[i++] - '0'); if (n > 0xffffffffull) { big = true; n = 1; } }
        return i != b && !big && i < s.size() && s[i++] == end;
    };
    unsigned long long w, h, mx;
    if (!num(w, ' ') || !num(h, '\n')) return no("broken size");
    if (t != '1' && t != '4' && !num(mx, '\n')) return no("broken maximum");
    if (!w || !h) return no("empty image");
    if (w * h > 0xffffffffull) return no("impossible size");
    std::size_t const left = s.size() - i;
    auto finish = [&](bool surplus) { if (surplus) return no("surplus pixel data"); a.image = true; a.error = false; return a; };
    if (t == '6') {
        if (left / 3 < w * h) return no("missing pixel data");
        a.pic = Pic(unsigned(w), unsigned(h));
        for (std::size_t k = 0; k < w * h; ++k) { auto* q = reinterpret_cast<unsigned char const*>(s.data()) + i + 3 * k; a.pic.p[k] = lum_of(q[0], q[1], q[2]) < lum ? '-' : 'x'; }
        return finish(left != w * h * 3);
    }
    if (t == '4') {
        if (left < (w + 7) / 8 * h) return no("missing pixel data");
        a.pic = p4_pic(unsigned(w), unsigned(h), s.substr(i));
        return finish(left != (w + 7) / 8 * h);
    }
    std::string p; bool surplus = false;
    for (; i < s.size(); ++i) {
        char const c = s[i];
        if (p.size() == w * h) { if (c != ' ' && c != '\n') surplus = true; continue; }
        if (c == ' ' || c == '\n') continue;
        if (c != '0' && c != '1') return no("pixel value");
        p += c == '1' ? 'x' : '-';
    }
    if (p.size() != w * h) return no("missing pixel data");
    a.pic = Pic(unsigned(w), unsigned(h), p);
    return finish(surplus);
}
static void judge(Ctx& c, std::string const& file, unsigned lum = 128)
{
    Allowed const a = oracle(file, lum);
    c.note([&]{ return "file \"" + vis(file) + "\": " + (a.image ? a.error ? "image or error" : "image" : "error, " + a.why); });
    c.state(hash(file));
    put(file);
    Res r = load(lum); c.transition();
    c.outcome(r.ok ? r.pic.hash() : hash(r.err));
    if (r.ok) {
        c.check(a.image, [&]{ return "a broken file (" + a.why + ") was read as " + r.pic.str().substr(0, 300) + ": \"" + vis(file) + "\""; });
        c.check(r.pic == a.pic, [&]{ return "indeterminate or wrong pixels: got " + r.pic.str() + " expected " + a.pic.str() + " from \"" + vis(file) + "\""; });
    }
    else c.check(a.error, [&]{ return "a well-formed file was refused (" + r.err + "): \"" + vis(file) + "\""; });
}
static std::vector<std::string> const& valid_files()
{
    static std::vector<std::string> const v = {
        "P1\n1 1\n1", "P1\n3 2\n0 1 0\n1 1 0\n", "P1\n# c\n2 2\n0110", "P3\n2 2\n1\n0 1 1 0\n", "P3\n#\n1 2\n1\n1\n0\n",
        "P4\n1 1\n\x80", "P4\n9 2\n\xa5\x80\x5a\x7f", "P4\n# hi\n17 1\n\xff\x01\x80", std::string("P6\n1 1\n255\n\x80\x81\x7f", 14), std::string("P6\n# c\n2 1\n255\n\xff\xff\xff\x00\x00\x00", 21),
        std::string("P6\n2 2\n1\n\x00\x80\x00\xff\xff\xff\x80\x80\x80\x7f\x7f\x7f", 21), "P4\n8 3\n\x01\x02\x03"};
    return v;
}
static std::vector<Family> c02(Tier t)
{
    std::vector<Family> f;
    unsigned const L = t.thorough ? 6 : 5;
    f.push_back({"short-strings", "every string of at most " + std::to_string(L) + " bytes over 12 header bytes", [L](Ctx& c){
        static std::string const al = "P1463\n #05x\xff"; std::string s;
        for (unsigned n = c.choose(L + 1); n; --n) s += al[c.choose(12)];
        judge(c, s);
    }});
    unsigned const L2 = t.thorough ? 8 : 6;
    f.push_back({"after-magic", "\"P<1..6>\\n\" followed by every string of at most " + std::to_string(L2) + " bytes over {1 2 0 newline blank #}", [L2](Ctx& c){
        static std::string const al = "12\n 0#"; std::string s = {'P', char('1' + c.choose(6)), '\n'};
        for (unsigned n = c.choose(L2 + 1); n; --n) s += al[c.choose(6)];
        judge(c, s);
    }});
    f.push_back({"after-header", "complete headers of 4 formats and 6 sizes followed by every data string of at most " + std::to_string(L) + " bytes over {0 1 blank newline 2 \\xff}", [L](Ctx& c){
        static std::string const al = "01 \n2\xff"; static char const* sz[] = {"1 1\n", "2 1\n", "1 2\n", "2 2\n", "3 1\n", "9 1\n"};
        char const ty = "1346"[c.choose(4)]; std::string s = {'P', ty, '\n'};
        s += sz[c.choose(6)]; if (ty == '3' || ty == '6') s += "1\n";
        for (unsigned n = c.choose(L + 1); n; --n) s += al[c.choose(6)];
        judge(c, s);
    }});
    f.push_back({"truncations", "every prefix of 12 valid files", [](Ctx& c){
        auto& v = c.pick(valid_files()); judge(c, v.substr(0, c.choose(unsigned(v.size() + 1)))); }});
    f.push_back({"extensions", "12 valid files followed by every string of 1 or 2 of 8 bytes", [](Ctx& c){
        static std::string const al("0\n 1#P\xff\0", 8); std::string s = c.pick(valid_files()); for (unsigned n = 1 + c.choose(2); n; --n) s += al[c.choose(8)]; judge(c, s); }});
    f.push_back({"one-byte", "every single byte of 12 valid files replaced by every value", [](Ctx& c){
        std::string s = c.pick(valid_files()); unsigned const i = c.choose(unsigned(s.size())); s[i] = char(c.choose(16) * 16 + c.choose(16)); judge(c, s); }});
    f.push_back({"two-bytes", "every pair of bytes of 12 valid files replaced by values of {0 1 9 newline blank # \\xff}", [](Ctx& c){
        static std::string const al = "019\n #\xff"; std::string s = c.pick(valid_files());
        unsigned const i = c.choose(unsigned(s.size())), j = c.choose(unsigned(s.size())); s[i] = al[c.choose(7)]; s[j] = al[c.choose(7)]; judge(c, s); }});
    f.push_back({"delete-insert", "every byte of 12 valid files deleted, or doubled, or one of 8 bytes inserted before it", [](Ctx& c){
        static std::string const al("0\n 1#P\xff\0", 8); std::string s = c.pick(valid_files()); unsigned const i = c.choose(unsigned(s.size())), k = c.choose(10);
        if (k == 0) s.erase(i, 1); else if (k == 1) s.insert(i, 1, s[i]); else s.insert(i, 1, al[k - 2]); judge(c, s); }});
    f.push_back({"sizes", "4 formats x 18x18 extreme width/height spellings x 4 data lengths (products between 2^27 and 2^32 only for the widths next to 2^32)", [](Ctx& c){
        static char const* v[] = {"1", "0", "2", "7", "8", "9", "16", "01", "-1", "+1", "", "65536", "65537", "2147483648", "4294967289", "4294967295", "4294967296", "18446744073709551617"};
        std::string const w = v[c.choose(18)], h = v[c.choose(18)]; char const ty = "4136"[c.choose(4)]; unsigned const n = c.choose(4);
        unsigned long long const a = strtoull(w.c_str(), nullptr, 10), b = strtoull(h.c_str(), nullptr, 10), p = a * b;
        bool const edge = ty == '4' && n == 0 && w == "4294967289" && h == "1";
        if (a <= 0xffffffffull && b <= 0xffffffffull && p > (1ull << 27) && p <= 0xffffffffull && !edge) return;
        std::string s = std::string("P") + ty + "\n" + w + " " + h + "\n" + (ty == '3' || ty == '6' ? "1\n" : "") + std::string("1010").substr(0, n);
        judge(c, s); }, 0, 4});
    f.push_back({"threshold", "P6 pixels around every threshold 0..257 with one truncated byte or none", [](Ctx& c){
        unsigned const lum = c.choose(258), g = c.choose(3), cut = c.choose(2); unsigned const v = std::min(255u, lum + g);
        std::string s = std::string("P6\n1 1\n255\n") + char(v) + char(v) + char(v); s.resize(s.size() - cut); judge(c, s, lum); }});
    f.push_back({"length-scale", "4 formats x sizes n x k (n up to 40 and next to powers of two and ten up to 70000, k in {1 2 3 8}, both orientations) x data one byte short, complete, one byte long", [](Ctx& c){
        static auto const N = scale(70000); static unsigned const K[] = {1, 2, 3, 8};
        unsigned const k = c.choose(4), n = c.pick(N), o = K[c.choose(4)]; bool const tall = c.choose(2); unsigned const len = c.choose(3);
        Pic const p = motif(20, tall ? o : n, tall ? n : o); std::string d = encode(k, p); if (len == 0) d.pop_back(); if (len == 2) d += '1';
        judge(c, header(c, "1346"[k], p.w, p.h, 0) + d); }});
    f.push_back({"size-pairs", "4 formats x every pair of sides of the scale up to 130 x data one byte short, complete, one byte long", [](Ctx& c){
        static auto const N = scale(130, 10); unsigned const k = c.choose(4), w = c.pick(N), h = c.pick(N), len = c.choose(3);
        Pic const p = motif(21, w, h); std::string d = encode(k, p); if (len == 0) d.pop_back(); if (len == 2) d += '0';
        judge(c, header(c, "1346"[k], p.w, p.h, 0) + d); }});
    f.push_back({"digit-scale", "4 formats x width, height or maximum written with n leading zeros or n digits 1, n on the scale up to 5000", [](Ctx& c){
        static auto const N = scale(5000); unsigned const k = c.choose(4), n = c.pick(N), field = c.choose(k % 2 ? 3 : 2), what = c.choose(2);
        Pic const p(3, 2, 'x'); std::string v[3] = {"3", "2", "255"}; v[field] = what ? std::string(n, '1') : std::string(n, '0') + v[field];
        if (what && n > 1 && n < 11 && field < 2) { unsigned long long a = strtoull(v[0].c_str(), nullptr, 10) * strtoull(v[1].c_str(), nullptr, 10); if (a > (1ull << 27) && a <= 0xffffffffull) return; }
        judge(c, std::string("P") + "1346"[k] + "\n" + v[0] + " " + v[1] + "\n" + (k % 2 ? v[2] + "\n" : "") + encode(k, p)); }});
    f.push_back({"comment-ends", "a header ending inside, right after or two bytes after a comment of n bytes, n on the scale up to 70000, in every format", [](Ctx& c){
        static auto const N = scale(70000); unsigned const k = c.choose(4), n = c.pick(N), e = c.choose(4); std::string s = std::string("P") + "1346"[k] + "\n#" + text_of(n);
        if (e) s += '\n'; if (e == 2) s += "1 "; if (e == 3) s += "1 1\n1\n"; judge(c, s); }});
    return f;
}

// ---- C03: operating-system answers
static Ctx* g = nullptr;
static bool g_on = false, g_hard = false, g_short = true;   // g_hard: a call failed for good   // g_short: nothing but short reads so far
static std::size_t g_len = 0;
static int g_fd = -1, g_opened = 0, g_closed = 0, g_badclose = 0, g_reads = 0, g_bad = 0; static std::string g_log;
extern "C" {
int __real_open(char const*, int, ...); int __real_close(int); ssize_t __real_read(int, void*, size_t); int __real_fstat(int, struct stat*);
int __wrap_open(char const* p, int fl, ...)
{
    va_list ap; va_start(ap, fl); int mode = (fl & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
    if (!g_on || path() != p) return __real_open(p, fl, mode);
    int const ans = g->dev(4, "open"); if (ans) g_short = false;
    if (ans == 1 || ans == 2) g_hard = true;
    switch (ans) {
    case 1: errno = ENOENT; g_log += " open=ENOENT"; return -1;
    case 2: errno = EMFILE; g_log += " open=EMFILE"; return -1;
    case 3: errno = EINTR; g_log += " open=EINTR"; return -1;
    }
    int fd = __real_open(p, fl, mode);
    g_fd = fd; ++g_opened; g_log += " open";
    return fd;
}
int __wrap_close(int fd)
{
    if (g_on && fd >= 0 && fd == g_fd) {
        ++g_closed; g_log += " close";
        int r = __real_close(fd); g_fd = -1;
        return r;
    }
    if (g_on && fd >= 3) { ++g_badclose; return -1; }   // the descriptor was closed already, or is not ours: keep it away from the process
    if (g_on) return -1;
    return __real_close(fd);
}
int __wrap_fstat(int fd, struct stat* st)
{
    int r = __real_fstat(fd, st);
    if (!g_on || fd != g_fd) return r;
    int const ans = g->dev(8, "fstat"); if (ans) g_short = false;
    if (ans == 1) g_hard = true;
    switch (ans) {
    case 1: errno = EIO; g_log += " fstat=EIO"; return -1;
    case 2: st->st_size += 1; g_log += " fstat=+1"; break;
    case 3: st->st_size += 9; g_log += " fstat=+9"; break;
    case 4: st->st_size -= 1; g_log += " fstat=-1"; break;
    case 5: st->st_size = 0; g_log += " fstat=0"; break;
    case 6: st->st_size *= 2; g_log += " fstat=x2"; break;
    case 7: st->st_size = -1; g_log += " fstat=negative"; break;
    }
    return r;
}
ssize_t __wrap_read(int fd, void* b, size_t n)
{
    if (!g_on || fd != g_fd) return __real_read(fd, b, n);
    if (std::size_t(++g_reads) > 4000 + 2 * g_len) { g_bad = 1; return 0; }
    // every one of the first reads, then the 2^k-th ones (a reader that takes small pieces)
    int const ans = g_reads <= 24 || !(g_reads & (g_reads - 1)) ? g->dev(8, "read") : 0; if (ans == 3 || ans == 4 || ans == 5 || ans == 7 || (ans == 6 && n < 2)) g_short = false;
    if (ans == 4) g_hard = true;
    switch (ans) {
    case 1: n = std::min<size_t>(n, 1); g_log += " read:1"; break;
    case 2: n = (n + 1) / 2; g_log += " read:half"; break;
    case 3: errno = EINTR; g_log += " read=EINTR"; return -1;
    case 4: errno = EIO; g_log += " read=EIO"; return -1;
    case 5: g_log += " read=0"; return 0;
    case 6: n = n ? n - 1 : 0; g_log += " read:n-1"; break;
    case 7: errno = EAGAIN; g_log += " read=EAGAIN"; return -1;
    }
    return __real_read(fd, b, n);
}
}
static std::vector<Family> c03(Tier t)
{
    unsigned const D = t.thorough ? 6 : 4;
    std::vector<Family> f;
    auto body = [](Ctx& c, std::string const& file) {
        Allowed const full = oracle(file, 128);
        put(file); g_len = file.size();
        g = &c; g_on = true; g_fd = -1; g_opened = g_closed = g_badclose = g_reads = g_bad = 0; g_short = true; g_hard = false; g_log.clear();
        struct Off { ~Off() { g_on = false; if (g_fd >= 0) { __real_close(g_fd); g_fd = -1; } } } off;
        Res r; bool threw_other = false;
        try { r = load(128); } catch (...) { threw_other = true; }
        g_on = false; c.transition();
        c.note([&]{ return "file \"" + vis(file) + "\", answers:" + g_log + " -> " + (r.ok ? r.pic.str() : "error: " + r.err); });
        c.state(hash(g_log, hash(file))); c.outcome(mix(r.ok ? 2 : hash(r.err), mix(g_reads, g_closed)));
        c.check(!threw_other, "something that is not a standard exception was thrown");
        c.check(!g_bad, [&]{ return "the read loop does not end:" + g_log.substr(0, 300); });
        if (r.ok) c.check(!g_hard, [&]{ return "an input/output error was not reported:" + g_log; });
        if (r.ok) c.check(full.image && r.pic == full.pic, [&]{ return "wrong image after" + g_log + ": got " + r.pic.str() + " expected " + full.pic.str() + " from \"" + vis(file) + "\""; });
        else c.check(!g_short, [&]{ return "a complete file delivered in pieces was refused (" + r.err + ") after" + g_log; });
        c.check(g_opened <= 1 && g_closed == g_opened, [&]{ return "descriptor opened " + std::to_string(g_opened) + " times and closed " + std::to_string(g_closed) + " times after" + g_log; });
        c.check(!g_badclose, [&]{ return "close of a descriptor that is not open after" + g_log; });
    };
    f.push_back({"answers", "12 valid files x every sequence of open/fstat/read answers (4, 8 and 8 alternatives: errors, interruptions, short reads, early end, wrong sizes) with at most " + std::to_string(D) + " deviations",
        [body](Ctx& c){ body(c, c.pick(valid_files())); }, D});
    f.push_back({"long-file", "a 60x20 picture in each of the 4 formats x the same answers with at most " + std::to_string(D) + " deviations", [body](Ctx& c){
        static std::vector<std::string> const files = [] {
            std::vector<std::string> r; Pic p = motif(20, 60, 20); std::string a, b(8 * 20, '\0'), d;
            for (char x : p.p) { a += x == 'x' ? "1 " : "0 "; d += x == 'x' ? std::string("\xff\xff\xff") : std::string(3, '\0'); }
            for (unsigned i = 0; i < b.size(); ++i) b[i] = char(i * 37 + 11);
            r.push_back("P1\n60 20\n" + a); r.push_back("P3\n60 20\n1\n" + a); r.push_back("P4\n60 20\n" + b); r.push_back("P6\n60 20\n255\n" + d);
            return r; }();
        body(c, c.pick(files)); }, D});
    f.push_back({"file-scale", "P1, P4 and P6 files of exactly n bytes (n = 30..70 and next to every power of two and ten up to " + std::string(t.thorough ? "33554432" : "1048576") + ") x the same answers with at most 1 deviation", [body, t](Ctx& c){
        static auto const N = scale(t.thorough ? 33554433 : 1048577, 70); unsigned const k = c.choose(3); unsigned n = c.pick(N); if (n < 30) return;
        std::string hd, d; unsigned const per = k == 2 ? 3 : 1;
        for (unsigned h = (n - 12) / per; ; --h) {   // one column wide (eight for P4); what is missing goes into a comment
            std::string const size = std::string(k == 1 ? "8 " : "1 ") + std::to_string(h) + "\n" + (k == 2 ? "255\n" : ""); std::size_t const base = 3 + size.size() + std::size_t(h) * per;
            if (base > n || base + 1 == n) continue;
            hd = std::string("P") + "146"[k] + "\n"; if (base < n) hd += "#" + std::string(n - base - 2, ' ') + "\n"; hd += size;
            d.resize(std::size_t(h) * per); for (std::size_t i = 0; i < d.size(); ++i) { unsigned const v = unsigned((i * 2654435761u) >> 13); d[i] = k == 0 ? char('0' + v % 2) : char(v); }
            break;
        }
        body(c, hd + d); }, 1});
    f.push_back({"stale-tail", "every truncation point of 12 valid files while fstat announces the full size, with at most 2 further deviations", [](Ctx& c){
        std::string const& s = c.pick(valid_files()); unsigned const cut = c.choose(unsigned(s.size()));
        Allowed const part = oracle(s.substr(0, cut), 128);
        put(s.substr(0, cut)); g_len = s.size();
        g = &c; g_on = true; g_fd = -1; g_opened = g_closed = g_badclose = g_reads = g_bad = 0; g_short = true; g_hard = false; g_log.clear();
        struct Off { ~Off() { g_on = false; if (g_fd >= 0) { __real_close(g_fd); g_fd = -1; } } } off;
        Res r = load(128); g_on = false; c.transition();
        c.note([&]{ return "first " + std::to_string(cut) + " bytes of \"" + vis(s) + "\", answers:" + g_log + " -> " + (r.ok ? r.pic.str() : "error: " + r.err); });
        c.state(hash(g_log, mix(cut, hash(s)))); c.outcome(r.ok ? r.pic.hash() : hash(r.err));
        if (r.ok) c.check(part.image && r.pic == part.pic, [&]{ return "pixels that the file does not contain: " + r.pic.str() + " from the first " + std::to_string(cut) + " bytes of \"" + vis(s) + "\" after" + g_log; });
        c.check(!g_bad && g_closed == g_opened && !g_badclose, "descriptor not closed exactly once, or endless loop");
    }, 2});
    return f;
}

static std::vector<Family> families(Tier t)
{
#if PROP == 1
    return c01(t);
#elif PROP == 2
    return c02(t);
#else
    return c03(t);
#endif
}
MC_MAIN(families)
