// C33: no tool reports success after an input or output error: every fault point of every tool.
// The tool runs in a child process with a device behind its standard output, an operating system that fails reads,
// or an allocator that fails; success is only allowed with exactly the output of the undisturbed run.
#include "knowledge.hpp"
#include <dlfcn.h>
#include <new>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
using namespace mc;

int main_normalize_glyphs(int, char**);
int main_write_glyphs(int, char**);
int main_write_datas(int, char**);
int main_make_trie_dictionary(int, char**);
int main_show_glyphs(int, char**);
int main_ocr2_extract_text(int, char**);

// ---- allocator
static bool a_on = false, a_once = false; static long a_at = -1, a_count = 0;      // a_at < 0: counts only
static void* a_get(std::size_t n, std::size_t al, bool nothrow)
{
    if (a_on) {
        long const k = a_count++;
        if (a_at >= 0 && (k == a_at || (k > a_at && !a_once))) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    }
    void* p = al ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
    if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    return p;
}
void* operator new(std::size_t n) { return a_get(n, 0, false); }
void* operator new[](std::size_t n) { return a_get(n, 0, false); }
void* operator new(std::size_t n, std::nothrow_t const&) noexcept { return a_get(n, 0, true); }
void* operator new[](std::size_t n, std::nothrow_t const&) noexcept { return a_get(n, 0, true); }
void* operator new(std::size_t n, std::align_val_t a) { return a_get(n, std::size_t(a), false); }
void* operator new[](std::size_t n, std::align_val_t a) { return a_get(n, std::size_t(a), false); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }
void operator delete[](void* p, std::size_t) noexcept { free(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { free(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { free(p); }

// ---- reads of one file
enum ReadMode { EIO_FOR_GOOD, EIO_ONCE, INTERRUPT, SHORT };
static struct { bool on = false; ino_t ino = 0; dev_t dev = 0; std::size_t at = 0, done = 0; ReadMode mode = SHORT; bool fired = false; unsigned calls = 0; } r_;
extern "C" __attribute__((visibility("default"))) ssize_t read(int fd, void* b, size_t n)
{
    if (!r_.on) return syscall(SYS_read, fd, b, n);
    struct stat st; if (fstat(fd, &st) || st.st_ino != r_.ino || st.st_dev != r_.dev) return syscall(SYS_read, fd, b, n);
    if (++r_.calls > 100000) _exit(98);
    if (r_.fired && r_.mode != EIO_FOR_GOOD) return syscall(SYS_read, fd, b, n);
    if (r_.done >= r_.at) {
        r_.fired = true;
        if (r_.mode == EIO_FOR_GOOD || r_.mode == EIO_ONCE) { errno = EIO; return -1; }
        if (r_.mode == INTERRUPT) { errno = EINTR; return -1; }
        return syscall(SYS_read, fd, b, n);
    }
    ssize_t const k = syscall(SYS_read, fd, b, std::min(n, r_.at - r_.done));
    if (k > 0) r_.done += std::size_t(k);
    return k;
}

// ---- standard output: a buffer in front of a device that takes a number of bytes and then fails
struct Shared { volatile int ran, rc, threw, calls; volatile long allocs; std::size_t written, pending; char err[512]; std::size_t n; char out[1 << 20]; };
struct Device : std::streambuf
{
    Shared& s; std::size_t buffer, room; bool broken = false; std::size_t pend = 0;
    Device(Shared& s, std::size_t buffer, std::size_t room) : s(s), buffer(buffer), room(room) {}
    bool drain() { std::size_t const k = std::min(pend, room - std::min(room, s.written)); s.written += k; pend -= k; if (pend) { broken = true; } return !broken; }
    bool put(char c) { if (broken) return false; if (s.n == sizeof s.out) _exit(97); s.out[s.n++] = c; ++pend; return pend < buffer || drain(); }
    int_type overflow(int_type c) override { return traits_type::eq_int_type(c, traits_type::eof()) ? 0 : put(traits_type::to_char_type(c)) ? c : traits_type::eof(); }
    std::streamsize xsputn(char const* p, std::streamsize n) override { for (std::streamsize i = 0; i < n; ++i) if (!put(p[i])) return i; return n; }
    int sync() override { return drain() ? 0 : -1; }
};
struct NullBuf : std::streambuf { int_type overflow(int_type c) override { return traits_type::not_eof(c); } std::streamsize xsputn(char const*, std::streamsize n) override { return n; } };

struct Plan
{
    std::size_t buffer = 1 << 20, room = ~std::size_t(0);
    long alloc = -1; bool alloc_once = false;
    int file = -1; std::size_t at = 0; ReadMode mode = SHORT;
    bool no_descriptors = false;
};
struct Outcome { bool success = false; std::string out, how; std::size_t written = 0; long allocs = 0; bool fired = false; };

struct Scenario { char const* name; int (*tool)(int, char**); std::vector<std::string> args, files; };       // args "@k": path of file k
static std::string path_of(unsigned scenario, unsigned k) { return scratch("s" + std::to_string(scenario) + "-f" + std::to_string(k)); }

static Outcome run_plan(unsigned id, Scenario const& sc, Plan const& p, std::vector<std::string> const* paths = nullptr)
{
    static auto* s = static_cast<Shared*>(shm(sizeof(Shared)));
    static std::ios const pristine(nullptr);
    static bool const once = (std::ios::sync_with_stdio(false), true); (void)once;
    s->ran = s->rc = s->threw = 0; s->allocs = 0; s->written = s->pending = s->n = 0; s->err[0] = 0; s->calls = 0;
    std::vector<std::string> args = {"tool"}; for (auto& a : sc.args) args.push_back(a[0] == '@' ? (paths ? (*paths)[unsigned(a[1] - '0')] : path_of(id, unsigned(a[1] - '0'))) : a);
    std::string const faulty = p.file >= 0 ? path_of(id, unsigned(p.file)) : std::string();
    fflush(nullptr);
    pid_t const pid = fork();
    if (pid < 0) { perror("fork"); _exit(3); }
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        std::vector<char*> av; for (auto& a : args) av.push_back(a.data()); av.push_back(nullptr);
        if (p.file >= 0) { struct stat st; if (stat(faulty.c_str(), &st)) _exit(96); r_.ino = st.st_ino; r_.dev = st.st_dev; r_.at = p.at; r_.mode = p.mode; }
        Device dev(*s, p.buffer, p.room); NullBuf nul;
        std::cout.rdbuf(&dev); std::cerr.rdbuf(&nul); std::clog.rdbuf(&nul);
        for (std::ostream* o : {&std::cout, &std::cerr}) { o->clear(); o->copyfmt(pristine); o->fill(' '); o->precision(6); o->flags(std::ios::dec | std::ios::skipws | (o == &std::cerr ? std::ios::unitbuf : std::ios::fmtflags{})); o->exceptions(std::ios::goodbit); }
        if (p.no_descriptors) { rlimit l{3, 3}; setrlimit(RLIMIT_NOFILE, &l); }
        std::set_terminate([] { _exit(95); });          // ends the process with a failure status, as the real tool does
        errno = 0; a_at = p.alloc; a_once = p.alloc_once; a_count = 0; a_on = true; r_.on = p.file >= 0;
        int rc = 0; bool threw = false;
        try { rc = sc.tool(int(args.size()), av.data()); } catch (std::exception const& e) { a_on = r_.on = false; threw = true; snprintf(s->err, sizeof s->err, "%s", e.what()); } catch (...) { threw = true; }
        a_on = r_.on = false; s->allocs = a_count; s->calls = r_.fired;
        if (rc == 0 && !threw) { dev.broken = false; dev.drain(); }         // what the end of the program flushes, unseen
        s->rc = rc; s->threw = threw; s->ran = 1;
        _exit(0);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
    Outcome o; o.out.assign(s->out, s->n); o.written = s->written; o.allocs = s->allocs; o.fired = s->calls;
    int const code = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
    if (code == 77 || (code != 0 && code != 95)) throw Failure{"the tool ends in a crash (" + std::string(code < 0 ? "signal" : "sanitizer or internal status " + std::to_string(code)) + ")"};
    if (code == 95) o.how = "terminates"; else if (s->threw) o.how = std::string("exception: ") + s->err; else if (s->rc) o.how = "status " + std::to_string(s->rc); else { o.how = "success"; o.success = true; }
    return o;
}

static std::vector<Scenario> const& scenarios()
{
    static std::vector<Scenario> v;
    if (v.empty()) {
        auto& L = letters(); std::string const l1 = p4(line_of({{&L[0].pic, 1, 1}, {&L[1].pic, 2, 1}, {&L[2].pic, 6, 3}, {&L[0].pic, 1, 1}})), l2 = p6(line_of({{&L[3].pic, 2, 0}, {&L[2].pic, 2, 5}}));
        auto glyph = [](Pic const& p, std::string const& views, unsigned n) { return std::to_string(p.w) + " " + std::to_string(p.h) + " " + p.p + "\n" + std::to_string(n) + "\n" + views; };
        std::string const g1 = glyph(Pic(2, 2, "xx-x"), "a f 4294967295\nb g 1\n", 2) + glyph(Pic(1, 3, "xxx"), "l a_font_name_longer_than_a_small_string 3\n", 1) + glyph(Pic(2, 2, "xx-x"), "c f 0\n", 1), g2 = glyph(Pic(2, 2, "xx-x"), "a f 4294967295\na h 2\n", 2) + glyph(Pic(3, 1, "x-x"), "d f 1\n", 1);
        std::string kg, kd, wl = "a 0 1 2 2\nbb 3 0 2 2\n"; std::vector<Row> rows; std::vector<GV> gv = {{{"a", "f"}}, {{"bb", "f"}, {"c", "g"}}, {{".", "f"}}}; for (unsigned i = 0; i < 3; ++i) rows.push_back(L[i].row); kg = glyphs_text(gv); kd = datas_text(rows);
        ToolRun const dict = run_tool_on(main_make_trie_dictionary, {"abb\na\n\xc3\xa9t\xc3\xa9\n"});
        v.push_back({"write_glyphs, one line", main_write_glyphs, {"@0", "@1", "font"}, {l1, "a bb .\na\n"}});
        v.push_back({"write_glyphs, two lines", main_write_glyphs, {"-l", "100", "@0", "@1", "f1", "@2", "@3", "a_font_name_longer_than_a_small_string"}, {l1, "a bb .\na", l2, "x a_word_longer_than_a_small_string_buffer"}});
        v.push_back({"write_glyphs, more words than characters", main_write_glyphs, {"@0", "@1", "font"}, {l1, "a bb .\na\na_word_longer_than_a_small_string_buffer\n"}});
        v.push_back({"write_glyphs, fewer words than characters", main_write_glyphs, {"@0", "@1", "font"}, {l1, "a bb\n\n"}});
        v.push_back({"normalize_glyphs, one file", main_normalize_glyphs, {"@0"}, {g1}});
        v.push_back({"normalize_glyphs, two files", main_normalize_glyphs, {"@0", "@1"}, {g1, g2}});
        v.push_back({"write_datas", main_write_datas, {"@0"}, {g1}});
        v.push_back({"make_trie_dictionary, one file", main_make_trie_dictionary, {"@0"}, {"abc\nab\n\n\xc3\xa9t\xc3\xa9\nzz"}});
        v.push_back({"make_trie_dictionary, two files", main_make_trie_dictionary, {"@0", "@1"}, {"ab\n", "a_word_longer_than_a_small_string_buffer\nb\n"}});
        v.push_back({"show_glyphs, one picture", main_show_glyphs, {"@0"}, {l1}});
        v.push_back({"show_glyphs, two pictures", main_show_glyphs, {"-l", "90", "@0", "@1"}, {l1, l2}});
        v.push_back({"ocr2_extract_text, no optional file", main_ocr2_extract_text, {"@0", "@1", "@2"}, {kg, kd, l1}});
        v.push_back({"ocr2_extract_text, word lines", main_ocr2_extract_text, {"@0", "@1", "@2", "@3"}, {kg, kd, l2, wl}});
        v.push_back({"ocr2_extract_text, all files", main_ocr2_extract_text, {"@0", "@1", "@2", "@3", "@4"}, {kg, kd, l1, wl, dict.out}});
    }
    return v;
}
// the undisturbed run of each scenario, once per process; its files are written
static Outcome const& clean(Ctx& c, unsigned id)
{
    static std::map<unsigned, Outcome> m; static pid_t owner = 0; if (owner != getpid()) { owner = getpid(); m.clear(); }
    auto it = m.find(id);
    if (it == m.end()) {
        auto& sc = scenarios()[id]; for (unsigned k = 0; k < sc.files.size(); ++k) spit(path_of(id, k), sc.files[k]);
        Plan count; Outcome o = run_plan(id, sc, count);
        if (o.success != (id != 2 && id != 3) || o.out.empty()) c.fail(std::string(sc.name) + " fails, or wrongly succeeds, without any fault (" + o.how + ")");
        it = m.emplace(id, o).first;
    }
    return it->second;
}
static std::string cut(std::string const& s) { return s.size() > 200 ? s.substr(0, 200) + "..." : s; }
static void judge(Ctx& c, Scenario const& sc, Outcome const& ref, Outcome const& o, bool must_succeed, std::string const& fault)
{
    c.note([&]{ return std::string(sc.name) + ", " + fault + ": " + o.how; }); c.transition(); c.outcome(hash(o.how, o.success));
    if (o.success) {
        c.check(ref.success, [&]{ return std::string(sc.name) + " reports success, unlike without " + fault; });
        c.check(o.out == ref.out, [&]{ return std::string(sc.name) + " reports success although it wrote something else with " + fault + ":\n" + cut(o.out); });
        c.check(o.written == ref.out.size(), [&]{ return std::string(sc.name) + " reports success although only " + std::to_string(o.written) + " of " + std::to_string(ref.out.size()) + " bytes could be written (" + fault + ")"; });
    }
    else c.check(!must_succeed || !ref.success, [&]{ return std::string(sc.name) + " fails (" + o.how + ") although nothing failed: " + fault; });
}
// a choice among n possibly large alternatives
static unsigned number(Ctx& c, unsigned n) { if (n <= 500) return c.choose(n); unsigned const hi = c.choose((n + 499) / 500); return hi * 500 + c.choose(std::min(500u, n - hi * 500)); }

static std::vector<Family> families(Tier t)
{
    std::vector<Family> fs; unsigned const S = unsigned(scenarios().size());
    std::string const all = "14 runs of the 6 tools (one or several inputs, optional files)";
    fs.push_back({"output", all + " x a full device after every number of written bytes x buffers of 1, 64 and 2^20 bytes in front of it", [S](Ctx& c){
        unsigned const id = c.choose(S); auto& sc = scenarios()[id]; auto& ref = clean(c, id); Plan p; static std::size_t const b[] = {1, 64, 1 << 20}; p.buffer = b[c.choose(3)]; p.room = number(c, unsigned(ref.out.size()) + 1);
        c.state(mix(mix(id, p.buffer), p.room)); judge(c, sc, ref, run_plan(id, sc, p), p.room >= ref.out.size(), "an output that takes " + std::to_string(p.room) + " of " + std::to_string(ref.out.size()) + " bytes behind a buffer of " + std::to_string(p.buffer)); }});
    fs.push_back({"reads", all + " x each input file x every offset x {read error for good, read error once, interruption, short read}", [S](Ctx& c){
        unsigned const id = c.choose(S); auto& sc = scenarios()[id]; auto& ref = clean(c, id); Plan p; p.file = int(c.choose(unsigned(sc.files.size()))); p.mode = ReadMode(c.choose(4)); p.at = number(c, unsigned(sc.files[unsigned(p.file)].size()) + 1);
        c.state(mix(mix(id, p.file * 8 + p.mode), p.at)); static char const* n[] = {"read errors from", "one read error at", "an interrupted read at", "a short read at"};
        Outcome const o = run_plan(id, sc, p); judge(c, sc, ref, o, p.mode == SHORT, std::string(n[p.mode]) + " byte " + std::to_string(p.at) + " of file " + std::to_string(p.file));
c.outcome(hash(std::string("fired"), o.fired)); }});
    fs.push_back({"unusable", all + " x each input file missing, a directory, or no descriptor left for any", [S](Ctx& c){
        unsigned const id = c.choose(S); auto& sc = scenarios()[id]; auto& ref = clean(c, id); unsigned const f = c.choose(unsigned(sc.files.size())), kind = c.choose(3); std::vector<std::string> paths; for (unsigned k = 0; k < sc.files.size(); ++k) paths.push_back(path_of(id, k));
        Plan p; if (kind == 0) paths[f] += "-missing"; else if (kind == 1) paths[f] = scratch("").substr(0, scratch("").rfind('/')); else p.no_descriptors = true;
        c.state(mix(mix(id, f), kind)); Outcome const o = run_plan(id, sc, p, &paths); static char const* n[] = {"missing", "a directory", "not opened (no descriptor left)"}; judge(c, sc, ref, o, false, "file " + std::to_string(f) + " " + n[kind]);
        c.check(!o.success, [&]{ return std::string(sc.name) + " reports success with file " + std::to_string(f) + " " + n[kind]; }); }});
    fs.push_back({"memory", all + " x failure of every single memory allocation, alone or with all later ones", [S](Ctx& c){
        unsigned const id = c.choose(S); auto& sc = scenarios()[id]; auto& ref = clean(c, id); Plan p; p.alloc_once = c.flag(); p.alloc = long(number(c, unsigned(ref.allocs) + 1));
        c.state(mix(mix(id, p.alloc_once), p.alloc)); judge(c, sc, ref, run_plan(id, sc, p), p.alloc >= ref.allocs, std::string(p.alloc_once ? "only allocation " : "every allocation from ") + std::to_string(p.alloc) + " of " + std::to_string(ref.allocs) + " failing"); }});
    (void)t;
    return fs;
}
MC_MAIN(families)
