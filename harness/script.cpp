// C35: the learning script rebuilds every database from the training pictures, reports every failing step, and
// starting it again after any failure or interruption gives the same databases.
// The real script runs in a scratch copy of the tree; the tools are this program started with --tool.
#include "knowledge.hpp"
#include <sys/stat.h>
#include <dirent.h>
#include <grp.h>
using namespace mc;

int main_normalize_glyphs(int, char**);
int main_write_glyphs(int, char**);
int main_write_datas(int, char**);

static void make_dir(std::string const& d) { if (mkdir(d.c_str(), 0777) && errno != EEXIST) { perror(d.c_str()); _exit(3); } }
static void files_of(std::string const& d, std::string const& rel, std::map<std::string, std::string>& m)
{
    if (DIR* x = opendir((d + "/" + rel).c_str())) {
        while (auto* e = readdir(x)) {
            std::string const n = e->d_name; if (n == "." || n == "..") continue;
            std::string const r = rel.empty() ? n : rel + "/" + n; struct stat st;
            if (lstat((d + "/" + r).c_str(), &st) == 0 && S_ISDIR(st.st_mode)) files_of(d, r, m); else m[r] = slurp(d + "/" + r);
        }
        closedir(x);
    }
}
static std::map<std::string, std::string> files_of(std::string const& d) { std::map<std::string, std::string> m; files_of(d, "", m); return m; }
static void remove_tree(std::string const& d)        // only below the scratch directory, never following links
{
    if (d.compare(0, scratch("").size(), scratch("")) != 0) _exit(3);
    if (DIR* x = opendir(d.c_str())) {
        while (auto* e = readdir(x)) { std::string const n = e->d_name; if (n == "." || n == "..") continue; std::string const p = d + "/" + n; struct stat st; if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) remove_tree(p); else unlink(p.c_str()); }
        closedir(x);
    }
    rmdir(d.c_str());
}

// the script and the tools it starts run as a user who can change nothing but the scratch tree
constexpr unsigned NOBODY = 65534;
static void give(std::string const& d)
{
    if (lchown(d.c_str(), NOBODY, NOBODY)) return;
    if (DIR* x = opendir(d.c_str())) { while (auto* e = readdir(x)) { std::string const n = e->d_name; if (n == "." || n == "..") continue; std::string const p = d + "/" + n; struct stat st; if (lstat(p.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) give(p); else if (lchown(p.c_str(), NOBODY, NOBODY)) return; } closedir(x); }
}
static std::string const& own_copy()      // this program, where that user can start it
{
    static std::string f; static pid_t owner = 0;
    if (owner != getpid()) { owner = getpid(); f = scratch("tool"); std::string const dir = f.substr(0, f.rfind('/')); chmod(dir.c_str(), 0711); spit(f, slurp("/proc/self/exe")); chmod(f.c_str(), 0755); }
    return f;
}

// ---- training trees: per alphabet, generated fonts (pictures of the same letters) and hand made ones (own text each)
struct Picture { std::string name, image, words; };
struct Font { std::string name; std::vector<Picture> pics; };
struct Alphabet { std::vector<Font> generated, mano; std::string letters; };
struct Tree { Alphabet a[2]; };
static char const* const alphabets[2] = {"latin", "cyrillic"};
static Pic const& glyph(unsigned k) { static std::vector<Pic> const v = {Pic(1, 3, "xxx"), Pic(3, 3, "xxxx-xxxx"), Pic(2, 2, "x-xx"), Pic(1, 1, "x"), Pic(2, 3, "xx-xx-"), Pic(2, 2, "xx-x"), Pic(3, 1, "xxx")}; return v[k % v.size()]; }
static Pic text_line(unsigned first, unsigned n) { std::vector<At> v; for (unsigned i = 0; i < n; ++i) v.push_back({&glyph(first + i), 1 + i % 2, i % 3}); return line_of(v); }
static Tree make(unsigned fonts, unsigned pics, unsigned hand, unsigned variant)
{
    Tree t;
    for (unsigned s = 0; s < 2; ++s) {
        auto& a = t.a[s]; a.letters = s ? "\xd0\xb0 \xd0\xb1 \xd0\xb2\n" : "a\nb\nc";
        for (unsigned f = 0; f < fonts; ++f) { Font x; x.name = "g" + std::to_string(f) + (f == 1 ? "_bold" : ""); for (unsigned p = 0; p < pics; ++p) x.pics.push_back({std::to_string(8 + p), p6(text_line(f * 2 + p + variant + s, 3)), ""}); a.generated.push_back(x); }
        for (unsigned f = 0; f < hand; ++f) { Font x; x.name = "m" + std::to_string(f); for (unsigned p = 0; p < pics; ++p) x.pics.push_back({"line" + std::to_string(p), p4(text_line(f + p + variant, 1 + p)), p ? "x word\n" : "x\n"}); a.mano.push_back(x); }
    }
    return t;
}
static void plant(Tree const& t, std::string const& d)
{
    make_dir(d); make_dir(d + "/resources"); make_dir(d + "/resources/glyphs"); make_dir(d + "/resources/datas"); make_dir(d + "/resources/fonts"); make_dir(d + "/else where"); make_dir(d + "/bin");
    for (unsigned s = 0; s < 2; ++s) {
        std::string const b = d + "/resources/fonts/" + alphabets[s]; make_dir(b); make_dir(b + "/generated"); make_dir(b + "/mano"); spit(b + "/letters", t.a[s].letters);
        for (auto& f : t.a[s].generated) { make_dir(b + "/generated/" + f.name); for (auto& p : f.pics) spit(b + "/generated/" + f.name + "/" + p.name + ".pnm", p.image); }
        for (auto& f : t.a[s].mano) { make_dir(b + "/mano/" + f.name); for (auto& p : f.pics) { spit(b + "/mano/" + f.name + "/" + p.name + ".pbm", p.image); spit(b + "/mano/" + f.name + "/" + p.name + ".txt", p.words); } }
    }
    // databases of an earlier run
    for (char const* n : {"latin", "cyrillic", "latin-cyrillic"}) { spit(d + "/resources/glyphs/normalized-glyphs-" + n + ".txt", "stale\n"); spit(d + "/resources/datas/" + n + ".txt", "stale\n"); }
    static std::string const script = slurp(repo_dir() + "/learning"); spit(d + "/learning", script); chmod((d + "/learning").c_str(), 0755);
    std::string const exe = own_copy();
    // every call of a tool is numbered; call FAIL_AT fails in the way FAIL_HOW
    for (char const* tool : {"write_glyphs", "normalize_glyphs", "write_datas"}) {
        std::string const f = d + "/bin/" + tool;
        spit(f, "#!/bin/bash\n"
                "echo " + std::string(tool) + " >> '" + d + "/calls'\n"
                "n=$(wc -l < '" + d + "/calls')\n"
                "run() { ASAN_OPTIONS=detect_leaks=0:exitcode=77 '" + exe + "' --tool " + tool + " \"$@\"; }\n"
                "if [ \"$n\" = \"$FAIL_AT\" ]; then case $FAIL_HOW in\n"
                "0) exit 1;; 1) run \"$@\" | head -c 20; exit 3;; 2) run \"$@\"; exit 139;; 3) kill -9 $SCRIPT_PID; exit 1;; 4) run \"$@\"; kill -9 $SCRIPT_PID; exit 1;; esac; fi\n"
                "run \"$@\"\n");
        chmod(f.c_str(), 0755);
    }
    give(d);
}
// the databases, computed by the tools' own entry points (C16 and C17 state what these do)
static std::string chain_text(Ctx& c, int (*tool)(int, char**), std::vector<std::string> const& args) { ToolRun const r = run_tool(tool, args); c.transition(); c.check(!r.failed(), [&]{ return "a tool fails on a valid training set: " + r.err; }); return r.out; }
static std::map<std::string, std::string> expected(Ctx& c, Tree const& t, std::string const& d)
{
    std::map<std::string, std::string> m; std::string raw[2], file[2];
    for (unsigned s = 0; s < 2; ++s) {
        std::string const b = d + "/resources/fonts/" + alphabets[s];
        for (auto& f : t.a[s].generated) for (auto& p : f.pics) raw[s] += chain_text(c, main_write_glyphs, {"-l", "100", b + "/generated/" + f.name + "/" + p.name + ".pnm", b + "/letters", f.name});
        for (auto& f : t.a[s].mano) for (auto& p : f.pics) raw[s] += chain_text(c, main_write_glyphs, {"-l", "100", b + "/mano/" + f.name + "/" + p.name + ".pbm", b + "/mano/" + f.name + "/" + p.name + ".txt", f.name});
        file[s] = scratch("raw" + std::to_string(s)); spit(file[s], raw[s]);
    }
    auto add = [&](std::string const& n, std::vector<std::string> const& in) { std::string const g = m["resources/glyphs/normalized-glyphs-" + n + ".txt"] = chain_text(c, main_normalize_glyphs, in), f = scratch("norm"); spit(f, g); m["resources/datas/" + n + ".txt"] = chain_text(c, main_write_datas, {f}); };
    add("latin", {file[0]}); add("cyrillic", {file[1]}); add("latin-cyrillic", {file[0], file[1]});
    return m;
}

struct Call { unsigned fail_at = 0, fail_how = 0, cwd = 0, tools = 0, arguments = 3, plain = ~0u; };
static int learn(std::string const& d, Call const& k)
{
    std::string const cwd = k.cwd == 1 ? d + "/else where" : k.cwd == 2 ? "/" : d;
    std::string const script = k.cwd == 0 ? "./learning" : k.cwd == 1 ? "../learning" : d + "/learning";
    std::string const bin = k.tools == 0 ? d + "/bin/" : k.cwd == 0 ? "bin/" : k.cwd == 1 ? "../bin/" : (d + "/bin/").substr(1);
    std::vector<std::string> args = {"bash", script}; static char const* const names[] = {"write_glyphs", "normalize_glyphs", "write_datas"};
    for (unsigned i = 0; i < k.arguments; ++i) args.push_back(i == k.plain ? d + "/resources/fonts/latin/letters" : bin + names[i]);
    std::string const at = "FAIL_AT=" + std::to_string(k.fail_at), how = "FAIL_HOW=" + std::to_string(k.fail_how);
    unlink((d + "/calls").c_str());
    own_copy(); prctl(PR_SET_CHILD_SUBREAPER, 1); fflush(nullptr);
    pid_t const pid = fork(); if (pid < 0) { perror("fork"); _exit(3); }
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL); setpgid(0, 0);
        if (geteuid() == 0 && (setgroups(0, nullptr) || setgid(NOBODY) || setuid(NOBODY))) _exit(96);
        if (chdir(cwd.c_str())) _exit(98);
        int const nul = open("/dev/null", O_RDWR); dup2(nul, 0); dup2(nul, 1); dup2(nul, 2);
        putenv(const_cast<char*>(at.c_str())); putenv(const_cast<char*>(how.c_str())); static std::string const me = "SCRIPT_PID=" + std::to_string(getpid()); putenv(const_cast<char*>(me.c_str()));
        std::vector<char*> av; for (auto& a : args) av.push_back(a.data()); av.push_back(nullptr); execvp("bash", av.data()); _exit(97);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
    kill(-pid, SIGKILL);        // what an interrupted script left running
    while (waitpid(-pid, nullptr, 0) > 0 || errno == EINTR) { }
    return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
}
static unsigned calls_of(std::string const& d) { std::string const s = slurp(d + "/calls"); return unsigned(std::count(s.begin(), s.end(), '\n')); }
static std::map<std::string, std::string> state_of(std::string const& d) { auto m = files_of(d); m.erase("calls"); return m; }
static void rebuilt(Ctx& c, std::string const& d, std::map<std::string, std::string> const& want, std::map<std::string, std::string> const& before, std::string const& when)
{
    auto now = state_of(d); auto w = before; for (auto& [n, s] : want) w[n] = s; c.outcome(hash(now["resources/datas/latin-cyrillic.txt"]));
    for (auto& [n, s] : w) { auto const it = now.find(n); c.check(it != now.end(), [&]{ return when + ": " + n + " is missing"; }); c.check(it->second == s, [&]{ return when + ": " + n + " contains\n" + it->second.substr(0, 400) + "\ninstead of\n" + s.substr(0, 400); }); }
    for (auto& [n, s] : now) c.check(w.count(n), [&]{ return when + ": leaves the file " + n; });
}
static std::string describe(Call const& k) { static char const* h[] = {"fails without output", "fails after 20 bytes", "fails after its output", "kills the script before", "kills the script after its output"}; return "call " + std::to_string(k.fail_at) + " of a tool " + h[k.fail_how]; }

static std::vector<Family> families(Tier t)
{
    std::vector<Family> fs; unsigned const F = t.thorough ? 3 : 2;
    fs.push_back({"rebuild", "1.." + std::to_string(F) + " generated fonts x 1..2 pictures x 1..2 hand made fonts x 3 contents x {absolute, relative} tools x started from {the tree, a directory beside it, /} x {plain, with a blank} tree name", [=](Ctx& c){
        Tree const tr = make(1 + c.choose(F), 1 + c.choose(2), 1 + c.choose(2), c.choose(3)); Call k; k.tools = c.choose(2); k.cwd = c.choose(3); std::string const d = scratch(c.choose(2) ? "a tree" : "tree");
        remove_tree(d); plant(tr, d); auto const before = state_of(d); auto const want = expected(c, tr, d);
        c.state(mix(hash(want.begin()->second), mix(k.tools, k.cwd * 2 + (d.find(' ') != d.npos)))); c.note([&]{ return "tree " + d + ", started from " + (k.cwd == 0 ? "it" : k.cwd == 1 ? "a directory beside" : "/") + (k.tools ? ", relative tool names" : ", absolute tool names"); });
        int const rc = learn(d, k); c.transition(calls_of(d)); c.check(rc == 0, [&]{ return "the script fails (" + std::to_string(rc) + ") on a valid tree"; });
        rebuilt(c, d, want, before, "after the script"); remove_tree(d); }});
    fs.push_back({"failing-step", "a tree of 2 generated fonts and 1 hand made font with 1..2 pictures each x every single call of a tool x {fails without output, after 20 bytes, after its output; script killed before, after} , then the script again, undisturbed", [=](Ctx& c){
        unsigned const pics = 1 + c.choose(2); Tree const tr = make(2, pics, 1, 0); unsigned const total = 6 * pics + 6; Call k; k.fail_at = 1 + c.choose(total); k.fail_how = c.choose(5); std::string const d = scratch("tree");
        remove_tree(d); plant(tr, d); auto const before = state_of(d); auto const want = expected(c, tr, d); c.state(mix(mix(pics, k.fail_at), k.fail_how)); c.note([&]{ return describe(k); });
        int const rc = learn(d, k); c.transition(calls_of(d)); c.check(rc != 0 || calls_of(d) < k.fail_at, [&]{ return "the script reports success although " + describe(k); });
        int const again = learn(d, Call{}); c.transition(calls_of(d)); c.check(again == 0, [&]{ return "the script cannot be started again (" + std::to_string(again) + ") after " + describe(k); });
        rebuilt(c, d, want, before, "started again after " + describe(k)); remove_tree(d); }});
    fs.push_back({"broken-training", "a text with a word more or less, a missing text, a cut or missing picture, at every place of the tree: reported; repaired and started again, the databases are right", [=](Ctx& c){
        Tree const tr = make(2, 2, 1, 1); unsigned const s = c.choose(2), place = c.choose(6), kind = c.choose(place < 4 ? 1 : 4); std::string const d = scratch("tree"); remove_tree(d); plant(tr, d); auto const before = state_of(d); auto const want = expected(c, tr, d);
        std::string const b = d + "/resources/fonts/" + alphabets[s]; std::string f = place < 4 ? b + "/generated/" + tr.a[s].generated[place / 2].name + "/" + tr.a[s].generated[place / 2].pics[place % 2].name : b + "/mano/" + tr.a[s].mano[0].name + "/" + tr.a[s].mano[0].pics[place - 4].name;
        f += place < 4 ? ".pnm" : kind == 3 ? ".pbm" : ".txt"; std::string const good = slurp(f);
        if (place < 4 || kind == 3) spit(f, good.substr(0, good.size() / 2)); else if (kind == 0) spit(f, good + "more"); else if (kind == 1) spit(f, ""); else unlink(f.c_str());
        c.state(mix(mix(s, place), kind)); c.note([&]{ return "damaged: " + f; });
        int const rc = learn(d, Call{}); c.transition(calls_of(d)); c.check(rc != 0, [&]{ return "the script reports success with " + f + " damaged"; });
        spit(f, good); int const again = learn(d, Call{}); c.transition(calls_of(d)); c.check(again == 0, "the script fails on the repaired tree"); rebuilt(c, d, want, before, "started again with " + f + " repaired"); remove_tree(d); }});
    fs.push_back({"arguments", "0..3 arguments, each of them a file that is no program: reported, nothing is changed", [=](Ctx& c){
        Call k; k.arguments = c.choose(4); k.plain = k.arguments == 3 ? c.choose(3) : ~0u; k.cwd = c.choose(3); std::string const d = scratch("tree"); remove_tree(d); plant(make(1, 1, 1, 0), d); auto const before = state_of(d); c.state(mix(mix(k.arguments, k.plain), k.cwd));
        int const rc = learn(d, k); c.transition(); c.check(rc != 0, "the script does not report unusable arguments"); rebuilt(c, d, {}, before, "after a refused call"); remove_tree(d); }});
    return fs;
}
int main(int ac, char** av)
{
    if (ac >= 3 && std::string(av[1]) == "--tool") {
        std::string const t = av[2];
        return t == "write_glyphs" ? main_write_glyphs(ac - 2, av + 2) : t == "normalize_glyphs" ? main_normalize_glyphs(ac - 2, av + 2) : main_write_datas(ac - 2, av + 2);
    }
    return mc::main_impl(ac, av, families);
}
