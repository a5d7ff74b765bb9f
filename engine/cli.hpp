// Runs the main() of a repository tool in this process, with its standard streams captured.
#pragma once
#include "img.hpp"
#include <iostream>
#include <sstream>

struct ToolRun { int rc = 0; std::string out, err; bool threw = false; bool failed() const { return threw || rc != 0; } };

inline std::string scratch(std::string const& name)
{
    static std::string const dir = [] { char const* d = getenv("VERIF_SCRATCH"); return std::string(d ? d : "/tmp"); }();
    return dir + "/" + std::to_string(getpid()) + "-" + name;
}
inline ToolRun run_tool(int (*tool)(int, char**), std::vector<std::string> args)
{
    static bool const once = (std::ios::sync_with_stdio(false), true); (void)once;
    static std::ios const pristine(nullptr);
    args.insert(args.begin(), "tool");
    std::vector<std::unique_ptr<char[]>> own; std::vector<char*> av;
    for (auto& a : args) { own.emplace_back(new char[a.size() + 1]); memcpy(own.back().get(), a.c_str(), a.size() + 1); av.push_back(own.back().get()); }
    av.push_back(nullptr);
    std::stringbuf o, e, l;
    auto* bo = std::cout.rdbuf(&o); auto* be = std::cerr.rdbuf(&e); auto* bl = std::clog.rdbuf(&l);
    for (std::ostream* s : {&std::cout, &std::cerr}) { s->clear(); s->copyfmt(pristine); s->fill(' '); s->precision(6); s->flags(std::ios::dec | std::ios::skipws | (s == &std::cerr ? std::ios::unitbuf : std::ios::fmtflags{})); s->exceptions(std::ios::goodbit); }
    errno = 0;
    ToolRun r;
    auto restore = [&] { std::cout.rdbuf(bo); std::cerr.rdbuf(be); std::clog.rdbuf(bl); };
    try { r.rc = tool(int(args.size()), av.data()); }
    catch (std::exception const& x) { r.threw = true; r.err = x.what(); }
    catch (char const* x) { r.threw = true; r.err = x; }
    restore();
    r.out = o.str(); r.err += e.str();
    return r;
}
inline ToolRun run_tool_on(int (*tool)(int, char**), std::vector<std::string> const& contents)   // one scratch file per content
{
    std::vector<std::string> args;
    for (std::size_t i = 0; i < contents.size(); ++i) { std::string const f = scratch("in" + std::to_string(i)); spit(f, contents[i]); args.push_back(f); }
    return run_tool(tool, args);
}
