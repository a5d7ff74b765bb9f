// C32: prefix tree, its flattened form, and reindexing.
#include "img.hpp"
#include "ppocr/container/trie.hpp"
#include "ppocr/utils/reindex.hpp"
#include <map>
#include <set>
#include <memory>
using namespace mc;
using namespace ppocr::container;

template<class T> using Seq = std::vector<T>;
template<class T> std::string show(std::set<Seq<T>> const& s) { std::string r = "{"; for (auto& q : s) { r += " ("; for (auto x : q) r += " " + std::to_string(x); r += " )"; } return r + " }"; }

// node contract against the sequences that share the first depth elements
template<class T, class Range> void walk(Ctx& c, Range const& rng, std::vector<Seq<T> const*> const& all, std::size_t depth, std::string const& how, std::size_t& nodes, std::set<Seq<T>> const& whole)
{
    std::map<T, std::pair<bool, std::vector<Seq<T> const*>>> want;   // child -> terminal, sequences below
    for (auto* q : all) if (q->size() > depth) { auto& w = want[(*q)[depth]]; w.second.push_back(q); if (q->size() == depth + 1) w.first = true; }
    auto fail = [&](char const* m) { c.fail(how + ": " + m + " at depth " + std::to_string(depth) + " for the set " + show(whole)); };
    if (rng.size() != want.size()) fail("wrong number of children");
    if (bool(rng.empty()) != want.empty()) fail("empty() is wrong");
    auto it = rng.begin(); c.transition(want.size() + 1);
    std::set<T> probes = {T(0), T(1), T(97), T(98), T(99)};
    for (auto& p : want) {
        if (it == rng.end()) fail("children end early");
        if (it->get() != p.first) fail("children are not the sorted next elements");
        if (it->is_terminal() != p.second.first) fail("terminal flag is wrong");
        if (rng.lower_bound(p.first) != it) fail("lower_bound does not find a child");
        probes.insert(T(p.first + 1)); probes.insert(T(p.first - 1));
        ++it;
    }
    if (it != rng.end()) fail("too many children");
    for (T x : probes) {
        auto l = rng.lower_bound(x); auto e = want.lower_bound(x);
        if ((l == rng.end()) != (e == want.end()) || (l != rng.end() && l->get() != e->first)) fail("lower_bound of an arbitrary value is wrong");
    }
    for (auto i = rng.begin(); i != rng.end(); ++i) {
        ++nodes;
        if (i->size() != i->childrens().size() || i->empty() != (i->size() == 0)) fail("size of a node is not its number of children");
        walk<T>(c, i->childrens(), want[i->get()].second, depth + 1, how, nodes, whole);
    }
}
template<class T> void check_set(Ctx& c, std::set<Seq<T>> const& s)
{
    c.note([&]{ return "sequences " + show(s); });
    { uint64_t h = 1; for (auto& q : s) { h = mix(h, 77); for (auto x : q) h = mix(h, uint64_t(x)); } c.state(h); }
    std::vector<Seq<T>> const v(s.begin(), s.end());
    std::vector<Seq<T> const*> ptrs; for (auto& q : s) ptrs.push_back(&q);
    trie<T> const t(v.begin(), v.end());
    std::size_t n1 = 0, n2 = 0; walk<T>(c, t, ptrs, 0, "tree", n1, s);
    flat_trie<T> const f(t);
    c.check(f.all().size() == n1, "the flattened tree has not one element per node");
    walk<T>(c, f.childrens(), ptrs, 0, "flattened tree", n2, s);
    // copies and rebuilt ones behave the same
    trie<T> const t2(t); n2 = 0; walk<T>(c, t2, ptrs, 0, "copied tree", n2, s);
    flat_trie<T> const f2(f.all()); n2 = 0; walk<T>(c, f2.childrens(), ptrs, 0, "rebuilt flattened tree", n2, s);
    std::vector<typename flat_trie<T>::node_type> nodes; for (auto& n : f.all()) nodes.emplace_back(n.get(), unsigned(n.relative_pos()), unsigned(n.size()), n.is_terminal());
    flat_trie<T> const f3(std::move(nodes)); n2 = 0; walk<T>(c, f3.childrens(), ptrs, 0, "flattened tree from saved nodes", n2, s);
    for (std::size_t i = 0; i < f.all().size(); ++i) c.check(&f[i] == &f.all()[i], "indexing");
    c.outcome(n1);
}
template<class T> std::vector<Seq<T>> universe(std::vector<T> const& letters, unsigned maxlen)
{
    std::vector<Seq<T>> r, cur = {{}};
    for (unsigned l = 0; l < maxlen; ++l) { std::vector<Seq<T>> nx; for (auto& q : cur) for (T x : letters) { nx.push_back(q); nx.back().push_back(x); } r.insert(r.end(), nx.begin(), nx.end()); cur = nx; }
    return r;
}
template<class T> void subset(Ctx& c, std::vector<Seq<T>> const& u) { std::set<Seq<T>> s; for (auto& q : u) if (c.choose(2)) s.insert(q); check_set<T>(c, s); }

// ---- reindex
template<class T, class I, class Mk, class Eq> void permute(Ctx& c, std::vector<I> const& idx, Mk mk, Eq eq, char const* type)
{
    std::vector<T> v; for (std::size_t i = 0; i < idx.size(); ++i) v.push_back(mk(unsigned(i)));
    std::vector<I> const keep = idx;
    ppocr::utils::reindex(idx, v); c.transition();
    auto what = [&]{ std::string s = std::string("reindex of ") + type + " by"; for (auto i : keep) s += " " + std::to_string(unsigned(i)); return s; };
    c.check(v.size() == keep.size(), [&]{ return what() + ": length changed"; });
    for (std::size_t i = 0; i < keep.size(); ++i) c.check(eq(v[i], unsigned(keep[i])), [&]{ return what() + ": element " + std::to_string(i) + " is wrong"; });
    c.check(idx == keep, [&]{ return what() + ": the index list changed"; });
}
static std::string text(unsigned i) { return i % 2 ? std::string(3 + i * 9, char('a' + i % 26)) : std::string(i % 5, char('A' + i % 26)) + std::to_string(i); }
static void perm(Ctx& c, std::vector<unsigned> const& p)
{
    c.note([&]{ std::string s = "permutation"; for (auto i : p) s += " " + std::to_string(i); return s; });
    { uint64_t h = p.size(); for (auto i : p) h = mix(h, i); c.state(h); c.outcome(p.empty() ? 0 : p[0] * 64 + p.back()); }
    permute<unsigned>(c, p, [](unsigned i) { return i * 3 + 1; }, [](unsigned v, unsigned i) { return v == i * 3 + 1; }, "numbers");
    permute<std::string>(c, p, text, [](std::string const& s, unsigned i) { return s == text(i); }, "texts");
    permute<std::unique_ptr<unsigned>>(c, std::vector<std::size_t>(p.begin(), p.end()), [](unsigned i) { return std::make_unique<unsigned>(i); }, [](auto const& q, unsigned i) { return q && *q == i; }, "owned objects");
    if (p.size() < 200) permute<std::vector<int>>(c, std::vector<unsigned char>(p.begin(), p.end()), [](unsigned i) { return std::vector<int>(i, int(i)); }, [](auto const& q, unsigned i) { return q.size() == i && (!i || q[0] == int(i)); }, "vectors");
}
static std::vector<Family> families(Tier t)
{
    std::vector<Family> fs;
    static auto const u2 = universe<uint32_t>({97, 98}, 3), u3 = universe<uint32_t>({1, 0xf09f9880u, 0x7fffffffu}, 2); static auto const uc = universe<char>({'a', 'b'}, 3);
    static auto const u4 = [] { auto r = universe<uint32_t>({5, 7}, 2); for (auto& q : universe<uint32_t>({5, 7}, 4)) if (q.size() == 4 && q[0] == 5) r.push_back(q); r.push_back({9}); r.push_back({5, 7, 6}); return r; }();
    fs.push_back({"tree-two-letters", "every set of the 14 sequences of 1..3 elements over {97 98}, 32-bit elements", [](Ctx& c){ subset<uint32_t>(c, u2); }});
    fs.push_back({"tree-chars", "every set of the 14 sequences of 1..3 elements over {a b}, characters", [](Ctx& c){ subset<char>(c, uc); }});
    fs.push_back({"tree-large-values", "every set of the 12 sequences of 1..2 elements over {1 2^31-1 f09f9880}", [](Ctx& c){ subset<uint32_t>(c, u3); }});
    fs.push_back({"tree-deep", "every set of 16 sequences with gaps in the prefixes up to depth 4", [](Ctx& c){ subset<uint32_t>(c, u4); }});
    fs.push_back({"tree-wide", "n sequences of two elements sharing 1..n first elements, n up to 400", [](Ctx& c){ static unsigned const ns[] = {1, 2, 16, 17, 100, 256, 257, 400}; unsigned n = ns[c.choose(8)], g = 1 + c.choose(12); std::set<Seq<uint32_t>> s; for (unsigned i = 0; i < n; ++i) { s.insert({i / g, i * 7 % n}); if (i % 3 == 0) s.insert({i / g}); } check_set<uint32_t>(c, s); }});
    fs.push_back({"tree-long", "one to three sequences of 1..300 elements with a common prefix", [](Ctx& c){ unsigned n = 1 + c.choose(30) * 10, k = c.choose(3); std::set<Seq<uint32_t>> s; Seq<uint32_t> q; for (unsigned i = 0; i < n; ++i) q.push_back(i % 5 + 1); s.insert(q); if (k) { auto r = q; r.push_back(9); s.insert(r); } if (k > 1) { auto r = q; r.resize((n + 1) / 2); s.insert(r); } check_set<uint32_t>(c, s); }});
    static auto const W = scale(t.thorough ? 300001 : 70000), V = scale(t.thorough ? 70000 : 8193), D = scale(t.thorough ? 10000 : 3000);
    fs.push_back({"tree-wide-scale", "n sequences of two elements with all the same, all different or a third as many first elements, n on the scale up to " + std::to_string(V.back()), [](Ctx& c){ unsigned const n = c.pick(V), k = c.choose(3); std::set<Seq<uint32_t>> s; for (unsigned i = 0; i < n; ++i) { s.insert(k == 0 ? Seq<uint32_t>{5, i * 3} : k == 1 ? Seq<uint32_t>{i * 3, 5} : Seq<uint32_t>{i / 3, i}); if (i % 5 == 0) s.insert({k == 0 ? 5u : k == 1 ? i * 3 : i / 3}); } check_set<uint32_t>(c, s); }});
    fs.push_back({"tree-long-scale", "one to three sequences of n elements with a common prefix, n on the scale up to " + std::to_string(D.back()), [](Ctx& c){ unsigned const n = c.pick(D), k = c.choose(3); std::set<Seq<uint32_t>> s; Seq<uint32_t> q; for (unsigned i = 0; i < n; ++i) q.push_back(i % 5 + 1); s.insert(q); if (k) { auto r = q; r.push_back(9); s.insert(r); } if (k > 1) { auto r = q; r.resize((n + 1) / 2); s.insert(r); } check_set<uint32_t>(c, s); }});
    fs.push_back({"permutation-scale", "reversal, rotations, strides and a transposition of n elements, n on the scale up to " + std::to_string(W.back()), [](Ctx& c){ unsigned const n = c.pick(W), k = c.choose(7); std::vector<unsigned> p; for (unsigned i = 0; i < n; ++i) p.push_back(k == 0 ? n - 1 - i : k == 1 ? (i + 1) % n : k == 2 ? (i + n / 2) % n : k == 3 ? (i % 2 ? n - 1 - i / 2 : i / 2) : k == 4 ? (i ^ 1u) < n ? i ^ 1u : i : i); if (k == 5) std::swap(p[0], p[n - 1]); if (k == 6) std::swap(p[n / 3], p[n / 2]);
        c.note([&]{ return "permutation " + std::to_string(k) + " of " + std::to_string(n); }); c.state(mix(n, k)); c.outcome(p[0]);
        permute<unsigned>(c, p, [](unsigned i) { return i * 3 + 1; }, [](unsigned v, unsigned i) { return v == i * 3 + 1; }, "numbers");
        if (n < 65536) permute<std::string>(c, std::vector<unsigned short>(p.begin(), p.end()), [](unsigned i) { return std::to_string(i); }, [](std::string const& s, unsigned i) { return s == std::to_string(i); }, "short texts");
        permute<std::unique_ptr<unsigned>>(c, std::vector<std::size_t>(p.begin(), p.end()), [](unsigned i) { return std::make_unique<unsigned>(i); }, [](auto const& q, unsigned i) { return q && *q == i; }, "owned objects"); }});
    unsigned const N = t.thorough ? 9 : 7;
    fs.push_back({"permutations", "every permutation of 0.." + std::to_string(N) + " elements; numbers, texts, owned objects and vectors", [N](Ctx& c){ unsigned n = c.choose(N + 1); std::vector<unsigned> l, p; for (unsigned i = 0; i < n; ++i) l.push_back(i); while (!l.empty()) { unsigned k = c.choose(unsigned(l.size())); p.push_back(l[k]); l.erase(l.begin() + k); } perm(c, p); }});
    fs.push_back({"long-permutations", "rotations, reversal, stride and transpositions of 10..1000 elements", [](Ctx& c){ static unsigned const ns[] = {10, 17, 64, 100, 255, 256, 257, 1000}; unsigned n = ns[c.choose(8)], k = c.choose(40); std::vector<unsigned> p; for (unsigned i = 0; i < n; ++i) p.push_back(k == 0 ? n - 1 - i : k < 20 ? (i + k * 3) % n : i); if (k >= 20) { std::swap(p[k % n], p[(k * 7 + 1) % n]); std::swap(p[0], p[(k * 3) % n]); } perm(c, p); }});
    return fs;
}
MC_MAIN(families)
