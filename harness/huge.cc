#include "huge.hh"
#include <algorithm>
#include <deque>

using namespace pbt;

namespace huge {

namespace {

//! Generator for the bulk of an instance; seeded by a draw to keep choice sequences short.
struct Rng {
    uint64_t x;
    uint64_t next() {
        x += 0x9E3779B97F4A7C15ull;
        uint64_t z = x;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    //! Uniform in [0,n).
    int64_t below(int64_t n) { return n <= 1 ? 0 : static_cast<int64_t>(next() % static_cast<uint64_t>(n)); }
    int64_t range(int64_t lo, int64_t hi) { return lo + below(hi - lo + 1); }
    bool chance(int num, int den) { return below(den) < num; }
};

//! x_u - x_v <= w if the given guard has the given truth value.
struct Edge {
    int u;
    int v;
    int64_t w;
    int guard;  // -1: always
    bool truth{true};
};

enum Kind {
    Small, // few choices: the reference determines all answers
    Pairs, // many pairs of alternatives: at least one choice is right by construction
};

struct Instance {
    Kind kind{Small};
    int n{0};
    int guards{0};               // choice atoms a(0),...
    int tests{0};                // constraints in bodies: guards following the choice atoms
    bool unsat{false};           // by construction
    bool strict{false};          // constraints are stated with < instead of <=
    std::vector<int64_t> hidden; // satisfies all unguarded edges unless unsat
    std::vector<Edge> edges;
    std::vector<Edge> eqs;       // equations (subset of the information in edges)
    size_t plain{0};

    std::string facts;
    std::string rules;

    std::string name(int i) const { return i == 0 ? "0" : "x(" + std::to_string(i) + ")"; }
};

void fact(std::string &out, char const *p, Edge const &e, bool guard) {
    out += p;
    out += '(';
    if (guard) { out += std::to_string(e.guard) + ","; }
    out += std::to_string(e.u) + "," + std::to_string(e.v) + "," + std::to_string(e.w) + ").\n";
}

std::string rule_for(std::string const &p, std::string const &pre, std::string const &rel, std::string const &rest) {
    std::string r;
    for (int i = 0; i < 3; ++i) {
        std::string u = i == 1 ? "0" : "x(U)";
        std::string v = i == 2 ? "0" : "x(V)";
        std::string cond = i == 0 ? "U > 0, V > 0" : i == 1 ? "U = 0, V > 0" : "V = 0, U > 0";
        r += "&diff { " + u + " - " + v + " } " + rel + " :- " + p + "(" + pre + "U,V,W), " + cond + rest + ".\n";
    }
    return r;
}

Instance generate(Case &c, int max_n, int max_m) {
    auto &s = c.s;
    Instance x;
    // sizes grow roughly by factors
    static std::vector<int> const sizes{3, 10, 40, 130, 270, 600, 1500, 4000, 10000, 20000};
    static std::vector<int> const dens{1, 2, 3, 5, 8};
    int n = std::min(max_n, s.pick(sizes));
    n += static_cast<int>(s.draw(static_cast<uint32_t>(n / 2 + 1)));
    x.n = std::min(n, max_n);
    auto m = std::min<int64_t>(std::min(max_m, 30000), static_cast<int64_t>(x.n) * s.pick(dens));
    bool most = s.chance(1, 12) && max_m > 66000;
    if (most) {
        m = 66000 + s.range(0, 4000);
        x.n = std::min(x.n, 5000);
    }
    int structure = s.weighted({4, 2, 2, 2, 2});
    static std::vector<int64_t> const spreads{1, 5, 50, 1000, 100000, 20000000};
    int64_t spread = s.pick(spreads);
    static std::vector<int64_t> const slacks{0, 1, 3, 20, 1000};
    int64_t slack = s.pick(slacks);
    x.kind = s.chance(1, 3) && !most ? Pairs : Small;
    x.unsat = s.chance(1, 5);
    x.strict = s.chance(1, 5);
    bool eqs = s.chance(1, 3);
    Rng r{(static_cast<uint64_t>(s.draw(1u << 31)) << 1) + 1};
    int nn = x.n + 1;
    x.hidden.assign(nn, 0);
    for (int i = 1; i < nn; ++i) { x.hidden[i] = structure == 1 ? i * spread % 30000000 : r.range(-spread, spread); }
    auto &h = x.hidden;
    auto other = [&](int u) {
        int v = u;
        while (v == u) { v = static_cast<int>(r.below(nn)); }
        return v;
    };
    auto add = [&](int u, int v, int64_t d, int guard = -1, bool truth = true) {
        x.edges.push_back({u, v, h[u] - h[v] + d, guard, truth});
    };
    auto block = std::max(2, x.n / 20);
    for (int64_t i = 0; i < m; ++i) {
        int u = 0;
        int v = 0;
        switch (structure) {
            case 0: // uniform
                u = static_cast<int>(r.below(nn));
                v = other(u);
                break;
            case 1: // chain with shortcuts
                u = i + 1 < nn ? static_cast<int>(i) : static_cast<int>(r.below(nn - 1));
                v = i + 1 < nn ? u + 1 : std::min<int>(nn - 1, u + 1 + static_cast<int>(r.below(10)));
                if (r.chance(1, 2)) { std::swap(u, v); }
                break;
            case 2: // a hub
                u = static_cast<int>(std::min<int64_t>(r.below(4), nn - 1));
                v = other(u);
                if (r.chance(1, 2)) { std::swap(u, v); }
                break;
            case 3: { // clusters
                auto b = r.below((nn + block - 1) / block);
                auto lo = b * block;
                auto sz = std::min<int64_t>(block, nn - lo);
                u = static_cast<int>(lo + r.below(sz));
                v = sz > 1 ? u : other(u);
                while (u == v) { v = static_cast<int>(lo + r.below(sz)); }
                break;
            }
            default: { // layers
                auto layers = std::max(2, nn / 7);
                u = static_cast<int>(r.below(nn));
                v = static_cast<int>((u + layers + r.below(3)) % nn);
                if (u == v) { v = other(u); }
                break;
            }
        }
        bool tight = r.chance(1, 4);
        if (eqs && tight && r.chance(1, 3)) {
            x.eqs.push_back({u, v, h[u] - h[v], -1, true});
        } else {
            add(u, v, tight ? 0 : r.below(slack + 1));
        }
    }
    // a path along which the hidden solution is forced up to some gap
    auto path = [&](int u, int v, int guard, int64_t gap) {
        auto len = r.chance(1, 2) ? r.below(4) : r.below(std::min(x.n, 400));
        int cur = u;
        for (int64_t i = 0; i < len; ++i) {
            int nxt = other(cur);
            if (nxt == v) { continue; }
            add(cur, nxt, 0, guard);
            cur = nxt;
        }
        if (cur != v) { add(cur, v, gap, guard); }
    };
    if (x.kind == Small) {
        x.guards = s.range(0, most ? 2 : 4);
        x.tests = s.range(0, most ? 0 : 2);
        for (int g = 0; g < x.guards; ++g) {
            auto k = r.chance(1, 2) ? 1 : r.range(1, 30);
            bool fits = r.chance(2, 5);
            for (int64_t i = 0; i < k; ++i) {
                int u = static_cast<int>(r.below(nn));
                int v = other(u);
                add(u, v, fits || r.chance(4, 5) ? r.below(slack + 1) : -1 - r.below(slack + 2), g);
            }
            // the way back possibly depends on another choice
            if (!fits && r.chance(1, 2)) {
                int u = static_cast<int>(r.below(nn));
                int v = other(u);
                int64_t gap = r.below(3);
                path(u, v, r.chance(1, 3) ? -1 : static_cast<int>(r.below(x.guards)), gap);
                add(v, u, -gap - (r.chance(2, 3) ? 1 : 0), g);
            }
        }
        for (int t = x.guards; t < x.guards + x.tests; ++t) {
            int u = static_cast<int>(r.below(nn));
            int v = other(u);
            int64_t d = r.range(-1, 1);
            if (r.chance(1, 3)) { path(u, v, r.chance(1, 2) ? -1 : static_cast<int>(r.below(std::max(1, x.guards))) - (x.guards == 0 ? 1 : 0), d); }
            auto w = h[u] - h[v] + d;
            x.edges.push_back({u, v, w, t, true});
            x.edges.push_back({v, u, -w - 1, t, false});
        }
    } else {
        static std::vector<int> const pairs{1, 5, 20, 60, 150, 300};
        int k = s.pick(pairs);
        x.guards = 2 * k;
        for (int g = 0; g < k; ++g) {
            int good = r.chance(1, 2) ? 1 : 0;
            for (int alt = 0; alt < 2; ++alt) {
                int u = static_cast<int>(r.below(nn));
                int v = other(u);
                auto cnt = r.chance(3, 4) ? 1 : r.range(1, 5);
                for (int64_t i = 0; i < cnt; ++i) {
                    add(u, v, alt == good ? r.below(slack + 1) : r.range(-slack - 1, slack), 2 * g + alt);
                    u = static_cast<int>(r.below(nn));
                    v = other(u);
                }
            }
        }
    }
    if (x.unsat) {
        int u = static_cast<int>(r.below(nn));
        int v = other(u);
        if (x.kind == Pairs && r.chance(2, 3)) {
            // both alternatives of a pair close a negative cycle
            auto g = 2 * static_cast<int>(r.below(x.guards / 2));
            for (int alt = 0; alt < 2; ++alt) {
                path(u, v, -1, 0);
                add(v, u, -1 - r.below(3), g + alt);
                u = static_cast<int>(r.below(nn));
                v = other(u);
            }
        } else {
            path(u, v, -1, 0);
            add(v, u, -1);
        }
    }
    // the order of the facts
    for (size_t i = x.edges.size(); i > 1; --i) { std::swap(x.edges[i - 1], x.edges[static_cast<size_t>(r.below(static_cast<int64_t>(i)))]); }
    // text
    bool has[4] = {false, false, false, false};
    for (auto const &e : x.edges) {
        if (e.guard >= x.guards) {
            if (e.truth) {
                fact(x.facts, "d", e, true);
                has[2] = true;
            }
        } else if (e.guard >= 0) {
            fact(x.facts, "c", e, true);
            has[1] = true;
        } else {
            fact(x.facts, "e", e, false);
            has[0] = true;
        }
    }
    for (auto const &e : x.eqs) {
        fact(x.facts, "q", e, false);
        has[3] = true;
    }
    std::string rel = x.strict ? "< W+1" : "<= W";
    if (has[0]) { x.rules += rule_for("e", "", rel, ""); }
    if (has[1]) { x.rules += rule_for("c", "I,", rel, ", a(I)"); }
    if (has[3]) { x.rules += rule_for("q", "", "= W", ""); }
    if (x.guards > 0) {
        x.rules += "{ a(0.." + std::to_string(x.guards - 1) + ") }.\n#show a/1.\n";
        if (x.kind == Pairs) { x.rules += ":- I = 0.." + std::to_string(x.guards / 2 - 1) + ", not a(2*I), not a(2*I+1).\n"; }
    }
    if (has[2]) {
        for (auto const *d : {"x(U) - x(V) } <= W, d(I,U,V,W), U > 0, V > 0", "0 - x(V) } <= W, d(I,U,V,W), U = 0", "x(U) - 0 } <= W, d(I,U,V,W), V = 0"}) {
            x.rules += "t(I) :- &diff { " + std::string(d) + ".\n";
        }
        x.rules += "#show t/1.\n";
    }
    if (x.guards == 0 && !has[2]) { x.rules += "#show.\n"; }
    // equations for the reference
    for (auto const &e : x.eqs) {
        x.edges.push_back({e.u, e.v, e.w, -1, true});
        x.edges.push_back({e.v, e.u, -e.w, -1, true});
    }
    return x;
}

//! Whether the edges active under the given truth values are satisfiable (starting from the hidden solution).
struct Reference {
    explicit Reference(Instance const &x) : x(x), out(x.n + 1) {
        for (size_t i = 0; i < x.edges.size(); ++i) { out[x.edges[i].v].push_back(static_cast<uint32_t>(i)); }
    }
    bool active(Edge const &e, uint64_t mask) const {
        return e.guard < 0 || (((mask >> e.guard) & 1) != 0) == e.truth;
    }
    bool feasible(uint64_t mask) const {
        auto dist = x.hidden;
        std::vector<int> parent(dist.size(), -1);
        std::vector<bool> queued(dist.size(), false);
        std::deque<int> queue;
        size_t steps = 0;
        bool cycle = false;
        auto relax = [&](Edge const &e) {
            if (dist[e.v] + e.w >= dist[e.u]) { return; }
            dist[e.u] = dist[e.v] + e.w;
            parent[e.u] = e.v;
            if (!queued[e.u]) {
                queued[e.u] = true;
                queue.push_back(e.u);
            }
            if (++steps % dist.size() == 0) { cycle = cycle || cyclic(parent); }
        };
        for (auto const &e : x.edges) {
            if (active(e, mask)) { relax(e); }
        }
        while (!queue.empty() && !cycle) {
            int v = queue.front();
            queue.pop_front();
            queued[v] = false;
            for (auto i : out[v]) {
                if (active(x.edges[i], mask)) { relax(x.edges[i]); }
            }
        }
        return !cycle;
    }
    static bool cyclic(std::vector<int> const &parent) {
        std::vector<int> mark(parent.size(), 0);
        for (size_t i = 0; i < parent.size(); ++i) {
            int id = static_cast<int>(i) + 1;
            auto j = static_cast<int>(i);
            while (j >= 0 && mark[j] == 0) {
                mark[j] = id;
                j = parent[j];
            }
            if (j >= 0 && mark[j] == id) { return true; }
        }
        return false;
    }
    std::string key(uint64_t mask) const {
        std::vector<std::string> a;
        for (int i = 0; i < x.guards + x.tests; ++i) {
            if (((mask >> i) & 1) != 0) { a.emplace_back((i < x.guards ? "a(" : "t(") + std::to_string(i) + ")"); }
        }
        std::sort(a.begin(), a.end());
        std::string r;
        for (auto const &t : a) { r += (r.empty() ? "" : " ") + t; }
        return r;
    }
    std::set<std::string> answers() const {
        std::set<std::string> r;
        for (uint64_t mask = 0; mask < (1ull << (x.guards + x.tests)); ++mask) {
            if (feasible(mask)) { r.insert(key(mask)); }
        }
        return r;
    }
    Instance const &x;
    std::vector<std::vector<uint32_t>> out;
};

void check(Case &c, Instance const &x, drive::Answer const &a) {
    std::vector<bool> on(static_cast<size_t>(x.guards + x.tests), false);
    for (auto const &t : a.atoms) {
        auto i = std::strtol(t.c_str() + 2, nullptr, 10);
        PBT_CHECK(c, i >= 0 && i < x.guards + x.tests, "unexpected atom " << t);
        on[static_cast<size_t>(i)] = true;
    }
    if (x.kind == Pairs) {
        for (int i = 0; i < x.guards; i += 2) { PBT_CHECK(c, on[i] || on[i + 1], "answer violates an integrity constraint"); }
    }
    PBT_CHECK(c, a.dl == a.api, "values reported with the answer differ from the assignment");
    std::vector<int64_t> val(x.hidden.size(), 0);
    std::vector<bool> has(x.hidden.size(), false);
    has[0] = true;
    for (auto const &[name, value] : a.dl) {
        PBT_CHECK(c, name.rfind("x(", 0) == 0, "value for unknown variable " << name);
        auto i = std::strtol(name.c_str() + 2, nullptr, 10);
        PBT_CHECK(c, i > 0 && i <= x.n, "value for unknown variable " << name);
        char *end = nullptr;
        val[i] = std::strtoll(value.c_str(), &end, 10);
        PBT_CHECK(c, *end == '\0' && !value.empty(), "value is no integer: " << value);
        has[i] = true;
    }
    for (auto const &e : x.edges) {
        if (e.guard >= 0 && on[static_cast<size_t>(e.guard)] != e.truth) { continue; }
        PBT_CHECK(c, has[e.u] && has[e.v], "no value for a variable of " << x.name(e.u) << " - " << x.name(e.v) << " <= " << e.w);
        PBT_CHECK(c, val[e.u] - val[e.v] <= e.w,
                  "answer violates " << x.name(e.u) << " - " << x.name(e.v) << " <= " << e.w << ": values " << val[e.u]
                                     << " and " << val[e.v] << (e.guard >= 0 ? " (active in answer " + a.atoms_str() + ")" : ""));
    }
}

drive::Config config(Case &c, bool cheap, int threads) {
    auto &s = c.s;
    static std::vector<std::string> const modes{"no", "inverse", "partial", "partial+", "zero", "full"};
    static std::vector<std::string> const sorts{"no", "weight", "weight-reversed", "potential", "potential-reversed"};
    drive::Config r;
    r.dl.emplace_back("propagate", cheap ? (s.chance(1, 2) ? "inverse" : "no") : s.pick(modes));
    if (!cheap && s.chance(1, 4)) { r.dl.emplace_back("propagate-root", s.chance(1, 2) ? "1" : "3"); }
    if (!cheap && s.chance(1, 4)) { r.dl.emplace_back("propagate-budget", s.chance(1, 2) ? "10" : "1000"); }
    if (s.chance(1, 5)) { r.dl.emplace_back("add-mutexes", cheap ? "2,5" : s.chance(1, 2) ? "2,30" : "3,20"); }
    if (s.chance(1, 2)) { r.dl.emplace_back("sort-edges", s.pick(sorts)); }
    if (s.chance(1, 3)) { r.dl.emplace_back("dl-heuristic", s.chance(1, 2) ? "min" : "max"); }
    if (s.chance(1, 4)) { r.dl.emplace_back("compute-components", "no"); }
    for (int t = 0; threads > 1 && t < threads; ++t) {
        auto ts = "," + std::to_string(t);
        if (!cheap && s.chance(1, 2)) { r.dl.emplace_back("propagate", s.pick(modes) + ts); }
        if (s.chance(1, 4)) { r.dl.emplace_back("sort-edges", s.pick(sorts) + ts); }
    }
    if (threads > 1) { r.cl.emplace_back("-t" + std::to_string(threads) + (s.chance(1, 2) ? ",split" : ",compete")); }
    r.cl.emplace_back("--solve-limit=2000");
    if (s.chance(1, 4)) { r.cl.emplace_back("--configuration=" + std::string(s.chance(1, 2) ? "frumpy" : "trendy")); }
    if (s.chance(1, 4)) {
        r.cl.emplace_back("--rand-freq=0.3");
        r.cl.emplace_back("--seed=" + std::to_string(s.range(1, 1000)));
    }
    return r;
}

drive::Solved run(Case &c, Instance const &x, drive::Config const &cfg, bool shots, int limit) {
    try {
        drive::Session s(cfg);
        auto facts = x.facts;
        s.add(x.rules);
        drive::lib([&]() { s.ctl().add("base", {}, facts.c_str()); });
        s.ground();
        drive::SolveOpts o;
        o.limit = limit;
        auto r = s.solve(o);
        if (shots) { r = s.solve(o); }
        return r;
    } catch (drive::LibError const &e) { c.fail("error on a valid program (" + cfg.str() + "): " + e.what()); }
}

struct Setup {
    Instance x;
    drive::Config cfg;
    bool shots{false};
    int limit{0};
};

Setup setup(Case &c, int threads = 1) {
    Setup r;
    bool cheap = c.s.chance(1, 2);
    if (threads == 1) { r.x = generate(c, cheap ? 30000 : 700, cheap ? 70000 : 2500); }
    else { r.x = generate(c, cheap ? 3000 : 300, cheap ? 6000 : 900); }
    r.cfg = config(c, cheap, threads);
    r.shots = c.s.chance(1, 4);
    r.limit = r.x.kind == Pairs ? c.s.range(1, 2) : 0;
    c.desc << "options: " << r.cfg.str() << (r.shots ? "\nsolving twice" : "") << "\n";
    c.desc << "% " << r.x.n << " variables, " << r.x.edges.size() << " edges, unsatisfiable: " << r.x.unsat << "\n" << r.x.rules;
    c.desc << (r.x.facts.size() < 50000 ? r.x.facts : "% facts omitted (" + std::to_string(r.x.facts.size()) + " bytes)\n");
    c.publish();
    c.label("huge");
    c.label("huge edges", r.x.edges.size());
    if (r.x.edges.size() > 65536) { c.label("huge: more than 2^16 edges"); }
    if (r.x.n > 256) { c.label("huge: more than 2^8 variables"); }
    return r;
}

bool decided(Case &c, drive::Solved const &r) {
    if (!r.sat && !r.unsat) {
        c.label("huge: limit reached");
        return false;
    }
    return true;
}

} // namespace

bool chance(Case &c, int odds) {
    static bool const always = std::getenv("PBT_HUGE") != nullptr; // development aid
    return !c.s.bytes() && (c.s.chance(1, static_cast<uint32_t>(odds)) || always);
}

void witness(Case &c) {
    auto t = setup(c);
    auto r = run(c, t.x, t.cfg, t.shots, t.limit);
    for (auto const &a : r.answers) { check(c, t.x, a); }
    c.nontrivial = !r.answers.empty();
    c.label(r.answers.empty() ? "huge: unsat" : "huge: sat");
}

void judge(Case &c, Setup const &t, drive::Solved const &r) {
    if (t.x.unsat) { PBT_CHECK(c, !r.sat && r.answers.empty(), "answer invented (the instance is unsatisfiable)"); }
    if (t.x.kind == Small) {
        auto e = Reference(t.x).answers();
        auto got = r.atom_sets();
        for (auto const &k : got) { PBT_CHECK(c, e.count(k) != 0, "answer invented: {" << k << "}"); }
        if (r.exhausted) {
            for (auto const &k : e) { PBT_CHECK(c, got.count(k) != 0, "answer lost: {" << k << "}"); }
            PBT_CHECK(c, got.size() == r.answers.size(), "an answer is reported twice");
            c.nontrivial = e.size() < (1ull << (t.x.guards + t.x.tests));
        }
        if (decided(c, r)) { PBT_CHECK(c, r.sat == !e.empty() && r.unsat == e.empty(), "wrong satisfiability status"); }
    } else if (decided(c, r)) {
        PBT_CHECK(c, r.sat == !t.x.unsat && r.unsat == t.x.unsat, "wrong satisfiability status (expected " << (t.x.unsat ? "un" : "") << "satisfiable)");
        c.nontrivial = true;
    }
    c.label(r.answers.empty() ? "huge: unsat" : "huge: sat");
}

void complete(Case &c) {
    auto t = setup(c);
    judge(c, t, run(c, t.x, t.cfg, t.shots, t.limit));
}

void threads(Case &c) {
    auto t = setup(c, c.s.range(2, 5));
    auto r = run(c, t.x, t.cfg, t.shots, t.limit);
    for (auto const &a : r.answers) { check(c, t.x, a); }
    judge(c, t, r);
}

void options(Case &c) {
    auto t = setup(c);
    auto base = drive::Config{};
    for (auto const &[k, v] : t.cfg.dl) {
        if (k == "compute-components") { base.dl.emplace_back(k, v); }
    }
    base.cl.emplace_back("--solve-limit=2000");
    auto r0 = run(c, t.x, base, false, t.limit);
    auto r1 = run(c, t.x, t.cfg, t.shots, t.limit);
    bool d0 = decided(c, r0);
    bool d1 = decided(c, r1);
    if (d0 && d1) { PBT_CHECK(c, r0.sat == r1.sat, "different status with " << t.cfg.str()); }
    if (t.limit == 0 && r0.exhausted && r1.exhausted) {
        PBT_CHECK(c, r0.atom_sets() == r1.atom_sets(), "different answers with " << t.cfg.str());
        bool pre = std::any_of(t.cfg.cl.begin(), t.cfg.cl.end(), [](std::string const &a) { return a.rfind("--configuration=", 0) == 0; });
        if (!pre) { PBT_CHECK(c, r0.full_sets() == r1.full_sets(), "different values with " << t.cfg.str()); }
        c.nontrivial = r0.answers.size() > 1;
    }
}

} // namespace huge
