// P04, P05, P06: clauses, propagation strength and values during search.
#include "net.hh"
#include "observe.hh"
#include <algorithm>
#include <set>

using namespace pbt;
using namespace observe;
using namespace net;
using ref::Edge;

namespace {

//! Random decisions drawn from the choice sequence.
std::function<literal_t(Clingo::Assignment, literal_t)> random_decisions(Src &s, Observer &obs, int &count) {
    return [&s, &obs, &count](Clingo::Assignment ass, literal_t) -> literal_t {
        if (count >= 400) { return 0; } // keep the choice sequence short
        ++count;
        std::vector<literal_t> free;
        for (auto l : obs.net.lits) {
            if (!ass.is_fixed(l) && ass.truth_value(l) == Clingo::TruthValue::Free) { free.push_back(l); }
        }
        if (free.empty()) { return 0; }
        auto k = s.draw(static_cast<uint32_t>(free.size() * 2));
        // prefer true literals slightly less than uniformly often is not needed
        return (k & 1) != 0 ? -free[k / 2] : free[k / 2];
    };
}

//! Sometimes move the last rules of a program into another part, which is grounded for a second solve call.
bool split(Src &s, std::string &text) {
    if (!s.chance(1, 4)) { return false; }
    std::vector<size_t> ends;
    for (size_t i = 0; i < text.size(); ++i) {
        if (text[i] == '\n') { ends.push_back(i + 1); }
    }
    if (ends.size() < 2) { return false; }
    text.insert(ends[ends.size() - 2 - s.draw(static_cast<uint32_t>(ends.size() - 1))], "#program step.\n");
    return true;
}

void solve_steps(drive::Session &s, std::string const &text, int limit, bool steps) {
    s.add(text);
    for (auto const *part : {"base", "step"}) {
        s.ground({{part, {}}});
        drive::SolveOpts opts;
        opts.limit = limit;
        s.solve(opts);
        if (!steps) { break; }
    }
}

//! Run the search of a network and rethrow failures recorded by the observer.
void run_net(Case &c, drive::Config const &cfg, std::string const &text, Observer &obs, int limit, bool random,
             drive::Hooks *hooks, bool steps) {
    int decisions = 0;
    drive::Config conf = cfg;
    conf.cl.emplace_back("--solve-limit=200");
    try {
        std::unique_ptr<drive::HooksGuard> guard;
        if (hooks != nullptr) { guard = std::make_unique<drive::HooksGuard>(*hooks); }
        drive::Session s(conf);
        if (random) { obs.on_decide = random_decisions(c.s, obs, decisions); }
        drive::lib([&]() { s.ctl().register_propagator(obs, false); });
        solve_steps(s, text, limit, steps);
    } catch (drive::LibError const &e) { c.fail(std::string("error on a valid program: ") + e.what()); }
    if (!obs.failure.empty()) { c.fail(obs.failure); }
}

std::string edges_str(Network const &net, std::vector<Edge> const &es) {
    std::ostringstream o;
    for (auto const &e : es) { o << " " << net.names[e.u] << "-" << net.names[e.v] << "<=" << e.w; }
    return o.str();
}

// {{{ P04

void p04(Case &c) {
    int limit = 0;
    auto q = net_params(c, limit);
    auto n = gen_net(c.s, q);
    gen::ConfParams cp;
    cp.cc = true;
    auto cfg = gen::gen_config(c.s, cp);
    if (c.s.chance(1, 3)) {
        cfg.dl.emplace_back("add-mutexes", c.s.pick(std::vector<std::string>{"2", "3,100", "4,1000", "10,500", "6,40"}));
    }
    bool random = c.s.chance(1, 2);
    bool steps = split(c.s, n.text);
    c.desc << "options: " << cfg.str() << (random ? " (random decisions)" : "") << "\n" << n.text;
    c.publish();
    Observer obs;
    std::vector<std::vector<literal_t>> init_clauses;
    std::vector<std::vector<literal_t>> fact_lits;
    uint64_t count = 0;
    auto validate = [&](literal_t const *lits, size_t size, char const *when) {
        std::vector<Edge> es;
        for (auto const &e : obs.net.edges) {
            bool in = e.lit == 1 || std::any_of(lits, lits + size, [&](literal_t l) { return -l == e.lit; });
            if (in) { es.push_back({e.u, e.v, e.w}); }
        }
        if (ref::feasible(obs.net.size(), es)) {
            std::ostringstream o;
            o << "clause added " << when << " is not implied:";
            for (size_t i = 0; i < size; ++i) { o << " " << lits[i]; }
            o << "; its negation is satisfiable:" << edges_str(obs.net, es);
            throw Failure(o.str());
        }
        ++count;
    };
    drive::Hooks hooks;
    hooks.on_init_clause = [&](clingo_propagate_init_t *, literal_t const *l, size_t n) {
        init_clauses.emplace_back(l, l + n);
    };
    std::map<size_t, uint64_t> sizes;
    hooks.on_clause = [&](clingo_propagate_control_t *ctl, literal_t const *l, size_t n) {
        if (!obs.failure.empty()) { return; }
        try {
            Clingo::Assignment ass(clingo_propagate_control_assignment(ctl));
            size_t open = 0;
            for (size_t i = 0; i < n; ++i) {
                if (!ass.is_false(l[i])) { ++open; }
            }
            if (open > 1) { throw Failure("a clause added during search is neither conflicting nor unit"); }
            validate(l, n, "during search");
            sizes[n > 5 ? 5 : n]++;
        } catch (Failure const &e) { obs.failure = e.what(); }
    };
    run_net(c, cfg, n.text, obs, limit, random, &hooks, steps);
    if (!obs.net.exact) { throw Discard("constraint without exact interpretation"); }
    for (auto const &cl : init_clauses) {
        validate(cl.data(), cl.size(), "during initialization");
        c.label("init clauses");
    }
    c.label("clauses", count);
    for (auto const &[k, v] : sizes) { c.label("search clauses of size " + std::to_string(k) + (k == 5 ? "+" : ""), v); }
    if (steps) { c.label("two steps"); }
    c.nontrivial = count >= 1;
}
Register r04("P04",
             "Random constraint networks (up to 60 nodes, 220 constraints, several components, parallel and inverse "
             "edges) over choices and body constraints with random options and random or solver decisions; every "
             "clause the theory adds is intercepted and its negation checked for unsatisfiability by Bellman-Ford. "
             "Non-trivial: at least one clause was added.",
             p04);

// }}}
// {{{ P05

//! The sets of literals that cannot be true together and have to be found while initializing.
struct Mutexes {
    using Set = std::set<literal_t>;
    std::set<Set> sets;
    bool complete{false};

    //! Cycles of negative length over facts and less than size initially open constraints (or exactly size such
    //! constraints and no facts).
    //! All of them if they can be enumerated easily (far below the cutoff), and pairs of inverse constraints otherwise.
    void find(Network const &net, Clingo::Assignment ass, size_t size, bool pairs) {
        std::vector<LitEdge> all;
        std::vector<LitEdge> es;
        for (auto const &e : net.edges) {
            bool open = ass.truth_value(e.lit) == Clingo::TruthValue::Free;
            all.push_back(e);
            if (!open) { all.back().lit = 1; }
            if (e.lit == 1 || open) { es.push_back(e); }
        }
        uint64_t budget = 20000;
        complete = !pairs;
        for (size_t i = 0; i < all.size() && complete; ++i) { complete = trails(all, {i}, size, budget); }
        if (complete) {
            for (size_t i = 0; i < es.size(); ++i) {
                if (es[i].lit != 1) { cycles(es, {i}, es[i].w, size); }
            }
        } else {
            for (auto const &e : es) {
                for (auto const &f : es) {
                    if (e.lit != 1 && f.lit != 1 && e.lit != -f.lit && e.u == f.v && e.v == f.u && e.w + f.w < 0) {
                        sets.insert(Set{e.lit, f.lit});
                    }
                }
            }
        }
    }

  private:
    static Set lits(std::vector<LitEdge> const &es, std::vector<size_t> const &path) {
        Set ret;
        for (auto i : path) {
            if (es[i].lit != 1) { ret.insert(es[i].lit); }
        }
        return ret;
    }
    //! Whether there are few enough trails.
    static bool trails(std::vector<LitEdge> const &es, std::vector<size_t> const &path, size_t size, uint64_t &budget) {
        if (budget == 0) { return false; }
        --budget;
        // (literals decided while initializing count as facts here to stay on the safe side)
        if (lits(es, path).size() >= size) { return true; }
        for (size_t i = 0; i < es.size(); ++i) {
            if (es[path.back()].v != es[i].u || std::find(path.begin(), path.end(), i) != path.end()) { continue; }
            auto next = path;
            next.push_back(i);
            if (!trails(es, next, size, budget)) { return false; }
        }
        return true;
    }
    void cycles(std::vector<LitEdge> const &es, std::vector<size_t> const &path, int64_t weight, size_t size) {
        auto set = lits(es, path);
        if (set.size() > size) { return; }
        for (auto l : set) {
            if (set.count(-l) > 0) { return; }
        }
        auto at = es[path.back()].v;
        if (at == es[path.front()].u) {
            // (of the sets of the maximum size, those involving further constraints need not be found)
            if (weight < 0 && (set.size() < size || path.size() == size)) { sets.insert(set); }
            return;
        }
        for (auto i : path) {
            if (es[i].u == at && i != path.back()) { return; } // simple cycles suffice
        }
        for (size_t i = 0; i < es.size(); ++i) {
            if (es[i].u != at || std::find(path.begin(), path.end(), i) != path.end()) { continue; }
            auto next = path;
            next.push_back(i);
            cycles(es, next, weight + es[i].w, size);
        }
    }
};

void p05(Case &c) {
    int limit = 0;
    auto q = net_params(c, limit);
    auto n = gen_net(c.s, q);
    static std::vector<std::string> const modes{"inverse", "partial", "partial+", "zero", "full"};
    // the mutually exclusive constraints found while initializing are checked without the help of a propagation mode
    size_t mutex = c.s.chance(1, 5) ? 2 + c.s.draw(3) : 0;
    bool pairs = mutex == 2 && c.s.chance(1, 2);
    if (mutex > 0 && n.constraints > 30) {
        // (enumerating longer cycles would take too long)
        mutex = 2;
        pairs = true;
    }
    static std::vector<std::string> const sorts{"no", "weight", "weight-reversed", "potential", "potential-reversed"};
    drive::Config cfg;
    int mode = c.s.weighted({2, 1, 1, 4, 5, 3}); // 5: by level
    int root = 0;
    if (mutex > 0) {
        cfg.dl.emplace_back("propagate", "no");
        cfg.dl.emplace_back("add-mutexes", std::to_string(mutex) + (pairs ? "" : ",100000"));
    } else if (mode < 5) {
        cfg.dl.emplace_back("propagate", modes[mode]);
    } else {
        root = c.s.range(1, 4);
        static std::vector<std::string> const base{"no", "inverse", "partial", "partial+", "zero"};
        auto b = c.s.draw(5);
        cfg.dl.emplace_back("propagate", base[b]);
        switch (c.s.weighted({3, 2, 1})) {
            case 1: {
                // a budget that is never exhausted
                root = std::numeric_limits<int>::max();
                cfg.dl.emplace_back("propagate-budget", "1000000000000");
                break;
            }
            case 2: {
                // a budget that is exhausted at some point unless the level is low enough
                cfg.dl.emplace_back("propagate-budget", std::to_string(c.s.range(1, 50)));
                [[fallthrough]];
            }
            default: {
                cfg.dl.emplace_back("propagate-root", std::to_string(root));
            }
        }
    }
    if (c.s.chance(1, 3)) { cfg.dl.emplace_back("sort-edges", c.s.pick(sorts)); }
    if (c.s.chance(1, 6)) { cfg.dl.emplace_back("compute-components", "no"); }
    if (mutex == 0 && c.s.chance(1, 6)) { cfg.dl.emplace_back("add-mutexes", "2"); }
    cfg.cl.emplace_back("0");
    bool random = c.s.chance(2, 3);
    bool steps = mutex == 0 && split(c.s, n.text);
    c.desc << "options: " << cfg.str() << (random ? " (random decisions)" : "") << "\n" << n.text;
    c.publish();
    Observer obs;
    uint64_t fixpoints = 0;
    uint64_t decided = 0;
    Mutexes mutexes;
    std::string const &m = cfg.dl[0].second;
    obs.on_init = [&](Clingo::PropagateInit &init) {
        if (mutex > 0) { mutexes.find(obs.net, init.assignment(), mutex, pairs); }
    };
    obs.on_fixpoint = [&](Clingo::PropagateControl &ctl) {
        auto ass = ctl.assignment();
        auto es = obs.true_edges(ass);
        ++fixpoints;
        Paths p(obs.net.size(), es);
        if (p.negative) { throw Failure("conflict not detected:" + edges_str(obs.net, es)); }
        bool full = m == "full" || static_cast<int>(ass.decision_level()) < root;
        bool zero = m == "zero";
        for (auto const &set : mutexes.sets) {
            size_t open = 0;
            bool falsified = false;
            for (auto l : set) {
                falsified = falsified || ass.is_false(l);
                if (!ass.is_true(l)) { ++open; }
            }
            if (!falsified && open <= 1) {
                std::ostringstream o;
                o << "the conflict between " << set.size() << " constraints was not detected while initializing: literals";
                for (auto l : set) { o << " " << l << (ass.is_true(l) ? " (true)" : " (open)"); }
                o << " of";
                for (auto const &e : obs.net.edges) {
                    if (set.count(e.lit) > 0) { o << " " << e.lit << ":" << obs.net.names[e.u] << "-" << obs.net.names[e.v] << "<=" << e.w; }
                }
                throw Failure(o.str());
            }
        }
        for (auto const &e : obs.net.edges) {
            if (ass.truth_value(e.lit) != Clingo::TruthValue::Free) {
                continue;
            }
            auto miss = [&](char const *what) {
                std::ostringstream o;
                o << what << ": at level " << ass.decision_level() << " constraint " << obs.net.names[e.u] << "-"
                  << obs.net.names[e.v] << "<=" << e.w << " is open but conflicts with" << edges_str(obs.net, es);
                throw Failure(o.str());
            };
            if (full && p.at(e.v, e.u) != Paths::inf && p.at(e.v, e.u) + e.w < 0) { miss("full propagation"); }
            if (zero && p.at(e.v, 0) != Paths::inf && p.at(0, e.u) != Paths::inf &&
                p.at(e.v, 0) + p.at(0, e.u) + e.w < 0) {
                miss("propagation through zero");
            }
            if (m != "no") {
                for (auto const &f : es) {
                    if (f.u == e.v && f.v == e.u && f.w + e.w < 0) { miss("inverse propagation"); }
                }
            }
        }
        // count literals that are decided only because of constraints
        for (auto const &e : obs.net.edges) {
            if (ass.is_false(e.lit) && p.at(e.v, e.u) != Paths::inf && p.at(e.v, e.u) + e.w < 0) { ++decided; }
        }
    };
    run_net(c, cfg, n.text, obs, limit, random, nullptr, steps);
    if (!obs.net.exact) { throw Discard("constraint without exact interpretation"); }
    c.label("fixpoints", fixpoints);
    c.label("literals false and conflicting at fixpoints", decided);
    if (mutex > 0) {
        c.label("mutex size " + std::to_string(mutex) + (mutexes.complete ? "" : ", pairs only"));
        c.label("mutexes", mutexes.sets.size());
    }
    c.label("mode " + m + (root == std::numeric_limits<int>::max() ? "+budget" : root > 0 ? "+root" : ""));
    if (steps) { c.label("two steps"); }
    c.nontrivial = decided >= 1;
}
Register r05("P05",
             "Random constraint networks searched with a random mode, root level, sorting and decisions; at every "
             "propagation fixpoint all-pairs shortest paths over the true constraints give the set of open literals "
             "that conflict immediately, which must be empty for the part the mode documents. Non-trivial: at some "
             "fixpoint a constraint literal is false whose constraint would conflict immediately.",
             p05);

// }}}
// {{{ P06

void p06(Case &c) {
    int limit = 0;
    auto q = net_params(c, limit);
    auto n = gen_net(c.s, q);
    gen::ConfParams cp;
    cp.cc = true;
    auto cfg = gen::gen_config(c.s, cp);
    bool components = true;
    for (auto const &[k, v] : cfg.dl) { components = components && !(k == "compute-components" && v == "no"); }
    bool random = c.s.chance(2, 3);
    bool steps = split(c.s, n.text);
    c.desc << "options: " << cfg.str() << (random ? " (random decisions)" : "") << "\n" << n.text;
    c.publish();
    Observer obs;
    uint64_t fixpoints = 0;
    uint64_t backtracks = 0;
    uint32_t last = 0;
    bool deep = false;
    clingodl_theory_t *theory = nullptr;
    std::map<std::string, size_t> ids;
    obs.on_fixpoint = [&](Clingo::PropagateControl &ctl) {
        auto ass = ctl.assignment();
        auto es = obs.true_edges(ass);
        ++fixpoints;
        if (ass.decision_level() < last) { ++backtracks; }
        last = ass.decision_level();
        if (!ref::feasible(obs.net.size(), es)) { throw Failure("conflict not detected:" + edges_str(obs.net, es)); }
        std::vector<std::pair<bool, int64_t>> got(static_cast<size_t>(obs.net.size()), {false, 0});
        for (int i = 1; i < obs.net.size(); ++i) {
            size_t index = 0;
            auto sym = Clingo::parse_term(obs.net.names[i].c_str());
            if (!clingodl_lookup_symbol(theory, sym.to_c(), &index)) { throw Failure("variable not found: " + obs.net.names[i]); }
            if (clingodl_assignment_has_value(theory, ctl.thread_id(), index)) {
                clingodl_value_t v{};
                clingodl_assignment_get_value(theory, ctl.thread_id(), index, &v);
                if (v.type != clingodl_value_type_int) { throw Failure("value of unexpected type"); }
                got[i] = {true, v.int_number};
            }
        }
        auto val = canonical(obs.net, es, components, false);
        if (got != val && got == canonical(obs.net, es, components, true)) { val = got; }
        for (int i = 1; i < obs.net.size(); ++i) {
            bool has = got[i].first;
            std::ostringstream o;
            if (has != val[i].first) {
                o << "variable " << obs.net.names[i] << (has ? " has a value without" : " has no value despite")
                  << " a true constraint; true constraints:" << edges_str(obs.net, es);
                throw Failure(o.str());
            }
            if (has) {
                if (got[i].second != val[i].second) {
                    o << "variable " << obs.net.names[i] << " has value " << got[i].second << ", expected "
                      << val[i].second << " for true constraints:" << edges_str(obs.net, es) << " at level "
                      << ass.decision_level();
                    throw Failure(o.str());
                }
                deep = deep || (val[i].second != 0 && ass.decision_level() > 1);
            }
        }
    };
    int decisions = 0;
    drive::Config conf = cfg;
    conf.cl.emplace_back("--solve-limit=200");
    try {
        drive::Session s(conf);
        theory = s.theory();
        if (random) { obs.on_decide = random_decisions(c.s, obs, decisions); }
        drive::lib([&]() { s.ctl().register_propagator(obs, false); });
        solve_steps(s, n.text, limit, steps);
    } catch (drive::LibError const &e) { c.fail(std::string("error on a valid program: ") + e.what()); }
    if (!obs.failure.empty()) { c.fail(obs.failure); }
    if (!obs.net.exact) { throw Discard("constraint without exact interpretation"); }
    c.label("fixpoints", fixpoints);
    c.label("backtracks", backtracks);
    if (steps) { c.label("two steps"); }
    c.nontrivial = deep && backtracks > 0;
}
Register r06("P06",
             "Random constraint networks searched with random options and decisions; at every propagation fixpoint "
             "the true constraints are checked for satisfiability and all values are compared with canonical values "
             "computed from scratch. Non-trivial: the search backtracked and some variable had a non-zero value below "
             "the first decision level.",
             p06);

// }}}

} // namespace
