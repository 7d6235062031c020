// P18: statistics of the theory.
#include "history.hh"
#include "net.hh"
#include "observe.hh"
#include "trace.hh"
#include <algorithm>
#include <cmath>

using namespace pbt;
using namespace gen;

namespace {

char const *const thread_keys[] = {"True edges", "False edges", "False edges (inverse)", "False edges (partial)",
                                   "False edges (partial+)", "Edges added", "Edges skipped", "Edges propagated",
                                   "Cost consistency", "Cost forward", "Cost backward"};
char const *const time_keys[] = {"Propagation(s)", "Dijkstra(s)", "Undo(s)"};

//! Statistics as read from clingo's statistics tree.
struct Stats {
    double time{0};
    double ccs{0};
    double mutexes{0};
    double edges{0};
    double variables{0};
    std::vector<std::map<std::string, double>> threads;

    std::string str() const {
        std::ostringstream o;
        o << "ccs " << ccs << " mutexes " << mutexes << " edges " << edges << " variables " << variables;
        for (auto const &t : threads) {
            o << " [";
            for (auto const *k : thread_keys) { o << " " << k << "=" << t.at(k); }
            o << " ]";
        }
        return o.str();
    }
};

Stats read(Case &c, Clingo::UserStatistics root) {
    Stats r;
    try {
        auto d = root["DifferenceLogic"];
        auto num = [&](Clingo::UserStatistics s, char const *k) {
            double x = s[k].value();
            PBT_CHECK(c, std::isfinite(x) && x >= 0, "statistics value " << k << " is " << x);
            return x;
        };
        r.time = num(d, "Time init(s)");
        r.ccs = num(d, "CCs");
        r.mutexes = num(d, "Mutexes");
        r.edges = num(d, "Edges");
        r.variables = num(d, "Variables");
        auto ts = d["Thread"];
        for (size_t i = 0; i < ts.size(); ++i) {
            r.threads.emplace_back();
            for (auto const *k : thread_keys) { r.threads.back()[k] = num(ts[i], k); }
            for (auto const *k : time_keys) { r.threads.back()[k] = num(ts[i], k); }
        }
    } catch (Failure const &) {
        throw;
    } catch (std::exception const &e) { c.fail(std::string("statistics cannot be read: ") + e.what()); }
    return r;
}

//! Counts edges of the program solved by looking at its theory atoms.
class Counter : public Clingo::Propagator {
  public:
    bool inited{false};
    bool exact{true}; // all bounds agree in the last step
    int threads{0};
    uint64_t min_edges{0};
    uint64_t max_edges{0};
    bool cancelled{false}; // some variable cancels out
    std::set<std::string> vars;
    std::vector<std::pair<std::string, std::string>> sure; // connections between variables
    std::vector<std::pair<std::string, std::string>> maybe;

    void init(Clingo::PropagateInit &init) override {
        threads = init.number_of_threads();
        auto ass = init.assignment();
        // initialization stops at conflicts on the top level
        inited = !ass.has_conflict();
        for (auto atom : init.theory_atoms()) {
            auto name = atom.term().to_string();
            if (name != "__diff_h" && name != "__diff_b") { continue; }
            bool strict = name == "__diff_b";
            std::string rel = atom.guard().first;
            auto lit = init.solver_literal(atom.literal());
            bool is_true = ass.is_true(lit);
            bool is_false = ass.is_false(lit);
            // number of edges depending on the truth value of the constraint
            uint64_t pos = rel == "=" || rel == "!=" ? 2 : 1;
            uint64_t lo = 0;
            uint64_t hi = 0;
            if (!strict) {
                hi = pos;
                lo = is_false ? 0 : pos;
            } else {
                hi = rel == "=" || rel == "!=" ? 4 : 2;
                lo = is_true || is_false ? 1 : hi;
            }
            Form f = form((*atom.elements().begin()).tuple().front());
            add(f, form(atom.guard().second), -1);
            std::set<std::string> names;
            for (auto const &[n, co] : f.co) {
                if (n != "0" && co != 0) { names.insert(n); }
                if (n != "0" && co == 0) { cancelled = true; }
            }
            if (names.empty()) { lo = hi = 0; }
            min_edges += lo;
            max_edges += hi;
            std::string last;
            for (auto const &n : names) {
                vars.insert(n);
                if (!last.empty()) { (lo > 0 ? sure : maybe).emplace_back(last, n); }
                last = n;
            }
        }
    }
    //! Smallest and largest possible number of components.
    std::pair<size_t, size_t> components() const {
        auto count = [&](bool all) {
            std::map<std::string, std::string> rep;
            std::function<std::string(std::string const &)> find = [&](std::string const &x) {
                auto it = rep.find(x);
                return it == rep.end() || it->second == x ? x : find(it->second);
            };
            auto n = vars.size();
            auto join = [&](auto const &es) {
                for (auto const &[a, b] : es) {
                    auto x = find(a);
                    auto y = find(b);
                    if (x != y) {
                        rep[x] = y;
                        --n;
                    }
                }
            };
            join(sure);
            if (all) { join(maybe); }
            return n;
        };
        return {count(true), count(false)};
    }

  private:
    struct Form {
        std::map<std::string, int64_t> co;
        int64_t k{0};
    };
    static void add(Form &a, Form const &b, int64_t f) {
        for (auto const &[n, co] : b.co) { a.co[n] += f * co; }
        a.k += f * b.k;
    }
    static Form form(Clingo::TheoryTerm t) {
        Form r;
        if (t.type() == Clingo::TheoryTermType::Number) {
            r.k = t.number();
            return r;
        }
        std::string n = t.type() == Clingo::TheoryTermType::Function ? t.name() : "";
        if (n == "+" || n == "-" || n == "*") {
            std::vector<Form> as;
            for (auto a : t.arguments()) { as.push_back(form(a)); }
            if (as.size() == 1) {
                add(r, as[0], n == "-" ? -1 : 1);
            } else if (n == "*") {
                bool left = as[0].co.empty();
                add(r, as[left ? 1 : 0], as[left ? 0 : 1].k);
            } else {
                add(r, as[0], 1);
                add(r, as[1], n == "-" ? -1 : 1);
            }
            return r;
        }
        r.co[t.to_string()] = 1;
        return r;
    }
};

//! Check accumulated statistics against the sum of the steps so far.
void check_accu(Case &c, std::vector<Stats> const &steps, Stats const &a) {
    auto const &last = steps.back();
    double mutexes = 0;
    double time = 0;
    size_t threads = 0;
    for (auto const &s : steps) {
        mutexes += s.mutexes;
        time += s.time;
        threads = std::max(threads, s.threads.size());
    }
    auto where = " after " + std::to_string(steps.size()) + " calls";
    PBT_CHECK(c, a.edges == last.edges, "accumulated edges are " << a.edges << " instead of " << last.edges << where);
    PBT_CHECK(c, a.ccs == last.ccs, "accumulated components are " << a.ccs << " instead of " << last.ccs << where);
    PBT_CHECK(c, a.variables == last.variables, "accumulated variables are " << a.variables << " instead of " << last.variables << where);
    PBT_CHECK(c, a.mutexes == mutexes, "accumulated mutexes are " << a.mutexes << " instead of " << mutexes << where);
    PBT_CHECK(c, std::abs(a.time - time) < 1e-9 + 1e-6 * time, "accumulated time is not the sum of times" << where);
    PBT_CHECK(c, a.threads.size() == threads, a.threads.size() << " threads accumulated instead of " << threads << where);
    for (size_t t = 0; t < threads; ++t) {
        for (auto const *k : thread_keys) {
            double sum = 0;
            for (auto const &s : steps) { sum += t < s.threads.size() ? s.threads[t].at(k) : 0; }
            PBT_CHECK(c, a.threads[t].at(k) == sum, "accumulated " << k << " of thread " << t << " is " << a.threads[t].at(k) << " instead of " << sum << where);
        }
        for (auto const *k : time_keys) {
            double sum = 0;
            for (auto const &s : steps) { sum += t < s.threads.size() ? s.threads[t].at(k) : 0; }
            PBT_CHECK(c, std::abs(a.threads[t].at(k) - sum) < 1e-9 + 1e-6 * sum, "accumulated " << k << " of thread " << t << " is not the sum" << where);
        }
    }
}

void history_case(Case &c) {
    int threads = c.s.weighted({3, 2, 1, 1}) + 1;
    ConfParams cp;
    cp.cc = cp.shift = true;
    cp.threads = threads;
    auto cfg = gen_config(c.s, cp);
    bool cc = true;
    for (auto const &[k, v] : cfg.dl) { cc = cc && !(k == "compute-components" && v == "no"); }
    Counter counter;
    std::vector<Stats> steps;
    uint64_t exact = 0;
    std::set<int> used;
    int most = 1;
    history::Options o;
    o.max_threads = threads;
    o.stats = true;
    o.on_create = [&](drive::Session &s) { drive::lib([&]() { s.ctl().register_propagator(counter, false); }); };
    o.before_solve = [&](drive::Session &, history::History const &) { counter.inited = false; };
    o.on_stats = [&](drive::Session &, history::History const &, Clingo::UserStatistics step, Clingo::UserStatistics accu) {
        auto s = read(c, step);
        auto a = read(c, accu);
        steps.push_back(s);
        if (counter.inited) {
            PBT_CHECK(c, s.edges >= static_cast<double>(counter.min_edges) && s.edges <= static_cast<double>(counter.max_edges),
                      s.edges << " edges reported but the program has between " << counter.min_edges << " and " << counter.max_edges);
            if (counter.min_edges == counter.max_edges) { ++exact; }
            if (cc) {
                auto [lo, hi] = counter.components();
                PBT_CHECK(c, s.ccs >= static_cast<double>(lo) && (s.ccs <= static_cast<double>(hi) || counter.cancelled),
                          s.ccs << " components reported but there are between " << lo << " and " << hi);
            }
            PBT_CHECK(c, s.variables > static_cast<double>(counter.vars.size()),
                      s.variables << " variables reported but there are " << counter.vars.size());
            PBT_CHECK(c, static_cast<int>(s.threads.size()) >= counter.threads,
                      "statistics for " << s.threads.size() << " threads but there are " << counter.threads);
            // clingo's statistics cannot shrink: entries of removed threads have to be zero
            for (size_t t = static_cast<size_t>(counter.threads); t < s.threads.size(); ++t) {
                for (auto const &[k, v] : s.threads[t]) {
                    PBT_CHECK(c, v == 0, k << " is " << v << " for thread " << t << " but there are " << counter.threads << " threads");
                }
            }
            most = std::max(most, counter.threads);
            PBT_CHECK(c, static_cast<int>(s.threads.size()) <= most, "statistics for " << s.threads.size() << " threads but there have been at most " << most);
            used.insert(counter.threads);
        }
        check_accu(c, steps, a);
    };
    history::HistoryStats st;
    history::run(c, cfg, o, st);
    PBT_CHECK(c, static_cast<int>(steps.size()) == st.solves, "statistics have not been requested after each call");
    c.label("steps", steps.size());
    c.label("steps with exactly known edges", exact);
    if (used.size() > 1) { c.label("varying numbers of threads"); }
    c.nontrivial = exact > 0 && steps.size() > 1;
}

//! Compare statistics collected after each call with those collected once.
void once_case(Case &c) {
    int n = c.s.range(1, 3);
    std::vector<std::string> parts;
    net::NetParams q;
    q.nodes = 5;
    q.cons = 10;
    q.eq = c.s.chance(1, 3);
    bool aux = q.eq;
    for (int i = 0; i < n; ++i) {
        // rename the choices so that parts do not redefine atoms
        auto text = net::gen_net(c.s, q).text;
        std::string r;
        for (size_t j = 0; j < text.size(); ++j) {
            bool start = j == 0 || (std::isalnum(text[j - 1]) == 0 && text[j - 1] != '_');
            r += text[j];
            if (start && (text[j] == 'e' || text[j] == 'd') && j + 1 < text.size() && text[j + 1] == '(') {
                r += "_" + std::to_string(i);
            }
        }
        parts.push_back(r);
    }
    drive::Config cfg;
    cfg.cl = {"0", "--eq=0"};
    cfg.dl.emplace_back("propagate", c.s.pick(std::vector<std::string>{"no", "inverse", "partial", "partial+", "zero", "full"}));
    if (c.s.chance(1, 3)) { cfg.dl.emplace_back("propagate-root", std::to_string(c.s.range(1, 3))); }
    if (c.s.chance(1, 2)) { cfg.dl.emplace_back("add-mutexes", c.s.pick(std::vector<std::string>{"2", "3,100", "4,1000"})); }
    if (c.s.chance(1, 3)) { cfg.cl.emplace_back("--rand-freq=0.5"); }
    int limit = c.s.range(1, 20);
    int calls = c.s.range(n, n + 2);
    c.desc << "options: " << cfg.str() << " limit " << limit << " calls " << calls << "\n";
    for (auto const &p : parts) { c.desc << "-- part\n" << p; }
    c.publish();
    auto run = [&](std::vector<Stats> &steps, bool each) {
        uint64_t clauses = 0;
        drive::Hooks hooks;
        hooks.on_init_clause = [&](clingo_propagate_init_t *, drive::literal_t const *, size_t) { ++clauses; };
        drive::HooksGuard guard(hooks);
        Stats accu;
        try {
            drive::Session s(cfg);
            for (int i = 0; i < calls; ++i) {
                if (i < n) {
                    auto name = i == 0 ? "base" : "p" + std::to_string(i);
                    s.add("#program " + name + ".\n" + parts[i]);
                    s.ground({{name, {}}});
                }
                drive::SolveOpts opts;
                opts.limit = limit;
                opts.call_theory_stats = each || i + 1 == calls;
                if (opts.call_theory_stats) {
                    opts.on_stats = [&](Clingo::UserStatistics x, Clingo::UserStatistics y) {
                        auto st = read(c, x);
                        accu = read(c, y);
                        steps.push_back(st);
                        if (!aux) {
                            PBT_CHECK(c, st.mutexes == static_cast<double>(clauses),
                                      st.mutexes << " mutexes reported but " << clauses << " have been added");
                        }
                        if (clauses > 0) { c.label("calls with mutexes"); }
                        clauses = 0;
                        check_accu(c, steps, accu);
                    };
                }
                s.solve(opts);
            }
        } catch (drive::LibError const &e) { c.fail(std::string("error on a valid program: ") + e.what()); }
        return accu;
    };
    std::vector<Stats> a;
    std::vector<Stats> b;
    auto x = run(a, true);
    auto y = run(b, false);
    PBT_CHECK(c, x.str() == y.str(), "statistics collected after each call and once differ:\n" << x.str() << "\n" << y.str());
    double work = 0;
    for (auto const &t : x.threads) { work += t.at("Edges added"); }
    c.label("collected once");
    c.nontrivial = work > 1 && calls > 1;
}

//! Compare the counters of threads with what is observed during search.
void activity_case(Case &c) {
    static std::vector<std::string> const modes{"no", "inverse", "partial", "partial+", "zero", "full"};
    static std::vector<std::string> const sorts{"no", "weight", "weight-reversed", "potential", "potential-reversed"};
    int mode = c.s.weighted({1, 1, 1, 1, 1, 3});
    int threads = c.s.weighted({4, 1, 1}) + 1;
    drive::Config cfg;
    cfg.cl = {"0", "--solve-limit=200", "-t" + std::to_string(threads)};
    cfg.dl.emplace_back("propagate", modes[mode]);
    int root = mode != 5 && c.s.chance(1, 5) ? c.s.range(1, 3) : 0;
    if (root > 0) { cfg.dl.emplace_back("propagate-root", std::to_string(root)); }
    if (c.s.chance(1, 3)) { cfg.dl.emplace_back("sort-edges", c.s.pick(sorts)); }
    if (c.s.chance(1, 2)) { cfg.cl.emplace_back("--rand-freq=0.5"); }
    int limit = 0;
    std::string text;
    if (c.s.chance(1, 4)) {
        // without negative weights the initial values never change
        int nodes = c.s.range(2, 6);
        int cons = c.s.range(1, 14);
        std::ostringstream o;
        for (int i = 0; i < cons; ++i) {
            int u = c.s.range(1, nodes);
            int v = c.s.range(1, nodes - 1);
            if (v >= u) { ++v; }
            o << "{ e(" << i << ") }. &diff { x" << u << " - x" << v << " } <= " << c.s.range(0, 3) << " :- e(" << i << ").\n";
        }
        text = o.str();
        limit = 20;
    } else {
        text = net::gen_net(c.s, net::net_params(c, limit)).text;
    }
    c.desc << "options: " << cfg.str() << " limit " << limit << "\n" << text;
    c.publish();
    struct Seen {
        uint64_t units{0};
        uint64_t clauses{0};
        uint64_t edges{0};
        bool implied{false};
    };
    std::mutex mut;
    std::map<uint32_t, Seen> seen;
    observe::Observer obs;
    drive::Hooks hooks;
    hooks.on_clause = [&](clingo_propagate_control_t *ctl, drive::literal_t const *l, size_t n) {
        std::lock_guard<std::mutex> lock(mut);
        auto &x = seen[clingo_propagate_control_thread_id(ctl)];
        Clingo::Assignment ass(clingo_propagate_control_assignment(ctl));
        ++x.clauses;
        for (size_t i = 0; i < n; ++i) {
            if (!ass.is_false(l[i])) {
                ++x.units;
                break;
            }
        }
    };
    obs.on_fixpoint = [&](Clingo::PropagateControl &ctl) {
        auto ass = ctl.assignment();
        auto es = obs.true_edges(ass);
        std::lock_guard<std::mutex> lock(mut);
        auto &x = seen[ctl.thread_id()];
        x.edges = std::max<uint64_t>(x.edges, es.size());
        if (mode != 5 || x.implied) { return; }
        observe::Paths p(obs.net.size(), es);
        for (auto const &e : obs.net.edges) {
            x.implied = x.implied || (ass.truth_value(e.lit) == Clingo::TruthValue::Free &&
                                      p.at(e.u, e.v) != observe::Paths::inf && p.at(e.u, e.v) <= e.w);
        }
    };
    Stats st;
    bool have = false;
    try {
        drive::HooksGuard guard(hooks);
        drive::Session s(cfg);
        drive::lib([&]() { s.ctl().register_propagator(obs, false); });
        s.add(text);
        s.ground();
        drive::SolveOpts opts;
        opts.limit = limit;
        opts.call_theory_stats = true;
        opts.on_stats = [&](Clingo::UserStatistics x, Clingo::UserStatistics) {
            st = read(c, x);
            have = true;
        };
        s.solve(opts);
    } catch (drive::LibError const &e) { c.fail(std::string("error on a valid program: ") + e.what()); }
    if (!obs.failure.empty()) { c.fail(obs.failure); }
    PBT_CHECK(c, have, "no statistics");
    if (!obs.net.exact) { throw Discard("constraint without exact interpretation"); }
    bool nonneg = std::all_of(obs.net.edges.begin(), obs.net.edges.end(), [](auto const &e) { return e.w >= 0; });
    bool implied = false;
    uint64_t units = 0;
    for (auto const &[t, x] : seen) {
        PBT_CHECK(c, t < st.threads.size(), "no statistics for thread " << t);
        auto const &s = st.threads[t];
        auto where = " for thread " + std::to_string(t);
        auto zero = [&](char const *k) {
            PBT_CHECK(c, s.at(k) == 0, k << " is " << s.at(k) << " in mode " << modes[mode] << where);
        };
        auto few = s.at("False edges (inverse)") + s.at("False edges (partial)") + s.at("False edges (partial+)");
        auto all = few + s.at("False edges");
        PBT_CHECK(c, static_cast<double>(x.units) <= all,
                  all << " false edges reported but " << x.units << " have been propagated" << where);
        PBT_CHECK(c, few <= static_cast<double>(x.clauses),
                  few << " false edges reported without full propagation but only " << x.clauses << " clauses have been added" << where);
        PBT_CHECK(c, s.at("Edges skipped") <= s.at("Edges added"), "more edges skipped than added" << where);
        if (root == 0 && mode < 4) {
            zero("True edges");
            zero("False edges");
            zero("Edges propagated");
            zero("Cost forward");
            zero("Cost backward");
            PBT_CHECK(c, static_cast<double>(x.edges) <= s.at("Edges added"),
                      s.at("Edges added") << " edges added but " << x.edges << " have been true" << where);
        }
        if (mode < 1) { zero("False edges (inverse)"); }
        if (mode < 2) { zero("False edges (partial)"); }
        if (mode < 3) { zero("False edges (partial+)"); }
        if (mode >= 4 && x.edges > 0) {
            PBT_CHECK(c, s.at("Edges added") > 0 && s.at("Edges propagated") > 0, "nothing propagated despite true constraints" << where);
        }
        if (nonneg) {
            PBT_CHECK(c, s.at("Edges skipped") == s.at("Edges added"),
                      s.at("Edges skipped") << " of " << s.at("Edges added") << " edges skipped without negative weights" << where);
            zero("Cost consistency");
        }
        if (x.implied) {
            PBT_CHECK(c, s.at("True edges") > 0, "implied constraints not counted" << where);
            implied = true;
        }
        units += x.units;
    }
    c.label("activity of threads");
    if (nonneg) { c.label("activity without negative weights"); }
    if (implied) { c.label("activity with implied constraints"); }
    c.nontrivial = units > 0 || implied;
}

void p18(Case &c) {
    switch (c.s.weighted({4, 2, 2})) {
        case 0: history_case(c); break;
        case 1: once_case(c); break;
        default: activity_case(c); break;
    }
}
Register r18("P18",
             "Random multi-shot histories (also with changing numbers of threads) collecting statistics after each call: "
             "edges and components compared with counts over the theory atoms, mutexes with intercepted clauses, the "
             "accumulated statistics with sums over the calls, and with those of the same history collected only once; "
             "counters of threads compared with clauses and true constraints observed during search. Non-trivial: several "
             "calls with exactly known edges, propagation in several calls, or propagated or implied constraints.",
             p18);

} // namespace
