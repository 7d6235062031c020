// P09: optimization.
#include "gen.hh"
#include <algorithm>
#include <clingo-dl-app/app.hh>
#include <cmath>
#include <limits>

using namespace pbt;
using namespace gen;

namespace {

using ref::Con;

struct Run {
    std::vector<drive::Answer> answers;
    std::vector<int64_t> stat_opt;   // step statistics (or minimum int64)
    std::vector<int64_t> stat_lower; // step statistics (or minimum int64)
    std::vector<int64_t> accu_opt;
    std::vector<int64_t> accu_lower;
    std::vector<size_t> count; // number of answers reported so far
    std::string error;
};

constexpr int64_t none = std::numeric_limits<int64_t>::min();

int64_t stat(Clingo::UserStatistics root, char const *key) {
    if (!root.has_subkey("DifferenceLogic")) { return none; }
    auto dl = root["DifferenceLogic"];
    if (!dl.has_subkey(key)) { return none; }
    return static_cast<int64_t>(std::llround(dl[key].value()));
}

Run optimize(drive::Session &s, ClingoDL::OptimizerConfig const &oc) {
    struct Handler : Clingo::SolveEventHandler {
        explicit Handler(drive::Session &s) : s{s} {}
        bool on_model(Clingo::Model &m) override {
            try {
                run.answers.emplace_back(s.read_model(m));
            } catch (Failure const &e) { error = std::make_unique<Failure>(e); }
            return true;
        }
        void on_statistics(Clingo::UserStatistics step, Clingo::UserStatistics accu) override {
            run.stat_opt.emplace_back(stat(step, "Optimization"));
            run.stat_lower.emplace_back(stat(step, "Lower bound"));
            run.accu_opt.emplace_back(stat(accu, "Optimization"));
            run.accu_lower.emplace_back(stat(accu, "Lower bound"));
            run.count.emplace_back(run.answers.size());
            drive::check_ret(clingodl_on_statistics(s.theory(), step.to_c(), accu.to_c()));
        }
        drive::Session &s;
        Run run;
        std::unique_ptr<Failure> error;
    };
    Handler h{s};
    try {
        drive::lib([&]() { ClingoDL::Optimizer{oc, h, s.theory()}.solve(s.ctl()); });
    } catch (drive::LibError const &e) { h.run.error = e.what(); }
    if (h.error) { throw *h.error; }
    return std::move(h.run);
}

void p09(Case &c) {
    Params q;
    switch (c.s.draw(3)) {
        case 0: break;
        case 1:
            q.weight = 12;
            q.max_head = 6;
            break;
        default:
            q.max_vars = 7;
            q.max_choice = 5;
            q.max_head = 8;
            q.max_rules = 12;
            break;
    }
    // (values are approached step by step with factor one and close to it with huge ones)
    static double const factors[] = {1, 1.5, 2, 3, 10, 1000, 2147483647};
    auto factor = factors[c.s.weighted({4, 3, 4, 2, 2, 1, 1})];
    bool few = factor > 1 && factor <= 10;
    // large weights are limited so that path lengths together with search bounds stay representable
    if (few && c.s.chance(1, 40)) {
        widen(c.s, q);
        c.label("many variables");
    }
    auto p = gen_program(c.s, q);
    auto v = c.s.range(1, static_cast<int>(p.vars.size()) - 1);
    // anchor the variable
    bool anchored = !c.s.chance(1, 12);
    if (anchored) {
        static int64_t const low[] = {0, -3, 2, -10, -100, -20000, -10000000, -(1ll << 28)};
        auto k = few ? low[c.s.weighted({4, 4, 4, 3, 2, 1, 1, 1})] : low[c.s.weighted({4, 4, 4, 3, 1})];
        TCon t;
        t.con = {v, 0, ref::GE, k};
        t.text = spell(c.s, p.vars, t.con, true);
        p.head.emplace_back(t);
        Rule r;
        r.head = Rule::Theory;
        r.idx = static_cast<int>(p.head.size()) - 1;
        p.rules.emplace_back(r);
    }
    ClingoDL::OptimizerConfig oc;
    oc.symbol = Clingo::parse_term(p.vars[v].sym.c_str());
    oc.factor = factor;
    oc.active = true;
    if (c.s.chance(1, 3)) {
        oc.has_initial = true;
        oc.initial = c.s.chance(1, 6) ? (few ? c.s.range(-100000, 100000) : c.s.range(-200, 200)) : c.s.range(-12, 12);
    }
    ConfParams cp;
    cp.cc = cp.shift = true;
    cp.threads = c.s.chance(1, 8) ? 2 : 1;
    auto cfg = gen_config(c.s, cp);
    // see p_shots.cc
    cfg.cl.emplace_back("--eq=0");
    c.desc << "minimize: " << p.vars[v].sym << " factor " << oc.factor;
    if (oc.has_initial) { c.desc << " initial " << oc.initial; }
    c.desc << "\noptions: " << cfg.str() << "\n" << p.text();
    c.publish();

    // reference
    auto as = answers(p);
    std::optional<int64_t> best;
    bool unbounded = false;
    size_t within = 0;
    for (auto const &a : as) {
        auto l = least(p, constraints(p, a), v);
        if (!l) {
            unbounded = true;
            continue;
        }
        if (oc.has_initial && *l > oc.initial) { continue; }
        ++within;
        best = best ? std::min(*best, *l) : *l;
    }
    if (unbounded) {
        c.label("unbounded");
        throw Discard("unbounded");
    }

    drive::Session s(cfg);
    try {
        s.add(p.text());
        s.ground();
    } catch (drive::LibError const &e) { c.fail(std::string("error in a valid program: ") + e.what()); }
    auto r = optimize(s, oc);
    PBT_CHECK(c, r.error.empty(), "error while optimizing: " << r.error);
    auto show = [&]() {
        std::string x = " values:";
        for (auto const &a : r.answers) { x += " " + (a.dl.count(p.vars[v].sym) != 0 ? a.dl.at(p.vars[v].sym) : "none"); }
        x += " optimum: " + (best ? std::to_string(*best) : "none");
        return x;
    };
    std::optional<int64_t> last;
    for (auto const &a : r.answers) {
        check_witness(c, p, a);
        auto it = a.dl.find(p.vars[v].sym);
        PBT_CHECK(c, it != a.dl.end(), "no value for the variable that is minimized" << show());
        auto x = std::stoll(it->second);
        PBT_CHECK(c, !last || x < *last, "no strict improvement;" << show());
        PBT_CHECK(c, !oc.has_initial || x <= oc.initial, "answer outside of the initial bound;" << show());
        last = x;
    }
    PBT_CHECK(c, last.has_value() == best.has_value(), "wrong satisfiability;" << show());
    if (best) { PBT_CHECK(c, *last == *best, "last answer is no minimum;" << show()); }
    PBT_CHECK(c, !r.stat_opt.empty(), "statistics have not been reported");
    auto expect = best ? *best : none;
    PBT_CHECK(c, r.stat_opt.back() == expect, "step statistics show optimum " << r.stat_opt.back() << ";" << show());
    PBT_CHECK(c, r.accu_opt.back() == expect, "accumulated statistics show optimum " << r.accu_opt.back() << ";" << show());
    int64_t bound = none;
    for (size_t i = 0; i < r.stat_lower.size(); ++i) {
        auto l = r.stat_lower[i];
        PBT_CHECK(c, l == none || (best && l <= *best), "lower bound " << l << " exceeds the optimum;" << show());
        PBT_CHECK(c, l >= bound, "lower bound decreases to " << l << ";" << show());
        PBT_CHECK(c, l == r.accu_lower[i], "accumulated lower bound is " << r.accu_lower[i] << " instead of " << l << ";" << show());
        bound = l;
        auto o = r.count[i] == 0 ? none : std::stoll(r.answers[r.count[i] - 1].dl.at(p.vars[v].sym));
        PBT_CHECK(c, r.stat_opt[i] == o, "step statistics show optimum " << r.stat_opt[i] << " after answer " << o << ";" << show());
        PBT_CHECK(c, r.accu_opt[i] == o, "accumulated statistics show optimum " << r.accu_opt[i] << " after answer " << o << ";" << show());
    }
    c.label(best ? "sat" : "unsat");
    c.label("answers", r.answers.size());
    if (r.answers.size() > 1) { c.label("with improvement"); }
    if (r.answers.size() > 3) { c.label("more than three answers"); }
    if (oc.has_initial && within < as.size()) { c.label("initial bound excludes answers"); }
    c.nontrivial = r.answers.size() > 1 || (oc.has_initial && within < as.size());
}
Register r09("P09",
             "Random programs with a random variable to minimize, step factor and optional initial bound, run through "
             "the optimizer of the application; the sequence of reported answers is compared with the minimum over all "
             "reference answers. Non-trivial: at least two answers were reported, or the initial bound excludes some "
             "reference answer.",
             p09);

} // namespace
