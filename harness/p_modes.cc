// P26: optimization, consequences, projection, and domain heuristics over the same answers.
#include "gen.hh"
#include <algorithm>
#include <array>

using namespace pbt;
using namespace gen;

namespace {

struct Weight {
    int atom;
    int64_t weight;
    int prio;
    bool neg; // sum over false atoms
};

//! Costs by decreasing priority.
std::vector<int64_t> costs(std::vector<Weight> const &ws, RefAnswer const &a, std::set<int> const &prios) {
    std::vector<int64_t> res;
    for (auto it = prios.rbegin(); it != prios.rend(); ++it) {
        int64_t sum = 0;
        for (auto const &w : ws) {
            if (w.prio == *it && a.atoms[static_cast<size_t>(w.atom)] != w.neg) { sum += w.weight; }
        }
        res.emplace_back(sum);
    }
    return res;
}

std::string join(std::set<std::string> const &xs) {
    std::string r;
    for (auto const &x : xs) { r += (r.empty() ? "" : " ") + x; }
    return r;
}

std::string costs_str(std::vector<int64_t> const &xs) {
    std::string r;
    for (auto x : xs) { r += (r.empty() ? "" : " ") + std::to_string(x); }
    return r;
}

struct Found {
    drive::Answer answer;
    std::vector<int64_t> costs;
    bool proven;
};

struct Run {
    std::vector<Found> models;
    drive::Solved res;
};

enum Mode { Opt, OptN, Bound, Brave, Cautious, Project, Heuristic, Models };

void p26(Case &c) {
    Params q;
    q.max_choice = 5;
    q.max_defined = 3;
    q.max_head = 7;
    q.max_rules = 10;
    q.weight = c.s.range(2, 4);
    auto p = gen_program(c.s, q);
    auto mode = static_cast<Mode>(c.s.weighted({3, 3, 2, 2, 2, 2, 2, 1}));
    // Note: clingo 5.6.2 sometimes misses or repeats optimal answers with several threads
    int threads = mode == OptN ? 1 : c.s.weighted({4, 1, 1}) + 1;
    ConfParams cp;
    cp.cc = true;
    cp.shift = c.s.chance(1, 3);
    cp.threads = threads;
    auto cfg = gen_config(c.s, cp);
    auto drop = [&](std::string const &pre) {
        cfg.cl.erase(std::remove_if(cfg.cl.begin(), cfg.cl.end(), [&](auto const &x) { return x.rfind(pre, 0) == 0; }),
                     cfg.cl.end());
    };
    drop("--enum-mode");
    std::ostringstream extra;
    std::vector<Weight> weights;
    std::set<int> prios;
    std::vector<int> project;
    bool minimize = mode == Opt || mode == OptN || mode == Bound || ((mode == Brave || mode == Cautious) && threads == 1 && c.s.chance(1, 3));
    if (minimize && p.natoms > 0) {
        int n = c.s.range(1, 6);
        // Note: clingo 5.6.2 sometimes does not terminate with several priorities (also without any theory)
        int prio = c.s.range(0, 2);
        // makes sure that there is a minimize constraint
        extra << "{ y }.\n:- y.\n#minimize { 1@" << prio << ",y : y }.\n";
        for (int i = 0; i < n; ++i) {
            Weight w{c.s.range(0, p.natoms - 1), c.s.range(-4, 6), prio, c.s.chance(1, 3)};
            prios.insert(w.prio);
            std::ostringstream e;
            e << w.weight << "@" << w.prio << "," << i << " : " << (w.neg ? "not " : "") << "a(" << w.atom << ")";
            if (c.s.chance(1, 4)) {
                extra << ":~ " << (w.neg ? "not " : "") << "a(" << w.atom << "). [" << w.weight << "@" << w.prio << "," << i << "]\n";
            } else if (c.s.chance(1, 4)) {
                extra << "#maximize { " << -w.weight << "@" << w.prio << "," << i << " : " << (w.neg ? "not " : "") << "a(" << w.atom << ") }.\n";
            } else {
                extra << "#minimize { " << e.str() << " }.\n";
            }
            weights.emplace_back(w);
        }
    }
    auto all = answers(p);
    int64_t bound = 0;
    std::vector<std::vector<int64_t>> val;
    for (auto const &a : all) { val.emplace_back(costs(weights, a, prios)); }
    std::vector<int64_t> best;
    if (!val.empty()) { best = *std::min_element(val.begin(), val.end()); }
    switch (mode) {
        case Opt: {
            cfg.cl.emplace_back("--opt-mode=opt");
            break;
        }
        case OptN: {
            cfg.cl.emplace_back("--opt-mode=optN");
            break;
        }
        case Bound: {
            bound = c.s.range(-3, 8);
            if (!best.empty() && c.s.chance(1, 2)) { bound = best[0] + c.s.range(0, 2); }
            cfg.cl.emplace_back("--opt-mode=enum," + std::to_string(bound));
            break;
        }
        case Brave:
        case Cautious: {
            cfg.cl.emplace_back(mode == Brave ? "--enum-mode=brave" : "--enum-mode=cautious");
            if (!weights.empty()) { cfg.cl.emplace_back("--opt-mode=optN"); }
            break;
        }
        case Project: {
            cfg.cl.emplace_back("--project=project");
            for (int i = 0; i < p.natoms; ++i) {
                if (c.s.chance(1, 2)) {
                    project.emplace_back(i);
                    extra << "#project a(" << i << ").\n";
                }
            }
            if (project.empty()) { extra << "#project x.\n"; }
            break;
        }
        case Heuristic: {
            drop("--heuristic");
            cfg.cl.emplace_back("--heuristic=Domain");
            static std::array<char const *, 6> const mods{"true", "false", "level", "sign", "init", "factor"};
            int n = c.s.range(1, 5);
            for (int i = 0; p.natoms > 0 && i < n; ++i) {
                extra << "#heuristic a(" << c.s.range(0, p.natoms - 1) << "). [" << c.s.range(0, 5) << "@"
                      << c.s.range(1, 3) << "," << mods[static_cast<size_t>(c.s.range(0, 5))] << "]\n";
            }
            break;
        }
        default: {
            cfg.cl.emplace_back(c.s.chance(1, 2) ? "--enum-mode=record" : "--enum-mode=bt");
            break;
        }
    }
    if (!weights.empty() && c.s.chance(1, 2)) {
        static std::vector<std::string> const strats{"bb,lin", "bb,hier", "bb,inc", "bb,dec", "usc,oll", "usc,one", "usc,k", "usc,pmres"};
        cfg.cl.emplace_back("--opt-strategy=" + c.s.pick(strats));
    }
    p.extra += extra.str();
    c.desc << "options: " << cfg.str() << "\n" << p.text();
    c.publish();
    Run run;
    try {
        drive::Session s(cfg);
        s.add(p.text());
        s.ground();
        drive::SolveOpts opts;
        opts.mode = c.s.chance(1, 4) ? drive::SolveMode::Yield : drive::SolveMode::Plain;
        opts.on_model = [&](drive::Session &, Clingo::Model &m, drive::Answer &a) {
            run.models.push_back({a, m.cost(), m.optimality_proven()});
        };
        run.res = s.solve(opts);
    } catch (drive::LibError const &e) { c.fail(std::string("error on a valid program: ") + e.what()); }
    std::map<std::string, size_t> index;
    for (size_t i = 0; i < all.size(); ++i) { index.emplace(all[i].key(), i); }
    PBT_CHECK(c, run.res.exhausted, "search not exhausted");
    auto const &models = run.models;
    bool real = mode != Brave && mode != Cautious;
    if (real) {
        // models are answers with correct values and costs
        for (auto const &m : models) {
            check_witness(c, p, m.answer);
            auto it = index.find(m.answer.atoms_str());
            PBT_CHECK(c, it != index.end(), "answer invented: {" << m.answer.atoms_str() << "}");
            if (!weights.empty()) {
                PBT_CHECK(c, m.costs == val[it->second], "wrong costs " << costs_str(m.costs) << " of answer {" << m.answer.atoms_str() << "}");
            }
        }
    }
    std::set<std::string> got;
    std::set<std::string> expect;
    std::set<std::string> full;
    size_t reported = 0;
    switch (mode) {
        case Opt: {
            PBT_CHECK(c, models.empty() == all.empty(), "wrong satisfiability status");
            if (!models.empty()) {
                auto const &m = models.back();
                auto i = index.at(m.answer.atoms_str());
                PBT_CHECK(c, val[i] == best, "last answer {" << m.answer.atoms_str() << "} has costs " << costs_str(val[i]) << " instead of " << costs_str(best));
            }
            c.label("optimization");
            std::set<std::vector<int64_t>> distinct(val.begin(), val.end());
            c.nontrivial = distinct.size() > 1;
            return;
        }
        case OptN:
        case Bound: {
            for (size_t i = 0; i < all.size(); ++i) {
                if (mode == OptN ? val[i] == best : (weights.empty() || val[i][0] <= bound)) { expect.insert(all[i].key()); }
            }
            for (auto const &m : models) {
                if (mode == OptN && !m.proven && !weights.empty()) { continue; }
                got.insert(m.answer.atoms_str());
                full.insert(m.answer.str());
                ++reported;
            }
            c.label(mode == OptN ? "optimal answers" : "answers within bound");
            c.nontrivial = !expect.empty() && expect.size() < all.size();
            break;
        }
        case Brave:
        case Cautious: {
            PBT_CHECK(c, models.empty() == all.empty(), "wrong satisfiability status");
            bool first = true;
            size_t n = 0;
            for (size_t i = 0; i < all.size(); ++i) {
                if (val[i] != best) { continue; }
                ++n;
                std::set<std::string> cur(all[i].shown.begin(), all[i].shown.end());
                if (mode == Brave) {
                    expect.insert(cur.begin(), cur.end());
                } else if (first) {
                    expect = cur;
                } else {
                    std::set<std::string> both;
                    std::set_intersection(expect.begin(), expect.end(), cur.begin(), cur.end(), std::inserter(both, both.end()));
                    expect = both;
                }
                first = false;
            }
            if (!models.empty()) {
                got.insert(models.back().answer.atoms.begin(), models.back().answer.atoms.end());
                PBT_CHECK(c, got == expect, "wrong consequences {" << join(got) << "} instead of {" << join(expect) << "}");
            }
            c.label(mode == Brave ? "brave consequences" : "cautious consequences");
            if (!weights.empty()) { c.label("consequences of optimal answers"); }
            c.nontrivial = n > 1;
            return;
        }
        case Project: {
            auto proj = [&](RefAnswer const &a) {
                std::string r;
                for (auto i : project) {
                    if (a.atoms[static_cast<size_t>(i)]) { r += (r.empty() ? "a(" : " a(") + std::to_string(i) + ")"; }
                }
                return r;
            };
            for (auto const &a : all) { expect.insert(proj(a)); }
            for (auto const &m : models) {
                got.insert(proj(all[index.at(m.answer.atoms_str())]));
                full.insert(proj(all[index.at(m.answer.atoms_str())]));
                ++reported;
            }
            c.label("projection");
            c.nontrivial = expect.size() > 1 && expect.size() < all.size();
            break;
        }
        default: {
            for (auto const &a : all) { expect.insert(a.key()); }
            for (auto const &m : models) {
                got.insert(m.answer.atoms_str());
                full.insert(m.answer.str());
                ++reported;
            }
            c.label(mode == Heuristic ? "domain heuristic" : "enumeration");
            c.nontrivial = expect.size() > 1;
            break;
        }
    }
    for (auto const &e : expect) {
        PBT_CHECK(c, got.count(e) != 0, "answer lost: {" << e << "} (expected " << expect.size() << ", got " << got.size() << ")");
    }
    for (auto const &g : got) { PBT_CHECK(c, expect.count(g) != 0, "answer not expected: {" << g << "}"); }
    PBT_CHECK(c, full.size() == reported, "an answer is reported twice");
}
Register r26("P26",
             "Random programs with difference constraints extended by minimize, maximize, weak, projection, or heuristic "
             "statements and solved in one of the reasoning modes of the solver (optimization with different strategies, "
             "all optimal answers, answers within a bound, brave and cautious consequences, projection, domain heuristic, "
             "enumeration algorithms) with random options and one to three threads; results are "
             "compared with those computed from all answers given by the reference. Non-trivial: the mode has to select "
             "among or combine several different answers.",
             p26);

} // namespace
