// P01, P02, P03: answers of programs.
#include "gen.hh"
#include "huge.hh"
#include <algorithm>

using namespace pbt;
using namespace gen;

namespace {

drive::Solved run(Program const &p, drive::Config const &cfg) {
    drive::Session s(cfg);
    s.add(p.text());
    s.ground();
    return s.solve();
}

drive::Solved run_valid(Case &c, std::string const &what, Program const &p, drive::Config const &cfg) {
    try {
        return run(p, cfg);
    } catch (drive::LibError const &e) { c.fail(what + ": error on a valid program: " + e.what()); }
}

Params gen_params(Case &c) {
    Params q;
    switch (c.s.weighted({5, 3, 2})) {
        case 0: break;
        case 1:
            q.max_vars = 3;
            q.weight = 2;
            q.max_head = 7;
            q.max_rules = 12;
            break;
        default:
            q.max_vars = 7;
            q.max_choice = 5;
            q.max_head = 8;
            q.max_rules = 12;
            q.max_defined = 3;
            break;
    }
    q.big = c.s.chance(1, 3);
    if (c.s.chance(1, 40)) {
        widen(c.s, q);
        c.label("many variables");
    }
    return q;
}

void count_labels(Case &c, Program const &p, drive::Solved const &r) {
    c.label(r.answers.empty() ? "unsat" : "sat");
    c.label("answers", r.answers.size());
    bool ne = false;
    for (auto const &t : p.head) { ne = ne || t.con.rel == ref::NE; }
    for (auto const &t : p.body) { ne = ne || t.con.rel == ref::NE || t.con.rel == ref::EQ; }
    if (ne) { c.label("with disequality"); }
    if (!p.body.empty()) { c.label("with body constraints"); }
}

void p01(Case &c) {
    if (huge::chance(c, 400)) { return huge::witness(c); }
    auto q = gen_params(c);
    auto p = gen_program(c.s, q);
    ConfParams cp;
    cp.cc = cp.shift = true;
    auto cfg = gen_config(c.s, cp);
    c.desc << "options: " << cfg.str() << "\n" << p.text();
    c.publish();
    auto r = run_valid(c, "solve", p, cfg);
    for (auto const &a : r.answers) {
        check_witness(c, p, a);
        if (a.dl.size() >= 2) { c.nontrivial = true; }
    }
    PBT_CHECK(c, r.sat == !r.answers.empty() && r.unsat == r.answers.empty(), "result status does not match answers");
    count_labels(c, p, r);
}
Register r01("P01",
             "Random programs over choice/defined atoms, head and body difference constraints in varied surface forms, "
             "with random theory and search options; every answer's values are evaluated on every constraint. "
             "Rarely instances with up to 30000 variables or 70000 constraints. "
             "Non-trivial: some answer assigns at least two variables.",
             p01);

void p02(Case &c) {
    if (huge::chance(c, 400)) { return huge::complete(c); }
    auto q = gen_params(c);
    q.hide = c.s.chance(1, 4);
    auto p = gen_program(c.s, q);
    ConfParams cp;
    cp.cc = cp.shift = true;
    auto cfg = gen_config(c.s, cp);
    c.desc << "options: " << cfg.str() << "\n" << p.text();
    c.publish();
    auto as = answers(p);
    std::set<std::string> expect;
    for (auto const &a : as) { expect.insert(a.key()); }
    auto r = run_valid(c, "solve", p, cfg);
    auto got = r.atom_sets();
    for (auto const &e : expect) { PBT_CHECK(c, got.count(e) != 0, "answer lost: {" << e << "} (expected " << expect.size() << ", got " << got.size() << ")"); }
    for (auto const &g : got) { PBT_CHECK(c, expect.count(g) != 0, "answer invented: {" << g << "}"); }
    if (!q.hide) {
        PBT_CHECK(c, r.full_sets().size() == r.answers.size(), "an answer is reported twice");
    }
    PBT_CHECK(c, r.unsat == expect.empty() && r.sat == !expect.empty(), "wrong satisfiability status");
    // non-trivial: the constraints exclude something
    size_t cand = 0;
    auto nc = static_cast<int>(std::count(p.choice.begin(), p.choice.end(), true));
    for (uint64_t t = 0; t < (1ull << p.body.size()); ++t) {
        for (uint64_t ch = 0; ch < (1ull << nc); ++ch) {
            RefAnswer a;
            if (evaluate(p, ch, t, a)) { ++cand; }
        }
    }
    c.nontrivial = cand > as.size();
    if (cand > as.size() && !as.empty()) { c.label("some candidates excluded"); }
    count_labels(c, p, r);
}
Register r02("P02",
             "Random programs as for P01 with all candidate answers enumerated by a reference (stratified evaluation "
             "and Bellman-Ford with branching on disequalities). Non-trivial: the difference constraints exclude at "
             "least one candidate answer. Rarely instances with up to 30000 variables or 70000 constraints.",
             p02);

//! Whether a configuration changes the preprocessing of the solver.
bool preprocesses(drive::Config const &cfg) {
    return std::any_of(cfg.cl.begin(), cfg.cl.end(), [](std::string const &a) {
        return a.rfind("--configuration=", 0) == 0;
    });
}

// Larger instances, comparing configurations.
void p03(Case &c) {
    if (huge::chance(c, 100)) { return huge::options(c); }
    Program p;
    bool large = c.s.chance(1, 2);
    Params q;
    if (large) {
        q.max_vars = 10;
        q.max_choice = 7;
        q.max_defined = 3;
        q.max_body = 4;
        q.max_head = 16;
        q.max_rules = 26;
        q.weight = 6;
    } else {
        q = gen_params(c);
    }
    q.hide = false;
    p = gen_program(c.s, q);
    bool cc = c.s.chance(1, 6);
    ConfParams cp;
    auto base = drive::Config{};
    base.cl.emplace_back("0");
    auto c1 = gen_config(c.s, cp);
    auto c2 = gen_config(c.s, cp);
    drive::Config c3;
    if (cc) {
        c3 = gen_config(c.s, cp);
        c3.dl.emplace_back("compute-components", "no");
    }
    c.desc << "options 1: " << c1.str() << "\noptions 2: " << c2.str() << "\n";
    if (cc) { c.desc << "options 3: " << c3.str() << "\n"; }
    c.desc << p.text();
    c.publish();
    auto r0 = run_valid(c, "default options", p, base);
    auto f0 = r0.full_sets();
    for (auto const *cfg : {&c1, &c2}) {
        auto r = run_valid(c, cfg->str(), p, *cfg);
        if (preprocesses(*cfg)) {
            // Which constraints are false at the top level (and hence the components) depends on preprocessing.
            PBT_CHECK(c, r.atom_sets() == r0.atom_sets(), "different answers with " << cfg->str());
            for (auto const &a : r.answers) { check_witness(c, p, a); }
            c.label("compared without values");
            continue;
        }
        auto f = r.full_sets();
        for (auto const &x : f0) {
            PBT_CHECK(c, f.count(x) != 0, "answer of default options missing with " << cfg->str() << ": " << x);
        }
        for (auto const &x : f) {
            PBT_CHECK(c, f0.count(x) != 0, "answer not given by default options with " << cfg->str() << ": " << x);
        }
        PBT_CHECK(c, r.answers.size() == r0.answers.size(), "different number of answers with " << cfg->str());
    }
    if (cc) {
        auto r = run_valid(c, c3.str(), p, c3);
        PBT_CHECK(c, r.atom_sets() == r0.atom_sets(), "different answers without component computation");
        for (auto const &a : r.answers) { check_witness(c, p, a); }
        c.label("without component computation");
    }
    c.nontrivial = r0.answers.size() > 1;
    c.label("solve runs", cc ? 4 : 3);
    if (large) { c.label("large"); }
    count_labels(c, p, r0);
}
Register r03("P03",
             "Random programs (half of them beyond reference enumeration) solved with default options and two random "
             "option combinations; sets of (answer, values) compared; rarely instances with thousands of constraints. Non-trivial: more than one answer.",
             p03);

} // namespace
