// P11: linear expressions and relations.
#include "expr.hh"

using namespace pbt;
using namespace gen;
using namespace expr;

namespace {

using ref::Con;

//! Write a constraint with arbitrary expressions.
void write(Case &c, std::vector<Var> const &vars, TCon &t, Gen &g) {
    auto con = t.con;
    if (c.s.chance(1, 3)) {
        std::swap(con.u, con.v);
        con.rel = ref::flip(con.rel);
        con.k = -con.k;
    }
    auto rhs = g.random();
    Form d;
    d.co.assign(vars.size(), 0);
    if (con.u != 0) { d.co[con.u] += 1; }
    if (con.v != 0) { d.co[con.v] -= 1; }
    d.k = -con.k;
    auto lhs = add(rhs, d);
    g.budget = c.s.range(0, 12);
    g.bind.clear();
    auto l = g.form(lhs).t;
    auto r = g.form(rhs).t;
    t.text = "&diff { " + l + " } " + ref::rel_str(con.rel) + " " + r;
    t.bind = g.bind;
}

void p11(Case &c) {
    Params q;
    q.max_vars = 4;
    q.max_choice = 3;
    q.max_head = 4;
    q.max_rules = 7;
    q.max_defined = 1;
    if (c.s.chance(1, 60)) {
        widen(c.s, q);
        c.label("many variables");
    }
    auto p = gen_program(c.s, q);
    Gen g{c.s, p.vars};
    if (c.s.chance(1, 5)) {
        g.big = c.s.chance(1, 2) ? 1 << 26 : 70000;
        c.label("large constants");
    }
    for (auto *v : {&p.body, &p.head}) {
        for (auto &t : *v) {
            if (c.s.chance(1, 8)) { t.con.v = t.con.u; }
            write(c, p.vars, t, g);
        }
    }
    std::ostringstream extra;
    for (auto k : g.defs) { extra << "#const c" << Gen::cname(k) << " = " << k << ".\n"; }
    for (auto k : g.consts) { extra << "k_" << Gen::cname(k) << "(" << k << ").\n"; }
    p.extra = extra.str();
    ConfParams cp;
    cp.shift = cp.cc = true;
    auto cfg = gen_config(c.s, cp);
    c.desc << "options: " << cfg.str() << "\n" << p.text();
    c.publish();
    auto as = answers(p);
    std::set<std::string> expect;
    for (auto const &a : as) { expect.insert(a.key()); }
    drive::Solved r;
    try {
        drive::Session s(cfg);
        s.add(p.text());
        s.ground();
        r = s.solve();
    } catch (drive::LibError const &e) { c.fail(std::string("error on a valid program: ") + e.what()); }
    auto got = r.atom_sets();
    for (auto const &e : expect) { PBT_CHECK(c, got.count(e) != 0, "answer lost: {" << e << "}"); }
    for (auto const &x : got) { PBT_CHECK(c, expect.count(x) != 0, "answer invented: {" << x << "}"); }
    PBT_CHECK(c, r.answers.size() == r.full_sets().size(), "an answer is reported twice");
    for (auto const &a : r.answers) { check_witness(c, p, a); }
    static char const *names[] = {"addition", "subtraction", "multiplication", "division", "unary minus"};
    for (int i = 0; i < 5; ++i) {
        if (g.used[i]) { c.label(names[i]); }
    }
    if (!g.defs.empty()) { c.label("const statement"); }
    if (!g.consts.empty()) { c.label("bound by body"); }
    if (!p.body.empty()) { c.label("in body"); }
    c.label("operators", static_cast<uint64_t>(g.ops));
    c.nontrivial = g.ops >= 3 && !r.answers.empty();
}
Register r11("P11",
             "Random programs whose constraints are written with random expression trees (sums, differences, products "
             "and quotients of constants, unary minus, parentheses, cancelling terms on both sides, constants given as "
             "strings, const statements or body variables, large constants that cancel); answers and values against the brute-force reference on "
             "the intended constraints. Non-trivial: at least three operators and at least one answer.",
             p11);

} // namespace
