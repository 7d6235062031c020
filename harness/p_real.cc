// P10: real-valued mode.
#include "gen.hh"
#include <algorithm>
#include <cmath>

using namespace pbt;
using namespace gen;

namespace {

using ref::Con;

// Weights are multiples of a grid. Over the reals, constraints have the same solutions as the constraints over the
// integers obtained by scaling the grid with a factor exceeding the length of cycles: strict constraints become
// constraints reduced by one.
constexpr int64_t scale = 1000;

struct Grid {
    bool exact{false};
    int den{4}; // grid is 1/den
};

std::string decimal(Grid const &g, int64_t n) {
    // exact decimal representation with two digits
    int64_t cents = n * 100 / g.den;
    std::string r = cents < 0 ? "-" : "";
    cents = std::abs(cents);
    std::string f = std::to_string(cents % 100);
    if (f.size() < 2) { f = "0" + f; }
    return r + std::to_string(cents / 100) + "." + f;
}

//! A number as text.
std::string number(Src &s, Grid const &g, int64_t n) {
    if (n % g.den == 0 && s.chance(1, 2)) {
        auto k = n / g.den;
        return k < 0 ? "(" + std::to_string(k) + ")" : std::to_string(k);
    }
    if (n < 0 && s.chance(1, 2)) { return "(-\"" + decimal(g, -n) + "\")"; }
    return "\"" + decimal(g, n) + "\"";
}

std::string spell_real(Src &s, Grid const &g, std::vector<Var> const &vars, Con c) {
    if (s.chance(1, 4)) {
        std::swap(c.u, c.v);
        c.rel = ref::flip(c.rel);
        c.k = -c.k;
    }
    auto n = c.k / scale;
    auto const &u = vars[c.u].text;
    auto const &v = vars[c.v].text;
    std::string r = std::string(" ") + ref::rel_str(c.rel) + " ";
    auto wrap = [&](std::string const &l, std::string const &x) { return "&diff { " + l + " }" + r + x; };
    switch (s.weighted({8, 2, 2, g.exact ? 2 : 0, 1, 1})) {
        case 1: return wrap(u, v + " + " + number(s, g, n));
        case 2: return wrap("-(" + v + " - " + u + ")", number(s, g, n));
        // (sums of constants are only exact on the binary grid)
        case 3: {
            int64_t d = s.sym(5);
            return wrap(number(s, g, d) + " + " + u + " - " + v, number(s, g, n + d));
        }
        case 4: return wrap(u + " - " + v + " - " + number(s, g, n), "0");
        case 5: return wrap("2*" + u + " - " + v, u + " + " + number(s, g, n));
        default: return wrap(u + " - " + v, number(s, g, n));
    }
}

void p10(Case &c) {
    Grid g;
    g.exact = c.s.chance(2, 3);
    g.den = g.exact ? (c.s.chance(1, 2) ? 4 : 2) : (c.s.chance(1, 2) ? 10 : 100);
    Params q;
    q.strict = false;
    q.max_head = 7;
    q.weight = c.s.chance(1, 2) ? 4 : 20;
    q.max_choice = 4;
    q.max_rules = 12;
    if (c.s.chance(1, 3)) {
        q.max_vars = 7;
        q.max_head = 10;
    }
    if (c.s.chance(1, 40)) {
        widen(c.s, q);
        c.label("many variables");
    }
    auto p = gen_program(c.s, q);
    int big = c.s.chance(1, 5) ? c.s.range(1, 100000) : 0;
    for (auto &t : p.head) {
        if (big > 0 && c.s.chance(1, 4)) { t.con.k *= big; }
        t.con.k *= scale;
        t.text = spell_real(c.s, g, p.vars, t.con);
    }
    bool shift = c.s.chance(1, 3);
    ConfParams cp;
    cp.cc = true;
    auto cfg = gen_config(c.s, cp);
    cfg.dl.emplace_back("rdl", "yes");
    if (shift) {
        cfg.dl.emplace_back("shift-constraints", "yes");
        // integrity constraints with one difference constraint
        int n = c.s.range(1, 2);
        for (int i = 0; i < n; ++i) {
            Con k = gen_con(c.s, static_cast<int>(p.vars.size()) - 1, q.weight, true);
            k.k *= scale;
            int sign = c.s.draw(3); // 0: none, 1: not, 2: not not
            auto text = spell_real(c.s, g, p.vars, k);
            auto h = k;
            if (sign != 1) { h.rel = ref::negate(h.rel); }
            TCon t;
            t.con = h;
            p.head.push_back(t);
            // evaluated as a rule with a theory head but printed as an integrity constraint
            Rule r;
            r.head = Rule::Theory;
            r.idx = static_cast<int>(p.head.size()) - 1;
            std::string body;
            if (c.s.chance(2, 3)) {
                Lit l;
                l.idx = c.s.range(0, p.natoms - 1);
                l.sign = c.s.draw(2);
                r.body.push_back(l);
                body = std::string(l.sign == 1 ? "not " : "") + "a(" + std::to_string(l.idx) + ")";
            }
            std::string lit = std::string(sign == 1 ? "not " : sign == 2 ? "not not " : "") + text;
            if (body.empty()) { p.extra += ":- " + lit + ".\n"; }
            else if (c.s.chance(1, 2)) { p.extra += ":- " + lit + ", " + body + ".\n"; }
            else { p.extra += ":- " + body + ", " + lit + ".\n"; }
            p.rules.push_back(r);
        }
    }
    // text without the rules printed as integrity constraints
    auto printed = p;
    if (shift) {
        printed.rules.erase(std::remove_if(printed.rules.begin(), printed.rules.end(),
                                           [&](Rule const &r) {
                                               return r.head == Rule::Theory && printed.head[r.idx].text.empty();
                                           }),
                            printed.rules.end());
    }
    auto text = printed.text();
    c.desc << "options: " << cfg.str() << "\n" << text;
    c.publish();

    // rounding errors are far below the precision of the constants and the epsilon used for strict constraints
    auto as = answers(p);
    std::set<std::string> expect;
    for (auto const &a : as) {
        expect.insert(a.key());
    }
    drive::Solved r;
    std::vector<std::map<std::string, double>> values;
    try {
        drive::Session s(cfg);
        s.add(text);
        s.ground();
        drive::SolveOpts so;
        so.on_model = [&](drive::Session &s, Clingo::Model &m, drive::Answer &) {
            std::map<std::string, double> val;
            size_t idx = 0;
            clingodl_assignment_begin(s.theory(), m.thread_id(), &idx);
            while (clingodl_assignment_next(s.theory(), m.thread_id(), &idx)) {
                clingodl_value_t v{};
                clingodl_assignment_get_value(s.theory(), m.thread_id(), idx, &v);
                if (v.type != clingodl_value_type_double) { throw Failure("value is not of type double"); }
                val[Clingo::Symbol(clingodl_get_symbol(s.theory(), idx)).to_string()] = v.double_number;
            }
            values.emplace_back(std::move(val));
        };
        r = s.solve(so);
    } catch (drive::LibError const &e) { c.fail(std::string("error on a valid program: ") + e.what()); }
    auto got = r.atom_sets();
    for (auto const &e : expect) { PBT_CHECK(c, got.count(e) != 0, "answer lost: {" << e << "}"); }
    for (auto const &e : got) { PBT_CHECK(c, expect.count(e) != 0, "answer invented: {" << e << "}"); }
    PBT_CHECK(c, r.unsat == expect.empty(), "wrong satisfiability status");
    // values
    auto check = [&](Con const &k, double x, double y, double tol) {
        double w = static_cast<double>(k.k / scale) / g.den;
        double d = x - y;
        switch (k.rel) {
            case ref::LE: return d <= w + tol;
            case ref::GE: return d >= w - tol;
            case ref::LT: return d < w - 1e-5 + 2 * tol + 1e-7;
            case ref::GT: return d > w + 1e-5 - 2 * tol - 1e-7;
            case ref::EQ: return std::fabs(d - w) <= tol;
            default: return std::fabs(d - w) > 1e-5 - 2 * tol - 1e-7;
        }
    };
    auto nc = static_cast<int>(std::count(p.choice.begin(), p.choice.end(), true));
    for (size_t i = 0; i < r.answers.size(); ++i) {
        auto const &a = r.answers[i];
        uint64_t ch = 0;
        for (int j = 0; j < nc; ++j) {
            auto name = "a(" + std::to_string(j) + ")";
            if (std::binary_search(a.atoms.begin(), a.atoms.end(), name)) { ch |= 1ull << j; }
        }
        RefAnswer ra;
        PBT_CHECK(c, evaluate(p, ch, 0, ra) && ra.key() == a.atoms_str(), "atoms do not follow: " << a.str());
        PBT_CHECK(c, values[i].size() == a.dl.size(), "dl terms and assignment differ: " << a.str());
        auto text_value = [&](int v) {
            if (v == 0) { return 0.0; }
            auto it = a.dl.find(p.vars[v].sym);
            PBT_CHECK(c, it != a.dl.end(), "no value for " << p.vars[v].sym << ": " << a.str());
            auto const &t = it->second;
            PBT_CHECK(c, t.size() > 2 && t.front() == '"' && t.back() == '"', "unexpected value " << t);
            return std::strtod(t.c_str() + 1, nullptr);
        };
        auto value = [&](int v) {
            if (v == 0) { return 0.0; }
            auto it = values[i].find(p.vars[v].sym);
            PBT_CHECK(c, it != values[i].end(), "no value for " << p.vars[v].sym << ": " << a.str());
            return it->second;
        };
        for (auto const &k : constraints(p, ra)) {
            if (k.u == k.v) { continue; }
            auto x = value(k.u), y = value(k.v);
            double tol = 1e-9 * std::max({1.0, std::fabs(x), std::fabs(y)});
            PBT_CHECK(c, check(k, x, y, tol), "values " << p.vars[k.u].sym << "=" << x << " " << p.vars[k.v].sym << "=" << y << " violate " << ref::rel_str(k.rel) << " " << decimal(g, k.k / scale) << ": " << a.str());
            auto tx = text_value(k.u), ty = text_value(k.v);
            PBT_CHECK(c, std::fabs(tx - x) <= 1e-6 && std::fabs(ty - y) <= 1e-6, "dl term differs from value: " << a.str());
        }
    }
    c.label(got.empty() ? "unsat" : "sat");
    c.label("answers", r.answers.size());
    c.label(g.exact ? "binary grid" : "decimal grid");
    if (shift) { c.label("shifted constraints"); }
    size_t cand = 0;
    for (uint64_t ch = 0; ch < (1ull << nc); ++ch) {
        RefAnswer a;
        if (evaluate(p, ch, 0, a)) { ++cand; }
    }
    c.nontrivial = !got.empty() && cand > expect.size();
}
Register r10("P10",
             "Random programs with decimal constants in head constraints (and shifted integrity constraints) on a "
             "binary or decimal grid, all options; answers compared with exact rational reference answers, values "
             "evaluated on all constraints. Non-trivial: some "
             "answers exist and constraints exclude some candidate.",
             p10);

} // namespace
