// P12: malformed constraints are rejected.
#include "expr.hh"
#include <limits>

using namespace pbt;
using namespace gen;
using namespace expr;

namespace {

struct Bad {
    std::string atom;   // theory atom (or other text in its place)
    std::string bind{}; // literals binding variables
    std::string kind;
    bool body_only{false}; // only malformed in bodies
    bool number{false};    // may also be accepted if read correctly
};

char const *const rels[] = {"<=", ">=", "<", ">", "=", "!="};

struct Maker {
    Case &c;
    Program const &p;
    Gen g;
    bool rdl;

    Maker(Case &c, Program const &p, bool rdl) : c{c}, p{p}, g{c.s, p.vars}, rdl{rdl} { g.divs = {1, -1}; }

    std::string rel() { return rels[c.s.draw(6)]; }
    //! A random variable different from the ones given.
    int var(std::vector<int> const &used = {}) {
        std::vector<int> vs;
        for (int i = 1; i < static_cast<int>(p.vars.size()); ++i) {
            if (std::find(used.begin(), used.end(), i) == used.end()) { vs.push_back(i); }
        }
        return c.s.pick(vs);
    }
    std::string t(int v) { return p.vars[v].text; }
    std::string diff(std::string const &l, std::string const &r) { return "&diff { " + l + " } " + rel() + " " + r; }

    //! Put a malformed term somewhere into an otherwise well-formed constraint.
    std::string embed(std::string const &bad) {
        auto u = var();
        auto v = var({u});
        auto k = std::to_string(c.s.range(0, 9));
        switch (c.s.draw(8)) {
            case 0: return diff(t(u) + " - " + t(v), bad);
            case 1: return diff(t(u) + " - " + t(v) + " + " + bad, k);
            case 2: return diff(bad + " + " + t(u) + " - " + t(v), k);
            case 3: return diff(t(u) + " - " + t(v) + " + (" + bad + " - " + bad + ")", k);
            case 4: return diff(t(u) + " - " + t(v), k + " - (" + bad + ")");
            case 5: return diff(t(u), t(v) + " + " + bad);
            case 6: return diff(t(u) + " - " + t(v) + " - (" + bad + ")", k);
            default: return diff(t(u) + " - " + t(v), bad + " + " + k);
        }
    }

    Bad make() {
        auto &s = c.s;
        auto u = var();
        auto v = var({u});
        auto uv = t(u) + " - " + t(v);
        auto k = std::to_string(s.sym(9));
        auto kk = k[0] == '-' ? "(" + k + ")" : k;
        switch (s.weighted({2, 4, 10, 4, 4, 6, 4, 6, 6, 3, 2})) {
            case 0: return {"&diff { " + uv + " }", "", "no relation"};
            case 1: {
                static char const *const forms[] = {"U - V; W", "U; V", "U - V : a(0)", "U - V, W", "U, V",
                                                    "",         "U - V; U - V", ": a(0)", "U - V; ", "U - V : not a(0)",
                                                    "U - V : 1 = 1", "U - V; U - W : a(0)", "1,U - V"};
                std::string f = forms[s.draw(13)];
                std::string r;
                auto w = var({u, v});
                for (auto x : f) { r += x == 'U' ? t(u) : x == 'V' ? t(v) : x == 'W' ? t(w) : std::string(1, x); }
                return {"&diff { " + r + " } " + rel() + " " + k, "", "elements"};
            }
            case 2: {
                // bad coefficients
                Form f;
                f.co.assign(p.vars.size(), 0);
                auto w = var({u, v});
                static std::vector<std::vector<int>> const shapes{
                    {2},     {-2},    {1, 1},     {-1, -1},    {1, -2},    {2, -1},     {2, -2},
                    {-1, 2}, {3, -3}, {1, -1, 1}, {1, -1, -1}, {1, 1, -2}, {1, -1, 2},  {5},
                    {-1, -1, -1}, {2, 2}, {-2, 1}, {1, 2}, {65536}, {1, -65536}, {257, -1}, {1, -257}, {-255}, {65537, -65537}};
                auto const &sh = s.pick(shapes);
                int vs[] = {u, v, w};
                for (size_t i = 0; i < sh.size(); ++i) { f.co[vs[i]] = sh[i]; }
                f.k = s.sym(9);
                auto rhs = g.random();
                g.budget = s.range(0, 6);
                g.bind.clear();
                auto l = g.form(add(rhs, f)).t;
                auto r = g.form(rhs).t;
                return {"&diff { " + l + " } " + rel() + " " + r, g.bind, "coefficients"};
            }
            case 3: {
                static char const *const forms[] = {"U * V", "U * U", "(U - V) * (U - V)", "(U + 1) * (V - 1)", "2 * U * V",
                                                    "(1 - U) * U", "U * (V - V)"};
                std::string r;
                for (auto x : std::string(forms[s.draw(7)])) {
                    r += x == 'U' ? t(u) : x == 'V' ? t(v) : std::string(1, x);
                }
                return {embed(r), "", "non-linear"};
            }
            case 4: {
                static char const *const forms[] = {"1 / 0", "K / (2 - 2)", "K / U", "U / 2", "(U - V) / 2", "0 / 0",
                                                    "2 / (U - V)", "U / 1", "K / (0 * 3)", "(4 * U) / 4", "U / U"};
                // (over floating point numbers division by zero gives values that are no numbers)
                std::string r;
                for (auto x : std::string(forms[s.draw(11)])) {
                    r += x == 'U' ? t(u) : x == 'V' ? t(v) : x == 'K' ? kk : std::string(1, x);
                }
                return {embed(r), "", "division"};
            }
            case 5: {
                if (rdl) {
                    static char const *const forms[] = {"\"1e400\"", "\"-1e999\"", "\"inf\"", "\"nan\"", "\"1e200\" * \"1e200\"",
                                                        "1 / 0", "0 / 0", "\"1e308\" + \"1e308\""};
                    std::string n = forms[s.draw(8)];
                    return {diff(uv, n), "", "not finite"};
                }
                // constants beyond the integer range; the sum of the constants leaves the range
                static char const *const big[] = {"2147483647 + 2",  "2147483647 + 2147483647", "65536 * 65536",
                                                  "-2147483647 - 2", "46341 * 46341",           "-65536 * 32769",
                                                  "2 * 1073741824",  "1000000 * 1000000",       "-3 * 1000000000",
                                                  "2147483647 * 2",  "-(65536 * 65536)",        "-46341 * -46341",
                                                  "2147483647 * 2147483647", "-1431655765 * 2", "3 * -715827883"};
                std::string n = big[s.draw(15)];
                std::string l = s.chance(1, 4) ? t(u) : s.chance(1, 3) ? "-" + t(v) : uv;
                switch (s.draw(3)) {
                    case 0: return {diff(l, n), "", "overflow"};
                    case 1: return {diff(l + " + (" + n + ")", "0"), "", "overflow"};
                    default: return {diff(n + " + " + l, "0"), "", "overflow"};
                }
            }
            case 6: {
                if (rdl) {
                    Bad b{diff(uv, s.chance(1, 2) ? k : "\"1.5\""), "", "strict in real mode"};
                    b.body_only = true;
                    return b;
                }
                static char const *const forms[] = {"\"1.5\"", "\"0.5\"", "\"1e-1\"", "\"1e10\"", "\"2147483648\"", "\"-2147483649\"",
                                                    "\"1e400\"", "\"3000000000\"", "\"-0.25\"", "\"inf\"", "\"nan\"", "\"4294967296\"",
                                                    "\"1.0000001\"", "\"-1e300\""};
                return {embed(forms[s.draw(14)]), "", "real number"};
            }
            case 7: {
                // undefined arithmetic in arguments of variables
                static char const *const forms[] = {"f(1/0)", "f(a+1)", "f(2147483647+1)", "f(-2147483647-2)", "f(65536*65536)", "f(1,1/0)",
                                                    "f(g(1/0))", "(1/0,2)", "f(2*a)", "f(-(1,2))", "f(-\"x\")", "f(\"x\"*2)", "f(1-b)",
                                                    "f((1,2)+1)", "f(g(1)-1)", "f(\"12x\"+1)", "f(\"\"*1)", "f(a/2)", "f(46341*46341)"};
                std::string n = forms[s.draw(19)];
                if (rdl && (n.find("1/0") != std::string::npos || n.find("2147") != std::string::npos ||
                            n.find("65536") != std::string::npos || n.find("46341") != std::string::npos)) {
                    n = "f(a+1)";
                }
                return {s.chance(1, 2) ? diff(n + " - " + t(v), k) : diff(t(u), n + " + " + kk), "", "undefined arithmetic"};
            }
            case 8: {
                static char const *const forms[] = {"[U]", "{U}", "[1]", "{}", "{1,2}", "f([1])", "f({U})", "([U,1],1)", "U ** 2", "U \\ 2",
                                                    "2 ** 3", "+U", "1..2", "U & V", "~U", "7 \\ 2", "f(1..2)", "?U", "U ++ V", "f(2**3)",
                                                    "f(7\\2)", "X", "f(X)", "f([])"};
                std::string r;
                for (auto x : std::string(forms[s.draw(24)])) {
                    r += x == 'U' ? t(u) : x == 'V' ? t(v) : std::string(1, x);
                }
                // X is an unsafe variable
                return {embed(r), "", "terms"};
            }
            case 9: {
                static char const *const forms[] = {"&diff { E } == K", "&diff { E } K", "&diff E <= K", "&diff { E } <= ", "&diff(1) { E } <= K",
                                                    "&diff(x,y) { E } >= K", "&difff { E } <= K", "&diff { E } <= K <= K", "K <= &diff { E }",
                                                    "&diff [ E ] <= K", "&diff { E } <> K", "&diff { E } =< K", "diff { E } <= K", "&diff { E } <= K, K",
                                                    "&diff \"x\" { E } <= K", "& diff { E <= K"};
                std::string r;
                for (auto x : std::string(forms[s.draw(16)])) {
                    r += x == 'E' ? uv : x == 'K' ? k : std::string(1, x);
                }
                if (r == "&diff { " + uv + " } <= " + k + ", " + k) { r = "&diff { " + uv + " } ==" + k; }
                return {r, "", "syntax"};
            }
            default: {
                static char const *const forms[] = {"{ D }", "D ; z(1)", "z(1) : D", "D : z(0)", "1 { D ; z(1) } 1", "#sum { 1 : D } > 0",
                                                    "-D", "not not not D", "D | D", "(D)"};
                std::string d = "&diff { " + uv + " } " + rel() + " " + k;
                std::string r;
                for (auto x : std::string(forms[s.draw(10)])) { r += x == 'D' ? d : std::string(1, x); }
                return {r, "", "place"};
            }
        }
    }
};

//! A constant expression with its exact value.
struct Const {
    std::string text;
    int prec;
    __int128 value{0};
    __int128 reach{0}; // bound on all intermediate results
    bool undefined{false};
};

__int128 abs128(__int128 x) { return x < 0 ? -x : x; }

Const gen_const(Src &s, int depth) {
    static int64_t const leafs[] = {0, 1, 2, 3, 7, 10, 255, 46340, 46341, 65535, 65536, 1000000, 715827882, 1073741824, 2147483646, 2147483647};
    Const r;
    if (depth == 0 || s.chance(1, 4)) {
        auto k = leafs[s.draw(16)];
        r.text = std::to_string(k);
        r.prec = 3;
        r.value = r.reach = k;
        return r;
    }
    auto par = [](Const const &a, int min) { return a.prec >= min ? a.text : "(" + a.text + ")"; };
    auto a = gen_const(s, depth - 1);
    int op = s.weighted({3, 3, 3, 3, 2});
    if (op == 4) {
        r = a;
        r.text = "-" + par(a, 3);
        r.prec = 2;
        r.value = -a.value;
        return r;
    }
    auto b = gen_const(s, depth - 1);
    r.prec = op < 2 ? 0 : 1;
    r.text = par(a, r.prec) + " " + "+-*/"[op] + " " + par(b, r.prec + 1);
    r.undefined = a.undefined || b.undefined;
    constexpr auto cap = static_cast<__int128>(1) << 60;
    switch (op) {
        case 0:
            r.value = a.value + b.value;
            r.reach = a.reach + b.reach;
            break;
        case 1:
            r.value = a.value - b.value;
            r.reach = a.reach + b.reach;
            break;
        case 2:
            r.value = a.value * b.value;
            r.reach = std::max(std::max(a.reach, b.reach), a.reach * b.reach);
            break;
        default:
            if (b.value == 0) { r.undefined = true; }
            r.value = b.value == 0 ? 0 : a.value / b.value;
            r.reach = std::max(a.reach, b.reach);
    }
    // (keep numbers small enough to compute with)
    if (abs128(r.value) > cap || r.reach > cap) {
        throw Discard("number too large");
    }
    return r;
}

//! Constants close to or beyond the integer range: read correctly or rejected.
void constants(Case &c) {
    auto e = gen_const(c.s, c.s.range(1, 3));
    bool rest = c.s.chance(1, 3);
    auto f = rest ? gen_const(c.s, c.s.range(0, 2)) : Const{"0", 3};
    int rel = static_cast<int>(c.s.draw(6));
    auto value = e.value - f.value;
    auto reach = e.reach + f.reach;
    bool undefined = e.undefined || f.undefined;
    constexpr int64_t safe = 1 << 30;
    auto d = abs128(value) <= safe ? static_cast<int64_t>(value) + c.s.range(-1, 1) : 0;
    std::string text;
    switch (c.s.draw(3)) {
        case 0: text = "&diff { a - b + " + f.text + " } "; break;
        case 1: text = "&diff { (" + f.text + ") - b + a } "; break;
        default: text = "&diff { a + (" + f.text + ") - b } "; break;
    }
    text += std::string(rels[rel]) + " " + e.text;
    auto cfg = gen_config(c.s, {});
    auto prg = "t :- " + text + ".\n&diff { a - b } = " + std::to_string(d) + ".\n";
    c.desc << "options: " << cfg.str() << "\n" << prg;
    c.publish();
    std::string error;
    drive::Solved r;
    try {
        drive::Session s(cfg);
        s.add(prg);
        s.ground();
        r = s.solve();
    } catch (drive::LibError const &x) { error = x.what(); }
    constexpr int64_t max = std::numeric_limits<int>::max();
    if (!error.empty()) {
        PBT_CHECK(c, undefined || reach >= max, "rejected valid constants: " << error);
        c.label("constants rejected");
        c.nontrivial = true;
        return;
    }
    PBT_CHECK(c, !undefined, "accepted undefined arithmetic");
    PBT_CHECK(c, abs128(value) <= max + 1, "accepted bound out of range");
    if (abs128(value) > safe) { throw Discard("bound too large to check"); }
    bool truth = ref::holds({1, 0, static_cast<ref::Rel>(rel == 0 ? ref::LE : rel == 1 ? ref::GE : rel == 2 ? ref::LT : rel == 3 ? ref::GT : rel == 4 ? ref::EQ : ref::NE), static_cast<int64_t>(value)}, d, 0);
    PBT_CHECK(c, r.answers.size() == 1, "exactly one answer expected, got " << r.answers.size());
    PBT_CHECK(c, (r.answers[0].atoms.size() == 1) == truth, "constants misread: the bound is " << static_cast<int64_t>(value));
    c.label("constants accepted");
}

void p12(Case &c) {
    if (c.s.chance(1, 4)) {
        constants(c);
        return;
    }
    bool rdl = c.s.chance(1, 5);
    Params q;
    q.max_vars = 4;
    q.max_choice = 2;
    q.max_defined = 1;
    q.max_body = rdl ? 0 : 2;
    q.strict = !rdl;
    q.max_head = 3;
    q.max_rules = 5;
    auto p = gen_program(c.s, q);
    // all kinds need three variables
    while (p.vars.size() < 4) {
        auto i = std::to_string(p.vars.size());
        p.vars.push_back({"extra(" + i + ")", "extra(" + i + ")"});
    }
    Maker m{c, p, rdl};
    ConfParams cp;
    cp.shift = cp.cc = true;
    auto cfg = gen_config(c.s, cp);
    if (rdl) { cfg.dl.emplace_back("rdl", "yes"); }
    // the control group makes sure that rejection is not caused by something else
    bool control = c.s.chance(1, 5);
    Bad b;
    if (control) {
        auto u = m.var();
        auto v = m.var({u});
        b.atom = m.diff(p.vars[u].text + " - " + p.vars[v].text, std::to_string(c.s.sym(9)));
        b.kind = "control";
    } else {
        b = m.make();
    }
    int place = b.kind == "place" ? c.s.range(0, 1) : b.body_only ? c.s.range(2, 8) : rdl ? c.s.range(0, 1) : c.s.range(0, 8);
    // in real mode constraints in integrity constraints are fine if shifted
    bool shifted = false;
    for (auto const &[k, v] : cfg.dl) { shifted = shifted || (k == "shift-constraints" && v == "yes"); }
    if (shifted && b.body_only && (place == 3 || place == 4 || place == 8)) { place = 2; }
    std::string stm;
    auto const &M = b.atom;
    auto bind = b.bind.empty() ? "" : ", " + b.bind;
    switch (place) {
        case 0: stm = M + (b.bind.empty() ? "" : " :- " + b.bind); break;
        case 1: stm = M + " :- z(0)" + bind; break;
        case 2: stm = "x :- " + M + bind; break;
        case 3: stm = ":- " + M + ", z(0)" + bind; break;
        case 4: stm = ":- z(0), not " + M + bind; break;
        case 5: stm = "x :- not " + M + ", z(0)" + bind; break;
        case 6: stm = "#show x : " + M + bind; break;
        case 7: stm = "{ x : y } :- z(0), not not " + M + bind; break;
        default: stm = ":- " + M + ", z(0), not z(1)" + bind; break;
    }
    stm += ".\n";
    std::ostringstream extra;
    extra << "{ z(0..1) }.\n";
    extra << "y.\n";
    for (auto k : m.g.defs) { extra << "#const c" << Gen::cname(k) << " = " << k << ".\n"; }
    for (auto k : m.g.consts) { extra << "k_" << Gen::cname(k) << "(" << k << ").\n"; }
    extra << "#show x/0.\n";
    bool second = c.s.chance(1, 4);
    if (second) {
        cfg.cl.emplace_back("--eq=0");
        extra << "#program step.\n";
    }
    auto base = p.text() + extra.str();
    c.desc << "options: " << cfg.str() << "\nkind: " << b.kind << "\nstatement: " << stm << base;
    c.publish();
    std::string error;
    size_t seen = 0;
    std::string phase = "create";
    try {
        drive::Session s(cfg);
        if (second) {
            phase = "base";
            s.add(base + stm);
            s.ground();
            s.solve();
            phase = "ground";
            s.ground({{"step", {}}});
        } else {
            phase = "add";
            s.add(stm + base);
            phase = "ground";
            s.ground();
        }
        phase = "solve";
        drive::SolveOpts so;
        so.on_model = [&](drive::Session &, Clingo::Model &, drive::Answer &) { ++seen; };
        s.solve(so);
    } catch (drive::LibError const &e) { error = e.what(); if (error.empty()) { error = "(empty)"; } }
    if (control) {
        PBT_CHECK(c, error.empty(), "error for a well-formed constraint (" << phase << "): " << error);
        c.label("control");
        return;
    }
    PBT_CHECK(c, seen == 0, "answers reported before rejecting " << M);
    if (error.empty()) {
        // the constraint does not reach the theory if the program has no answer already
        PBT_CHECK(c, answers(p).empty(), "accepted malformed constraint: " << M);
        throw Discard("program without answers");
    }
    PBT_CHECK(c, error != "(empty)", "error without message");
    PBT_CHECK(c, error.find("bad allocation") == std::string::npos && error.find("assert") == std::string::npos,
              "internal error: " << error);
    // errors in the base program of two step histories are found while parsing
    c.label(b.kind);
    c.label("rejected in " + phase);
    if (second) { c.label("second step"); }
    c.nontrivial = true;
}
Register r12("P12",
             "Random valid programs with one malformed constraint of a random kind (missing relation, wrong elements, "
             "coefficients, non-linear terms, undefined or overflowing arithmetic, real numbers, strict use in real "
             "mode, wrong terms, syntax) in a random place and step; an error must be reported and no answer. One in "
             "five cases is a control case with a well-formed constraint, which must be accepted. Non-trivial: the "
             "malformed constraint was rejected with an error.",
             p12);

} // namespace
