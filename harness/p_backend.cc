// P24: constraints added through clingo's backend.
#include "expr.hh"
#include <cctype>
#include <limits>

using namespace pbt;
using namespace gen;
using namespace expr;

namespace {

using ref::Con;

//! A theory term as accepted by the backend.
struct Term {
    enum Kind { Num, Name, Fun, Tuple, Sym } kind{Num};
    int num{0};
    std::string name{}; // name, quoted string, name of a function or operator, or symbol
    std::vector<Term> args{};

    static Term number(int64_t n) { return {Num, static_cast<int>(n)}; }
    static Term fun(std::string name, std::vector<Term> args) { return {Fun, 0, std::move(name), std::move(args)}; }

    std::string str() const {
        if (kind == Num) { return std::to_string(num); }
        if (kind == Name || kind == Sym) { return name; }
        std::string r = name + "(";
        for (size_t i = 0; i < args.size(); ++i) { r += (i > 0 ? "," : "") + args[i].str(); }
        return r + (kind == Tuple && args.size() == 1 ? ",)" : ")");
    }
};

//! Parser for the terms written by the generators.
struct Parser {
    std::string const &t;
    size_t i{0};

    void skip() {
        while (i < t.size() && t[i] == ' ') { ++i; }
    }
    bool eat(char x) {
        skip();
        if (i < t.size() && t[i] == x) {
            ++i;
            return true;
        }
        return false;
    }
    Term sum() {
        auto r = product();
        for (;;) {
            if (eat('+')) { r = Term::fun("+", {r, product()}); }
            else if (eat('-')) { r = Term::fun("-", {r, product()}); }
            else { return r; }
        }
    }
    Term product() {
        auto r = unary();
        for (;;) {
            if (eat('*')) { r = Term::fun("*", {r, unary()}); }
            else if (eat('/')) { r = Term::fun("/", {r, unary()}); }
            else { return r; }
        }
    }
    Term unary() {
        if (eat('-')) { return Term::fun("-", {unary()}); }
        return atomic();
    }
    //! Arguments up to a closing parenthesis.
    std::vector<Term> list(bool &comma) {
        std::vector<Term> r;
        comma = false;
        while (!eat(')')) {
            r.emplace_back(sum());
            if (eat(',')) { comma = true; }
        }
        return r;
    }
    Term atomic() {
        bool comma = false;
        if (eat('(')) {
            auto l = list(comma);
            if (l.size() == 1 && !comma) { return l.front(); }
            // (the backend of clingo does not get sequences right)
            return {Term::Sym, 0, Term{Term::Tuple, 0, "", l}.str()};
        }
        skip();
        auto b = i;
        if (i >= t.size()) { throw std::logic_error("term expected: " + t); }
        if (t[i] == '"') {
            for (++i; t[i] != '"'; ++i) {
                if (t[i] == '\\') { ++i; }
            }
            ++i;
            return {Term::Name, 0, t.substr(b, i - b)};
        }
        while (i < t.size() && (std::isalnum(static_cast<unsigned char>(t[i])) != 0 || t[i] == '_')) { ++i; }
        if (b == i) { throw std::logic_error("unexpected character in " + t.substr(i)); }
        auto n = t.substr(b, i - b);
        if (std::isdigit(static_cast<unsigned char>(n[0])) != 0) { return Term::number(std::stoi(n)); }
        if (eat('(')) { return Term::fun(n, list(comma)); }
        return {Term::Name, 0, n};
    }
};

bool arithmetic(Term const &t) {
    return t.kind == Term::Fun && (t.name == "+" || t.name == "-" || t.name == "*" || t.name == "/");
}

//! Replace numbers in arguments by expressions with operators missing in the grammar for program text.
void operators(Case &c, Term &t, bool inside) {
    auto &s = c.s;
    for (auto &x : t.args) { operators(c, x, inside || !arithmetic(t)); }
    if (!inside || t.kind != Term::Num || t.num < 0 || !s.chance(1, 3)) {
        if (!inside && s.chance(1, 24)) {
            t = Term::fun("+", {t});
            c.label("unary plus");
        }
        return;
    }
    auto k = t.num;
    switch (s.draw(4)) {
        case 0: {
            auto m = k + s.range(1, 9);
            t = Term::fun("\\", {Term::number(k + m * s.range(0, 3)), Term::number(m)});
            break;
        }
        case 1: {
            // remainder of a negative number
            auto m = k + s.range(1, 9);
            t = Term::fun("-", {Term::fun("\\", {Term::number(-k - m * s.range(0, 3)), Term::number(m)})});
            break;
        }
        case 2: t = Term::fun("**", {Term::number(k), Term::number(1)}); break;
        default: {
            if (k == 1) { t = Term::fun("**", {Term::number(s.range(1, 9)), Term::number(0)}); }
            else if (k == 4) { t = Term::fun("**", {Term::number(s.chance(1, 2) ? 2 : -2), Term::number(2)}); }
            else if (k == 8) { t = Term::fun("-", {Term::fun("**", {Term::number(-2), Term::number(3)})}); }
            else if (k == 9) { t = Term::fun("**", {Term::number(-3), Term::number(2)}); }
            else { t = Term::fun("-", {Term::fun("**", {Term::number(3), Term::number(3)}), Term::number(27 - k)}); }
        }
    }
    c.label("further operators");
}

enum Kind { Choice, Fact, Defined, Free };

struct BRule {
    int head; // -1 for integrity constraints
    std::vector<std::pair<int, bool>> body;
    int step;
};

struct BCon {
    Con con;
    bool head{true};
    int atom{0};
    int step{0};
    Term lhs;
    Term rhs;
};

struct BProg {
    std::vector<Var> vars;
    std::vector<Kind> atoms;
    std::vector<int> added; // step
    std::vector<BRule> rules;
    std::vector<BCon> cons;

    std::string str() const {
        static char const *kinds[] = {"choice", "fact", "defined", "free"};
        std::ostringstream o;
        for (size_t i = 0; i < atoms.size(); ++i) { o << "step " << added[i] << ": " << kinds[atoms[i]] << " a(" << i << ")\n"; }
        for (auto const &r : rules) {
            o << "step " << r.step << ": ";
            if (r.head >= 0) { o << "a(" << r.head << ")"; }
            o << " :-";
            for (auto const &[a, s] : r.body) { o << (s ? " " : " not ") << "a(" << a << ")"; }
            o << "\n";
        }
        for (auto const &x : cons) {
            o << "step " << x.step << ": a(" << x.atom << (x.head ? ") -> " : ") <-> ") << x.lhs.str() << " " << ref::rel_str(x.con.rel)
              << " " << x.rhs.str() << "\n";
        }
        return o.str();
    }
    //! Constraints that have to hold.
    std::vector<Con> active(std::vector<bool> const &val, int step) const {
        std::vector<Con> r;
        for (auto const &x : cons) {
            if (x.step > step) { continue; }
            if (val[x.atom]) { r.push_back(x.con); }
            else if (!x.head) {
                auto k = x.con;
                k.rel = ref::negate(k.rel);
                r.push_back(k);
            }
        }
        return r;
    }
    static std::string key(std::vector<bool> const &val) {
        std::set<std::string> r;
        for (size_t i = 0; i < val.size(); ++i) {
            if (val[i]) { r.insert("a(" + std::to_string(i) + ")"); }
        }
        std::string o;
        for (auto const &x : r) { o += (o.empty() ? "" : " ") + x; }
        return o;
    }
    std::map<std::string, std::vector<bool>> answers(int step) const {
        std::map<std::string, std::vector<bool>> res;
        std::vector<size_t> open;
        for (size_t i = 0; i < atoms.size(); ++i) {
            if (added[i] <= step && (atoms[i] == Choice || atoms[i] == Free)) { open.push_back(i); }
        }
        for (uint64_t m = 0; m < (1ull << open.size()); ++m) {
            std::vector<bool> val(atoms.size(), false);
            for (size_t i = 0; i < open.size(); ++i) { val[open[i]] = ((m >> i) & 1) != 0; }
            bool ok = true;
            for (size_t i = 0; i < atoms.size(); ++i) {
                if (atoms[i] == Fact && added[i] <= step) { val[i] = true; }
            }
            // (rules are ordered and bodies refer to smaller atoms only)
            for (auto const &r : rules) {
                if (r.step > step) { continue; }
                bool b = std::all_of(r.body.begin(), r.body.end(), [&](auto const &l) { return val[l.first] == l.second; });
                if (b && r.head < 0) { ok = false; }
                if (b && r.head >= 0) { val[r.head] = true; }
            }
            if (ok && ref::satisfiable(static_cast<int>(vars.size()), active(val, step))) { res.emplace(key(val), val); }
        }
        return res;
    }
};

//! Adds a program through the backend.
struct Adder {
    Case &c;
    BProg const &p;
    std::vector<Clingo::atom_t> ids{};

    Clingo::id_t term(Clingo::Backend &b, Term const &t) {
        std::vector<Clingo::id_t> args;
        for (auto const &x : t.args) { args.push_back(term(b, x)); }
        switch (t.kind) {
            case Term::Num: return b.add_theory_term_number(t.num);
            case Term::Name: {
                if (t.name[0] != '"' && c.s.chance(1, 4)) { return b.add_theory_term_symbol(Clingo::Id(t.name.c_str())); }
                return b.add_theory_term_string(t.name.c_str());
            }
            case Term::Fun: return b.add_theory_term_function(t.name.c_str(), {args.data(), args.size()});
            case Term::Sym: return b.add_theory_term_symbol(Clingo::parse_term(t.name.c_str()));
            default: throw std::logic_error("unexpected term");
        }
    }

    void constraint(Clingo::Backend &b, BCon const &x) {
        Clingo::id_t l[] = {term(b, x.lhs)};
        Clingo::id_t e[] = {b.add_theory_element({l, 1}, {})};
        auto n = b.add_theory_term_string(x.head ? "__diff_h" : "__diff_b");
        b.theory_atom(ids[x.atom], n, {e, 1}, ref::rel_str(x.con.rel), term(b, x.rhs));
    }

    void step(Clingo::Backend &b, int step) {
        for (size_t i = ids.size(); i < p.atoms.size() && p.added[i] <= step; ++i) {
            ids.push_back(b.add_atom(Clingo::Function("a", {Clingo::Number(static_cast<int>(i))})));
            Clingo::atom_t h[] = {ids.back()};
            if (p.atoms[i] == Choice) { b.rule(true, {h, 1}, {}); }
            if (p.atoms[i] == Fact) { b.rule(false, {h, 1}, {}); }
        }
        bool late = c.s.chance(1, 2);
        for (int k = 0; k < 2; ++k) {
            if ((k == 0) == late) {
                for (auto const &r : p.rules) {
                    if (r.step != step) { continue; }
                    std::vector<Clingo::literal_t> body;
                    for (auto const &[a, s] : r.body) {
                        auto l = static_cast<Clingo::literal_t>(ids[a]);
                        body.push_back(s ? l : -l);
                    }
                    std::vector<Clingo::atom_t> head;
                    if (r.head >= 0) { head.push_back(ids[r.head]); }
                    b.rule(false, {head.data(), head.size()}, {body.data(), body.size()});
                }
            } else {
                for (auto const &x : p.cons) {
                    if (x.step == step) { constraint(b, x); }
                }
            }
        }
    }
};

BProg gen_backend(Case &c, int steps) {
    auto &s = c.s;
    BProg p;
    int nvars = s.range(2, 4);
    p.vars = gen_vars(s, nvars, true);
    Gen g{s, p.vars};
    g.plain = true;
    if (c.s.chance(1, 6)) { g.big = c.s.chance(1, 2) ? 1 << 26 : 70000; }
    std::set<std::string> seen;
    for (int step = 0; step < steps; ++step) {
        int n = s.range(1, steps > 1 ? 4 : 7);
        std::vector<int> fresh;
        for (int i = 0; i < n; ++i) {
            p.atoms.push_back(static_cast<Kind>(s.weighted({8, 1, 3, 4})));
            p.added.push_back(step);
            fresh.push_back(static_cast<int>(p.atoms.size()) - 1);
        }
        auto body = [&](int limit) {
            std::vector<std::pair<int, bool>> r;
            int k = s.range(1, 2);
            for (int i = 0; i < k && limit > 0; ++i) { r.emplace_back(s.range(0, limit - 1), s.chance(1, 2)); }
            return r;
        };
        for (auto a : fresh) {
            if (p.atoms[a] != Defined) { continue; }
            int k = s.range(1, 2); // (without rules, atoms of constraints are free)
            for (int i = 0; i < k; ++i) { p.rules.push_back({a, body(a), step}); }
        }
        if (s.chance(1, 4)) { p.rules.push_back({-1, body(static_cast<int>(p.atoms.size())), step}); }
        int m = s.range(step == 0 ? 2 : 1, 6);
        std::vector<bool> used(p.atoms.size(), false);
        auto add = [&](int atom) {
            BCon x;
            x.con = gen_con(s, nvars, 4, true);
            x.step = step;
            x.atom = atom;
            // (the solver drops constraints whose atom is defined but found to be false)
            x.head = (p.atoms[atom] != Free && p.atoms[atom] != Fact) || !s.chance(2, 3);
            auto con = x.con;
            auto rhs = g.random();
            Form d;
            d.co.assign(p.vars.size(), 0);
            if (con.u != 0) { d.co[con.u] += 1; }
            if (con.v != 0) { d.co[con.v] -= 1; }
            d.k = -con.k;
            auto lhs = expr::add(rhs, d);
            g.budget = s.range(0, 6);
            auto l = g.form(lhs).t;
            auto r = g.form(rhs).t;
            x.lhs = Parser{l}.sum();
            x.rhs = Parser{r}.sum();
            operators(c, x.lhs, false);
            operators(c, x.rhs, false);
            // (the backend of clingo ignores a further atom for the same constraint)
            auto key = (x.head ? "h" : "b") + x.lhs.str() + ref::rel_str(x.con.rel) + x.rhs.str();
            if (!seen.insert(key).second) { return; }
            used[atom] = true;
            p.cons.push_back(x);
        };
        for (int i = 0; i < m; ++i) { add(s.range(0, static_cast<int>(p.atoms.size()) - 1)); }
        // atoms without rules are free only if they occur in constraints
        for (auto a : fresh) {
            if (p.atoms[a] == Free && !used[a]) { add(a); }
            if (p.atoms[a] == Free && !used[a]) { p.atoms[a] = Choice; }
        }
    }
    return p;
}

//! Terms without value.
Term undefined(Case &c) {
    auto n = [](int64_t k) { return Term::number(k); };
    Term x{Term::Name, 0, "x"};
    Term q{Term::Name, 0, "\"q\""};
    constexpr int max = std::numeric_limits<int>::max();
    auto k = c.s.range(-3, 3);
    auto add = [](Term a, Term b) { return Term::fun("+", {std::move(a), std::move(b)}); };
    auto sub = [](Term a, Term b) { return Term::fun("-", {std::move(a), std::move(b)}); };
    auto mul = [](Term a, Term b) { return Term::fun("*", {std::move(a), std::move(b)}); };
    switch (c.s.draw(16)) {
        case 0: return Term::fun("\\", {n(k), n(0)});
        case 1: return Term::fun("/", {n(k), n(0)});
        case 2: return add(n(max), n(c.s.range(1, 9)));
        case 3: return sub(n(-max), n(c.s.range(2, 9)));
        case 4: return mul(n(65536), n(c.s.chance(1, 2) ? 32768 : -65536));
        case 5: return Term::fun("**", {n(c.s.chance(1, 2) ? 10 : -11), n(c.s.range(10, 40))});
        case 6: return add(x, n(1));
        case 7: return mul(n(2), q);
        case 8: return Term::fun("-", {q});
        case 9: return Term::fun("..", {n(1), n(2)});
        case 10: return Term::fun("-", {Term{Term::Sym, 0, "(1,2)"}});
        case 11: return Term::fun("\\", {x, n(2)});
        case 12: return sub(Term::fun("f", {n(1)}), n(k));
        case 13: return Term::fun("-", {sub(n(-max), n(1))});
        case 14: return Term::fun("/", {sub(n(-max), n(1)), n(-1)});
        default: return Term::fun("\\", {sub(n(-max), n(1)), n(-1)});
    }
}

void p24(Case &c) {
    int steps = c.s.chance(1, 3) ? 2 : 1;
    auto p = gen_backend(c, steps);
    // (initialization stops at conflicts)
    bool bad = c.s.chance(1, 12) && !p.answers(steps - 1).empty();
    if (bad) {
        BCon x;
        x.atom = static_cast<int>(p.atoms.size());
        x.step = steps - 1;
        p.atoms.push_back(Fact);
        p.added.push_back(x.step);
        auto v = Term::fun("f", {undefined(c)});
        if (c.s.chance(1, 3)) { v = Term::fun("g", {Term::number(1), v}); }
        x.lhs = v;
        switch (c.s.draw(4)) {
            case 0: x.lhs = Term::fun("-", {v, v}); break;
            case 1: x.lhs = Term::fun("*", {v, Term::number(0)}); break;
            case 2: std::swap(x.lhs, x.rhs); break;
            default: break;
        }
        p.cons.push_back(x);
        c.label("term without value");
    }
    ConfParams cp;
    cp.cc = true;
    auto cfg = gen_config(c.s, cp);
    if (steps > 1) { cfg.cl.emplace_back("--eq=0"); }
    c.desc << "options: " << cfg.str() << "\n" << p.str();
    c.publish();
    try {
        drive::Session session(cfg);
        Adder adder{c, p};
        for (int step = 0; step < steps; ++step) {
            if (step == 0 && c.s.chance(1, 2)) { session.ground(); }
            drive::lib([&]() {
                session.ctl().with_backend([&](Clingo::Backend &b) { adder.step(b, step); });
                drive::check_ret(clingodl_prepare(session.theory(), session.ctl().to_c()));
            });
            drive::SolveOpts opts;
            // (shown atoms are determined by the grounder, which does not take part here)
            opts.on_model = [&](drive::Session &, Clingo::Model &m, drive::Answer &a) {
                a.atoms.clear();
                for (size_t i = 0; i < adder.ids.size(); ++i) {
                    auto sym = Clingo::Function("a", {Clingo::Number(static_cast<int>(i))});
                    if (m.contains(sym)) { a.atoms.push_back(sym.to_string()); }
                }
                std::sort(a.atoms.begin(), a.atoms.end());
            };
            auto r = session.solve(opts);
            PBT_CHECK(c, !bad || step + 1 < steps, "a term without value is not rejected");
            auto expect = p.answers(step);
            std::string at = "step " + std::to_string(step) + ": ";
            std::set<std::string> got;
            // (disequalities are decided, which can give several answers with the same atoms)
            std::set<std::string> full;
            for (auto const &a : r.answers) {
                auto key = a.atoms_str();
                got.insert(key);
                PBT_CHECK(c, full.insert(a.str()).second, at << "answer reported twice: " << a.str());
                auto it = expect.find(key);
                PBT_CHECK(c, it != expect.end(), at << "answer invented: " << a.str());
                PBT_CHECK(c, a.dl == a.api, at << "assignment interface and dl terms differ: " << a.str());
                for (auto const &k : p.active(it->second, step)) {
                    if (k.u == k.v) { continue; }
                    auto get = [&](int v) -> int64_t {
                        if (v == 0) { return 0; }
                        auto jt = a.dl.find(p.vars[v].sym);
                        PBT_CHECK(c, jt != a.dl.end(), at << "no value for " << p.vars[v].sym << ": " << a.str());
                        return std::strtoll(jt->second.c_str(), nullptr, 10);
                    };
                    PBT_CHECK(c, ref::holds(k, get(k.u), get(k.v)),
                              at << "violated: " << p.vars[k.u].sym << "-" << p.vars[k.v].sym << " " << ref::rel_str(k.rel) << " " << k.k
                                 << ": " << a.str());
                }
                for (auto const &[name, value] : a.dl) {
                    PBT_CHECK(c,
                              std::any_of(p.vars.begin() + 1, p.vars.end(), [&n = name](Var const &v) { return v.sym == n; }),
                              at << "value for something that is no variable: " << a.str());
                }
            }
            for (auto const &[key, val] : expect) { PBT_CHECK(c, got.count(key) != 0, at << "answer lost: {" << key << "}"); }
            c.label("answers", r.answers.size());
            if (r.answers.size() > 1) { c.nontrivial = true; }
        }
        PBT_CHECK(c, !bad, "a term without value is not rejected");
    } catch (drive::LibError const &e) {
        if (!bad) { c.fail(std::string("error on valid constraints: ") + e.what()); }
        c.nontrivial = true;
    }
    if (steps > 1) { c.label("two steps"); }
    std::map<int, int> uses;
    for (auto const &x : p.cons) { ++uses[x.atom]; }
    if (std::any_of(uses.begin(), uses.end(), [](auto const &x) { return x.second > 1; })) { c.label("atom shared by constraints"); }
}
Register r24("P24",
             "Random programs (choices, facts, defined and undefined atoms, integrity constraints, one or two steps) built "
             "through clingo's backend; constraints with random expression trees attached to arbitrary atoms, several "
             "constraints per atom, arguments computed with all operators; answers and values against a brute-force "
             "reference. Non-trivial: some step has more than one answer.",
             p24);

} // namespace
