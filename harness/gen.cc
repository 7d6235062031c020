#include "gen.hh"

#include <algorithm>
#include <cstdlib>

namespace gen {

using namespace ref;

namespace {
std::string num(int64_t k) { return std::to_string(k); }
std::string par(int64_t k) { return k < 0 ? "(" + num(k) + ")" : num(k); }
} // namespace

std::vector<Var> gen_vars(pbt::Src &s, int n, bool rich) {
    std::vector<Var> vars;
    vars.push_back({"0", "0"});
    int style = s.weighted({6, 2, 2, 2, rich ? 2 : 0});
    for (int i = 1; i <= n; ++i) {
        std::string id = std::to_string(i);
        switch (style) {
            case 0: {
                std::string x = i <= 26 ? std::string(1, static_cast<char>('a' + i - 1)) : "n" + id;
                vars.push_back({x, x});
                break;
            }
            case 1: vars.push_back({"s(" + id + ")", "s(" + id + ")"}); break;
            case 2: vars.push_back({"(t," + id + ")", "(t," + id + ")"}); break;
            case 4: {
                switch (i % 5) {
                    case 0: vars.push_back({"f(\"x y\"," + id + ")", "f(\"x y\"," + id + ")"}); break;
                    case 1: vars.push_back({"f(-" + id + ")", "f(-" + id + ")"}); break;
                    case 2: vars.push_back({"\"v \\\"" + id + "\"", "\"v \\\"" + id + "\""}); break;
                    case 3: vars.push_back({"g(-x,(" + id + ",))", "g(-x,(" + id + ",))"}); break;
                    default: vars.push_back({"f(" + id + "-4+4*2)", "f(" + std::to_string(i + 4) + ")"}); break;
                }
                break;
            }
            default: {
                std::string x = i % 3 == 0 ? "e(f(" + id + "),x)" : i % 3 == 1 ? "v" + id : "s(" + id + ",y)";
                vars.push_back({x, x});
            }
        }
    }
    return vars;
}

Con gen_con(pbt::Src &s, int nvars, int weight, bool ne, bool big) {
    Con c;
    c.u = s.range(0, nvars);
    c.v = s.range(0, nvars);
    if (c.u == c.v && s.chance(15, 16)) { c.v = (c.u + 1 + s.range(0, nvars - 1)) % (nvars + 1); }
    c.rel = static_cast<Rel>(s.weighted({6, 3, 2, 2, 2, ne ? 2 : 0}));
    c.k = s.sym(weight);
    if (big && s.chance(1, 6)) {
        static int const mags[] = {1000, 1000000, 100000000};
        c.k *= mags[s.draw(3)];
    }
    return c;
}

std::string spell(pbt::Src &s, std::vector<Var> const &vars, Con const &c0, bool simple) {
    Con c = c0;
    int form = simple ? 0 : s.weighted({8, 2, 2, 2, 2, 2, 2, 2});
    // optionally swap the sides
    if (!simple && s.chance(1, 4)) {
        std::swap(c.u, c.v);
        c.rel = flip(c.rel);
        c.k = -c.k;
    }
    std::string u = vars[c.u].text;
    std::string v = vars[c.v].text;
    std::string r = std::string(" ") + rel_str(c.rel) + " ";
    auto wrap = [&](std::string const &e, std::string const &rel, std::string const &g) {
        return "&diff { " + e + " }" + rel + g;
    };
    switch (form) {
        case 1: return wrap(u, r, v + " + " + par(c.k));
        case 2: return wrap(u + " - " + v + " - " + par(c.k), r, "0");
        case 3: return wrap("-" + v + " + " + u, r, num(c.k));
        case 4: {
            int64_t d = s.sym(3);
            return wrap(num(d) + " + " + u + " - " + v, r, num(c.k + d));
        }
        case 5: {
            // drop zeros where possible
            if (c.v == 0) { return wrap(u, r, num(c.k)); }
            if (c.u == 0) { return wrap("-" + v, r, num(c.k)); }
            return wrap("2*" + u + " - " + v, r, u + " + " + par(c.k));
        }
        case 6: return wrap("(" + u + " - " + v + ")*1", r, num(c.k) + " + 0");
        case 7: return wrap("-(" + v + " - " + u + ")", r, num(c.k));
        default: return wrap(u + " - " + v, r, num(c.k));
    }
}

void relax(pbt::Src &s, Con &c, std::vector<int> const &hidden, int slack) {
    if (c.u == c.v) { return; }
    if (c.rel == NE && !s.chance(1, 6)) { c.rel = LE; }
    auto d = static_cast<int64_t>(hidden[c.u]) - hidden[c.v];
    auto x = s.range(0, slack);
    if (s.chance(1, 20)) { return; }
    switch (c.rel) {
        case LE: c.k = d + x; break;
        case LT: c.k = d + x + 1; break;
        case GE: c.k = d - x; break;
        case GT: c.k = d - x - 1; break;
        case EQ: c.k = d; break;
        default: c.k = d + x + 1; break;
    }
}

void widen(pbt::Src &s, Params &q) {
    q.min_vars = 10;
    q.max_vars = 45;
    q.min_head = 20;
    q.max_head = 110;
    q.max_choice = 5;
    q.max_body = 2;
    q.max_rules = q.max_head + 6;
    q.weight = s.chance(1, 2) ? 50 : 1000;
    q.big = false;
    q.slack = s.pick(std::vector<int>{0, 3, 20});
}

Program gen_program(pbt::Src &s, Params const &q) {
    Program p;
    int nv = s.range(q.min_vars, q.max_vars);
    p.vars = gen_vars(s, nv, q.rich);
    std::vector<int> hidden;
    if (q.slack >= 0) {
        hidden.push_back(0);
        for (int i = 0; i < nv; ++i) { hidden.push_back(s.sym(q.weight)); }
    }
    auto con = [&](bool ne) {
        auto c = gen_con(s, nv, q.weight, ne, q.big);
        if (q.slack >= 0) { relax(s, c, hidden, q.slack); }
        return c;
    };
    int nc = s.range(1, q.max_choice);
    int nd = s.range(0, q.max_defined);
    p.natoms = nc + nd;
    p.choice.assign(static_cast<size_t>(p.natoms), false);
    // the first atoms are choices
    for (int i = 0; i < nc; ++i) { p.choice[i] = true; }
    int nb = q.strict ? s.range(0, q.max_body) : 0;
    int nh = s.range(q.min_head, q.max_head);
    for (int i = 0; i < nb; ++i) {
        TCon t;
        t.con = con(true);
        t.text = spell(s, p.vars, t.con);
        t.show = !q.hide || !s.chance(1, 3);
        t.term = s.chance(1, 6);
        p.body.push_back(t);
    }
    for (int i = 0; i < nh; ++i) {
        TCon t;
        t.con = con(q.ne);
        t.text = spell(s, p.vars, t.con);
        p.head.push_back(t);
    }
    auto gen_body = [&](int upto, int maxlen) {
        std::vector<Lit> body;
        int n = s.range(0, maxlen);
        for (int i = 0; i < n; ++i) {
            Lit l;
            int total = upto + nb;
            if (total == 0) { break; }
            int j = s.range(0, total - 1);
            l.theory = j >= upto;
            l.idx = l.theory ? j - upto : j;
            l.sign = s.weighted({5, 3, 1});
            body.push_back(l);
        }
        return body;
    };
    // every head constraint is derived by some rule
    for (int i = 0; i < nh; ++i) {
        Rule r;
        r.head = Rule::Theory;
        r.idx = i;
        r.body = gen_body(p.natoms, 2);
        if (r.body.empty() && s.chance(2, 3)) {
            Lit l;
            l.idx = s.range(0, nc - 1);
            l.sign = s.weighted({5, 3});
            r.body.push_back(l);
        }
        p.rules.push_back(r);
    }
    // defined atoms
    for (int i = nc; i < p.natoms; ++i) {
        int k = s.range(1, 2);
        for (int j = 0; j < k; ++j) {
            Rule r;
            r.head = Rule::Atom;
            r.idx = i;
            r.body = gen_body(i, 2);
            p.rules.push_back(r);
        }
    }
    int extra = s.range(0, std::max(0, q.max_rules - nh));
    for (int i = 0; i < extra; ++i) {
        Rule r;
        if (s.chance(1, 2)) {
            r.head = Rule::Theory;
            r.idx = s.range(0, nh - 1);
            r.body = gen_body(p.natoms, 3);
        } else {
            r.head = Rule::Integrity;
            r.body = gen_body(p.natoms, 3);
            if (r.body.size() < 2) { continue; }
        }
        p.rules.push_back(r);
    }
    return p;
}

std::string Program::text() const {
    std::ostringstream o;
    auto lit = [&](Lit const &l) {
        std::string r = l.sign == 1 ? "not " : l.sign == 2 ? "not not " : "";
        return r + (l.theory ? body[l.idx].text : "a(" + std::to_string(l.idx) + ")");
    };
    for (int i = 0; i < natoms; ++i) {
        if (choice[i]) { o << "{ a(" << i << ") }.\n"; }
    }
    for (auto const &r : rules) {
        if (r.head == Rule::Atom) {
            o << "a(" << r.idx << ")";
        } else if (r.head == Rule::Theory) {
            o << head[r.idx].text;
        }
        std::vector<std::string> lits;
        for (auto const &l : r.body) {
            lits.emplace_back(lit(l));
            if (l.theory && !body[l.idx].bind.empty()) { lits.emplace_back(body[l.idx].bind); }
        }
        for (size_t i = 0; i < r.noise.size(); ++i) { lits.insert(lits.begin() + static_cast<long>((i * 2) % (lits.size() + 1)), r.noise[i]); }
        if (r.head == Rule::Theory && !head[r.idx].bind.empty()) { lits.emplace_back(head[r.idx].bind); }
        if (!lits.empty() || r.head == Rule::Integrity) {
            if (r.head == Rule::Integrity && !r.guise.empty()) { o << r.guise << " "; }
            o << (r.head == Rule::Integrity ? ":- " : " :- ");
            bool first = true;
            char const *sep = ", ";
            for (auto const &l : lits) {
                o << (first ? "" : sep) << l;
                sep = l.find(" : ") != std::string::npos ? "; " : ", ";
                first = false;
            }
        }
        o << ".\n";
    }
    for (size_t i = 0; i < body.size(); ++i) {
        if (body[i].show && body[i].term) {
            o << "#show t(" << i << ") : " << body[i].text << (body[i].bind.empty() ? "" : ", ") << body[i].bind << ".\n";
        } else if (body[i].show) { o << "t(" << i << ") :- " << body[i].text << (body[i].bind.empty() ? "" : ", ") << body[i].bind << ".\n"; }
    }
    o << extra;
    o << "#show a/1.\n#show t/1.\n";
    return o.str();
}

std::string RefAnswer::key() const {
    std::string r;
    for (auto const &a : shown) { r += (r.empty() ? "" : " ") + a; }
    return r;
}

bool evaluate(Program const &p, uint64_t choices, uint64_t truths, RefAnswer &out) {
    out.atoms.assign(static_cast<size_t>(p.natoms), false);
    out.truth.assign(p.body.size(), false);
    out.active.assign(p.head.size(), false);
    for (size_t i = 0; i < p.body.size(); ++i) { out.truth[i] = ((truths >> i) & 1) != 0; }
    auto holds_body = [&](Rule const &r) {
        return std::all_of(r.body.begin(), r.body.end(), [&](Lit const &l) {
            bool v = l.theory ? out.truth[l.idx] : out.atoms[l.idx];
            return l.sign == 1 ? !v : v;
        });
    };
    int ci = 0;
    for (int i = 0; i < p.natoms; ++i) {
        if (p.choice[i]) {
            out.atoms[i] = ((choices >> ci) & 1) != 0;
            ++ci;
        }
        // rules for an atom only refer to earlier atoms
        for (auto const &r : p.rules) {
            if (r.head == Rule::Atom && r.idx == i && holds_body(r)) { out.atoms[i] = true; }
        }
    }
    for (auto const &r : p.rules) {
        if (r.head == Rule::Integrity && holds_body(r)) { return false; }
        if (r.head == Rule::Theory && holds_body(r)) { out.active[r.idx] = true; }
    }
    out.shown.clear();
    for (int i = 0; i < p.natoms; ++i) {
        if (out.atoms[i]) { out.shown.emplace_back("a(" + std::to_string(i) + ")"); }
    }
    for (size_t i = 0; i < p.body.size(); ++i) {
        if (p.body[i].show && out.truth[i]) { out.shown.emplace_back("t(" + std::to_string(i) + ")"); }
    }
    std::sort(out.shown.begin(), out.shown.end());
    return true;
}

std::vector<Con> constraints(Program const &p, RefAnswer const &a) {
    std::vector<Con> cons;
    for (size_t i = 0; i < p.head.size(); ++i) {
        if (a.active[i]) { cons.push_back(p.head[i].con); }
    }
    for (size_t i = 0; i < p.body.size(); ++i) {
        auto c = p.body[i].con;
        if (!a.truth[i]) { c.rel = negate(c.rel); }
        cons.push_back(c);
    }
    return cons;
}

std::vector<RefAnswer> answers(Program const &p) {
    std::vector<RefAnswer> res;
    auto nc = static_cast<int>(std::count(p.choice.begin(), p.choice.end(), true));
    int nb = static_cast<int>(p.body.size());
    if (nc + nb > 16) { throw pbt::Discard("too many candidates"); }
    for (uint64_t t = 0; t < (1ull << nb); ++t) {
        // prune inconsistent truth values early
        std::vector<Con> cons;
        for (int i = 0; i < nb; ++i) {
            auto c = p.body[i].con;
            if (((t >> i) & 1) == 0) { c.rel = negate(c.rel); }
            cons.push_back(c);
        }
        if (!satisfiable(static_cast<int>(p.vars.size()), cons)) { continue; }
        for (uint64_t ch = 0; ch < (1ull << nc); ++ch) {
            RefAnswer a;
            if (!evaluate(p, ch, t, a)) { continue; }
            if (satisfiable(static_cast<int>(p.vars.size()), constraints(p, a))) { res.push_back(std::move(a)); }
        }
    }
    return res;
}

drive::Config gen_config(pbt::Src &s, ConfParams const &p) {
    drive::Config c;
    static std::vector<std::string> const modes{"no", "inverse", "partial", "partial+", "zero", "full"};
    static std::vector<std::string> const sorts{"no", "weight", "weight-reversed", "potential", "potential-reversed"};
    static std::vector<std::string> const decs{"no", "min", "max"};
    static std::vector<std::string> const roots{"1", "2", "3", "100"};
    static std::vector<std::string> const budgets{"1", "10", "100", "100000"};
    static std::vector<std::string> const mutexes{"2", "3", "4", "2,5", "3,30", "5,1000"};
    c.dl.emplace_back("propagate", s.pick(modes));
    if (s.chance(1, 4)) { c.dl.emplace_back("propagate-root", s.pick(roots)); }
    if (s.chance(1, 4)) { c.dl.emplace_back("propagate-budget", s.pick(budgets)); }
    if (s.chance(1, 4)) { c.dl.emplace_back("add-mutexes", s.pick(mutexes)); }
    if (s.chance(1, 3)) { c.dl.emplace_back("sort-edges", s.pick(sorts)); }
    if (s.chance(1, 4)) { c.dl.emplace_back("dl-heuristic", s.pick(decs)); }
    if (p.cc && s.chance(1, 3)) { c.dl.emplace_back("compute-components", "no"); }
    if (p.shift && s.chance(1, 3)) { c.dl.emplace_back("shift-constraints", "yes"); }
    for (int t = 0; p.threads > 1 && t < p.threads; ++t) {
        auto ts = "," + std::to_string(t);
        if (s.chance(1, 3)) { c.dl.emplace_back("propagate", s.pick(modes) + ts); }
        if (s.chance(1, 6)) { c.dl.emplace_back("propagate-root", s.pick(roots) + ts); }
        if (s.chance(1, 6)) { c.dl.emplace_back("propagate-budget", s.pick(budgets) + ts); }
        if (s.chance(1, 6)) { c.dl.emplace_back("sort-edges", s.pick(sorts) + ts); }
    }
    c.cl.emplace_back("0");
    if (p.search) {
        static std::vector<std::string> const confs{"frumpy", "jumpy", "tweety", "handy", "crafty", "trendy"};
        static std::vector<std::string> const heus{"Berkmin", "Vsids", "Vmtf", "Unit", "None"};
        if (s.chance(1, 4)) {
            c.cl.emplace_back("--configuration=" + s.pick(confs));
            // Note: clingo 5.6.2 crashes with option backprop (also without any theory)
            // (part of configurations crafty and handy)
            c.cl.emplace_back("--no-backprop");
        }
        if (s.chance(1, 4)) { c.cl.emplace_back("--heuristic=" + s.pick(heus)); }
        if (s.chance(1, 3)) {
            c.cl.emplace_back("--rand-freq=0." + std::to_string(s.range(1, 9)));
            c.cl.emplace_back("--seed=" + std::to_string(s.range(1, 1000)));
        }
        if (s.chance(1, 6)) { c.cl.emplace_back("--sign-def=" + std::string(s.chance(1, 2) ? "pos" : "rnd")); }
        if (s.chance(1, 8)) { c.cl.emplace_back("--restarts=F,2"); }
        if (s.chance(1, 8)) { c.cl.emplace_back("--enum-mode=record"); }
    }
    if (p.threads > 1) {
        c.cl.emplace_back("-t" + std::to_string(p.threads) + (s.chance(1, 2) ? ",split" : ",compete"));
    }
    return c;
}

std::optional<int64_t> least(Program const &p, std::vector<ref::Con> cons, int v) {
    auto n = static_cast<int>(p.vars.size());
    int64_t total = 1;
    for (auto const &c : cons) { total += std::abs(c.k) + 2; }
    cons.push_back({v, 0, ref::LE, -total});
    if (ref::satisfiable(n, cons)) { return std::nullopt; }
    int64_t lo = -total, hi = total;
    // invariant: bound lo is unsatisfiable, bound hi satisfiable
    cons.back().k = hi;
    if (!ref::satisfiable(n, cons)) {
        // the variable is bounded from below only by values beyond the sum of all weights
        throw pbt::Failure("reference: bound on values is wrong");
    }
    while (hi - lo > 1) {
        auto mid = lo + (hi - lo) / 2;
        cons.back().k = mid;
        if (ref::satisfiable(n, cons)) { hi = mid; }
        else { lo = mid; }
    }
    return hi;
}

void check_witness(pbt::Case &c, Program const &p, drive::Answer const &a) {
    std::set<std::string> shown(a.atoms.begin(), a.atoms.end());
    PBT_CHECK(c, shown.size() == a.atoms.size(), "atom reported twice: " << a.str());
    uint64_t ch = 0;
    uint64_t tr = 0;
    int ci = 0;
    for (int i = 0; i < p.natoms; ++i) {
        if (p.choice[i]) {
            if (shown.count("a(" + std::to_string(i) + ")") != 0) { ch |= 1ull << ci; }
            ++ci;
        }
    }
    for (size_t i = 0; i < p.body.size(); ++i) {
        if (shown.count("t(" + std::to_string(i) + ")") != 0) { tr |= 1ull << i; }
    }
    RefAnswer r;
    PBT_CHECK(c, evaluate(p, ch, tr, r), "answer violates an integrity constraint: " << a.str());
    PBT_CHECK(c, r.key() == a.atoms_str(), "atoms do not follow from the program: " << a.str() << " expected " << r.key());
    std::vector<int64_t> val(p.vars.size(), 0);
    std::vector<bool> has(p.vars.size(), false);
    has[0] = true;
    size_t n = 0;
    for (size_t i = 1; i < p.vars.size(); ++i) {
        auto it = a.dl.find(p.vars[i].sym);
        if (it != a.dl.end()) {
            has[i] = true;
            ++n;
            char *end = nullptr;
            val[i] = std::strtoll(it->second.c_str(), &end, 10);
            PBT_CHECK(c, *end == '\0' && !it->second.empty(), "value is no integer: " << a.str());
        }
    }
    PBT_CHECK(c, n == a.dl.size(), "a value is reported for something that is no variable: " << a.str());
    auto check = [&](Con const &con, std::string const &text, bool truth) {
        auto k = con;
        if (!truth) { k.rel = negate(k.rel); }
        if (k.u == k.v) {
            PBT_CHECK(c, holds(k, 0, 0), "constraint " << text << " should be " << truth << ": " << a.str());
            return;
        }
        PBT_CHECK(c, has[k.u] && has[k.v], "no value for a variable in " << text << ": " << a.str());
        PBT_CHECK(c, holds(k, val[k.u], val[k.v]), "constraint " << text << " should be " << truth << ": " << a.str());
    };
    for (size_t i = 0; i < p.head.size(); ++i) {
        if (r.active[i]) { check(p.head[i].con, p.head[i].text, true); }
    }
    for (size_t i = 0; i < p.body.size(); ++i) {
        if (p.body[i].show) { check(p.body[i].con, p.body[i].text, r.truth[i]); }
    }
    PBT_CHECK(c, a.dl == a.api, "assignment interface and dl terms differ: " << a.str());
}

} // namespace gen
