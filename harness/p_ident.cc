// P21: identity of variables.
#include "gen.hh"
#include <algorithm>
#include <cmath>

using namespace pbt;
using Clingo::Symbol;

namespace {

//! A term together with the symbol it evaluates to.
struct Term {
    std::string text;
    Symbol sym;
    bool real{false}; // has arithmetic over real numbers (which the grounder does not evaluate)
};

std::string escape(std::string const &s) {
    std::string r = "\"";
    for (auto ch : s) {
        switch (ch) {
            case '\n': r += "\\n"; break;
            case '"': r += "\\\""; break;
            case '\\': r += "\\\\"; break;
            default: r += ch;
        }
    }
    return r + "\"";
}

struct TermGen {
    Src &s;
    bool exact{false}; // no truncation
    bool negate{true};
    int budget{12};
    bool real{false}; // use arithmetic over real numbers
    bool made_real{false};

    //! Value of a number or of a string denoting one.
    static double value(Symbol x) {
        return x.type() == Clingo::SymbolType::Number ? x.number() : std::strtod(x.string(), nullptr);
    }
    //! Arithmetic over real numbers whose values have at most six decimals (only below the top level).
    //! The result is an integer only if integers are combined to an integer.
    Term realnum(int depth) {
        if (depth <= 0 || s.chance(1, 3)) {
            if (s.chance(1, 2)) {
                int k = s.range(0, 4);
                return {std::to_string(k), Clingo::Number(k), true};
            }
            static std::vector<std::string> const strs{"0.5", "1.5", "-0.25", "2", "1e1", "-1.5", "0.125", "0", "-3"};
            auto t = s.pick(strs);
            return {"\"" + t + "\"", Clingo::String(t.c_str()), true};
        }
        auto a = realnum(depth - 1);
        auto b = realnum(depth - 1);
        double x = value(a.sym);
        double y = value(b.sym);
        int op = s.draw(4);
        if (op == 3 && y == 0) { op = 0; }
        double r = op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y;
        if (std::abs(r) > 1000 || std::round(r * 4096) != r * 4096 || std::abs(std::round(r * 1e6) - r * 1e6) > 1e-9) {
            op = 0;
            r = x + y;
        }
        Term t;
        t.text = "(" + a.text + "+-*/"[op] + b.text + ")";
        t.real = true;
        if (a.sym.type() == Clingo::SymbolType::Number && b.sym.type() == Clingo::SymbolType::Number && std::trunc(r) == r) {
            t.sym = Clingo::Number(static_cast<int>(r));
        } else {
            t.sym = Clingo::String(std::to_string(r + 0.0).c_str());
        }
        return t;
    }
    //! Term below the top level.
    Term argument(int depth) {
        if (!real || !s.chance(1, 3)) { return any(depth); }
        return realnum(2);
    }

    Term number(int depth) {
        int k = s.sym(4);
        if (s.chance(1, 12)) { k = s.pick(std::vector<int>{2147483647, -2147483647, 100, -1000, 65536}); }
        return spell(k, depth);
    }
    //! Spell a number.
    Term spell(int k, int depth) {
        Term r;
        r.sym = Clingo::Number(k);
        if (std::abs(static_cast<int64_t>(k)) > 100000 || depth <= 0 || --budget < 0 || s.chance(2, 3)) {
            if (k >= 0 && s.chance(1, 10)) {
                std::ostringstream o;
                o << "0x" << std::hex << k;
                r.text = o.str();
            } else {
                r.text = std::to_string(k);
            }
            if (s.chance(1, 10)) { r.text = "(" + r.text + ")"; }
            return r;
        }
        switch (s.draw(5)) {
            case 0: {
                int a = s.sym(5);
                r.text = "(" + spell(k - a, depth - 1).text + " + " + spell(a, depth - 1).text + ")";
                break;
            }
            case 1: {
                int a = s.sym(5);
                r.text = "(" + spell(k + a, depth - 1).text + " - " + paren(spell(a, depth - 1).text) + ")";
                break;
            }
            case 2: {
                std::vector<int> divs{1, -1};
                for (int d = 2; d <= 5; ++d) {
                    if (k % d == 0) { divs.push_back(d); }
                }
                int d = s.pick(divs);
                r.text = "(" + spell(k / d, depth - 1).text + " * " + paren(spell(d, depth - 1).text) + ")";
                break;
            }
            case 3: {
                // division of integers truncates
                int d = s.range(1, 4);
                int rem = exact ? 0 : k > 0 ? s.range(0, d - 1) : k < 0 ? -s.range(0, d - 1) : s.range(-(d - 1), d - 1);
                r.text = "(" + paren(spell(k * d + rem, depth - 1).text) + " / " + paren(spell(d, depth - 1).text) + ")";
                break;
            }
            default: r.text = "-(" + spell(-k, depth - 1).text + ")"; break;
        }
        return r;
    }
    static std::string paren(std::string const &t) { return t[0] == '-' ? "(" + t + ")" : t; }

    Term string() {
        static std::vector<std::string> const bits{"a", "1", "\"", "\\", "\n", " ", "\xc3\xbc", "'", "x", "n", ".", "(", "-"};
        std::string c;
        int n = s.range(0, 3);
        for (int i = 0; i < n; ++i) { c += s.pick(bits); }
        return {escape(c), Clingo::String(c.c_str())};
    }
    std::string name() {
        return s.pick(std::vector<std::string>{"x", "y", "f", "g", "x'", "_x", "x1", "xY", "xx", "_", "notx", "dl"});
    }
    //! Arbitrary term.
    Term any(int depth) {
        switch (s.weighted({4, 4, 2, 1, 1, 5})) {
            case 0: return number(depth);
            case 1: return constant();
            case 2: return string();
            case 3: return {"#inf", Clingo::Infimum()};
            case 4: return {"#sup", Clingo::Supremum()};
            default: return depth > 0 && --budget > 0 ? compound(depth) : constant();
        }
    }
    Term constant() {
        auto n = name();
        if (n == "_") { n = "z"; }
        return maybe_negate({n, Clingo::Function(n.c_str(), {})});
    }
    Term maybe_negate(Term t) {
        if (!negate || !s.chance(1, 5)) { return t; }
        int n = s.chance(1, 4) ? 2 : 1;
        for (int i = 0; i < n; ++i) {
            t.text = "-" + paren(t.text);
            t.sym = Clingo::Function(t.sym.name(), t.sym.arguments(), t.sym.is_negative());
        }
        return t;
    }
    Term compound(int depth) {
        bool tuple = s.chance(1, 3);
        int n = tuple ? s.range(0, 3) : s.range(1, 3);
        std::vector<Symbol> args;
        std::string text;
        bool rl = false;
        for (int i = 0; i < n; ++i) {
            auto a = argument(depth - 1);
            text += (i > 0 ? "," : "") + a.text;
            args.push_back(a.sym);
            rl = rl || a.real;
        }
        if (tuple) { return {"(" + text + (n == 1 ? ",)" : ")"), Clingo::Function("", args), rl}; }
        auto f = name();
        if (f == "_") { f = "z"; }
        return maybe_negate({f + "(" + text + ")", Clingo::Function(f.c_str(), args), rl});
    }
    //! Another spelling of a symbol.
    Term respell(Symbol x, int depth) {
        switch (x.type()) {
            case Clingo::SymbolType::Number: return spell(x.number(), depth);
            case Clingo::SymbolType::Infimum: return {"#inf", x};
            case Clingo::SymbolType::Supremum: return {"#sup", x};
            case Clingo::SymbolType::String: {
                std::string str = x.string();
                auto v = std::strtod(str.c_str(), nullptr);
                if (real && std::abs(v) < 1000 && str == std::to_string(v) && s.chance(1, 2)) {
                    // result of a computation
                    made_real = true;
                    int k = s.range(0, 4);
                    auto t = s.chance(1, 2) ? std::to_string(v + k) : std::to_string(v + k) + "e0";
                    return {"(\"" + t + "\"-" + std::to_string(k) + ")", x};
                }
                return {escape(str), x};
            }
            default: break;
        }
        std::string text;
        auto args = x.arguments();
        for (size_t i = 0; i < args.size(); ++i) { text += (i > 0 ? "," : "") + respell(args[i], depth).text; }
        std::string nm = x.name();
        if (nm.empty()) { return {"(" + text + (args.size() == 1 ? ",)" : ")"), x}; }
        auto t = nm + (args.empty() ? "" : "(" + text + ")");
        if (x.is_negative()) { return {"-" + t, x}; }
        if (s.chance(1, 8)) { t = "-(-" + t + ")"; }
        return {t, x};
    }
    //! A symbol that differs slightly.
    Symbol vary(Symbol x) {
        switch (x.type()) {
            case Clingo::SymbolType::Number:
                switch (s.draw(4)) {
                    case 0: return Clingo::Number(x.number() == 2147483647 ? 0 : x.number() + 1);
                    case 1: return Clingo::Number(-x.number());
                    case 2: return Clingo::String(std::to_string(x.number()).c_str());
                    default: return Clingo::Function("", {x});
                }
            case Clingo::SymbolType::Infimum: return Clingo::Supremum();
            case Clingo::SymbolType::Supremum: return Clingo::String("#sup");
            case Clingo::SymbolType::String:
                switch (s.draw(3)) {
                    case 0: return Clingo::String((std::string(x.string()) + " ").c_str());
                    case 1: return Clingo::String(escape(x.string()).c_str());
                    default: return Clingo::Function("x", {});
                }
            default: break;
        }
        auto as = x.arguments();
        std::vector<Symbol> args(as.begin(), as.end());
        std::string nm = x.name();
        switch (s.draw(args.empty() ? 4 : 8)) {
            case 0:
                if (!nm.empty()) { return Clingo::Function(nm.c_str(), args, x.is_negative()); }
                return Clingo::Function("f", args);
            case 1: return Clingo::Function((nm + "x").c_str(), args);
            case 2: args.push_back(Clingo::Number(0)); return Clingo::Function(nm.c_str(), args);
            case 3:
                if (args.empty() && !nm.empty()) { return Clingo::String(nm.c_str()); }
                return Clingo::Function(nm.c_str(), {Clingo::Function("", args)});
            case 4: args.pop_back(); return Clingo::Function(nm.c_str(), args);
            case 5: std::reverse(args.begin(), args.end()); return Clingo::Function(nm.c_str(), args, nm.empty() || x.is_positive());
            default: {
                auto &a = args[s.draw(static_cast<uint32_t>(args.size()))];
                a = vary(a);
                return Clingo::Function(nm.c_str(), args, nm.empty() || x.is_positive());
            }
        }
    }
};

//! Number denoted by a term at the top level.
bool is_number(Symbol x, int64_t &k) {
    if (x.type() == Clingo::SymbolType::Number) {
        k = x.number();
        return true;
    }
    return false;
}

//! Whether the string would be read as a number (these are not used at the top level).
bool numeric_string(Symbol x) {
    if (x.type() != Clingo::SymbolType::String) { return false; }
    char *end = nullptr;
    std::string str = x.string();
    std::strtod(str.c_str(), &end);
    return end != str.c_str() && *end == '\0';
}

//! Strings that start with a number are rejected or denote something else in some places.
bool usable(Symbol x) {
    if (x.type() != Clingo::SymbolType::String) { return true; }
    return !numeric_string(x);
}

struct Occ {
    Term term;
    int64_t k{0};    // value required
    int form{0};
    int via{0};      // 0: written directly, 1: bound in the body, 2: parameter of a program
    int step{0};
    bool constant{false};
    int64_t c{0};    // value of constants
    int co{1};       // coefficient
    Symbol var;
};

void p21(Case &c) {
    int n = c.s.range(2, 5);
    bool rdl = c.s.chance(1, 4);
    std::vector<Occ> occs;
    std::set<Symbol> vars;
    int steps = c.s.chance(1, 3) ? 2 : 1;
    for (int i = 0; i < n; ++i) {
        Occ o;
        TermGen g{c.s, rdl};
        g.real = rdl && c.s.chance(1, 2);
        for (int tries = 0;; ++tries) {
            g.budget = 12;
            g.made_real = false;
            if (i > 0 && c.s.chance(2, 3)) {
                // relate to a previous one
                auto x = occs[c.s.draw(static_cast<uint32_t>(occs.size()))].term.sym;
                if (c.s.chance(1, 2)) { x = g.vary(x); }
                o.term = g.respell(x, 3);
                o.term.real = g.made_real;
            } else {
                o.term = g.any(3);
            }
            if (usable(o.term.sym)) { break; }
            if (tries > 5) {
                o.term = {"x", Clingo::Function("x", {})};
                break;
            }
        }
        auto x = o.term.sym;
        o.constant = is_number(x, o.c);
        o.var = x;
        if (x.type() == Clingo::SymbolType::Function && std::string(x.name()) != "" && x.is_negative()) {
            o.co = -1;
            o.var = Clingo::Function(x.name(), x.arguments());
        }
        o.k = o.constant && c.s.chance(1, 2) ? o.c : i + 1;
        if (std::abs(o.k) > 100000) { o.k = i + 1; }
        if (o.constant && std::abs(o.c) > 100000) {
            // (sums would overflow)
            o.c = i;
            o.term = {std::to_string(i), Clingo::Number(i)};
        }
        o.form = c.s.draw(8);
        o.via = c.s.weighted({5, 2, 1});
        if (o.term.real) {
            o.via = o.via == 1 ? 0 : o.via;
            c.label("arithmetic over real numbers in arguments");
        }
        o.step = c.s.range(0, steps - 1);
        // (strings among the terms bound in bodies are printed by the grounder)
        occs.push_back(o);
        if (!o.constant) { vars.insert(o.var); }
    }
    drive::Config cfg = gen::gen_config(c.s, [] {
        gen::ConfParams p;
        p.cc = p.shift = true;
        return p;
    }());
    // see p_shots.cc
    cfg.cl.emplace_back("--eq=0");
    if (rdl) { cfg.dl.emplace_back("rdl", "yes"); }
    c.desc << "options: " << cfg.str() << "\n";
    std::vector<std::string> texts(steps);
    std::vector<std::vector<std::pair<std::string, std::vector<Symbol>>>> parts(steps);
    for (int st = 0; st < steps; ++st) {
        texts[st] = "#program base" + std::to_string(st) + ".\n";
        parts[st].push_back({"base" + std::to_string(st), {}});
    }
    for (int i = 0; i < n; ++i) {
        auto const &o = occs[i];
        auto name = std::to_string(i);
        auto t = o.term.text;
        std::string bind, pre, post;
        if (o.via == 1) {
            bind = ", X = " + t;
            t = "X";
        } else if (o.via == 2) {
            // parameters of programs given through the interface
            pre = "#program part" + name + "(par).\n";
            post = "#program base" + std::to_string(o.step) + ".\n";
            t = "par";
            parts[o.step].push_back({"part" + name, {o.term.sym}});
        }
        auto k = std::to_string(o.k);
        auto p = "p(" + name + ")";
        std::string r = "{ " + p + " }.\n";
        // (body constraints require integers)
        auto form = rdl ? o.form % 5 : o.form;
        switch (form) {
            case 0: r += "&diff { " + t + " } = " + k + " :- " + p + bind + ".\n"; break;
            case 1: r += "&diff { 0 } = " + k + " - (" + t + ") :- " + p + bind + ".\n"; break;
            case 2: r += "&diff { " + k + " } = " + t + " :- " + p + bind + ".\n"; break;
            case 3: r += "&diff { 2*(" + t + ") - " + k + " } = (" + t + ") :- " + p + bind + ".\n"; break;
            case 4:
                r += "&diff { " + t + " - 0 } <= " + k + " :- " + p + bind + ".\n";
                r += "&diff { (" + t + ") } >= 0 + " + k + " :- " + p + bind + ".\n";
                break;
            case 5: r += ":- " + p + ", &diff { " + t + " } != " + k + bind + ".\n"; break;
            case 6:
                r += ":- " + p + ", &diff { " + t + " } > " + k + bind + ".\n";
                r += ":- " + p + ", not &diff { 0 } <= (" + t + ") - " + k + bind + ".\n";
                break;
            default:
                r += ":- " + p + ", &diff { " + t + " } < " + k + bind + ".\n";
                r += "&diff { " + t + " } <= " + k + " :- " + p + bind + ".\n";
                break;
        }
        texts[o.step] += pre + r + post;
        if (o.via == 2) { c.desc << "par of part" << name << ": " << o.term.sym << "\n"; }
    }
    for (int st = 0; st < steps; ++st) { c.desc << "-- step " << st + 1 << "\n" << texts[st]; }
    for (int i = 0; i < n; ++i) { c.desc << "% " << occs[i].term.text << " is " << occs[i].term.sym << "\n"; }
    c.publish();

    drive::Session s(cfg);
    TermGen g{c.s};
    std::set<Symbol> sofar;
    uint64_t answers = 0;
    uint64_t shared = 0;
    for (int st = 0; st < steps; ++st) {
        std::vector<int> live;
        for (int i = 0; i < n; ++i) {
            if (occs[i].step <= st) { live.push_back(i); }
        }
        sofar.clear();
        for (auto i : live) {
            if (!occs[i].constant) { sofar.insert(occs[i].var); }
        }
        std::set<std::string> expect;
        for (uint32_t m = 0; m < (1u << live.size()); ++m) {
            std::map<Symbol, int64_t> val;
            bool ok = true;
            std::string key;
            for (size_t j = 0; j < live.size(); ++j) {
                if ((m & (1u << j)) == 0) { continue; }
                auto const &o = occs[live[j]];
                key += " p(" + std::to_string(live[j]) + ")";
                if (o.constant) { ok = ok && o.c == o.k; }
                else {
                    auto r = val.emplace(o.var, o.co * o.k);
                    ok = ok && r.first->second == o.co * o.k;
                }
            }
            if (ok) { expect.insert(key); }
        }
        std::vector<Symbol> misses;
        for (auto const &x : sofar) {
            auto y = g.vary(x);
            if (sofar.count(y) == 0 && y.type() != Clingo::SymbolType::Number) { misses.push_back(y); }
        }
        std::set<std::string> seen;
        drive::SolveOpts opts;
        opts.on_model = [&](drive::Session &, Clingo::Model &m, drive::Answer &) {
            std::string key;
            std::map<Symbol, int64_t> val;
            for (size_t j = 0; j < live.size(); ++j) {
                auto name = "p(" + std::to_string(live[j]) + ")";
                if (!m.contains(Clingo::parse_term(name.c_str()))) { continue; }
                key += " " + name;
                auto const &o = occs[live[j]];
                if (!o.constant) { val[o.var] = o.co * o.k; }
            }
            PBT_CHECK(c, expect.count(key) != 0, "unexpected answer:" << key);
            seen.insert(key);
            auto number = [&](clingodl_value_t const &v) {
                if (v.type == clingodl_value_type_int) { return static_cast<double>(v.int_number); }
                if (v.type == clingodl_value_type_double) { return v.double_number; }
                throw Failure("value is no number");
            };
            // the assignment interface
            std::map<Symbol, double> got;
            size_t idx = 0;
            auto thread = m.thread_id();
            for (clingodl_assignment_begin(s.theory(), thread, &idx); clingodl_assignment_next(s.theory(), thread, &idx);) {
                Symbol x{clingodl_get_symbol(s.theory(), idx)};
                clingodl_value_t v;
                clingodl_assignment_get_value(s.theory(), thread, idx, &v);
                PBT_CHECK(c, got.emplace(x, number(v)).second, "variable " << x << " occurs twice in the assignment");
                PBT_CHECK(c, sofar.count(x) != 0, "unknown variable " << x << " in the assignment");
            }
            for (auto const &x : sofar) {
                size_t i = 0;
                PBT_CHECK(c, clingodl_lookup_symbol(s.theory(), x.to_c(), &i), "variable " << x << " is not found");
                PBT_CHECK(c, Symbol{clingodl_get_symbol(s.theory(), i)} == x, "variable " << x << " is found as another symbol");
                PBT_CHECK(c, val.count(x) == 0 || got.count(x) != 0, "variable " << x << " is not in the assignment");
            }
            for (auto const &x : misses) {
                size_t i = 0;
                PBT_CHECK(c, !clingodl_lookup_symbol(s.theory(), x.to_c(), &i), "symbol " << x << " is found but is no variable");
            }
            for (auto const &[x, v] : val) {
                PBT_CHECK(c, std::abs(got[x] - static_cast<double>(v)) < 1e-6, "variable " << x << " has value " << got[x] << " instead of " << v);
            }
            // dl terms
            std::set<Symbol> shown;
            for (auto const &x : m.symbols(Clingo::ShowType::Theory)) {
                PBT_CHECK(c, x.match("dl", 2), "symbol " << x << " is shown");
                auto y = x.arguments()[0];
                PBT_CHECK(c, shown.insert(y).second, "two values shown for " << y);
                PBT_CHECK(c, sofar.count(y) != 0, "value for unknown variable " << y << " is shown");
            }
            PBT_CHECK(c, shown.size() == got.size(), "values for " << shown.size() << " variables are shown instead of " << got.size());
            ++answers;
        };
        try {
            s.add(texts[st]);
            s.ground(parts[st]);
            s.solve(opts);
        } catch (drive::LibError const &e) { c.fail(std::string("error in a valid program: ") + e.what()); }
        for (auto const &e : expect) { PBT_CHECK(c, seen.count(e) != 0, "answer missing:" << (e.empty() ? " (empty)" : e)); }
        size_t occ = 0;
        for (auto i : live) { occ += occs[i].constant ? 0 : 1; }
        shared += occ > sofar.size() ? 1 : 0;
    }
    c.label("answers", answers);
    c.label("variables", vars.size());
    if (shared > 0) { c.label("with variables spelled in several places"); }
    if (rdl) { c.label("real numbers"); }
    if (steps > 1) { c.label("several steps"); }
    for (auto const &o : occs) {
        if (o.constant) { c.label("constants"); }
        if (o.co < 0) { c.label("negated variables"); }
        if (o.via > 0) { c.label(o.via == 1 ? "bound in bodies" : "parameters"); }
    }
    c.nontrivial = shared > 0 || vars.size() > 1;
}
Register r21("P21",
             "Two to five occurrences of random ground terms (names, numbers spelled with arithmetic, strings with "
             "escapes, tuples, functions, signs, #inf/#sup), many equal or nearly equal to a previous one, written "
             "directly, bound in bodies, or passed as program parameters, in one or two steps, each fixed to some value "
             "under a choice; the answers tell which occurrences share a variable, symbols and values are read through "
             "the interface. Non-trivial: more than one variable or a variable occurring several times.",
             p21);

} // namespace
