// P16: coherence of the assignment interface.
#include "history.hh"

using namespace pbt;
using namespace gen;

namespace {

using Clingo::Symbol;

struct Probe {
    Case &c;
    bool solved{false};
    bool rdl{false};
    uint64_t entries{0};
    uint64_t foreign{0};

    //! Symbols that may denote variables of the program.
    static std::set<std::string> possible(Program const &p) {
        std::set<std::string> r;
        for (auto const &v : p.vars) { r.insert(v.sym); }
        return r;
    }

    //! A symbol that is no variable of the program but possibly similar to one.
    Symbol other(Program const &p) {
        auto &s = c.s;
        auto const &v = p.vars[s.draw(static_cast<uint32_t>(p.vars.size()))];
        Symbol base = Clingo::parse_term(v.sym.c_str());
        switch (s.draw(8)) {
            case 0: return Clingo::Number(s.range(1, 5));
            case 1: return Clingo::String(v.sym.c_str());
            case 2: return Clingo::Function("f", {base});
            case 3: return Clingo::Function("", {base});
            case 4:
                if (base.type() == Clingo::SymbolType::Function && base.arguments().empty()) {
                    return Clingo::Function(base.name(), {}, base.is_positive() ? false : true);
                }
                return Clingo::Infimum();
            case 5:
                if (base.type() == Clingo::SymbolType::Function && std::strlen(base.name()) > 0) {
                    std::vector<Symbol> args(base.arguments().begin(), base.arguments().end());
                    args.emplace_back(Clingo::Number(0));
                    return Clingo::Function(base.name(), {args.data(), args.size()});
                }
                return Clingo::Supremum();
            case 6: return Clingo::Function("", Clingo::SymbolSpan{});
            default: return Clingo::Id("unknown");
        }
    }

    //! Iterate over the assignment of a thread checking each entry; entries by name.
    std::map<std::string, std::string> iterate(drive::Session &s, Program const &p, uint32_t thread) {
        auto names = possible(p);
        std::map<std::string, std::string> res;
        auto *t = s.theory();
        size_t index = 0;
        size_t last = 0;
        bool first = true;
        clingodl_assignment_begin(t, thread, &index);
        std::set<size_t> seen;
        while (clingodl_assignment_next(t, thread, &index)) {
            PBT_CHECK(c, first || index != last, "iteration does not advance");
            first = false;
            last = index;
            PBT_CHECK(c, seen.insert(index).second, "index " << index << " is visited twice");
            PBT_CHECK(c, clingodl_assignment_has_value(t, thread, index), "visited index " << index << " has no value");
            Symbol sym{clingodl_get_symbol(t, index)};
            auto name = sym.to_string();
            PBT_CHECK(c, names.count(name) != 0 && name != "0", "value reported for " << name << ", which is no variable");
            size_t found = 0;
            PBT_CHECK(c, clingodl_lookup_symbol(t, sym.to_c(), &found), "visited variable " << name << " is not found");
            PBT_CHECK(c, found == index, "variable " << name << " has index " << index << " but is found at " << found);
            clingodl_value_t a{};
            clingodl_value_t b{};
            clingodl_assignment_get_value(t, thread, index, &a);
            clingodl_assignment_get_value(t, thread, found, &b);
            PBT_CHECK(c, a.type == (rdl ? clingodl_value_type_double : clingodl_value_type_int), "value of wrong type");
            PBT_CHECK(c, drive::value_str(a) == drive::value_str(b), "values of " << name << " differ when read twice");
            PBT_CHECK(c, res.emplace(name, drive::value_str(a)).second, "variable " << name << " is visited twice");
            PBT_CHECK(c, seen.size() < 1000, "iteration does not end");
            ++entries;
        }
        PBT_CHECK(c, !clingodl_assignment_has_value(t, thread, index), "iteration ends at an index that has a value");
        return res;
    }

    //! Check the interface for a thread; returns the assignment.
    std::map<std::string, std::string> check(drive::Session &s, Program const &p, uint32_t thread) {
        auto *t = s.theory();
        auto res = iterate(s, p, thread);
        // lookup of the variables
        std::map<size_t, std::string> by_index;
        for (auto const &v : p.vars) {
            Symbol sym = Clingo::parse_term(v.sym.c_str());
            size_t index = 0;
            bool found = clingodl_lookup_symbol(t, sym.to_c(), &index);
            PBT_CHECK(c, found || res.count(v.sym) == 0, "variable " << v.sym << " has a value but is not found");
            bool has = clingodl_assignment_has_value(t, thread, index);
            PBT_CHECK(c, has == (res.count(v.sym) != 0),
                      "variable " << v.sym << (has ? " has a value but is not visited" : " is visited but has no value"));
            if (found) {
                PBT_CHECK(c, Symbol{clingodl_get_symbol(t, index)} == sym,
                          "index of " << v.sym << " has symbol " << Symbol{clingodl_get_symbol(t, index)});
                PBT_CHECK(c, by_index.emplace(index, v.sym).second, "two variables share index " << index);
            }
        }
        // lookup of other symbols
        auto names = possible(p);
        int n = c.s.range(1, 3);
        for (int i = 0; i < n; ++i) {
            Symbol sym = other(p);
            if (names.count(sym.to_string()) != 0) { continue; }
            size_t index = 0;
            PBT_CHECK(c, !clingodl_lookup_symbol(t, sym.to_c(), &index), "symbol " << sym << " is found but no variable");
            PBT_CHECK(c, !clingodl_assignment_has_value(t, thread, index), "symbol " << sym << " is not found but has a value");
            ++foreign;
        }
        // indices without symbols
        for (size_t index : {size_t(100000), size_t(1) << 31}) {
            PBT_CHECK(c, !clingodl_assignment_has_value(t, thread, index), "index " << index << " has a value");
        }
        return res;
    }
};

void p16(Case &c) {
    ConfParams cp;
    cp.cc = cp.shift = true;
    int threads = c.s.weighted({3, 1, 1}) + 1;
    cp.threads = threads;
    auto cfg = gen_config(c.s, cp);
    Probe pr{c};
    pr.rdl = c.s.chance(1, 4);
    if (pr.rdl) { cfg.dl.emplace_back("rdl", "yes"); }
    int unsat = 0;
    int unsolved = 0;
    uint64_t answers = 0;
    history::Options o;
    o.rich = true;
    o.max_threads = threads;
    o.compare = o.strict = !pr.rdl;

    o.probe = [&](drive::Session &s, history::History const &h) {
        for (uint32_t t : {0u, static_cast<uint32_t>(c.s.range(1, 4)), 63u}) {
            auto r = pr.check(s, h.prg, t);
            if (!pr.solved) {
                PBT_CHECK(c, r.empty(), "a variable has a value before solving");
                ++unsolved;
            }
        }
    };
    o.before_solve = [&](drive::Session &, history::History const &) { pr.solved = true; };
    o.after_solve = [&](drive::Session &, history::History const &, drive::Solved const &r) {
        if (r.unsat) { ++unsat; }
    };
    o.on_model = [&](drive::Session &s, history::History const &h, Clingo::Model &, drive::Answer &a) {
        auto r = pr.check(s, h.prg, a.thread);
        PBT_CHECK(c, r == a.api, "assignment differs when read twice");
        auto show = [](std::map<std::string, std::string> const &m) {
            std::string x;
            for (auto const &[k, v] : m) { x += " " + k + "=" + v; }
            return x;
        };
        PBT_CHECK(c, r == a.dl, "assignment interface and dl terms differ:" << show(r) << " and" << show(a.dl));
        ++answers;
    };
    history::HistoryStats st;
    history::run(c, cfg, o, st);
    c.label("answers", answers);
    c.label("values", pr.entries);
    c.label("other symbols", pr.foreign);
    c.label("probes before solving", unsolved);
    if (unsat > 0) { c.label("with unsatisfiable calls"); }
    if (pr.rdl) { c.label("real values"); }
    c.nontrivial = answers > 1 && pr.entries > 1;
}
Register r16("P16",
             "Random multi-shot histories with one to three threads; before solving, between calls, for each answer, and "
             "after unsatisfiable calls the whole assignment interface is exercised (iteration, lookup of variables and "
             "of similar symbols, reading back, unknown threads and indices) and compared with itself and the dl terms "
             "of the answer. Non-trivial: several answers with values.",
             p16);

} // namespace
