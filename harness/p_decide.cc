// P25: the decision heuristic of the theory.
#include "net.hh"
#include "observe.hh"
#include <algorithm>
#include <array>

using namespace pbt;
using namespace observe;

namespace {

//! What happens to constraints if a literal becomes true, judged by the current values of their variables.
enum State { None, Satisfied, Violated, Unknown };

struct Decision {
    uint32_t thread;
    literal_t fallback;
    literal_t result;
    State pos; // constraints of the literal proposed by the solver
    State neg; // constraints of its complement
    std::string info;
};

void p25(Case &c) {
    int limit = 0;
    auto q = net::net_params(c, limit);
    auto n = net::gen_net(c.s, q);
    int threads = c.s.weighted({5, 1, 1, 1}) + 1;
    gen::ConfParams cp;
    cp.cc = true;
    cp.threads = threads;
    auto cfg = gen::gen_config(c.s, cp);
    cfg.dl.erase(std::remove_if(cfg.dl.begin(), cfg.dl.end(), [](auto const &x) { return x.first == "dl-heuristic"; }),
                 cfg.dl.end());
    int mode = c.s.weighted({1, 5, 5, 1}); // 0: no, 1: min, 2: max, 3: not set
    static std::array<char const *, 4> const modes{"no", "min", "max", "no"};
    if (mode < 3) { cfg.dl.emplace_back("dl-heuristic", modes[mode]); }
    bool active = mode == 1 || mode == 2;
    bool rnd = std::any_of(cfg.cl.begin(), cfg.cl.end(), [](auto const &x) { return x.rfind("--rand-freq", 0) == 0; });
    cfg.cl.emplace_back("--solve-limit=200");
    cfg.cl.emplace_back("--stats=2");
    c.desc << "options: " << cfg.str() << "\n" << n.text;
    c.publish();
    Observer obs;
    clingodl_theory_t *theory = nullptr;
    std::string failure;
    uint64_t calls = 0;
    uint64_t forced = 0;
    uint64_t flipped = 0;
    uint64_t kept = 0;
    uint64_t plain = 0;
    auto value = [&](uint32_t thread, int node, int64_t &val) {
        val = 0;
        if (node == 0) { return true; }
        size_t index = 0;
        auto sym = Clingo::parse_term(obs.net.names[node].c_str());
        if (!clingodl_lookup_symbol(theory, sym.to_c(), &index)) { return false; }
        if (!clingodl_assignment_has_value(theory, thread, index)) { return false; }
        clingodl_value_t v{};
        clingodl_assignment_get_value(theory, thread, index, &v);
        val = v.int_number;
        return v.type == clingodl_value_type_int;
    };
    auto state = [&](uint32_t thread, literal_t lit, std::ostream &o) {
        bool any = false;
        bool sat = true;
        bool viol = true;
        for (auto const &e : obs.net.edges) {
            if (e.lit != lit) { continue; }
            int64_t u = 0;
            int64_t v = 0;
            if (!value(thread, e.u, u) || !value(thread, e.v, v)) { return Unknown; }
            any = true;
            bool holds = u - v <= e.w;
            sat = sat && holds;
            viol = viol && !holds;
            o << " " << obs.net.names[e.u] << "-" << obs.net.names[e.v] << "<=" << e.w << " (" << u << "-" << v << ")";
        }
        return !any ? None : sat ? Satisfied : viol ? Violated : Unknown;
    };
    drive::Hooks hooks;
    hooks.on_decide = [&](clingo_id_t thread, literal_t fallback, literal_t result) {
        if (!failure.empty() || !obs.net.exact) { return; }
        ++calls;
        std::ostringstream o;
        o << "thread " << thread << " proposed " << fallback << " decided " << result << "; constraints added if true:";
        auto pos = state(thread, fallback, o);
        o << "; constraints added if false:";
        auto neg = state(thread, -fallback, o);
        if (result != fallback && result != -fallback) {
            failure = "decision is about another literal: " + o.str();
            return;
        }
        if (!active) {
            if (result != fallback) { failure = "decision changed without heuristic: " + o.str(); }
            return;
        }
        if (pos == None && neg == None) {
            ++plain;
            if (result != fallback) { failure = "decision about a literal without constraint changed: " + o.str(); }
            return;
        }
        if (pos == Unknown || neg == Unknown) { return; }
        if ((pos == Violated) == (neg == Violated)) { return; }
        ++forced;
        auto bad = pos == Violated ? fallback : -fallback;
        auto expected = mode == 1 ? -bad : bad;
        ++(expected == fallback ? kept : flipped);
        if (result != expected) {
            failure = std::string(mode == 1 ? "decision adds a violated constraint: "
                                            : "decision does not add the violated constraint: ") +
                      o.str();
        }
    };
    uint64_t choices = 0;
    try {
        drive::HooksGuard guard(hooks);
        drive::Session s(cfg);
        theory = s.theory();
        drive::lib([&]() { s.ctl().register_propagator(obs, false); });
        s.add(n.text);
        s.ground();
        drive::SolveOpts opts;
        opts.limit = limit;
        s.solve(opts);
        choices = static_cast<uint64_t>(s.ctl().statistics()["solving"]["solvers"]["choices"].value());
    } catch (drive::LibError const &e) { c.fail(std::string("error on a valid program: ") + e.what()); }
    if (!obs.net.exact) { throw Discard("constraint without exact interpretation"); }
    if (!failure.empty()) { c.fail(failure); }
    if (active && !rnd && choices > 0 && calls == 0) {
        c.fail("theory was not asked for any of " + std::to_string(choices) + " decisions");
    }
    if (threads > 1) { c.label("several threads"); }
    c.label("decisions seen", calls);
    c.label("decisions without constraint", plain);
    c.label("decisions with required outcome", forced);
    c.label(std::string("changed by ") + modes[mode], flipped);
    c.label(std::string("kept by ") + modes[mode], kept);
    c.nontrivial = forced > 0;
}
Register r25("P25",
             "Random constraint networks over choices and body constraints with heuristic min, max, or none, random "
             "options, and one to four threads; every decision of the theory is intercepted and judged by the values "
             "reported at that moment: if exactly one of the two outcomes adds a violated constraint, min has to avoid "
             "and max has to choose it; other literals are left alone. Non-trivial: at least one decision whose outcome "
             "is required.",
             p25);

} // namespace
