// P17: option parsing and effects of options.
#include "net.hh"
#include "observe.hh"
#include "options.hh"
#include "trace.hh"
#include <algorithm>
#include <optional>

using namespace pbt;
using namespace observe;
using namespace options;

namespace {

struct Theory {
    Theory() { drive::check_ret(clingodl_create(&t)); }
    ~Theory() { clingodl_destroy(t); }
    Theory(Theory const &) = delete;
    clingodl_theory_t *t{nullptr};
};

//! Configure and compare the outcome with the model; returns whether the value has been accepted.
bool configure(Case &c, clingodl_theory_t *t, Model &m, std::string const &key, std::string const &value) {
    Model next = m;
    bool known = std::find(keys.begin(), keys.end(), key) != keys.end();
    bool ok = known && apply(next, key, value);
    bool ret = clingodl_configure(t, key.c_str(), value.c_str());
    if (!ret) {
        std::string msg = clingo_error_message() != nullptr ? clingo_error_message() : "";
        PBT_CHECK(c, !ok, "valid option --" << key << "='" << value << "' is rejected: " << msg);
        PBT_CHECK(c, clingo_error_code() != clingo_error_success, "no error code set for --" << key << "='" << value << "'");
        PBT_CHECK(c, msg.find("'" + key + "'") != std::string::npos,
                  "error for --" << key << "='" << value << "' does not name the option: " << msg);
        return false;
    }
    PBT_CHECK(c, ok, "invalid option --" << key << "='" << value << "' is accepted");
    m = next;
    return true;
}

void parse_case(Case &c) {
    Theory t;
    Model m;
    int n = c.s.range(1, 30);
    uint64_t rejected = 0;
    uint64_t accepted = 0;
    for (int i = 0; i < n; ++i) {
        auto key = c.s.pick(keys);
        auto value = gen_value(c.s, key, true);
        if (c.s.chance(2, 3)) { value = mutate(c.s, value); }
        if (c.s.chance(1, 12)) {
            key = c.s.chance(1, 2) ? mutate(c.s, key)
                                   : c.s.pick(std::vector<std::string>{"", "Propagate", "propagate ", "minimize-variable",
                                                                       "propgate-budget", "rdl,0", "mutexes"});
        }
        c.desc << "--" << key << "='" << value << "'\n";
        c.publish();
        if (configure(c, t.t, m, key, value)) { ++accepted; }
        else { ++rejected; }
    }
    c.label("values accepted", accepted);
    c.label("values rejected", rejected);
    c.nontrivial = accepted > 0 && rejected > 0;
}

//! Spell a model configuration for a session with one thread using as few options as possible.
std::vector<std::pair<std::string, std::string>> canonical_options(Src &s, Model const &m) {
    std::vector<std::pair<std::string, std::string>> r;
    Model d;
    auto opt = [&](char const *key, bool is_default, std::string const &value) {
        // sometimes set options to their default value
        if (!is_default || s.chance(1, 3)) { r.emplace_back(key, value); }
    };
    opt("propagate", m.mode_of(0) == d.mode, modes[m.mode_of(0)]);
    // levels and costs of the programs generated here stay far below the limits
    auto root = m.root_of(0) > 1000 ? 1000 + s.draw(1000) : m.root_of(0);
    auto budget = m.budget_of(0) > 1000000000 ? 1000000000 + s.draw(1000) : m.budget_of(0);
    opt("propagate-root", root == d.root, std::to_string(root));
    opt("propagate-budget", budget == d.budget, std::to_string(budget));
    opt("sort-edges", m.sort_of(0) == d.sort, sorts[m.sort_of(0)]);
    opt("dl-heuristic", m.decide == d.decide, decs[m.decide]);
    if (m.mutex_size != 0) {
        r.emplace_back("add-mutexes", std::to_string(m.mutex_size) + "," + std::to_string(m.mutex_cut));
    } else if (s.chance(1, 3)) {
        r.emplace_back("add-mutexes", "0");
    }
    opt("compute-components", m.cc == d.cc, m.cc ? "yes" : "no");
    opt("shift-constraints", m.shift == d.shift, m.shift ? "yes" : "no");
    opt("rdl", m.rdl == d.rdl, m.rdl ? "yes" : "no");
    // the order of options does not matter
    for (size_t i = r.size(); i > 1; --i) { std::swap(r[i - 1], r[s.draw(static_cast<uint32_t>(i))]); }
    return r;
}

//! Program sensitive to the options.
std::string gen_text(Case &c, bool rdl) {
    net::NetParams q;
    q.nodes = 6;
    q.cons = 16;
    q.strict = !rdl;
    auto n = net::gen_net(c.s, q);
    return n.text;
}

//! Turn draws into search options that produce varied traces.
std::vector<std::string> search_options(Src &s) {
    std::vector<std::string> r{"0"};
    if (s.chance(2, 3)) {
        r.emplace_back("--rand-freq=0." + std::to_string(s.range(1, 9)));
        r.emplace_back("--seed=" + std::to_string(s.range(1, 1000)));
    }
    if (s.chance(1, 3)) {
        r.emplace_back("--heuristic=" + s.pick(std::vector<std::string>{"Berkmin", "Vmtf", "Unit", "None"}));
    }
    if (s.chance(1, 4)) { r.emplace_back("--sign-def=rnd"); }
    return r;
}

void effect_case(Case &c) {
    Model m;
    std::vector<std::pair<std::string, std::string>> seq;
    int n = c.s.range(1, 10);
    bool rdl = c.s.chance(1, 6);
    // concentrate on few keys to exercise overriding
    std::vector<std::string> use;
    for (auto const &k : keys) {
        if (k == "rdl" ? rdl : c.s.chance(1, 2)) { use.push_back(k); }
    }
    if (use.empty()) { use.emplace_back("propagate"); }
    std::vector<bool> bad;
    Theory scratch;
    uint64_t rejected = 0;
    for (int i = 0; i < n; ++i) {
        auto key = c.s.pick(use);
        auto value = gen_value(c.s, key, c.s.chance(1, 6));
        if (c.s.chance(1, 6)) { value = mutate(c.s, value); }
        seq.emplace_back(key, value);
        c.desc << "--" << key << "='" << value << "' ";
        if (!configure(c, scratch.t, m, key, value)) { ++rejected; }
    }
    // large mutexes are expensive
    if (m.mutex_size > 10) { m.mutex_cut = std::min<uint64_t>(m.mutex_cut, 1000); seq.emplace_back("add-mutexes", std::to_string(m.mutex_size) + "," + std::to_string(m.mutex_cut)); }
    if (m.mutex_cut > 3000) { m.mutex_cut = 3000; seq.emplace_back("add-mutexes", std::to_string(m.mutex_size) + ",3000"); }
    auto canon = canonical_options(c.s, m);
    auto text = gen_text(c, m.rdl);
    trace::Script script;
    script.parts.push_back(text);
    script.cfg.cl = search_options(c.s);
    script.limit = 25;
    for (auto const &a : script.cfg.cl) { c.desc << a << " "; }
    auto reference = script;
    reference.cfg.dl = canon;
    c.desc << "\nversus: " << reference.cfg.str() << "\n" << text;
    c.publish();
    // run with the sequence of options; rejected ones must not have an effect
    struct Runner {
        static std::string run(Case &c, trace::Script const &s, std::vector<std::pair<std::string, std::string>> const &seq) {
            trace::Script x = s;
            // options that are rejected are passed as well
            x.cfg.dl = seq;
            x.cfg.ignore_errors = true;
            (void)c;
            return trace::run(x);
        }
    };
    auto a = Runner::run(c, script, seq);
    auto b = trace::run(reference);
    if (a != b) {
        size_t i = 0;
        while (i < a.size() && i < b.size() && a[i] == b[i]) { ++i; }
        auto ctx = [&](std::string const &s) { return s.substr(i > 60 ? i - 60 : 0, 160); };
        c.fail("equivalent options behave differently:\n..." + ctx(a) + "...\nversus\n..." + ctx(b) + "...");
    }
    auto plain = script;
    if (m.rdl) { plain.cfg.dl.emplace_back("rdl", "yes"); }
    bool effect = trace::run(plain) != a;
    if (effect) { c.label("options with visible effect"); }
    if (m.rdl) { c.label("real numbers"); }
    if (rejected > 0) { c.label("with rejected options"); }
    if (!m.threads.empty()) { c.label("with options for threads"); }
    c.nontrivial = effect;
}

//! Options restricted to threads observed in a search with several threads.
void thread_case(Case &c) {
    int threads = c.s.range(2, 3);
    Model m;
    drive::Config cfg;
    std::vector<std::pair<std::string, std::string>> seq;
    auto add = [&](std::string const &k, std::string const &v) {
        Model x = m;
        if (!apply(x, k, v)) { return; }
        m = x;
        cfg.dl.emplace_back(k, v);
    };
    int n = c.s.range(1, 5);
    for (int i = 0; i < n; ++i) {
        std::string ts = c.s.chance(3, 4) ? "," + std::to_string(c.s.range(0, threads - 1)) : "";
        if (c.s.chance(3, 4)) {
            add("propagate", c.s.pick(std::vector<std::string>{"no", "full", "zero", "inverse"}) + ts);
        } else {
            add("propagate-root", c.s.pick(std::vector<std::string>{"0", "1000000", "2", "4294967296", "18446744073709551615"}) + ts);
        }
    }
    cfg.cl = {"0", "-t" + std::to_string(threads) + (c.s.chance(1, 2) ? ",split" : ",compete"),
              "--solve-limit=300"};
    if (c.s.chance(1, 2)) {
        cfg.cl.emplace_back("--rand-freq=0.5");
        cfg.cl.emplace_back("--seed=" + std::to_string(c.s.range(1, 1000)));
    }
    net::NetParams q;
    q.nodes = 6;
    q.cons = 20;
    q.weight = 3;
    auto nt = net::gen_net(c.s, q);
    c.desc << "options: " << cfg.str() << "\n" << nt.text;
    c.publish();
    Observer obs;
    std::mutex mut;
    std::map<uint32_t, uint64_t> units;
    std::map<uint32_t, uint64_t> fixpoints;
    std::string failure;
    auto what = [&](uint32_t t) {
        return "thread " + std::to_string(t) + " with mode " + modes[m.mode_of(t)] + " and root level " +
               std::to_string(m.root_of(t)) + ": ";
    };
    drive::Hooks hooks;
    hooks.on_clause = [&](clingo_propagate_control_t *ctl, literal_t const *l, size_t n) {
        auto t = clingo_propagate_control_thread_id(ctl);
        Clingo::Assignment ass(clingo_propagate_control_assignment(ctl));
        bool unit = std::any_of(l, l + n, [&](literal_t x) { return !ass.is_false(x); });
        auto level = ass.decision_level();
        if (unit) {
            ++units[t];
            if (m.mode_of(t) == 0 && level >= m.root_of(t)) { failure = what(t) + "propagates a constraint"; }
            if (m.mode_of(t) == 1 && level >= m.root_of(t) && n > 2) {
                failure = what(t) + "propagates a constraint that is no inverse";
            }
        }
    };
    obs.on_fixpoint = [&](Clingo::PropagateControl &ctl) {
        std::lock_guard<std::mutex> lock(mut);
        auto t = ctl.thread_id();
        auto ass = ctl.assignment();
        ++fixpoints[t];
        bool full = m.mode_of(t) == 5 || ass.decision_level() < m.root_of(t);
        bool inverse = m.mode_of(t) != 0;
        if (!full && !inverse) { return; }
        auto es = obs.true_edges(ass);
        Paths p(obs.net.size(), es);
        if (p.negative) { throw Failure(what(t) + "conflict not detected"); }
        for (auto const &e : obs.net.edges) {
            if (ass.truth_value(e.lit) != Clingo::TruthValue::Free) { continue; }
            bool miss = full && p.at(e.v, e.u) != Paths::inf && p.at(e.v, e.u) + e.w < 0;
            for (auto const &f : es) { miss = miss || (f.u == e.v && f.v == e.u && f.w + e.w < 0); }
            if (miss) {
                throw Failure(what(t) + "open constraint " + obs.net.names[e.u] + "-" + obs.net.names[e.v] +
                              "<=" + std::to_string(e.w) + " not propagated");
            }
        }
    };
    try {
        drive::HooksGuard guard(hooks);
        drive::Session s(cfg);
        drive::lib([&]() { s.ctl().register_propagator(obs, false); });
        s.add(nt.text);
        s.ground();
        drive::SolveOpts opts;
        opts.limit = 200;
        s.solve(opts);
    } catch (drive::LibError const &e) { c.fail(std::string("error on a valid program: ") + e.what()); }
    if (!failure.empty()) { c.fail(failure); }
    if (!obs.failure.empty()) { c.fail(obs.failure); }
    if (!obs.net.exact) { throw Discard("constraint without exact interpretation"); }
    c.label("several threads");
    for (auto const &[t, k] : units) {
        if (k > 0 && t > 0) { c.label("propagation in threads other than the first"); }
    }
    c.nontrivial = fixpoints.size() > 1 && !units.empty();
}

void p17(Case &c) {
    switch (c.s.weighted({5, 8, 3})) {
        case 0: parse_case(c); break;
        case 1: effect_case(c); break;
        default: thread_case(c); break;
    }
}
Register r17("P17",
             "Random option keys and values (well-formed and damaged) against a model of the documented grammar; random "
             "sequences of options, also restricted to threads, repeated, and rejected ones, whose search trace (clauses, "
             "decisions, answers with values) is compared with that of the resulting canonical options; searches with "
             "several threads observed for the propagation strength of each thread. Non-trivial: accepted and rejected "
             "values, a trace that differs from that of the default options, or propagation in several threads.",
             p17);

} // namespace
