// P20: command line tool.
#include "net.hh"
#include "options.hh"
#include "tool.hh"
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <unistd.h>

using namespace pbt;
using namespace gen;

namespace {

struct Files {
    Files() = default;
    Files(Files const &) = delete;
    ~Files() {
        for (auto const &f : names) { unlink(f.c_str()); }
    }
    std::string add(std::string const &name, std::string const &text) {
        tool::write_file(name, text);
        names.push_back(name);
        return name;
    }
    std::vector<std::string> names;
};

//! Spell theory options for the command line.
std::vector<std::string> arguments(Src &s, drive::Config const &cfg) {
    std::vector<std::string> r;
    for (auto const &[k, v] : cfg.dl) {
        if (k == "rdl" || k == "shift-constraints" || k == "compute-components") {
            r.push_back(v == "yes" ? "--" + k : "--no-" + k);
        } else if (s.chance(1, 4)) {
            r.push_back("--" + k);
            r.push_back(v);
        } else {
            r.push_back("--" + k + "=" + v);
        }
    }
    r.insert(r.end(), cfg.cl.begin(), cfg.cl.end());
    return r;
}

//! Distribute lines over files, included files and standard input.
std::vector<std::string> distribute(Case &c, Files &fs, std::string const &text, std::string &in) {
    int n = c.s.weighted({3, 1, 1, 1}) + 1;
    if (n == 1 && c.s.chance(1, 4)) {
        in = text;
        // standard input is also read if there are no files
        return c.s.chance(1, 3) ? std::vector<std::string>{} : std::vector<std::string>{"-"};
    }
    std::vector<std::string> parts(n);
    std::istringstream is(text);
    std::string l;
    while (std::getline(is, l)) { parts[n > 1 ? c.s.draw(static_cast<uint32_t>(n)) : 0] += l + "\n"; }
    std::vector<std::string> args;
    std::string include;
    for (int i = n - 1; i >= 0; --i) {
        auto base = "p20_" + std::to_string(i) + ".lp";
        auto name = c.scratch + "/" + base;
        bool last = i == 0;
        fs.add(name, include + parts[i]);
        include.clear();
        if (!last && c.s.chance(1, 3)) {
            // included by the next file (relative to it)
            include = "#include \"" + (c.s.chance(1, 2) ? base : name) + "\".\n";
        } else {
            args.insert(args.begin() + static_cast<long>(c.s.draw(static_cast<uint32_t>(args.size() + 1))), name);
        }
    }
    if (n > 1) { c.label("several files"); }
    return args;
}

std::vector<std::string> shuffle(Src &s, std::vector<std::string> opts, std::vector<std::string> const &files) {
    // (options with separate values stay together because files are put before or after all options)
    if (s.chance(1, 2)) {
        opts.insert(opts.end(), files.begin(), files.end());
        return opts;
    }
    auto r = files;
    r.insert(r.end(), opts.begin(), opts.end());
    return r;
}

//! Values shown in the statistics section of the theory.
std::map<std::string, std::string> theory_stats(std::string const &out) {
    std::map<std::string, std::string> r;
    std::istringstream is(out);
    std::string l, sub;
    bool on = false;
    while (std::getline(is, l)) {
        if (l == "DifferenceLogic") {
            on = true;
            continue;
        }
        if (!on) { continue; }
        if (l.empty()) { break; }
        auto t = l;
        while (!t.empty() && t.front() == ' ') { t.erase(0, 1); }
        if (!t.empty() && t.front() == '[') {
            sub = t + " ";
            continue;
        }
        auto p = t.rfind(':');
        if (p == std::string::npos) { continue; }
        auto k = t.substr(0, p);
        while (!k.empty() && k.back() == ' ') { k.pop_back(); }
        auto v = t.substr(p + 1);
        while (!v.empty() && v.front() == ' ') { v.erase(0, 1); }
        r[sub + k] = v;
    }
    return r;
}

//! Collect the same from the library.
void collect(Clingo::UserStatistics s, std::string const &pre, std::map<std::string, double> &out) {
    for (auto const *k : s.keys()) {
        auto x = s[k];
        if (x.type() == Clingo::StatisticsType::Value) {
            out[pre + k] = x.value();
        } else if (x.type() == Clingo::StatisticsType::Map) {
            collect(x, pre, out);
        } else if (x.type() == Clingo::StatisticsType::Array) {
            for (size_t i = 0; i < x.size(); ++i) { collect(x[i], pre + "[Thread " + std::to_string(i) + "] ", out); }
        }
    }
}

std::multiset<std::string> full(std::vector<drive::Answer> const &as) {
    std::multiset<std::string> r;
    for (auto const &a : as) { r.insert(a.str()); }
    return r;
}

std::string command(std::vector<std::string> const &args) {
    std::string r = "clingo-dl";
    for (auto const &a : args) { r += " '" + a + "'"; }
    return r;
}

void solve_case(Case &c) {
    ConfParams cp;
    cp.cc = cp.shift = true;
    cp.threads = c.s.chance(1, 8) ? 2 : 1;
    bool rdl = c.s.chance(1, 5);
    auto cfg = gen_config(c.s, cp);
    cfg.cl[0] = c.s.chance(2, 3) ? "0" : std::to_string(c.s.range(1, 5));
    auto limit = std::stoi(cfg.cl[0]);
    std::string text;
    Program p;
    if (rdl || c.s.chance(1, 5)) {
        net::NetParams q;
        q.strict = !rdl;
        q.nodes = 4;
        q.cons = 7;
        text = net::gen_net(c.s, q).text;
    } else {
        Params q;
        if (c.s.chance(1, 25)) {
            widen(c.s, q);
            c.label("many variables");
        }
        p = gen_program(c.s, q);
        text = p.text();
    }
    if (rdl) { cfg.dl.emplace_back("rdl", "yes"); }
    else if (c.s.chance(1, 8)) { cfg.dl.emplace_back("rdl", "no"); }
    bool stats = c.s.chance(1, 2);
    if (c.s.chance(1, 4)) {
        text += "&diff { x - y } <= c :- c < 3.\n#const c = 1.\n";
        if (c.s.chance(1, 2)) { cfg.cl.push_back("-cc=" + std::to_string(c.s.range(-1, 4))); }
        p.vars.clear();
    }
    // further programs that the tool does not ground
    if (c.s.chance(1, 8)) { text += "#program other(k). &diff { x - y } <= k. :- not &diff { x - y } <= k. #program base.\n"; }
    c.desc << "options: " << cfg.str() << "\n" << text;
    Files fs;
    std::string in;
    auto files = distribute(c, fs, text, in);
    auto args = shuffle(c.s, arguments(c.s, cfg), files);
    args.insert(args.begin(), c.bindir + "/clingo-dl");
    if (stats) { args.emplace_back("--stats"); }
    c.desc << command(args) << "\n";
    c.publish();
    // library
    drive::Solved r;
    std::map<std::string, double> ls;
    std::string error;
    try {
        if (stats) { cfg.cl.emplace_back("--stats"); }
        drive::Session s(cfg);
        s.add(text);
        s.ground();
        drive::SolveOpts o;
        o.call_theory_stats = stats;
        o.on_stats = [&](Clingo::UserStatistics x, Clingo::UserStatistics) {
            if (x.has_subkey("DifferenceLogic")) { collect(x["DifferenceLogic"], "", ls); }
        };
        r = s.solve(o);
    } catch (drive::LibError const &e) { error = e.what(); }
    auto t = tool::run(args, in);
    auto out = tool::parse(t.out);
    PBT_CHECK(c, !t.timeout, "tool did not terminate");
    if (!error.empty()) {
        PBT_CHECK(c, t.rc > 0 && (t.rc & 1) != 0 && t.rc != 127, "exit code " << t.rc << " but the library reports: " << error);
        PBT_CHECK(c, t.err.find("ERROR") != std::string::npos, "no error shown but the library reports: " << error);
        c.label("errors");
        return;
    }
    bool more = limit > 0 && static_cast<int>(r.answers.size()) == limit && !r.exhausted;
    int code = r.unsat ? 20 : r.exhausted ? 30 : 10;
    PBT_CHECK(c, t.rc == code || (cp.threads > 1 && r.sat && limit > 0 && (t.rc == 10 || t.rc == 30)),
              "exit code " << t.rc << " instead of " << code << ": " << t.err);
    PBT_CHECK(c, out.status == (r.sat ? "SATISFIABLE" : "UNSATISFIABLE"), "status " << out.status);
    PBT_CHECK(c, t.err.find("ERROR") == std::string::npos, "error shown: " << t.err);
    PBT_CHECK(c, out.answers.size() == r.answers.size(),
              out.answers.size() << " answers printed, " << r.answers.size() << " found by the library");
    if (cp.threads == 1 && files.size() <= 1 && fs.names.size() <= 1) {
        for (size_t i = 0; i < r.answers.size(); ++i) {
            auto a = r.answers[i];
            a.api.clear();
            PBT_CHECK(c, out.answers[i].str() == a.str(), "answer " << i + 1 << " printed as " << out.answers[i].str()
                                                                    << " but the library reports " << a.str());
        }
    } else if (!more && limit == 0) {
        std::multiset<std::string> x, y;
        for (auto const &a : out.answers) { x.insert(a.atoms_str()); }
        for (auto const &a : r.answers) { y.insert(a.atoms_str()); }
        PBT_CHECK(c, x == y, "answers of tool and library differ");
    }
    if (!rdl && !p.vars.empty()) {
        std::set<std::string> expect;
        for (auto const &a : answers(p)) { expect.insert(a.key()); }
        std::set<std::string> seen;
        for (auto a : out.answers) {
            seen.insert(a.atoms_str());
            PBT_CHECK(c, expect.count(a.atoms_str()) != 0, "answer invented: {" << a.atoms_str() << "}");
            a.api = a.dl;
            check_witness(c, p, a);
        }
        PBT_CHECK(c, limit > 0 || seen.size() == expect.size(),
                  seen.size() << " different answers instead of " << expect.size());
    }
    if (stats && cp.threads == 1 && files.size() <= 1 && fs.names.size() <= 1) {
        auto ts = theory_stats(t.out);
        size_t n = 0;
        for (auto const &[k, v] : ls) {
            PBT_CHECK(c, ts.count(k) != 0, "statistics value " << k << " is not shown\n" << t.out);
            if (k.find("(s)") != std::string::npos) { continue; }
            ++n;
            auto x = std::strtod(ts[k].c_str(), nullptr);
            PBT_CHECK(c, std::abs(x - v) <= 1e-4 * std::abs(v), "statistics value " << k << " is shown as " << ts[k] << " instead of " << v);
        }
        PBT_CHECK(c, ts.size() == ls.size(), "statistics show " << ts.size() << " values instead of " << ls.size());
        c.label("statistics compared", n);
    }
    c.label("answers", r.answers.size());
    if (rdl) { c.label("real numbers"); }
    c.label(r.sat ? "sat" : "unsat");
    c.nontrivial = r.answers.size() > 1;
}

void optimize_case(Case &c) {
    static char const *const factors[] = {"", "1", "1.5", "2", "3", "10", "1e3", "2147483647"};
    auto fi = c.s.weighted({5, 2, 2, 3, 1, 1, 1, 1});
    bool wide = fi >= 2 && fi <= 5;
    Params q;
    if (c.s.chance(1, 2)) {
        q.weight = 12;
        q.max_head = 6;
    }
    if (wide && c.s.chance(1, 25)) {
        widen(c.s, q);
        c.label("many variables");
    }
    auto p = gen_program(c.s, q);
    auto v = c.s.range(1, static_cast<int>(p.vars.size()) - 1);
    static int64_t const low[] = {0, -3, 2, -10, -100, -20000, -10000000};
    auto k = wide ? low[c.s.weighted({4, 4, 4, 3, 2, 1, 1})] : low[c.s.weighted({4, 4, 4, 3, 1})];
    TCon tc;
    tc.con = {v, 0, ref::GE, k};
    tc.text = spell(c.s, p.vars, tc.con, true);
    p.head.emplace_back(tc);
    Rule r;
    r.head = Rule::Theory;
    r.idx = static_cast<int>(p.head.size()) - 1;
    p.rules.emplace_back(r);
    bool initial = c.s.chance(1, 3);
    int64_t bound = c.s.chance(1, 6) ? (wide ? c.s.range(-100000, 100000) : c.s.range(-200, 200)) : c.s.range(-12, 12);
    ConfParams cp;
    cp.cc = cp.shift = true;
    cp.threads = c.s.chance(1, 10) ? 2 : 1;
    auto cfg = gen_config(c.s, cp);
    // see p_shots.cc
    cfg.cl.emplace_back("--eq=0");
    bool rdl = c.s.chance(1, 12);
    bool wrong = !initial && c.s.chance(1, 12);
    if (rdl) { cfg.dl.emplace_back("rdl", "yes"); }
    Files fs;
    std::string in;
    auto text = p.text();
    auto opts = arguments(c.s, cfg);
    auto var = wrong ? "not_a_variable" : p.vars[v].sym;
    auto value = var + (initial ? (c.s.chance(1, 3) ? ", " : ",") + std::to_string(bound) : "");
    if (c.s.chance(1, 5)) {
        opts.insert(opts.end(), {"--minimize-variable", value});
    } else {
        opts.push_back("--minimize-variable=" + value);
    }
    if (fi > 0) { opts.push_back(std::string("--minimize-factor=") + factors[fi]); }
    bool stats = c.s.chance(1, 2);
    if (stats) { opts.emplace_back("--stats"); }
    auto args = shuffle(c.s, opts, distribute(c, fs, text, in));
    args.insert(args.begin(), c.bindir + "/clingo-dl");
    c.desc << text << command(args) << "\n";
    c.publish();
    // reference
    std::optional<int64_t> best;
    bool sat = false;
    size_t within = 0;
    auto as = answers(p);
    for (auto const &a : as) {
        sat = true;
        auto l = least(p, constraints(p, a), v);
        if (!l) { throw Discard("unbounded"); }
        if (initial && *l > bound) { continue; }
        ++within;
        best = best ? std::min(*best, *l) : *l;
    }
    if (rdl) {
        // strict constraints are rejected; check that the tool rejects minimization if there are answers
        for (auto const *x : {&p.body, &p.head}) {
            for (auto const &t : *x) {
                if (t.con.rel == ref::LT || t.con.rel == ref::GT || t.con.rel == ref::NE) { throw Discard("strict"); }
            }
        }
        for (auto const &t : p.body) { static_cast<void>(t); throw Discard("strict"); }
    }
    auto t = tool::run(args, in);
    auto out = tool::parse(t.out);
    PBT_CHECK(c, !t.timeout, "tool did not terminate");
    bool fails = (wrong && sat) || (rdl && best);
    if (fails) {
        PBT_CHECK(c, t.rc > 0 && (t.rc & 1) != 0 && t.rc != 127, "exit code " << t.rc << " instead of an error");
        PBT_CHECK(c, t.err.find("ERROR") != std::string::npos, "no error shown");
        PBT_CHECK(c, out.answers.empty(), "answer shown despite of the error");
        c.label("variables that cannot be minimized");
        return;
    }
    PBT_CHECK(c, t.rc == 20, "exit code " << t.rc << " instead of 20: " << t.err);
    PBT_CHECK(c, t.err.find("ERROR") == std::string::npos, "error shown: " << t.err);
    std::optional<int64_t> last;
    for (auto a : out.answers) {
        a.api = a.dl;
        check_witness(c, p, a);
        auto it = a.dl.find(p.vars[v].sym);
        PBT_CHECK(c, it != a.dl.end(), "no value for the variable that is minimized: " << a.str());
        auto x = std::stoll(it->second);
        PBT_CHECK(c, !last || x < *last, "no strict improvement from " << *last << " to " << x);
        PBT_CHECK(c, !initial || x <= bound, "value " << x << " exceeds the initial bound");
        last = x;
    }
    PBT_CHECK(c, last == best, "optimum " << (last ? std::to_string(*last) : "none") << " instead of "
                                          << (best ? std::to_string(*best) : "none"));
    if (stats) {
        auto ts = theory_stats(t.out);
        PBT_CHECK(c, ts.count("Optimization") == (best ? 1U : 0U), "optimum wrongly shown or not shown in statistics\n" << t.out);
        if (best) {
            auto x = std::strtod(ts["Optimization"].c_str(), nullptr);
            PBT_CHECK(c, std::abs(x - static_cast<double>(*best)) <= 1e-5 * std::abs(static_cast<double>(*best)),
                      "statistics show optimum " << ts["Optimization"] << " instead of " << *best);
        }
        c.label("with statistics");
    }
    c.label("optimization");
    if (initial && within < as.size()) { c.label("initial bound excludes answers"); }
    c.nontrivial = out.answers.size() > 1;
}

void option_case(Case &c) {
    options::Model m;
    std::vector<std::string> args;
    std::string bad;
    std::set<std::string> used;
    int n = c.s.range(1, 5);
    for (int i = 0; i < n && bad.empty(); ++i) {
        auto k = c.s.draw(9);
        if (k < 6) {
            auto const &key = options::keys[k];
            auto v = options::gen_value(c.s, key, true);
            if (c.s.chance(1, 2)) { v = options::mutate(c.s, v); }
            if (v.empty()) { continue; }
            args.push_back("--" + key + "=" + v);
            if (!options::apply(m, key, v)) { bad = key; }
            if (key == "dl-heuristic" && !used.insert(key).second) { bad = key; }
        } else if (k < 8) {
            auto key = c.s.pick(std::vector<std::string>{"rdl", "shift-constraints", "compute-components"});
            args.push_back((c.s.chance(1, 2) ? "--no-" : "--") + key);
            if (!used.insert(key).second) { bad = key; }
        } else if (c.s.chance(1, 2)) {
            struct {
                char const *v;
                bool ok;
            } const values[] = {{"x", true},        {"f(x,1)", true}, {"(a,b)", true}, {"x,10", true}, {"x,-10", true},
                                {"x,y", false},     {"x,1,2", false}, {"x(", false},   {")", false},   {"x,", false},
                                {"x,\"1\"", false}, {"X", false},     {"x y", false},  {"x)", false},  {"\"a\"", true}};
            auto const &x = values[c.s.draw(sizeof(values) / sizeof(values[0]))];
            args.push_back(std::string("--minimize-variable=") + x.v);
            if (!x.ok || !used.insert("minimize-variable").second) { bad = "minimize-variable"; }
        } else {
            struct {
                char const *v;
                bool ok;
            } const values[] = {{"1", true},      {"1.0", true}, {"2.5", true},    {"2147483647", true}, {"10", true},
                                {"0.99", false},  {"0", false},  {"-1", false},    {"2147483648", false}, {"1x", false},
                                {"1,5", false},   {"x", false},  {"1e10", false},  {"1e400", false},      {"2 ", false},
                                {"1.5.5", false}, {"1e2", true}, {"--", false}};
            auto const &x = values[c.s.draw(sizeof(values) / sizeof(values[0]))];
            args.push_back(std::string("--minimize-factor=") + x.v);
            if (!x.ok || !used.insert("minimize-factor").second) { bad = "minimize-factor"; }
        }
    }
    Files fs;
    // (the variables that might be minimized do not occur)
    args.push_back(fs.add(c.scratch + "/p20_o.lp", "&diff { u - v } <= 3.\na.\n"));
    args.insert(args.begin(), c.bindir + "/clingo-dl");
    c.desc << command(args) << "\n";
    c.publish();
    // an initial bound makes the variable occur without a lower bound
    if (bad.empty()) {
        for (auto const &a : args) {
            if (a.rfind("--minimize-variable", 0) == 0 && (a.find(",1") != std::string::npos || a.find(",-1") != std::string::npos) &&
                a.find("f(") == std::string::npos) {
                args.emplace_back("--version");
            }
        }
    }
    auto t = tool::run(args);
    PBT_CHECK(c, !t.timeout, "tool did not terminate");
    if (!bad.empty()) {
        PBT_CHECK(c, t.rc == 1, "exit code " << t.rc << " for an invalid option: " << t.err);
        PBT_CHECK(c, t.out.find("Answer") == std::string::npos && t.out.find("SATISFIABLE") == std::string::npos,
                  "solved despite of an invalid option");
        PBT_CHECK(c, t.err.find("ERROR") != std::string::npos && t.err.find(bad) != std::string::npos,
                  "error does not name option " << bad << ": " << t.err);
        c.label("invalid options");
        c.nontrivial = true;
        return;
    }
    if (args.back() == "--version") {
        PBT_CHECK(c, t.rc == 0, "exit code " << t.rc << " for valid options: " << t.err);
    } else if (used.count("minimize-variable") != 0) {
        PBT_CHECK(c, t.err.find("variable to minimize") != std::string::npos, "unexpected error: " << t.err);
    } else {
        PBT_CHECK(c, t.rc == 10 || t.rc == 30, "exit code " << t.rc << " for valid options: " << t.err);
        PBT_CHECK(c, t.err.find("ERROR") == std::string::npos, "error for valid options: " << t.err);
    }
    c.label("valid options");
    c.nontrivial = args.size() > 3;
}

//! Statements with symbols that are shown, hidden, or mistaken for values.
std::string extras(Src &s) {
    static char const *const lines[] = {
        "1 { __h(1..2); h(3) } 1.", "{ -__n; -n }.", "#show __t : not a.", "#show t(X) : X = 1..2.",
        "#show \"__s\". #show 5. #show (__u,1). #show (). #show __inf. #show #inf. #show #sup.",
        "dl(x,1).", "{ dl(a,1); dl(b,1,2); dl }.", "#show dl(y,7).", "#show -dl(y,7).", "#show.", "{ b(\"x y\") }.",
        "_a. _(1). __(1). _a__ .", "#show b/1. #show -__n/0. #show __h/1.", "#show f(-1). #show f(10). #show f(9). #show f(a,b). #show g(a).",
        "{ __f }. :- __f, not &diff { x - y } <= 2.",
    };
    std::string r;
    for (int n = s.weighted({2, 3, 3, 2, 1}); n > 0; --n) { r += std::string(lines[s.draw(sizeof(lines) / sizeof(lines[0]))]) + "\n"; }
    return r;
}

//! Command running a script with the package and its compiled part.
std::vector<std::string> python(Case &c, std::string const &script) {
    // the compiled part needs the runtime of cffi; nothing is written next to the sources
    auto const *repo = std::getenv("VERIF_REPO");
    return {"/opt/veriftools/pyvenv/bin/python", "-B", c.bindir + "/../../../pystub/" + script,
            std::string(repo != nullptr ? repo : "/repo") + "/libpyclingo-dl", c.python};
}

//! Lines printed with answers.
std::vector<std::pair<std::string, std::string>> lines(std::string const &out) {
    std::vector<std::pair<std::string, std::string>> r;
    std::istringstream is(out);
    std::string l;
    while (std::getline(is, l)) {
        if (l.rfind("Answer: ", 0) != 0) { continue; }
        std::string a, t, v;
        std::getline(is, a);
        std::getline(is, t);
        std::getline(is, v);
        r.emplace_back(a, t == "Assignment:" ? v : "missing: " + t);
    }
    return r;
}

void python_case(Case &c) {
    ConfParams cp;
    cp.cc = cp.shift = true;
    cp.threads = c.s.chance(1, 8) ? 2 : 1;
    bool rdl = c.s.chance(1, 5);
    auto cfg = gen_config(c.s, cp);
    cfg.cl[0] = c.s.chance(2, 3) ? "0" : std::to_string(c.s.range(1, 5));
    auto limit = std::stoi(cfg.cl[0]);
    std::string text;
    if (rdl || c.s.chance(1, 5)) {
        net::NetParams q;
        q.strict = !rdl;
        q.nodes = 4;
        q.cons = 7;
        text = net::gen_net(c.s, q).text;
    } else {
        text = gen_program(c.s, Params{}).text();
    }
    if (rdl) { cfg.dl.emplace_back("rdl", "yes"); }
    else if (c.s.chance(1, 8)) { cfg.dl.emplace_back("rdl", "no"); }
    text += extras(c.s);
    if (c.s.chance(1, 8)) {
        static char const *const bad[] = {"&diff { x - y } <= z.", "&diff { x - y } <= \"a\".", "&diff { x - y } <= 1 :- .",
                                          "&diff { x - y; y - z } <= 1.", "&diff { x * y } <= 1.", "&diff { x - y } <= 1.5.",
                                          "&diff { x - y }.", "&diff(X) { x - y } <= 1.", "&diff(b) { x - y } <= 1.", "a :- not b(X)."};
        text += std::string(bad[c.s.draw(sizeof(bad) / sizeof(bad[0]))]) + "\n";
    }
    if (c.s.chance(1, 8)) {
        auto const &key = options::keys[c.s.draw(6)];
        auto v = options::mutate(c.s, options::gen_value(c.s, key, true));
        // (an option only accepted once by the application)
        bool twice = key == "dl-heuristic" && std::any_of(cfg.dl.begin(), cfg.dl.end(), [&](auto const &x) { return x.first == key; });
        if (!v.empty() && !twice) { cfg.dl.emplace_back(key, v); }
    }
    bool stats = c.s.chance(1, 2);
    c.desc << "options: " << cfg.str() << "\n" << text;
    Files fs;
    std::string in;
    std::vector<std::string> files{"-"};
    if (c.s.chance(1, 6)) {
        in = text;
        if (c.s.chance(1, 3)) { files.clear(); }
    } else if (c.s.chance(1, 4)) {
        auto p = text.find('\n', c.s.draw(static_cast<uint32_t>(text.size())));
        p = p == std::string::npos ? text.size() : p + 1;
        files = {fs.add(c.scratch + "/p23_a.lp", text.substr(0, p)), fs.add(c.scratch + "/p23_b.lp", text.substr(p))};
    } else {
        files = {fs.add(c.scratch + "/p23.lp", text)};
    }
    auto args = arguments(c.s, cfg);
    if (stats) { args.emplace_back("--stats"); }
    if (c.s.chance(1, 10)) { args.emplace_back("--enable-python"); }
    args = shuffle(c.s, args, files);
    c.desc << command(args) << "\n";
    c.publish();
    // library
    std::map<std::string, double> ls;
    std::string error;
    std::vector<std::pair<std::string, std::string>> expect;
    drive::Solved r;
    try {
        if (stats) { cfg.cl.emplace_back("--stats"); }
        drive::Session s(cfg);
        s.add(text);
        s.ground();
        drive::SolveOpts o;
        o.call_theory_stats = stats;
        o.on_stats = [&](Clingo::UserStatistics x, Clingo::UserStatistics) {
            if (x.has_subkey("DifferenceLogic")) { collect(x["DifferenceLogic"], "", ls); }
        };
        o.on_model = [&](drive::Session &, Clingo::Model &m, drive::Answer &) {
            auto join = [](std::string &r, std::string const &x) { r += (r.empty() ? "" : " ") + x; };
            std::string a, v;
            auto syms = m.symbols(Clingo::ShowType::Shown);
            std::sort(syms.begin(), syms.end());
            for (auto const &x : syms) {
                bool hidden = x.type() == Clingo::SymbolType::Function && std::string(x.name()).rfind("__", 0) == 0;
                if (!hidden) { join(a, x.to_string()); }
                else { c.label("hidden symbols"); }
            }
            syms = m.symbols(Clingo::ShowType::Theory);
            std::sort(syms.begin(), syms.end());
            for (auto const &x : syms) {
                if (x.match("dl", 2)) { join(v, x.arguments()[0].to_string() + "=" + x.arguments()[1].to_string()); }
            }
            expect.emplace_back(a, v);
        };
        r = s.solve(o);
    } catch (drive::LibError const &e) { error = e.what(); }
    auto cmd = python(c, "run.py");
    cmd.insert(cmd.end(), args.begin(), args.end());
    auto t = tool::run(cmd, in);
    auto out = tool::parse(t.out);
    auto got = lines(t.out);
    PBT_CHECK(c, !t.timeout, "application did not terminate");
    if (t.err.find("not provided by the clingo stand-in") != std::string::npos) { throw Discard("stand-in"); }
    if (!error.empty()) {
        PBT_CHECK(c, t.rc > 0 && (t.rc & 1) != 0 && t.rc != 127, "exit code " << t.rc << " but the library reports: " << error);
        PBT_CHECK(c, t.err.find("ERROR") != std::string::npos || t.err.find("error") != std::string::npos,
                  "no error shown but the library reports: " << error << "\n" << t.err);
        PBT_CHECK(c, got.empty(), "answers shown but the library reports: " << error);
        c.label("errors");
        c.nontrivial = true;
        return;
    }
    int code = r.unsat ? 20 : r.exhausted ? 30 : 10;
    PBT_CHECK(c, t.rc == code || (cp.threads > 1 && r.sat && limit > 0 && (t.rc == 10 || t.rc == 30)),
              "exit code " << t.rc << " instead of " << code << ": " << t.err);
    PBT_CHECK(c, out.status == (r.sat ? "SATISFIABLE" : "UNSATISFIABLE"), "status " << out.status);
    PBT_CHECK(c, t.err.find("ERROR") == std::string::npos, "error shown: " << t.err);
    PBT_CHECK(c, got.size() == expect.size(), got.size() << " answers printed, " << expect.size() << " found by the library");
    if (cp.threads == 1 && files.size() <= 1) {
        for (size_t i = 0; i < got.size(); ++i) {
            PBT_CHECK(c, got[i] == expect[i], "answer " << i + 1 << " printed as {" << got[i].first << "} {" << got[i].second
                                                        << "} instead of {" << expect[i].first << "} {" << expect[i].second << "}");
        }
        if (stats) {
            auto ts = theory_stats(t.out);
            for (auto const &[k, v] : ls) {
                PBT_CHECK(c, ts.count(k) != 0, "statistics value " << k << " is not shown\n" << t.out);
                if (k.find("(s)") != std::string::npos) { continue; }
                auto x = std::strtod(ts[k].c_str(), nullptr);
                PBT_CHECK(c, std::abs(x - v) <= 1e-4 * std::abs(v), "statistics value " << k << " is shown as " << ts[k] << " instead of " << v);
            }
            PBT_CHECK(c, ts.size() == ls.size(), "statistics show " << ts.size() << " values instead of " << ls.size());
            c.label("with statistics");
        }
    } else if (limit == 0) {
        std::multiset<std::string> x, y;
        for (auto const &a : got) { x.insert(a.first); }
        for (auto const &a : expect) { y.insert(a.first); }
        PBT_CHECK(c, x == y, "answers of application and library differ");
        c.label(cp.threads > 1 ? "several threads" : "several files");
    }
    c.label("answers", got.size());
    if (rdl) { c.label("real numbers"); }
    c.nontrivial = got.size() > 1;
}

//! Use the theory of the package as a module in one or more steps.
void module_case(Case &c) {
    ConfParams cp;
    cp.cc = cp.shift = true;
    bool rdl = c.s.chance(1, 4);
    auto cfg = gen_config(c.s, cp);
    cfg.cl[0] = c.s.chance(2, 3) ? "0" : std::to_string(c.s.range(1, 5));
    std::vector<std::string> steps;
    std::vector<std::string> vars;
    if (rdl || c.s.chance(1, 5)) {
        net::NetParams q;
        q.strict = !rdl;
        q.nodes = 4;
        q.cons = 7;
        auto n = net::gen_net(c.s, q);
        steps.push_back(n.text);
        vars = {"x", "y"};
    } else {
        auto p = gen_program(c.s, Params{});
        steps.push_back(p.text());
        for (size_t i = 1; i < p.vars.size(); ++i) { vars.push_back(p.vars[i].sym); }
    }
    vars.emplace_back("new(1)");
    if (rdl) { cfg.dl.emplace_back("rdl", "yes"); }
    steps[0] += extras(c.s);
    static char const *const bad[] = {"&diff { x - y } <= z.\n", "&diff { x - y } <= \"a\".\n", "&diff { x - y } <= 1 :- .\n",
                                      "&diff { x * y } <= 1.\n", "&diff { x - y }.\n", "a :- not b(X).\n"};
    for (int n = c.s.weighted({3, 2, 2}); n > 0; --n) {
        auto k = std::to_string(steps.size());
        auto text = "#program step" + k + ".\n";
        for (int m = c.s.range(1, 3); m > 0; --m) {
            auto con = "&diff { " + c.s.pick(vars) + " - " + c.s.pick(vars) + " } <= " + std::to_string(c.s.range(-4, 4));
            auto st = "st(" + k + "," + std::to_string(m) + ")";
            text += c.s.chance(1, 2) ? "{ " + st + " }. " + con + " :- " + st + ".\n" : st + " :- " + con + ".\n";
        }
        steps.push_back(text);
    }
    if (c.s.chance(1, 10)) { steps[c.s.draw(static_cast<uint32_t>(steps.size()))] += bad[c.s.draw(sizeof(bad) / sizeof(bad[0]))]; }
    if (c.s.chance(1, 10)) {
        auto const &key = options::keys[c.s.draw(6)];
        auto v = options::mutate(c.s, options::gen_value(c.s, key, true));
        cfg.dl.emplace_back(key, v);
    }
    Files fs;
    auto cmd = python(c, "module.py");
    cmd.push_back(std::to_string(cfg.cl.size()));
    cmd.insert(cmd.end(), cfg.cl.begin(), cfg.cl.end());
    cmd.push_back(std::to_string(cfg.dl.size()));
    for (auto const &[k, v] : cfg.dl) { cmd.insert(cmd.end(), {k, v}); }
    c.desc << "options: " << cfg.str() << "\n";
    for (auto const &x : steps) {
        c.desc << x << "% step\n";
        cmd.push_back(fs.add(c.scratch + "/p23_" + std::to_string(fs.names.size()) + ".lp", x));
    }
    c.publish();
    // library
    std::string error;
    std::string expect;
    size_t answers = 0;
    auto join = [](std::vector<std::string> x) {
        std::sort(x.begin(), x.end());
        std::string r;
        for (auto const &y : x) { r += (r.empty() ? "" : " ") + y; }
        return r + "\n";
    };
    try {
        drive::Session s(cfg);
        for (size_t i = 0; i < steps.size(); ++i) {
            s.add(steps[i]);
            s.ground({{i == 0 ? "base" : "step" + std::to_string(i), {}}});
            drive::SolveOpts o;
            o.on_model = [&](drive::Session &, Clingo::Model &m, drive::Answer &a) {
                ++answers;
                std::vector<std::string> vals;
                for (auto const &[k, v] : a.api) { vals.push_back(k + "=" + v); }
                expect += "Answer: " + std::to_string(m.number()) + "\n" + join(a.atoms) + join(vals);
            };
            auto r = s.solve(o);
            expect += std::string("Result: ") + (r.sat ? "True " : "False ") + (r.exhausted ? "True" : "False") + "\n";
        }
    } catch (drive::LibError const &e) { error = e.what(); }
    auto t = tool::run(cmd);
    PBT_CHECK(c, !t.timeout, "script did not terminate");
    if (t.err.find("not provided by the clingo stand-in") != std::string::npos) { throw Discard("stand-in"); }
    PBT_CHECK(c, t.out == expect, "module reports\n" << t.out << "instead of\n" << expect << t.err);
    PBT_CHECK(c, t.rc == (error.empty() ? 0 : 1), "exit code " << t.rc << " instead of " << (error.empty() ? 0 : 1) << ": " << t.err);
    if (!error.empty()) {
        PBT_CHECK(c, t.err.find("error: " + error) != std::string::npos, "error " << t.err << " instead of " << error);
        c.label("errors of the module");
    }
    c.label("answers of the module", answers);
    if (rdl) { c.label("real numbers"); }
    if (steps.size() > 1) { c.label("several steps"); }
    c.nontrivial = answers > 1 || !error.empty();
}

void p23(Case &c) {
    if (c.s.chance(1, 3)) { module_case(c); }
    else { python_case(c); }
}

Register r23("P23",
             "Random programs with shown, hidden, and misleading symbols solved by the Python application with random "
             "valid and invalid options: printed answers and values (in their order), status, exit code, errors, and "
             "statistics compared with the C interface; the theory class used as a module in one to three steps: answers, "
             "values, symbols, results, and errors compared with the C interface. Non-trivial: more than one answer or an error.",
             p23);

void p20(Case &c) {
    switch (c.s.weighted({5, 4, 3})) {
        case 0: solve_case(c); break;
        case 1: optimize_case(c); break;
        default: option_case(c); break;
    }
}
Register r20("P20",
             "Random programs distributed over files, includes and standard input solved by the command line tool with "
             "random options: answers, values, status, exit code and statistics compared with the library and the "
             "brute-force reference; minimization compared with the reference minimum; sequences of well- and "
             "ill-formed options compared with a model of the accepted values. Non-trivial: more than one answer, or an "
             "invalid option, or more than one valid option.",
             p20);

} // namespace
