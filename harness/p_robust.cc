// P22: robustness against arbitrary input.
#include "net.hh"
#include "options.hh"
#include <algorithm>
#include <thread>

using namespace pbt;
using namespace gen;

namespace {

//! Configuration with arbitrary (also ill-formed) theory options.
drive::Config any_config(Case &c, int max_threads) {
    ConfParams cp;
    cp.cc = cp.shift = true;
    cp.threads = max_threads > 1 && c.s.chance(1, 4) ? c.s.range(2, max_threads) : 1;
    auto cfg = gen_config(c.s, cp);
    cfg.ignore_errors = true;
    int n = c.s.weighted({4, 2, 1, 1});
    for (int i = 0; i < n; ++i) {
        auto const &key = c.s.pick(options::keys);
        auto v = options::gen_value(c.s, key, true);
        if (c.s.chance(1, 2)) { v = options::mutate(c.s, v); }
        cfg.dl.emplace_back(key, v);
    }
    if (c.s.chance(1, 5)) { cfg.dl.emplace_back("rdl", "yes"); }
    cfg.cl[0] = "20";
    return cfg;
}

//! Call everything that may be called at any time.
void probe(Case &c, drive::Session &s, int threads) {
    static std::vector<char const *> const names{"x", "a", "-a", "0", "1", "\"a\"", "(t,1)", "f(1)", "#inf", "#sup", "()", "__null", "v1", "s(2)", "dl(x,1)"};
    int n = c.s.range(0, 3);
    for (int i = 0; i < n; ++i) {
        auto sym = Clingo::parse_term(c.s.pick(names));
        size_t idx = 0;
        if (clingodl_lookup_symbol(s.theory(), sym.to_c(), &idx)) {
            Clingo::Symbol back{clingodl_get_symbol(s.theory(), idx)};
            PBT_CHECK(c, back == sym, "looking up " << sym << " gives " << back);
            for (int t = 0; t < threads; ++t) {
                if (clingodl_assignment_has_value(s.theory(), t, idx)) {
                    clingodl_value_t v{};
                    clingodl_assignment_get_value(s.theory(), t, idx, &v);
                    drive::value_str(v);
                }
            }
        }
    }
    for (int t = 0; t < threads; ++t) { s.read_assignment(static_cast<uint32_t>(t)); }
}

//! Solve and read everything; errors are fine.
struct Stats {
    uint64_t answers{0};
    uint64_t errors{0};
    uint64_t solved{0};
};

void solve(Case &c, drive::Session &s, Stats &st, int threads) {
    drive::SolveOpts o;
    o.limit = c.s.chance(1, 4) ? 1 : 0;
    o.call_theory_stats = c.s.chance(1, 2);
    o.on_model = [&](drive::Session &, Clingo::Model &, drive::Answer &a) {
        ++st.answers;
        if (a.dl != a.api) { throw Failure("assignment interface and dl terms differ: " + a.str()); }
    };
    s.solve(o);
    ++st.solved;
    probe(c, s, threads);
}

int threads_of(drive::Config const &cfg) {
    for (auto const &a : cfg.cl) {
        if (a.rfind("-t", 0) == 0) { return std::atoi(a.c_str() + 2); }
    }
    return 1;
}

template <class F> void guarded(Case &c, Stats &st, F &&f) {
    try {
        f();
    } catch (drive::LibError const &e) {
        ++st.errors;
        PBT_CHECK(c, std::string(e.what()).find("ssert") == std::string::npos, "internal error: " << e.what());
        PBT_CHECK(c, std::string(e.what()) != "no message" && std::string(e.what()) != "bad allocation" &&
                         std::string(e.what()) != "std::bad_alloc",
                  "error without explanation: " << e.what());
    }
}

// {{{ program text

std::vector<std::string> tokenize(std::string const &t) {
    std::vector<std::string> r;
    for (size_t i = 0; i < t.size();) {
        size_t j = i + 1;
        auto word = [](char x) { return std::isalnum(static_cast<unsigned char>(x)) != 0 || x == '_' || x == '\''; };
        if (t[i] == '"') {
            while (j < t.size() && t[j] != '"') { j += t[j] == '\\' ? 2 : 1; }
            j = std::min(t.size(), j + 1);
        } else if (word(t[i]) || t[i] == '#' || t[i] == '&') {
            while (j < t.size() && word(t[j])) { ++j; }
        } else if (std::string("<>!=:").find(t[i]) != std::string::npos) {
            while (j < t.size() && std::string("<>=-").find(t[j]) != std::string::npos) { ++j; }
        } else if (t[i] == '.' && j < t.size() && t[j] == '.') {
            ++j;
        }
        r.push_back(t.substr(i, j - i));
        i = j;
    }
    return r;
}

// (no variables to avoid infinite groundings, no recursion through numbers)
std::vector<std::string> const tokens{
    "&diff", "&diff", "{", "}", "<=", ">=", "<", ">", "=", "!=", "-", "+", "*", "/", "(", ")", ",", ";", ":", ":-", ".", "not", "x", "y",
    "a", "a(0)", "0", "1", "2", "7", "big1", "\"1.5\"", "\"a\"", "\"\"", "\"1e3\"", "\"\\\\\"", "f(x)", "f(1+1)", "(x,1)", "()", "(x,)",
    "#sup", "#inf", "#true", "#false", "1..3", "\\", "**", "..", "?", "~", "|", "[", "]", "&sum", "&diff_h", "&__diff_h", "&__diff_b", "&show",
    "#show", "#external", "#program", "#const", "#minimize", "#sum", "#count", "#heuristic", "#edge", "#project", "#theory", "-x", "--", "_",
    "@f(1)", "#defined", "x/1", "1.", "__diff_h", "\"\\n\"", "&diff {", "} <= 3", ":- not", "0x7fff", "\xc3\xa4", "\"\xff\"", "%", "%*", "*%", "\n"};

std::string mutate_text(Src &s, std::string const &t) {
    auto toks = tokenize(t);
    int n = s.range(0, 6);
    for (int i = 0; i < n && !toks.empty(); ++i) {
        auto p = s.draw(static_cast<uint32_t>(toks.size()));
        switch (s.weighted({4, 3, 4, 2, 1, 1})) {
            case 0: toks.insert(toks.begin() + p, " " + s.pick(tokens) + " "); break;
            case 1: toks.erase(toks.begin() + p); break;
            case 2: toks[p] = " " + s.pick(tokens) + " "; break;
            case 3: {
                auto q = s.draw(static_cast<uint32_t>(toks.size()));
                std::swap(toks[p], toks[q]);
                break;
            }
            case 4: {
                auto q = std::min<size_t>(toks.size(), p + 1 + s.draw(8));
                std::vector<std::string> copy(toks.begin() + p, toks.begin() + static_cast<long>(q));
                toks.insert(toks.begin() + static_cast<long>(q), copy.begin(), copy.end());
                break;
            }
            default: toks.resize(p); break;
        }
    }
    std::string r;
    for (auto const &x : toks) { r += x; }
    return r;
}

//! Random constraint made of random terms.
std::string soup_term(Src &s, int depth) {
    static std::vector<std::string> const leafs{"x", "y", "z", "0", "1", "2", "-1", "big1", "big2", "\"1.5\"", "\"a\"", "\"\"", "\"1\"", "#inf",
                                                "#sup", "()", "\"\\\\\"", "\"nan\"", "\"1e309\"", "\"0x10\"", "\"-\"", "\" 1\"", "\"+1\"", "big3"};
    if (depth == 0 || s.chance(1, 3)) { return s.pick(leafs); }
    auto t = [&]() { return soup_term(s, depth - 1); };
    switch (s.draw(11)) {
        case 0: return t() + " - " + t();
        case 1: return t() + " + " + t();
        case 2: return t() + " * " + t();
        case 3: return t() + " / " + t();
        case 4: return "- " + t();
        case 5: return "(" + t() + ")";
        case 6: return "f(" + t() + ")";
        case 7: return "(" + t() + "," + t() + ")";
        case 8: return "g(" + t() + "," + t() + ")";
        case 9: return "(" + t() + ",)";
        default: return s.pick(std::vector<std::string>{"[", "{"}) + t() + s.pick(std::vector<std::string>{"]", "}"});
    }
}

std::string soup(Src &s) {
    static std::vector<std::string> const rels{"<=", ">=", "<", ">", "=", "!="};
    std::string r = "{ a(0..2) }.\n";
    int n = s.range(1, 5);
    for (int i = 0; i < n; ++i) {
        auto d = "&diff { " + soup_term(s, s.range(0, 3)) + " } " + s.pick(rels) + " " + soup_term(s, s.range(0, 2));
        switch (s.draw(5)) {
            case 0: r += d + ".\n"; break;
            case 1: r += d + " :- a(0), not a(1).\n"; break;
            case 2: r += ":- a(1), " + d + ".\n"; break;
            case 3: r += "b :- not " + d + ".\n"; break;
            default: r += "b :- a(2), " + d + ".\n"; break;
        }
    }
    return r;
}

std::string any_text(Case &c) {
    std::string t;
    switch (c.s.draw(3)) {
        case 0: t = soup(c.s); break;
        case 1: {
            net::NetParams q;
            q.cons = 8;
            t = net::gen_net(c.s, q).text;
            break;
        }
        default: {
            Params q;
            q.big = c.s.chance(1, 2);
            t = gen_program(c.s, q).text();
            break;
        }
    }
    if (c.s.chance(1, 2)) { t = mutate_text(c.s, t); }
    // large numbers (that do not let sums of weights exceed the integer range; see DESIGN.md)
    static std::vector<std::pair<std::string, std::string>> const large{
        {"big1", "(2147483647*2147483647)"}, {"big2", "(10000000-20000000)"}, {"big3", "(2147483647+2147483647)"}};
    for (auto const &[from, to] : large) {
        for (size_t p = 0; (p = t.find(from, p)) != std::string::npos; p += to.size()) { t.replace(p, from.size(), to); }
    }
    return t;
}

void text_case(Case &c) {
    auto cfg = any_config(c, 3);
    cfg.cl.emplace_back("--eq=0");
    int n = c.s.weighted({3, 1, 1}) + 1;
    std::vector<std::string> parts;
    c.desc << "options: " << cfg.str() << "\n";
    for (int i = 0; i < n; ++i) {
        parts.push_back((i > 0 ? "#program p" + std::to_string(i) + ".\n" : "") + any_text(c));
        c.desc << "-- part\n" << parts.back();
    }
    c.publish();
    auto threads = threads_of(cfg);
    Stats st;
    guarded(c, st, [&]() {
        drive::Session s(cfg);
        probe(c, s, threads);
        for (int i = 0; i < n; ++i) {
            s.add(parts[i]);
            s.ground({{i > 0 ? "p" + std::to_string(i) : "base", {}}});
            solve(c, s, st, threads);
        }
    });
    c.label("texts");
    c.label(st.errors > 0 ? "texts rejected" : "texts accepted");
    c.label("answers", st.answers);
    c.nontrivial = st.answers > 0 || st.errors > 0;
}

// }}}
// {{{ intermediate format

std::string aspif(Case &c) {
    auto &s = c.s;
    std::ostringstream o;
    o << "asp 1 0 0\n";
    int atoms = s.range(1, 4);
    o << "1 1 " << atoms;
    for (int i = 1; i <= atoms; ++i) { o << " " << i; }
    o << " 0 0\n";
    static std::vector<std::string> const names{"__diff_h", "__diff_b", "diff", "<=", ">=", "<", ">", "=", "!=", "-", "+", "*", "/", "x", "y",
                                                "f", "\"a\"", "\"1.5\"", "\"", "\"\"", "\"a", "a\"", "..", "\\", "**", "#inf", "#sup", "1", "<>", "",
                                                "\"\\\"", "\"\\x\"", "\"2\"", "__null", "0", "-x", "==", "(", " "};
    int id = 0;
    std::vector<int> num, sym, all;
    // useful terms come first
    std::map<std::string, int> known;
    for (auto const *n : {"__diff_h", "__diff_b", "<=", "=", "x", "y", "-"}) {
        o << "9 1 " << id << " " << std::strlen(n) << " " << n << "\n";
        known[n] = id;
        sym.push_back(id);
        all.push_back(id++);
    }
    int nterms = s.range(2, 14);
    static int const nums[] = {0, 1, 2, -1, 3, 10000000, -10000000, 65536};
    for (int i = 0; i < nterms; ++i) {
        switch (s.weighted({2, 2, 6})) {
            case 0:
                o << "9 0 " << id << " " << nums[s.draw(8)] << "\n";
                num.push_back(id);
                break;
            case 1: {
                auto const &n = s.pick(names);
                o << "9 1 " << id << " " << n.size() << " " << n << "\n";
                sym.push_back(id);
                break;
            }
            default: {
                int op = s.chance(2, 3) ? (s.chance(1, 2) ? known["-"] : s.pick(sym)) : -s.range(1, 3);
                int n = s.weighted({1, 3, 6, 1});
                o << "9 2 " << id << " " << op << " " << n;
                for (int j = 0; j < n; ++j) { o << " " << s.pick(all); }
                o << "\n";
                break;
            }
        }
        all.push_back(id++);
    }
    int elems = s.range(1, 4);
    for (int i = 0; i < elems; ++i) {
        int n = s.weighted({1, 8, 1, 1});
        o << "9 4 " << i << " " << n;
        for (int j = 0; j < n; ++j) { o << " " << s.pick(all); }
        int k = s.weighted({8, 1, 1});
        o << " " << k;
        for (int j = 0; j < k; ++j) { o << " " << (s.chance(1, 2) ? -1 : 1) * s.range(1, atoms); }
        o << "\n";
    }
    int n = s.range(1, 5);
    for (int i = 0; i < n; ++i) {
        int a = s.range(0, atoms);
        bool guard = !s.chance(1, 8);
        o << "9 " << (guard ? 6 : 5) << " " << a << " "
          << (s.chance(5, 6) ? known[s.chance(1, 2) ? "__diff_h" : "__diff_b"] : s.pick(all));
        int k = s.weighted({1, 8, 1});
        o << " " << k;
        for (int j = 0; j < k; ++j) { o << " " << s.range(0, elems - 1); }
        if (guard) { o << " " << (s.chance(3, 4) ? known[s.chance(1, 2) ? "<=" : "="] : s.pick(sym)) << " " << s.pick(all); }
        o << "\n";
    }
    for (int i = 1; i <= atoms; ++i) {
        o << "4 1 " << static_cast<char>('a' + i) << " 1 " << i << "\n";
    }
    o << "0\n";
    return o.str();
}

void aspif_case(Case &c) {
    auto cfg = any_config(c, 2);
    auto text = aspif(c);
    c.desc << "options: " << cfg.str() << "\n" << text;
    c.publish();
    auto threads = threads_of(cfg);
    Stats st;
    guarded(c, st, [&]() {
        drive::Session s(cfg);
        s.add(text);
        s.ground();
        solve(c, s, st, threads);
    });
    c.label("intermediate format");
    c.label(st.errors > 0 ? "intermediate format rejected" : "intermediate format accepted");
    c.label("answers", st.answers);
    c.nontrivial = st.answers > 0 || st.errors > 0;
}

// }}}
// {{{ call sequences

void call_case(Case &c) {
    auto cfg = any_config(c, 4);
    cfg.cl.emplace_back("--eq=0");
    cfg.cl.emplace_back("--sat-prepro=no");
    auto threads = threads_of(cfg);
    int n = c.s.range(1, 12);
    c.desc << "options: " << cfg.str() << "\n";
    Stats st;
    // a theory that is created, configured and destroyed without being used
    if (c.s.chance(1, 4)) {
        clingodl_theory_t *t = nullptr;
        drive::check_ret(clingodl_create(&t));
        for (auto const &[k, v] : cfg.dl) { static_cast<void>(clingodl_configure(t, k.c_str(), v.c_str())); }
        if (c.s.chance(1, 2)) { drive::check_ret(clingodl_validate_options(t)); }
        drive::check_ret(clingodl_destroy(t));
        c.label("unused theories");
    }
    int major = -1;
    clingodl_version(&major, nullptr, nullptr);
    clingodl_version(nullptr, nullptr, nullptr);
    PBT_CHECK(c, major >= 0, "no version");
    uint64_t part = 0;
    guarded(c, st, [&]() {
        drive::Session s(cfg);
        for (int i = 0; i < n; ++i) {
            switch (c.s.weighted({4, 4, 2, 2, 2, 1})) {
                case 0: {
                    auto name = part == 0 ? "base" : "p" + std::to_string(part);
                    auto text = "#program " + name + ".\n" + (c.s.chance(1, 8) ? any_text(c) : [&]() {
                        net::NetParams q;
                        q.cons = c.s.range(1, 8);
                        auto t = net::gen_net(c.s, q).text;
                        std::string r;
                        // (distinct atoms per part)
                        for (size_t j = 0; j < t.size(); ++j) {
                            bool start = j == 0 || (std::isalnum(static_cast<unsigned char>(t[j - 1])) == 0 && t[j - 1] != '_');
                            r += t[j];
                            if (start && (t[j] == 'e' || t[j] == 'd') && j + 1 < t.size() && t[j + 1] == '(') { r += "_" + std::to_string(part); }
                        }
                        return r;
                    }());
                    c.desc << "-- add and ground\n" << text;
                    c.publish();
                    s.add(text);
                    s.ground({{name, {}}});
                    ++part;
                    break;
                }
                case 1: {
                    c.desc << "-- solve\n";
                    c.publish();
                    solve(c, s, st, threads);
                    break;
                }
                case 2: {
                    int k = c.s.range(0, 4);
                    bool cancel = c.s.chance(1, 2);
                    c.desc << "-- iterate over " << k << " answers" << (cancel ? " and cancel" : "") << "\n";
                    c.publish();
                    drive::lib([&]() {
                        auto h = s.ctl().solve(Clingo::LiteralSpan{}, nullptr, false, true);
                        for (int j = 0; j < k; ++j) {
                            auto const &m = h.model();
                            if (!m) { break; }
                            drive::check_ret(clingodl_on_model(s.theory(), const_cast<clingo_model_t *>(m.to_c())));
                            ++st.answers;
                            s.read_assignment(m.thread_id());
                            h.resume();
                        }
                        if (cancel) { h.cancel(); }
                        else { h.get(); }
                    });
                    ++st.solved;
                    break;
                }
                case 3: {
                    auto wait = c.s.range(0, 3);
                    int how = c.s.draw(3);
                    // (clasp crashes if parallel solving is stopped while its threads are being started)
                    if (threads > 1) { how = 2; }
                    c.desc << "-- solve in the background, stop after " << wait << " (" << how << ")\n";
                    c.publish();
                    drive::lib([&]() {
                        auto h = s.ctl().solve(Clingo::LiteralSpan{}, nullptr, true, c.s.chance(1, 2));
                        for (int j = 0; j < wait; ++j) { std::this_thread::sleep_for(std::chrono::microseconds(50)); }
                        if (how == 0) { s.ctl().interrupt(); }
                        if (how == 1) { h.cancel(); }
                        else { h.get(); }
                    });
                    ++st.solved;
                    break;
                }
                case 4: {
                    c.desc << "-- probe\n";
                    c.publish();
                    probe(c, s, threads);
                    break;
                }
                default: {
                    c.desc << "-- prepare\n";
                    drive::check_ret(clingodl_prepare(s.theory(), s.ctl().to_c()));
                    break;
                }
            }
        }
    });
    c.label("call sequences");
    c.label("calls solving", st.solved);
    c.label("answers", st.answers);
    if (st.errors > 0) { c.label("call sequences ending with an error"); }
    c.nontrivial = st.solved > 0;
}

// }}}

void p22(Case &c) {
    switch (c.s.weighted({5, 4, 3})) {
        case 0: text_case(c); break;
        case 1: aspif_case(c); break;
        default: call_case(c); break;
    }
}
Register r22("P22",
             "Random and randomly mutated program texts, random theory atoms in intermediate format, and random sequences "
             "of interface calls (also interrupted, cancelled and background solving) with well- and ill-formed options, "
             "run with address and undefined behaviour sanitizers and assertions; every outcome but a crash, a "
             "sanitizer report, a failed assertion, an escaping exception, an unexplained error, or a hang is fine. "
             "Non-trivial: an answer or an error was reported, or a call sequence that solved something.",
             p22);

} // namespace
