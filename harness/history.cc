#include "history.hh"

namespace history {

namespace {

std::string lit_str(Program const &p, Lit const &l) {
    return std::string(l.sign == 1 ? "not " : l.sign == 2 ? "not not " : "") +
           (l.theory ? p.body[l.idx].text : "a(" + std::to_string(l.idx) + ")");
}

std::string rule_str(Program const &p, Rule const &r) {
    std::string o;
    if (r.head == Rule::Atom) { o = "a(" + std::to_string(r.idx) + ")"; }
    if (r.head == Rule::Theory) { o = p.head[r.idx].text; }
    if (!r.body.empty() || r.head == Rule::Integrity) {
        o += r.head == Rule::Integrity ? ":- " : " :- ";
        for (size_t i = 0; i < r.body.size(); ++i) { o += (i > 0 ? ", " : "") + lit_str(p, r.body[i]); }
    }
    return o + ".\n";
}

} // namespace

std::string gen_step(Src &s, History &h, StepParams const &q) {
    auto &p = h.prg;
    std::ostringstream o;
    int nvars = static_cast<int>(p.vars.size()) - 1;
    auto con = [&]() {
        auto r = gen_con(s, nvars, q.weight, true);
        if (q.slack >= 0) { relax(s, r, q.hidden, q.slack); }
        return r;
    };
    int na = s.range(h.step == 0 ? 1 : 0, q.atoms);
    for (int i = 0; i < na; ++i) {
        int a = p.natoms;
        int kind = s.weighted({5, 3, 2});
        p.choice.push_back(false);
        ++p.natoms;
        auto a_str = "a(" + std::to_string(a) + ")";
        if (kind == 0) {
            p.choice[a] = true;
            o << "{ " << a_str << " }.\n";
        } else if (kind == 1) {
            auto v = static_cast<Ext>(s.draw(3));
            h.ext[a] = v;
            o << "#external " << a_str << ". [" << (v == Ext::Free ? "free" : v == Ext::False ? "false" : "true") << "]\n";
        } else {
            // defined by rules over earlier atoms
            int k = s.range(1, 2);
            for (int j = 0; j < k; ++j) {
                Rule r;
                r.head = Rule::Atom;
                r.idx = a;
                int n = s.range(0, a > 0 ? 2 : 0);
                for (int m = 0; m < n; ++m) {
                    Lit l;
                    l.idx = s.range(0, a - 1);
                    l.sign = s.weighted({5, 3, 1});
                    r.body.push_back(l);
                }
                p.rules.push_back(r);
                o << rule_str(p, r);
            }
        }
    }
    int nb = h.candidates() < 8 ? s.range(0, q.body) : 0;
    for (int i = 0; i < nb; ++i) {
        TCon t;
        t.con = con();
        t.text = spell(s, p.vars, t.con);
        o << "t(" << p.body.size() << ") :- " << t.text << ".\n";
        p.body.push_back(t);
    }
    auto gen_body = [&](int maxlen) {
        std::vector<Lit> body;
        int n = s.range(0, maxlen);
        int nbt = nb; // constraints of this step
        for (int i = 0; i < n; ++i) {
            Lit l;
            int total = p.natoms + nbt;
            if (total == 0) { break; }
            int j = s.range(0, total - 1);
            l.theory = j >= p.natoms;
            l.idx = l.theory ? static_cast<int>(p.body.size()) - nbt + j - p.natoms : j;
            l.sign = s.weighted({5, 3, 1});
            body.push_back(l);
        }
        return body;
    };
    int nh = s.range(h.step == 0 ? 1 : 0, q.head);
    for (int i = 0; i < nh; ++i) {
        TCon t;
        if (!p.head.empty() && s.chance(1, 10)) {
            // an existing constraint again
            t = p.head[s.draw(static_cast<uint32_t>(p.head.size()))];
        } else {
            t.con = con();
            t.text = spell(s, p.vars, t.con);
        }
        p.head.push_back(t);
        Rule r;
        r.head = Rule::Theory;
        r.idx = static_cast<int>(p.head.size()) - 1;
        r.body = gen_body(2);
        p.rules.push_back(r);
        o << rule_str(p, r);
    }
    int ni = s.weighted({4, 2, 1});
    for (int i = 0; i < ni; ++i) {
        Rule r;
        r.body = gen_body(3);
        if (r.body.size() < 2) { continue; }
        p.rules.push_back(r);
        o << rule_str(p, r);
    }
    ++h.step;
    return o.str();
}

void run(Case &c, drive::Config cfg, Options const &o, HistoryStats &st) {
    int max_threads = o.max_threads;
    // Equivalence preprocessing of clingo 5.6.2 loses answers in multi-shot solving when any propagator derives a
    // unit clause over a free external or theory atom (reproduced without clingo-dl), so that it has to be disabled.
    cfg.cl.emplace_back("--eq=0");
    // Solvers added between solve calls do not know which variables have been eliminated before by clingo 5.6.2 and
    // report answers once for each of their values (free of any theory).
    if (max_threads > 1) { cfg.cl.emplace_back("--sat-prepro=no"); }
    History h;
    bool wide = c.s.chance(1, 40);
    bool lengthy = !wide && c.s.chance(1, 12);
    int nv = wide ? c.s.range(10, 30) : c.s.range(2, 5);
    h.prg.vars = gen_vars(c.s, nv, o.rich);
    StepParams q;
    switch (c.s.draw(3)) {
        case 0: break;
        case 1: q.weight = 2; break;
        default:
            q.atoms = 2;
            q.head = 2;
            q.body = 1;
    }
    if (wide) {
        q.atoms = 2;
        q.body = 1;
        q.head = 25;
        q.weight = 60;
        q.slack = c.s.pick(std::vector<int>{0, 3, 20});
        q.hidden.push_back(0);
        for (int i = 0; i < nv; ++i) { q.hidden.push_back(c.s.sym(q.weight)); }
        c.label("many variables");
    }
    if (lengthy) {
        q.atoms = 1;
        c.label("long histories");
    }
    if (!o.strict) { q.body = 0; }
    bool with_threads = max_threads > 1;
    c.desc << "options: " << cfg.str() << "\n";
    std::vector<literal_t> none;
    auto fail = [&](std::string const &m) { c.fail(m); };
    try {
        drive::Session s(cfg);
        if (o.on_create) { o.on_create(s); }
        auto add = [&]() {
            int k = h.step;
            auto text = gen_step(c.s, h, q);
            std::string name = k == 0 ? "base" : "s" + std::to_string(k);
            if (k == 0) { text = "#show a/1.\n#show t/1.\n" + text; }
            c.desc << "-- add and ground " << name << "\n" << text;
            c.publish();
            s.add("#program " + name + ".\n" + text);
            s.ground({{name, {}}});
        };
        if (o.probe) { o.probe(s, h); }
        add();
        if (o.probe) { o.probe(s, h); }
        int ops = lengthy ? c.s.range(10, 25) : c.s.range(2, 9);
        for (int op = 0; op < ops; ++op) {
            // the last operation solves
            int kind = op + 1 == ops ? 1 : c.s.weighted({4, 6, 3, 1, 1, with_threads ? 2 : 0});
            if (kind == 0 && h.candidates() < 11) {
                add();
            } else if (kind == 0 || kind == 1) {
                auto p = h.current();
                drive::SolveOpts opts;
                // assumptions over atoms
                std::vector<std::pair<int, bool>> assume;
                std::vector<std::pair<int, bool>> assume_theory;
                if (c.s.chance(1, 4) && h.prg.natoms > 0) {
                    int n = c.s.range(1, 2);
                    for (int i = 0; i < n; ++i) {
                        int a = c.s.range(0, h.prg.natoms - 1);
                        bool sign = c.s.chance(1, 2);
                        auto lit = s.literal("a(" + std::to_string(a) + ")");
                        if (lit == 0) { continue; }
                        assume.emplace_back(a, !sign);
                        opts.assumptions.push_back(sign ? -lit : lit);
                    }
                }
                if (!h.prg.body.empty() && c.s.chance(1, 8)) {
                    int k = c.s.range(0, static_cast<int>(h.prg.body.size()) - 1);
                    bool sign = c.s.chance(1, 2);
                    auto lit = s.literal("t(" + std::to_string(k) + ")");
                    if (lit != 0) {
                        assume_theory.emplace_back(k, !sign);
                        opts.assumptions.push_back(sign ? -lit : lit);
                        c.label("assumed constraint");
                    }
                }
                if (c.s.chance(1, 5)) { opts.limit = c.s.range(1, 2); }
                c.desc << "-- solve";
                for (auto [a, v] : assume) { c.desc << " " << (v ? "" : "not ") << "a(" << a << ")"; }
                for (auto [a, v] : assume_theory) { c.desc << " " << (v ? "" : "not ") << "t(" << a << ")"; }
                if (opts.limit > 0) { c.desc << " limit " << opts.limit; }
                // Note: clingo 5.6.2 crashes if background solving with several threads is stopped
                if (max_threads == 1 && c.s.chance(1, 3)) {
                    static char const *const modes[] = {"", "yield", "async", "interrupt"};
                    opts.mode = static_cast<drive::SolveMode>(c.s.range(1, 3));
                    c.label(modes[static_cast<int>(opts.mode)]);
                    c.desc << " " << modes[static_cast<int>(opts.mode)];
                }
                c.desc << "\n";
                c.publish();
                auto as = answers(p);
                std::set<std::string> expect;
                for (auto const &a : as) {
                    bool ok = std::all_of(assume.begin(), assume.end(),
                                          [&](auto const &x) { return a.atoms[x.first] == x.second; }) &&
                              std::all_of(assume_theory.begin(), assume_theory.end(),
                                          [&](auto const &x) { return a.truth[x.first] == x.second; });
                    if (ok) { expect.insert(a.key()); }
                }
                if (o.on_model) {
                    opts.on_model = [&](drive::Session &x, Clingo::Model &m, drive::Answer &a) { o.on_model(x, h, m, a); };
                }
                opts.call_theory_stats = o.stats;
                if (o.on_stats) {
                    opts.on_stats = [&](Clingo::UserStatistics a, Clingo::UserStatistics b) { o.on_stats(s, h, a, b); };
                }
                if (o.before_solve) { o.before_solve(s, h); }
                auto r = s.solve(opts);
                if (o.after_solve) { o.after_solve(s, h, r); }
                ++st.solves;
                if (o.compare) {
                    std::string where = "solve call " + std::to_string(st.solves) + ": ";
                    auto got = r.atom_sets();
                    for (auto const &g : got) {
                        if (expect.count(g) == 0) { fail(where + "answer invented: {" + g + "}"); }
                    }
                    if (opts.limit == 0) {
                        for (auto const &e : expect) {
                            if (got.count(e) == 0) { { std::string g; for (auto const &x : got) { g += " {" + x + "}"; } fail(where + "answer lost: {" + e + "}, got" + g); } }
                        }
                        if (r.full_sets().size() != r.answers.size()) {
                            std::string all;
                            for (auto const &a : r.answers) { all += "\n" + a.str() + " (thread " + std::to_string(a.thread) + ")"; }
                            fail(where + "an answer is reported twice:" + all);
                        }
                    }
                    if (r.sat == expect.empty() || r.unsat == !expect.empty()) { fail(where + "wrong satisfiability status"); }
                    for (auto const &a : r.answers) { check_witness(c, p, a); }
                }
                if (st.solves > 1) {
                    st.later_answers += static_cast<int>(r.answers.size());
                    size_t cand = 0;
                    auto nc = static_cast<int>(std::count(p.choice.begin(), p.choice.end(), true));
                    for (uint64_t t = 0; t < (1ull << p.body.size()); ++t) {
                        for (uint64_t ch = 0; ch < (1ull << nc); ++ch) {
                            RefAnswer a;
                            if (evaluate(p, ch, t, a)) { ++cand; }
                        }
                    }
                    if (cand > as.size()) { ++st.later_excluded; }
                }
            } else if (kind == 2) {
                std::vector<int> ext;
                for (auto const &[a, v] : h.ext) {
                    if (v != Ext::Released) { ext.push_back(a); }
                }
                if (ext.empty()) { continue; }
                int a = ext[c.s.draw(static_cast<uint32_t>(ext.size()))];
                auto sym = Clingo::parse_term(("a(" + std::to_string(a) + ")").c_str());
                auto v = static_cast<Ext>(c.s.weighted({3, 3, 3, 1}));
                static char const *names[] = {"free", "false", "true", "released"};
                c.desc << "-- external a(" << a << ") " << names[static_cast<int>(v)] << "\n";
                h.ext[a] = v;
                drive::lib([&]() {
                    if (v == Ext::Released) {
                        s.ctl().release_external(sym);
                    } else {
                        s.ctl().assign_external(sym, v == Ext::Free    ? Clingo::TruthValue::Free
                                                     : v == Ext::False ? Clingo::TruthValue::False
                                                                       : Clingo::TruthValue::True);
                    }
                });
            } else if (kind == 3) {
                c.desc << "-- cleanup\n";
                drive::lib([&]() { s.ctl().cleanup(); });
            } else if (kind == 4) {
                // ground nothing new
                c.desc << "-- ground an empty part\n";
                s.ground({{"nothing", {}}});
            } else {
                int t = c.s.range(1, max_threads);
                auto m = std::to_string(t) + (c.s.chance(1, 2) ? ",split" : ",compete");
                c.desc << "-- threads " << m << "\n";
                drive::lib([&]() { s.ctl().configuration()["solve"]["parallel_mode"] = m.c_str(); });
            }
            if (o.probe) { o.probe(s, h); }
        }
    } catch (drive::LibError const &e) { c.fail(std::string("error in a valid history: ") + e.what()); }
}

} // namespace history
