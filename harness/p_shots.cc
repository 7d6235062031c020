// P07, P08: multi-shot histories and parallel solving.
#include "history.hh"
#include "huge.hh"

using namespace pbt;
using namespace gen;


namespace {

void p07(Case &c) {
    ConfParams cp;
    cp.cc = cp.shift = true;
    auto cfg = gen_config(c.s, cp);
    history::HistoryStats st;
    history::run(c, cfg, {}, st);
    c.nontrivial = st.later_excluded > 0;
    c.label("solve calls", st.solves);
    c.label("answers in later calls", st.later_answers);
    if (st.later_answers > 0) { c.label("later answers"); }
}
Register r07("P07",
             "Random histories of adding and grounding parts (sharing atoms and variables), assigning and releasing "
             "externals, cleanup, and solving with assumptions and answer limits under random options; each solve "
             "call is compared with brute-force reference answers of the accumulated program and every answer's "
             "values are evaluated. Non-trivial: in a call after the first, constraints exclude some candidate.",
             p07);

void p08(Case &c) {
    if (huge::chance(c, 500)) { return huge::threads(c); }
    int threads = c.s.range(2, 4);
    if (c.s.chance(1, 16)) {
        threads = c.s.range(5, 12);
        c.label("more than 4 threads");
    }
    ConfParams cp;
    cp.cc = true;
    cp.threads = threads;
    auto cfg = gen_config(c.s, cp);
    if (threads <= 4) { c.label(std::to_string(threads) + " threads"); }
    if (c.s.chance(1, 2)) {
        // histories with a varying number of threads
        history::HistoryStats st;
        if (c.s.chance(1, 2)) {
            // start with a single thread
            for (auto &a : cfg.cl) {
                if (a.rfind("-t", 0) == 0) { a = "-t1"; }
            }
        }
        history::Options o;
        o.max_threads = threads;
        history::run(c, cfg, o, st);
        c.nontrivial = st.later_excluded > 0;
        c.label("histories");
        return;
    }
    Params q;
    q.max_choice = 6;
    q.max_head = 8;
    q.max_rules = 12;
    q.max_defined = 2;
    q.weight = c.s.range(2, 4);
    if (c.s.chance(1, 25)) {
        widen(c.s, q);
        c.label("many variables");
    }
    auto p = gen_program(c.s, q);
    c.desc << "options: " << cfg.str() << "\n" << p.text();
    c.publish();
    try {
        std::set<std::string> expect;
        auto as = answers(p);
        for (auto const &a : as) { expect.insert(a.key()); }
        drive::Session s(cfg);
        s.add(p.text());
        s.ground();
        auto r = s.solve();
        auto got = r.atom_sets();
        for (auto const &e : expect) { PBT_CHECK(c, got.count(e) != 0, "answer lost: {" << e << "}"); }
        for (auto const &g : got) { PBT_CHECK(c, expect.count(g) != 0, "answer invented: {" << g << "}"); }
        PBT_CHECK(c, r.full_sets().size() == r.answers.size(), "an answer is reported twice");
        PBT_CHECK(c, r.unsat == expect.empty() && r.sat == !expect.empty(), "wrong satisfiability status");
        std::set<uint32_t> ids;
        for (auto const &a : r.answers) {
            check_witness(c, p, a);
            ids.insert(a.thread);
            PBT_CHECK(c, static_cast<int>(a.thread) < threads, "answer of unknown thread");
        }
        c.label("answers", r.answers.size());
        if (ids.size() > 1) { c.label("answers from several threads"); }
        if (!ids.empty() && *ids.rbegin() > 0) { c.label("answers from threads other than the first"); }
        c.nontrivial = r.answers.size() > 1;
        c.label("programs");
    } catch (drive::LibError const &e) { c.fail(std::string("error on a valid program: ") + e.what()); }
}
Register r08("P08",
             "Random programs and multi-shot histories solved with 2 to 4 (rarely up to 12) threads (compete or split) and different "
             "options per thread, the number of threads changing in histories; answers compared with brute-force "
             "reference answers and every answer's values evaluated for its thread; rarely instances with thousands of constraints. Non-trivial: several answers, or "
             "constraints excluding candidates in a later call.",
             p08);

} // namespace
