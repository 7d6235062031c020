// P15: text and aspif round trips.
#include "expr.hh"
#include "tool.hh"
#include <unistd.h>

using namespace pbt;
using namespace gen;

namespace {

drive::Solved solve_text(std::string const &text, drive::Config const &cfg) {
    drive::Session s(cfg);
    s.add(text);
    s.ground();
    return s.solve();
}

//! Add spaces where the text printed by clingo cannot be read by clingo ("<=(0):-&..." has an operator ":-&").
std::string readable(std::string s) {
    for (size_t i = s.find(":-&"); i != std::string::npos; i = s.find(":-&", i)) { s.replace(i, 3, ":- &"); }
    return s;
}

template <class A> std::multiset<std::string> full(std::vector<A> const &as) {
    std::multiset<std::string> r;
    for (auto const &a : as) { r.insert(a.str()); }
    return r;
}

void p15(Case &c) {
    Params q;
    if (c.s.chance(1, 3)) {
        q.max_vars = 3;
        q.max_head = 7;
        q.max_rules = 12;
    }
    if (c.s.chance(1, 30)) {
        widen(c.s, q);
        c.label("many variables");
    }
    auto p = gen_program(c.s, q);
    bool exprs = c.s.chance(1, 2);
    expr::Gen g{c.s, p.vars};
    if (exprs) {
        for (auto *v : {&p.body, &p.head}) {
            for (auto &t : *v) {
                expr::Form rhs = g.random();
                expr::Form d;
                d.co.assign(p.vars.size(), 0);
                if (t.con.u != 0) { d.co[t.con.u] += 1; }
                if (t.con.v != 0) { d.co[t.con.v] -= 1; }
                d.k = -t.con.k;
                g.budget = c.s.range(0, 6);
                g.bind.clear();
                auto l = g.form(expr::add(rhs, d)).t;
                auto r = g.form(rhs).t;
                t.text = "&diff { " + l + " } " + ref::rel_str(t.con.rel) + " " + r;
                t.bind = g.bind;
            }
        }
        std::ostringstream extra;
        for (auto k : g.defs) { extra << "#const c" << expr::Gen::cname(k) << " = " << k << ".\n"; }
        for (auto k : g.consts) { extra << "k_" << expr::Gen::cname(k) << "(" << k << ").\n"; }
        p.extra = extra.str();
    }
    ConfParams cp;
    cp.shift = true;
    cp.cc = true;
    auto cfg = gen_config(c.s, cp);
    bool shift = false;
    for (auto const &[k, v] : cfg.dl) { shift = shift || (k == "shift-constraints" && v == "yes"); }
    c.desc << "options: " << cfg.str() << "\n" << p.text();
    c.publish();
    std::set<std::string> expect;
    for (auto const &a : answers(p)) { expect.insert(a.key()); }
    auto file = c.scratch + "/p15.lp";
    tool::write_file(file, p.text());
    auto bin = c.bindir + "/clingo-dl";
    std::vector<std::string> base{bin};
    if (shift) { base.emplace_back("--shift-constraints"); }
    auto text_args = base;
    text_args.insert(text_args.end(), {"--text", file});
    auto aspif_args = base;
    aspif_args.insert(aspif_args.end(), {"--mode=gringo", file});
    drive::Solved direct;
    try {
        direct = solve_text(p.text(), cfg);
    } catch (drive::LibError const &e) { c.fail(std::string("error on a valid program: ") + e.what()); }
    auto fd = full(direct.answers);
    bool exact = false;
    for (auto const &[k, v] : cfg.dl) { exact = exact || (k == "compute-components" && v == "no"); }
    auto compare = [&](std::string const &what, std::vector<drive::Answer> const &as) {
        std::set<std::string> atoms;
        for (auto const &a : as) { atoms.insert(a.atoms_str()); }
        for (auto const &e : expect) { PBT_CHECK(c, atoms.count(e) != 0, what << ": answer lost: {" << e << "}"); }
        for (auto const &e : atoms) { PBT_CHECK(c, expect.count(e) != 0, what << ": answer invented: {" << e << "}"); }
        for (auto a : as) {
            a.api = a.dl; // the tool does not show the assignment
            check_witness(c, p, a);
        }
        // Note: preprocessing may determine other literals in a printed program, which can lead to other components
        // and thus to other (also valid) values
        if (!exact) {
            PBT_CHECK(c, as.size() == fd.size(), what << ": " << as.size() << " answers instead of " << fd.size());
            return;
        }
        c.label("exact values");
        auto f = full(as);
        for (auto const &x : fd) { PBT_CHECK(c, f.count(x) == fd.count(x), what << ": answer missing: " << x); }
        PBT_CHECK(c, f.size() == fd.size(), what << ": " << f.size() << " answers instead of " << fd.size());
    };
    // text
    auto t = tool::run(text_args);
    PBT_CHECK(c, t.rc == 0 && !t.timeout, "exit code " << t.rc << " while printing text: " << t.err);
    t.out = readable(t.out);
    drive::Solved r;
    try {
        r = solve_text(t.out, cfg);
    } catch (drive::LibError const &e) { c.fail(std::string("error in printed program: ") + e.what() + "\n" + t.out); }
    compare("text", r.answers);
    for (auto const &a : r.answers) { check_witness(c, p, a); }
    // text of the printed program
    if (c.s.chance(1, 4)) {
        tool::write_file(file, t.out);
        auto t2 = tool::run(text_args);
        PBT_CHECK(c, t2.rc == 0, "exit code " << t2.rc << " while printing the printed program: " << t2.err);
        t2.out = readable(t2.out);
        try {
            r = solve_text(t2.out, cfg);
        } catch (drive::LibError const &e) { c.fail(std::string("error in printed program: ") + e.what() + "\n" + t2.out); }
        compare("text twice", r.answers);
        tool::write_file(file, p.text());
        c.label("printed twice");
    }
    // intermediate format
    auto a = tool::run(aspif_args);
    PBT_CHECK(c, a.rc == 0 && !a.timeout, "exit code " << a.rc << " while printing aspif: " << a.err);
    // Note: clingo's reader garbles strings at the border of its buffer of 8192 bytes
    if (a.out.size() > 8000) {
        unlink(file.c_str());
        c.label("intermediate format too large");
        c.nontrivial = direct.answers.size() > 1 && !p.head.empty();
        return;
    }
    auto afile = c.scratch + "/p15.aspif";
    tool::write_file(afile, a.out);
    auto solve_args = base;
    for (auto const &[k, v] : cfg.dl) {
        if (k == "compute-components") {
            solve_args.emplace_back(v == "no" ? "--no-" + k : "--" + k);
        } else if (k != "shift-constraints") {
            solve_args.emplace_back("--" + k + "=" + v);
        }
    }
    for (auto const &x : cfg.cl) { solve_args.push_back(x); }
    bool pipe = c.s.chance(1, 3);
    solve_args.push_back(pipe ? "-" : afile);
    auto s = tool::run(solve_args, pipe ? a.out : "");
    PBT_CHECK(c, !s.timeout && (s.rc == 30 || s.rc == 20), "exit code " << s.rc << " while solving aspif: " << s.err);
    compare("aspif", tool::parse(s.out).answers);
    unlink(file.c_str());
    unlink(afile.c_str());
    if (exprs) { c.label("with expressions"); }
    if (pipe) { c.label("piped"); }
    c.label("intermediate format");
    c.label("answers", direct.answers.size());
    c.nontrivial = direct.answers.size() > 1 && !p.head.empty();
}
Register r15("P15",
             "Random programs printed with --text and --mode=gringo by the command line tool; the printed text is solved "
             "through the library and the intermediate format with the tool; answers with values compared with direct "
             "solving and the brute-force reference. Non-trivial: more than one answer.",
             p15);

} // namespace
