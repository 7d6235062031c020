// P13, P14: rewriting of statements.
#include "gen.hh"
#include <algorithm>

using namespace pbt;
using namespace gen;

namespace {

using Clingo::AST::Attribute;
using Clingo::AST::Node;
using Clingo::AST::NodeVector;
using Clingo::AST::Type;

//! Generator for statements; diff atoms are written as &@h and &@b depending on their place.
struct Stm {
    Src &s;
    bool diff{true};
    int ndiff{0};
    int npool{0};
    int pools{0};
    int depth{0};

    std::string num() { return std::to_string(s.range(0, 4)); }
    std::string pick(std::vector<std::string> const &v) { return s.pick(v); }
    std::string var() { return pick({"X", "Y", "Z"}); }
    std::string term() {
        if (depth > 2) { return num(); }
        ++depth;
        std::string r;
        switch (s.weighted({4, 4, 3, 2, 2, 2, 2, 1, 2, 1, 1, 1})) {
            case 0: r = var(); break;
            case 1: r = num(); break;
            case 2: r = pick({"a", "b", "cde", "x'"}); break;
            case 3: r = term() + pick({"+", "-", "*", "/", "\\", "**", "&", "?", "^"}) + term(); break;
            case 4: r = pick({"f", "g", "diff", "dl"}) + "(" + term() + "," + term() + ")"; break;
            case 5: r = "(" + term() + "," + term() + ")"; break;
            case 6: r = num() + ".." + num(); break;
            case 7: r = pick({"-", "~"}) + term(); break;
            case 8:
                // (expanding many pools in one statement takes clingo forever)
                if (npool == 2) {
                    r = num();
                    break;
                }
                ++npool;
                ++pools;
                r = "(" + term() + ";" + term() + ")";
                break;
            case 9: r = pick({"\"str\"", "\"a\\\"b\"", "#sup", "#inf", "\"\""}); break;
            case 10: r = "|" + term() + "|"; break;
            default: r = "@ext(" + term() + ")"; break;
        }
        --depth;
        return r;
    }
    std::string atom() {
        std::string r = (s.chance(1, 8) ? "-" : "") + pick({"p", "q", "r", "diff", "__diff_h", "dl"});
        if (s.chance(3, 4)) {
            r += "(" + term();
            if (s.chance(1, 3)) { r += "," + term(); }
            if (npool < 2 && s.chance(1, 6)) {
                ++npool;
                ++pools;
                r += ";" + term();
            }
            r += ")";
        }
        return r;
    }
    std::string sign() { return pick({"", "", "", "not ", "not not "}); }
    std::string simple() {
        switch (s.weighted({5, 2, 1})) {
            case 0: return sign() + atom();
            case 1: return sign() + term() + pick({" < ", " <= ", " = ", " != ", ">"}) + term() + (s.chance(1, 6) ? " < " + term() : "");
            default: return sign() + pick({"#true", "#false"});
        }
    }
    std::string cond() {
        std::string r = " : " + simple();
        if (s.chance(1, 3)) { r += ", " + simple(); }
        return r;
    }
    //! Term of the theory of difference constraints.
    std::string tterm() {
        if (depth > 2) { return num(); }
        ++depth;
        std::string r;
        switch (s.weighted({4, 3, 3, 3, 2, 2, 1, 1})) {
            case 0: r = var(); break;
            case 1: r = num(); break;
            case 2: r = pick({"a", "b", "diff"}); break;
            case 3: r = tterm() + pick({" + ", " - ", " * ", " / "}) + tterm(); break;
            case 4: r = pick({"f", "diff"}) + "(" + tterm() + "," + tterm() + ")"; break;
            case 5: r = "(" + tterm() + "," + tterm() + ")"; break;
            case 6: r = "-" + tterm(); break;
            default: r = "\"1.5\"";
        }
        --depth;
        return r;
    }
    std::string rel() { return pick({"<=", ">=", "<", ">", "=", "!="}); }
    std::string diffatom(char const *tag) {
        ++ndiff;
        return std::string("&@") + tag + " { " + tterm() + " - " + tterm() + " } " + rel() + " " + tterm();
    }
    //! Atom of another theory.
    std::string other() {
        std::string name = pick({"sum", "foo", "diffs", "diff(x)", "diff(X,1)", "dom(1)", "minimize", "__diff", "__diff_x"});
        std::string r = "&" + name;
        if (s.chance(3, 4)) {
            r += " { ";
            int n = s.range(0, 2);
            for (int i = 0; i < n; ++i) {
                r += (i > 0 ? "; " : "") + tterm() + (s.chance(1, 3) ? "," + tterm() : "") + (s.chance(1, 3) ? cond() : "");
            }
            r += " }";
            if (s.chance(1, 2)) { r += " " + rel() + " " + tterm(); }
        }
        return r;
    }
    std::string agg(bool set) {
        std::string r = s.chance(1, 2) ? term() + pick({" <= ", " ", " = "}) : "";
        int n = s.range(0, 2);
        if (set) {
            r += "{ ";
            for (int i = 0; i < n; ++i) { r += (i > 0 ? "; " : "") + sign() + atom() + (s.chance(1, 2) ? cond() : ""); }
        } else {
            r += pick({"#sum", "#count", "#min", "#max", "#sum+"}) + " { ";
            for (int i = 0; i < n; ++i) {
                r += (i > 0 ? "; " : "") + term() + (s.chance(1, 2) ? "," + term() : "") + (s.chance(2, 3) ? cond() : "");
            }
        }
        r += " }";
        if (s.chance(1, 2)) { r += pick({" <= ", " >= ", " != "}) + num(); }
        return r;
    }
    std::string literal() {
        switch (s.weighted({6, diff ? 4 : 0, 1, 1, 1, 2})) {
            case 0: return simple();
            case 1: return sign() + diffatom("b");
            case 2: return sign() + agg(false);
            case 3: return sign() + agg(true);
            case 4: return simple() + cond() + ";";
            default: return sign() + other();
        }
    }
    std::string body(int min = 0) {
        std::string r;
        int n = s.range(min, 3);
        for (int i = 0; i < n; ++i) {
            auto l = literal();
            bool semi = l.back() == ';';
            if (semi) { l.pop_back(); }
            r += l + (i + 1 < n ? (semi ? "; " : pick({", ", "; ", ", "})) : "");
        }
        return r;
    }
    std::string withbody(std::string const &h, std::string const &sep = " :- ") {
        auto b = body();
        return b.empty() ? h + "." : h + sep + b + ".";
    }
    std::string statement() {
        npool = 0;
        switch (s.weighted({4, diff ? 5 : 0, 2, 2, 4, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1})) {
            case 0: return withbody(atom());
            case 1: return withbody(diffatom("h"));
            case 2: return withbody(agg(true));
            case 3: return withbody(atom() + (s.chance(1, 2) ? cond() : "") + "; " + sign() + atom());
            case 4: {
                auto h = pick({"", "", "#false", "not #true", "not not #false", "#true"});
                return withbody(h.empty() ? " " : h);
            }
            case 5: return withbody(other());
            case 6: return "#show " + pick({"p/1", "-q/2", "diff/1"}) + ".";
            case 7: {
                auto t = term();
                auto b = body();
                return b.empty() ? "#show " + t + "." : "#show " + t + " : " + b + ".";
            }
            case 8: return "#const n" + num() + " = " + pick({"1", "a", "\"x\"", "2+3"}) + ".";
            case 9: {
                auto b = body();
                return "#external " + atom() + (b.empty() ? "" : " : " + b) + "." + pick({"", " [true]", " [free]", " [X]"});
            }
            case 10: return ":~ " + body(1) + ". [" + term() + pick({"", "@1", "@X"}) + (s.chance(1, 2) ? "," + term() : "") + "]";
            case 11: return "#minimize { " + term() + "@" + num() + "," + term() + cond() + " }.";
            case 12: {
                auto b = body();
                return "#heuristic " + atom() + (b.empty() ? "" : " : " + b) + ". [" + term() + "@" + num() + ",level]";
            }
            case 13: {
                auto b = body();
                return "#edge (" + term() + "," + term() + ")" + (b.empty() ? "" : " : " + b) + ".";
            }
            case 14: {
                if (s.chance(1, 2)) { return "#project p/1."; }
                auto b = body();
                return "#project " + atom() + (b.empty() ? "" : " : " + b) + ".";
            }
            case 15: return "#program part" + num() + "(" + pick({"", "t", "x,y"}) + ").";
            case 16: return "#theory t" + num() + " { tt { + : 1, binary, left; - : 2, unary }; &foo/1 : tt, {<=,=}, tt, any; &diffs/0 : tt, head }.";
            default: return pick({"#defined p/1.", "#maximize { 1,X : p(X) }.", "{ p(1) : q(2) } = 1.", "p(1..3).", "#show.", "#sum { 1 : p } = 1 :- q."});
        }
    }
};

std::string replace(std::string s, std::string const &h, std::string const &b) {
    for (auto const &[from, to] : {std::pair<std::string, std::string>{"&@h", "&" + h}, {"&@b", "&" + b}}) {
        for (size_t i = s.find(from); i != std::string::npos; i = s.find(from, i)) { s.replace(i, from.size(), to); }
    }
    return s;
}

std::vector<Node> parse(std::string const &prg) {
    std::vector<Node> res;
    drive::lib([&]() {
        Clingo::AST::parse_string(prg.c_str(), [&](Node const &n) { res.push_back(n); },
                                  [](Clingo::WarningCode, char const *) {}, 100);
    });
    return res;
}

struct Theory {
    clingodl_theory_t *t{nullptr};
    explicit Theory(bool shift) {
        drive::check_ret(clingodl_create(&t));
        if (shift) { drive::check_ret(clingodl_configure(t, "shift-constraints", "yes")); }
    }
    ~Theory() { clingodl_destroy(t); }
    std::vector<Node> rewrite(Node const &n) const {
        std::vector<Node> res;
        drive::check_ret(clingodl_rewrite_ast(
            t, n.to_c(),
            [](clingo_ast_t *ast, void *data) {
                clingo_ast_acquire(ast);
                static_cast<std::vector<Node> *>(data)->emplace_back(ast);
                return true;
            },
            &res));
        return res;
    }
};

std::vector<Node> unpool(std::vector<Node> const &in) {
    std::vector<Node> res;
    for (auto const &n : in) {
        for (auto &m : n.unpool()) { res.push_back(m); }
    }
    return res;
}

std::string str(std::vector<Node> const &ns) {
    std::string r;
    for (auto const &n : ns) { r += n.to_string() + "\n"; }
    return r;
}

//! Replace the name of difference constraints by a symbolic term.
Node symbolic(Node const &ast) {
    struct T {
        Node operator()(Node const &n) const {
            if (n.type() == Type::TheoryAtom) {
                auto term = n.get<Node>(Attribute::Term);
                if (term.to_string() == "diff") {
                    auto ret = n.copy();
                    ret.set(Attribute::Term, Node{Type::SymbolicTerm, term.get<Clingo::Location>(Attribute::Location),
                                                  Clingo::Symbol{Clingo::Function("diff", {})}});
                    return ret;
                }
            }
            return n.transform_ast(*this);
        }
    };
    return T{}(ast);
}

void rewriting(Case &c) {
    Stm g{c.s};
    g.diff = c.s.chance(3, 4);
    bool shift = c.s.chance(1, 3);
    std::string txt;
    int n = c.s.range(1, 3);
    for (int i = 0; i < n; ++i) { txt += g.statement() + "\n"; }
    auto prg = replace(txt, "diff", "diff");
    c.desc << (shift ? "with shifting\n" : "") << prg;
    c.publish();
    std::vector<Node> in;
    std::vector<Node> expect;
    try {
        in = parse(prg);
        expect = unpool(parse(replace(txt, "__diff_h", "__diff_b")));
    } catch (drive::LibError const &e) { throw Discard("no program"); }
    Theory t{shift};
    std::vector<Node> copies;
    for (auto const &x : in) { copies.push_back(x.deep_copy()); }
    auto before = str(in);
    std::vector<Node> out;
    for (auto const &x : in) {
        std::vector<Node> o;
        try {
            o = t.rewrite(x);
        } catch (drive::LibError const &e) { c.fail("error rewriting " + x.to_string() + ": " + e.what()); }
        for (auto &y : o) { out.push_back(y); }
    }
    PBT_CHECK(c, before == str(in) && in == copies, "rewriting changed its input to\n" << str(in));
    // integrity constraints with difference constraints are subject to shifting
    std::vector<bool> shifted(expect.size(), false);
    PBT_CHECK(c, out.size() == expect.size(), "number of statements: expected\n" << str(expect) << "got\n" << str(out));
    for (size_t i = 0; i < out.size(); ++i) {
        if (shift && expect[i].type() == Type::Rule) {
            auto h = expect[i].get<Node>(Attribute::Head).to_string();
            shifted[i] = (h == "#false" || h == "not #true" || h == "not not #false") &&
                         expect[i].to_string().find("&__diff_b") != std::string::npos;
        }
        if (shifted[i]) {
            c.label("shifted");
            continue;
        }
        PBT_CHECK(c, out[i].to_string() == expect[i].to_string() && out[i] == expect[i],
                  "expected\n" << expect[i].to_string() << "\ngot\n" << out[i].to_string());
    }
    // rewriting is idempotent
    for (auto const &o : out) {
        auto again = t.rewrite(o);
        PBT_CHECK(c, again.size() == 1 && again[0] == o, "rewriting again changes\n" << o.to_string() << "\nto\n" << str(again));
    }
    // ... and does not depend on how the name of the atom is represented
    if (g.ndiff > 0) {
        std::vector<Node> alt;
        for (auto const &x : in) {
            auto y = symbolic(x);
            auto s = y.to_string();
            auto copy = y.deep_copy();
            for (auto &z : t.rewrite(y)) { alt.push_back(z); }
            PBT_CHECK(c, y.to_string() == s && y == copy, "rewriting changed its input to\n" << y.to_string());
        }
        PBT_CHECK(c, str(alt) == str(out), "with symbolic terms got\n" << str(alt) << "instead of\n" << str(out));
    }
    // ... or on how a truth value in the head is represented (the parser does not use signs)
    for (auto const &x : in) {
        if (x.type() != Type::Rule) { continue; }
        auto head = x.get<Node>(Attribute::Head);
        if (head.type() != Type::Literal) { continue; }
        auto atom = head.get<Node>(Attribute::Atom);
        if (atom.type() != Type::BooleanConstant) { continue; }
        auto y = x.deep_copy();
        auto h = head.deep_copy();
        auto a = atom.deep_copy();
        auto sign = head.get<int>(Attribute::Sign);
        if (c.s.chance(2, 3)) {
            a.set(Attribute::Value, atom.get<int>(Attribute::Value) == 0 ? 1 : 0);
            h.set(Attribute::Sign, static_cast<int>(sign == static_cast<int>(Clingo::AST::Sign::Negation) ? Clingo::AST::Sign::NoSign
                                                                                                  : Clingo::AST::Sign::Negation));
        } else {
            h.set(Attribute::Sign, static_cast<int>(sign == static_cast<int>(Clingo::AST::Sign::Negation) ? Clingo::AST::Sign::Negation
                                                                                                  : Clingo::AST::Sign::DoubleNegation));
        }
        h.set(Attribute::Atom, a);
        y.set(Attribute::Head, h);
        auto xs = t.rewrite(x);
        auto ys = t.rewrite(y);
        PBT_CHECK(c, xs.size() == ys.size(), "number of statements: expected\n" << str(xs) << "got\n" << str(ys));
        for (size_t i = 0; i < xs.size(); ++i) {
            auto z = ys[i].deep_copy();
            if (z.get<Node>(Attribute::Head).to_string() == h.to_string()) { z.set(Attribute::Head, head); }
            PBT_CHECK(c, z.to_string() == xs[i].to_string(), "rewriting " << y.to_string() << " gives\n" << ys[i].to_string() << "\nbut rewriting " << x.to_string() << " gives\n" << xs[i].to_string());
        }
        c.label("truth values with signs in heads");
    }
    c.label(g.ndiff > 0 ? "statements with difference constraints" : "statements without difference constraints");
    if (g.pools > 0) { c.label("with pools"); }
    c.nontrivial = g.ndiff > 0 || g.pools > 0 || n > 1;
}

// Programs without difference constraints.

struct Pure {
    Src &s;
    std::string pick(std::vector<std::string> const &v) { return s.pick(v); }
    std::string num() { return std::to_string(s.range(1, 3)); }
    std::string pred() { return pick({"p", "q", "r", "diff", "dl"}); }
    std::string arg() { return pick({"X", "X", "Y", "X+1", "1", "2", "(1;2)", "f(X)", "X-1"}); }
    std::string lit() {
        return pick({"", "", "", "not ", "not not "}) + (s.chance(1, 10) ? "-" : "") + pred() + "(" + arg() + ")";
    }
    std::string body() {
        std::string r = "d(X), d(Y)";
        int n = s.range(0, 3);
        for (int i = 0; i < n; ++i) {
            r += ", ";
            switch (s.weighted({6, 1, 1, 1, 1, 1})) {
                case 0: r += lit(); break;
                case 1: r += pick({"X < Y", "X != Y", "X <= Y"}); break;
                case 2: r += pick({"", "not "}) + num() + " #count { Z : " + pred() + "(Z), d(Z) } " + num(); break;
                case 3: r += "#sum { Z,W : " + pred() + "(Z), c(W) } " + pick({">=", "<", "!="}) + " " + num(); break;
                case 4: r += pick({"", "not "}) + "&foo(X) { 1 + Y : " + lit() + " } " + pick({"<=", "="}) + " X"; break;
                default: r += pick({"", "not "}) + "e(X)"; break;
            }
        }
        if (s.chance(1, 8)) { r += "; " + pred() + "(Z) : c(Z), d(Z)"; }
        return r;
    }
    std::string rule() {
        switch (s.weighted({4, 3, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1})) {
            case 0: return pred() + "(" + arg() + ") :- " + body() + ".";
            case 1: return pick({"", "1 "}) + "{ " + pred() + "(X) : d(X)" + pick({"", ", c(X)"}) + "; c(1) }" + pick({"", " 2"}) + ".";
            case 2: return pred() + "(X); " + pred() + "(Y) :- " + body() + ".";
            case 3: return ":- " + body() + ", " + lit() + ".";
            case 4: return "{ c(" + pick({"1..3", "1;2", "3"}) + ") }.";
            case 5: return "&foo(X) { Y : " + lit() + ", d(Y) } <= 3 :- " + body() + ".";
            case 6: return ":~ " + body() + ". [X" + pick({"", "@1", "@2"}) + ",Y]";
            case 7: return "#minimize { X@" + num() + " : " + pred() + "(X), d(X) }.";
            case 8: return "#show " + pick({"p/1", "q/1", "dl/1", "diff/1", "c/1"}) + ".";
            case 9: return "#show g(X," + pick({"1", "X+1", "a"}) + ") : " + body() + ".";
            case 10: return "#external e(X) : d(X)." + pick({"", " [true]", " [free]"});
            case 11: return "#edge (X,Y) : " + body() + ", " + lit() + ".";
            default: return pick({"dl(a,1).", "dl(X,\"x\") :- c(X).", "__diff_h(1).", "-p(1).", "#const d = 2. q(d).", "#show.", "#project p/1.", "#heuristic p(X) : d(X). [1,true]", "p(\"a\"). q(#sup)."});
        }
    }
    std::string program() {
        std::string r = "d(1..2).\n"
                        "#theory other { tt { + : 1, binary, left; - : 2, unary }; &foo/1 : tt, {<=,=}, tt, any }.\n";
        int n = s.range(1, 7);
        for (int i = 0; i < n; ++i) { r += rule() + "\n"; }
        return r;
    }
};

struct PureResult {
    std::string error;
    std::multiset<std::string> answers;
    bool cut{false};
};

constexpr size_t max_answers = 3000;

void collect(PureResult &r, Clingo::Model const &m) {
    std::string x;
    std::vector<std::string> as;
    for (auto const &s : m.symbols(Clingo::ShowType::Shown)) { as.emplace_back(s.to_string()); }
    std::sort(as.begin(), as.end());
    for (auto const &a : as) { x += a + " "; }
    x += "|";
    as.clear();
    for (auto const &s : m.symbols(Clingo::ShowType::Atoms)) { as.emplace_back(s.to_string()); }
    std::sort(as.begin(), as.end());
    for (auto const &a : as) { x += a + " "; }
    x += "|";
    for (auto k : m.cost()) { x += std::to_string(k) + " "; }
    r.answers.insert(x);
}

void pure(Case &c) {
    auto prg = Pure{c.s}.program();
    ConfParams cp;
    cp.shift = cp.cc = true;
    auto cfg = gen_config(c.s, cp);
    cfg.cl.emplace_back("--opt-mode=ignore");
    if (c.s.chance(1, 6)) { cfg.dl.emplace_back("rdl", "yes"); }
    c.desc << "options: " << cfg.str() << "\n" << prg;
    c.publish();
    PureResult plain;
    PureResult with;
    try {
        drive::lib([&]() {
            Clingo::Control ctl{{"0", "--opt-mode=ignore"}, [](Clingo::WarningCode, char const *) {}, 20};
            ctl.add("base", {}, prg.c_str());
            ctl.ground({{"base", {}}});
            for (auto const &m : ctl.solve()) {
                collect(plain, m);
                if (plain.answers.size() > max_answers) {
                    plain.cut = true;
                    break;
                }
            }
        });
    } catch (drive::LibError const &e) { plain.error = e.what(); }
    if (plain.cut) { throw Discard("too many answers"); }
    try {
        drive::Session s(cfg);
        s.add(prg);
        s.ground();
        drive::SolveOpts so;
        so.on_model = [&](drive::Session &, Clingo::Model &m, drive::Answer &a) {
            collect(with, m);
            PBT_CHECK(c, a.dl.empty() && a.api.empty(), "values reported: " << a.str());
        };
        s.solve(so);
    } catch (drive::LibError const &e) { with.error = e.what(); }
    PBT_CHECK(c, plain.error.empty() == with.error.empty(), "plain clingo: \"" << plain.error << "\" with theory: \"" << with.error << "\"");
    for (auto const &x : plain.answers) {
        PBT_CHECK(c, with.answers.count(x) == plain.answers.count(x), "answer reported " << with.answers.count(x) << " times instead of "
                                                                                        << plain.answers.count(x) << ": " << x);
    }
    PBT_CHECK(c, plain.answers.size() == with.answers.size(), "different number of answers");
    c.label(plain.error.empty() ? "pure program" : "pure program with error");
    c.label("answers of pure programs", plain.answers.size());
    c.nontrivial = plain.answers.size() > 1;
}

void p13(Case &c) {
    if (c.s.chance(1, 3)) { pure(c); }
    else { rewriting(c); }
}
Register r13("P13",
             "Random statements of the input language with and without difference constraints, rewritten through the "
             "interface: compared with clingo's own expansion of pools of the statement with the atoms tagged by place, "
             "input unchanged, rewriting twice changes nothing. A third are random programs without difference "
             "constraints solved with and without the theory. Non-trivial: several statements, a pool or a difference "
             "constraint was rewritten, or a pure program has more than one answer.",
             p13);

// Shifting.

void p14(Case &c) {
    Params q;
    q.max_vars = 4;
    q.max_head = 3;
    q.max_body = 4;
    q.max_choice = 3;
    q.max_rules = 3;
    q.weight = 3;
    if (c.s.chance(1, 60)) {
        widen(c.s, q);
        c.label("many variables");
    }
    auto p = gen_program(c.s, q);
    // body constraints mostly occur in integrity constraints only
    for (auto &t : p.body) { t.show = c.s.chance(1, 3); }
    int n = p.body.empty() ? 0 : c.s.range(1, 4);
    bool several = false;
    for (int i = 0; i < n; ++i) {
        Rule r;
        r.head = Rule::Integrity;
        int k = c.s.range(1, 4);
        int m = 0;
        for (int j = 0; j < k; ++j) {
            Lit l;
            l.theory = c.s.chance(2, 3);
            l.idx = l.theory ? c.s.range(0, static_cast<int>(p.body.size()) - 1) : c.s.range(0, p.natoms - 1);
            l.sign = static_cast<int>(c.s.draw(3));
            m += l.theory ? 1 : 0;
            r.body.push_back(l);
        }
        several = several || m > 1;
        static std::vector<std::string> const guises{"", "", "#false", "not #true", "not not #false"};
        r.guise = c.s.pick(guises);
        static std::vector<std::string> const noise{"#true", "1 = 1", "not #false", "0 { a(0) }", "a(0) : #false", "2 != 3",
                                                    "0 #count { 1 : a(0) } 1", "not not #true", "a(0) : #false, a(1)"};
        while (c.s.chance(1, 5)) { r.noise.push_back(c.s.pick(noise)); }
        p.rules.push_back(r);
    }
    // rules looking similar that are no integrity constraints
    if (!p.body.empty() && c.s.chance(1, 3)) {
        static std::vector<std::string> const heads{"#true", "not #false", "not not #true", "x", "{ x }", "not not x", "#false : #false"};
        auto h = c.s.pick(heads);
        p.extra += h + " :- " + p.body[0].text + ", a(0).\n#show x : #false.\n";
        if (h == "not not x" || h == "#false : #false") { p.extra = ""; }
    }
    ConfParams cp;
    cp.cc = true;
    auto c1 = gen_config(c.s, cp);
    auto c2 = c1;
    c1.dl.emplace_back("shift-constraints", c.s.chance(1, 2) ? "no" : "off");
    c2.dl.emplace_back("shift-constraints", "yes");
    c.desc << "options: " << c1.str() << " / " << c2.dl.back().second << "\n" << p.text();
    c.publish();
    std::set<std::string> expect;
    for (auto const &a : answers(p)) { expect.insert(a.key()); }
    std::set<std::string> got[2];
    for (auto const *cfg : {&c1, &c2}) {
        bool sh = cfg == &c2;
        drive::Solved r;
        try {
            drive::Session s(*cfg);
            s.add(p.text());
            s.ground();
            r = s.solve();
        } catch (drive::LibError const &e) { c.fail(std::string(sh ? "with" : "without") + " shifting: error on a valid program: " + e.what()); }
        for (auto const &a : r.answers) { got[sh ? 1 : 0].insert(a.atoms_str()); }
    }
    PBT_CHECK(c, got[0] == got[1], "answers without shifting: " << got[0].size() << ", with shifting: " << got[1].size());
    PBT_CHECK(c, got[0] == expect, "answers: " << got[0].size() << " expected " << expect.size());
    if (several) { c.label("several constraints in one body"); }
    if (!expect.empty()) { c.label("sat"); }
    c.nontrivial = n > 0 && !expect.empty();
}
Register r14("P14",
             "Random programs with additional integrity constraints in varied guises with one or more difference "
             "constraints of all signs and relations, solved with and without shifting and compared with each other and "
             "the brute-force reference. Non-trivial: there is such an integrity constraint and an answer.",
             p14);

} // namespace
