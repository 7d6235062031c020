#include "observe.hh"

#include <algorithm>

namespace observe {

using namespace ref;

namespace {
Rel parse_rel(std::string const &s) {
    static char const *names[] = {"<=", ">=", "<", ">", "=", "!="};
    for (int i = 0; i < 6; ++i) {
        if (s == names[i]) { return static_cast<Rel>(i); }
    }
    throw std::runtime_error("harness: unexpected relation");
}
} // namespace

void Network::read(Clingo::PropagateInit &init) {
    for (auto atom : init.theory_atoms()) {
        auto name = atom.term().to_string();
        if (name != "__diff_h" && name != "__diff_b") { continue; }
        bool strict = name == "__diff_b";
        Clingo::TheoryTerm t = (*atom.elements().begin()).tuple().front();
        auto args = t.arguments();
        if (t.type() != Clingo::TheoryTermType::Function || std::string(t.name()) != "-" || args.size() != 2) {
            exact = false;
            continue;
        }
        Con c;
        c.u = node(args[0].to_string());
        c.v = node(args[1].to_string());
        c.rel = parse_rel(atom.guard().first);
        auto g = atom.guard().second;
        if (g.type() == Clingo::TheoryTermType::Number) {
            c.k = g.number();
        } else if (g.type() == Clingo::TheoryTermType::Function && std::string(g.name()) == "-" &&
                   g.arguments().size() == 1) {
            c.k = -static_cast<int64_t>(g.arguments()[0].number());
        } else {
            exact = false;
            continue;
        }
        if (c.rel == NE || (strict && c.rel == EQ) || c.u == c.v) {
            exact = false;
            continue;
        }
        auto lit = init.solver_literal(atom.literal());
        lits.push_back(lit);
        std::vector<Edge> es;
        edges_of(c, es);
        bool never = init.assignment().is_false(lit);
        bool always = init.assignment().is_true(lit);
        for (auto const &e : es) { edges.push_back({lit, e.u, e.v, e.w, never}); }
        if (strict) {
            es.clear();
            auto n = c;
            n.rel = negate(n.rel);
            edges_of(n, es);
            for (auto const &e : es) { edges.push_back({-lit, e.u, e.v, e.w, always}); }
        }
    }
}

Paths::Paths(int n, std::vector<Edge> const &edges) : n{n}, d(static_cast<size_t>(n) * static_cast<size_t>(n), inf) {
    auto idx = [n](int a, int b) { return static_cast<size_t>(a) * static_cast<size_t>(n) + static_cast<size_t>(b); };
    for (int i = 0; i < n; ++i) { d[idx(i, i)] = 0; }
    for (auto const &e : edges) { d[idx(e.u, e.v)] = std::min(d[idx(e.u, e.v)], e.w); }
    for (int k = 0; k < n; ++k) {
        for (int i = 0; i < n; ++i) {
            if (d[idx(i, k)] == inf) { continue; }
            for (int j = 0; j < n; ++j) {
                if (d[idx(k, j)] == inf) { continue; }
                d[idx(i, j)] = std::min(d[idx(i, j)], d[idx(i, k)] + d[idx(k, j)]);
            }
        }
    }
    for (int i = 0; i < n; ++i) { negative = negative || d[idx(i, i)] < 0; }
}

std::vector<std::pair<bool, int64_t>> canonical(Network const &net, std::vector<Edge> const &true_edges,
                                                bool components, bool dead) {
    // component of each variable in the graph over all constraints without the zero node
    int n = net.size();
    std::vector<int> comp(static_cast<size_t>(n), 0);
    for (int i = 0; i < n; ++i) { comp[i] = components ? i : 1; }
    bool changed = components;
    while (changed) {
        changed = false;
        for (auto const &e : net.edges) {
            if (e.u == 0 || e.v == 0 || (e.dead && !dead)) { continue; }
            int m = std::min(comp[e.u], comp[e.v]);
            if (comp[e.u] != m || comp[e.v] != m) {
                comp[e.u] = comp[e.v] = m;
                changed = true;
            }
        }
    }
    // node n + c is the zero node of component c
    std::vector<bool> def(static_cast<size_t>(2 * n + 1), false);
    std::vector<int64_t> pot(static_cast<size_t>(2 * n + 1), 0);
    std::vector<Edge> es;
    for (auto e : true_edges) {
        int c = comp[e.u != 0 ? e.u : e.v];
        if (e.u == 0) { e.u = n + c; }
        if (e.v == 0) { e.v = n + c; }
        def[e.u] = def[e.v] = true;
        es.push_back(e);
    }
    // potentials are shortest distances from a virtual source with zero cost to each defined node
    changed = true;
    for (size_t i = 0; changed && i <= pot.size(); ++i) {
        changed = false;
        for (auto const &e : es) {
            if (pot[e.u] + e.w < pot[e.v]) {
                pot[e.v] = pot[e.u] + e.w;
                changed = true;
            }
        }
    }
    std::vector<std::pair<bool, int64_t>> res(static_cast<size_t>(n), {false, 0});
    for (int i = 1; i < n; ++i) {
        if (def[i]) { res[i] = {true, pot[n + comp[i]] - pot[i]}; }
    }
    return res;
}

void Observer::init(Clingo::PropagateInit &init) {
    init.set_check_mode(Clingo::PropagatorCheckMode::Both);
    net.read(init);
    if (on_init) { on_init(init); }
}

void Observer::check(Clingo::PropagateControl &ctl) {
    if (!failure.empty() || !on_fixpoint) { return; }
    try {
        on_fixpoint(ctl);
    } catch (pbt::Failure const &e) {
        std::lock_guard<std::mutex> lock(mut_);
        failure = e.what();
    }
}

literal_t Observer::decide(Clingo::id_t, Clingo::Assignment const &assign, literal_t fallback) {
    return on_decide ? on_decide(assign, fallback) : 0;
}

std::vector<Edge> Observer::true_edges(Clingo::Assignment const &ass) const {
    std::vector<Edge> es;
    for (auto const &e : net.edges) {
        if (ass.is_true(e.lit)) { es.push_back({e.u, e.v, e.w}); }
    }
    return es;
}

} // namespace observe
