#include "ref.hh"

namespace ref {

char const *rel_str(Rel r) {
    static char const *s[] = {"<=", ">=", "<", ">", "=", "!="};
    return s[r];
}

Rel negate(Rel r) {
    switch (r) {
        case LE: return GT;
        case GE: return LT;
        case LT: return GE;
        case GT: return LE;
        case EQ: return NE;
        default: return EQ;
    }
}

Rel flip(Rel r) {
    switch (r) {
        case LE: return GE;
        case GE: return LE;
        case LT: return GT;
        case GT: return LT;
        default: return r;
    }
}

bool holds(Con const &c, int64_t xu, int64_t xv) {
    int64_t d = xu - xv;
    switch (c.rel) {
        case LE: return d <= c.k;
        case GE: return d >= c.k;
        case LT: return d < c.k;
        case GT: return d > c.k;
        case EQ: return d == c.k;
        default: return d != c.k;
    }
}

void edges_of(Con const &c, std::vector<Edge> &out) {
    switch (c.rel) {
        case LE: out.push_back({c.u, c.v, c.k}); break;
        case LT: out.push_back({c.u, c.v, c.k - 1}); break;
        case GE: out.push_back({c.v, c.u, -c.k}); break;
        case GT: out.push_back({c.v, c.u, -c.k - 1}); break;
        case EQ:
            out.push_back({c.u, c.v, c.k});
            out.push_back({c.v, c.u, -c.k});
            break;
        case NE: break;
    }
}

bool feasible(int n, std::vector<Edge> const &edges, std::vector<int64_t> *sol) {
    std::vector<int64_t> x(static_cast<size_t>(n), 0);
    bool changed = true;
    for (int i = 0; i <= n && changed; ++i) {
        changed = false;
        for (auto const &e : edges) {
            if (x[e.u] > x[e.v] + e.w) {
                x[e.u] = x[e.v] + e.w;
                changed = true;
            }
        }
    }
    if (changed) { return false; }
    if (sol != nullptr) {
        auto z = x[0];
        for (auto &y : x) { y -= z; }
        *sol = std::move(x);
    }
    return true;
}

namespace {
bool rec(int n, std::vector<Edge> &edges, std::vector<Con> const &ne, size_t i, std::vector<int64_t> *sol) {
    std::vector<int64_t> x;
    if (!feasible(n, edges, &x)) { return false; }
    // find the first violated disequality
    for (; i < ne.size(); ++i) {
        auto const &c = ne[i];
        if (c.u == c.v) {
            if (c.k == 0) { return false; }
            continue;
        }
        bool ok = false;
        for (int b = 0; b < 2 && !ok; ++b) {
            edges_of(Con{c.u, c.v, b == 0 ? LT : GT, c.k}, edges);
            ok = rec(n, edges, ne, i + 1, sol);
            edges.pop_back();
        }
        return ok;
    }
    if (sol != nullptr) { *sol = std::move(x); }
    return true;
}
} // namespace

bool satisfiable(int n, std::vector<Con> const &cons, std::vector<int64_t> *sol) {
    std::vector<Edge> edges;
    std::vector<Con> ne;
    for (auto const &c : cons) {
        if (c.rel == NE) {
            ne.push_back(c);
        } else {
            edges_of(c, edges);
        }
    }
    return rec(n, edges, ne, 0, sol);
}

} // namespace ref
