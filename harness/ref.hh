// Reference semantics of difference constraints, independent of the code under test.
#pragma once
#include <cstdint>
#include <string>
#include <utility>
#include <vector>

namespace ref {

enum Rel { LE = 0, GE, LT, GT, EQ, NE };

char const *rel_str(Rel r);
Rel negate(Rel r); // complement
Rel flip(Rel r);   // relation after multiplying both sides with -1

//! x_u - x_v rel k where x_0 = 0.
struct Con {
    int u{0};
    int v{0};
    Rel rel{LE};
    int64_t k{0};
};

//! x_u - x_v <= w
struct Edge {
    int u;
    int v;
    int64_t w;
};

bool holds(Con const &c, int64_t xu, int64_t xv);

//! Check satisfiability of edges over n nodes; optionally compute a solution with x_0 = 0.
bool feasible(int n, std::vector<Edge> const &edges, std::vector<int64_t> *sol = nullptr);

//! Check satisfiability of constraints by branching on disequalities.
bool satisfiable(int n, std::vector<Con> const &cons, std::vector<int64_t> *sol = nullptr);

//! Turn a constraint (not NE) into edges.
void edges_of(Con const &c, std::vector<Edge> &out);

} // namespace ref
