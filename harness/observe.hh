// A propagator observing the search at fixpoints, and bookkeeping of constraint literals.
#pragma once
#include "drive.hh"
#include "ref.hh"
#include <functional>
#include <map>
#include <unordered_map>

namespace observe {

using drive::literal_t;

//! An edge x_u - x_v <= w that holds whenever lit is true.
struct LitEdge {
    literal_t lit;
    int u;
    int v;
    int64_t w;
    bool dead{false}; // false from the beginning
};

//! Interpretation of the theory atoms of a program with constraints of form u - v rel w (without auxiliary literals).
struct Network {
    std::map<std::string, int> index; // variable -> node; "0" is node 0
    std::vector<std::string> names;
    std::vector<LitEdge> edges;
    std::vector<literal_t> lits; // constraint literals
    bool exact{true};            // all constraints could be interpreted without auxiliary literals

    Network() { node("0"); }
    int node(std::string const &name) {
        auto r = index.emplace(name, static_cast<int>(names.size()));
        if (r.second) { names.push_back(name); }
        return r.first->second;
    }
    //! Read the theory atoms (solver literals).
    void read(Clingo::PropagateInit &init);
    int size() const { return static_cast<int>(names.size()); }
};

//! Shortest paths between all nodes (Floyd-Warshall); inf if unreachable. Edge (u,v,w) is an arc u -> v.
struct Paths {
    static constexpr int64_t inf = INT64_MAX / 4;
    Paths(int n, std::vector<ref::Edge> const &edges);
    int64_t at(int a, int b) const { return d[static_cast<size_t>(a) * static_cast<size_t>(n) + static_cast<size_t>(b)]; }
    int n;
    std::vector<int64_t> d;
    bool negative{false};
};

//! Canonical values: potentials relative to the zero node of each component.
//! Returns for each node whether it has a value and the value.
//! Constraints that can never hold need not connect components; parameter dead tells whether they do.
std::vector<std::pair<bool, int64_t>> canonical(Network const &net, std::vector<ref::Edge> const &true_edges, bool components, bool dead);

class Observer : public Clingo::Heuristic {
  public:
    Network net;
    std::function<void(Clingo::PropagateInit &)> on_init;
    std::function<void(Clingo::PropagateControl &)> on_fixpoint;
    std::function<literal_t(Clingo::Assignment, literal_t)> on_decide;
    std::string failure;
    bool accumulate{true}; // keep edges of earlier steps

    void init(Clingo::PropagateInit &init) override;
    void check(Clingo::PropagateControl &ctl) override;
    literal_t decide(Clingo::id_t thread_id, Clingo::Assignment const &assign, literal_t fallback) override;
    //! Edges of literals that are true.
    std::vector<ref::Edge> true_edges(Clingo::Assignment const &ass) const;

  private:
    std::mutex mut_;
};

} // namespace observe
