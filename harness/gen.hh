// Generators for programs with difference constraints together with their reference answers.
#pragma once
#include "core.hh"
#include "drive.hh"
#include "ref.hh"
#include <optional>
#include <set>

namespace gen {

//! A variable: its spelling in programs and the symbol it is reported as.
struct Var {
    std::string text;
    std::string sym;
};

//! A constraint together with one surface form.
struct TCon {
    ref::Con con;
    std::string text; // "&diff { ... } rel ..."
    std::string bind{}; // literals binding variables in text
    bool term{false}; // shown by a show statement
    bool show{true};  // truth value shown by a t(k) atom (body constraints)
};

struct Lit {
    bool theory{false};
    int idx{0};
    int sign{0}; // 0: positive, 1: not, 2: not not
};

struct Rule {
    enum Head { Integrity, Atom, Theory } head{Integrity};
    int idx{0};
    std::vector<Lit> body;
    std::string guise{}; // text for the head of integrity constraints
    std::vector<std::string> noise{}; // further literals that always hold
};

struct Program {
    std::vector<Var> vars; // variable 0 is the origin
    int natoms{0};
    std::vector<bool> choice; // atom is subject to a choice rule
    std::vector<TCon> body;   // constraints occurring in bodies
    std::vector<TCon> head;   // constraints occurring in heads
    std::vector<Rule> rules;
    std::string extra; // further program text (not interpreted)

    std::string text() const;
};

struct Params {
    int max_vars{5};
    int max_choice{4};
    int max_defined{2};
    int max_body{3};
    int max_head{5};
    int max_rules{8};
    int weight{4};
    bool hide{false};    // allow body constraints whose truth value is not shown
    bool strict{true};   // allow body constraints
    bool big{false};     // allow large weights
    bool rich{true};     // allow unusual variables
    bool ne{true};       // allow != in heads
    int min_vars{2};
    int min_head{1};
    int slack{-1};       // if not negative, most constraints leave room for a hidden solution
};

//! Choose the constant such that the constraint mostly leaves room for a hidden solution.
void relax(pbt::Src &s, ref::Con &c, std::vector<int> const &hidden, int slack);
//! Switch to many variables and constraints (but few choices).
void widen(pbt::Src &s, Params &p);

//! Spell a constraint in one of many equivalent ways.
std::string spell(pbt::Src &s, std::vector<Var> const &vars, ref::Con const &c, bool simple = false);
//! Just the term u - v in some form
std::vector<Var> gen_vars(pbt::Src &s, int n, bool rich = false);
ref::Con gen_con(pbt::Src &s, int nvars, int weight, bool ne, bool big = false);
Program gen_program(pbt::Src &s, Params const &p);

//! One answer of the reference.
struct RefAnswer {
    std::vector<bool> atoms;
    std::vector<bool> truth; // of body constraints
    std::vector<bool> active; // of head constraints
    std::vector<std::string> shown; // sorted
    std::string key() const;
};

//! Evaluate rules for fixed choices and body constraint truths; false if an integrity constraint is violated.
bool evaluate(Program const &p, uint64_t choices, uint64_t truths, RefAnswer &out);
//! Constraints that have to hold in an answer.
std::vector<ref::Con> constraints(Program const &p, RefAnswer const &a);
//! Compute all answers (limited to at most 2^16 candidates).
std::vector<RefAnswer> answers(Program const &p);

//! Random theory/search configuration. Static options (affecting values) are not included.
struct ConfParams {
    int threads{1};
    bool search{true};
    bool cc{false};
    bool shift{false};
};
drive::Config gen_config(pbt::Src &s, ConfParams const &p = {});

//! Least value of variable v over all solutions of the constraints (nothing if unbounded, requires satisfiable).
std::optional<int64_t> least(Program const &p, std::vector<ref::Con> cons, int v);

//! Check one reported answer against program semantics; throws Failure.
void check_witness(pbt::Case &c, Program const &p, drive::Answer const &a);

} // namespace gen
