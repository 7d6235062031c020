// Driving clingo with the difference logic theory through its public C interface.
#pragma once
#include "core.hh"
#include <clingo-dl.h>
#include <clingo.hh>
#include <functional>
#include <memory>
#include <mutex>
#include <set>

namespace drive {

using Clingo::literal_t;

//! Error reported by the library through its return value.
struct LibError : std::runtime_error {
    using std::runtime_error::runtime_error;
};

struct Config {
    std::vector<std::pair<std::string, std::string>> dl;
    std::vector<std::string> cl;
    bool ignore_errors{false}; // ignore rejected theory options
    std::string str() const;
};

//! Callbacks for interposed calls made by the theory.
struct Hooks {
    std::mutex mut;
    //! Clause added during search; called before the clause is passed on.
    std::function<void(clingo_propagate_control_t *, literal_t const *, size_t)> on_clause;
    //! Clause added during initialization.
    std::function<void(clingo_propagate_init_t *, literal_t const *, size_t)> on_init_clause;
    //! Literal added during initialization.
    std::function<void(literal_t)> on_init_literal;
    //! Decision taken by the theory (thread, fallback, result).
    std::function<void(clingo_id_t, literal_t, literal_t)> on_decide;
};
//! Currently active hooks or null.
extern Hooks *hooks;
//! Hooks of the calling thread taking precedence or null.
extern thread_local Hooks *thread_hooks;
inline Hooks *active_hooks() { return thread_hooks != nullptr ? thread_hooks : hooks; }

struct HooksGuard {
    explicit HooksGuard(Hooks &h) { hooks = &h; }
    ~HooksGuard() { hooks = nullptr; }
    HooksGuard(HooksGuard const &) = delete;
};

struct Answer {
    std::vector<std::string> atoms;        // shown atoms, sorted
    std::map<std::string, std::string> dl; // variable -> value as in dl terms
    std::map<std::string, std::string> api; // variable -> value as in assignment interface
    uint32_t thread{0};
    std::string atoms_str() const;
    std::string str() const;
};

struct Solved {
    bool sat{false};
    bool unsat{false};
    bool exhausted{false};
    bool interrupted{false};
    std::vector<Answer> answers;
    std::set<std::string> atom_sets() const;
    std::set<std::string> full_sets() const;
};

class Session;

enum class SolveMode { Plain, Yield, Async, Interrupt };

struct SolveOpts {
    std::vector<literal_t> assumptions;
    int limit{0};
    SolveMode mode{SolveMode::Plain}; // interrupt means that the search is interrupted to implement the limit
    std::function<void(Session &, Clingo::Model &, Answer &)> on_model;
    std::function<void(Clingo::UserStatistics, Clingo::UserStatistics)> on_stats;
    bool call_theory_stats{false};
};

class Session {
  public:
    explicit Session(Config const &cfg);
    ~Session();
    Session(Session const &) = delete;
    //! Rewrite and add a program text.
    void add(std::string const &text);
    void ground(std::vector<std::pair<std::string, std::vector<Clingo::Symbol>>> const &parts = {{"base", {}}});
    Solved solve(SolveOpts const &opts = {});
    //! Pass a model to the theory and read everything reported for it.
    Answer read_model(Clingo::Model &m);
    //! Program literal of an atom given as text (0 if it does not exist).
    literal_t literal(std::string const &atom);
    Clingo::Control &ctl() { return *ctl_; }
    clingodl_theory_t *theory() { return theory_; }
    std::vector<std::string> const &messages() const { return messages_; }
    //! Read the assignment through the assignment interface.
    std::map<std::string, std::string> read_assignment(uint32_t thread) const;

  private:
    std::vector<std::string> messages_;
    clingodl_theory_t *theory_{nullptr};
    std::unique_ptr<Clingo::Control> ctl_;
};

//! Convert an exception thrown by clingo.hh into a LibError.
template <class F> auto lib(F &&f) -> decltype(f()) {
    try {
        return f();
    } catch (pbt::Failure const &) {
        throw;
    } catch (pbt::Discard const &) {
        throw;
    } catch (LibError const &) {
        throw;
    } catch (std::exception const &e) {
        throw LibError(e.what());
    }
}

void check_ret(bool ret);
//! Value as text (integers plain, doubles as in to_string, symbols as text).
std::string value_str(clingodl_value_t const &v);

} // namespace drive
