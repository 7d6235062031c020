// Random multi-shot histories with their accumulated reference program.
#pragma once
#include "gen.hh"
#include <algorithm>

namespace history {

using namespace gen;
using Clingo::literal_t;
using pbt::Case;
using pbt::Src;

enum class Ext { Free, False, True, Released };

//! State of a multi-shot history together with the accumulated reference program.
struct History {
    Program prg;               // choice flags of externals are computed on demand
    std::map<int, Ext> ext;    // external atoms
    int step{0};
    int choices{0};

    //! The program under the current externals.
    Program current() const {
        Program p = prg;
        for (auto const &[a, v] : ext) {
            if (v == Ext::Free) { p.choice[a] = true; }
            if (v == Ext::True) {
                Rule r;
                r.head = Rule::Atom;
                r.idx = a;
                p.rules.push_back(r);
            }
        }
        return p;
    }
    size_t candidates() const {
        auto p = current();
        return static_cast<size_t>(std::count(p.choice.begin(), p.choice.end(), true)) + p.body.size();
    }
};

struct StepParams {
    int atoms{3};
    int head{4};
    int body{2};
    int weight{4};
    int slack{-1};
    std::vector<int> hidden{}; // hidden solution if slack is not negative
};

//! Generate one more program part; extends the history and returns the text.
std::string gen_step(Src &s, History &h, StepParams const &q);

struct HistoryStats {
    int solves{0};
    int later_answers{0};
    int later_excluded{0};
};

struct Options {
    int max_threads{1};
    bool stats{false};    // let the theory add its statistics
    bool compare{true};   // compare with reference answers
    bool strict{true};    // allow constraints in bodies
    bool rich{false};     // unusual variable names
    //! Called after each operation.
    std::function<void(drive::Session &, History const &)> probe;
    //! Called with each answer.
    std::function<void(drive::Session &, History const &, Clingo::Model &, drive::Answer &)> on_model;
    //! Called with the statistics of each solve call.
    std::function<void(drive::Session &, History const &, Clingo::UserStatistics, Clingo::UserStatistics)> on_stats;
    //! Called before and after solving.
    std::function<void(drive::Session &, History const &)> before_solve;
    std::function<void(drive::Session &, History const &, drive::Solved const &)> after_solve;
    //! Called when the session has been created.
    std::function<void(drive::Session &)> on_create;
};

//! Run a random history of a session against the reference.
void run(Case &c, drive::Config cfg, Options const &o, HistoryStats &st);

} // namespace history
