#include "trace.hh"

namespace trace {

Recorder::Recorder() {
    auto lits = [](drive::literal_t const *l, size_t n) {
        std::string r;
        for (size_t i = 0; i < n; ++i) { r += " " + std::to_string(l[i]); }
        return r + "\n";
    };
    hooks.on_clause = [this, lits](clingo_propagate_control_t *, drive::literal_t const *l, size_t n) {
        log += "clause" + lits(l, n);
        ++clauses;
    };
    hooks.on_init_clause = [this, lits](clingo_propagate_init_t *, drive::literal_t const *l, size_t n) {
        log += "init clause" + lits(l, n);
    };
    hooks.on_init_literal = [this](drive::literal_t l) { log += "init literal " + std::to_string(l) + "\n"; };
    hooks.on_decide = [this](clingo_id_t, drive::literal_t f, drive::literal_t r) {
        // (the fallback is zero if there is nothing to decide)
        log += "decide " + std::to_string(f) + " " + std::to_string(r) + "\n";
        decisions += f != r;
    };
}

bool Actor::step() {
    Active a(rec_);
    try {
        if (phase_ == 0) {
            session_ = std::make_unique<drive::Session>(script_.cfg);
            phase_ = 1;
        } else if (phase_ == 1) {
            if (part_ >= script_.parts.size()) {
                session_.reset();
                phase_ = 4;
                return false;
            }
            auto name = part_ == 0 ? "base" : "p" + std::to_string(part_);
            session_->add("#program " + name + ".\n" + script_.parts[part_]);
            phase_ = 2;
        } else if (phase_ == 2) {
            auto name = part_ == 0 ? "base" : "p" + std::to_string(part_);
            session_->ground({{name, {}}});
            phase_ = 3;
        } else if (phase_ == 3) {
            drive::SolveOpts opts;
            opts.limit = script_.limit;
            opts.on_model = [this](drive::Session &, Clingo::Model &, drive::Answer &ans) {
                rec_.log += "answer " + ans.str() + "\n";
                ++answers;
                if (on_answer) {
                    auto *last = drive::thread_hooks;
                    drive::thread_hooks = nullptr;
                    on_answer();
                    drive::thread_hooks = last;
                }
            };
            auto r = session_->solve(opts);
            rec_.log += r.sat ? "satisfiable\n" : r.unsat ? "unsatisfiable\n" : "unknown\n";
            ++part_;
            phase_ = 1;
        } else {
            return false;
        }
    } catch (drive::LibError const &e) {
        rec_.log += std::string("error ") + e.what() + "\n";
        session_.reset();
        phase_ = 4;
        return false;
    }
    return true;
}

std::string run(Script const &script, uint64_t *clauses, uint64_t *answers) {
    Actor a(script);
    a.finish();
    if (clauses != nullptr) { *clauses = a.recorder().clauses; }
    if (answers != nullptr) { *answers = a.answers; }
    return a.log();
}

} // namespace trace
