// Recording everything the theory does in a session with one thread.
#pragma once
#include "drive.hh"

namespace trace {

//! Records the calls of the theory made in the current thread while active.
class Recorder {
  public:
    Recorder();
    std::string log;
    drive::Hooks hooks;
    //! Counters of recorded events.
    uint64_t clauses{0};
    uint64_t decisions{0};
};

//! Activates a recorder in the current thread for its lifetime (nestable).
class Active {
  public:
    explicit Active(Recorder &r) : last_{drive::thread_hooks} { drive::thread_hooks = &r.hooks; }
    ~Active() { drive::thread_hooks = last_; }
    Active(Active const &) = delete;

  private:
    drive::Hooks *last_;
};

struct Script {
    drive::Config cfg;
    std::vector<std::string> parts; // texts added, grounded, and solved one after the other
    int limit{0};
};

//! A session advanced step by step.
class Actor {
  public:
    explicit Actor(Script script) : script_{std::move(script)} {}
    //! Perform the next action; returns false if there is none.
    bool step();
    //! Perform all remaining actions.
    void finish() {
        while (step()) {}
    }
    std::string const &log() const { return rec_.log; }
    Recorder const &recorder() const { return rec_; }
    //! Called with each answer (outside of recording).
    std::function<void()> on_answer;
    uint64_t answers{0};

  private:
    Script script_;
    Recorder rec_;
    std::unique_ptr<drive::Session> session_;
    size_t part_{0};
    int phase_{0};
};

//! Run a script and return its trace.
std::string run(Script const &script, uint64_t *clauses = nullptr, uint64_t *answers = nullptr);

} // namespace trace
