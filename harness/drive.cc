#include "drive.hh"

#include <algorithm>
#include <dlfcn.h>

namespace drive {

Hooks *hooks = nullptr;
thread_local Hooks *thread_hooks = nullptr;

namespace {

template <class F> F real(char const *name) {
    auto *p = dlsym(RTLD_NEXT, name);
    if (p == nullptr) {
        std::fprintf(stderr, "cannot find %s\n", name);
        std::abort();
    }
    return reinterpret_cast<F>(p);
}

//! Wrapper to observe decisions of the theory.
struct PropWrap {
    clingo_propagator_t prop;
    void *data;
};

bool wrap_init(clingo_propagate_init_t *i, void *d) {
    auto *w = static_cast<PropWrap *>(d);
    return w->prop.init(i, w->data);
}
bool wrap_propagate(clingo_propagate_control_t *c, literal_t const *ch, size_t n, void *d) {
    auto *w = static_cast<PropWrap *>(d);
    return w->prop.propagate(c, ch, n, w->data);
}
void wrap_undo(clingo_propagate_control_t const *c, literal_t const *ch, size_t n, void *d) {
    auto *w = static_cast<PropWrap *>(d);
    w->prop.undo(c, ch, n, w->data);
}
bool wrap_check(clingo_propagate_control_t *c, void *d) {
    auto *w = static_cast<PropWrap *>(d);
    return w->prop.check(c, w->data);
}
bool wrap_decide(clingo_id_t t, clingo_assignment_t const *a, literal_t f, void *d, literal_t *r) {
    auto *w = static_cast<PropWrap *>(d);
    bool ret = w->prop.decide(t, a, f, w->data, r);
    if (ret && drive::active_hooks() != nullptr && drive::active_hooks()->on_decide) {
        std::lock_guard<std::mutex> lock(drive::active_hooks()->mut);
        drive::active_hooks()->on_decide(t, f, *r);
    }
    return ret;
}

} // namespace

// propagators wrapped so far; they live as long as their control objects
static std::vector<std::unique_ptr<PropWrap>> &wraps() {
    static std::vector<std::unique_ptr<PropWrap>> w;
    return w;
}
static thread_local bool wrap_next = false;

static bool hooked_register(clingo_control_t *ctl, clingo_propagator_t const *prop, void *data, bool seq) {
    using F = bool (*)(clingo_control_t *, clingo_propagator_t const *, void *, bool);
    static F f = real<F>("clingo_control_register_propagator");
    if (!wrap_next || active_hooks() == nullptr || !active_hooks()->on_decide) {
        return f(ctl, prop, data, seq);
    }
    auto w = std::make_unique<PropWrap>(PropWrap{*prop, data});
    clingo_propagator_t p{prop->init != nullptr ? wrap_init : nullptr,
                          prop->propagate != nullptr ? wrap_propagate : nullptr,
                          prop->undo != nullptr ? wrap_undo : nullptr, prop->check != nullptr ? wrap_check : nullptr,
                          prop->decide != nullptr ? wrap_decide : nullptr};
    bool ret = f(ctl, &p, w.get(), seq);
    static std::mutex mut;
    std::lock_guard<std::mutex> lock(mut);
    wraps().emplace_back(std::move(w));
    return ret;
}

std::string Config::str() const {
    std::string r;
    for (auto const &[k, v] : dl) { r += (r.empty() ? "" : " ") + ("--" + k + "=" + v); }
    for (auto const &a : cl) { r += (r.empty() ? "" : " ") + a; }
    return r.empty() ? "(default)" : r;
}

std::string Answer::atoms_str() const {
    std::string r;
    for (auto const &a : atoms) { r += (r.empty() ? "" : " ") + a; }
    return r;
}

std::string Answer::str() const {
    std::string r = atoms_str() + " |";
    for (auto const &[k, v] : dl) { r += " " + k + "=" + v; }
    return r;
}

std::set<std::string> Solved::atom_sets() const {
    std::set<std::string> r;
    for (auto const &a : answers) { r.insert(a.atoms_str()); }
    return r;
}

std::set<std::string> Solved::full_sets() const {
    std::set<std::string> r;
    for (auto const &a : answers) { r.insert(a.str()); }
    return r;
}

void check_ret(bool ret) {
    if (!ret) {
        auto code = clingo_error_code();
        char const *msg = clingo_error_message();
        if (code == clingo_error_success) {
            throw pbt::Failure("call returned false without setting an error");
        }
        throw LibError(msg != nullptr ? msg : "no message");
    }
}

std::string value_str(clingodl_value_t const &v) {
    switch (v.type) {
        case clingodl_value_type_int: return std::to_string(v.int_number);
        case clingodl_value_type_double: return "\"" + std::to_string(v.double_number) + "\"";
        default: return Clingo::Symbol(v.symbol).to_string();
    }
}

Session::Session(Config const &cfg) {
    std::vector<char const *> args;
    for (auto const &a : cfg.cl) { args.push_back(a.c_str()); }
    lib([&]() {
        ctl_ = std::make_unique<Clingo::Control>(
            Clingo::StringSpan{args.data(), args.size()},
            [this](Clingo::WarningCode, char const *msg) { messages_.emplace_back(msg); }, 100);
    });
    check_ret(clingodl_create(&theory_));
    try {
        for (auto const &[k, v] : cfg.dl) {
            bool ret = clingodl_configure(theory_, k.c_str(), v.c_str());
            if (!cfg.ignore_errors) { check_ret(ret); }
        }
        wrap_next = true;
        bool ret = clingodl_register(theory_, ctl_->to_c());
        wrap_next = false;
        check_ret(ret);
    } catch (...) {
        wrap_next = false;
        clingodl_destroy(theory_);
        throw;
    }
}

Session::~Session() {
    // the control object refers to the propagator stored in the theory
    ctl_.reset();
    clingodl_destroy(theory_);
}

namespace {
struct AddData {
    clingodl_theory_t *theory;
    clingo_program_builder_t *builder;
};
bool add_stm(clingo_ast_t *stm, void *data) {
    auto *d = static_cast<AddData *>(data);
    return clingo_program_builder_add(d->builder, stm);
}
bool rewrite_stm(clingo_ast_t *stm, void *data) {
    auto *d = static_cast<AddData *>(data);
    return clingodl_rewrite_ast(d->theory, stm, add_stm, d);
}
} // namespace

void Session::add(std::string const &text) {
    lib([&]() {
        Clingo::AST::with_builder(*ctl_, [&](Clingo::AST::ProgramBuilder &builder) {
            AddData d{theory_, builder.to_c()};
            auto logger = [](clingo_warning_t, char const *msg, void *data) {
                static_cast<std::vector<std::string> *>(data)->emplace_back(msg);
            };
            Clingo::Detail::handle_error(
                clingo_ast_parse_string(text.c_str(), rewrite_stm, &d, ctl_->to_c(), logger, &messages_, 100));
        });
    });
}

void Session::ground(std::vector<std::pair<std::string, std::vector<Clingo::Symbol>>> const &parts) {
    lib([&]() {
        std::vector<Clingo::Part> ps;
        for (auto const &[n, a] : parts) { ps.emplace_back(n.c_str(), Clingo::SymbolSpan{a.data(), a.size()}); }
        ctl_->ground({ps.data(), ps.size()});
        check_ret(clingodl_prepare(theory_, ctl_->to_c()));
    });
}

literal_t Session::literal(std::string const &atom) {
    auto sym = Clingo::parse_term(atom.c_str());
    auto atoms = ctl_->symbolic_atoms();
    auto it = atoms.find(sym);
    return it != atoms.end() ? it->literal() : 0;
}

std::map<std::string, std::string> Session::read_assignment(uint32_t thread) const {
    std::map<std::string, std::string> res;
    size_t index = 0;
    clingodl_assignment_begin(theory_, thread, &index);
    while (clingodl_assignment_next(theory_, thread, &index)) {
        clingodl_value_t val{};
        clingodl_assignment_get_value(theory_, thread, index, &val);
        auto name = Clingo::Symbol(clingodl_get_symbol(theory_, index)).to_string();
        if (!res.emplace(name, value_str(val)).second) {
            throw pbt::Failure("variable " + name + " is reported twice by the assignment interface");
        }
    }
    return res;
}

Answer Session::read_model(Clingo::Model &m) {
    Answer a;
    a.thread = m.thread_id();
    check_ret(clingodl_on_model(theory_, m.to_c()));
    for (auto const &sym : m.symbols(Clingo::ShowType::Shown)) { a.atoms.emplace_back(sym.to_string()); }
    std::sort(a.atoms.begin(), a.atoms.end());
    for (auto const &sym : m.symbols(Clingo::ShowType::Theory)) {
        if (!sym.match("dl", 2)) { throw pbt::Failure("unexpected theory term " + sym.to_string()); }
        auto args = sym.arguments();
        if (!a.dl.emplace(args[0].to_string(), args[1].to_string()).second) {
            throw pbt::Failure("two values reported for variable " + args[0].to_string());
        }
    }
    a.api = read_assignment(a.thread);
    return a;
}

Solved Session::solve(SolveOpts const &opts) {
    struct Handler : Clingo::SolveEventHandler {
        Handler(Session &s, SolveOpts const &o) : self{s}, opts{o} {}
        bool model(Clingo::Model &m) {
            try {
                Answer a = self.read_model(m);
                if (opts.on_model) { opts.on_model(self, m, a); }
                res.answers.emplace_back(std::move(a));
            } catch (pbt::Failure const &e) {
                error = std::make_unique<pbt::Failure>(e);
                return false;
            }
            return opts.limit == 0 || static_cast<int>(res.answers.size()) < opts.limit;
        }
        bool on_model(Clingo::Model &m) override {
            if (opts.mode == SolveMode::Yield) { return true; }
            std::lock_guard<std::mutex> lock(mut);
            if (opts.mode == SolveMode::Interrupt) {
                // further answers might be found before the search stops
                if (opts.limit > 0 && static_cast<int>(res.answers.size()) >= opts.limit) { return false; }
                if (!model(m)) { self.ctl().interrupt(); }
                return error == nullptr;
            }
            return model(m);
        }
        void on_statistics(Clingo::UserStatistics step, Clingo::UserStatistics accu) override {
            if (opts.call_theory_stats) {
                check_ret(clingodl_on_statistics(self.theory_, step.to_c(), accu.to_c()));
            }
            if (opts.on_stats) {
                try {
                    opts.on_stats(step, accu);
                } catch (pbt::Failure const &e) {
                    error = std::make_unique<pbt::Failure>(e);
                }
            }
        }
        Session &self;
        SolveOpts const &opts;
        Solved res;
        std::unique_ptr<pbt::Failure> error;
        std::mutex mut;
    };
    Handler h{*this, opts};
    lib([&]() {
        auto ass = Clingo::LiteralSpan{opts.assumptions.data(), opts.assumptions.size()};
        auto handle = ctl_->solve(ass, &h, opts.mode == SolveMode::Async, opts.mode == SolveMode::Yield);
        if (opts.mode == SolveMode::Yield) {
            handle.resume();
            while (auto const &m = handle.model()) {
                if (!h.model(const_cast<Clingo::Model &>(m))) {
                    handle.cancel();
                    break;
                }
                handle.resume();
            }
        } else if (opts.mode == SolveMode::Async) { handle.wait(); }
        auto r = handle.get();
        h.res.sat = r.is_satisfiable();
        h.res.unsat = r.is_unsatisfiable();
        h.res.exhausted = r.is_exhausted();
        h.res.interrupted = r.is_interrupted();
    });
    if (h.error) { throw *h.error; }
    return std::move(h.res);
}

} // namespace drive

static bool tracing() {
    static bool t = std::getenv("PBT_TRACE") != nullptr;
    return t;
}

static void trace(char const *what, drive::literal_t const *l, size_t n) {
    if (tracing()) {
        std::fprintf(stderr, "%s:", what);
        for (size_t i = 0; i < n; ++i) { std::fprintf(stderr, " %d", l[i]); }
        std::fprintf(stderr, "\n");
    }
}

// {{{ interposed functions: calls made by the theory (linked into this executable) end up here

using namespace drive;

extern "C" {

bool clingo_propagate_control_add_clause(clingo_propagate_control_t *control, clingo_literal_t const *clause,
                                         size_t size, clingo_clause_type_t type, bool *result) {
    using F = bool (*)(clingo_propagate_control_t *, clingo_literal_t const *, size_t, clingo_clause_type_t, bool *);
    static F f = real<F>("clingo_propagate_control_add_clause");
    trace("clause", clause, size);
    if (drive::active_hooks() != nullptr && drive::active_hooks()->on_clause) {
        std::lock_guard<std::mutex> lock(drive::active_hooks()->mut);
        drive::active_hooks()->on_clause(control, clause, size);
    }
    return f(control, clause, size, type, result);
}

bool clingo_propagate_init_add_clause(clingo_propagate_init_t *init, clingo_literal_t const *clause, size_t size,
                                      bool *result) {
    using F = bool (*)(clingo_propagate_init_t *, clingo_literal_t const *, size_t, bool *);
    static F f = real<F>("clingo_propagate_init_add_clause");
    trace("init clause", clause, size);
    if (drive::active_hooks() != nullptr && drive::active_hooks()->on_init_clause) {
        std::lock_guard<std::mutex> lock(drive::active_hooks()->mut);
        drive::active_hooks()->on_init_clause(init, clause, size);
    }
    return f(init, clause, size, result);
}

bool clingo_propagate_init_add_literal(clingo_propagate_init_t *init, bool freeze, clingo_literal_t *result) {
    using F = bool (*)(clingo_propagate_init_t *, bool, clingo_literal_t *);
    static F f = real<F>("clingo_propagate_init_add_literal");
    bool ret = f(init, freeze, result);
    trace("init literal", result, 1);
    if (ret && drive::active_hooks() != nullptr && drive::active_hooks()->on_init_literal) {
        std::lock_guard<std::mutex> lock(drive::active_hooks()->mut);
        drive::active_hooks()->on_init_literal(*result);
    }
    return ret;
}

bool clingo_control_register_propagator(clingo_control_t *control, clingo_propagator_t const *propagator, void *data,
                                        bool sequential) {
    return hooked_register(control, propagator, data, sequential);
}

bool clingo_propagate_init_add_watch_to_thread(clingo_propagate_init_t *init, clingo_literal_t lit, clingo_id_t id) {
    using F = bool (*)(clingo_propagate_init_t *, clingo_literal_t, clingo_id_t);
    static F f = real<F>("clingo_propagate_init_add_watch_to_thread");
    trace("watch", &lit, 1);
    return f(init, lit, id);
}
}

// }}}
