// P19: isolation of theory instances and reproducibility.
#include "net.hh"
#include "trace.hh"
#include <sys/time.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

using namespace pbt;

namespace {

//! Run a function in a fresh child process and return its result.
std::string in_child(Case &c, std::function<std::string()> const &f) {
    int fds[2];
    if (pipe(fds) != 0) { throw std::runtime_error("harness: pipe failed"); }
    pid_t pid = fork();
    if (pid < 0) { throw std::runtime_error("harness: fork failed"); }
    if (pid == 0) {
        close(fds[0]);
        itimerval it{};
        it.it_value.tv_sec = 30;
        setitimer(ITIMER_PROF, &it, nullptr);
        std::string r;
        try {
            r = "+" + f();
        } catch (std::exception const &e) { r = std::string("-") + e.what(); }
        size_t off = 0;
        while (off < r.size()) {
            auto n = write(fds[1], r.data() + off, r.size() - off);
            if (n <= 0) { break; }
            off += static_cast<size_t>(n);
        }
        _exit(0);
    }
    close(fds[1]);
    std::string r;
    char buf[1 << 14];
    for (;;) {
        auto n = read(fds[0], buf, sizeof(buf));
        if (n <= 0) { break; }
        r.append(buf, static_cast<size_t>(n));
    }
    close(fds[0]);
    int status = 0;
    waitpid(pid, &status, 0);
    if (!WIFEXITED(status) || WEXITSTATUS(status) != 0 || r.empty()) {
        c.fail("process running the sessions died with status " + std::to_string(status));
    }
    if (r[0] == '-') { c.fail(r.substr(1)); }
    return r.substr(1);
}

trace::Script gen_script(Case &c, int max_parts) {
    trace::Script s;
    s.cfg = gen::gen_config(c.s, [] {
        gen::ConfParams p;
        p.cc = p.shift = true;
        return p;
    }());
    bool rdl = c.s.chance(1, 5);
    if (rdl) { s.cfg.dl.emplace_back("rdl", "yes"); }
    s.cfg.cl.emplace_back("--eq=0");
    // (small programs of the same vocabulary)
    net::NetParams q;
    q.nodes = 5;
    q.cons = 9;
    q.strict = !rdl;
    int n = c.s.range(1, max_parts);
    for (int i = 0; i < n; ++i) {
        auto text = net::gen_net(c.s, q).text;
        std::string r;
        for (size_t j = 0; j < text.size(); ++j) {
            bool start = j == 0 || (std::isalnum(text[j - 1]) == 0 && text[j - 1] != '_');
            r += text[j];
            if (start && (text[j] == 'e' || text[j] == 'd') && j + 1 < text.size() && text[j + 1] == '(') {
                r += "_" + std::to_string(i);
            }
        }
        if (c.s.chance(1, 12)) {
            // an ill-formed constraint
            r += c.s.pick(std::vector<std::string>{"&diff { x + y } <= 3.\n", "&diff { 2*x - y } <= 3.\n",
                                                   "&diff { x - y } <= z.\n", "&diff { x - \"a\"+1 } <= 99999999999.\n",
                                                   "bad :- &diff { x - y; y - x } <= 3.\n", "bad :- not &diff { x - y : bad } <= 3.\n",
                                                   ":- &diff { x - y, 1 } <= 3.\n", ":- &diff { x - y }.\n",
                                                   "bad :- bad, not not &diff { } <= 3.\n", "&diff { x - y : bad } <= 3.\n",
                                                   "&diff(1) { x - y } <= 3.\n", "bad :- &diff { x - y } <= 0-z.\n",
                                                   "&diff { x - 2147483647 + y - z - 2147483647 } <= 3.\n",
                                                   "&diff { x - y - 2147483647 } <= 3.\n",
                                                   "&diff { a + b + 2147483647*c } <= c.\n",
                                                   "&diff { x(1/0) - y } <= 3.\n", "&diff { x - y } <= 3/0.\n",
                                                   "&diff { x - y } <= \"1.5\".\n", "&diff { x - y } <= \"3000000000\".\n"});
        }
        s.parts.push_back(r);
    }
    s.limit = c.s.range(1, 20);
    return s;
}

struct Event {
    int actor;
    int steps;
    bool thread;
};

void p19(Case &c) {
    auto subject = gen_script(c, 3);
    int n = c.s.range(1, 3);
    std::vector<trace::Script> others;
    for (int i = 0; i < n; ++i) { others.push_back(gen_script(c, 2)); }
    std::vector<Event> schedule;
    uint64_t threads = 0;
    int m = c.s.range(1, 14);
    for (int i = 0; i < m; ++i) {
        Event e;
        e.actor = c.s.range(0, n); // 0 is the subject
        e.steps = c.s.range(1, 5);
        e.thread = c.s.chance(1, 8);
        threads += e.thread;
        schedule.push_back(e);
    }
    // actors advanced while answers of the subject are reported
    std::vector<int> nested;
    if (c.s.chance(1, 3)) {
        int k = c.s.range(1, 10);
        for (int i = 0; i < k; ++i) { nested.push_back(c.s.range(0, n)); }
    }
    bool twice = c.s.chance(1, 4);
    c.desc << "subject: " << subject.cfg.str() << " limit " << subject.limit << "\n";
    for (auto const &p : subject.parts) { c.desc << "-- part\n" << p; }
    for (auto const &o : others) {
        c.desc << "other instance: " << o.cfg.str() << " limit " << o.limit << "\n";
        for (auto const &p : o.parts) { c.desc << "-- part\n" << p; }
    }
    c.desc << "schedule:";
    for (auto const &e : schedule) { c.desc << " " << e.actor << "x" << e.steps << (e.thread ? "t" : ""); }
    if (!nested.empty()) { c.desc << "\nduring answers:"; }
    for (auto i : nested) { c.desc << " " << i; }
    c.desc << "\n";
    c.publish();
    auto alone = in_child(c, [&] { return trace::run(subject); });
    auto compare = [&](std::string const &a, std::string const &b, std::string const &what) {
        if (a == b) { return; }
        size_t i = 0;
        while (i < a.size() && i < b.size() && a[i] == b[i]) { ++i; }
        auto ctx = [&](std::string const &s) { return s.substr(i > 80 ? i - 80 : 0, 200); };
        c.fail(what + ":\n..." + ctx(a) + "...\nversus\n..." + ctx(b) + "...");
    };
    if (twice) {
        compare(alone, in_child(c, [&] { return trace::run(subject); }), "two runs in fresh processes differ");
        c.label("repeated");
    }
    auto mixed = in_child(c, [&] {
        std::vector<std::unique_ptr<trace::Actor>> actors;
        actors.push_back(std::make_unique<trace::Actor>(subject));
        for (auto const &o : others) { actors.push_back(std::make_unique<trace::Actor>(o)); }
        size_t next = 0;
        actors[0]->on_answer = [&] {
            if (next < nested.size()) {
                int i = nested[next++];
                if (i > 0) { actors[i]->step(); }
            }
        };
        for (auto const &e : schedule) {
            auto advance = [&] {
                for (int i = 0; i < e.steps; ++i) {
                    if (!actors[e.actor]->step()) { break; }
                }
            };
            if (e.thread) {
                std::thread(advance).join();
            } else {
                advance();
            }
        }
        actors[0]->finish();
        auto r = actors[0]->log();
        // the others in reverse order of creation
        if (others.size() > 1) { std::swap(actors[1], actors.back()); }
        for (size_t i = 1; i < actors.size(); ++i) { actors[i].reset(); }
        return r;
    });
    compare(alone, mixed, "the trace depends on other instances");
    auto lines = std::count(alone.begin(), alone.end(), '\n');
    c.label("events compared", static_cast<uint64_t>(lines));
    if (threads > 0) { c.label("actions in other threads", threads); }
    if (!nested.empty()) { c.label("nested instances"); }
    c.nontrivial = lines > 5 && alone.find("answer") != std::string::npos;
}
Register r19("P19",
             "A subject session and up to three other sessions with different options and programs, interleaved step by "
             "step, moved to other threads, or nested in answer callbacks; the subject's trace of clauses, auxiliary literals, "
             "decisions, answers and values is compared with that of the subject alone in a fresh process. Non-trivial: "
             "the subject has answers and more than five events.",
             p19);

} // namespace
