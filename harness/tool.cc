#include "tool.hh"

#include <algorithm>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <poll.h>
#include <sys/wait.h>
#include <unistd.h>

namespace tool {

Result run(std::vector<std::string> const &args, std::string const &input, int seconds) {
    int in[2], out[2], err[2];
    if (pipe2(in, O_CLOEXEC) != 0 || pipe2(out, O_CLOEXEC) != 0 || pipe2(err, O_CLOEXEC) != 0) {
        throw std::runtime_error("harness: pipe failed");
    }
    std::vector<char *> argv;
    for (auto const &a : args) { argv.push_back(const_cast<char *>(a.c_str())); }
    argv.push_back(nullptr);
    pid_t pid = fork();
    if (pid < 0) { throw std::runtime_error("harness: fork failed"); }
    if (pid == 0) {
        dup2(in[0], 0);
        dup2(out[1], 1);
        dup2(err[1], 2);
        execv(argv[0], argv.data());
        _exit(127);
    }
    close(in[0]);
    close(out[1]);
    close(err[1]);
    if (!input.empty()) {
        // (inputs are small enough to fit the pipe)
        if (write(in[1], input.data(), input.size()) < 0) {}
    }
    close(in[1]);
    Result r;
    pollfd fds[2] = {{out[0], POLLIN, 0}, {err[0], POLLIN, 0}};
    int open = 2;
    auto end = time(nullptr) + seconds;
    while (open > 0) {
        auto left = end - time(nullptr);
        if (left <= 0) {
            r.timeout = true;
            kill(pid, SIGKILL);
            break;
        }
        poll(fds, 2, static_cast<int>(left * 1000));
        for (int i = 0; i < 2; ++i) {
            if (fds[i].fd >= 0 && (fds[i].revents & (POLLIN | POLLHUP)) != 0) {
                char buf[1 << 14];
                auto n = read(fds[i].fd, buf, sizeof(buf));
                if (n <= 0) {
                    close(fds[i].fd);
                    fds[i].fd = -1;
                    --open;
                } else {
                    (i == 0 ? r.out : r.err).append(buf, static_cast<size_t>(n));
                }
            }
        }
    }
    for (auto &f : fds) {
        if (f.fd >= 0) { close(f.fd); }
    }
    int st = 0;
    waitpid(pid, &st, 0);
    r.rc = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
    return r;
}

namespace {
//! Split at spaces outside of strings.
std::vector<std::string> split(std::string const &l) {
    std::vector<std::string> res;
    std::string cur;
    bool quote = false;
    for (size_t i = 0; i < l.size(); ++i) {
        if (quote && l[i] == '\\') {
            cur += l[i];
            if (++i < l.size()) { cur += l[i]; }
            continue;
        }
        if (l[i] == '"') { quote = !quote; }
        if (l[i] == ' ' && !quote) {
            if (!cur.empty()) { res.push_back(cur); }
            cur.clear();
        } else {
            cur += l[i];
        }
    }
    if (!cur.empty()) { res.push_back(cur); }
    return res;
}
} // namespace

Output parse(std::string const &out) {
    Output r;
    std::istringstream in(out);
    std::string l;
    while (std::getline(in, l)) {
        if (l.rfind("Answer: ", 0) == 0) {
            std::getline(in, l);
            drive::Answer a;
            for (auto const &t : split(l)) {
                // values are terms dl(variable,value)
                if (t.rfind("dl(", 0) == 0) {
                    auto sym = Clingo::parse_term(t.c_str());
                    auto args = sym.arguments();
                    if (args.size() == 2) {
                        if (!a.dl.emplace(args[0].to_string(), args[1].to_string()).second) {
                            throw pbt::Failure("two values printed for a variable: " + l);
                        }
                        continue;
                    }
                }
                a.atoms.push_back(t);
            }
            std::sort(a.atoms.begin(), a.atoms.end());
            r.answers.push_back(std::move(a));
        } else if (l == "SATISFIABLE" || l == "UNSATISFIABLE" || l == "UNKNOWN" || l == "OPTIMUM FOUND") {
            r.status = l;
        } else {
            auto p = l.find(':');
            if (p != std::string::npos) {
                auto k = l.substr(0, p);
                while (!k.empty() && k.back() == ' ') { k.pop_back(); }
                while (!k.empty() && k.front() == ' ') { k.erase(0, 1); }
                auto v = l.substr(p + 1);
                while (!v.empty() && v.front() == ' ') { v.erase(0, 1); }
                r.fields[k] = v;
            }
        }
    }
    return r;
}

void write_file(std::string const &path, std::string const &text) {
    std::ofstream f(path);
    f << text;
}

} // namespace tool
