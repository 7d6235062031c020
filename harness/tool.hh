// Running executables (the command line tool).
#pragma once
#include "drive.hh"

namespace tool {

struct Result {
    int rc{-1};       // exit code; negative signal number if killed
    std::string out;
    std::string err;
    bool timeout{false};
};

//! Run a program with an optional text passed on standard input.
Result run(std::vector<std::string> const &args, std::string const &input = "", int seconds = 60);

//! Parsed standard output of the command line tool.
struct Output {
    std::vector<drive::Answer> answers; // as printed; values in dl and no api values
    std::string status;                 // SATISFIABLE, UNSATISFIABLE, UNKNOWN, or OPTIMUM FOUND
    std::map<std::string, std::string> fields; // summary lines "key : value"
};
Output parse(std::string const &out);

void write_file(std::string const &path, std::string const &text);

} // namespace tool
