// Sequential drivers: one case per line, numbers separated by blanks, one
// line of answers per case.
#pragma once
#include <cmath>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

struct reader {
    std::istringstream in;
    explicit reader(const std::string& s) : in(s) {}
    bool more() { return bool(in >> std::ws) && in.peek() != EOF; }
    long i() {
        long v = 0;
        in >> v;
        return v;
    }
    double d() {
        double v = 0;
        in >> v;
        return v;
    }
    std::string s() {
        std::string v;
        in >> v;
        return v;
    }
};

/// nearest integer, or 1000000007 if the value is not close to one
inline long whole(double v, double tol) {
    if (!(std::fabs(v) < 1e15)) return 1000000009;
    long n = std::lround(v);
    return std::fabs(v - (double)n) <= tol ? n : 1000000007;
}

template <typename F>
int drive(F f) {
    // messages of the library are dropped
    std::ostream answers(std::cout.rdbuf());
    std::cout.rdbuf(nullptr);
    std::string line;
    while (std::getline(std::cin, line)) {
        reader r(line);
        std::ostringstream out;
        try {
            f(r, out);
        } catch (std::exception& e) {
            out << " EXCEPTION " << e.what();
        }
        std::string s = out.str();
        for (auto& c : s)
            if (c == '\n') c = ' ';
        answers << s << std::endl;
    }
    std::cout.rdbuf(answers.rdbuf());
    return 0;
}
