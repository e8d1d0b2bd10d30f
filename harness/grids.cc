// Gridded data of the specification GridBook. One line per history: the grid
// and the operations on it. Locations are given times four.
#include <usml/types/types.h>

#include "line.h"

using namespace usml::types;
namespace ub = boost::numeric::ublas;

struct grid_spec {
    int nd, form, vec, how;
    std::vector<std::vector<double>> x, y;
    std::vector<double> data;
    double value(const size_t* index) const {
        double a = y[0][index[0]];
        double b = nd > 1 ? y[1][index[1]] : 0;
        double c = nd > 2 ? y[2][index[2]] : 0;
        switch (form) {
            case 0: {  // product
                double v = a;
                if (nd > 1) v *= b;
                if (nd > 2) v *= c;
                return v;
            }
            case 1:
                return a + b + c;
            case 2:
                return a * b + c;
            case 3:
                return a * (b + c);
            case 4:
                return (a + b) * c;
            default: {
                size_t n = 0;
                for (int d = 0; d < nd; ++d) n = n * x[d].size() + index[d];
                return data[n];
            }
        }
    }
};

// kinds of data: their components are the value v and 2 - 3 v
static void put(double v, double& r) { r = v; }
static void put(double v, ub::vector<double>& r) {
    r.resize(2);
    r(0) = v;
    r(1) = 2 - 3 * v;
}
static void put(double v, ub::matrix<double>& r) {
    r.resize(1, 2);
    r(0, 0) = v;
    r(0, 1) = 2 - 3 * v;
}
static void out1(std::ostream& o, double v) { o << "~" << v << " "; }
static void out1(std::ostream& o, const ub::vector<double>& v) {
    o << "~" << v(0) << " ~" << v(1) << " ";
}
static void out1(std::ostream& o, const ub::matrix<double>& v) {
    o << "~" << v(0, 0) << " ~" << v(0, 1) << " ";
}
static double one(double v) { return v; }
static double one(const ub::vector<double>& v) { return v(0); }
static double one(const ub::matrix<double>& v) { return v(0, 0); }

template <size_t N>
bool bulk(const data_grid<N, double>& g, const double* loc, std::ostream& out) {
    // the location, between others
    ub::matrix<double> x[3], r(2, 2), dx[3];
    for (size_t d = 0; d < N; ++d) {
        x[d] = ub::matrix<double>(2, 2);
        dx[d] = ub::matrix<double>(2, 2);
        for (int i = 0; i < 4; ++i) x[d](i / 2, i % 2) = loc[d] + (i - 2) * 0.375;
    }
    ub::matrix<double> r2(2, 2);
    if constexpr (N == 1) {
        g.interpolate(x[0], &r, &dx[0]);
        g.interpolate(x[0], &r2);
    }
    if constexpr (N == 2) {
        g.interpolate(x[0], x[1], &r, &dx[0], &dx[1]);
        g.interpolate(x[0], x[1], &r2);
    }
    if constexpr (N == 3) {
        g.interpolate(x[0], x[1], x[2], &r, &dx[0], &dx[1], &dx[2]);
        g.interpolate(x[0], x[1], x[2], &r2);
    }
    out1(out, r(1, 0));
    for (size_t d = 0; d < N; ++d) out1(out, dx[d](1, 0));
    if (r(1, 0) != r2(1, 0)) out << "alone ";
    return true;
}
template <size_t N, class T>
bool bulk(const data_grid<N, T>&, const double*, std::ostream&) {
    return false;
}

template <size_t N, class T>
void run(const grid_spec& s, reader& r, std::ostream& out) {
    seq_vector::csptr axis[N];
    for (size_t d = 0; d < N; ++d)
        axis[d] = s.how ? seq_vector::build_best(s.x[d]) : seq_vector::csptr(new seq_data(s.x[d]));
    gen_grid<N, T> g(axis);
    size_t index[3] = {0, 0, 0}, total = 1;
    for (size_t d = 0; d < N; ++d) total *= s.x[d].size();
    // the last index changes fastest for one half of the grids
    for (size_t k = 0; k < total; ++k) {
        size_t m = k;
        for (size_t e = 0; e < N; ++e) {
            size_t d = s.how ? N - 1 - e : e;
            index[d] = m % s.x[d].size();
            m /= s.x[d].size();
        }
        T v;
        put(s.value(index), v);
        g.setdata(index, v);
    }
    for (size_t k = 0; k < total; ++k) {
        size_t m = k;
        for (size_t d = 0; d < N; ++d) {
            index[d] = m % s.x[d].size();
            m /= s.x[d].size();
        }
        if (one(g.data(index)) != s.value(index)) out << "stored ";
    }
    out.precision(15);
    while (r.more()) {
        int op = (int)r.i();
        if (op == 2) {
            size_t d = (size_t)r.i();
            g.interp_type(d, (interp_enum)(int)r.i());
            out << (int)g.interp_type(d) << " ";
        } else if (op == 3) {
            size_t d = (size_t)r.i();
            g.edge_limit(d, r.i() != 0);
            out << g.edge_limit(d) << " ";
        } else {
            double loc[3];
            for (size_t d = 0; d < N; ++d) loc[d] = r.i() / 4.0;
            if (op == 0 || !bulk((const data_grid<N, T>&)g, loc, out)) {
                T deriv[N];
                for (auto& x : deriv) put(77.0, x);
                T v = g.interpolate(loc, deriv);
                T w = g.interpolate(loc);
                out1(out, v);
                for (auto& x : deriv) out1(out, x);
                if (one(v) != one(w)) out << "alone ";
            }
        }
        out << "; ";
    }
}

template <class T>
void dims(const grid_spec& s, reader& r, std::ostream& out) {
    if (s.nd == 1) run<1, T>(s, r, out);
    if (s.nd == 2) run<2, T>(s, r, out);
    if (s.nd == 3) run<3, T>(s, r, out);
}

int main() {
    return drive([](reader& r, std::ostream& out) {
        grid_spec s;
        s.nd = (int)r.i();
        s.form = (int)r.i();
        s.vec = (int)r.i();
        s.how = (int)r.i();
        size_t total = 1;
        for (int d = 0; d < s.nd; ++d) {
            size_t n = (size_t)r.i();
            total *= n;
            std::vector<double> x(n), y(n);
            for (auto& v : x) v = r.i();
            for (auto& v : y) v = r.i();
            s.x.push_back(x);
            s.y.push_back(y);
        }
        if (s.form == 5)
            for (size_t k = 0; k < total; ++k) s.data.push_back(r.i());
        if (s.vec == 0) dims<double>(s, r, out);
        if (s.vec == 1) dims<ub::vector<double>>(s, r, out);
        if (s.vec == 2) dims<ub::matrix<double>>(s, r, out);
    });
}
