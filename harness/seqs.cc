// Sequences of the specification SequenceBook. One line per history: scale,
// how the sequence is made, and what is done with it.
#include <usml/types/types.h>

#include <limits>

#include "line.h"

using namespace usml::types;

static const double scales[] = {1.0, 0.125, 0.1, 1.0 / 3.0};

static seq_vector::csptr make(reader& r) {
    const double sc = scales[r.i()];
    const int kind = (int)r.i();
    const size_t n = (size_t)r.i();
    seq_vector* s = nullptr;
    if (kind < 3) {
        const double f = sc * r.i(), d = sc * r.i();
        const int extra = (int)r.i();
        const double last = f + (n - 1.0) * d;
        if (kind == 0)
            s = n % 2 ? new seq_linear(f, d, n) : new seq_linear(f, d, (int)n);
        else if (kind == 1)
            s = new seq_linear(f, last, n, true);
        else
            s = new seq_linear(f, d, last + extra / 4.0 * d);
    } else if (kind == 3) {
        const double f = sc * r.i(), p = r.i(), q = r.i();
        const int how = (int)r.i(), extra = (int)r.i();
        const double last = f * pow(p / q, n - 1.0);
        if (how == 0)
            s = new seq_log(f, p / q, n);
        else if (how == 1)
            s = new seq_log(f, p / q, (int)n);
        else
            s = new seq_log(f, p / q, last + extra / 4.0 * (last * p / q - last));
    } else if (kind == 4) {
        const int how = (int)r.i();
        std::vector<double> v(n);
        boost::numeric::ublas::vector<double> u(n);
        for (size_t i = 0; i < n; ++i) u[i] = v[i] = sc * r.i();
        if (how == 0)
            s = new seq_data(v);
        else if (how == 1)
            s = new seq_data(u, n);
        else
            s = new seq_data((const double*)v.data(), n);
    } else {
        double a = r.i(), b = r.i(), c = r.i(), d = r.i();
        s = new seq_rayfan(a, b, n, c, d);
    }
    return seq_vector::csptr(s);
}

static double place(const seq_vector& s, int i, int q) {
    const int n = (int)s.size();
    const double lo = n < 2 ? 1.0 : s[1] - s[0];
    const double hi = n < 2 ? 1.0 : s[n - 1] - s[n - 2];
    if (i < 0) return s[0] + (i + q / 4.0) * lo;
    if (i >= n - 1) return s[n - 1] + (i - n + 1 + q / 4.0) * hi;
    return s[i] + q / 4.0 * (s[i + 1] - s[i]);
}

static void show(const seq_vector& s, std::ostream& out) {
    const int n = (int)s.size();
    out << n << " ";
    out.precision(15);
    for (int i = 0; i < n; ++i) out << "~" << s[i] << " ";
    for (int i = 0; i < n - 1; ++i) out << "~" << s.increment(i) << " ";
    if (s(n) != s[n - 1] || s(n + 100) != s[n - 1] || s(0) != s[0]) out << "end ";
    const double a = s.increment(n + 100), b = s.increment(n - 1);
    if (n > 1 && a != b) out << "increment ";
    std::vector<double> up, down, own;
    for (double v : s) {
        up.push_back(v);
        if (up.size() > 100) break;
    }
    for (auto i = s.rbegin(); i != s.rend(); ++i) {
        down.insert(down.begin(), *i);
        if (down.size() > 100) break;
    }
    for (int i = 0; i < n; ++i) own.push_back(s[i]);
    if (up != own) out << "forward ";
    if (down != own) out << "backward ";
    if (!(s == s) || s != s) out << "equality ";
    for (int i = -2; i < n + 2; ++i)
        for (int q = 0; q < 4; ++q) {
            const double v = place(s, i, q);
            out << s.find_index(v) << "," << s.find_nearest(v) << " ";
        }
    const double far = (n > 1 && s[1] < s[0]) ? -1e300 : 1e300;
    out << s.find_index(-far) << "," << s.find_index(far) << " ";
    out << "; ";
}

static seq_vector::csptr rebuild(const std::vector<double>& v, int how) {
    if (how == 0) return seq_vector::build_best(v.data(), v.size());
    if (how == 1) {
        boost::numeric::ublas::vector<double> u(v.size());
        for (size_t i = 0; i < v.size(); ++i) u[i] = v[i];
        return seq_vector::build_best(u);
    }
    return seq_vector::build_best(v);
}

int main() {
    return drive([](reader& r, std::ostream& out) {
        seq_vector::csptr s = make(r);
        show(*s, out);
        while (r.more()) {
            const int op = (int)r.i();
            seq_vector::csptr old = s;
            if (op == 1) {
                const int i = (int)r.i(), q = (int)r.i();
                const double a = place(*s, i, q);
                const int j = (int)r.i(), p = (int)r.i();
                const double b = place(*s, j, p);
                s = s->clip(std::min(a, b), std::max(a, b));
            } else if (op == 2 || op == 3) {
                const int how = (int)r.i();
                std::vector<double> v;
                for (size_t i = 0; i < s->size(); ++i)
                    v.insert(op == 2 ? v.end() : v.begin(), (*s)[i]);
                s = rebuild(v, how);
                if (*s != *rebuild(v, how)) out << "different ";
            } else if (op == 4) {
                s = seq_vector::csptr(new seq_augment(s, (size_t)r.i()));
            }
            out << (*s == *old) << (*old == *s) << (*s != *old) << " ";
            show(*s, out);
        }
    });
}
