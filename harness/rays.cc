// Replays of the specification EigenrayBook on the real eigenray_collection.
#include <usml/eigenrays/eigenray_collection.h>
#include <usml/ocean/attenuation_constant.h>
#include <usml/ocean/profile_linear.h>
#include <usml/types/seq_linear.h>
#include <usml/types/wposition.h>
#include <usml/types/wposition1.h>
#include <unistd.h>

#include <cstdio>
#include <netcdf>

#include "line.h"

using namespace usml::eigenrays;
using namespace usml::ocean;
using namespace usml::types;

static const double ATTEN = 0.0005;  // attenuation_constant

static wposition1 moved(const wposition1& p, long e, long n, long u) {
    wposition1 q(p);
    q.latitude(p.latitude() + to_degrees((double)n / p.rho()));
    q.longitude(p.longitude() + to_degrees((double)e / (p.rho() * std::sin(p.theta()))));
    q.altitude(p.altitude() + (double)u);
    return q;
}

struct book {
    std::vector<eigenray_model::csptr> rays;

    long number(const eigenray_model* r) const {
        for (size_t n = 0; n < rays.size(); ++n)
            if (rays[n].get() == r) return (long)n + 1;
        return -999;
    }
};

template <class T>
static std::vector<T> read(const netCDF::NcFile& f, const char* name, size_t n) {
    std::vector<T> v(n + 1);
    f.getVar(name).getVar(v.data());
    v.resize(n);
    return v;
}

static void print_total(std::ostream& out, const eigenray_model& t, size_t nf) {
    for (size_t f = 0; f < nf; ++f) out << " ~" << t.intensity(f) << " ~" << std::cos(t.phase(f)) << " ~" << std::sin(t.phase(f));
    out << " ~" << t.travel_time << " ~" << t.source_de << " ~" << std::cos(to_radians(t.source_az)) << " ~"
        << std::sin(to_radians(t.source_az)) << " ~" << t.target_de << " ~" << std::cos(to_radians(t.target_az)) << " ~"
        << std::sin(to_radians(t.target_az)) << " " << t.surface << "," << t.bottom << "," << t.caustic << "," << t.upper
        << "," << t.lower;
}

static bool same(const double* a, const double* b, size_t n) {
    for (size_t i = 0; i < n; ++i)
        if (!(a[i] == b[i]) && !(a[i] != a[i] && b[i] != b[i])) return false;
    return true;
}

static void print_file(std::ostream& out, const eigenray_collection& c, const book& b, size_t nf) {
    std::string name = "rays" + std::to_string(getpid()) + ".nc";
    c.write_netcdf(name.c_str());
    size_t cells = c.size1() * c.size2();
    netCDF::NcFile f(name, netCDF::NcFile::read);
    auto dim = [&](const char* d) { return f.getDim(d).getSize(); };
    size_t num = dim("eigenrays");
    out << " D" << dim("rows") << "," << dim("cols") << "," << dim("frequencies");
    auto total = read<int>(f, "proploss_index", cells);
    auto index = read<int>(f, "eigenray_index", cells);
    auto count = read<int>(f, "eigenray_num", cells);
    auto first = read<double>(f, "initial_time", cells);
    auto ids = read<unsigned long long>(f, "targetID", cells);
    auto lat = read<double>(f, "latitude", cells);
    auto lng = read<double>(f, "longitude", cells);
    auto alt = read<double>(f, "altitude", cells);
    for (size_t m = 0; m < cells; ++m) {
        size_t r = m / c.size2(), k = m % c.size2();
        out << " X" << total[m] << "," << index[m] << "," << count[m] << "," << whole(first[m] * 16.0, 1e-9) << "," << ids[m]
            << "," << (lat[m] == c.position(r, k).latitude() && lng[m] == c.position(r, k).longitude() && alt[m] == c.position(r, k).altitude());
    }
    auto src = read<unsigned long long>(f, "sourceID", 1);
    auto slat = read<double>(f, "source_latitude", 1);
    auto slng = read<double>(f, "source_longitude", 1);
    auto salt = read<double>(f, "source_altitude", 1);
    out << " S" << src[0] << "," << whole(slat[0], 1e-6) << "," << whole(slng[0], 1e-6) << "," << whole(salt[0], 1e-3) << " F";
    for (double v : read<double>(f, "frequencies", nf)) out << whole(v, 1e-9) << ",";
    auto intensity = read<double>(f, "intensity", num * nf);
    auto phase = read<double>(f, "phase", num * nf);
    std::vector<std::vector<double>> reals;
    for (const char* v : {"travel_time", "source_de", "source_az", "target_de", "target_az"}) reals.push_back(read<double>(f, v, num));
    std::vector<std::vector<int>> ints;
    for (const char* v : {"surface", "bottom", "caustic", "upper", "lower"}) ints.push_back(read<int>(f, v, num));
    auto is = [&](size_t k, const eigenray_model& r) {
        double d[5] = {r.travel_time, r.source_de, r.source_az, r.target_de, r.target_az};
        int i[5] = {r.surface, r.bottom, r.caustic, r.upper, r.lower};
        for (int j = 0; j < 5; ++j)
            if (!same(&reals[j][k], &d[j], 1) || ints[j][k] != i[j]) return false;
        return same(&intensity[k * nf], &r.intensity.data()[0], nf) && same(&phase[k * nf], &r.phase.data()[0], nf);
    };
    out << " R";
    std::remove(name.c_str());
    for (size_t k = 0; k < num; ++k) {
        long n = -999;
        // records of totals are found through the table of the file
        for (size_t m = 0; m < cells; ++m)
            if (total[m] == (int)k && is(k, c.total(m / c.size2(), m % c.size2()))) n = -1 - (long)m;
        for (size_t j = 0; n == -999 && j < b.rays.size(); ++j)
            if (is(k, *b.rays[j])) n = (long)j + 1;
        out << n << ",";
    }
}

static void run(reader& r, std::ostream& out) {
    out.precision(12);
    bool files = r.i() != 0;
    size_t rows = r.i(), cols = r.i(), nf = r.i();
    bool coherent = r.i() != 0;
    seq_vector::csptr freq(new seq_linear(4.0, 4.0, (int)nf));
    matrix<uint64_t> ids(rows, cols);
    wposition targets(rows, cols);
    for (size_t m = 0; m < rows * cols; ++m) {
        ids(m / cols, m % cols) = (uint64_t)r.i();
        targets.latitude(m / cols, m % cols, 1.0 + 0.25 * (double)m);
        targets.longitude(m / cols, m % cols, 2.0 - 0.5 * (double)m);
        targets.altitude(m / cols, m % cols, -100.0 - (double)m);
    }
    wposition1 source(0.0, 1.0, -50.0);
    eigenray_collection c(freq, source, targets, 77, ids, coherent);
    profile_model::csptr ocean(new profile_linear(1500.0, attenuation_model::csptr(new attenuation_constant(ATTEN))));
    book b;
    while (r.more()) {
        long op = r.i();
        if (op == 1) {
            long m = r.i() - 1;
            auto* e = new eigenray_model;
            e->frequencies = freq;
            e->travel_time = (double)r.i() / 16.0;
            e->intensity.resize(nf);
            e->phase.resize(nf);
            for (size_t f = 0; f < nf; ++f) e->intensity(f) = 20.0 * (double)r.i();
            for (size_t f = 0; f < nf; ++f) e->phase(f) = (double)r.i() * M_PI_2;
            e->source_de = (double)r.i();
            e->source_az = 90.0 * (double)r.i();
            e->target_de = (double)r.i();
            e->target_az = 90.0 * (double)r.i();
            int k = (int)b.rays.size() + 1;
            e->surface = 10 * k;
            e->bottom = 10 * k + 1;
            e->caustic = 10 * k + 2;
            e->upper = 10 * k + 3;
            e->lower = 10 * k + 4;
            b.rays.emplace_back(e);
            c.add_eigenray(m / cols, m % cols, b.rays.back(), 1);
        } else if (op == 2) {
            c.sum_eigenrays();
        } else {
            long m = r.i() - 1, v[6];
            for (auto& x : v) x = r.i();
            wposition1 t(targets, m / cols, m % cols);
            const auto& list = c.eigenrays(m / cols, m % cols);
            auto moves = c.dead_reckon(m / cols, m % cols, moved(source, v[0], v[1], v[2]), moved(t, v[3], v[4], v[5]), ocean);
            out << " K";
            auto old = list.begin();
            for (const auto& e : moves) {
                if (old == list.end()) {
                    out << " toomany";
                    break;
                }
                out << " ~" << (e->travel_time - (*old)->travel_time) * 1500.0;
                for (size_t f = 0; f < nf; ++f) out << " ~" << e->intensity(f) - (*old)->intensity(f);
                out << " " << e->surface << "," << (e->source_de == (*old)->source_de && e->target_az == (*old)->target_az);
                ++old;
            }
            out << ";";
            continue;
        }
        for (size_t m = 0; m < rows * cols; ++m) {
            out << " L";
            for (const auto& e : c.eigenrays(m / cols, m % cols)) out << b.number(e.get()) << ",";
            out << "@" << whole(c.initial_time(m / cols, m % cols) * 16.0, 1e-9);
        }
        for (long id : {0, 5, 7, 9}) {
            out << " Q" << id << ":";
            for (const auto& e : c.find_eigenrays((uint64_t)id)) out << b.number(e.get()) << ",";
            out << "@" << whole(c.find_initial_time((uint64_t)id) * 16.0, 1e-9);
        }
        if (op == 2) {
            for (size_t m = 0; m < rows * cols; ++m) {
                out << " T";
                print_total(out, c.total(m / cols, m % cols), nf);
            }
            if (files) print_file(out, c, b, nf);
        }
        out << " ;";
    }
}

int main() { return drive(run); }
