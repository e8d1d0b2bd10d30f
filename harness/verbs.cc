// Replays of the specification EigenverbStore on the real eigenverb_collection.
#include <usml/biverbs/biverb_collection.h>
#include <usml/eigenverbs/eigenverb_collection.h>
#include <usml/types/seq_log.h>
#include <usml/types/wposition1.h>
#include <unistd.h>

#include <algorithm>
#include <cstdio>
#include <tuple>
#include <netcdf>

#include "line.h"

using namespace usml::biverbs;
using namespace usml::eigenverbs;
using namespace usml::types;

static seq_vector::csptr frequencies() {
    static seq_vector::csptr f(new seq_log(100.0, 2.0, 3));
    return f;
}

static eigenverb_model::csptr verb(long k) {
    auto* v = new eigenverb_model;
    v->travel_time = 0.37 * (double)k;
    v->frequencies = frequencies();
    v->power = boost::numeric::ublas::vector<double>(3);
    for (size_t f = 0; f < 3; ++f) v->power(f) = std::pow(10.0, -(double)(k % 7) - (double)f) * 2.5;
    v->length = 100.0 + (double)k;
    v->width = 50.0 + (double)k;
    v->position = wposition1(-80.0 + 13.0 * (double)(k % 12), -170.0 + 37.0 * (double)(k % 9), -10.0 * (double)k);
    v->direction = 0.3 * (double)k;
    v->grazing = 0.01 * (double)k;
    v->sound_speed = 1500.0 + (double)k;
    v->de_index = (size_t)(k + 300);
    v->az_index = (size_t)(k + 20);
    v->source_de = -0.02 * (double)k;
    v->source_az = 0.1 * (double)k;
    v->surface = (int)k + 1;
    v->bottom = (int)k + 2;
    v->caustic = (int)k + 3;
    v->upper = (int)k + 4;
    v->lower = (int)k + 5;
    return eigenverb_model::csptr(v);
}

static bool close(double a, double b) { return std::fabs(a - b) <= 1e-9 * std::max(1.0, std::fabs(b)); }

/// number of an eigenverb, or what is wrong with it
static std::string name(const eigenverb_model& v) {
    long k = (long)v.de_index - 300;
    std::string n = std::to_string(k);
    auto ref = verb(k);
    const auto& r = *ref;
    auto bad = [&](const char* what) { return n + what; };
    if (!close(v.travel_time, r.travel_time)) return bad("time");
    if (v.frequencies->size() != 3 || v.power.size() != 3) return bad("size");
    for (size_t f = 0; f < 3; ++f) {
        if (!close((*v.frequencies)(f), (*frequencies())(f))) return bad("frequency");
        if (std::fabs(v.power(f) / r.power(f) - 1.0) > 1e-9) return bad("power");
    }
    if (!close(v.length, r.length)) return bad("length");
    if (!close(v.width, r.width)) return bad("width");
    if (!close(v.position.latitude(), r.position.latitude()) || !close(v.position.longitude(), r.position.longitude()) ||
        std::fabs(v.position.altitude() - r.position.altitude()) > 1e-6)
        return bad("position");
    if (!close(v.direction, r.direction)) return bad("direction");
    if (!close(v.grazing, r.grazing)) return bad("grazing");
    if (!close(v.sound_speed, r.sound_speed)) return bad("sound_speed");
    if (v.az_index != r.az_index) return bad("az_index");
    if (!close(v.source_de, r.source_de)) return bad("source_de");
    if (!close(v.source_az, r.source_az)) return bad("source_az");
    if (v.surface != r.surface || v.bottom != r.bottom || v.caustic != r.caustic || v.upper != r.upper || v.lower != r.lower)
        return bad("counts");
    return n;
}

static void print(std::ostream& out, const eigenverb_collection& c, size_t n) {
    for (size_t i = 0; i < n; ++i) {
        std::vector<std::string> names;
        for (const auto& v : c.eigenverbs(i)) names.push_back(name(*v));
        std::sort(names.begin(), names.end(), [](const std::string& a, const std::string& b) {
            return a.size() != b.size() ? a.size() < b.size() : a < b;
        });
        out << " " << c.size(i) << ":";
        for (auto& s : names) out << s << ",";
    }
    out << " ;";
}

/// side of a bistatic contribution: number which its attributes agree on
static long side(double de, double az, int surface, int bottom, int caustic, int upper, int lower) {
    long k = surface - 1;
    auto ref = verb(k);
    const auto& r = *ref;
    return close(de, r.source_de) && close(az, r.source_az) && bottom == r.bottom && caustic == r.caustic &&
                   upper == r.upper && lower == r.lower
               ? k
               : -999;
}

/// Contributions in order of time (ties in order of source): time source
/// receiver and the decades of their powers
struct line2 {
    long time, source, receiver;
    std::string rest;
    bool operator<(const line2& o) const {
        return std::tie(time, source, receiver, rest) < std::tie(o.time, o.source, o.receiver, o.rest);
    }
};

static void print(std::ostream& out, std::vector<line2> list, const std::string& sorted) {
    out << " " << list.size() << ":" << sorted;
    std::sort(list.begin(), list.end());
    for (auto& l : list) out << " " << l.time << "," << l.source << "," << l.receiver << l.rest;
}

static const seq_vector::csptr& two() {
    static seq_vector::csptr f(new seq_log(100.0, 2.0, 2));
    return f;
}

static std::string decades(const double* power, double duration) {
    std::ostringstream s;
    s.precision(10);
    for (size_t f = 0; f < 2; ++f) s << " ~" << std::log10(power[f]);
    s << " ~" << duration;
    return s.str();
}

static void contributions(std::ostream& out, const biverb_collection& c, size_t i) {
    std::vector<line2> list;
    std::string sorted;
    double last = -1.0;
    for (const auto& b : c.biverbs(i)) {
        if (b->travel_time < last) sorted = "unsorted";
        last = b->travel_time;
        long r = side(b->receiver_de, b->receiver_az, b->receiver_surface, b->receiver_bottom, b->receiver_caustic,
                      b->receiver_upper, b->receiver_lower);
        if ((long)b->de_index != r + 300 || (long)b->az_index != r + 20 || b->frequencies != two() || b->power.size() != 2) r = -998;
        list.push_back({whole(b->travel_time / 0.37, 1e-9),
                        side(b->source_de, b->source_az, b->source_surface, b->source_bottom, b->source_caustic, b->source_upper,
                             b->source_lower),
                        r, decades(&b->power(0), b->duration)});
    }
    if (c.size(i) != list.size()) sorted += "size";
    print(out, list, sorted);
}

template <class T>
static std::vector<T> get(const netCDF::NcFile& f, const char* name, size_t n) {
    std::vector<T> v(n + 1);
    f.getVar(name).getVar(v.data());
    return v;
}

static void contribution_file(std::ostream& out, const biverb_collection& c, size_t i) {
    std::string name = "biverbs" + std::to_string(getpid()) + ".nc", sorted;
    c.write_netcdf(name.c_str(), i);
    std::vector<line2> list;
    {
        netCDF::NcFile f(name, netCDF::NcFile::read);
        auto dim = f.getDim("eigenverbs");
        size_t n = dim.isNull() ? 0 : dim.getSize();
        if (n > 0) {
            auto hz = get<double>(f, "frequencies", 2);
            if (!close(hz[0], 100.0) || !close(hz[1], 200.0)) sorted = "frequencies";
            auto D = [&](const char* v, size_t k) { return get<double>(f, v, n)[k]; };
            auto I = [&](const char* v, size_t k) { return get<int>(f, v, n)[k]; };
            auto power = get<double>(f, "power", 2 * n);
            for (size_t k = 0; k < n; ++k) {
                long r = side(to_radians(D("receiver_de", k)), to_radians(D("receiver_az", k)), I("receiver_surface", k),
                              I("receiver_bottom", k), I("receiver_caustic", k), I("receiver_upper", k), I("receiver_lower", k));
                if (I("de_index", k) != r + 300 || I("az_index", k) != r + 20) r = -998;
                double p[2] = {std::pow(10.0, power[2 * k] / 10.0), std::pow(10.0, power[2 * k + 1] / 10.0)};
                list.push_back({whole(D("travel_time", k) / 0.37, 1e-9),
                                side(to_radians(D("source_de", k)), to_radians(D("source_az", k)), I("source_surface", k),
                                     I("source_bottom", k), I("source_caustic", k), I("source_upper", k), I("source_lower", k)),
                                r, decades(p, D("duration", k))});
                if (k > 0 && D("travel_time", k) < D("travel_time", k - 1)) sorted = "unsorted";
            }
        }
    }
    std::remove(name.c_str());
    print(out, list, sorted);
}

static eigenverb_model::csptr patch(reader& r, long k) {
    auto v = verb(k);
    v->frequencies = two();
    v->length = v->width = 1.0;
    v->position = wposition1(12.3, 45.6, -100.0);
    v->power = boost::numeric::ublas::vector<double>(2);
    for (size_t f = 0; f < 2; ++f) v->power(f) = std::pow(10.0, -(double)r.i());
    return v;
}

static void store(reader& r, std::ostream& out) {
    size_t nv = (size_t)r.i();
    eigenverb_collection c(nv);
    size_t n = 2 * nv + 2;
    if (c.num_interfaces() != n) out << " interfaces " << c.num_interfaces();
    auto file = [](long f) { return "verbs" + std::to_string(getpid()) + "-" + std::to_string(f) + ".nc"; };
    biverb_collection bi(nv);
    if (bi.num_interfaces() != n) out << " interfaces " << bi.num_interfaces();
    while (r.more()) {
        long op = r.i(), x = r.i();
        if (op == 4) {
            long s = r.i(), t = r.i();
            auto src = patch(r, s), rcv = patch(r, t);
            boost::numeric::ublas::vector<double> scatter(2);
            for (size_t f = 0; f < 2; ++f) scatter(f) = std::pow(10.0, -(double)r.i());
            src->position = wposition1(rcv->position, (double)r.i(), 0.7 * (double)s);
            bi.add_biverb(src, rcv, scatter, (size_t)x);
            for (size_t i = 0; i < n; ++i) contributions(out, bi, i);
            out << " ;";
            continue;
        }
        if (op == 5) {
            contribution_file(out, bi, (size_t)x);
            out << " ;";
            continue;
        }
        long y = r.i();
        if (op == 1)
            c.add_eigenverb(verb(y), (size_t)x);
        else if (op == 2)
            c.write_netcdf(file(y).c_str(), (size_t)x);
        else
            c.read_netcdf(file(x).c_str(), (size_t)y);
        print(out, c, n);
    }
    for (long f = 0; f < 3; ++f) std::remove(file(f).c_str());
}

/// lat lng sin cos length width, then pairs of metres to the east and north
static void search(reader& r, std::ostream& out) {
    double lat = r.d(), lng = r.d();
    double s = r.d(), c = r.d();
    auto box = verb(1);
    box->position = wposition1(lat, lng, -500.0);
    box->direction = std::atan2(s, c);
    box->length = r.d();
    box->width = r.d();
    double rho = box->position.rho(), theta = box->position.theta();
    std::vector<eigenverb_model::csptr> all;
    eigenverb_collection verbs(1);
    while (r.more()) {
        double x = r.d(), y = r.d();
        auto v = verb((long)all.size() + 1);
        v->position = wposition1(lat + to_degrees(y / rho), lng + to_degrees(x / (rho * std::sin(theta))), -500.0);
        all.push_back(v);
        verbs.add_eigenverb(v, 2);
        verbs.add_eigenverb(verb((long)all.size() + 1000), 3);
    }
    std::string in(all.size(), '0');
    for (const auto& v : verbs.find_eigenverbs(box, 2)) {
        auto k = std::find(all.begin(), all.end(), v);
        if (k == all.end())
            out << " stranger";
        else if (in[(size_t)(k - all.begin())]++ != '0')
            out << " twice";
    }
    out << in;
}

int main() {
    return drive([](reader& r, std::ostream& out) { r.i() == 0 ? store(r, out) : search(r, out); });
}
