// Replays of the specification RvbtsBook on the real rvbts_generator.
#include <usml/biverbs/biverb_collection.h>
#include <usml/rvbts/rvbts_generator.h>
#include <usml/sensors/sensor_pair.h>
#include <usml/transmit/transmit_cw.h>
#include <usml/types/seq_data.h>
#include <usml/types/seq_log.h>
#include <unistd.h>

#include <array>
#include <cstdio>
#include <netcdf>

#include "line.h"

using namespace usml::beampatterns;
using namespace usml::biverbs;
using namespace usml::eigenverbs;
using namespace usml::platforms;
using namespace usml::rvbts;
using namespace usml::sensors;
using namespace usml::transmit;
using namespace usml::types;

typedef std::array<long, 3> axis;

static bool near_axis(const bvector& v, axis& a) {
    const double x[] = {v.front(), v.right(), v.up()};
    for (int n = 0; n < 3; ++n) {
        a[n] = std::lround(x[n]);
        if (!(std::fabs(x[n] - (double)a[n]) < 1e-9)) return false;
    }
    return a[0] * a[0] + a[1] * a[1] + a[2] * a[2] == 1;
}

/// beams of the specification
class bp_axis : public bp_model {
   public:
    explicit bp_axis(long kind) : _kind(kind) {}
    void beam_level(const bvector& arrival, const seq_vector::csptr& frequencies, vector<double>* level,
                    const bvector& steering, double) const override {
        axis a, s;
        double v = 1e6;  // not a direction of the specification
        if (near_axis(arrival, a) && near_axis(steering, s) && frequencies->size() == 1) {
            if (_kind == 1) v = 1.0;
            if (_kind == 2) v = a[0] == 1 ? 3 : a[1] == 1 ? 2 : a[2] == 1 ? 1 : a[1] == -1 ? 4 : 0;
            if (_kind == 3) v = (double)(a[0] * s[0] + a[1] * s[1] + a[2] * s[2] + 1);
            if (_kind == 4) v = (*frequencies)[0] / 100.0;
        }
        *level = boost::numeric::ublas::vector<double>(1);
        (*level)(0) = v;
    }

   private:
    const long _kind;
};

static bvector direction(reader& r) {
    double f = r.d(), s = r.d(), u = r.d();
    return bvector(f, s, u);
}

static void angles(const bvector& v, double& de, double& az) {
    de = std::asin(v.up());
    az = std::atan2(v.right(), v.front());
    if (az < 0) az += 2 * M_PI;
}

static orientation turned(reader& r) {
    double y = r.d(), p = r.d(), q = r.d();
    return orientation(90.0 * y, 90.0 * (p == 3 ? -1 : p), 90.0 * q);
}

int main(int, char**) {
    const std::string scratch = "rvbts_" + std::to_string(getpid()) + ".nc";
    int rc = drive([&](reader& in, std::ostream& out) {
        bool files = in.i() != 0;
        const double tmin = in.d(), step = in.d(), tmax = in.d();
        platform_model::sptr host;
        if (in.i() == 3) host = platform_model::sptr(new platform_model(9, "host", 0.0, wposition1(10, 20, -30), turned(in)));
        orientation rel = turned(in);
        auto src = sensor_model::sptr(new sensor_model(7, "source", 0.0, wposition1(10, 20, -30), rel, 3.0));
        auto rcv = sensor_model::sptr(new sensor_model(8, "receiver", 0.0, wposition1(11, 21, -50), orientation(), 4.0));
        if (host) host->add_child(src, bvector(0.0, 0.0, 0.0), rel);
        rcv->time_minimum(tmin);
        rcv->time_maximum(tmax);
        auto pair = sensor_pair::sptr(new sensor_pair(src, rcv));
        transmit_list schedule;
        auto verbs = std::make_shared<biverb_collection>(2);
        std::shared_ptr<rvbts_generator> gen;
        while (in.more()) {
            switch (in.i()) {
                case 1: {
                    long m = in.i();
                    src->src_beam((int)m, bp_model::csptr(new bp_axis(in.i())));
                    break;
                }
                case 2: {
                    long m = in.i(), k = in.i();
                    rcv->rcv_beam((int)m, bp_model::csptr(new bp_axis(k)), direction(in));
                    break;
                }
                case 3:
                    rcv->reset_rcv_beams();
                    break;
                case 4: {
                    orientation o = turned(in);
                    auto& p = host ? *host : *src;
                    p.update(0.0, wposition1(12, 22, -10), o, 5.0, platform_model::NO_UPDATE);
                    break;
                }
                case 5:
                    rcv->update(0.0, wposition1(13, 23, -11), turned(in), 6.0, platform_model::NO_UPDATE);
                    break;
                case 6: {
                    long m = in.i();
                    double level = in.d(), len = in.d() / 8, delay = in.d() / 8, freq = 100 * in.d();
                    double de, az;
                    angles(direction(in), de, az);
                    schedule.push_back(transmit_model::csptr(new transmit_cw(
                        "CW", len, freq, delay, level, window::type::BOXCAR, 0.0, to_degrees(az), to_degrees(de), (int)m)));
                    src->transmit_schedule(schedule, platform_model::NO_UPDATE);
                    break;
                }
                case 7:
                    schedule.clear();
                    src->transmit_schedule(schedule, platform_model::NO_UPDATE);
                    break;
                case 8: {
                    // a contribution is added, and then given the values of the specification
                    size_t interface = (size_t)in.i();
                    double time = in.d() / 8, len = in.d() / 8;
                    auto* v = new eigenverb_model();
                    v->frequencies = seq_vector::csptr(new seq_log(100.0, 2.0, 1));
                    v->power = boost::numeric::ublas::vector<double>(1, 1.0);
                    v->length = v->width = 1.0;
                    v->position = wposition1(10, 20, -100);
                    v->sound_speed = 1500.0;
                    v->travel_time = (double)verbs->biverbs(interface).size();
                    eigenverb_model::csptr verb(v);
                    verbs->add_biverb(verb, verb, boost::numeric::ublas::vector<double>(1, 1.0), interface);
                    auto b = verbs->biverbs(interface).back();
                    b->travel_time = time;
                    b->duration = len;
                    angles(direction(in), b->source_de, b->source_az);
                    angles(direction(in), b->receiver_de, b->receiver_az);
                    size_t n = (size_t)in.i();
                    std::vector<double> axis(n);
                    for (auto& x : axis) x = 100.0 * in.d();
                    b->frequencies = seq_vector::csptr(new seq_data(axis));
                    b->power = boost::numeric::ublas::vector<double>(n);
                    for (size_t f = 0; f < n; ++f) b->power(f) = in.d();
                    break;
                }
                case 9:
                    gen = std::make_shared<rvbts_generator>(pair, src, rcv, step, verbs);
                    break;
                default: {
                    gen->run();
                    auto result = *gen->result();
                    gen = nullptr;
                    const auto& ts = result->time_series();
                    out << ts.size1() << "x" << ts.size2() << " ";
                    out.precision(12);
                    for (size_t c = 0; c < ts.size1(); ++c)
                        for (size_t t = 0; t < ts.size2(); ++t) out << "~" << ts(c, t) << " ";
                    if (files) {
                        result->write_netcdf(scratch.c_str());
                        netCDF::NcFile nc(scratch, netCDF::NcFile::read);
                        std::vector<double> v(ts.size1() * ts.size2());
                        nc.getVar("time_series").getVar(v.data());
                        size_t bad = 0;
                        for (size_t c = 0; c < ts.size1(); ++c)
                            for (size_t t = 0; t < ts.size2(); ++t) bad += v[c * ts.size2() + t] != ts(c, t);
                        std::vector<double> time(ts.size2());
                        nc.getVar("travel_time").getVar(time.data());
                        for (size_t t = 0; t < ts.size2(); ++t) bad += time[t] != (*result->travel_times())[t];
                        auto scalar = [&](const char* name) {
                            double x = -999;
                            nc.getVar(name).getVar(&x);
                            return x;
                        };
                        out << "F" << nc.getDim("channels").getSize() << "," << nc.getDim("travel_time").getSize() << "," << bad << " ~"
                            << scalar("source_latitude") << " ~" << scalar("source_longitude") << " ~"
                            << scalar("source_altitude") << " ~" << scalar("source_speed") << " ~"
                            << scalar("receiver_latitude") << " ~" << scalar("receiver_longitude") << " ~"
                            << scalar("receiver_altitude") << " ~" << scalar("receiver_speed") << " "
                            << scalar("sourceID") << "," << scalar("receiverID") << " ";
                    }
                    out << "; ";
                }
            }
        }
        if (host) host->remove_child(7);
    });
    std::remove(scratch.c_str());
    return rc;
}
