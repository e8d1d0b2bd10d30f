// Replays behaviours of spec/AcousticUpdate.tla on real sensors.
#include <usml/ocean/ocean.h>
#include <usml/platforms/platforms.h>
#include <usml/sensors/sensors.h>
#include <usml/threads/threads.h>
#include <usml/types/seq_linear.h>

#include <algorithm>
#include <atomic>
#include <thread>

#include "line.h"

using namespace usml::sensors;
using namespace usml::platforms;
using namespace usml::ocean;
using namespace usml::types;
using namespace usml::threads;

static const double LAT = 60.0, LON = 20.0, ALT = -200.0, STEP = 0.004, UP = 2.0, TURN = 2.0;
static double LON0 = LON;

// reports where a calculation starts
static std::atomic<bool> armed{false};
static double start[3];
struct spy_profile : profile_linear {
    spy_profile() : profile_linear(1500.0, attenuation_model::csptr(new attenuation_constant(0.0))) {}
    void sound_speed(const wposition& at, matrix<double>* speed, wvector* gradient) const override {
        if (armed.exchange(false)) {
            start[0] = at.latitude(0, 0);
            start[1] = at.longitude(0, 0);
            start[2] = at.altitude(0, 0);
        }
        profile_linear::sound_speed(at, speed, gradient);
    }
};

static long lat_step(double v) { return whole((v - LAT) / STEP, 0.01); }
static long lon_step(double v) { return whole(std::remainder(v - LON0, 360.0) / STEP, 0.01); }
static long alt_step(double v) { return whole((v - ALT) / UP, 0.01); }

struct spy : wavefront_listener {
    std::vector<std::string> got;
    seq_vector::csptr freq;
    void update_wavefront_data(const sensor_model* s, eigenray_collection::csptr rays, eigenverb_collection::csptr verbs) override {
        std::ostringstream o;
        o << '[' << s->keyID() << (rays->sourceID() == s->keyID() && rays->frequencies() == freq && verbs != nullptr ? " " : "?")
          << lat_step(start[0]) << ' ' << lon_step(start[1]) << ' ' << alt_step(start[2]);
        std::vector<std::vector<long>> t;
        for (size_t a = 0; a < rays->size1(); ++a)
            for (size_t b = 0; b < rays->size2(); ++b) {
                auto p = rays->position(a, b);
                t.push_back({(long)rays->targetID(a, b), lat_step(p.latitude()), lon_step(p.longitude()), alt_step(p.altitude())});
            }
        std::sort(t.begin(), t.end());
        for (auto& v : t) o << " (" << v[0] << ' ' << v[1] << ' ' << v[2] << ' ' << v[3] << ')';
        o << ']';
        got.push_back(o.str());
        armed = true;
    }
};

int main() {
    reflect_loss_model::csptr loss(new reflect_loss_constant(0.0));
    scattering_model::csptr scat(new scattering_constant(-30.0));
    ocean_shared::update(ocean_model::csptr(new ocean_model(boundary_model::csptr(new boundary_flat(0.0, loss, scat)),
                                                            boundary_model::csptr(new boundary_flat(-1000.0, loss, scat)),
                                                            profile_model::csptr(new spy_profile()))));
    seq_vector::csptr freq(new seq_linear(1000.0, 1.0, 1)), de(new seq_linear(-10.0, 10.0, 3)), az(new seq_linear(0.0, 10.0, 3));
    thread_controller::reset(1);
    const double unit = wposition1(LAT, LON, ALT).distance(wposition1(LAT, LON + STEP, ALT));
    return drive([&](reader& in, std::ostream& out) {
        sensor_manager::reset();
        LON0 = in.i() ? LON : 180.0;  // some behaviours cross the date line
        sensor_manager::instance()->frequencies(freq);
        std::vector<platform_model::sptr> p(1);
        std::vector<sensor_model::sptr> s(1);
        spy spies[3];
        long registered = in.i();
        auto mot = [&](wposition1& pos, orientation& ori) {
            double n = (double)in.i(), e = (double)in.i(), u = (double)in.i();
            double y = (double)in.i(), pi = (double)in.i(), r = (double)in.i();
            double lon = LON0 + e * STEP;
            pos = wposition1(LAT + n * STEP, lon > 180.0 ? lon - 360.0 : lon, ALT + u * UP);
            ori = orientation(y * TURN, pi * TURN, r * TURN);
        };
        for (long k = 1; k <= 4; ++k) {
            wposition1 pos;
            orientation ori;
            mot(pos, ori);
            if (k <= 2) {
                s.push_back(std::make_shared<sensor_model>((platform_model::key_type)k, "s", 0, pos, ori, 0.0));
                p.push_back(s[k]);
                s[k]->de_fan(de);
                s[k]->az_fan(az);
                s[k]->time_step(0.1);
                s[k]->time_maximum(0.1);
                spies[k].freq = freq;
                s[k]->add_wavefront_listener(&spies[k]);
            } else
                p.push_back(std::make_shared<platform_model>((platform_model::key_type)k, "p", 0, pos, ori, 0.0));
        }
        if (registered)
            for (long k = 1; k <= 4; ++k) platform_manager::instance()->add(p[k]);
        std::vector<sensor_pair::sptr> pairs;
        long clock = 0;
        bool attached = false;
        while (in.more()) {
            long op = in.i();
            armed = true;
            for (auto& x : spies) x.got.clear();
            auto *before1 = s[1]->wavefront_task().get(), *before2 = s[2]->wavefront_task().get();
            if (op == 1) {
                long o = in.i();
                wposition1 pos;
                orientation ori;
                mot(pos, ori);
                auto type = (platform_model::update_type_enum)in.i();
                if (in.i())
                    p[o]->update(++clock, type);
                else
                    p[o]->update(++clock, pos, ori, 0.0, type);
            } else if (op == 2) {
                long o = in.i();
                if (!platform_manager::instance()->remove((platform_model::key_type)o)) platform_manager::instance()->add(p[o]);
            } else if (op == 3) {
                long o = in.i();
                p[o]->is_acoustic_target(!p[o]->is_acoustic_target());
            } else if (op == 4) {
                long k = in.i(), a = in.i(), b = in.i();
                s[k]->min_range(a ? std::sqrt((double)a + 0.5) * unit : 0.0);
                s[k]->max_range(b ? std::sqrt((double)b + 0.5) * unit : 0.0);
                s[k]->compute_reverb(in.i() != 0);
            } else if (op == 5) {
                long a = in.i();
                pairs.push_back(std::make_shared<sensor_pair>(s[a], s[in.i()]));
                pairs.back()->connect();
            } else if (op == 6) {
                if (attached)
                    p[3]->remove_child(2);
                else
                    p[3]->add_child(p[2], bvector(0.0, 0.0, 0.0), orientation(0, 0, 0));
                attached = !attached;
            }
            thread_task::wait();
            out << "c";
            std::vector<std::string> all;
            for (auto& x : spies) all.insert(all.end(), x.got.begin(), x.got.end());
            std::sort(all.begin(), all.end());
            for (auto& x : all) out << ' ' << x;
            long started = (s[1]->wavefront_task().get() != before1) + (s[2]->wavefront_task().get() != before2);
            if (started != (long)all.size()) out << " started " << started;
            for (long k = 1; k <= 4; ++k) {
                wposition1 pos;
                orientation ori;
                p[k]->get_motion(nullptr, &pos, &ori);
                out << " m " << lat_step(pos.latitude()) << ' ' << lon_step(pos.longitude()) << ' ' << alt_step(pos.altitude());
                long y = whole(ori.yaw() / TURN, 0.01);
                out << ' ' << (y == -90 ? 90 : y) << ' ' << whole(ori.pitch() / TURN, 0.01) << ' ' << whole(ori.roll() / TURN, 0.01);
            }
            out << " | ";
        }
        for (long k = 1; k <= 2; ++k) s[k]->remove_wavefront_listener(&spies[k]);
        pairs.clear();
    });
}
