// Replays behaviours of spec/PairChain.tla on a real sensor pair.
#include <usml/beampatterns/bp_omni.h>
#include <usml/ocean/ocean.h>
#include <usml/platforms/platforms.h>
#include <usml/sensors/sensors.h>
#include <usml/threads/threads.h>
#include <usml/transmit/transmit.h>
#include <usml/types/seq_linear.h>

#include <algorithm>
#include <mutex>

#include "line.h"

using namespace usml::sensors;
using namespace usml::platforms;
using namespace usml::ocean;
using namespace usml::types;
using namespace usml::threads;
using namespace usml::transmit;

struct spy : update_listener<sensor_pair> {
    std::mutex m;
    int n = 0;
    const sensor_pair* who = nullptr;
    void notify_update(const sensor_pair* p) override {
        std::lock_guard<std::mutex> g(m);
        ++n;
        who = p;
    }
};

int main() {
    ocean_utils::make_iso(1000.0);
    thread_controller::reset(2);
    seq_vector::csptr freq(new seq_linear(1000.0, 1.0, 1));
    return drive([&](reader& in, std::ostream& out) {
        sensor_manager::reset();
        auto* mgr = sensor_manager::instance();
        mgr->frequencies(freq);
        const bool mono = in.i() != 0, reverb = in.i() != 0;
        const wposition1 p1(45.0, 10.0, -100.0), p2(45.01, 10.02, -150.0);
        auto make = [&](int key, bool src, bool rcv, const wposition1& at) {
            auto s = std::make_shared<sensor_model>(key, "s", 0, at);
            auto omni = bp_model::csptr(new usml::beampatterns::bp_omni());
            if (src) s->src_beam(0, omni);
            if (rcv) s->rcv_beam(0, omni);
            s->multistatic(mono ? 0 : 7);
            s->compute_reverb(reverb);
            s->time_maximum(90.0);
            return s;
        };
        auto src = make(4, true, mono, p1);
        auto rcv = mono ? src : make(5, false, true, p2);
        spy l[2];
        mgr->add_sensor(src, &l[0]);
        if (!mono) mgr->add_sensor(rcv, &l[0]);
        auto pairs = mgr->list();
        if (pairs.size() != 1) {
            out << "no pair";
            return;
        }
        auto pair = pairs.front();
        pair->add_listener(&l[1]);
        eigenray_collection::csptr given;
        eigenverb_collection::csptr side[3];  // collections by side
        std::vector<eigenverb_collection::csptr> all(1);
        std::vector<long> versions(1);
        auto version = [&](const eigenverb_collection::csptr& v) {
            if (v == nullptr) return 0L;
            for (size_t k = 1; k < all.size(); ++k)
                if (all[k] == v) return versions[k];
            return -1L;
        };
        while (in.more()) {
            long op = in.i();
            for (auto& x : l) x.n = 0;
            if (op == 1) {
                long who = in.i(), v = in.i(), n = in.i();
                auto& at = who == 1 ? src : rcv;
                auto& other = who == 1 ? rcv : src;
                // one column per target: a stranger, the pair's other end, the sensor itself
                wposition tpos(mono ? 2 : 3, 1);
                boost::numeric::ublas::matrix<uint64_t> ids(tpos.size1(), 1);
                std::vector<sensor_model::sptr> t{nullptr, other};
                if (!mono) t.insert(t.begin() + (v % 2), at);
                size_t mine = 0;
                for (size_t k = 0; k < t.size(); ++k) {
                    wposition1 p = t[k] ? t[k]->position() : wposition1(45.1, 10.1, -10.0);
                    tpos.latitude(k, 0, p.latitude());
                    tpos.longitude(k, 0, p.longitude());
                    tpos.altitude(k, 0, p.altitude());
                    ids(k, 0) = t[k] ? t[k]->keyID() : 9;
                    if (t[k] == other) mine = k;
                }
                auto* rays = new eigenray_collection(freq, at->position(), tpos, at->keyID(), ids, v != 2);
                auto ray = [&](const std::vector<long>& x) {
                    auto* r = new eigenray_model();
                    r->travel_time = (double)x[0];
                    r->frequencies = freq;
                    r->intensity = boost::numeric::ublas::vector<double>(1, 60.0);
                    r->phase = boost::numeric::ublas::vector<double>(1, 0.5);
                    r->source_de = (double)x[1];
                    r->source_az = (double)x[2];
                    r->target_de = (double)x[3];
                    r->target_az = (double)x[4];
                    r->surface = (int)x[5];
                    r->bottom = (int)x[6];
                    r->caustic = (int)x[7];
                    r->upper = (int)x[8];
                    r->lower = (int)x[9];
                    return eigenray_model::csptr(r);
                };
                for (long k = 0; k < n; ++k) {
                    std::vector<long> x;
                    for (int j = 0; j < 10; ++j) x.push_back(in.i());
                    rays->add_eigenray(mine, 0, ray(x));
                }
                for (size_t k = 0; k < t.size(); ++k)
                    if (k != mine) rays->add_eigenray(k, 0, ray({55, 1, 2, 3, 4, 9, 9, 9, 9, 9}));
                rays->sum_eigenrays();
                auto* verbs = new eigenverb_collection(0);
                for (size_t i = 0; i < verbs->num_interfaces(); ++i) {
                    auto* e = new eigenverb_model();
                    e->travel_time = who == 1 ? (double)v : 4.0 * (double)v;
                    e->frequencies = freq;
                    e->power = boost::numeric::ublas::vector<double>(1, 1.0);
                    e->length = 100.0;
                    e->width = 100.0;
                    e->position = wposition1(45.005, 10.01, i == 0 ? -1000.0 : 0.0);
                    e->direction = 0.5;
                    e->grazing = 0.5;
                    e->sound_speed = 1500.0;
                    e->de_index = (size_t)v;
                    e->az_index = 0;
                    e->source_de = (double)v * 0.1;
                    e->source_az = 0.0;
                    e->surface = e->bottom = e->caustic = e->upper = e->lower = (int)v;
                    verbs->add_eigenverb(eigenverb_model::csptr(e), i);
                }
                given = eigenray_collection::csptr(rays);
                all.push_back(eigenverb_collection::csptr(verbs));
                versions.push_back(v);
                side[who] = all.back();
                if (mono) side[2] = all.back();
                pair->update_wavefront_data(at.get(), given, all.back());
            } else {
                long s = in.i(), force = in.i();
                transmit_list list;
                if (s)
                    list.push_back(transmit_model::csptr(
                        new transmit_cw("cw", 0.2, 1000.0, 20.0 * (double)s, 1e6, usml::transmit::window::type::BOXCAR)));
                src->transmit_schedule(list, force ? platform_model::FORCE_UPDATE : platform_model::NO_UPDATE);
            }
            thread_task::wait();
            // direct paths
            auto d = pair->dirpaths();
            out << "d";
            if (d != nullptr) {
                bool ok = d->size1() == 1 && d->size2() == 1 && d->sourceID() == src->keyID() && d->targetID(0, 0) == rcv->keyID() &&
                          d->position(0, 0).distance(rcv->position()) < 0.01 && d->frequencies() == freq &&
                          d->coherent() == given->coherent();
                auto same = d->dead_reckon(0, 0, src->position(), rcv->position(), ocean_shared::current()->profile());
                ok = ok && same == d->eigenrays(0, 0);  // source position
                double sum = 0.0, first = 1e9;
                for (auto& r : d->eigenrays(0, 0)) {
                    out << ' ' << whole(r->travel_time, 1e-9) << ' ' << whole(r->source_de, 1e-6) << ' ' << whole(r->source_az, 1e-6)
                        << ' ' << whole(r->target_de, 1e-6) << ' ' << whole(r->target_az, 1e-6) << ' ' << r->surface << ' ' << r->bottom
                        << ' ' << r->caustic << ' ' << r->upper << ' ' << r->lower;
                    sum += r->travel_time;
                    first = std::min(first, r->travel_time);
                    ok = ok && r->intensity(0) == 60.0 && r->phase(0) == 0.5 && r->frequencies == freq;
                }
                double n = (double)d->eigenrays(0, 0).size();
                if (n > 0) {
                    ok = ok && std::fabs(d->total(0, 0).travel_time - sum / n) < 1e-6;
                    ok = ok && std::fabs(d->initial_time(0, 0) - first) < 1e-9;
                }
                if (!ok) out << " wrong";
            }
            // collisions of each side
            auto a = pair->src_eigenverbs(), b = pair->rcv_eigenverbs();
            out << " s " << version(a) << " r " << version(b);
            if ((a != nullptr && a != side[1]) || (b != nullptr && b != side[2])) out << " wrong";
            // combination of both
            auto c = pair->biverbs();
            double pulse = 0.0;
            long c1 = 0, c2 = 0;
            if (c != nullptr) {
                c1 = c2 = -1;
                bool ok = c->num_interfaces() == 2;
                for (size_t i = 0; ok && i < 2; ++i) {
                    auto list = c->biverbs(i);
                    ok = list.size() == 1;
                    if (!ok) break;
                    auto& x = *list.front();
                    c1 = x.source_surface;
                    c2 = x.receiver_surface;
                    ok = whole(x.source_de * 10.0, 1e-6) == c1 && whole(x.receiver_de * 10.0, 1e-6) == c2 &&
                         whole(x.travel_time, 1e-6) == (mono ? c1 + c2 : c1 + 4 * c2);
                    pulse = x.duration + 0.2;
                }
                if (!ok) c1 = c2 = -1;
            }
            out << " b " << c1 << ' ' << c2;
            // time series, identified by the time of its maximum
            auto ts = pair->rvbts();
            out << " t";
            if (ts != nullptr) {
                bool ok = ts->source() == src && ts->receiver() == rcv && ts->source_pos().distance(src->position()) < 0.01 &&
                          ts->receiver_pos().distance(rcv->position()) < 0.01 && ts->time_series().size1() == 1 &&
                          ts->time_series().size2() == ts->travel_times()->size();
                size_t best = 0;
                for (size_t k = 0; ok && k < ts->time_series().size2(); ++k)
                    if (ts->time_series()(0, k) > ts->time_series()(0, best)) best = k;
                out << ' ' << (ok ? whole((*ts->travel_times())(best)-pulse, 0.2) : -1);
            } else
                out << " 0";
            out << " n " << l[0].n;
            if (l[0].n != l[1].n || (l[0].n && (l[0].who != pair.get() || l[1].who != pair.get()))) out << " wrong";
            out << " | ";
        }
        for (auto& x : l) pair->remove_listener(&x);
    });
}
