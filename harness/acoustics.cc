// Sensors, pairs and their background calculations under the deterministic
// scheduler. See spec/WaveResults.tla, PairResults.tla, SharedOcean.tla.
#include <usml/beampatterns/bp_omni.h>
#include <usml/eigenrays/eigenrays.h>
#include <usml/eigenverbs/eigenverbs.h>
#include <usml/ocean/ocean.h>
#include <usml/platforms/platforms.h>
#include <usml/sensors/sensors.h>
#include <usml/threads/threads.h>
#include <usml/transmit/transmit.h>
#include <usml/types/seq_linear.h>
#include <usml/wavegen/wavegen.h>

#include <algorithm>
#include <cmath>
#include <map>
#include <thread>

#include "vsched.h"

using namespace usml::sensors;
using namespace usml::platforms;
using namespace usml::ocean;
using namespace usml::types;
using namespace usml::threads;
using namespace usml::transmit;
using namespace usml::eigenrays;
using namespace usml::eigenverbs;
using namespace usml::wavegen;

namespace {

const double LAT = 45.0, LON = 10.0, ALT = -100.0, STEP = 1e-4;
const double UP = 1.0;

int version_of(const wposition1& p) { return (int)std::lround((ALT - p.altitude()) / UP); }

// an ocean which knows where the calculation of each thread started
thread_local wposition1 started;
struct spy_profile : profile_linear {
    spy_profile() : profile_linear(1500.0, attenuation_model::csptr(new attenuation_constant(0.0))) {}
    void sound_speed(const wposition& at, matrix<double>* speed, wvector* gradient) const override {
        bool same = at.size1() > 1;
        for (size_t i = 0; same && i < at.size1(); ++i)
            for (size_t j = 0; same && j < at.size2(); ++j)
                same = at.altitude(i, j) == at.altitude(0, 0) && at.latitude(i, j) == at.latitude(0, 0);
        if (same) started = wposition1(at, 0, 0);
        profile_linear::sound_speed(at, speed, gradient);
    }
};

void make_ocean(double depth = 1000.0) {
    reflect_loss_model::csptr loss(new reflect_loss_constant(0.0));
    scattering_model::csptr scat(new scattering_constant(-30.0));
    ocean_shared::update(ocean_model::csptr(new ocean_model(boundary_model::csptr(new boundary_flat(0.0, loss, scat)),
                                                            boundary_model::csptr(new boundary_flat(-depth, loss, scat)),
                                                            profile_model::csptr(new spy_profile()))));
}

seq_vector::csptr freq() {
    static seq_vector::csptr f(new seq_linear(1000.0, 1.0, 1));
    return f;
}

bp_model::csptr omni() {
    static bp_model::csptr b(new usml::beampatterns::bp_omni());
    return b;
}

wposition1 place(int s, int k) { return wposition1(LAT + (s == 1 ? 1.0 : -1.3) * k * STEP, LON + 1e-3 * s, ALT - k * UP); }

sensor_model::sptr make(int s, bool src, bool rcv, int group, bool reverb, int k, double tmax = 0.1) {
    auto x = std::make_shared<sensor_model>(s, "s" + std::to_string(s), 0, place(s, k));
    if (src) x->src_beam(0, omni());
    if (rcv) x->rcv_beam(0, omni());
    x->multistatic(group);
    x->compute_reverb(reverb);
    x->de_fan(seq_vector::csptr(new seq_linear(-20.0, 10.0, 5)));
    x->az_fan(seq_vector::csptr(new seq_linear(0.0, 45.0, 9)));
    x->time_step(0.02);
    x->time_maximum(tmax);
    return x;
}

struct results {
    std::map<double, std::vector<int>> by_time;  // travel time to the other end of the pair
    std::vector<int> silent;                     // calculations without ray to it
};

// result of a sensor as seen by a listener
struct ear : wavefront_listener {
    int x = 0;
    results* all = nullptr;
    void update_wavefront_data(const sensor_model* s, eigenray_collection::csptr rays, eigenverb_collection::csptr) override {
        const int sid = (int)s->keyID(), k = version_of(started);
        vs::ev("{\"e\":\"note\",\"s\":%d,\"k\":%d,\"x\":%d}", sid, k, x);
        if (all) {
            auto l = rays->find_eigenrays((uint64_t)(3 - sid));
            vs::atomic_section a;
            if (l.empty())
                all->silent.push_back(k);
            else
                all->by_time[l.front()->travel_time].push_back(k);
        }
        vs::yield();
    }
};

struct pair_ear : update_listener<sensor_pair> {
    void notify_update(const sensor_pair*) override { vs::ev("{\"e\":\"pnote\"}"); }
};

// ---------------------------------------------------------------------------
// C09: calculations of sensors

void waves(uint64_t) {
    make_ocean();
    thread_controller::reset(1 + (int)vs::rnd(2));
    auto* mgr = sensor_manager::instance();
    mgr->frequencies(freq());
    const int ns = 1 + (int)vs::rnd(2), nx = 1 + (int)vs::rnd(2);
    vs::ev("{\"e\":\"cfg\",\"s\":%d,\"x\":%d}", ns, nx);
    std::vector<sensor_model::sptr> s(1);
    results all;
    std::vector<ear> ears(2);
    pair_ear pe;
    for (int i = 1; i <= ns; ++i) s.push_back(make(i, i == 1, i == 2 || ns == 1, ns == 1 ? 0 : 5, false, 0));
    for (int i = 1; i <= ns; ++i) {
        for (int x = 0; x < nx; ++x) {
            ears[x].x = x + 1;
            ears[x].all = x == 0 ? &all : nullptr;
            s[i]->add_wavefront_listener(&ears[x]);
        }
        mgr->add_sensor(s[i], i == ns ? &pe : nullptr);
    }
    if (ns == 2) mgr->list().front()->add_listener(&pe);
    int version = 0;
    std::map<int, std::shared_ptr<thread_task>> task;  // calculations whose task is known
    bool alone[3] = {true, true, true};
    const int nthr = 2 + (int)vs::rnd(2);
    struct op {
        int f, s;
    };
    std::vector<std::vector<op>> plan(nthr);
    for (int t = 0; t < nthr; ++t) {
        const int n = 2 + (int)vs::rnd(3);
        for (int i = 0; i < n; ++i) plan[t].push_back({(int)vs::rnd(3), 1 + (int)vs::rnd(ns)});
    }
    for (int i = 1; i <= ns; ++i) {
        int users = 0;
        for (auto& p : plan) users += std::any_of(p.begin(), p.end(), [&](op& o) { return o.f > 0 && o.s == i; });
        alone[i] = users < 2;
    }
    auto perform = [&](int c, const op& o) {
        if (o.f > 0) {
            int k;
            {
                vs::atomic_section a;
                k = ++version;
            }
            vs::ev("{\"e\":\"upd0\",\"c\":%d,\"s\":%d,\"k\":%d}", c, o.s, k);
            s[o.s]->update(k, place(o.s, k), orientation(), 0.0, platform_model::FORCE_UPDATE);
            vs::ev("{\"e\":\"upd1\",\"c\":%d}", c);
            if (alone[o.s]) {
                std::shared_ptr<thread_task> t = s[o.s]->wavefront_task();
                vs::atomic_section a;
                task[k] = t;
            }
        } else {
            int k = 0;
            std::shared_ptr<thread_task> t;
            {
                vs::atomic_section a;
                if (task.empty()) return;
                auto it = task.begin();
                std::advance(it, vs::rnd((uint32_t)task.size()));
                k = it->first;
                t = it->second;
            }
            vs::ev("{\"e\":\"ab0\",\"c\":%d,\"k\":%d}", c, k);
            t->abort();
            vs::ev("{\"e\":\"ab1\",\"c\":%d}", c);
        }
    };
    std::vector<std::thread> th;
    for (int t = 0; t < nthr; ++t)
        th.emplace_back([&, t] {
            for (auto& o : plan[t]) perform(t + 1, o);
        });
    for (auto& t : th) t.join();
    for (int k = 0; k < 5000 && thread_task::num_active() > 0; ++k) thread_task::sleep();
    vs::ev("{\"e\":\"quiet\"}");
    for (auto& t : task) vs::ev("{\"e\":\"done\",\"k\":%d,\"v\":%d}", t.first, t.second->done() ? 1 : 0);
    if (ns == 2) {
        auto d = mgr->list().front()->dirpaths();
        std::string ks;
        if (d != nullptr) {
            auto l = d->eigenrays(0, 0);
            std::vector<int> from = l.empty() ? all.silent : all.by_time[l.front()->travel_time];
            for (int k : from) ks += (ks.empty() ? "" : ",") + std::to_string(k);
        }
        vs::ev("{\"e\":\"dir\",\"ks\":[%s]}", ks.c_str());
    }
}
vs::scenario waves_("waves", waves);

// ---------------------------------------------------------------------------
// C09 C11: calculations of a pair whose sensors deliver synthetic results

const double RCV = 9.0, SCHED = 100.0;

eigenverb_collection::csptr verbs_of(int v, double scale) {
    auto* c = new eigenverb_collection(0);
    auto* e = new eigenverb_model();
    e->travel_time = v * scale;
    e->frequencies = freq();
    e->power = boost::numeric::ublas::vector<double>(1, 1.0);
    e->length = e->width = 100.0;
    e->position = wposition1(LAT + 0.005, LON, -1000.0);
    e->direction = e->grazing = 0.5;
    e->sound_speed = 1500.0;
    e->de_index = e->az_index = 0;
    e->source_de = e->source_az = 0.0;
    e->surface = e->bottom = e->caustic = e->upper = e->lower = v;
    c->add_eigenverb(eigenverb_model::csptr(e), 0);
    return eigenverb_collection::csptr(c);
}

eigenray_collection::csptr rays_of(int v, const sensor_model::sptr& at, const sensor_model::sptr& other) {
    boost::numeric::ublas::matrix<uint64_t> ids(1, 1);
    ids(0, 0) = other->keyID();
    auto* c = new eigenray_collection(freq(), at->position(), wposition(other->position()), at->keyID(), ids);
    auto* r = new eigenray_model();
    r->travel_time = v;
    r->frequencies = freq();
    r->intensity = boost::numeric::ublas::vector<double>(1, 60.0);
    r->phase = boost::numeric::ublas::vector<double>(1, 0.5);
    r->source_de = r->source_az = r->target_de = r->target_az = 0.0;
    r->surface = r->bottom = r->caustic = r->upper = r->lower = 0;
    c->add_eigenray(0, 0, eigenray_model::csptr(r));
    c->sum_eigenrays();
    return eigenray_collection::csptr(c);
}

std::string two(const biverb_collection::csptr& c) {
    if (c == nullptr) return "[0,0]";
    auto l = c->biverbs(0);
    if (l.size() != 1) return "[-1," + std::to_string(l.size()) + "]";
    return "[" + std::to_string(l.front()->source_surface) + "," + std::to_string(l.front()->receiver_surface) + "]";
}

// time series: identified by the time of its maximum
std::string series(const std::shared_ptr<const usml::rvbts::rvbts_collection>& ts) {
    if (ts == nullptr) return "[[0,0],0]";
    size_t best = 0;
    for (size_t k = 0; k < ts->time_series().size2(); ++k)
        if (ts->time_series()(0, k) > ts->time_series()(0, best)) best = k;
    long t = std::lround((*ts->travel_times())(best)-0.25);
    long s = t / (long)SCHED, b = t % (long)SCHED / (long)RCV, a = t % (long)SCHED % (long)RCV;
    return "[[" + std::to_string(a) + "," + std::to_string(b) + "]," + std::to_string(s) + "]";
}

void chain_of(bool removal) {
    make_ocean();
    thread_controller::reset(1 + (int)vs::rnd(3));
    auto* mgr = sensor_manager::instance();
    mgr->frequencies(freq());
    const bool mono = vs::rnd(2) == 0, reverb = vs::rnd(6) != 0;
    vs::ev("{\"e\":\"cfg\",\"mono\":%d,\"reverb\":%d}", mono, reverb);
    std::vector<sensor_model::sptr> s(3);
    pair_ear pe;
    s[1] = make(1, true, mono, mono ? 0 : 5, reverb, 0, 300.0);
    s[2] = mono ? s[1] : make(2, false, true, 5, reverb, 0, 300.0);
    mgr->add_sensor(s[1]);
    if (!mono) mgr->add_sensor(s[2]);
    auto pair = mgr->list().front();
    pair->add_listener(&pe);
    int version = 0, schedule = 0;
    auto sched = [&](int c) {
        int v;
        {
            vs::atomic_section a;
            if (schedule == 2) return;
            v = ++schedule;
        }
        const int force = vs::rnd(2);
        vs::ev("{\"e\":\"sched0\",\"c\":%d,\"v\":%d,\"force\":%d}", c, v, force);
        s[1]->transmit_schedule({transmit_model::csptr(new transmit_cw("cw", 0.2, 1000.0, SCHED * v, 1e6, usml::transmit::window::type::BOXCAR))},
                                force ? platform_model::FORCE_UPDATE : platform_model::NO_UPDATE);
        vs::ev("{\"e\":\"sched1\",\"c\":%d}", c);
    };
    auto wave = [&](int c) {
        int v, side = mono ? 1 : 1 + (int)vs::rnd(2);
        {
            vs::atomic_section a;
            if (version == 8) return;
            v = ++version;
        }
        auto rays = rays_of(v, s[side], s[3 - side]);
        // in a monostatic pair both sides of a combination have the same version
        auto verbs = verbs_of(v, mono ? (RCV + 1.0) / 2.0 : side == 1 ? 1.0 : RCV);
        vs::ev("{\"e\":\"wave0\",\"c\":%d,\"s\":%d,\"v\":%d}", c, side, v);
        pair->update_wavefront_data(s[side].get(), rays, verbs);
        vs::ev("{\"e\":\"wave1\",\"c\":%d}", c);
    };
    auto read = [&](int c) {
        vs::ev("{\"e\":\"read0\",\"c\":%d}", c);
        auto b = pair->biverbs();
        auto r = pair->rvbts();
        vs::ev("{\"e\":\"read1\",\"c\":%d,\"b\":%s,\"r\":%s}", c, two(b).c_str(), series(r).c_str());
    };
    bool gone = false;
    auto remove = [&](int c) {
        {
            vs::atomic_section a;
            if (gone) return;
            gone = true;
        }
        vs::ev("{\"e\":\"rem0\",\"c\":%d}", c);
        mgr->remove_sensor(s[mono ? 1 : 1 + vs::rnd(2)]);
        vs::ev("{\"e\":\"rem1\",\"c\":%d}", c);
    };
    if (vs::rnd(2)) sched(4);
    if (vs::rnd(2)) wave(4);
    const int nthr = 2 + (int)vs::rnd(2);
    std::vector<std::vector<int>> plan(nthr);
    for (auto& p : plan)
        for (int k = 1 + (int)vs::rnd(3); k > 0; --k) p.push_back((int)vs::rnd(removal ? 8 : 7));
    if (removal) plan[0].insert(plan[0].begin() + vs::rnd((uint32_t)plan[0].size() + 1), 7);
    std::vector<std::thread> th;
    for (int t = 0; t < nthr; ++t)
        th.emplace_back([&, t] {
            for (int o : plan[t]) o < 4 ? wave(t + 1) : o == 4 ? sched(t + 1) : o == 5 ? read(t + 1) : o == 6 ? vs::yield() : remove(t + 1);
        });
    for (auto& t : th) t.join();
    for (int k = 0; k < 5000 && thread_task::num_active() > 0; ++k) thread_task::sleep();
    vs::ev("{\"e\":\"quiet\"}");
    auto d = pair->dirpaths();
    auto a = pair->src_eigenverbs(), b = pair->rcv_eigenverbs();
    vs::ev("{\"e\":\"fin\",\"d\":%d,\"s\":%d,\"t\":%d,\"b\":%s,\"r\":%s}", d == nullptr ? 0 : (int)d->eigenrays(0, 0).front()->travel_time,
           a == nullptr ? 0 : a->eigenverbs(0).front()->surface, b == nullptr ? 0 : b->eigenverbs(0).front()->surface,
           two(pair->biverbs()).c_str(), series(pair->rvbts()).c_str());
}
vs::scenario chain_("chain", [](uint64_t) { chain_of(false); });
vs::scenario chainrem_("chainrem", [](uint64_t) { chain_of(true); });

// ---------------------------------------------------------------------------
// C11 C12: sensors which are added, removed, replaced and updated

// remembers which calculation each collection of eigenverbs stems from
struct world {
    std::map<const void*, int> calc;
    std::vector<eigenverb_collection::csptr> keep;
};
struct world_ear : wavefront_listener {
    world* w = nullptr;
    void update_wavefront_data(const sensor_model*, eigenray_collection::csptr, eigenverb_collection::csptr verbs) override {
        vs::atomic_section a;
        w->calc[verbs.get()] = version_of(started);
        w->keep.push_back(verbs);
    }
};

std::string ids(const pair_list& l) {
    std::string q;
    for (auto& p : l) q += (q.empty() ? "[" : ",[") + std::to_string(p->source()->keyID()) + "," + std::to_string(p->receiver()->keyID()) + "]";
    return "[" + q + "]";
}

void world_of(bool mix) {
    make_ocean(150.0);
    thread_controller::reset(1 + (int)vs::rnd(3));
    auto* mgr = sensor_manager::instance();
    mgr->frequencies(freq());
    struct quiet_ear : update_listener<sensor_pair> {
        // listeners may ask the manager for more
        void notify_update(const sensor_pair* p) override {
            sensor_manager::instance()->find_source(p->source()->keyID());
            sensor_manager::instance()->find_receiver(p->receiver()->keyID());
        }
    };
    static quiet_ear pe;
    static world w;
    world_ear ear;
    ear.w = &w;
    const transmit_list schedule{transmit_model::csptr(new transmit_cw("cw", 0.2, 1000.0, 0.0, 200.0, usml::transmit::window::type::BOXCAR))};
    std::vector<sensor_model::sptr> obj(1);
    std::vector<int> id(1, 0);
    std::vector<int> slot(4, 0);  // object which stands for each sensor
    auto fresh = [&](int s) {
        auto x = make(s, s != 2, s != 3, 5, true, 0, 0.1);
        x->de_fan(seq_vector::csptr(new seq_linear(-60.0, 30.0, 5)));
        x->az_fan(seq_vector::csptr(new seq_linear(0.0, 90.0, 5)));
        x->time_step(0.05);
        if (s != 2) x->transmit_schedule(schedule);
        x->add_wavefront_listener(&ear);
        vs::atomic_section a;
        obj.push_back(x);
        id.push_back(s);
        slot[s] = (int)obj.size() - 1;
    };
    const int ns = 1 + (int)vs::rnd(3);
    for (int s = 1; s <= 3; ++s) fresh(s);
    // objects are created before the threads start, so that their list is known
    std::vector<int> spare(4, 0);
    for (int s = 1; s <= 3; ++s) {
        const int was = slot[s];
        fresh(s);
        spare[s] = slot[s];
        slot[s] = was;
    }
    std::string list;
    for (size_t o = 1; o < id.size(); ++o) list += (o == 1 ? "" : ",") + std::to_string(id[o]);
    vs::ev("{\"e\":\"cfg\",\"id\":[%s]}", list.c_str());
    std::shared_ptr<platform_model> host;
    if (mix) {
        host = std::make_shared<platform_model>(9, "host", 0, place(9, 0));
        platform_manager::instance()->add(host);
    }
    int version = 0;
    auto held = [&](int s) {
        vs::atomic_section a;
        return std::make_pair(slot[s], obj[slot[s]]);
    };
    auto add = [&](int c, int s) {
        auto x = held(s);
        int ok = 1;
        vs::ev("{\"e\":\"add0\",\"c\":%d,\"o\":%d}", c, x.first);
        try {
            mgr->add_sensor(x.second, &pe);
        } catch (const std::exception&) {
            ok = 0;
        }
        vs::ev("{\"e\":\"add1\",\"c\":%d,\"v\":%d}", c, ok);
    };
    auto rem = [&](int c, int s) {
        auto x = held(s);
        vs::ev("{\"e\":\"rem0\",\"c\":%d,\"o\":%d}", c, x.first);
        mgr->remove_sensor(x.second, &pe);
        vs::ev("{\"e\":\"rem1\",\"c\":%d}", c);
    };
    // removes a sensor, destroys it and lets another object take its place
    auto replace = [&](int c, int s) {
        if (spare[s] == 0) return;
        const int n = spare[s];
        spare[s] = 0;
        rem(c, s);
        vs::atomic_section a;
        obj[slot[s]] = obj[n];  // releases the old object
        slot[s] = n;
    };
    auto upd = [&](int c, int s) {
        auto x = held(s);
        int k;
        {
            vs::atomic_section a;
            if (version == 9) return;
            k = ++version;
        }
        vs::ev("{\"e\":\"upd0\",\"c\":%d,\"o\":%d,\"k\":%d}", c, x.first, k);
        x.second->update(k, place(s, k), orientation(), 0.0, platform_model::FORCE_UPDATE);
        vs::ev("{\"e\":\"upd1\",\"c\":%d}", c);
    };
    auto find = [&](int c, int s, int r) {
        if (r == 0) {
            vs::ev("{\"e\":\"list0\",\"c\":%d}", c);
            auto q = mgr->list();
            vs::ev("{\"e\":\"list1\",\"c\":%d,\"q\":%s}", c, ids(pair_list(q.begin(), q.end())).c_str());
        } else {
            vs::ev("{\"e\":\"find0\",\"c\":%d,\"s\":%d,\"r\":%d}", c, s, r);
            auto q = r == 1 ? mgr->find_source(s) : mgr->find_receiver(s);
            vs::ev("{\"e\":\"find1\",\"c\":%d,\"q\":%s}", c, ids(q).c_str());
        }
    };
    auto other = [&](int s, int kind) {
        auto x = held(s).second;
        if (kind == 0) x->transmit_schedule(schedule, platform_model::FORCE_UPDATE);
        if (kind == 1)
            for (auto& p : mgr->list()) {
                p->dirpaths();
                p->biverbs();
                p->rvbts();
                p->complement(x);
            }
        if (kind == 2) {
            host->update(1000, place(9, 1), orientation(10.0 * s, 0.0, 0.0), 1.0, platform_model::NO_UPDATE);
            host->update(1001, platform_model::NO_UPDATE);
        }
        if (kind == 3)
            for (auto& p : platform_manager::instance()->list()) {
                time_t t;
                wposition1 at;
                orientation o;
                double v;
                p->get_motion(&t, &at, &o, &v);
                p->children();
            }
        if (kind == 4) {
            mgr->frequencies(freq());
            mgr->find_sensor(s);
            x->wavefront_task();
        }
        if (kind == 5) {
            auto p = std::make_shared<platform_model>(20 + s, "extra", 0, place(8, s));
            p->is_acoustic_target();
            try {
                platform_manager::instance()->add(p);
                host->add_child(p, bvector(1.0, 0.0, 0.0));
                host->remove_child(20 + s);
                platform_manager::instance()->remove(20 + s);
            } catch (const std::exception&) {
            }
        }
    };
    for (int s = 1; s <= 3; ++s)
        if (s <= ns || vs::rnd(2)) add(4, s);
    for (int s = 1; s <= 3; ++s)
        if (vs::rnd(2)) upd(4, s);
    struct step {
        int f, s, r;
    };
    const int nthr = 2 + (int)vs::rnd(2);
    std::vector<std::vector<step>> plan(nthr);
    for (auto& p : plan)
        for (int k = 2 + (int)vs::rnd(3); k > 0; --k) p.push_back({(int)vs::rnd(mix ? 15 : 10), 1 + (int)vs::rnd(3), (int)vs::rnd(mix ? 6 : 3)});
    // only one thread may replace a sensor
    for (int t = 1; t < nthr; ++t)
        for (auto& o : plan[t])
            if (o.f == 9) o.f = 0;
    std::vector<std::thread> th;
    for (int t = 0; t < nthr; ++t)
        th.emplace_back([&, t] {
            for (auto& o : plan[t]) {
                if (o.f < 3)
                    upd(t + 1, o.s);
                else if (o.f < 5)
                    rem(t + 1, o.s);
                else if (o.f < 7)
                    add(t + 1, o.s);
                else if (o.f < 9)
                    find(t + 1, o.s, o.r % 3);
                else if (o.f == 9)
                    replace(t + 1, o.s);
                else
                    other(o.s, o.r);
            }
        });
    for (auto& t : th) t.join();
    for (int k = 0; k < 5000 && thread_task::num_active() > 0; ++k) thread_task::sleep();
    vs::ev("{\"e\":\"quiet\"}");
    std::string q;
    for (auto& p : mgr->list()) {
        auto a = p->src_eigenverbs(), b = p->rcv_eigenverbs();
        char one[100];
        sprintf(one, "%s[%d,%d,%d,%d,%d,%d]", q.empty() ? "" : ",", (int)p->source()->keyID(), (int)p->receiver()->keyID(),
                a == nullptr ? 0 : w.calc[a.get()], b == nullptr ? 0 : w.calc[b.get()], p->biverbs() != nullptr, p->rvbts() != nullptr);
        q += one;
    }
    vs::ev("{\"e\":\"fin\",\"q\":[%s]}", q.c_str());
}
vs::scenario remove_("remove", [](uint64_t) { world_of(false); });
vs::scenario mix_("mix", [](uint64_t) { world_of(true); });

// ---------------------------------------------------------------------------
// C21: the shared ocean

// ocean whose parts know their version; tells which one calculations use
thread_local int used = 0;
void use(int v) {
    if (used != v && started.altitude() < ALT) {
        used = v;
        vs::ev("{\"e\":\"use\",\"k\":%d,\"v\":%d}", version_of(started), v);
    }
}
struct marked_profile : spy_profile {
    int v;
    explicit marked_profile(int n) : v(n) {}
    void sound_speed(const wposition& at, matrix<double>* speed, wvector* gradient) const override {
        const wposition1 was = started;
        spy_profile::sound_speed(at, speed, gradient);
        if (version_of(was) != version_of(started)) used = 0;
        if (at.size2() > 1) use(v);  // not targets, before the first wavefront is known
    }
};
struct marked_boundary : boundary_flat {
    int v;
    marked_boundary(double h, int n) : boundary_flat(h, reflect_loss_model::csptr(new reflect_loss_constant(0.0)), scattering_model::csptr(new scattering_constant(-30.0))), v(n) {}
    void height(const wposition& at, matrix<double>* rho, wvector* normal) const override {
        if (at.size2() > 1) use(v);
        boundary_flat::height(at, rho, normal);
    }
    // (single points are also asked for before the first wavefront is known)
    void height(const wposition1& at, double* rho, wvector1* normal) const override { boundary_flat::height(at, rho, normal); }
};
ocean_model::csptr marked_ocean(int v) {
    return ocean_model::csptr(new ocean_model(boundary_model::csptr(new marked_boundary(0.0, v)), boundary_model::csptr(new marked_boundary(-150.0, v)),
                                              profile_model::csptr(new marked_profile(v))));
}
int mark_of(const ocean_model::csptr& o) {
    if (o == nullptr) return 0;
    auto a = std::dynamic_pointer_cast<const marked_boundary>(o->surface()), b = std::dynamic_pointer_cast<const marked_boundary>(o->bottom());
    auto p = std::dynamic_pointer_cast<const marked_profile>(o->profile());
    return a != nullptr && b != nullptr && p != nullptr && a->v == b->v && a->v == p->v ? a->v : -1;
}

void ocean_of(bool calculate) {
    vs::ev("{\"e\":\"cfg\"}");
    thread_controller::reset(1 + (int)vs::rnd(2));
    auto* mgr = sensor_manager::instance();
    mgr->frequencies(freq());
    int oceans = 0, version = 0;
    auto set = [&](int c) {
        int v;
        {
            vs::atomic_section a;
            v = ++oceans;
        }
        auto o = marked_ocean(v);
        vs::ev("{\"e\":\"set0\",\"c\":%d,\"v\":%d}", c, v);
        ocean_shared::update(o);
        vs::ev("{\"e\":\"set1\",\"c\":%d}", c);
    };
    auto get = [&](int c) {
        vs::ev("{\"e\":\"get0\",\"c\":%d}", c);
        auto o = ocean_shared::current();
        vs::ev("{\"e\":\"get1\",\"c\":%d,\"v\":%d}", c, mark_of(o));
    };
    auto clear = [&](int c) {
        vs::ev("{\"e\":\"clr0\",\"c\":%d}", c);
        ocean_shared::reset();
        vs::ev("{\"e\":\"clr1\",\"c\":%d}", c);
    };
    std::vector<sensor_model::sptr> s(1);
    if (calculate) {
        set(4);
        for (int i = 1; i <= 3; ++i) {
            s.push_back(make(i, true, i != 3, 0, i == 3, 0, 0.1));  // no bistatic calculations
            s[i]->de_fan(seq_vector::csptr(new seq_linear(-60.0, 30.0, 5)));
            s[i]->time_step(0.02);
            mgr->add_sensor(s[i]);
        }
    }
    auto upd = [&](int c, int i) {
        int k;
        {
            vs::atomic_section a;
            if (version == 9) return;
            k = ++version;
        }
        vs::ev("{\"e\":\"upd0\",\"c\":%d,\"k\":%d}", c, k);
        s[i]->update(k, place(i, k), orientation(), 0.0, platform_model::FORCE_UPDATE);
        vs::ev("{\"e\":\"upd1\",\"c\":%d}", c);
    };
    const int nthr = 2 + (int)vs::rnd(2);
    std::vector<std::vector<int>> plan(nthr);
    for (auto& p : plan)
        for (int k = 2 + (int)vs::rnd(4); k > 0; --k) p.push_back((int)vs::rnd(6));
    std::vector<std::thread> th;
    for (int t = 0; t < nthr; ++t)
        th.emplace_back([&, t] {
            int n = 0;
            for (int o : plan[t]) {
                ++n;
                if (o < 2)
                    set(t + 1);
                else if (o == 2)
                    get(t + 1);
                else if (calculate)
                    upd(t + 1, 1 + (o + n) % 3);
                else
                    o == 3 ? clear(t + 1) : get(t + 1);
            }
        });
    for (auto& t : th) t.join();
    for (int k = 0; k < 5000 && thread_task::num_active() > 0; ++k) thread_task::sleep();
}
vs::scenario ocean_("ocean", [](uint64_t) { ocean_of(true); });
vs::scenario register_("register", [](uint64_t) { ocean_of(false); });

}  // namespace

int main(int argc, char** argv) { return vs::main(argc, argv); }
