// Replays behaviours of spec/SensorPairs.tla on the real sensor manager.
#include <usml/beampatterns/bp_omni.h>
#include <usml/platforms/platforms.h>
#include <usml/sensors/sensors.h>
#include <usml/types/seq_linear.h>

#include <set>

#include "line.h"

using namespace usml::sensors;
using namespace usml::platforms;
using namespace usml::types;

struct spy : update_listener<sensor_pair> {
    std::set<const sensor_pair*> hits;
    int calls = 0;
    void notify_update(const sensor_pair* p) override {
        hits.insert(p);
        ++calls;
    }
};

int main() {
    return drive([](reader& in, std::ostream& out) {
        sensor_manager::reset();
        long n = in.i();
        std::vector<sensor_model::sptr> s(1);
        for (long k = 1; k <= n; ++k) s.push_back(std::make_shared<sensor_model>((platform_model::key_type)in.i(), "s"));
        auto set_attr = [&](long k, long role, long minr, long grp, long tm) {
            s[k]->reset_src_beams();
            s[k]->reset_rcv_beams();
            auto omni = bp_model::csptr(new usml::beampatterns::bp_omni());
            if (role & 1) s[k]->src_beam(7, omni);
            if (role & 2) s[k]->rcv_beam(3, omni);
            s[k]->min_range((double)minr);
            s[k]->multistatic((uint64_t)grp);
            s[k]->time_maximum((double)tm);
        };
        for (long k = 1; k <= n; ++k) {
            long r = in.i(), m = in.i(), g = in.i();
            set_attr(k, r, m, g, in.i());
        }
        spy l[3];
        auto heard = [&](const sensor_pair::sptr& p) {
            long r = 0;
            for (auto& x : l) x.hits.clear(), x.calls = 0;
            p->notify_update(p.get());
            for (int k = 1; k <= 2; ++k)
                if (l[k].calls == 1 && l[k].hits.count(p.get())) r += k;
                else if (l[k].calls != 0) r += 100;
            return r;
        };
        auto which = [&](const sensor_model::sptr& x) {
            for (long k = 1; k <= n; ++k)
                if (s[k] == x) return k;
            return -1L;
        };
        auto* mgr = sensor_manager::instance();
        while (in.more()) {
            long op = in.i();
            std::set<std::vector<long>> gone;
            long res = 0;
            if (op == 1) {
                mgr->frequencies(seq_vector::csptr(new seq_linear(1000.0, 1.0, 1)));
            } else if (op == 2) {
                long k = in.i(), r = in.i(), m = in.i(), g = in.i();
                set_attr(k, r, m, g, in.i());
            } else if (op == 3) {
                long k = in.i(), j = in.i();
                try {
                    mgr->add_sensor(s[k], j ? &l[j] : nullptr);
                } catch (sensor_manager::freq_missing&) {
                    res = 1;
                } catch (sensor_manager::time_maximum_missing&) {
                    res = 2;
                } catch (std::exception&) {
                    res = 3;
                }
            } else if (op == 4) {
                long k = in.i(), j = in.i();
                auto before = mgr->list();
                mgr->remove_sensor(s[k], j ? &l[j] : nullptr);
                auto after = mgr->list();
                for (auto& p : before) {
                    bool still = false;
                    for (auto& q : after) still |= p == q;
                    if (!still)
                        gone.insert({(long)p->source()->keyID(), (long)p->receiver()->keyID(), heard(p)});
                }
            } else if (op == 5) {
                sensor_manager::reset();
                mgr = sensor_manager::instance();
            }
            // everything that can be observed
            out << "r";
            if (op == 4)
                for (auto& v : gone) out << ' ' << v[0] << ',' << v[1] << ',' << v[2];
            else
                out << ' ' << res;
            out << " k";
            for (long k = 1; k <= n; ++k) out << ' ' << s[k]->keyID();
            out << " g";
            for (auto& p : platform_manager::instance()->list()) {
                auto m = std::dynamic_pointer_cast<sensor_model>(p);
                out << ' ' << p->keyID();
                if (m == nullptr || which(m) < 0 || sensor_manager::find_sensor(p->keyID()) != m) out << "?";
            }
            std::set<std::vector<long>> pairs;
            size_t count = 0;
            for (auto& p : mgr->list()) {
                ++count;
                auto a = p->source(), b = p->receiver();
                long x = which(a), y = which(b);
                bool ok = mgr->find(sensor_pair::generate_hash_key(a->keyID(), b->keyID())) == p &&
                          p->hash_key() == sensor_pair::generate_hash_key(a->keyID(), b->keyID()) && p->complement(a) == b &&
                          p->complement(b) == a;
                pairs.insert({(long)a->keyID(), (long)b->keyID(), x, y, ok ? heard(p) : -1});
            }
            out << " p";
            if (count != pairs.size()) out << " twice";
            for (auto& v : pairs) out << ' ' << v[0] << ',' << v[1] << ',' << v[2] << ',' << v[3] << ',' << v[4];
            std::set<long> keys;
            for (long k = 1; k <= n; ++k) keys.insert((long)s[k]->keyID());
            for (int dir = 0; dir < 2; ++dir) {
                out << (dir ? " d" : " s");
                for (long k : keys) {
                    std::multiset<long> o;
                    for (auto& p : dir ? mgr->find_receiver((uint64_t)k) : mgr->find_source((uint64_t)k)) {
                        bool ok = mgr->find(p->keyID()) == p && (long)(dir ? p->receiver() : p->source())->keyID() == k;
                        o.insert(ok ? (long)(dir ? p->source() : p->receiver())->keyID() : -1);
                    }
                    out << ' ' << k << ':';
                    for (long x : o) out << x << ',';
                }
            }
            out << " | ";
        }
        sensor_manager::reset();
    });
}
