// Replays behaviours of spec/PlatformMotion.tla on real platforms.
#include <usml/platforms/platforms.h>

#include "line.h"

using namespace usml::platforms;
using namespace usml::types;

static const double LAT = 45.0, LON = 50.0, ALT = -100.0;

int main() {
    return drive([](reader& in, std::ostream& out) {
        const wposition1 ref(LAT, LON, ALT);
        const double R = ref.rho();
        auto place = [&](long n, long e, long u) {
            wposition1 p;
            p.rho(R + (double)u);
            p.theta(ref.theta() - (double)n / R);
            p.phi(ref.phi() + (double)e / (R * sin(ref.theta())));
            return p;
        };
        std::vector<platform_model::sptr> p(1);
        long np = in.i();
        for (long k = 1; k <= np; ++k)
            p.push_back(std::make_shared<platform_model>((platform_model::key_type)in.i(), "p", 0, ref, orientation(0, 0, 0), 0.0));
        auto angles = [&] {
            double y = 90.0 * (double)in.i(), pi = 90.0 * (double)in.i(), r = 90.0 * (double)in.i();
            return orientation(y, pi, r);
        };
        while (in.more()) {
            long op = in.i(), res = 0;
            if (op == 1) {
                long q = in.i(), t = in.i(), n = in.i(), e = in.i(), u = in.i();
                orientation o = angles();
                p[q]->update(t, place(n, e, u), o, (double)in.i());
            } else if (op == 2) {
                long q = in.i(), t = in.i();
                p[q]->update(t);
            } else if (op == 3) {
                long h = in.i(), c = in.i(), n = in.i(), e = in.i(), u = in.i();
                orientation o = angles();
                try {
                    res = (p[h]->add_child(p[c], bvector((double)n, (double)e, (double)u), o) == p[c]->keyID()) ? 1 : 2;
                } catch (std::exception&) {
                    res = 0;
                }
            } else if (op == 4) {
                long h = in.i(), k = in.i();
                res = p[h]->remove_child((platform_model::key_type)k) ? 1 : 0;
            }
            out << res;
            for (long q = 1; q <= np; ++q) {
                time_t t;
                wposition1 pos;
                orientation o;
                double v;
                p[q]->get_motion(&t, &pos, &o, &v);
                long same = p[q]->time() == t && p[q]->speed() == v && p[q]->position().rho() == pos.rho() ? q : -q;
                long host = 0;
                for (long k = 1; k <= np; ++k)
                    if (p[q]->host() == p[k].get()) host = k;
                if (p[q]->host() != nullptr && host == 0) host = 99;
                long mask = 0;
                for (auto& c : p[q]->children())
                    for (long k = 1; k <= np; ++k)
                        if (c == p[k]) mask += 1L << k;
                out << ' ' << same << ' ' << (long)t << ' ' << whole(-(pos.theta() - ref.theta()) * R, 0.05) << ' '
                    << whole((pos.phi() - ref.phi()) * R * sin(ref.theta()), 0.05) << ' ' << whole(pos.rho() - R, 0.05) << ' '
                    << whole(v, 1e-9);
                auto f = o.front(), r = o.right();
                for (int x = 0; x < 3; ++x) out << ' ' << whole(f(x), 1e-9);
                for (int x = 0; x < 3; ++x) out << ' ' << whole(r(x), 1e-9);
                out << ' ' << host << ' ' << mask;
            }
            out << ';';
        }
    });
}
