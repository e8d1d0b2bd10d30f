// Concurrent use of managed collections and of the platform manager.
// See spec/ManagedMap.tla.
#include <usml/managed/managed.h>
#include <usml/platforms/platforms.h>

#include <map>
#include <memory>
#include <string>
#include <thread>
#include <vector>

#include "vsched.h"

using namespace usml::managed;
using namespace usml::platforms;

namespace {

thread_local int who = 1;

struct thing : public managed_obj<int, thing> {
    thing(int key, int tag) : managed_obj<int, thing>(key, "thing"), tag(tag) {}
    ~thing() { tag = -1; }
    int tag;
};

// objects are only referenced by the manager: a table of weak references
// shows whether they are alive
std::map<int, std::weak_ptr<thing>> alive;
std::map<int, std::vector<int>> by_key;   // key -> tags of objects that were offered for it

struct ear : public manager_listener<thing> {
    int x;
    explicit ear(int x) : x(x) {}
    void notify_add(const thing* o) const override {
        vs::yield();
        vs::atomic_section a;
        std::string t = alive[o->tag].expired() ? "" : std::to_string(o->tag);
        vs::ev("{\"e\":\"note\",\"c\":%d,\"x\":%d,\"f\":\"add\",\"k\":%d,\"o\":[%s]}", who, x, o->keyID(), t.c_str());
    }
    void notify_remove(int key) const override {
        vs::yield();
        vs::atomic_section a;
        std::string o;
        for (int t : by_key[key])
            if (!alive[t].expired()) o += (o.empty() ? "" : ",") + std::to_string(t);
        vs::ev("{\"e\":\"note\",\"c\":%d,\"x\":%d,\"f\":\"rem\",\"k\":%d,\"o\":[%s]}", who, x, key, o.c_str());
    }
};

template <typename M>
std::string contents(M& m) {
    std::string s;
    for (auto& o : m.list()) {
        if (!s.empty()) s += ",";
        s += "[" + std::to_string((int)o->keyID()) + "," + std::to_string(atoi(o->description().c_str())) + "]";
    }
    return s;
}

struct op {
    int f, k;
};

void collection(uint64_t) {
    auto* m = new manager_template<thing>;
    static ear ears[3] = {ear(1), ear(2), ear(3)};
    int nthr = 2 + (int)vs::rnd(2);
    int per = 2 + (int)vs::rnd(3);
    int nkeys = 1 + (int)vs::rnd(3);
    int tag = 0;
    std::vector<std::vector<op>> plan(nthr);
    for (auto& p : plan)
        for (int n = 0; n < per; ++n) {
            static const int mix[] = {0, 0, 0, 1, 1, 1, 2, 3, 4, 5};
            p.push_back({mix[vs::rnd(10)], 1 + (int)vs::rnd(nkeys)});
        }
    for (int x = 0; x < (int)vs::rnd(3); ++x) {
        vs::ev("{\"e\":\"ladd0\",\"c\":1,\"k\":%d}", x + 1);
        m->add_listener(&ears[x]);
        vs::ev("{\"e\":\"ladd1\",\"c\":1}");
    }
    auto perform = [&](int c, const op& o) {
        who = c;
        int k = o.k;
        switch (o.f) {
            case 0: {
                int t = ++tag;
                auto obj = std::make_shared<thing>(k, t);
                {
                    vs::atomic_section a;
                    alive[t] = obj;
                    by_key[k].push_back(t);
                }
                vs::ev("{\"e\":\"add0\",\"c\":%d,\"k\":%d,\"o\":%d}", c, k, t);
                int r = -1;
                try {
                    r = m->add(std::move(obj));
                } catch (manager_template<thing>::duplicate_key&) {
                }
                vs::ev("{\"e\":\"add1\",\"c\":%d,\"r\":%d}", c, r);
                break;
            }
            case 1: {
                vs::ev("{\"e\":\"rem0\",\"c\":%d,\"k\":%d}", c, k);
                bool r = m->remove(k);
                vs::ev("{\"e\":\"rem1\",\"c\":%d,\"r\":%d}", c, r ? 1 : 0);
                break;
            }
            case 2: {
                vs::ev("{\"e\":\"find0\",\"c\":%d,\"k\":%d}", c, k);
                auto r = m->find(k);
                int t = r ? r->tag : 0;
                r.reset();
                vs::ev("{\"e\":\"find1\",\"c\":%d,\"r\":%d}", c, t);
                break;
            }
            case 3: {
                vs::ev("{\"e\":\"list0\",\"c\":%d}", c);
                std::string s;
                {
                    auto l = m->list();
                    for (auto& x : l) s += (s.empty() ? "[" : ",[") + std::to_string(x->keyID()) + "," + std::to_string(x->tag) + "]";
                }
                vs::ev("{\"e\":\"list1\",\"c\":%d,\"r\":[%s]}", c, s.c_str());
                break;
            }
            case 4:
                vs::ev("{\"e\":\"ladd0\",\"c\":%d,\"k\":%d}", c, k);
                m->add_listener(&ears[k - 1]);
                vs::ev("{\"e\":\"ladd1\",\"c\":%d}", c);
                break;
            case 5:
                vs::ev("{\"e\":\"lrem0\",\"c\":%d,\"k\":%d}", c, k);
                m->remove_listener(&ears[k - 1]);
                vs::ev("{\"e\":\"lrem1\",\"c\":%d}", c);
                break;
        }
    };
    std::vector<std::thread> th;
    for (int s = 0; s < nthr; ++s)
        th.emplace_back([&, s] {
            for (auto& o : plan[s]) perform(s + 2, o);
        });
    for (auto& x : th) x.join();
    perform(1, {3, 0});
    for (int k = 1; k <= nkeys; ++k) perform(1, {2, k});
}

// ---------------------------------------------------------------------------
// platform manager: shared instance and automatic keys

int inst_no(const void* p) {
    static std::vector<const void*> known;
    for (size_t n = 0; n < known.size(); ++n)
        if (known[n] == p) return (int)n + 1;
    known.push_back(p);
    return (int)known.size();
}
platform_manager* get() {
    auto* m = platform_manager::instance();
    vs::ev("{\"e\":\"inst\",\"v\":%d}", inst_no(m));
    return m;
}
void keys(uint64_t) {
    int nthr = 2 + (int)vs::rnd(2);
    int rounds = 1 + (int)vs::rnd(2);
    int tag = 0;
    for (int round = 0; round < rounds; ++round) {
        int per = 1 + (int)vs::rnd(3);
        std::vector<std::vector<op>> plan(nthr);
        for (auto& p : plan)
            for (int n = 0; n < per; ++n) {
                static const int mix[] = {0, 0, 0, 0, 1, 2, 3};
                int f = mix[vs::rnd(7)];
                p.push_back({f, f == 0 ? (vs::rnd(2) ? 0 : 1 + (int)vs::rnd(5)) : 1 + (int)vs::rnd(5)});
            }
        auto perform = [&](int c, const op& o) {
            auto* m = get();
            switch (o.f) {
                case 0: {
                    int t = ++tag;
                    auto p = std::make_shared<platform_model>((uint64_t)o.k, std::to_string(t));
                    vs::ev("{\"e\":\"add0\",\"c\":%d,\"k\":%d,\"o\":%d}", c, o.k, t);
                    int r = -1;
                    try {
                        r = (int)m->add(p);
                        if ((int)p->keyID() != r) vs::fail("platform added with key %d has key %d", r, (int)p->keyID());
                    } catch (std::exception&) {
                        if (o.k > 0 && (int)p->keyID() != o.k) vs::fail("refused platform %d now has key %d", o.k, (int)p->keyID());
                    }
                    vs::ev("{\"e\":\"add1\",\"c\":%d,\"r\":%d}", c, r);
                    break;
                }
                case 1: {
                    vs::ev("{\"e\":\"rem0\",\"c\":%d,\"k\":%d}", c, o.k);
                    bool r = m->remove((uint64_t)o.k);
                    vs::ev("{\"e\":\"rem1\",\"c\":%d,\"r\":%d}", c, r ? 1 : 0);
                    break;
                }
                case 2: {
                    vs::ev("{\"e\":\"find0\",\"c\":%d,\"k\":%d}", c, o.k);
                    auto r = m->find((uint64_t)o.k);
                    vs::ev("{\"e\":\"find1\",\"c\":%d,\"r\":%d}", c, r ? atoi(r->description().c_str()) : 0);
                    break;
                }
                case 3: {
                    vs::ev("{\"e\":\"list0\",\"c\":%d}", c);
                    auto s = contents(*m);
                    vs::ev("{\"e\":\"list1\",\"c\":%d,\"r\":[%s]}", c, s.c_str());
                    break;
                }
            }
        };
        std::vector<std::thread> th;
        for (int s = 0; s < nthr; ++s)
            th.emplace_back([&, s] {
                for (auto& o : plan[s]) perform(s + 2, o);
            });
        for (auto& x : th) x.join();
        perform(1, {3, 0});
        platform_manager::reset();
        vs::ev("{\"e\":\"reset\"}");
    }
    get();
}

vs::scenario s1("collection", collection), s2("keys", keys);
}  // namespace

int main(int argc, char** argv) { return vs::main(argc, argv); }
