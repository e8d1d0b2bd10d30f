// Executes the task machinery (threads/) under the deterministic scheduler and
// records what users can observe. See spec/ThreadPool.tla.
#include <usml/threads/threads.h>

#include <memory>
#include <stdexcept>
#include <thread>
#include <vector>

#include "vsched.h"

using namespace usml::threads;

namespace {

struct ctx {
    bool ids = false;
    thread_pool* pool = nullptr;   // used by nested submissions; null: the shared pool
    int pool_no = 1;
    int executed = 0;
    bool gate = true;
};

class job : public thread_task {
   public:
    job(ctx* c, int t, int kind, int pauses) : _c(c), _t(t), _kind(kind), _pauses(pauses) {}
    void run() override;
    ctx* _c;
    int _t, _kind, _pauses;
    std::shared_ptr<job> _nested;
    bool* _gate = nullptr;
    bool _submitted = false;
};
typedef std::shared_ptr<job> jref;

jref make(ctx& c, int t, int kind, int pauses) {
    vs::ev("{\"e\":\"mk0\",\"t\":%d}", t);
    auto j = std::make_shared<job>(&c, t, kind, pauses);
    vs::ev("{\"e\":\"mk1\",\"t\":%d,\"id\":%d}", t, c.ids ? (int)j->id() : 1000 + t);
    return j;
}

void submit(ctx& c, const jref& j) {
    j->_submitted = true;
    vs::ev("{\"e\":\"sub0\",\"t\":%d,\"p\":%d}", j->_t, c.pool ? c.pool_no : 0);
    if (c.pool)
        c.pool->run(j);
    else
        thread_controller::instance()->run(j);
    vs::ev("{\"e\":\"sub1\",\"t\":%d}", j->_t);
}

void job::run() {
    ++_c->executed;
    vs::ev("{\"e\":\"run\",\"t\":%d}", _t);
    for (int n = 0; n < _pauses; ++n) vs::yield();
    if (_kind == 4) thread_task::sleep(1 + _pauses % 3);
    if (_nested) submit(*_c, _nested);
    if (_gate)
        while (!*_gate) thread_task::sleep();
    vs::ev("{\"e\":\"end\",\"t\":%d}", _t);
    if (_kind == 1) throw std::runtime_error("task failed");
    if (_kind == 2) throw 42;
}

void observe(int k) {
    vs::ev("{\"e\":\"obs0\",\"c\":%d}", k);
    int v = (int)thread_task::num_active();
    vs::ev("{\"e\":\"obs1\",\"c\":%d,\"v\":%d}", k, v);
}

bool wait(int k, int64_t max) {
    vs::ev("{\"e\":\"wait0\",\"c\":%d,\"max\":%d}", k, (int)max);
    int64_t t0 = vs::now_ms();
    bool thrown = false;
    try {
        thread_task::wait(max);
    } catch (std::range_error&) {
        thrown = true;
    }
    vs::ev("{\"e\":\"wait1\",\"c\":%d,\"thr\":%d,\"el\":%d}", k, thrown ? 1 : 0, (int)(vs::now_ms() - t0));
    return thrown;
}

// Every submitted task is executed exactly once, in order. The pool is never
// destroyed here.
void exec(uint64_t) {
    auto* c = new ctx;
    int w = 1 + (int)vs::rnd(3);
    int n = 2 + (int)vs::rnd(4);
    vs::ev("{\"e\":\"pool\",\"p\":1,\"w\":%d}", w);
    auto* pool = new thread_pool(w);
    c->pool = pool;
    std::vector<jref> jobs;
    for (int t = 1; t <= n; ++t) jobs.push_back(make(*c, t, (int)vs::rnd(5), (int)vs::rnd(4)));
    int total = n;
    if (vs::rnd(2)) {
        jobs[0]->_nested = make(*c, ++total, (int)vs::rnd(3), 0);
        if (vs::rnd(2)) jobs[0]->_nested->_nested = make(*c, ++total, 0, 0);
    }
    int nsub = 1 + (int)vs::rnd(3);
    std::vector<std::thread> th;
    for (int s = 0; s < nsub; ++s)
        th.emplace_back([&, s] {
            for (int t = s; t < n; t += nsub) submit(*c, jobs[t]);
        });
    for (auto& x : th) x.join();
    for (int k = 0; k < 2000 && c->executed < total; ++k) thread_task::sleep();
    thread_task::sleep(20);
    if (c->executed != total) vs::fail("%d of %d tasks executed", c->executed, total);
    vs::ev("{\"e\":\"fin\",\"p\":1}");
}

// Identifiers, active count and wait with concurrent creation.
void account(uint64_t) {
    auto* c = new ctx;
    c->ids = true;
    int w = 1 + (int)vs::rnd(2);
    vs::ev("{\"e\":\"pool\",\"p\":1,\"w\":%d}", w);
    auto* pool = new thread_pool(w);
    c->pool = pool;
    int nthr = 2 + (int)vs::rnd(2);
    int per = nthr == 2 ? 1 + (int)vs::rnd(3) : 1 + (int)vs::rnd(2);
    bool midwait = vs::rnd(3) == 0;
    struct plan { int kind, pauses, drop, obs; };
    std::vector<plan> plans;
    for (int k = 0; k < nthr * per; ++k)
        plans.push_back({(int)vs::rnd(5), (int)vs::rnd(3), (int)(vs::rnd(4) == 0), (int)(vs::rnd(3) == 0)});
    std::vector<std::thread> th;
    for (int s = 0; s < nthr; ++s)
        th.emplace_back([&, s] {
            for (int k = 0; k < per; ++k) {
                int t = 1 + s * per + k;
                auto& p = plans[t - 1];
                jref j = make(*c, t, p.kind, p.pauses);
                if (p.drop) {
                    vs::ev("{\"e\":\"drop0\",\"t\":%d}", t);
                    j.reset();
                    vs::ev("{\"e\":\"drop1\",\"t\":%d}", t);
                } else {
                    submit(*c, j);
                }
                if (p.obs) observe(1 + s);
            }
            if (midwait && s == 0) wait(1, 0);
        });
    if (vs::rnd(2)) observe(0);
    for (auto& x : th) x.join();
    wait(0, 0);
    observe(0);
}

// wait() with a time limit while a task does not end
void limit(uint64_t) {
    auto* c = new ctx;
    int w = 1 + (int)vs::rnd(2);
    vs::ev("{\"e\":\"pool\",\"p\":1,\"w\":%d}", w);
    auto* pool = new thread_pool(w);
    c->pool = pool;
    bool gate = false;
    int n = 1 + (int)vs::rnd(2);
    int lim = 1 + (int)vs::rnd(12);
    int mode = (int)vs::rnd(3);
    for (int t = 1; t <= n; ++t) {
        auto j = make(*c, t, 0, (int)vs::rnd(3));
        if (t == n) j->_gate = &gate;
        submit(*c, j);
    }
    std::thread opener([&] {
        if (mode == 0) thread_task::sleep(1 + lim / 2);   // in time, or nearly
        if (mode == 1) thread_task::sleep(lim);
        if (mode < 2) gate = true;
    });
    if (vs::rnd(2)) observe(0);
    wait(0, lim);
    gate = true;
    opener.join();
    wait(0, 0);
    if (vs::rnd(2)) wait(0, lim);
}

// A nested task whose submission was not reached is dropped.
void drop_unused(std::vector<jref>& jobs, jref& nested) {
    if (!nested || nested->_submitted) return;
    int t = nested->_t;
    for (auto& j : jobs)
        if (j->_nested) j->_nested.reset();
    vs::ev("{\"e\":\"drop0\",\"t\":%d}", t);
    nested.reset();
    vs::ev("{\"e\":\"drop1\",\"t\":%d}", t);
}

// Destruction of a pool at any moment.
void destroy(uint64_t) {
    auto* c = new ctx;
    int w = 1 + (int)vs::rnd(3);
    int n = 1 + (int)vs::rnd(4);
    vs::ev("{\"e\":\"pool\",\"p\":1,\"w\":%d}", w);
    auto* pool = new thread_pool(w);
    c->pool = pool;
    std::vector<jref> jobs;
    for (int t = 1; t <= n; ++t) jobs.push_back(make(*c, t, (int)vs::rnd(5), (int)vs::rnd(4)));
    if (vs::rnd(2)) jobs[0]->_nested = make(*c, n + 1, 0, 0);
    bool separate = vs::rnd(2);
    bool keep = vs::rnd(2);
    bool settle = vs::rnd(4) == 0;
    if (separate) {
        std::thread th([&] {
            for (auto& j : jobs) submit(*c, j);
        });
        th.join();
    } else {
        for (auto& j : jobs) submit(*c, j);
    }
    jref nested = jobs[0]->_nested;
    if (!keep) jobs.clear();
    if (settle) thread_task::sleep(5);
    for (int k = (int)vs::rnd(6); k > 0; --k) vs::yield();
    vs::ev("{\"e\":\"dtor0\",\"p\":1}");
    delete pool;
    vs::ev("{\"e\":\"dtor1\",\"p\":1}");
    drop_unused(jobs, nested);
    wait(0, 0);
    thread_task::sleep(3);
}

// Replacement of the shared pool.
int inst_no(const void* p) {
    static std::vector<const void*> known;
    for (size_t n = 0; n < known.size(); ++n)
        if (known[n] == p) return (int)n + 1;
    known.push_back(p);
    return (int)known.size();
}
void reset(int p, int q, int w) {
    vs::ev("{\"e\":\"reset0\",\"p\":%d,\"q\":%d,\"w\":%d}", p, q, w);
    thread_controller::reset((unsigned)w);
    vs::ev("{\"e\":\"reset1\",\"p\":%d}", p);
}
void instance() {
    int v = inst_no(thread_controller::instance());
    vs::ev("{\"e\":\"inst\",\"v\":%d}", v);
}
void replace(uint64_t) {
    auto* c = new ctx;
    c->pool_no = 0;
    int w = 1 + (int)vs::rnd(2);
    int n = 1 + (int)vs::rnd(4);
    std::vector<jref> jobs;
    for (int t = 1; t <= n; ++t) jobs.push_back(make(*c, t, (int)vs::rnd(5), (int)vs::rnd(4)));
    jref nested;
    if (vs::rnd(2)) nested = jobs[0]->_nested = make(*c, n + 1, 0, 0);
    reset(0, 1, w);
    if (vs::rnd(2)) {
        std::thread a([&] { instance(); }), b([&] { instance(); });
        a.join();
        b.join();
    } else {
        instance();
    }
    for (int t = 0; t < n - 1; ++t) submit(*c, jobs[t]);
    for (int k = (int)vs::rnd(6); k > 0; --k) vs::yield();
    reset(1, 2, 1 + (int)vs::rnd(2));
    instance();
    submit(*c, jobs[n - 1]);
    int rest = (int)vs::rnd(3);
    if (rest == 0) thread_task::sleep(2);
    if (rest == 1) {
        reset(2, 3, 1);
        instance();
    }
    // the first pool is gone, so is everything that could submit the nested task
    if (n > 1 || rest == 1) drop_unused(jobs, nested);
    if (n > 1 || rest == 1 || !nested) wait(0, 0);
}
// first use of the shared pool by several threads at the same time
void first(uint64_t) {
    auto* c = new ctx;
    std::vector<jref> jobs;
    for (int t = 1; t <= 3; ++t) jobs.push_back(make(*c, t, 0, 1));
    vs::ev("{\"e\":\"pool\",\"p\":1,\"w\":1000}");
    std::vector<std::thread> th;
    for (int s = 0; s < 3; ++s)
        th.emplace_back([&, s] {
            instance();
            submit(*c, jobs[s]);
        });
    for (auto& x : th) x.join();
    for (int k = 0; k < 2000 && c->executed < 3; ++k) thread_task::sleep();
    thread_task::sleep(5);
    vs::ev("{\"e\":\"fin\",\"p\":1}");
}

vs::scenario s1("exec", exec), s2("account", account), s3("limit", limit), s4("destroy", destroy), s5("replace", replace),
    s6("first", first);
}  // namespace

int main(int argc, char** argv) { return vs::main(argc, argv); }
