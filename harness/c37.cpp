// C37: blocking queues and the thread pool.
#include "common.hpp"
#include "util/common/blocking_queue.hpp"
#include "util/common/thread_pool.hpp"
#include <algorithm>
#include <atomic>
#include <deque>
#include <thread>
using namespace vf;
namespace {
    using fifo = cbdc::blocking_queue<uint64_t>;
    using prio = cbdc::blocking_priority_queue<uint64_t>;
    using least = cbdc::blocking_priority_queue<uint64_t, std::greater<uint64_t>>;
    constexpr uint64_t untouched = 0x7777;

    // One thread, any order of operations that does not block.
    template<typename Q, typename Front>
    void history(Q& q, size_t n, const Front& next) {
        std::vector<uint64_t> in;
        bool cleared = false;
        for(size_t i = 0; i < n; i++) {
            switch(choose(4, "operation")) {
                case 0: {
                    auto v = sym_u64_("item");
                    in.push_back(v);
                    CHECKM(q.push(v) == in.size(), "a push tells how many elements are waiting");
                    break;
                }
                case 1: {
                    uint64_t got = untouched;
                    if(in.empty()) {
                        if(!cleared)
                            sym_end(); // blocks
                        CHECKM(!q.pop(got), "nothing is popped from a cleared queue");
                        CHECKM(got == untouched, "the element is left alone");
                        sym_cover("interrupted");
                        break;
                    }
                    CHECKM(q.pop(got), "an element that waits is popped");
                    auto it = next(in);
                    CHECKM(got == *it, "the elements come in the order of the queue");
                    in.erase(it);
                    if(in.empty())
                        cleared = false; // whether the flag of an old clear() survives is not specified
                    sym_cover("popped");
                    break;
                }
                case 2:
                    q.clear();
                    in.clear();
                    cleared = true;
                    break;
                default:
                    if(!in.empty())
                        sym_end(); // not after a clear()
                    q.reset();
                    cleared = false;
                    sym_cover("reset");
            }
        }
    }
}
ENTRY(c37_fifo) {
    fifo q;
    history(q, TIER ? 7 : 5, [](std::vector<uint64_t>& in) {
        return in.begin();
    });
}
ENTRY(c37_priority) {
    auto n = TIER ? 6 : 5;
    if(sym_choice_(2, "order") == 0) {
        prio q;
        history(q, n, [](std::vector<uint64_t>& in) {
            return std::max_element(in.begin(), in.end());
        });
    } else {
        least q;
        history(q, n, [](std::vector<uint64_t>& in) {
            return std::min_element(in.begin(), in.end());
        });
    }
}
namespace {
    struct taken {
        uint64_t v[4];
        size_t n{0};
    };
    void take(fifo& q, taken& t, size_t n) {
        for(size_t i = 0; i < n; i++) {
            uint64_t x = untouched;
            bool ok = q.pop(x);
            CHECKM(ok, "a queue that was not cleared does not interrupt its consumers");
            t.v[t.n++] = x;
        }
    }
}
// Producers and consumers under every schedule: each element reaches exactly one consumer, the elements of one producer
// come in order, and no consumer sleeps while an element waits.
ENTRY(c37_threads) {
    fifo q;
    auto a = sym_u64_("a"), b = sym_u64_("b"), c = sym_u64_("c");
    ASSUME(a != b);
    ASSUME(a != c);
    ASSUME(b != c);
    auto shape = sym_choice_(3, "shape");
    taken x, y;
    if(shape == 0) { // one producer, two consumers
        std::thread p([&] {
            take(q, x, 1);
        });
        std::thread r([&] {
            take(q, y, 2);
        });
        q.push(a);
        q.push(b);
        q.push(c);
        p.join();
        r.join();
        CHECKM(x.n == 1 && y.n == 2, "every element is popped");
        auto s = x.v[0] ^ y.v[0] ^ y.v[1];
        CHECKM(s == (a ^ b ^ c), "every element is popped once");
        CHECKM(!(y.v[0] == b && y.v[1] == a) && !(y.v[0] == c), "in the order of the pushes");
        sym_cover("two consumers");
    } else if(shape == 1) { // two producers, one consumer
        std::thread p([&] {
            q.push(a);
            q.push(b);
        });
        std::thread r([&] {
            q.push(c);
        });
        take(q, x, 3);
        p.join();
        r.join();
        auto ia = x.v[0] == a ? 0 : x.v[1] == a ? 1 : x.v[2] == a ? 2 : 3;
        auto ib = x.v[0] == b ? 0 : x.v[1] == b ? 1 : x.v[2] == b ? 2 : 3;
        auto ic = x.v[0] == c ? 0 : x.v[1] == c ? 1 : x.v[2] == c ? 2 : 3;
        CHECKM(ia < ib && ib < 3 && ic < 3, "every element once, in the order of its producer");
        sym_cover("two producers");
    } else { // two and two
        std::thread p([&] {
            take(q, x, 1);
        });
        std::thread r([&] {
            q.push(a);
        });
        q.push(b);
        take(q, y, 1);
        p.join();
        r.join();
        CHECKM((x.v[0] == a && y.v[0] == b) || (x.v[0] == b && y.v[0] == a), "every element once");
        sym_cover("two and two");
    }
    uint64_t left = untouched;
    q.clear();
    CHECKM(!q.pop(left), "nothing is left");
}
// clear() under every schedule: all the consumers return, those that got an element got one of those pushed, and the
// queue works again after reset().
ENTRY(c37_clear) {
    fifo q;
    auto a = sym_u64_("a"), b = sym_u64_("b");
    ASSUME(a != b);
    bool ox = false, oy = false;
    uint64_t x = untouched, y = untouched;
    auto pushes = sym_choice_(2, "pushed first");
    std::thread p([&] {
        ox = q.pop(x);
    });
    std::thread r([&] {
        oy = q.pop(y);
    });
    if(pushes > 0)
        q.push(a);
    q.clear();
    p.join();
    r.join();
    CHECKM(!(ox && oy), "an element is popped once");
    CHECKM(!ox || x == a, "what was pushed");
    CHECKM(!oy || y == a, "what was pushed");
    CHECKM(pushes > 0 || (!ox && !oy), "nothing comes out of an empty queue");
    if(!ox && !oy)
        sym_cover("both interrupted");
    if(ox || oy)
        sym_cover("one served");
    q.reset();
    taken t;
    std::thread u([&] {
        take(q, t, 1);
    });
    q.push(b);
    u.join();
    CHECKM(t.v[0] == b, "the queue works again");
    sym_cover("used again");
}
namespace {
    struct waiter {
        std::mutex m;
        std::condition_variable cv;
        int n{0};
        void hit() {
            {
                std::unique_lock l(m);
                n++;
            }
            cv.notify_all();
        }
        void wait(int k) {
            std::unique_lock l(m);
            cv.wait(l, [&] {
                return n >= k;
            });
        }
    };
}
// Tasks: each once, at once, whatever the others do.
ENTRY(c37_pool) {
    int ran[4] = {0, 0, 0, 0};
    waiter done, first;
    auto shape = sym_choice_(5, "shape");
    {
        cbdc::thread_pool pool;
        auto task = [&](int i) {
            return [&, i] {
                ran[i]++;
                done.hit();
            };
        };
        if(shape == 0) { // one after the other, so workers are used again
            pool.push(task(0));
            done.wait(1);
            pool.push(task(1));
            done.wait(2);
            pool.push(task(2));
            done.wait(3);
            sym_cover("in turn");
        } else if(shape == 1) { // a task that waits for a later one
            pool.push([&] {
                first.wait(1);
                ran[0]++;
                done.hit();
            });
            pool.push([&] {
                ran[1]++;
                first.hit();
                done.hit();
            });
            done.wait(2);
            sym_cover("a task waits for a later one");
        } else if(shape == 2) { // pushed by two threads
            std::thread p([&] {
                pool.push(task(0));
            });
            pool.push(task(1));
            p.join();
            done.wait(2);
            sym_cover("two threads");
        } else if(shape == 4) { // an idle worker, and two threads that push tasks of which one waits for the other
            pool.push([&] {
                done.hit();
            });
            done.wait(1);
            std::thread p([&] {
                pool.push([&] {
                    first.wait(1);
                    ran[0]++;
                    done.hit();
                });
            });
            pool.push([&] {
                ran[1]++;
                first.hit();
                done.hit();
            });
            p.join();
            done.wait(3);
            sym_cover("two threads and an idle worker");
        } else { // pushed by a task
            pool.push([&] {
                ran[0]++;
                pool.push(task(1));
                done.hit();
            });
            done.wait(2);
            sym_cover("a task pushes a task");
        }
    }
    CHECKM(ran[0] == 1 && ran[1] == 1 && ran[2] == (shape == 0 ? 1 : 0), "every task runs exactly once");
}
// Destroying the pool: no task runs twice or afterwards, and the destructor returns.
ENTRY(c37_stop) {
    std::atomic<int> running{0};
    int ran[2] = {0, 0};
    bool gone = false;
    auto n = 1 + sym_choice_(2, "tasks");
    {
        cbdc::thread_pool pool;
        for(size_t i = 0; i < n; i++)
            pool.push([&, i] {
                CHECKM(!gone, "no task runs after the pool is gone");
                running++;
                ran[i]++;
                running--;
            });
    }
    gone = true;
    CHECKM(running == 0, "no task is running any more");
    CHECKM(ran[0] <= 1 && ran[1] <= 1, "no task runs twice");
    if(ran[0] + ran[1] == static_cast<int>(n))
        sym_cover("all ran");
    if(ran[0] == 0)
        sym_cover("stopped first");
}
