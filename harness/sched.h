// Symbolic schedules: stand-ins for std::thread, std::mutex, std::condition_variable, std::fstream ... on cooperative
// threads. At every point where another thread can act (lock, unlock, wait, notify, start, join, stream access) the
// scheduler forks over which thread runs next; switching away from a thread that could go on costs one of `budget`
// preemptions, blocking does not. Include it before the repository's headers.
#pragma once
#include "sym.h"
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstdio>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <queue>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>
namespace vt {
    enum St { RUN, MTX, CVW, JOIN, FUT, DONE };
    struct Body { virtual void run() = 0; virtual ~Body() {} };
    struct Th { int id = 0; int coro = 0; St st = RUN; void* on = nullptr; Body* body = nullptr; };
    struct Sched {
        std::vector<Th*> th;
        int cur = 0, budget = 2, spurious = 0, dead = 0;
        std::vector<long> trace;
    };
    inline Sched* S = nullptr;
    inline Sched& sc() { return *S; }
    inline void begin(int budget, int spurious = 0) {
        S = new Sched();
        S->budget = budget;
        S->spurious = spurious;
        S->th.push_back(new Th());
    }
    bool ready(Th* t);
    inline void to(int i) {
        if (i == sc().cur) return;
        sc().cur = i;
        sym_coro_switch(sc().th[i]->coro);
    }
    inline void deadlock() { sym_fail("no thread is left waiting for ever"); sym_end(); }
    // the current thread cannot go on
    inline void block() {
        Sched& s = sc();
        while (!ready(s.th[s.cur])) {
            int me = s.cur, n = 0, c[16];
            for (int i = 0; i < (int)s.th.size(); i++) if (i != me && ready(s.th[i])) c[n++] = i;
            if (!n) { deadlock(); return; }
            to(c[n > 1 ? sym_choose("sched", n) : 0]);
        }
    }
    // the current thread may be preempted here
    inline void point() {
        if (!S) return;
        Sched& s = sc();
        if (s.budget <= 0) return;
        int me = s.cur, n = 0, c[16];
        c[n++] = me;
        for (int i = 0; i < (int)s.th.size(); i++) if (i != me && ready(s.th[i])) c[n++] = i;
        if (n == 1) return;
        int k = (int)sym_choose("sched", n);
        if (k) { s.budget--; to(c[k]); }
    }
    inline void finish() {
        Sched& s = sc();
        s.th[s.cur]->st = DONE;
        int n = 0, c[16];
        for (int i = 0; i < (int)s.th.size(); i++) if (ready(s.th[i])) c[n++] = i;
        if (!n) deadlock();
        else to(c[n > 1 ? sym_choose("sched", n) : 0]);
    }
    inline void coroMain(void* p) {
        Th* t = (Th*)p;
        t->body->run();
        Body* b = t->body;
        t->body = nullptr;
        delete b;
        for (;;) finish();
    }
    inline int start(Body* b) {
        Th* t = new Th();
        t->id = (int)sc().th.size();
        t->body = b;
        sc().th.push_back(t);
        t->coro = sym_coro_create(coroMain, t);
        point();
        return t->id;
    }
    inline int running() { int n = 0; for (size_t i = 1; i < sc().th.size(); i++) n += sc().th[i]->st != DONE; return n; }
}
namespace std {
    struct sym_mutex {
        int owner = -1;
        sym_mutex() = default;
        sym_mutex(sym_mutex const&) = delete;
        ~sym_mutex() { if (owner >= 0) sym_fail("no mutex is destroyed while a thread holds it"); }
        void lock() {
            vt::point();
            if (owner == vt::sc().cur) { sym_fail("no thread locks a mutex it already holds"); sym_end(); }
            relock();
        }
        void relock() {
            vt::Th* me = vt::sc().th[vt::sc().cur];
            me->st = vt::MTX; me->on = this;
            if (owner >= 0) vt::block();
            me->st = vt::RUN; me->on = nullptr;
            owner = vt::sc().cur;
        }
        bool try_lock() { vt::point(); if (owner >= 0) return false; owner = vt::sc().cur; return true; }
        void unlock() {
            if (owner != vt::sc().cur) sym_fail("only the owner unlocks a mutex");
            owner = -1;
            vt::point();
        }
    };
    struct sym_condition_variable {
        sym_condition_variable() = default;
        sym_condition_variable(sym_condition_variable const&) = delete;
        ~sym_condition_variable() {
            if (!vt::S) return;
            for (auto* t : vt::sc().th) if (t->st == vt::CVW && t->on == this) sym_fail("no condition variable is destroyed while a thread waits for it");
        }
        void wait(unique_lock<sym_mutex>& l) {
            sym_mutex* m = l.mutex();
            vt::point();
            if (m->owner != vt::sc().cur) sym_fail("a thread waits with the mutex held");
            vt::Th* me = vt::sc().th[vt::sc().cur];
            m->owner = -1;
            if (vt::sc().spurious > 0 && sym_choose("spurious", 2)) { vt::sc().spurious--; vt::point(); }
            else { me->st = vt::CVW; me->on = this; vt::block(); }
            m->relock();
        }
        template <typename P> void wait(unique_lock<sym_mutex>& l, P p) { while (!p()) wait(l); }
        void wake(int n) {
            vt::point();
            int k = 0, c[16];
            for (auto* t : vt::sc().th) if (t->st == vt::CVW && t->on == this) c[k++] = t->id;
            if (n && k > 1) { int w = c[sym_choose("wake", k)]; vt::sc().th[w]->st = vt::RUN; }
            else for (int i = 0; i < k; i++) vt::sc().th[c[i]]->st = vt::RUN;
        }
        void notify_one() { wake(1); }
        void notify_all() { wake(0); }
    };
    class sym_thread {
        template <typename F, typename... A> struct B : vt::Body {
            std::tuple<std::decay_t<F>, std::decay_t<A>...> t;
            template <typename... X> B(X&&... x) : t(std::forward<X>(x)...) {}
            void run() override { std::apply([](auto&&... x) { std::invoke(std::move(x)...); }, std::move(t)); }
        };
        int id_ = 0;
       public:
        using id = int;
        sym_thread() noexcept = default;
        template <typename F, typename... A, typename = std::enable_if_t<!std::is_same_v<std::remove_cv_t<std::remove_reference_t<F>>, sym_thread>>>
        explicit sym_thread(F&& f, A&&... a) {
            id_ = vt::start(new B<F, A...>(std::forward<F>(f), std::forward<A>(a)...));
        }
        sym_thread(sym_thread&& o) noexcept : id_(o.id_) { o.id_ = 0; }
        sym_thread& operator=(sym_thread&& o) noexcept { if (joinable()) sym_fail("a joinable thread is not overwritten"); id_ = o.id_; o.id_ = 0; return *this; }
        ~sym_thread() { if (joinable()) sym_fail("a thread is joined before it is destroyed"); }
        bool joinable() const { return id_ != 0; }
        void join() {
            if (!joinable()) { sym_fail("only a joinable thread is joined"); return; }
            vt::point();
            vt::Th* t = vt::sc().th[id_];
            vt::Th* me = vt::sc().th[vt::sc().cur];
            me->st = vt::JOIN; me->on = t;
            if (t->st != vt::DONE) vt::block();
            me->st = vt::RUN; me->on = nullptr;
            id_ = 0;
        }
        void detach() { id_ = 0; }
        int get_id() const { return id_; }
        static unsigned hardware_concurrency() { return 2; }
    };
    // one shared state for packaged_task / future
    template <typename R> struct sym_state { bool done = false, broken = false; std::conditional_t<std::is_void_v<R>, char, R> v{}; };
    template <typename R> class sym_future {
       public:
        std::shared_ptr<sym_state<R>> s;
        sym_future() = default;
        sym_future(std::shared_ptr<sym_state<R>> p) : s(p) {}
        sym_future(sym_future&&) = default;
        sym_future& operator=(sym_future&&) = default;
        bool valid() const { return (bool)s; }
        void wait() {
            vt::point();
            vt::Th* me = vt::sc().th[vt::sc().cur];
            me->st = vt::FUT; me->on = &s->done;
            if (!s->done) vt::block();
            me->st = vt::RUN; me->on = nullptr;
        }
        R get() { wait(); if constexpr (!std::is_void_v<R>) return s->v; }
    };
    template <typename> class sym_packaged_task;
    template <typename R, typename... A> class sym_packaged_task<R(A...)> {
        std::function<R(A...)> f; std::shared_ptr<sym_state<R>> s = std::make_shared<sym_state<R>>();
       public:
        template <typename F> explicit sym_packaged_task(F&& g) : f(std::forward<F>(g)) {}
        sym_packaged_task(sym_packaged_task&&) = default;
        ~sym_packaged_task() { if (s && !s->done) { s->broken = true; s->done = true; } }
        sym_future<R> get_future() { return sym_future<R>(s); }
        void operator()(A... a) { if constexpr (std::is_void_v<R>) f(a...); else s->v = f(a...); s->done = true; vt::point(); }
    };
    // streams: a sequence of tokens; two threads inside one stream at the same time is a failure
    struct sym_ios_like {
        int busy = 0;
        bool open = true, eofbit = false, failbit = false;
        struct Use {
            sym_ios_like* s;
            Use(sym_ios_like* p) : s(p) {
                if (s->busy) sym_fail("no two threads use a stream at the same time");
                s->busy++;
                vt::point();
            }
            ~Use() { s->busy--; }
        };
        bool is_open() const { return open; }
        bool eof() { Use u(this); return eofbit; }
        bool good() { return !eofbit && !failbit; }
        bool fail() const { return failbit; }
        explicit operator bool() { return !failbit; }
        bool operator!() { return failbit; }
        void close() { open = false; }
    };
    struct sym_tok { int kind = 0; double d = 0; std::string s; };   // 0 number, 1 text
    struct sym_ostream : virtual sym_ios_like {
        std::vector<sym_tok> out; int flushed = 0;
        void put(double d) { Use u(this); sym_tok t; t.d = d; out.push_back(t); }
        void put(std::string const& x) { Use u(this); sym_tok t; t.kind = 1; t.s = x; out.push_back(t); }
        void flush() { Use u(this); flushed = (int)out.size(); }
        sym_ostream& operator<<(double d) { put(d); return *this; }
        sym_ostream& operator<<(float d) { put((double)d); return *this; }
        sym_ostream& operator<<(int d) { put((double)d); return *this; }
        sym_ostream& operator<<(unsigned d) { put((double)d); return *this; }
        sym_ostream& operator<<(long d) { put((double)d); return *this; }
        sym_ostream& operator<<(unsigned long d) { put((double)d); return *this; }
        sym_ostream& operator<<(bool d) { put((double)d); return *this; }
        sym_ostream& operator<<(char c) { put(std::string(1, c)); return *this; }
        sym_ostream& operator<<(const char* c) { put(std::string(c)); return *this; }
        sym_ostream& operator<<(std::string const& c) { put(c); return *this; }
        sym_ostream& operator<<(std::ios_base& (*)(std::ios_base&)) { return *this; }
        sym_ostream& operator<<(decltype(std::setprecision(1)) p) { precision = *(int*)&p; return *this; }
        long tellp() { return (long)out.size(); }
        int precision = 6;
    };
    struct sym_istream : virtual sym_ios_like {
        std::vector<double> in; size_t at = 0;
        // like a text file of numbers that ends with the last one (bare) or with a newline after it
        bool newlineAtEnd = true;
        template <typename T> void take(T& x) {
            Use u(this);
            if (failbit || eofbit) { failbit = true; return; }
            if (at >= in.size()) { eofbit = failbit = true; return; }
            x = (T)in[at++];
            if (at == in.size() && !newlineAtEnd) eofbit = true;
        }
        sym_istream& operator>>(double& x) { take(x); return *this; }
        sym_istream& operator>>(int& x) { take(x); return *this; }
        sym_istream& operator>>(long& x) { take(x); return *this; }
        sym_istream& operator>>(unsigned long& x) { take(x); return *this; }
        // text: lines (getline) and blank separated words
        std::vector<std::string> lines, words;
        size_t lineAt = 0, wordAt = 0;
        sym_istream& operator>>(std::string& x) {
            Use u(this);
            if (failbit || eofbit || wordAt >= words.size()) { eofbit = failbit = true; return *this; }
            x = words[wordAt++];
            return *this;
        }
    };
    inline sym_istream& getline(sym_istream& i, std::string& x) {
        if (i.failbit || i.eofbit || i.lineAt >= i.lines.size()) { i.eofbit = i.failbit = true; return i; }
        x = i.lines[i.lineAt++];
        return i;
    }
    struct sym_fstream : sym_ostream, sym_istream {
        static constexpr std::ios_base::openmode in = std::ios_base::in, out = std::ios_base::out, app = std::ios_base::app;
        std::string name;
        inline static std::function<void(sym_fstream&)> onOpen, onClose;
        sym_fstream() { open = false; }
        explicit sym_fstream(const char* n, std::ios_base::openmode = std::ios_base::in) : name(n) { if (onOpen) onOpen(*this); }
        explicit sym_fstream(std::string const& n, std::ios_base::openmode = std::ios_base::in) : name(n) { if (onOpen) onOpen(*this); }
        ~sym_fstream() { if (onClose) onClose(*this); }
        std::vector<sym_tok>& toks() { return sym_ostream::out; }
        std::vector<double>& src() { return sym_istream::in; }
    };
}
namespace vt {
    inline bool ready(Th* t) {
        switch (t->st) {
            case RUN: return true;
            case MTX: return ((std::sym_mutex*)t->on)->owner < 0;
            case CVW: return false;
            case JOIN: return ((Th*)t->on)->st == DONE;
            case FUT: return *(bool*)t->on;
            default: return false;
        }
    }
}
#define thread sym_thread
#define mutex sym_mutex
#define condition_variable sym_condition_variable
#define fstream sym_fstream
#define ofstream sym_fstream
#define ifstream sym_fstream
#define ostream sym_ostream
#define istream sym_istream
#define future sym_future
#define packaged_task sym_packaged_task
