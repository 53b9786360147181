// A small property-based testing engine.
//
// Every random decision of a property is drawn from pbt::Src, which records the decisions on a "tape".
// A tape is therefore a complete description of a case: replaying it reproduces the case, editing it
// (deleting a block, lowering a number) yields a simpler one, and mutating it yields a neighbour
// (coverage-guided mode). Cases run in a forked worker, so a crash, a sanitizer report, an assert
// or a hang of the code under test is an ordinary, shrinkable failure.
#pragma once

#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <sstream>
#include <functional>
#include <initializer_list>
#include <limits>
#include <type_traits>
#include <utility>
#include <map>

namespace pbt
{
    struct Failure
    {
        std::string msg;
    };

    // Thrown to give a case up without a verdict (e.g. a listed known finding was hit).
    struct Discard
    {
    };

    struct Shared;

    class Src
    {
    public:

        // Uniform in [0, n].
        uint64_t draw(uint64_t n);

        // [lo, hi]
        template <class T = int64_t>
        T range(T lo, T hi)
        {
            return static_cast<T>(static_cast<uint64_t>(lo) + draw(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo)));
        }

        size_t below(size_t n) { return static_cast<size_t>(draw(n - 1)); }

        bool flag() { return draw(1) != 0; }

        // True with probability num/den; shrinks to false.
        bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }

        // A length: usually small, sometimes up to max.
        size_t length(size_t max);

        // An integer of type T that favours 0, small numbers, powers of two and type limits.
        template <class T>
        T integer()
        {
            using U = std::make_unsigned_t<T>;
            constexpr unsigned bits = sizeof(U) * 8;
            switch (draw(5))
            {
            case 0: return static_cast<T>(draw(16 < bits * 2 ? 16 : 7));
            case 1: return static_cast<T>(U(0) - U(draw(16)));
            case 2: { U v = U(U(1) << draw(bits - 1)); return static_cast<T>(U(v + U(draw(2)) - 1)); }
            case 3: { T lim[] = { std::numeric_limits<T>::max(), std::numeric_limits<T>::min() }; return lim[draw(1)]; }
            case 4: { unsigned w = 1 + unsigned(draw(bits - 1)); return static_cast<T>(U(wide(w))); }
            default: return static_cast<T>(U(wide(bits)));
            }
        }

        // A random number of w bits (w <= 64).
        uint64_t wide(unsigned w) { return w >= 64 ? draw(~uint64_t(0)) : draw((uint64_t(1) << w) - 1); }

        template <class T>
        const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }

        template <class T>
        T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }

        // Picks an index with the given weights.
        size_t weighted(std::initializer_list<unsigned> w);
        size_t weighted(const std::vector<unsigned>& w);

        template <class T>
        void shuffle(std::vector<T>& v)
        {
            for (size_t i = v.size(); i > 1; --i)
            {
                std::swap(v[i - 1], v[below(i)]);
            }
        }

        // --- reporting ---

        void fail(const std::string& msg) { throw Failure{ msg }; }

        // The case reached something worth checking.
        void nontrivial() { m_nontrivial = true; }

        // Counts a class of cases (once per case and label).
        void label(const char* name);

        // Increments a counter by n.
        void count(const char* name, uint64_t n = 1);

        // Keeps the maximum.
        void maximum(const char* name, uint64_t v);

        // A confirmed and recorded defect of the code under test: does not return if `id` is listed,
        // otherwise it is a failure like any other.
        [[noreturn]] void known(const std::string& id, const std::string& msg);

        // Whether the finding is listed; counts it if it is.
        bool is_known(const std::string& id);

        bool tracing() const { return m_tracing; }

        template <class... Args>
        void note(const Args&... args)
        {
            if (m_tracing)
            {
                std::ostringstream out;
                (out << ... << args);
                put_note(out.str());
            }
        }

        // --- engine side ---

        void start_random(uint64_t seed);
        // Replays prefix; then either zeros or random choices.
        void start_tape(const std::vector<uint64_t>& prefix, bool random_tail, uint64_t seed);
        void set_tracing(bool t) { m_tracing = t; }

        std::vector<uint64_t> tape;
        std::string m_trace;
        int trace_fd = -1;
        bool m_nontrivial = false;
        Shared* shared = nullptr;
        std::map<std::string, uint64_t>* counters = nullptr;
        std::map<std::string, uint64_t>* maxima = nullptr;
        std::map<std::string, uint64_t>* labels = nullptr;

    private:

        uint64_t next();
        void put_note(const std::string& line);

        std::vector<uint64_t> m_prefix;
        size_t m_pos = 0;
        bool m_random = true;
        bool m_tracing = false;
        uint64_t m_state = 0;
        std::vector<const char*> m_case_labels;
    };

    struct Property
    {
        const char* name;
        // The number of cases in the quick and thorough tiers (over all the shards).
        uint64_t quick;
        uint64_t thorough;
        void (*func)(Src&);
        // Threads are involved: a failure may not reproduce at every replay.
        bool threaded;
        // Mutate tapes that reach new code.
        bool guided;
    };

    void add_property(const Property& p);

    // Runs once in each worker process, before its first case.
    void set_worker_init(void (*f)());

    // The number of basic blocks of instrumented code (the harness and the code under test) executed so far:
    // a deterministic measure of work. Constant in targets built without coverage instrumentation.
    uint64_t steps();

    // A scratch directory of this process, removed by the engine afterwards.
    std::string scratch_dir();

    template <class... Args>
    std::string str(const Args&... args)
    {
        std::ostringstream out;
        (out << ... << args);
        return out.str();
    }
}

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)

#define PBT_PROPERTY_EX(fname, quick, thorough, threaded, guided) \
    static void fname(pbt::Src& s); \
    [[maybe_unused]] static const bool PBT_CAT(reg_, fname) = (pbt::add_property({ #fname, quick, thorough, fname, threaded, guided }), true); \
    static void fname(pbt::Src& s)

#define PBT_PROPERTY(fname, quick, thorough) PBT_PROPERTY_EX(fname, quick, thorough, false, true)
#define PBT_THREADED(fname, quick, thorough) PBT_PROPERTY_EX(fname, quick, thorough, true, false)

#define PBT_CHECK(cond, ...) do { if (!(cond)) { throw ::pbt::Failure{ ::pbt::str("line ", __LINE__, ": ", #cond, "  " __VA_OPT__(,) __VA_ARGS__) }; } } while (false)
