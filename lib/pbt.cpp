#include "pbt.h"

#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <filesystem>
#include <fstream>
#include <set>
#include <thread>
#include <unordered_set>
#include <new>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt
{
    constexpr size_t max_tape = 1u << 20;

    struct Shared
    {
        std::atomic<uint64_t> progress;   // cases finished
        std::atomic<uint64_t> in_case;    // 1 while a case is being run
        std::atomic<uint64_t> tape_len;
        uint64_t tape[max_tape];
        char message[4096];
        char what[64];
    };

    static std::vector<Property>& props()
    {
        static std::vector<Property> v;
        return v;
    }

    static void (*worker_init)() = nullptr;
    static std::string scratch;
    static std::set<std::string> known_ids;

    void add_property(const Property& p) { props().push_back(p); }
    void set_worker_init(void (*f)()) { worker_init = f; }
    std::string scratch_dir() { return scratch; }

    static uint64_t mix(uint64_t z)
    {
        z += 0x9e3779b97f4a7c15ull;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }

    uint64_t Src::next()
    {
        m_state += 0x9e3779b97f4a7c15ull;
        uint64_t z = m_state;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }

    void Src::start_random(uint64_t seed)
    {
        start_tape({}, true, seed);
    }

    void Src::start_tape(const std::vector<uint64_t>& prefix, bool random_tail, uint64_t seed)
    {
        m_prefix = prefix;
        m_pos = 0;
        m_random = random_tail;
        m_state = seed;
        tape.clear();
        m_trace.clear();
        m_nontrivial = false;
        m_case_labels.clear();
        if (shared != nullptr)
            shared->tape_len.store(0, std::memory_order_relaxed);
    }

    uint64_t Src::draw(uint64_t n)
    {
        uint64_t v;
        if (m_pos < m_prefix.size())
        {
            v = m_prefix[m_pos];
            if (n != ~uint64_t(0) && v > n)
                v %= n + 1;
        }
        else if (m_random)
        {
            v = n == ~uint64_t(0) ? next() : static_cast<uint64_t>((static_cast<unsigned __int128>(next()) * (static_cast<unsigned __int128>(n) + 1)) >> 64);
        }
        else
        {
            v = 0;
        }
        ++m_pos;
        if (tape.size() < max_tape)
        {
            tape.push_back(v);
            if (shared != nullptr)
            {
                shared->tape[tape.size() - 1] = v;
                shared->tape_len.store(tape.size(), std::memory_order_relaxed);
            }
        }
        return v;
    }

    size_t Src::length(size_t max)
    {
        switch (draw(3))
        {
        case 0: return static_cast<size_t>(draw(max < 4 ? max : 4));
        case 1: return static_cast<size_t>(draw(max < 16 ? max : 16));
        default: return static_cast<size_t>(draw(max));
        }
    }

    size_t Src::weighted(std::initializer_list<unsigned> w) { return weighted(std::vector<unsigned>(w)); }

    size_t Src::weighted(const std::vector<unsigned>& w)
    {
        uint64_t sum = 0;
        for (unsigned x : w) sum += x;
        uint64_t v = draw(sum - 1);
        for (size_t i = 0; i < w.size(); ++i)
        {
            if (v < w[i]) return i;
            v -= w[i];
        }
        return w.size() - 1;
    }

    void Src::put_note(const std::string& line)
    {
        m_trace += line;
        m_trace += '\n';
        if (trace_fd >= 0)
        {
            std::string l = line + "\n";
            if (write(trace_fd, l.c_str(), l.size()) < 0) trace_fd = -1;
        }
        if (m_trace.size() > 200000)
            m_tracing = false;
    }

    void Src::label(const char* name)
    {
        for (const char* l : m_case_labels)
            if (l == name || std::strcmp(l, name) == 0) return;
        m_case_labels.push_back(name);
        if (labels) ++(*labels)[name];
    }

    void Src::count(const char* name, uint64_t n) { if (counters) (*counters)[name] += n; }

    void Src::maximum(const char* name, uint64_t v)
    {
        if (maxima) { uint64_t& m = (*maxima)[name]; if (v > m) m = v; }
    }

    bool Src::is_known(const std::string& id)
    {
        if (!known_ids.count(id)) return false;
        if (counters) ++(*counters)["known-finding " + id];
        return true;
    }

    void Src::known(const std::string& id, const std::string& msg)
    {
        if (known_ids.count(id))
        {
            if (counters) ++(*counters)["known-finding " + id];
            throw Discard{};
        }
        throw Failure{ "[" + id + "] " + msg };
    }

    // ---------------------------------------------------------------- coverage

    constexpr size_t cov_size = 1u << 16;
    static unsigned char cov_map[cov_size];
    static unsigned char cov_seen[cov_size];
    static bool cov_on = false;
    static uint64_t step_count = 0;
    uint64_t steps() { return *const_cast<volatile uint64_t*>(&step_count); }
}

extern "C" __attribute__((no_sanitize_coverage, no_sanitize("address", "undefined"))) void __sanitizer_cov_trace_pc()
{
    ++pbt::step_count;
    if (pbt::cov_on)
    {
        uintptr_t pc = reinterpret_cast<uintptr_t>(__builtin_return_address(0));
        pc ^= pc >> 16;
        unsigned char& c = pbt::cov_map[(pc * 0x9e3779b1u >> 3) & (pbt::cov_size - 1)];
        if (c != 255) ++c;
    }
}

namespace pbt
{
    static unsigned char bucket(unsigned char c)
    {
        if (c == 0) return 0;
        if (c <= 3) return static_cast<unsigned char>(1u << (c - 1));
        if (c < 8) return 8;
        if (c < 16) return 16;
        if (c < 32) return 32;
        if (c < 128) return 64;
        return 128;
    }

    static bool take_new_coverage()
    {
        bool fresh = false;
        for (size_t i = 0; i < cov_size; ++i)
        {
            if (cov_map[i])
            {
                unsigned char b = bucket(cov_map[i]);
                if (b & ~cov_seen[i]) { cov_seen[i] |= b; fresh = true; }
            }
        }
        return fresh;
    }

    // ---------------------------------------------------------------- running one case

    struct Outcome
    {
        enum Kind { Pass, Fail, Discarded } kind = Pass;
        std::string msg;
    };

    static Outcome run_case(const Property& p, Src& s)
    {
        Outcome o;
        try
        {
            p.func(s);
        }
        catch (const Failure& f) { o.kind = Outcome::Fail; o.msg = f.msg; }
        catch (const Discard&) { o.kind = Outcome::Discarded; }
        catch (const std::exception& e) { o.kind = Outcome::Fail; o.msg = std::string("unexpected exception: ") + e.what(); }
        catch (...) { o.kind = Outcome::Fail; o.msg = "unexpected exception of unknown type"; }
        return o;
    }

    static void put_message(Shared* sh, const char* what, const std::string& msg)
    {
        std::snprintf(sh->what, sizeof(sh->what), "%s", what);
        std::snprintf(sh->message, sizeof(sh->message), "%s", msg.c_str());
    }

    static std::string json(const std::string& s)
    {
        std::string r = "\"";
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
            else if (c == '\n') r += "\\n";
            else if (c == '\t') r += "\\t";
            else if (c < 32 || c >= 127) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += static_cast<char>(c);
        }
        return r + "\"";
    }

    static uint64_t hash_tape(const std::vector<uint64_t>& t)
    {
        uint64_t h = 0x12345;
        for (uint64_t v : t) h = mix(h ^ v);
        return h;
    }

    struct Options
    {
        std::string tier = "quick";
        uint64_t seed = 1;
        unsigned shard = 0, shards = 1;
        std::string out;
        std::string replay;
        std::string save;
        std::string only;
        double scale = 1;
        double time_limit = 600;
        double hang = 40;
        std::string seed_tapes;
    };

    static std::vector<uint64_t> mutate(const std::vector<std::vector<uint64_t>>& corpus, uint64_t& st)
    {
        auto rnd = [&st](uint64_t n) { st = mix(st); return n == 0 ? 0 : st % n; };
        // Recent entries are more interesting.
        auto choose = [&]() -> const std::vector<uint64_t>&
        {
            size_t n = corpus.size();
            return rnd(2) ? corpus[rnd(n)] : corpus[n - 1 - rnd(std::min<size_t>(n, 16))];
        };
        std::vector<uint64_t> t = choose();
        const unsigned k = 1 + static_cast<unsigned>(rnd(4));
        for (unsigned i = 0; i < k; ++i)
        {
            if (t.empty()) break;
            switch (rnd(7))
            {
            case 0: t[rnd(t.size())] = mix(st); break;
            case 1: t[rnd(t.size())] = rnd(8); break;
            case 2: { uint64_t& v = t[rnd(t.size())]; v += rnd(2) ? 1 : ~uint64_t(0); break; }
            case 3: { size_t a = rnd(t.size()), n = 1 + rnd(std::min<size_t>(t.size() - a, 12)); t.erase(t.begin() + a, t.begin() + a + n); break; }
            case 4:
            {
                size_t a = rnd(t.size()), n = 1 + rnd(std::min<size_t>(t.size() - a, 24));
                std::vector<uint64_t> c(t.begin() + a, t.begin() + a + n);
                size_t where = rnd(t.size() + 1);
                if (t.size() < 20000) t.insert(t.begin() + where, c.begin(), c.end());
                break;
            }
            case 5:
            {
                const std::vector<uint64_t>& o = choose();
                size_t a = rnd(t.size()), b = rnd(o.size() + 1);
                t.resize(a);
                t.insert(t.end(), o.begin() + std::min(b, o.size()), o.end());
                break;
            }
            case 6: t.resize(rnd(t.size() + 1)); break;
            }
        }
        return t;
    }

    // Runs cases [from, total) of the property; writes the statistics at the end.
    [[noreturn]] static void worker(const Property& p, const Options& opt, uint64_t total, Shared* sh, const std::string& stats)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (worker_init) worker_init();

        std::map<std::string, uint64_t> labels, counters, maxima;
        Src s;
        s.shared = sh;
        s.labels = &labels;
        s.counters = &counters;
        s.maxima = &maxima;

        uint64_t name_hash = 0;
        for (const char* c = p.name; *c; ++c) name_hash = mix(name_hash ^ static_cast<unsigned char>(*c));
        const uint64_t base = mix(mix(opt.seed) ^ mix(opt.shard + 1000) ^ name_hash);

        std::vector<std::vector<uint64_t>> corpus;
        std::unordered_set<uint64_t> distinct;
        uint64_t evaluations = 0, nontrivial = 0, discarded = 0, mutated = 0;
        std::vector<std::vector<uint64_t>> sample_tapes;
        uint64_t mut_state = mix(base ^ 77);
        const auto t0 = std::chrono::steady_clock::now();
        bool timed_out = false;

        for (uint64_t i = 0; i < total; ++i)
        {
            const uint64_t seed = mix(base + i);
            if (p.guided && !corpus.empty() && (i & 1))
            {
                s.start_tape(mutate(corpus, mut_state), true, seed);
                ++mutated;
            }
            else
            {
                s.start_random(seed);
            }
            if (p.guided) { std::memset(cov_map, 0, cov_size); cov_on = true; }
            sh->in_case.store(1);
            Outcome o = run_case(p, s);
            sh->in_case.store(0);
            cov_on = false;
            ++evaluations;
            if (o.kind == Outcome::Fail)
            {
                put_message(sh, "failure", o.msg);
                _exit(77);
            }
            if (o.kind == Outcome::Discarded) ++discarded;
            else if (s.m_nontrivial)
            {
                ++nontrivial;
                if (distinct.insert(hash_tape(s.tape)).second && sample_tapes.size() < 2 && s.tape.size() < 4000 && (i % 7 == 3 || i > 50))
                    sample_tapes.push_back(s.tape);
            }
            if (p.guided && take_new_coverage() && corpus.size() < 4000)
                corpus.push_back(s.tape);
            sh->progress.fetch_add(1);
            if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > opt.time_limit) { timed_out = true; break; }
        }

        std::vector<std::string> samples;
        s.shared = nullptr;
        s.labels = nullptr;
        s.counters = nullptr;
        s.maxima = nullptr;
        for (auto& t : sample_tapes)
        {
            std::string tr;
            if (!p.threaded)
            {
                s.start_tape(t, false, 0);
                s.set_tracing(true);
                run_case(p, s);
                s.set_tracing(false);
                tr = s.m_trace;
                if (tr.size() > 1500) tr = tr.substr(0, 1500) + "...";
            }
            if (tr.empty()) // Real threads, or a target without notes.
            {
                tr = "choices:";
                for (size_t i = 0; i < t.size() && i < 60; ++i) tr += " " + std::to_string(t[i]);
                if (t.size() > 60) tr += " ...";
            }
            samples.push_back(tr);
        }

        std::ofstream out(stats);
        out << "{\"property\": " << json(p.name) << ", \"evaluations\": " << evaluations << ", \"nontrivial\": " << nontrivial
            << ", \"distinct_nontrivial\": " << distinct.size() << ", \"discarded\": " << discarded << ", \"mutated\": " << mutated
            << ", \"corpus\": " << corpus.size() << ", \"timed_out\": " << (timed_out ? "true" : "false");
        auto dump = [&out](const char* n, const std::map<std::string, uint64_t>& m)
        {
            out << ", \"" << n << "\": {";
            bool first = true;
            for (auto& [k, v] : m) { out << (first ? "" : ", ") << json(k) << ": " << v; first = false; }
            out << "}";
        };
        dump("labels", labels);
        dump("counters", counters);
        dump("maxima", maxima);
        out << ", \"samples\": [";
        for (size_t i = 0; i < samples.size(); ++i) out << (i ? ", " : "") << json(samples[i]);
        out << "]}\n";
        out.close();
        _exit(0);
    }

    struct Result
    {
        bool failed = false;
        std::string what;
        std::string msg;
        std::vector<uint64_t> tape;
    };

    static std::string stderr_file() { return scratch + "/stderr.txt"; }

    static std::string first_error_line()
    {
        std::ifstream in(stderr_file());
        std::string line, best;
        int n = 0;
        while (std::getline(in, line) && n < 40000)
        {
            ++n;
            if (line.find("ERROR: ") != std::string::npos || line.find("runtime error:") != std::string::npos ||
                line.find("Assertion") != std::string::npos || line.find("WARNING: ThreadSanitizer") != std::string::npos ||
                line.find("terminate called") != std::string::npos || line.find("sched failure") != std::string::npos || line.find("history failure") != std::string::npos)
            {
                if (best.size() < 1500) best += line + " | ";
            }
        }
        return best;
    }

    static int wait_for(pid_t pid, Shared* sh, double hang, bool& hung)
    {
        hung = false;
        uint64_t last = ~uint64_t(0);
        auto t = std::chrono::steady_clock::now();
        int status = 0;
        unsigned nap = 200;
        while (true)
        {
            pid_t r = waitpid(pid, &status, WNOHANG);
            if (r == pid) return status;
            if (r < 0 && errno != EINTR) return 0;
            uint64_t cur = sh->progress.load() * 2 + sh->in_case.load();
            auto now = std::chrono::steady_clock::now();
            if (cur != last || !sh->in_case.load()) { last = cur; t = now; }
            else if (std::chrono::duration<double>(now - t).count() > hang)
            {
                hung = true;
                kill(pid, SIGKILL);
                waitpid(pid, &status, 0);
                return status;
            }
            usleep(nap);
            if (nap < 20000) nap = nap * 5 / 4;
        }
    }

    static void redirect_stderr(bool truncate)
    {
        int fd = open(stderr_file().c_str(), O_WRONLY | O_CREAT | (truncate ? O_TRUNC : O_APPEND), 0600);
        if (fd >= 0) { dup2(fd, 2); close(fd); }
    }

    static Result classify(int status, bool hung, Shared* sh)
    {
        Result r;
        if (hung) { r.failed = true; r.what = "hang"; r.msg = "the case does not terminate"; }
        else if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return r;
        else if (WIFEXITED(status) && WEXITSTATUS(status) == 77) { r.failed = true; r.what = sh->what; r.msg = sh->message; }
        else
        {
            r.failed = true;
            r.what = "crash";
            std::string e = first_error_line();
            r.msg = WIFSIGNALED(status) ? "killed by signal " + std::to_string(WTERMSIG(status)) : "exited with code " + std::to_string(WEXITSTATUS(status));
            if (!e.empty()) r.msg += ": " + e;
        }
        r.tape.assign(sh->tape, sh->tape + std::min<uint64_t>(sh->tape_len.load(), max_tape));
        return r;
    }

    // Runs one tape in a child process.
    static Result try_tape(const Property& p, const std::vector<uint64_t>& tape, Shared* sh, double hang, unsigned repeat = 1)
    {
        sh->progress = 0;
        sh->in_case = 0;
        sh->tape_len = 0;
        sh->message[0] = sh->what[0] = 0;
        pid_t pid = fork();
        if (pid == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            redirect_stderr(true);
            if (worker_init) worker_init();
            for (unsigned i = 0; i < repeat; ++i)
            {
                Src s;
                s.shared = sh;
                s.start_tape(tape, false, 0);
                sh->in_case = 1;
                Outcome o = run_case(p, s);
                if (o.kind == Outcome::Fail)
                {
                    put_message(sh, "failure", o.msg);
                    _exit(77);
                }
                sh->in_case = 0;
                sh->progress.fetch_add(1);
            }
            _exit(0);
        }
        bool hung;
        int st = wait_for(pid, sh, hang, hung);
        return classify(st, hung, sh);
    }

    static std::vector<uint64_t> shrink(const Property& p, std::vector<uint64_t> best, Result& res, Shared* sh, double hang)
    {
        const auto t0 = std::chrono::steady_clock::now();
        const double limit = 60;
        // A case takes milliseconds; a shorter wait is enough to tell whether a smaller one still hangs.
        if (res.what == "hang") hang = std::min(hang, 3.0);
        unsigned tries = 0;
        auto timeup = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > limit || tries > 4000; };
        auto attempt = [&](const std::vector<uint64_t>& t)
        {
            if (timeup()) return false;
            ++tries;
            Result r = try_tape(p, t, sh, hang, p.threaded ? 20 : 1);
            if (r.failed && r.what == res.what)
            {
                // Keep what was actually consumed.
                if (r.tape.size() < t.size()) best = r.tape; else best = t;
                res = r;
                return true;
            }
            return false;
        };
        bool progress = true;
        while (progress && !timeup())
        {
            progress = false;
            for (size_t n = best.size() / 2; n >= 1 && !timeup(); n /= 2)
            {
                for (size_t i = best.size(); i >= n && i > 0 && !timeup();)
                {
                    if (i > best.size()) { i = best.size(); if (i < n) break; }
                    std::vector<uint64_t> t = best;
                    t.erase(t.begin() + (i - n), t.begin() + i);
                    if (attempt(t)) { progress = true; i = std::min(i, best.size()); }
                    else i = i > n ? i - std::max<size_t>(1, n / 2 ? n / 2 : 1) : 0;
                }
            }
            for (size_t i = 0; i < best.size() && !timeup(); ++i)
            {
                if (best[i] == 0) continue;
                std::vector<uint64_t> t = best;
                t[i] = 0;
                if (attempt(t)) { progress = true; continue; }
                uint64_t lo = 0, hi = best[i];
                for (int k = 0; k < 12 && i < best.size() && hi - lo > 1 && !timeup(); ++k)
                {
                    uint64_t mid = lo + (hi - lo) / 2;
                    t = best;
                    t[i] = mid;
                    if (attempt(t)) { hi = mid; progress = true; }
                    else lo = mid;
                }
            }
        }
        return best;
    }

    static void save_replay(const std::string& path, const Property& p, const Result& r, const std::vector<uint64_t>& tape, const std::string& trace)
    {
        std::ofstream out(path);
        out << "property " << p.name << "\n";
        out << "tape";
        for (uint64_t v : tape) out << ' ' << v;
        out << "\n# " << r.what << ": ";
        for (char c : r.msg) out << (c == '\n' ? ' ' : c);
        out << "\n";
        std::istringstream in(trace);
        std::string line;
        while (std::getline(in, line)) out << "# " << line << "\n";
    }

    // The trace of a failing case, obtained in a child process through a file.
    static std::string trace_of(const Property& p, const std::vector<uint64_t>& tape, Shared* sh, double hang)
    {
        const std::string file = scratch + "/trace.txt";
        sh->progress = 0;
        sh->in_case = 0;
        pid_t pid = fork();
        if (pid == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            redirect_stderr(true);
            if (worker_init) worker_init();
            Src s;
            s.trace_fd = open(file.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            s.start_tape(tape, false, 0);
            s.set_tracing(true);
            sh->in_case = 1;
            run_case(p, s);
            _exit(0);
        }
        bool hung;
        wait_for(pid, sh, hang, hung);
        std::ifstream in(file);
        std::stringstream ss;
        ss << in.rdbuf();
        return ss.str();
    }

    static int main_impl(int argc, char** argv)
    {
        Options opt;
        for (int i = 1; i < argc; ++i)
        {
            std::string a = argv[i];
            auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
            if (a == "--tier") opt.tier = val();
            else if (a == "--seed") opt.seed = std::strtoull(val().c_str(), nullptr, 10);
            else if (a == "--shard") opt.shard = std::atoi(val().c_str());
            else if (a == "--shards") opt.shards = std::atoi(val().c_str());
            else if (a == "--out") opt.out = val();
            else if (a == "--save") opt.save = val();
            else if (a == "--replay") opt.replay = val();
            else if (a == "--prop") opt.only = val();
            else if (a == "--scale") opt.scale = std::atof(val().c_str());
            else if (a == "--time-limit") opt.time_limit = std::atof(val().c_str());
            else if (a == "--hang") opt.hang = std::atof(val().c_str());
            else if (a == "--known") known_ids.insert(val());
            else if (a == "--list") { for (auto& p : props()) std::printf("%s\n", p.name); return 0; }
            else { std::fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
        }

        char tmpl[] = "/tmp/pbt.XXXXXX";
        if (!mkdtemp(tmpl)) { std::perror("mkdtemp"); return 2; }
        scratch = tmpl;
        struct Cleaner { std::string d; ~Cleaner() { std::error_code ec; if (d.rfind("/tmp/pbt.", 0) == 0) std::filesystem::remove_all(d, ec); } } cleaner{ scratch };

        void* mem = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (mem == MAP_FAILED) { std::perror("mmap"); return 2; }
        Shared* sh = new (mem) Shared;

        if (!opt.replay.empty())
        {
            std::ifstream in(opt.replay);
            std::string line, name;
            std::vector<uint64_t> tape;
            while (std::getline(in, line))
            {
                std::istringstream ls(line);
                std::string k;
                ls >> k;
                if (k == "property") ls >> name;
                else if (k == "tape") { uint64_t v; while (ls >> v) tape.push_back(v); }
            }
            for (auto& p : props())
            {
                if (name == p.name)
                {
                    Result r = try_tape(p, tape, sh, opt.hang, p.threaded ? 200 : 1);
                    std::printf("%s\n%s%s: %s\n", trace_of(p, tape, sh, opt.hang).c_str(), r.failed ? "FAILED " : "passed ", r.what.c_str(), r.msg.c_str());
                    return r.failed ? 1 : 0;
                }
            }
            std::fprintf(stderr, "no such property: %s\n", name.c_str());
            return 2;
        }

        int rc = 0;
        std::vector<std::string> stats;
        const auto t0 = std::chrono::steady_clock::now();
        size_t remaining = 0;
        for (auto& p : props()) if (opt.only.empty() || opt.only == p.name) ++remaining;

        for (auto& p : props())
        {
            if (!opt.only.empty() && opt.only != p.name) continue;
            uint64_t total = static_cast<uint64_t>(static_cast<double>(opt.tier == "thorough" ? p.thorough : p.quick) * opt.scale);
            total = total / opt.shards + (opt.shard < total % opt.shards ? 1 : 0);
            Options o = opt;
            o.time_limit = std::max(5.0, (opt.time_limit - std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count()) / static_cast<double>(remaining));
            --remaining;
            sh->progress = 0;
            sh->in_case = 0;
            sh->tape_len = 0;
            const std::string file = scratch + "/stats.json";
            std::error_code ec;
            std::filesystem::remove(file, ec);
            const auto p0 = std::chrono::steady_clock::now();
            pid_t pid = fork();
            if (pid < 0) { std::perror("fork"); return 2; }
            if (pid == 0)
            {
                redirect_stderr(true);
                worker(p, o, total, sh, file);
            }
            bool hung;
            int st = wait_for(pid, sh, opt.hang, hung);
            Result r = classify(st, hung, sh);
            const double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - p0).count();
            if (r.failed)
            {
                const uint64_t done = sh->progress.load();
                std::string orig = r.what + ": " + r.msg;
                std::vector<uint64_t> tape = r.tape;
                // Confirm on the unshrunk case.
                unsigned again = 0;
                const bool hangs = r.what == "hang";
                const double wait = hangs ? std::min(opt.hang, 15.0) : opt.hang;
                for (unsigned i = 0; i < (hangs ? 2 : 3); ++i)
                {
                    Result c = try_tape(p, tape, sh, wait, p.threaded ? 100 : 1);
                    if (c.failed) { ++again; if (i == 0) r = c; }
                }
                if (again == 0 && !p.threaded)
                {
                    std::fprintf(stderr, "property %s: a failure (%s) did not reproduce from its own tape\n", p.name, orig.c_str());
                    if (r.what == "hang")
                    {
                        // A stall of the machine, not of the case: go on without a verdict from this shard.
                        std::ofstream(opt.out + ".note", std::ios::app) << p.name << ": unconfirmed stall\n";
                        continue;
                    }
                    // The failure depends on the cases that ran before it in the same process. It is real; keep the
                    // seed and the shard as its reproduction.
                }
                else if (again != 0)
                {
                    r.tape = tape;
                    tape = shrink(p, tape, r, sh, opt.hang);
                    unsigned ok = 0;
                    for (unsigned i = 0; i < (hangs ? 1 : 3); ++i) if (try_tape(p, tape, sh, wait, p.threaded ? 100 : 1).failed) ++ok;
                    if (ok == 0) tape = r.tape;
                }
                std::string trace = trace_of(p, tape, sh, hangs ? 3 : opt.hang);
                if (!opt.save.empty())
                {
                    save_replay(opt.save + "." + p.name + ".txt", p, r, tape, trace + "\nfirst seen as: " + orig + "; after " + std::to_string(done)
                        + " cases; tier " + opt.tier + " seed " + std::to_string(opt.seed) + " shard " + std::to_string(opt.shard) + "/" + std::to_string(opt.shards)
                        + "; replays that failed: " + std::to_string(again) + "/3");
                }
                stats.push_back("{\"property\": " + json(p.name) + ", \"evaluations\": " + std::to_string(done + 1) + ", \"nontrivial\": 0, \"distinct_nontrivial\": 0, \"failed\": "
                    + json(r.what + ": " + r.msg) + ", \"wall\": " + std::to_string(wall) + "}");
                rc = 1;
                break;
            }
            std::ifstream in(file);
            std::string line;
            std::getline(in, line);
            if (line.empty()) { std::fprintf(stderr, "property %s: no statistics\n", p.name); rc = 2; break; }
            if (line.back() == '}') line.insert(line.size() - 1, ", \"wall\": " + std::to_string(wall));
            stats.push_back(line);
        }

        std::string all = "[";
        for (size_t i = 0; i < stats.size(); ++i) all += (i ? ",\n" : "") + stats[i];
        all += "]\n";
        if (!opt.out.empty()) std::ofstream(opt.out) << all;
        else std::printf("%s", all.c_str());
        return rc;
    }
}

int main(int argc, char** argv)
{
    return pbt::main_impl(argc, argv);
}
