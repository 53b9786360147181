// P17 (PART 1): what survives a crash at any point of a history of saves. P18 (PART 2): storages that meet errors and damaged files.
// P19 (PART 3): streams.
// The calls that change files are intercepted (-Wl,--wrap): recorded, and made to fail on demand.
#include "pbt.h"
#include "Awl/Io/AtomicStorage.h"
#include "Awl/Io/OptionalStorage.h"
#include "Awl/Io/PersistentObject.h"
#include "Awl/Io/HeaderedSerializable.h"
#include "Awl/Io/PlainSerializable.h"
#include "Awl/Io/HashingSerializable.h"
#include "Awl/Io/VectorStream.h"
#include "Awl/Io/StdStream.h"
#include "Awl/Io/MeasureStream.h"
#include "Awl/Io/BufferedStream.h"
#include "Awl/OptionalMutex.h"

#include <algorithm>
#include <cstdarg>
#include <cerrno>
#include <cstdio>
#include <fstream>
#include <iterator>
#include <map>
#include <memory>
#include <optional>
#include <string>

#include <fcntl.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

namespace io = awl::io;
using Bytes = std::vector<uint8_t>;

namespace
{
    enum class Kind { Write, Truncate, Sync };

    struct Op
    {
        Kind kind;
        int file;
        size_t off = 0;
        Bytes data;
        bool locked = false;
    };

    // What is done to the two files while `on`.
    struct Disk
    {
        bool on = false;
        std::map<int, int> files;           // descriptor -> 0 (master), 1 (backup)
        std::string names[2];
        std::vector<Op> ops;
        bool locked = false;                // the user's mutex is held
        size_t locked_calls = 0;

        // Faults: the calls with the numbers [fail_from, fail_to) fail.
        size_t calls = 0, fail_from = ~size_t(0), fail_to = ~size_t(0);
        unsigned fail_mask = 0;             // 1 write, 2 truncate, 4 sync, 8 read
        int error = EIO;
        bool partial = false;               // the failing write writes a part
        size_t failed = 0;
        size_t failed_reads = 0;

        static Disk& get() { static Disk d; return d; }

        int file(int fd) const
        {
            if (!on) return -1;
            auto i = files.find(fd);
            return i == files.end() ? -1 : i->second;
        }

        bool fails(unsigned kind)
        {
            if (locked) ++locked_calls;
            if (!(fail_mask & kind)) return false;
            size_t n = calls++;
            if (n < fail_from || n >= fail_to) return false;
            ++(kind == 8 ? failed_reads : failed);
            return true;
        }

        void no_faults() { fail_from = fail_to = ~size_t(0); fail_mask = 0; calls = 0; failed = failed_reads = 0; partial = false; }
    };
}

extern "C"
{
    ssize_t __real_write(int, const void*, size_t);
    ssize_t __real_pwrite(int, const void*, size_t, off_t);
    ssize_t __real_read(int, void*, size_t);
    int __real_ftruncate(int, off_t);
    int __real_fsync(int);
    int __real_open(const char*, int, ...);
    int __real_close(int);

    static ssize_t do_write(int fd, const void* p, size_t n, off_t at)
    {
        Disk& d = Disk::get();
        int f = d.file(fd);
        auto real = [&](size_t k) { return at < 0 ? __real_write(fd, p, k) : __real_pwrite(fd, p, k, at); };
        if (f < 0) return real(n);
        size_t count = n;
        if (d.fails(1))
        {
            if (!d.partial || n < 2) { errno = d.error; return -1; }
            count = n / 2;
        }
        Op op{ Kind::Write, f };
        op.off = static_cast<size_t>(at < 0 ? ::lseek(fd, 0, SEEK_CUR) : at);
        op.locked = d.locked;
        ssize_t r = real(count);
        if (r > 0)
        {
            op.data.assign(static_cast<const uint8_t*>(p), static_cast<const uint8_t*>(p) + r);
            d.ops.push_back(std::move(op));
        }
        return r;
    }

    ssize_t __wrap_write(int fd, const void* p, size_t n) { return do_write(fd, p, n, -1); }
    ssize_t __wrap_pwrite(int fd, const void* p, size_t n, off_t at) { return do_write(fd, p, n, at); }
    ssize_t __wrap_pwrite64(int fd, const void* p, size_t n, off_t at) { return do_write(fd, p, n, at); }
    ssize_t __wrap_writev(int fd, const struct iovec* v, int n)
    {
        ssize_t sum = 0;
        for (int i = 0; i < n; ++i)
        {
            ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, -1);
            if (r < 0) return sum ? sum : r;
            sum += r;
            if (static_cast<size_t>(r) != v[i].iov_len) break;
        }
        return sum;
    }

    static int do_truncate(int fd, off_t n)
    {
        Disk& d = Disk::get();
        int f = d.file(fd);
        if (f >= 0)
        {
            if (d.fails(2)) { errno = d.error; return -1; }
            Op op{ Kind::Truncate, f };
            op.off = static_cast<size_t>(n);
            op.locked = d.locked;
            d.ops.push_back(std::move(op));
        }
        return __real_ftruncate(fd, n);
    }
    int __wrap_ftruncate(int fd, off_t n) { return do_truncate(fd, n); }
    int __wrap_ftruncate64(int fd, off_t n) { return do_truncate(fd, n); }

    static int do_sync(int fd)
    {
        Disk& d = Disk::get();
        int f = d.file(fd);
        if (f < 0) return __real_fsync(fd);
        if (d.fails(4)) { errno = d.error; return -1; }
        Op op{ Kind::Sync, f };
        op.locked = d.locked;
        d.ops.push_back(std::move(op));
        return 0;
    }
    int __wrap_fsync(int fd) { return do_sync(fd); }
    int __wrap_fdatasync(int fd) { return do_sync(fd); }

    ssize_t __wrap_read(int fd, void* p, size_t n)
    {
        Disk& d = Disk::get();
        if (d.file(fd) >= 0 && d.fails(8)) { errno = d.error; return -1; }
        return __real_read(fd, p, n);
    }

    static int do_open(const char* name, int flags, mode_t mode)
    {
        Disk& d = Disk::get();
        int fd = __real_open(name, flags, mode);
        if (fd >= 0 && d.on)
        {
            for (int i = 0; i < 2; ++i)
            {
                if (d.names[i] != name) continue;
                d.files[fd] = i;
                if (flags & O_TRUNC) { Op op{ Kind::Truncate, i }; d.ops.push_back(op); }
            }
        }
        return fd;
    }
    int __wrap_open(const char* name, int flags, ...)
    {
        va_list a; va_start(a, flags); mode_t m = flags & O_CREAT ? static_cast<mode_t>(va_arg(a, int)) : 0; va_end(a);
        return do_open(name, flags, m);
    }
    int __wrap_open64(const char* name, int flags, ...)
    {
        va_list a; va_start(a, flags); mode_t m = flags & O_CREAT ? static_cast<mode_t>(va_arg(a, int)) : 0; va_end(a);
        return do_open(name, flags, m);
    }
    int __wrap_close(int fd)
    {
        Disk::get().files.erase(fd);
        return __real_close(fd);
    }
}

namespace
{
    struct Silent : awl::Logger
    {
        size_t warnings = 0, all = 0;
        void log(awl::LogLevel level, awl::LogString) override { ++all; if (level == awl::LogLevel::Warning) ++warnings; }
    };

    struct Entry
    {
        std::string key;
        int64_t n = 0;
        AWL_REFLECT(key, n)
        bool operator==(const Entry&) const = default;
    };

    struct Settings
    {
        uint64_t id = 0;
        std::string text = "default";
        std::map<std::string, Entry> entries;
        std::vector<uint32_t> numbers;
        AWL_REFLECT(id, text, entries, numbers)
        bool operator==(const Settings&) const = default;
    };

    // With blocks of the usual size, the values can be longer than a block.
    bool large_values = false;

    Settings make(pbt::Src& s, uint64_t id)
    {
        Settings v;
        v.id = id;
        v.text = std::string(large_values && s.chance(1, 8) ? 65000 + s.below(s.flag() ? 1000 : 140000) : s.length(40), static_cast<char>('a' + id % 26));
        if (v.text.size() > 60000) s.label("longer than a block of the usual size");
        for (size_t n = s.length(4); n; --n) { std::string k = pbt::str("k", n, "-", id); v.entries[k] = { k, static_cast<int64_t>(id * n) }; }
        v.numbers.assign(s.length(12), static_cast<uint32_t>(id));
        return v;
    }

    using HI = io::HashInputStream<awl::crypto::Crc64, io::SequentialInputStream>;
    using HO = io::HashOutputStream<awl::crypto::Crc64, io::SequentialOutputStream>;

    // An object that can be saved, in one of three ways.
    struct Object
    {
        Settings value;
        io::PlainSerializable<Settings, HI, HO> plain{ value };
        io::HashingSerializable<> hashing;
        io::EuphoricallySerializable<Settings> euphoric;
        io::HeaderedSerializable<Settings> headered;
        int kind;
        Object(int kind, size_t bs) : hashing(plain, bs), euphoric(value, bs), headered({ "settings", 3 }, value, bs), kind(kind) {}
        io::Serializable<>& ser()
        {
            if (kind == 0) return hashing;
            if (kind == 1) return euphoric;
            return headered;
        }
        bool snapshots() const { return kind != 0; }
    };

    void put(const std::string& name, const Bytes& b)
    {
        std::ofstream f(name, std::ios::binary | std::ios::trunc);
        f.write(reinterpret_cast<const char*>(b.data()), static_cast<std::streamsize>(b.size()));
    }
    Bytes file(const std::string& name)
    {
        std::ifstream f(name, std::ios::binary);
        return Bytes(std::istreambuf_iterator<char>(f), {});
    }
    bool exists(const std::string& name) { return ::access(name.c_str(), F_OK) == 0; }
    const std::string& dir()
    {
        static std::string d = pbt::scratch_dir();
        return d;
    }
}

#if PART == 1
namespace
{
    void redo(Bytes& b, const Op& op, size_t count = ~size_t(0))
    {
        if (op.kind == Kind::Truncate) b.resize(op.off);
        else if (op.kind == Kind::Write)
        {
            count = std::min(count, op.data.size());
            if (count == 0) return;
            if (b.size() < op.off + count) b.resize(op.off + count);
            std::copy(op.data.begin(), op.data.begin() + static_cast<std::ptrdiff_t>(count), b.begin() + static_cast<std::ptrdiff_t>(op.off));
        }
    }

    struct Files { Bytes f[2]; };

    constexpr uint64_t NOTHING = 0;        // "no value has ever been saved"

    struct Machine
    {
        pbt::Src& s;
        const int kind;
        const size_t bs;
        const std::string names[2] = { dir() + "/m.dat", dir() + "/m.bak" };
        Disk& d = Disk::get();
        Silent log;

        std::map<uint64_t, Settings> values;    // by id
        std::set<uint64_t> allowed{ NOTHING };  // what may be found now
        uint64_t next = 1;

        Files base;                             // what was on the disk before d.ops
        std::unique_ptr<io::AtomicStorage> storage;
        std::optional<Object> obj;
        bool clean = true;                      // a Save of a fresh process needs a Load first, unless the last one succeeded
        bool loaded = false;
        size_t crashes = 0, faults = 0, recovered = 0;

        Machine(pbt::Src& src) : s(src), kind(static_cast<int>(src.draw(2))), bs(s.chance(1, 12) ? io::defaultBlockSize : 9 + s.below(s.flag() ? 24 : 120))
        {
            d = Disk();
            for (int i = 0; i < 2; ++i) { ::unlink(names[i].c_str()); d.names[i] = names[i]; }
            large_values = bs == io::defaultBlockSize;
            obj.emplace(kind, bs);
            s.note(kind == 0 ? "plain" : kind == 1 ? "with prototypes" : "with a header", ", blocks of ", bs, " bytes");
        }
        ~Machine()
        {
            d.on = false;
            storage.reset();
            d = Disk();
            for (auto& n : names) ::unlink(n.c_str());
        }

        std::string list() const
        {
            std::string r;
            for (uint64_t v : allowed) r += (r.empty() ? "" : ", ") + (v == NOTHING ? std::string("nothing") : pbt::str("#", v));
            return r;
        }

        void open()
        {
            storage.reset();
            d.files.clear();
            d.on = true;
            storage = std::make_unique<io::AtomicStorage>(log);
            if (s.flag()) storage->Open(names[0], names[1]);
            else *storage = io::AtomicStorage(log, names[0], names[1]);
            PBT_CHECK(storage->IsOpened(), "the storage is not open");
            struct stat st[2];
            for (int i = 0; i < 2; ++i) PBT_CHECK(::stat(names[i].c_str(), &st[i]) == 0, "a file is missing");
            PBT_CHECK(storage->IsEmpty() == (st[0].st_size == 0 && st[1].st_size == 0), "IsEmpty() is ", storage->IsEmpty(), ", the files have ", st[0].st_size, " and ", st[1].st_size, " bytes");
            loaded = false;
        }

        // Loads with no faults; what is found is one of the allowed values.
        void load(const char* when)
        {
            Object& o = *obj;
            const Settings before = make(s, 1000000 + next);
            o.value = before;
            bool ok = storage->Load(o.ser());
            if (!ok)
            {
                PBT_CHECK(o.value == before, when, ": nothing was loaded, but the object was changed");
                PBT_CHECK(allowed.count(NOTHING), when, ": nothing could be loaded, ", list(), " expected");
                allowed = { NOTHING };
            }
            else
            {
                auto i = values.find(o.value.id);
                PBT_CHECK(i != values.end() && i->second == o.value, when, ": a value that was never saved was loaded (id ", o.value.id, ")");
                PBT_CHECK(allowed.count(o.value.id), when, ": #", o.value.id, " was loaded, ", list(), " expected");
                allowed = { o.value.id };
            }
            loaded = clean = true;
            if (ok) whole.insert(file(names[0]));
        }

        void set_faults(unsigned mask)
        {
            d.no_faults();
            d.fail_mask = mask & (s.flag() ? 15u : static_cast<unsigned>(s.pick<unsigned>({ 1, 2, 4, 1 | 2 | 4 })));
            if (d.fail_mask == 0) d.fail_mask = mask;
            d.fail_from = s.below(s.chance(1, 3) ? 60 : 12);
            d.fail_to = s.flag() ? d.fail_from + 1 : ~size_t(0);
            d.error = s.flag() ? ENOSPC : EIO;
            d.partial = s.flag();
        }

        struct Mutex : awl::IMutex
        {
            Machine& m;
            size_t locks = 0, unlocks = 0;
            explicit Mutex(Machine& m) : m(m) {}
            void lock() override { ++locks; m.d.locked = true; }
            void unlock() override
            {
                ++unlocks;
                m.d.locked = false;
                // Another thread gets the object.
                m.obj->value.id = 555000;
                m.obj->value.text = std::string(unlocks * 3, '!');
                m.obj->value.numbers.push_back(5);
            }
        };

        // Returns the id.
        uint64_t save(bool fault)
        {
            const uint64_t id = next++;
            values[id] = make(s, id);
            obj->value = values[id];
            if (fault) set_faults(7);
            Mutex mutex(*this);
            const bool lock = obj->snapshots() && s.flag();
            bool thrown = false;
            clean = false;
            begin();
            d.locked_calls = 0;
            try { storage->Save(obj->ser(), lock ? &mutex : nullptr); }
            catch (const io::IoException&) { thrown = true; }
            d.locked = false;
            const size_t failed = d.failed;
            if (fault)
            {
                s.note("save #", id, lock ? " with a mutex" : "", ", fault in calls ", d.fail_from, d.fail_to == d.fail_from + 1 ? "" : "..", " (mask ", d.fail_mask, d.partial ? ", partial" : "", "): ",
                    thrown ? "failed" : failed ? "succeeded" : "not reached");
                if (failed) ++faults;
                d.no_faults();
            }
            else s.note("save #", id, lock ? " with a mutex" : "");
            if (lock)
            {
                PBT_CHECK(mutex.locks == 1 && mutex.unlocks == 1, "the mutex was locked ", mutex.locks, " times and unlocked ", mutex.unlocks, " times");
                PBT_CHECK(d.locked_calls == 0, "files were written while the mutex was held");
            }
            else PBT_CHECK(obj->value == values[id], "saving changed the object");
            PBT_CHECK(!thrown || failed != 0, "Save failed without any reason");
            before = allowed;
            allowed.insert(id);
            if (!thrown) { allowed = { id }; clean = true; whole.insert(file(names[0])); }
            return id;
        }

        // The start of a step in which a crash can happen: the files as they are now.
        std::set<uint64_t> before;
        void begin()
        {
            settle();
            before = allowed;
        }
        void settle()
        {
            // All that is synced goes to the base; the rest stays in the log.
            std::vector<Op> rest;
            for (int f = 0; f < 2; ++f)
            {
                size_t last = 0;
                for (size_t i = 0; i < d.ops.size(); ++i) if (d.ops[i].file == f && d.ops[i].kind == Kind::Sync) last = i + 1;
                for (size_t i = 0; i < d.ops.size(); ++i) if (d.ops[i].file == f && i < last) { redo(base.f[f], d.ops[i]); d.ops[i].kind = Kind::Sync; }
            }
            for (auto& op : d.ops) if (op.kind != Kind::Sync) rest.push_back(std::move(op));
            d.ops = std::move(rest);
            start = d.ops.size();
        }
        size_t start = 0;   // the operations before it were done in earlier steps

        // What the disk can hold after the process is killed after n operations (and `part` bytes of one more).
        Files killed(size_t n, size_t part)
        {
            Files r = base;
            for (size_t i = 0; i < n; ++i) redo(r.f[d.ops[i].file], d.ops[i]);
            if (n < d.ops.size() && d.ops[n].kind == Kind::Write) redo(r.f[d.ops[n].file], d.ops[n], part);
            return r;
        }

        // ... after the power went off: of the operations that were not synced some were done, some were not, in part or at all.
        Files power_off(size_t n)
        {
            Files r = base;
            size_t synced[2] = { 0, 0 };
            for (size_t i = 0; i < n; ++i) if (d.ops[i].kind == Kind::Sync) synced[d.ops[i].file] = i;
            const unsigned style = static_cast<unsigned>(s.draw(3));
            for (size_t i = 0; i < n; ++i)
            {
                const Op& op = d.ops[i];
                Bytes& b = r.f[op.file];
                if (i < synced[op.file]) { redo(b, op); continue; }
                unsigned what = style == 0 ? 0 : style == 1 ? 1 : static_cast<unsigned>(s.draw(3));
                if (what == 1) redo(b, op);
                else if (what == 2) redo(b, op, s.below(op.data.size() + 1));
                else if (what == 3 && op.kind == Kind::Write && b.size() < op.off + op.data.size()) b.resize(op.off + op.data.size());   // the size without the data
            }
            return r;
        }

        void install(const Files& f)
        {
            d.on = false;
            storage.reset();
            d.files.clear();
            d.ops.clear();
            start = 0;
            for (int i = 0; i < 2; ++i) put(names[i], f.f[i]);
            base = f;
        }

        // The allowed values after a crash within the last step.
        void crash(bool finished)
        {
            const size_t total = d.ops.size();
            // A crash after the last operation is a crash after the step.
            size_t n = start + s.below(total - start + 1);
            if (s.chance(1, 5)) n = total;
            const bool power = s.flag();
            Files f = power ? power_off(n) : killed(n, n < total ? s.below(d.ops[n].data.size() + 1) : 0);
            if (n < total || !finished) { std::set<uint64_t> a = before; a.insert(after.begin(), after.end()); allowed = a; }
            s.note(power ? "power off" : "killed", " after ", n - start, " of ", total - start, " operations: ", f.f[0].size(), " and ", f.f[1].size(), " bytes left");
            install(f);
            ++crashes;
            clean = false;
        }
        std::set<uint64_t> after;
        std::set<Bytes> whole{ Bytes{} };      // what the master file was after completed saves and loads

        // Loading itself is interrupted, maybe several times.
        void recover()
        {
            for (size_t k = s.chance(1, 3) ? 1 + s.below(3) : 0; k; --k)
            {
                open();
                begin();
                after = before;
                Object& o = *obj;
                o.value = make(s, 2000000 + next);
                const Settings old = o.value;
                const bool fault = s.flag();
                // Reading fails only when the master file is whole: nothing is promised when it is torn and the backup file cannot be read.
                if (fault) set_faults(s.chance(1, 3) && whole.count(file(names[0])) ? 8 : 7);
                bool ok = false, thrown = false;
                try { ok = storage->Load(o.ser()); } catch (const io::IoException&) { thrown = true; }
                const size_t failed = d.failed, failed_reads = d.failed_reads;
                d.no_faults();
                PBT_CHECK(!thrown || failed + failed_reads != 0, "Load threw an exception without any reason");
                if (ok || !(o.value == old))
                {
                    auto i = values.find(o.value.id);
                    PBT_CHECK(i != values.end() && i->second == o.value, "an interrupted Load got a value that was never saved");
                    // A file that could not be read for a while may hide the last value, but not the one before it.
                    if (failed_reads) { allowed.insert(o.value.id); before = allowed; after = allowed; }
                    PBT_CHECK(allowed.count(o.value.id), "an interrupted Load got #", o.value.id, ", ", list(), " expected");
                }
                else if (!thrown && !failed_reads) PBT_CHECK(allowed.count(NOTHING), "nothing could be loaded, ", list(), " expected");
                if (failed + failed_reads) ++faults;
                // What was loaded with no faults stays, a crash or not.
                if (ok && !failed && !failed_reads) { allowed = before = after = { o.value.id }; }
                s.note("Load", fault ? " with a fault" : "", ok ? pbt::str(": #", o.value.id) : thrown ? ": exception" : ": nothing", ", then a crash");
                if (s.chance(1, 4) && !failed_reads && clean_session(thrown))
                {
                    // The same storage goes on.
                    s.note("... and Load again");
                    load("Load again");
                    return;
                }
                if (s.chance(1, 3) && !failed_reads)
                {
                    // The same storage is used to save, and a crash comes then.
                    clean = ok || !thrown;
                    move_storage();
                    save(s.chance(1, 3));
                    after = allowed;
                    crash(allowed.size() == 1 && before != allowed);
                    continue;
                }
                crash(false);
            }
            open();
            load("after a crash");
            s.note("recovered: ", list());
            ++recovered;
        }
        bool clean_session(bool) { return true; }

        void move_storage()
        {
            if (!s.chance(1, 4)) return;
            s.note("the storage is moved");
            if (s.flag()) storage = std::make_unique<io::AtomicStorage>(std::move(*storage));
            else
            {
                auto other = std::make_unique<io::AtomicStorage>(log);
                *other = std::move(*storage);
                storage = std::move(other);
            }
            PBT_CHECK(storage->IsOpened(), "the storage is not open after a move");
        }

        void run()
        {
            open();
            for (size_t k = 1 + s.length(7); k; --k)
            {
                move_storage();
                switch (s.draw(6))
                {
                case 0: case 1:
                    save(false);
                    after = allowed;
                    break;
                case 2: case 3:
                    save(true);
                    after = allowed;
                    break;
                case 4:
                    begin();
                    s.note("Load");
                    load("Load");
                    after = allowed;
                    break;
                case 5:
                    s.note("reopened");
                    d.on = false;
                    open();
                    if (!clean || s.flag()) load("after reopening");
                    begin();
                    after = allowed;
                    break;
                default:
                    save(s.chance(1, 3));
                    after = allowed;
                    {
                        const bool done = allowed.size() == 1 && before != allowed;
                        crash(done);
                    }
                    recover();
                    begin();
                    after = allowed;
                    break;
                }
            }
            // Every point of one more save.
            save(s.chance(1, 3));
            const std::set<uint64_t> done = allowed;
            std::set<uint64_t> both = before;
            both.insert(done.begin(), done.end());
            std::vector<Op> ops = d.ops;
            const size_t from = start;
            const Files b = base;
            const size_t step = ops.size() - from > 40 ? 1 + (ops.size() - from) / 40 : 1;
            for (size_t n = from; n <= ops.size(); n += std::min(step, std::max<size_t>(1, ops.size() - n)))
            {
                d.ops = ops;
                base = b;
                start = from;
                Files f = killed(n, n < ops.size() ? s.below(ops[n].data.size() + 1) : 0);
                install(f);
                allowed = n == ops.size() ? done : both;
                s.note("killed after ", n - from, " of ", ops.size() - from, " operations");
                open();
                load("after a crash");
                const auto found = allowed;
                if (s.chance(1, 6))
                {
                    open();
                    load("loaded once more");
                    PBT_CHECK(allowed == found, "another value was loaded later");
                }
                s.count("crash points");
            }
            if (crashes + faults != 0) s.nontrivial();
            s.count("random crashes", crashes);
            s.count("steps with faults", faults);
        }
    };
}

PBT_PROPERTY(crashes_and_faults, 9000, 150000)
{
    Machine m(s);
    m.run();
}
#elif PART == 2
namespace
{
    constexpr size_t versions = 4;
    const char* const formats[2] = { "settings", "other" };

    // The settings of other builds of the program, with the same format and version: with a field more, and with a field of another type.
    struct MoreSettings
    {
        uint64_t id = 0;
        std::string removed;
        std::string text;
        std::map<std::string, Entry> entries;
        std::vector<uint32_t> numbers;
        AWL_REFLECT(id, removed, text, entries, numbers)
    };
    struct UnknownType
    {
        uint64_t id = 0;
        std::string text;
        std::map<std::string, Entry> entries;
        std::vector<double> numbers;
        AWL_REFLECT(id, text, entries, numbers)
    };
    struct OtherType
    {
        uint64_t id = 0;
        std::string text;
        std::map<std::string, Entry> entries;
        std::string numbers;
        AWL_REFLECT(id, text, entries, numbers)
    };

    template <class T = Settings>
    Bytes encode(const T& v, size_t format, size_t version, size_t bs)
    {
        T copy = v;
        io::HeaderedSerializable<T> h({ formats[format], version }, copy, bs);
        Bytes b;
        io::VectorOutputStream out(b);
        h.Write(out);
        return b;
    }

    struct Doc
    {
        Settings value;
        size_t format, version;
    };

    // One name: the two files, as they should be.
    struct Name
    {
        std::string path;
        std::optional<Bytes> master, backup;
        bool usable;
    };

    template <class Storage>
    struct Machine
    {
        using Object = io::PersistentObject<Settings, Storage>;
        static constexpr bool optional = std::is_same_v<Storage, io::OptionalStorage>;

        struct Slot
        {
            std::unique_ptr<Object> obj;
            size_t format, version;
            int open = -1;          // the name
            Settings value;         // expected
        };

        pbt::Src& s;
        const size_t bs;
        Silent log;
        std::vector<Name> names;
        std::vector<Slot> slots{ 2 };
        std::map<Bytes, Doc> good;      // all the documents that were written
        uint64_t next = 1;
        size_t recovered = 0, refused = 0, faults = 0;
        Disk& d = Disk::get();

        explicit Machine(pbt::Src& src) : s(src), bs(src.flag() ? io::defaultBlockSize : 9 + src.below(60))
        {
            d = Disk();
            large_values = bs == io::defaultBlockSize;
            const std::string base = dir() + "/p18";
            ::mkdir(base.c_str(), 0700);
            ::mkdir((base + "/dir.dat").c_str(), 0700);
            ::mkdir((base + "/dir2.bak").c_str(), 0700);
            for (const char* n : { "/a", "/b", "/none/a", "/dir", "/dir2" })
            {
                names.push_back({ base + n, {}, {}, names.size() < 2 });
                if (names.back().usable) { ::unlink((names.back().path + ".dat").c_str()); ::unlink((names.back().path + ".bak").c_str()); }
            }
            ::unlink((base + "/dir2.dat").c_str());
            for (auto& x : slots)
            {
                x.format = s.chance(1, 5) ? 1 : 0;
                x.version = s.chance(1, 3) ? s.below(versions) : 1;
                make_object(x);
            }
        }
        ~Machine()
        {
            d.on = false;
            slots.clear();
            d = Disk();
            for (auto& n : names) if (n.usable) { ::unlink((n.path + ".dat").c_str()); ::unlink((n.path + ".bak").c_str()); }
            ::unlink((names[4].path + ".dat").c_str());
        }

        void make_object(Slot& x)
        {
            x.obj = std::make_unique<Object>(log, io::Header{ formats[x.format], x.version }, bs);
            x.open = -1;
            x.value = Settings{};
        }

        bool busy(size_t n, size_t but) const
        {
            for (size_t i = 0; i < slots.size(); ++i) if (i != but && slots[i].open == static_cast<int>(n)) return true;
            return false;
        }

        // Calls f; says whether it threw an IoException. Nothing else may be thrown, and by optional objects nothing at all.
        template <class F> bool throws(F f, const char* what)
        {
            try { f(); return false; }
            catch (const io::IoException& e)
            {
                if (optional) s.fail(pbt::str(what, " of an optional object threw an exception"));
                return true;
            }
        }

        void same_files(const Name& n, const char* when)
        {
            for (int i = 0; i < 2; ++i)
            {
                const std::string f = n.path + (i ? ".bak" : ".dat");
                const auto& m = i ? n.backup : n.master;
                PBT_CHECK(exists(f) == m.has_value(), when, ": ", i ? "backup" : "master", " file ", m ? "has disappeared" : "has appeared");
                if (m) PBT_CHECK(file(f) == *m, when, ": the ", i ? "backup" : "master", " file has ", file(f).size(), " bytes, ", m->size(), " expected, or other data");
            }
        }

        const Doc* doc(const std::optional<Bytes>& b, const Slot& x)
        {
            if (!b) return nullptr;
            auto i = good.find(*b);
            if (i == good.end() || i->second.format != x.format || i->second.version != x.version) return nullptr;
            return &i->second;
        }

        void same_value(Slot& x, const char* when)
        {
            PBT_CHECK(x.obj->value() == x.value && **x.obj == x.value && (*x.obj)->id == x.value.id && std::as_const(*x.obj).value() == x.value, when, ": the object is not as expected");
            PBT_CHECK(x.obj->is_open() == (x.open >= 0), when, ": is_open()");
        }

        void open(size_t xi)
        {
            Slot& x = slots[xi];
            const size_t ni = s.chance(1, 4) ? 2 + s.below(3) : s.below(2);
            Name& n = names[ni];
            if (n.usable && busy(ni, xi)) return;
            bool existed = false;
            bool thrown = throws([&] { existed = x.obj->open(n.path); }, "open()");
            s.note("object ", xi, ": open ", ni, n.usable ? "" : " (impossible)", thrown ? ": exception" : existed ? ": existing" : ": new");
            if (n.usable)
            {
                PBT_CHECK(!thrown, "open() failed");
                PBT_CHECK(existed == (n.master || n.backup), "open() returned ", existed);
                if (!n.master) n.master = Bytes();
                if (!n.backup) n.backup = Bytes();
                x.open = static_cast<int>(ni);
            }
            else
            {
                PBT_CHECK(thrown == !optional, "open() of an impossible name was successful");
                PBT_CHECK(!existed, "open() of an impossible name returned true");
                x.open = -1;
            }
            same_value(x, "open()");
        }

        void load(size_t xi)
        {
            Slot& x = slots[xi];
            if (x.open < 0 && !optional) return;
            bool ok = false;
            bool thrown = throws([&] { ok = x.obj->load(); }, "load()");
            PBT_CHECK(!thrown, "load() threw an exception");
            s.note("object ", xi, ": load ", ok ? "" : "failed");
            if (x.open < 0) { PBT_CHECK(!ok, "load() with no file returned true"); same_value(x, "load() with no file"); return; }
            Name& n = names[static_cast<size_t>(x.open)];
            const Doc* b = doc(n.backup, x);
            const Doc* m = doc(n.master, x);
            PBT_CHECK(ok == (b || m), "load() returned ", ok);
            if (b)
            {
                x.value = b->value;
                // It is written in the present format.
                n.master = encode(b->value, x.format, x.version, bs);
                good[*n.master] = *b;
                n.backup = Bytes();
                ++recovered;
            }
            else if (m)
            {
                x.value = m->value;
                n.backup = Bytes();
            }
            else if (!n.master->empty() || !n.backup->empty())
            {
                ++refused;
                if (!(x.obj->value() == x.value))
                {
                    // A whole document with more bytes after its last block.
                    auto longer = [&](const Bytes& f)
                    {
                        for (auto& [bytes, doc] : good)
                        {
                            if (doc.value == x.obj->value() && doc.format == x.format && doc.version == x.version && bytes.size() < f.size() && bytes.size() % bs == 0 &&
                                std::equal(bytes.begin(), bytes.end(), f.begin())) return true;
                        }
                        return false;
                    };
                    if (longer(*n.master) || longer(*n.backup)) s.known("KF-P18-trailing-bytes", "load() returned false and changed the object");
                }
            }
            same_value(x, "load()");
            same_files(n, ok ? "load()" : "load() that failed");
        }

        void change(Slot& x)
        {
            x.value = make(s, next++);
            if (s.flag()) x.obj->value() = x.value;
            else **x.obj = x.value;
        }

        void save(size_t xi)
        {
            Slot& x = slots[xi];
            if (x.open < 0 && !optional) return;
            change(x);
            s.note("object ", xi, ": save #", x.value.id);
            bool thrown = throws([&] { x.obj->save(); }, "save()");
            PBT_CHECK(!thrown, "save() failed");
            same_value(x, "save()");
            if (x.open < 0) return;
            Name& n = names[static_cast<size_t>(x.open)];
            n.master = encode(x.value, x.format, x.version, bs);
            n.backup = Bytes();
            good[*n.master] = { x.value, x.format, x.version };
            same_files(n, "save()");
        }

        // Errors in the middle: what is on the disk then is the subject of P17.
        void faulty(size_t xi)
        {
            Slot& x = slots[xi];
            if (x.open < 0) return;
            Name& n = names[static_cast<size_t>(x.open)];
            d.names[0] = n.path + ".dat";
            d.names[1] = n.path + ".bak";
            d.on = true;
            throws([&] { x.obj->open(n.path); }, "open()");
            if (!n.master) n.master = Bytes();
            if (!n.backup) n.backup = Bytes();
            d.no_faults();
            d.fail_mask = s.flag() ? 15 : static_cast<unsigned>(1 + s.draw(14));
            d.fail_from = s.below(8);
            d.fail_to = s.flag() ? d.fail_from + 1 : ~size_t(0);
            d.error = s.flag() ? ENOSPC : EIO;
            d.partial = s.flag();
            if (s.flag())
            {
                bool ok = false;
                const Settings old = x.value;
                // A document that is restored from the backup is written in the present format.
                for (const Bytes& written : { *n.master, *n.backup })
                {
                    if (const Doc* found = doc(written, x)) { const Doc copy{ found->value, x.format, x.version }; good[encode(copy.value, x.format, x.version, bs)] = copy; }
                }
                bool thrown = throws([&] { ok = x.obj->load(); }, "load()");
                s.note("object ", xi, ": load with a fault ", d.fail_from, " (mask ", d.fail_mask, "): ", thrown ? "exception" : ok ? "done" : "nothing");
                const Settings now = x.obj->value();
                if (!thrown && !ok) PBT_CHECK(now == old, "load() returned false and changed the object");
                if (ok)
                {
                    const Doc* b = doc(n.backup, x);
                    const Doc* m = doc(n.master, x);
                    PBT_CHECK((b && b->value == now) || (m && m->value == now), "load() got something else");
                }
                PBT_CHECK(!thrown || d.failed + d.failed_reads, "load() threw for no reason");
                x.value = now;
            }
            else
            {
                change(x);
                bool thrown = throws([&] { x.obj->save(); }, "save()");
                s.note("object ", xi, ": save #", x.value.id, " with a fault ", d.fail_from, " (mask ", d.fail_mask, "): ", thrown ? "exception" : "done");
                PBT_CHECK(!thrown || d.failed, "save() threw for no reason");
                Bytes e = encode(x.value, x.format, x.version, bs);
                good[e] = { x.value, x.format, x.version };
                if (!optional && !thrown) PBT_CHECK(file(d.names[0]) == e && file(d.names[1]).empty(), "save() did not report a failure");
            }
            if (d.failed + d.failed_reads) ++faults;
            d.no_faults();
            d.on = false;
            d.files.clear();
            d.ops.clear();
            same_value(x, "after a fault");
            // The object goes on working.
            if (s.flag())
            {
                change(x);
                bool thrown = throws([&] { x.obj->save(); }, "save()");
                PBT_CHECK(!thrown, "save() after a failure failed");
                n.master = encode(x.value, x.format, x.version, bs);
                n.backup = Bytes();
                good[*n.master] = { x.value, x.format, x.version };
                same_files(n, "save() after a failure");
            }
            else
            {
                x.obj->close();
                x.open = -1;
                n.master = file(n.path + ".dat");
                n.backup = file(n.path + ".bak");
                // Only whole documents are ever read.
                for (auto* f : { &n.master, &n.backup }) if (!good.count(**f)) s.label("an incomplete file was left");
            }
        }

        // Someone else changes the files.
        void damage()
        {
            const size_t ni = s.below(2);
            for (auto& x : slots)
            {
                if (x.open != static_cast<int>(ni)) continue;
                if (s.chance(1, 4)) return;
                x.obj->close();
                x.open = -1;
            }
            Name& n = names[ni];
            const bool b = s.flag();
            auto& f = b ? n.backup : n.master;
            const std::string path = n.path + (b ? ".bak" : ".dat");
            const unsigned how = static_cast<unsigned>(s.draw(8));
            Bytes x;
            switch (how)
            {
            case 7:
            {
                // A document with a type that is not known, or that is not the type of the field.
                const Settings v = make(s, next++);
                std::string numbers(v.numbers.size(), '7');
                if (s.flag()) x = encode(UnknownType{ v.id, v.text, v.entries, std::vector<double>(v.numbers.begin(), v.numbers.end()) }, 0, 1, bs);
                else x = encode(OtherType{ v.id, v.text, v.entries, numbers }, 0, 1, bs);
                break;
            }
            case 8:
            {
                // A field more.
                Doc doc{ make(s, next++), 0, 1 };
                x = encode(MoreSettings{ doc.value.id, std::string(s.length(30), 'r'), doc.value.text, doc.value.entries, doc.value.numbers }, 0, 1, bs);
                good[x] = doc;
                break;
            }
            case 0: ::unlink(path.c_str()); f.reset(); break;
            case 1: for (size_t k = s.length(80); k; --k) x.push_back(s.integer<uint8_t>()); break;
            case 2: if (f) x = *f; if (!x.empty()) x[s.below(x.size())] ^= static_cast<uint8_t>(1u << s.draw(7)); break;
            case 3: if (f) x = *f; x.resize(s.below(x.size() + 1)); break;
            case 4: if (f) x = *f; for (size_t k = 1 + s.length(20); k; --k) x.push_back(s.integer<uint8_t>()); break;
            case 5: x = b ? n.master.value_or(Bytes()) : n.backup.value_or(Bytes()); break;
            default:
            {
                // A document of some version.
                Doc doc{ make(s, next++), s.chance(1, 4) ? 1u : 0u, s.below(versions) };
                x = encode(doc.value, doc.format, doc.version, bs);
                good[x] = doc;
                break;
            }
            }
            s.note(b ? "backup " : "master ", ni, how == 0 ? " removed" : how == 1 ? " overwritten with garbage" : how == 2 ? ": a bit flipped" : how == 3 ? " truncated" : how == 4 ? ": bytes appended" :
                how == 5 ? " replaced with the other one" : how == 7 ? " replaced with a document of other types" : how == 8 ? " replaced with a document with one more field" : " replaced with another document", ", ", x.size(), " bytes");
            if (how != 0) { put(path, x); f = x; }
        }

        void run()
        {
            for (size_t k = 4 + s.length(24); k; --k)
            {
                const size_t xi = s.below(slots.size());
                Slot& x = slots[xi];
                if (x.open < 0 && s.flag()) { open(xi); if (s.chance(3, 4)) load(xi); continue; }
                switch (s.draw(10))
                {
                case 0: open(xi); break;
                case 1: damage(); break;
                case 2: case 3: load(xi); break;
                case 4: case 10: save(xi); break;
                case 5: faulty(xi); break;
                case 6:
                    x.obj->close();
                    x.open = -1;
                    same_value(x, "close()");
                    s.note("object ", xi, ": close");
                    break;
                case 7:
                {
                    const size_t ni = s.below(2);
                    if (busy(ni, xi)) break;
                    s.note("object ", xi, ": remove ", ni);
                    x.obj->remove(names[ni].path);
                    x.open = -1;
                    names[ni].master.reset();
                    names[ni].backup.reset();
                    same_value(x, "remove()");
                    same_files(names[ni], "remove()");
                    break;
                }
                case 8: damage(); break;
                default:
                    if (s.flag()) { make_object(x); s.note("object ", xi, ": a new one"); }
                    else { x.value = make(s, next++); x.obj->value() = x.value; }
                    break;
                }
            }
            if (recovered + refused + faults >= 2) s.nontrivial();
            s.count("loaded from a backup", recovered);
            s.count("documents refused", refused);
            s.count("steps with faults", faults);
        }
    };
}

PBT_PROPERTY(persistent_objects, 25000, 400000)
{
    if (s.flag()) Machine<io::AtomicStorage>(s).run();
    else Machine<io::OptionalStorage>(s).run();
}
#else
#include <dirent.h>
#include <sstream>

namespace
{
    size_t open_files()
    {
        size_t n = 0;
        DIR* p = ::opendir("/proc/self/fd");
        while (p && ::readdir(p)) ++n;
        if (p) ::closedir(p);
        return n;
    }

    Bytes random_bytes(pbt::Src& s, size_t n)
    {
        Bytes b(n);
        uint64_t x = s.integer<uint64_t>() | 1;
        for (auto& c : b) { x = x * 6364136223846793005ull + 1442695040888963407ull; c = static_cast<uint8_t>(x >> 56); }
        return b;
    }

    struct Model
    {
        std::optional<Bytes> content;
    };

    struct Slot
    {
        io::UniqueStream stream;
        int file = -1;
        size_t pos = 0;
        bool readonly = false;
    };

    template <class F> bool throws(F f)
    {
        try { f(); return false; }
        catch (const io::IoException& e) { PBT_CHECK(!e.What().empty(), "an exception with no text"); return true; }
    }

    struct Machine
    {
        pbt::Src& s;
        Disk& d = Disk::get();
        const std::string names[2] = { dir() + "/s1", dir() + "/s2" };
        Model files[2];
        std::vector<Slot> slots{ 3 };
        size_t opened, reads = 0, cut = 0, faults = 0;

        explicit Machine(pbt::Src& src) : s(src)
        {
            d = Disk();
            for (int i = 0; i < 2; ++i) { ::unlink(names[i].c_str()); d.names[i] = names[i]; }
            opened = open_files();
        }
        ~Machine()
        {
            d.on = false;
            slots.clear();
            for (auto& n : names) ::unlink(n.c_str());
        }

        void check(Slot& x)
        {
            PBT_CHECK((x.stream == io::UniqueStream{}) == (x.file < 0), "comparison with a closed stream");
            if (x.file < 0) return;
            const Bytes& b = *files[x.file].content;
            PBT_CHECK(x.stream.GetLength() == b.size(), "GetLength() is ", x.stream.GetLength(), " instead of ", b.size());
            PBT_CHECK(x.stream.GetPosition() == x.pos, "GetPosition() is ", x.stream.GetPosition(), " instead of ", x.pos);
            PBT_CHECK(x.stream.End() == (x.pos >= b.size()), "End() is ", x.stream.End(), " at ", x.pos, " of ", b.size());
        }

        size_t position(const Bytes& b) { return s.chance(1, 8) ? b.size() + s.below(20) : s.below(b.size() + 1); }

        void step()
        {
            const size_t xi = s.below(slots.size());
            Slot& x = slots[xi];
            if (x.file < 0 || s.chance(1, 12))
            {
                const int f = static_cast<int>(s.below(2));
                const bool ro = s.chance(1, 4);
                bool thrown = throws([&]
                {
                    if (ro) x.stream = io::OpenUniqueFile(names[f]);
                    else
                    {
                        io::UniqueStream n(io::CreateUniqueFile(names[f]));
                        PBT_CHECK(io::OpenedExisting() == files[f].content.has_value(), "OpenedExisting() is ", io::OpenedExisting());
                        x.stream = std::move(n);
                        PBT_CHECK(n == io::UniqueStream{}, "a stream that was moved from is still open");
                    }
                });
                s.note("stream ", xi, ro ? ": opens for reading " : ": opens ", f, thrown ? ", exception" : "");
                PBT_CHECK(thrown == (ro && !files[f].content), thrown ? "an existing file was not opened" : "a file that does not exist was opened");
                if (!thrown)
                {
                    if (!files[f].content) files[f].content = Bytes();
                    x.file = f;
                    x.pos = 0;
                    x.readonly = ro;
                }
                return;
            }
            Bytes& b = *files[x.file].content;
            switch (s.draw(9))
            {
            case 0: case 1:
            {
                Bytes data = random_bytes(s, s.chance(1, 30) ? 5000 + s.below(70000) : s.length(40));
                const bool fault = s.chance(1, 10);
                d.no_faults();
                if (fault) { d.fail_mask = 1; d.fail_from = 0; d.fail_to = s.flag() ? 1 : ~size_t(0); d.partial = s.flag(); d.error = s.flag() ? ENOSPC : EIO; }
                bool thrown = throws([&] { x.stream.Write(data.data(), data.size()); });
                const size_t failed = d.failed;
                d.no_faults();
                s.note("stream ", xi, ": writes ", data.size(), " bytes at ", x.pos, thrown ? ", exception" : "");
                if (x.readonly && !data.empty()) { PBT_CHECK(thrown, "a file opened for reading was written"); break; }
                if (x.readonly) break;
                PBT_CHECK(!thrown || failed, "writing failed");
                if (failed && thrown)
                {
                    // Some first part of the data may have been written.
                    ++faults;
                    const size_t now = x.stream.GetPosition();
                    PBT_CHECK(now >= x.pos && now - x.pos < std::max<size_t>(1, data.size()), "after a failure ", now - x.pos, " of ", data.size(), " bytes are written");
                    data.resize(now - x.pos);
                }
                if (!data.empty())
                {
                    if (b.size() < x.pos + data.size()) b.resize(x.pos + data.size());
                    std::copy(data.begin(), data.end(), b.begin() + static_cast<std::ptrdiff_t>(x.pos));
                    x.pos += data.size();
                }
                break;
            }
            case 2: case 3:
            {
                const size_t n = s.chance(1, 20) ? 80000 : s.length(40);
                Bytes buf(n + 1, 0xcc);
                const size_t r = x.stream.Read(buf.data(), n);
                const size_t left = x.pos >= b.size() ? 0 : b.size() - x.pos;
                PBT_CHECK(r == std::min(n, left), "Read(", n, ") at ", x.pos, " of ", b.size(), " returned ", r);
                PBT_CHECK(r == 0 || std::equal(buf.begin(), buf.begin() + static_cast<std::ptrdiff_t>(r), b.begin() + static_cast<std::ptrdiff_t>(x.pos)), "other bytes were read at ", x.pos);
                PBT_CHECK(buf[r] == 0xcc, "Read wrote beyond");
                x.pos += r;
                ++reads;
                break;
            }
            case 4:
                x.pos = position(b);
                if (s.flag()) x.stream.Seek(x.pos);
                else
                {
                    if (x.pos < b.size()) x.pos = b.size() + s.below(4);
                    x.stream.Seek(x.pos - b.size(), false);
                }
                s.note("stream ", xi, ": seeks ", x.pos);
                break;
            case 5:
            {
                if (s.chance(1, 6))
                {
                    bool thrown = throws([&] { x.stream.Move(-static_cast<std::ptrdiff_t>(x.pos) - 1); });
                    PBT_CHECK(thrown, "moving before the beginning was successful");
                    break;
                }
                const size_t to = position(b);
                x.stream.Move(static_cast<std::ptrdiff_t>(to) - static_cast<std::ptrdiff_t>(x.pos));
                s.note("stream ", xi, ": moves from ", x.pos, " to ", to);
                x.pos = to;
                break;
            }
            case 6:
            {
                bool thrown = throws([&] { x.stream.Truncate(); });
                PBT_CHECK(thrown == x.readonly, "Truncate()");
                s.note("stream ", xi, ": truncates at ", x.pos);
                if (!thrown) { if (x.pos < b.size()) ++cut; b.resize(x.pos); }
                break;
            }
            case 7: x.stream.Flush(); break;
            case 8:
            {
                Slot& y = slots[s.below(slots.size())];
                s.note("stream ", xi, " is moved to ", &y - slots.data());
                if (&x == &y) { io::UniqueStream& r = x.stream; x.stream = std::move(r); break; }
                if (s.flag()) y.stream = std::move(x.stream);
                else { io::UniqueStream t(std::move(x.stream)); y.stream = std::move(t); }
                y.file = x.file;
                y.pos = x.pos;
                y.readonly = x.readonly;
                x.file = -1;
                break;
            }
            default:
                if (s.flag()) { x.stream = {}; x.file = -1; }
                else
                {
                    // A closed stream refuses everything.
                    io::UniqueStream c;
                    uint8_t byte = 0;
                    PBT_CHECK(throws([&] { c.Read(&byte, 1); }) && throws([&] { c.Write(&byte, 1); }) && throws([&] { c.Seek(0); }) && throws([&] { c.Move(1); }) && throws([&] { c.Truncate(); }) &&
                        throws([&] { c.Flush(); }) && throws([&] { c.GetLength(); }) && throws([&] { c.GetPosition(); }) && throws([&] { c.End(); }), "a closed stream did not refuse");
                }
                break;
            }
        }

        void run()
        {
            d.on = true;
            for (size_t k = 3 + s.length(40); k; --k)
            {
                step();
                for (auto& x : slots) check(x);
            }
            size_t n = 0;
            for (auto& x : slots) if (x.file >= 0) ++n;
            PBT_CHECK(open_files() == opened + n, open_files() - opened, " files are open, ", n, " streams");
            slots.clear();
            PBT_CHECK(open_files() == opened, "files are left open");
            d.on = false;
            for (int i = 0; i < 2; ++i)
            {
                PBT_CHECK(exists(names[i]) == files[i].content.has_value(), "file ", i);
                if (files[i].content) PBT_CHECK(file(names[i]) == *files[i].content, "file ", i, " has other contents");
            }
            if (reads > 1 && cut) s.nontrivial();
            s.count("failed writings", faults);
        }
    };

    // All the sequential streams in a chain of writings and readings of any sizes.
    void write_all(pbt::Src& s, io::SequentialOutputStream& out, const Bytes& data)
    {
        for (size_t pos = 0; pos != data.size();)
        {
            size_t n = std::min(data.size() - pos, s.chance(1, 10) ? size_t(0) : 1 + s.length(50));
            out.Write(data.data() + pos, n);
            pos += n;
        }
    }
    void read_all(pbt::Src& s, io::SequentialInputStream& in, const Bytes& data, const char* what)
    {
        Bytes got;
        for (size_t k = 0; got.size() != data.size() || k == 0; ++k)
        {
            if (s.chance(1, 3)) PBT_CHECK(in.End() == (got.size() == data.size()), what, ": End() at ", got.size(), " of ", data.size());
            const size_t n = s.chance(1, 10) ? 0 : 1 + s.length(60);
            Bytes buf(n + 1, 0xaa);
            const size_t r = in.Read(buf.data(), n);
            PBT_CHECK(r == std::min(n, data.size() - got.size()), what, ": Read(", n, ") at ", got.size(), " of ", data.size(), " returned ", r);
            PBT_CHECK(buf[r] == 0xaa, what, ": Read wrote beyond");
            got.insert(got.end(), buf.begin(), buf.begin() + static_cast<std::ptrdiff_t>(r));
        }
        PBT_CHECK(got == data, what, ": other data");
        PBT_CHECK(in.End(), what, ": End() at the end");
        uint8_t c;
        PBT_CHECK(in.Read(&c, 1) == 0 && in.End(), what, ": a byte after the end");
    }
}

// Positions beyond 2 and 4 GB: a file with holes against a map of the bytes that were written.
PBT_PROPERTY(large_files, 6000, 100000)
{
    const std::string name = dir() + "/large";
    ::unlink(name.c_str());
    struct Remove { const std::string& n; ~Remove() { ::unlink(n.c_str()); } } remove{ name };
    io::UniqueStream f(io::CreateUniqueFile(name));
    std::map<uint64_t, uint8_t> bytes;
    uint64_t pos = 0, length = 0;
    std::vector<uint64_t> marks{ 0, 1ull << 31, 1ull << 32, (1ull << 31) - 3, (1ull << 32) + 5, 3ull << 32 };
    auto place = [&]() -> uint64_t
    {
        uint64_t p = marks[s.below(marks.size())] + s.below(12);
        if (s.flag()) p += (s.below(3)) << 31;
        return p;
    };
    size_t large = 0;
    for (size_t k = 3 + s.length(14); k; --k)
    {
        switch (s.draw(6))
        {
        case 0: { const uint64_t p = place(); f.Seek(p); pos = p; s.note("seeks ", p); break; }
        case 1:
        {
            const uint64_t over = s.flag() ? s.below(10) : place();
            f.Seek(over, false);
            pos = length + over;
            s.note("seeks ", over, " after the end");
            break;
        }
        case 2:
        {
            const uint64_t p = s.flag() ? place() : pos - std::min<uint64_t>(pos, s.below(20));
            f.Move(static_cast<std::ptrdiff_t>(p) - static_cast<std::ptrdiff_t>(pos));
            s.note("moves from ", pos, " to ", p);
            pos = p;
            break;
        }
        case 3: case 4:
        {
            Bytes data = random_bytes(s, 1 + s.below(8));
            f.Write(data.data(), data.size());
            s.note("writes ", data.size(), " bytes at ", pos);
            for (uint8_t c : data) bytes[pos++] = c;
            length = std::max(length, pos);
            marks.push_back(pos - data.size());
            break;
        }
        case 5:
        {
            Bytes buf(1 + s.below(16), 0xcc);
            const size_t r = f.Read(buf.data(), buf.size());
            const uint64_t left = pos >= length ? 0 : length - pos;
            PBT_CHECK(r == std::min<uint64_t>(left, buf.size()), "Read at ", pos, " of ", length, " returned ", r);
            for (size_t i = 0; i < r; ++i)
            {
                auto b = bytes.find(pos + i);
                PBT_CHECK(buf[i] == (b == bytes.end() ? 0 : b->second), "another byte was read at ", pos + i);
            }
            pos += r;
            break;
        }
        default:
            f.Truncate();
            length = pos;
            bytes.erase(bytes.lower_bound(pos), bytes.end());
            s.note("truncates at ", pos);
            break;
        }
        if (pos > ~uint32_t(0) || length > ~uint32_t(0)) ++large;
        PBT_CHECK(f.GetPosition() == pos, "GetPosition() is ", f.GetPosition(), " instead of ", pos);
        PBT_CHECK(f.GetLength() == length, "GetLength() is ", f.GetLength(), " instead of ", length);
        PBT_CHECK(f.End() == (pos >= length), "End() is ", f.End(), " at ", pos, " of ", length);
    }
    if (large) s.nontrivial();
}
PBT_PROPERTY(native_streams, 12000, 200000)
{
    Machine m(s);
    m.run();
}

PBT_PROPERTY(sequential_streams, 12000, 200000)
{
    const Bytes data = random_bytes(s, s.flag() ? s.length(200) : s.below(600));
    const Bytes first = random_bytes(s, s.length(10));
    io::MeasureStream measure;
    write_all(s, measure, data);
    PBT_CHECK(measure.GetLength() == data.size(), "measured ", measure.GetLength(), " of ", data.size());
    if (data.size() > 100) s.nontrivial();
    const size_t bs = 1 + s.below(70);
    switch (s.draw(4))
    {
    case 0:
    {
        Bytes v = first;
        io::VectorOutputStream out(v);
        write_all(s, out, data);
        Bytes all = first;
        all.insert(all.end(), data.begin(), data.end());
        PBT_CHECK(v == all, "VectorOutputStream does not append");
        io::VectorInputStream in(v);
        read_all(s, in, all, "VectorInputStream");
        break;
    }
    case 1:
    {
        std::stringstream str(std::ios::in | std::ios::out | std::ios::binary);
        io::StdOutputStream out(str);
        write_all(s, out, data);
        PBT_CHECK(str.str() == std::string(data.begin(), data.end()), "StdOutputStream wrote something else");
        io::StdInputStream in(str);
        read_all(s, in, data, "StdInputStream");
        std::stringstream bad(std::ios::in | std::ios::out | std::ios::binary);
        bad.setstate(std::ios::badbit);
        io::StdOutputStream bad_out(bad);
        PBT_CHECK(throws([&] { bad_out.Write(first.data(), first.size()); }), "a writing to a bad stream was not reported");
        break;
    }
    case 2:
    {
        Bytes v;
        io::VectorOutputStream vout(v);
        {
            io::BufferedOutputStream out(vout, bs);
            write_all(s, out, data);
            if (s.flag()) out.Flush();
        }
        PBT_CHECK(v == data, "BufferedOutputStream wrote something else");
        io::VectorInputStream vin(v);
        io::BufferedInputStream in(vin, bs);
        read_all(s, in, data, "BufferedInputStream");
        break;
    }
    default:
    {
        const std::string name = dir() + "/s3";
        ::unlink(name.c_str());
        {
            io::UniqueStream file(io::CreateUniqueFile(name));
            if (s.flag()) write_all(s, file, data);
            else { io::BufferedOutputStream out(file, bs); write_all(s, out, data); }
        }
        io::UniqueStream file(io::OpenUniqueFile(name));
        if (s.flag()) read_all(s, file, data, "UniqueStream");
        else { io::BufferedInputStream in(file, bs); read_all(s, in, data, "buffered UniqueStream"); }
        ::unlink(name.c_str());
        break;
    }
    }
}
#endif
