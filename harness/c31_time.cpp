// C31: time conversions are exact and formatting is complete.
#include <amtl/am-time.h>
#include "vm.h"

#include <memory>
#include <ratio>

typedef __int128 i128;
static const i128 kBillion = 1000000000;

template <typename Rep, typename Period, int Id = 0>
struct Clock {
    typedef Rep rep;
    typedef Period period;
    typedef std::chrono::duration<Rep, Period> duration;
    typedef std::chrono::time_point<Clock> time_point;
    static const bool is_steady = false;
};
static i128 nanos(const timespec& ts) { return (i128)ts.tv_sec * kBillion + ts.tv_nsec; }
static bool representable(i128 v) { return v >= INT64_MIN && v <= INT64_MAX; }

// Cut towards zero to the clock's resolution, as nanoseconds; for clocks of num/den seconds.
template <typename C>
static void on_clock(vm::Case& c, const char* name, const timespec& ts) {
    i128 n = nanos(ts);
    i128 unit = (i128)C::period::num * kBillion / C::period::den;  // nanoseconds per tick, exact here
    i128 ticks = n / unit;
    auto tp = ke::TimespecToTimePoint<C>(ts);
    auto d = tp.time_since_epoch();
    i128 got = (i128)d.count() * decltype(d)::period::num * (kBillion / decltype(d)::period::den);
    i128 other = ticks - (n % unit < 0 ? 1 : 0);  // towards minus infinity is a cut as well
    VM_CHECK(c, got == ticks * unit || got == other * unit, "time-point", "TimespecToTimePoint<%s>(%lld s, %ld ns) is %lld ns, expected %lld", name, (long long)ts.tv_sec, ts.tv_nsec, (long long)got, (long long)(ticks * unit));
    VM_COUNT("time_points", 1);
}
static void check(vm::Case& c, const timespec& ts) {
    i128 n = nanos(ts);
    if (!representable(n))
        return;
    auto d = ke::TimespecToDuration(ts);
    VM_CHECK(c, (i128)d.count() == n, "duration", "TimespecToDuration(%lld s, %ld ns) is %lld ns", (long long)ts.tv_sec, ts.tv_nsec, (long long)d.count());
    VM_COUNT("durations", 1);
    if (n < 0)
        VM_COUNT("negative_durations", 1);
    on_clock<std::chrono::system_clock>(c, "system_clock", ts);
    on_clock<std::chrono::steady_clock>(c, "steady_clock", ts);
    on_clock<Clock<int64_t, std::micro>>(c, "microseconds", ts);
    on_clock<Clock<int64_t, std::milli>>(c, "milliseconds", ts);
    on_clock<Clock<int64_t, std::ratio<1>>>(c, "seconds", ts);
    on_clock<Clock<int64_t, std::ratio<60>>>(c, "minutes", ts);
    on_clock<Clock<int64_t, std::ratio<1, 10000000>>>(c, "100 ns", ts);
}
SCENARIO(timespecs, 1500, 40000, 0) {
    for (int i = 0; i < 200; i++) {
        timespec ts;
        uint64_t w = c.rng.wide() % 9223372037ull;
        switch (c.rng.below(4)) {
            case 0: w = c.rng.below(100); break;
            case 1: w = 9223372036ull - c.rng.below(3); break;
        }
        ts.tv_sec = c.rng.coin() ? (time_t)w : -(time_t)w - (time_t)c.rng.below(2);
        switch (c.rng.below(5)) {
            case 0: ts.tv_nsec = (long)c.rng.below(3); break;
            case 1: ts.tv_nsec = 999999999 - (long)c.rng.below(3); break;
            case 2: ts.tv_nsec = 854775807 + (long)c.rng.range(-3, 3); break;
            case 3: ts.tv_nsec = 145224192 + (long)c.rng.range(-3, 3); break;
            default: ts.tv_nsec = (long)c.rng.below(1000000000); break;
        }
        check(c, ts);
        c.sig((uint64_t)ts.tv_sec * 1000003 + ts.tv_nsec);
    }
    c.nontrivial();
}
// The limits: the first and last representable values and around zero.
SCENARIO(limits, 1, 1, 0) {
    for (int64_t base : {INT64_MIN, (int64_t)-1, (int64_t)0, INT64_MAX, (int64_t)-1000000000, (int64_t)1000000000}) {
        for (int off = -2000; off <= 2000; off++) {
            i128 n = (i128)base + off;
            if (!representable(n))
                continue;
            timespec ts;
            i128 s = n / kBillion, r = n % kBillion;
            if (r < 0)
                s--, r += kBillion;
            ts.tv_sec = (time_t)s;
            ts.tv_nsec = (long)r;
            check(c, ts);
        }
    }
    c.sig(1);
    c.nontrivial();
}
// The same in constant expressions: what overflows, or is not constexpr, is no constant.
constexpr timespec kMin = {-9223372037, 145224192}, kMax = {9223372036, 854775807}, kNeg = {-1, 999999999};
template <int N> struct DurMin { constexpr int64_t operator()() const { return ke::TimespecToDuration(kMin).count(); } };
template <int N> struct DurMax { constexpr int64_t operator()() const { return ke::TimespecToDuration(kMax).count(); } };
template <int N> struct DurNeg { constexpr int64_t operator()() const { return ke::TimespecToDuration(kNeg).count(); } };
template <int N> struct TpMax { constexpr int64_t operator()() const { return ke::TimespecToTimePoint<std::chrono::system_clock>(kMax).time_since_epoch().count(); } };
template <int N> struct TpMs { constexpr int64_t operator()() const { return ke::TimespecToTimePoint<Clock<int64_t, std::milli>>(timespec{-2, 500000000}).time_since_epoch().count(); } };
template <int N> struct Epoch5 { constexpr int64_t operator()() const { return ke::EpochValueToTimePoint<std::chrono::system_clock::time_point>(5).time_since_epoch().count(); } };
template <typename F, int64_t V = F()()>
constexpr bool constant(int64_t* out, int) { *out = V; return true; }
template <typename F>
constexpr bool constant(int64_t*, long) { return false; }
template <typename F>
static void check_constant(vm::Case& c, const char* what, int64_t want) {
    int64_t v = 0;
    VM_CHECK(c, constant<F>(&v, 0), "constant", "%s is no constant expression", what);
    VM_CHECK(c, v == want, "constant", "%s is %lld in a constant expression, expected %lld", what, (long long)v, (long long)want);
    VM_COUNT("constants", 1);
}
SCENARIO(constants, 1, 1, 0) {
    check_constant<DurMin<0>>(c, "TimespecToDuration(least)", INT64_MIN);
    check_constant<DurMax<0>>(c, "TimespecToDuration(greatest)", INT64_MAX);
    check_constant<DurNeg<0>>(c, "TimespecToDuration(-1 ns)", -1);
    check_constant<TpMax<0>>(c, "TimespecToTimePoint(greatest)", INT64_MAX);
    check_constant<TpMs<0>>(c, "TimespecToTimePoint(-1500 ms)", -1500000000LL);
    check_constant<Epoch5<0>>(c, "EpochValueToTimePoint(5)", 5);
    c.sig(1);
    c.nontrivial();
}

template <typename TP, typename T>
static void epoch(vm::Case& c, const char* name, T v) {
    TP tp = ke::EpochValueToTimePoint<TP>(v);
    VM_CHECK(c, tp.time_since_epoch().count() == static_cast<typename TP::duration::rep>(v), "epoch-value", "EpochValueToTimePoint<%s>(%lld) has %lld ticks", name, (long long)v, (long long)tp.time_since_epoch().count());
    VM_COUNT("epoch_values", 1);
}
SCENARIO(epochs, 500, 20000, 0) {
    using namespace std::chrono;
    for (int i = 0; i < 100; i++) {
        int64_t v = (int64_t)c.rng.wide();
        if (c.rng.coin())
            v = (int64_t)(0 - (uint64_t)v);
        c.sig((uint64_t)v);
        epoch<system_clock::time_point>(c, "system_clock", v);
        epoch<steady_clock::time_point>(c, "steady_clock", v);
        epoch<time_point<system_clock, seconds>>(c, "seconds", v);
        epoch<time_point<system_clock, milliseconds>>(c, "milliseconds", v);
        epoch<time_point<Clock<int64_t, std::milli>, duration<int64_t, std::ratio<3600>>>>(c, "hours", v);
        epoch<time_point<Clock<int64_t, std::pico>>>(c, "picoseconds", v);
        epoch<time_point<Clock<int32_t, std::ratio<1>>>>(c, "32-bit seconds", (int32_t)v);
        epoch<time_point<Clock<uint64_t, std::ratio<1>>>>(c, "unsigned seconds", (uint64_t)v);
        epoch<time_point<system_clock, seconds>>(c, "seconds", (int)v);
        epoch<time_point<system_clock, seconds>>(c, "seconds", (uint32_t)v);
        epoch<time_point<system_clock, seconds>>(c, "seconds", (short)v);
    }
    c.nontrivial();
}

static std::string by_strftime(const tm& t, const std::string& fmt) {
    // A leading character tells an empty result from one that did not fit.
    std::string f = "x" + fmt, out(64, '\0');
    for (;;) {
        size_t n = strftime(&out[0], out.size(), f.c_str(), &t);
        if (n)
            return out.substr(1, n - 1);
        out.resize(out.size() * 4);
    }
}
SCENARIO(formats, 3000, 80000, 0) {
    static const char* specs[] = {"%Y", "%m", "%d", "%H", "%M", "%S", "%a", "%A", "%b", "%B", "%c", "%C", "%D", "%e", "%F", "%g", "%G", "%h", "%I", "%j", "%n", "%p", "%r", "%R", "%t", "%T", "%u", "%U", "%V", "%w", "%W", "%x", "%X", "%y", "%%", "%Ey", "%EC", "%Od", "%OH", "%z", "%Z", "%Ec", "%EX", "%Ou"};
    tm t;
    memset(&t, 0, sizeof(t));
    time_t when = (time_t)(c.rng.wide() % 60000000000ull) * (c.rng.coin() ? 1 : -1);
    gmtime_r(&when, &t);
    std::string fmt;
    size_t n = c.rng.below(8);
    if (c.rng.chance(1, 6))
        n = 40 + c.rng.below(400);
    for (size_t i = 0; i < n; i++) {
        if (c.rng.coin()) {
            fmt += specs[c.rng.below(sizeof(specs) / sizeof(specs[0]))];
        } else {
            for (size_t k = c.rng.below(6); k > 0; k--) {
                char ch = (char)(1 + c.rng.below(255));
                fmt += ch == '%' ? 'p' : ch;
            }
        }
        if (c.rng.chance(1, 60))
            fmt += std::string(c.rng.below(3000), 'z');
    }
    std::string want = by_strftime(t, fmt);
    std::unique_ptr<char[]> exact(new char[fmt.size() + 1]);
    memcpy(exact.get(), fmt.c_str(), fmt.size() + 1);
    std::string a = ke::FormatTime(t, exact.get());
    std::string b = ke::FormatTime(t, fmt);
    VM_CHECK(c, a == want, "format", "FormatTime(\"%s\") gives \"%s\", strftime \"%s\"", fmt.substr(0, 200).c_str(), a.substr(0, 200).c_str(), want.substr(0, 200).c_str());
    VM_CHECK(c, b == want, "format", "FormatTime(std::string) gives something else than FormatTime(const char*)");
    VM_COUNT("formats", 1);
    if (want.size() > 128)
        VM_COUNT("long_formats", 1);
    c.sig(vm::hash_str(want.c_str()));
    c.nontrivial();
}
