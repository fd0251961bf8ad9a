#pragma once
#include <cmath>
#include <cstdint>
#include <functional>
#include <ostream>
#include <stdexcept>
namespace ros {
template<class T> struct DurationOps {
    int32_t sec = 0, nsec = 0;
    DurationOps() = default;
    DurationOps(int32_t s, int32_t n) { int64_t t = int64_t(s) * 1000000000ll + n; fromNSec(t); }
    explicit DurationOps(double t) { fromSecD(t); }
    T& fromNSec(int64_t t) {
        int64_t s = t / 1000000000ll, n = t % 1000000000ll;
        if (n < 0) { n += 1000000000ll; --s; }
        sec = int32_t(s); nsec = int32_t(n);
        return static_cast<T&>(*this);
    }
    void fromSecD(double d) {
        int64_t s = static_cast<int64_t>(std::floor(d));
        int64_t n = static_cast<int64_t>(std::round((d - s) * 1e9));
        s += n / 1000000000l; n %= 1000000000l;
        sec = int32_t(s); nsec = int32_t(n);
    }
    T& fromSec(double d) { fromSecD(d); return static_cast<T&>(*this); }
    double toSec() const { return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec); }
    int64_t toNSec() const { return int64_t(sec) * 1000000000ll + nsec; }
    bool isZero() const { return sec == 0 && nsec == 0; }
    T operator+(const T& o) const { T r; r.fromNSec(toNSec() + o.toNSec()); return r; }
    T operator-(const T& o) const { T r; r.fromNSec(toNSec() - o.toNSec()); return r; }
    T operator-() const { T r; r.fromNSec(-toNSec()); return r; }
    T operator*(double k) const { return T(toSec() * k); }
    T& operator+=(const T& o) { return fromNSec(toNSec() + o.toNSec()); }
    T& operator-=(const T& o) { return fromNSec(toNSec() - o.toNSec()); }
    bool operator==(const T& o) const { return toNSec() == o.toNSec(); }
    bool operator!=(const T& o) const { return toNSec() != o.toNSec(); }
    bool operator<(const T& o) const { return toNSec() < o.toNSec(); }
    bool operator>(const T& o) const { return toNSec() > o.toNSec(); }
    bool operator<=(const T& o) const { return toNSec() <= o.toNSec(); }
    bool operator>=(const T& o) const { return toNSec() >= o.toNSec(); }
};
struct Duration : DurationOps<Duration> {
    using DurationOps<Duration>::DurationOps;
    Duration() = default;
    bool sleep() const;
};
struct WallDuration : DurationOps<WallDuration> {
    using DurationOps<WallDuration>::DurationOps;
    WallDuration() = default;
    bool sleep() const;
};
template<class T, class D> struct TimeOps {
    uint32_t sec = 0, nsec = 0;
    TimeOps() = default;
    TimeOps(uint32_t s, uint32_t n) { fromNSec(uint64_t(s) * 1000000000ull + n); }
    explicit TimeOps(double t) { fromSecD(t); }
    T& fromNSec(uint64_t t) { sec = uint32_t(t / 1000000000ull); nsec = uint32_t(t % 1000000000ull); return static_cast<T&>(*this); }
    void fromSecD(double t) {
        int64_t s = static_cast<int64_t>(std::floor(t));
        if (s < 0 || s > UINT32_MAX) throw std::runtime_error("Time is out of dual 32-bit range");
        int64_t n = static_cast<int64_t>(std::round((t - s) * 1e9));
        s += n / 1000000000l; n %= 1000000000l;
        sec = uint32_t(s); nsec = uint32_t(n);
    }
    T& fromSec(double t) { fromSecD(t); return static_cast<T&>(*this); }
    double toSec() const { return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec); }
    uint64_t toNSec() const { return uint64_t(sec) * 1000000000ull + nsec; }
    bool isZero() const { return sec == 0 && nsec == 0; }
    D operator-(const T& o) const { D d; d.fromNSec(int64_t(toNSec()) - int64_t(o.toNSec())); return d; }
    T operator+(const D& d) const {
        int64_t t = int64_t(toNSec()) + d.toNSec();
        if (t < 0) throw std::runtime_error("Time is out of dual 32-bit range");
        T r; r.fromNSec(uint64_t(t)); return r;
    }
    T operator-(const D& d) const { return *this + (-d); }
    T& operator+=(const D& d) { *this = *this + d; return static_cast<T&>(*this); }
    T& operator-=(const D& d) { *this = *this + (-d); return static_cast<T&>(*this); }
    bool operator==(const T& o) const { return toNSec() == o.toNSec(); }
    bool operator!=(const T& o) const { return toNSec() != o.toNSec(); }
    bool operator<(const T& o) const { return toNSec() < o.toNSec(); }
    bool operator>(const T& o) const { return toNSec() > o.toNSec(); }
    bool operator<=(const T& o) const { return toNSec() <= o.toNSec(); }
    bool operator>=(const T& o) const { return toNSec() >= o.toNSec(); }
    TimeOps& operator=(const TimeOps&) = default;
    TimeOps(const TimeOps&) = default;
};
struct Time : TimeOps<Time, Duration> {
    using TimeOps<Time, Duration>::TimeOps;
    Time() = default;
    Time(const TimeOps<Time, Duration>& o) : TimeOps<Time, Duration>(o) {}
    static Time now();
    static void init() {}
};
struct WallTime : TimeOps<WallTime, WallDuration> {
    using TimeOps<WallTime, WallDuration>::TimeOps;
    WallTime() = default;
    static WallTime now();
};
struct Rate {
    explicit Rate(double hz) : period(1.0 / hz), start(Time::now()) {}
    explicit Rate(const Duration& d) : period(d), start(Time::now()) {}
    bool sleep() {
        Time end = start + period, now = Time::now();
        Duration left = end - now;
        const bool late = left <= Duration();
        start = late && (now - end) > period ? now : end;
        if (!late) left.sleep();
        return !late;
    }
    void reset() { start = Time::now(); }
    Duration expectedCycleTime() const { return period; }
    Duration period; Time start;
};
typedef Rate WallRate;
inline std::ostream& operator<<(std::ostream& o, const Time& t) { return o << t.sec << "." << t.nsec; }
inline std::ostream& operator<<(std::ostream& o, const Duration& t) { return o << t.sec << "." << t.nsec; }
inline std::ostream& operator<<(std::ostream& o, const WallTime& t) { return o << t.sec << "." << t.nsec; }
inline std::ostream& operator<<(std::ostream& o, const WallDuration& t) { return o << t.sec << "." << t.nsec; }
}
