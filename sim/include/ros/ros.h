#pragma once
#include <boost/shared_ptr.hpp>
#include <cstdint>
#include <functional>
#include <memory>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

#include "ros/time.h"
#include "ros/xmlrpc.h"
#include "sim.hpp"
#include "std_msgs/Header.h"

namespace ros {
// ------------------------------------------------------------------ type traits
namespace message_traits {
template<class M, class = void> struct StampOf { static sim::Nanos get(const void*) { return -1; } };
template<class M> struct StampOf<M, std::enable_if_t<std::is_same<std::decay_t<decltype(std::declval<M>().header.stamp)>, ros::Time>::value>> {
    static sim::Nanos get(const void* p) { return sim::Nanos(static_cast<const M*>(p)->header.stamp.toNSec()); }
};
}
// Wire representation; specialised for point cloud types in pcl_ros/point_cloud.h
template<class M, class = void> struct Wire {
    typedef M Canon;
    static std::shared_ptr<const Canon> to(const std::shared_ptr<const M>& m) { return m; }
    static std::shared_ptr<const M> from(const std::shared_ptr<const Canon>& m) { return m; }
};
template<class M> struct OpsFor {
    typedef typename Wire<M>::Canon Canon;
    static sim::AnyMsg to(const sim::AnyMsg& a) { return {Wire<M>::to(std::static_pointer_cast<const M>(a.p)), &typeid(Canon)}; }
    static sim::AnyMsg from(const sim::AnyMsg& a) { return {Wire<M>::from(std::static_pointer_cast<const Canon>(a.p)), &typeid(M)}; }
    static sim::AnyMsg clone(const sim::AnyMsg& a) { return {std::make_shared<const M>(*static_cast<const M*>(a.p.get())), &typeid(M)}; }
    static const sim::TypeOps* get() {
        static const sim::TypeOps ops{&typeid(M), &typeid(Canon), &to, &from, &clone, &message_traits::StampOf<M>::get};
        return &ops;
    }
};
template<class M> boost::shared_ptr<const M> to_boost(const std::shared_ptr<const void>& p) {
    return boost::shared_ptr<const M>(static_cast<const M*>(p.get()), [p](const M*) {});
}
template<class M> std::shared_ptr<const M> to_std(const boost::shared_ptr<M>& p) {
    return std::shared_ptr<const M>(p.get(), [p](const M*) {});
}
// Callback argument adaptation
template<class A> struct ArgAdapter { typedef std::decay_t<A> M; static const M& conv(const sim::AnyMsg& a) { return *static_cast<const M*>(a.p.get()); } };
template<class T> struct PtrArg;
template<class T> struct PtrArgB { typedef std::remove_const_t<T> M; static boost::shared_ptr<const M> conv(const sim::AnyMsg& a) { return to_boost<M>(a.p); } };
template<class T> struct PtrArgS { typedef std::remove_const_t<T> M; static std::shared_ptr<const M> conv(const sim::AnyMsg& a) { return std::static_pointer_cast<const M>(a.p); } };
template<class T> struct ArgAdapter<const boost::shared_ptr<T>&> : PtrArgB<T> {};
template<class T> struct ArgAdapter<boost::shared_ptr<T>> : PtrArgB<T> {};
template<class T> struct ArgAdapter<const std::shared_ptr<T>&> : PtrArgS<T> {};
template<class T> struct ArgAdapter<std::shared_ptr<T>> : PtrArgS<T> {};

struct TransportHints { TransportHints& tcpNoDelay(bool = true) { return *this; } };

class Subscriber {
public:
    Subscriber() = default;
    explicit Subscriber(sim::SubPtr s) : h(new Handle{s}) {}
    void shutdown() { h.reset(); }
    std::string getTopic() const { return h ? h->s->topic : ""; }
    uint32_t getNumPublishers() const { return 1; }
    operator void*() const { return h ? (void*)1 : (void*)0; }
private:
    struct Handle { sim::SubPtr s; ~Handle() { if (s) sim::unsubscribe(s); } };
    std::shared_ptr<Handle> h;
};
class Publisher {
public:
    Publisher() = default;
    explicit Publisher(sim::PubPtr p) : p(p) {}
    std::string getTopic() const { return p ? p->topic : ""; }
    uint32_t getNumSubscribers() const { return 1; }
    bool isLatched() const { return p && p->latch; }
    void shutdown() { p.reset(); }
    operator void*() const { return p ? (void*)1 : (void*)0; }
    template<class M> void publish(const boost::shared_ptr<M>& m) const { send<std::remove_const_t<M>>(to_std<M>(m), true); }
    template<class M> void publish(const std::shared_ptr<M>& m) const { send<std::remove_const_t<M>>(m, true); }
    template<class M> void publish(const M& m) const { send<M>(std::make_shared<const M>(m), false); }
private:
    template<class M> void send(std::shared_ptr<const void> m, bool shared) const {
        if (!p) throw std::runtime_error("publish on invalid publisher");
        if (!m) throw std::runtime_error("publish of null message");
        sim::AnyMsg a{m, &typeid(M)};
        if (*p->ops->type != typeid(M)) {
            if (*p->ops->canon != *OpsFor<M>::get()->canon) throw std::runtime_error("publish of wrong type on " + p->topic);
            a = p->ops->from_canon(OpsFor<M>::get()->to_canon(a));
            shared = false;
        }
        sim::publish(p, a, shared);
    }
    sim::PubPtr p;
};
class ServiceServer { public: ServiceServer() = default; explicit ServiceServer(sim::SvcPtr s) : h(new H{s}) {}
    void shutdown() { h.reset(); }
    struct H { sim::SvcPtr s; ~H() { if (s) s->removed = true; } }; std::shared_ptr<H> h; };

struct Conv {
    static bool get(const XmlRpc::XmlRpcValue& v, bool& o) { if (v.getType() == v.TypeBoolean) { o = v.b; return true; } return false; }
    static bool get(const XmlRpc::XmlRpcValue& v, int& o) {
        if (v.getType() == v.TypeInt) { o = v.i; return true; }
        if (v.getType() == v.TypeDouble) { double d = v.d; if (std::fmod(d, 1.0) < 0.5) d = std::floor(d); else d = std::ceil(d); o = int(d); return true; }
        return false; }
    static bool get(const XmlRpc::XmlRpcValue& v, double& o) {
        if (v.getType() == v.TypeInt) { o = v.i; return true; } if (v.getType() == v.TypeDouble) { o = v.d; return true; } return false; }
    static bool get(const XmlRpc::XmlRpcValue& v, float& o) { double d; if (!get(v, d)) return false; o = float(d); return true; }
    static bool get(const XmlRpc::XmlRpcValue& v, std::string& o) { if (v.getType() == v.TypeString) { o = v.s; return true; } return false; }
    static bool get(const XmlRpc::XmlRpcValue& v, XmlRpc::XmlRpcValue& o) { o = v; return v.valid(); }
    template<class T> static bool get(const XmlRpc::XmlRpcValue& v, std::vector<T>& o) {
        if (v.getType() != v.TypeArray) return false;
        std::vector<T> r; for (const auto& x : v.a) { T t; if (!get(x, t)) return false; r.push_back(t); } o = r; return true; }
};

class NodeHandle {
public:
    NodeHandle(const std::string& ns = "") : ns(ns) {}
    NodeHandle(const NodeHandle& parent, const std::string& sub) : ns(sim::resolve(parent.ns, sub)) {}
    std::string getNamespace() const { return ns; }
    std::string resolveName(const std::string& n) const { return sim::resolve(ns, n); }
    bool ok() const { return sim::ok(); }
    template<class T> bool getParam(const std::string& n, T& v) const { XmlRpc::XmlRpcValue x; return sim::get_param(sim::resolve(ns, n), x) && Conv::get(x, v); }
    bool hasParam(const std::string& n) const { XmlRpc::XmlRpcValue x; return sim::get_param(sim::resolve(ns, n), x); }
    template<class T> bool param(const std::string& n, T& v, const T& def) const { if (getParam(n, v)) return true; v = def; return false; }
    template<class T> T param(const std::string& n, const T& def) const { T v; return getParam(n, v) ? v : def; }

    template<class M> Publisher advertise(const std::string& topic, uint32_t, bool latch = false) {
        return Publisher(sim::advertise(sim::resolve(ns, topic), latch, OpsFor<M>::get())); }

    template<class A, class F> Subscriber sub_(const std::string& topic, uint32_t q, F f) {
        typedef typename ArgAdapter<A>::M M;
        return Subscriber(sim::subscribe(sim::resolve(ns, topic), q, OpsFor<M>::get(), [f](const sim::AnyMsg& a) { f(ArgAdapter<A>::conv(a)); })); }
    template<class M, class T> Subscriber subscribe(const std::string& t, uint32_t q, void (T::*fp)(const boost::shared_ptr<M const>&), T* o, const TransportHints& = TransportHints()) {
        return sub_<const boost::shared_ptr<M const>&>(t, q, [fp, o](const boost::shared_ptr<M const>& m) { (o->*fp)(m); }); }
    template<class M, class T> Subscriber subscribe(const std::string& t, uint32_t q, void (T::*fp)(const std::shared_ptr<M const>&), T* o, const TransportHints& = TransportHints()) {
        return sub_<const std::shared_ptr<M const>&>(t, q, [fp, o](const std::shared_ptr<M const>& m) { (o->*fp)(m); }); }
    template<class M, class T> Subscriber subscribe(const std::string& t, uint32_t q, void (T::*fp)(const M&), T* o, const TransportHints& = TransportHints()) {
        return sub_<const M&>(t, q, [fp, o](const M& m) { (o->*fp)(m); }); }
    template<class M> Subscriber subscribe(const std::string& t, uint32_t q, const std::function<void(const boost::shared_ptr<M const>&)>& f) {
        return sub_<const boost::shared_ptr<M const>&>(t, q, f); }

    template<class T, class Q, class R> ServiceServer advertiseService(const std::string& n, bool (T::*fp)(Q&, R&), T* o) {
        return ServiceServer(sim::advertise_service(sim::resolve(ns, n), [fp, o](void* q, void* r) { return (o->*fp)(*static_cast<Q*>(q), *static_cast<R*>(r)); })); }
private:
    std::string ns;
};

inline void init(int&, char**, const std::string&, uint32_t = 0) {}
inline bool ok() { return sim::ok(); }
inline bool isShuttingDown() { return !sim::ok(); }
void shutdown();
inline void spin() { sim::spin(); }
inline void waitForShutdown() { sim::wait_for_shutdown(); }
class AsyncSpinner {
public:
    explicit AsyncSpinner(uint32_t n) : n(n) {}
    ~AsyncSpinner() { stop(); }
    void start() { if (!started) { started = true; sim::spinner_start(int(n)); } }
    void stop() { if (started) { started = false; sim::spinner_stop(); } }
private:
    uint32_t n; bool started = false;
};
class MultiThreadedSpinner { public: explicit MultiThreadedSpinner(uint32_t n = 0) : n(n) {} void spin() { AsyncSpinner s(n); s.start(); waitForShutdown(); } uint32_t n; };
namespace topic {
template<class M> auto waitForMessage(const std::string& topic, NodeHandle& nh, Duration timeout) {
    auto box = std::make_shared<sim::AnyMsg>();
    auto s = sim::subscribe(nh.resolveName(topic), 1, OpsFor<M>::get(), [box](const sim::AnyMsg& a) { if (!box->p) *box = a; });
    const sim::Nanos end = sim::now() + timeout.toNSec();
    while (sim::ok() && !box->p && (timeout.isZero() || sim::now() < end)) sim::sleep_for(10 * sim::MS);
    sim::unsubscribe(s);
    if constexpr (boost::simcompat::std_ptr<M>::value) return std::static_pointer_cast<const M>(box->p);
    else return box->p ? to_boost<M>(box->p) : boost::shared_ptr<const M>();
}
}
}

#define SIM_LOGD_(lvl, x) do { if (sim::log_level >= 3) { std::stringstream ss_; ss_ << x; sim::log(lvl, ss_.str()); } } while (0)
#define SIM_LOG_(lvl, x) do { { std::stringstream ss_; ss_ << x; sim::log(lvl, ss_.str()); } } while (0)
#define SIM_LOGF_(lvl, ...) do { if (sim::log_level) { char b_[1024]; snprintf(b_, sizeof b_, __VA_ARGS__); sim::log(lvl, b_); } } while (0)
// As rosconsole does it: an unsynchronised flag or time per call site, which the race detector leaves to the library.
#define SIM_ONCE_(stmt) do { static bool hit_ = false; if (sim::log_gate(hit_)) { stmt; } } while (0)
#define SIM_THROTTLE_(p, stmt) do { static double last_ = -1e18; if (sim::log_gate(last_, double(p))) { stmt; } } while (0)
#define ROS_DEBUG_STREAM(x) SIM_LOGD_("DEBUG", x)
#define ROS_DEBUG_STREAM_NAMED(n, x) SIM_LOGD_("DEBUG", x)
#define ROS_DEBUG_STREAM_ONCE(x) SIM_ONCE_(SIM_LOGD_("DEBUG", x))
#define ROS_DEBUG_STREAM_COND(c, x) do { if (c) SIM_LOGD_("DEBUG", x); } while (0)
#define ROS_DEBUG_STREAM_THROTTLE(p, x) SIM_THROTTLE_(p, SIM_LOGD_("DEBUG", x))
#define ROS_DEBUG(...) SIM_LOGF_("DEBUG", __VA_ARGS__)
#define ROS_DEBUG_NAMED(n, ...) SIM_LOGF_("DEBUG", __VA_ARGS__)
#define ROS_DEBUG_ONCE(...) SIM_ONCE_(SIM_LOGF_("DEBUG", __VA_ARGS__))
#define ROS_DEBUG_COND(c, ...) do { if (c) SIM_LOGF_("DEBUG", __VA_ARGS__); } while (0)
#define ROS_DEBUG_THROTTLE(p, ...) SIM_THROTTLE_(p, SIM_LOGF_("DEBUG", __VA_ARGS__))
#define ROS_INFO_STREAM(x) SIM_LOG_("INFO", x)
#define ROS_INFO_STREAM_NAMED(n, x) SIM_LOG_("INFO", x)
#define ROS_INFO_STREAM_ONCE(x) SIM_ONCE_(SIM_LOG_("INFO", x))
#define ROS_INFO_STREAM_COND(c, x) do { if (c) SIM_LOG_("INFO", x); } while (0)
#define ROS_INFO_STREAM_THROTTLE(p, x) SIM_THROTTLE_(p, SIM_LOG_("INFO", x))
#define ROS_INFO(...) SIM_LOGF_("INFO", __VA_ARGS__)
#define ROS_INFO_NAMED(n, ...) SIM_LOGF_("INFO", __VA_ARGS__)
#define ROS_INFO_ONCE(...) SIM_ONCE_(SIM_LOGF_("INFO", __VA_ARGS__))
#define ROS_INFO_COND(c, ...) do { if (c) SIM_LOGF_("INFO", __VA_ARGS__); } while (0)
#define ROS_INFO_THROTTLE(p, ...) SIM_THROTTLE_(p, SIM_LOGF_("INFO", __VA_ARGS__))
#define ROS_WARN_STREAM(x) SIM_LOG_("WARN", x)
#define ROS_WARN_STREAM_NAMED(n, x) SIM_LOG_("WARN", x)
#define ROS_WARN_STREAM_ONCE(x) SIM_ONCE_(SIM_LOG_("WARN", x))
#define ROS_WARN_STREAM_COND(c, x) do { if (c) SIM_LOG_("WARN", x); } while (0)
#define ROS_WARN_STREAM_THROTTLE(p, x) SIM_THROTTLE_(p, SIM_LOG_("WARN", x))
#define ROS_WARN(...) SIM_LOGF_("WARN", __VA_ARGS__)
#define ROS_WARN_NAMED(n, ...) SIM_LOGF_("WARN", __VA_ARGS__)
#define ROS_WARN_ONCE(...) SIM_ONCE_(SIM_LOGF_("WARN", __VA_ARGS__))
#define ROS_WARN_COND(c, ...) do { if (c) SIM_LOGF_("WARN", __VA_ARGS__); } while (0)
#define ROS_WARN_THROTTLE(p, ...) SIM_THROTTLE_(p, SIM_LOGF_("WARN", __VA_ARGS__))
#define ROS_ERROR_STREAM(x) SIM_LOG_("ERROR", x)
#define ROS_ERROR_STREAM_NAMED(n, x) SIM_LOG_("ERROR", x)
#define ROS_ERROR_STREAM_ONCE(x) SIM_ONCE_(SIM_LOG_("ERROR", x))
#define ROS_ERROR_STREAM_COND(c, x) do { if (c) SIM_LOG_("ERROR", x); } while (0)
#define ROS_ERROR_STREAM_THROTTLE(p, x) SIM_THROTTLE_(p, SIM_LOG_("ERROR", x))
#define ROS_ERROR(...) SIM_LOGF_("ERROR", __VA_ARGS__)
#define ROS_ERROR_NAMED(n, ...) SIM_LOGF_("ERROR", __VA_ARGS__)
#define ROS_ERROR_ONCE(...) SIM_ONCE_(SIM_LOGF_("ERROR", __VA_ARGS__))
#define ROS_ERROR_COND(c, ...) do { if (c) SIM_LOGF_("ERROR", __VA_ARGS__); } while (0)
#define ROS_ERROR_THROTTLE(p, ...) SIM_THROTTLE_(p, SIM_LOGF_("ERROR", __VA_ARGS__))
#define ROS_FATAL_STREAM(x) SIM_LOG_("FATAL", x)
#define ROS_FATAL_STREAM_NAMED(n, x) SIM_LOG_("FATAL", x)
#define ROS_FATAL_STREAM_ONCE(x) SIM_ONCE_(SIM_LOG_("FATAL", x))
#define ROS_FATAL_STREAM_COND(c, x) do { if (c) SIM_LOG_("FATAL", x); } while (0)
#define ROS_FATAL_STREAM_THROTTLE(p, x) SIM_THROTTLE_(p, SIM_LOG_("FATAL", x))
#define ROS_FATAL(...) SIM_LOGF_("FATAL", __VA_ARGS__)
#define ROS_FATAL_NAMED(n, ...) SIM_LOGF_("FATAL", __VA_ARGS__)
#define ROS_FATAL_ONCE(...) SIM_ONCE_(SIM_LOGF_("FATAL", __VA_ARGS__))
#define ROS_FATAL_COND(c, ...) do { if (c) SIM_LOGF_("FATAL", __VA_ARGS__); } while (0)
#define ROS_FATAL_THROTTLE(p, ...) SIM_THROTTLE_(p, SIM_LOGF_("FATAL", __VA_ARGS__))
#define ROS_ASSERT(c) do { if (!(c)) throw std::runtime_error("ROS_ASSERT"); } while (0)
