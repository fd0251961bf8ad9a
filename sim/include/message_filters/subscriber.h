#pragma once
#include <ros/ros.h>
namespace message_filters {
template<class M> class Subscriber {
public:
    Subscriber() = default;
    Subscriber(ros::NodeHandle& nh, const std::string& topic, uint32_t q) { subscribe(nh, topic, q); }
    Subscriber(const Subscriber&) = delete;
    void subscribe(ros::NodeHandle& nh, const std::string& topic, uint32_t q, const ros::TransportHints& = ros::TransportHints()) {
        sub = ros::Subscriber(sim::subscribe(nh.resolveName(topic), q, ros::OpsFor<M>::get(), [this](const sim::AnyMsg& a) { if (cb) cb(a); }));
    }
    void unsubscribe() { sub.shutdown(); }
    std::string getTopic() const { return sub.getTopic(); }
    void registerCallback_(std::function<void(const sim::AnyMsg&)> f) { cb = std::move(f); }
    template<class F> void registerCallback(F f) { cb = [f](const sim::AnyMsg& a) mutable {
        if constexpr (boost::simcompat::std_ptr<M>::value) f(std::static_pointer_cast<const M>(a.p)); else f(ros::to_boost<M>(a.p)); }; }
    typedef M Msg;
private:
    ros::Subscriber sub;
    std::function<void(const sim::AnyMsg&)> cb;
};
}
