#pragma once
#include <map>
#include <mutex>
#include <tuple>
#include "message_filters/subscriber.h"
namespace message_filters {
// message_filters::TimeSynchronizer with the ExactTime policy: the policy's mutex is held during add() and during the signalled callback.
template<class... Ms> class TimeSynchronizer {
    static constexpr std::size_t N = sizeof...(Ms);
    struct Tuple { sim::AnyMsg m[N]; };
public:
    explicit TimeSynchronizer(uint32_t queue_size = 0) : queue_size(queue_size) {}
    TimeSynchronizer(const TimeSynchronizer&) = delete;
    template<class... Fs> explicit TimeSynchronizer(Fs&... fs, uint32_t queue_size) : queue_size(queue_size) { connectInput(fs...); }
    template<class... Fs> void connectInput(Fs&... fs) { static_assert(sizeof...(Fs) == N); connect(std::make_index_sequence<N>(), fs...); }
    template<class F> void registerCallback(F f) { call = [f](const Tuple& t) mutable { invoke(f, t, std::make_index_sequence<N>()); }; }
    template<class C, class... A> void registerCallback(void (C::*fp)(A...), C* o) { registerCallback([fp, o](const auto&... m) { (o->*fp)(m...); }); }
    void setName(const std::string&) {}
    ~TimeSynchronizer() {}
private:
    template<std::size_t... I, class... Fs> void connect(std::index_sequence<I...>, Fs&... fs) { (connect1<I>(fs), ...); }
    template<std::size_t I, class F> void connect1(F& f) { f.registerCallback_([this](const sim::AnyMsg& a) { add<I>(a); }); names[I] = [&f] { return f.getTopic(); }; }
    template<std::size_t I> static auto arg(const Tuple& t) {
        typedef std::tuple_element_t<I, std::tuple<Ms...>> M;
        if constexpr (boost::simcompat::std_ptr<M>::value) return std::static_pointer_cast<const M>(t.m[I].p);
        else return ros::to_boost<M>(t.m[I].p);
    }
    template<class F, std::size_t... I> static void invoke(F& f, const Tuple& t, std::index_sequence<I...>) { f(arg<I>(t)...); }
    template<std::size_t I> void add(const sim::AnyMsg& a) {
        typedef std::tuple_element_t<I, std::tuple<Ms...>> M;
        const sim::Nanos t = ros::message_traits::StampOf<M>::get(a.p.get());
        std::lock_guard<std::mutex> lock(mutex);
        Tuple& tup = tuples[t];
        tup.m[I] = a;
        bool full = true;
        for (std::size_t i = 0; i < N; ++i) full = full && tup.m[i].p;
        if (full) {
            if (sim::W) { sim::Event e{}; e.kind = sim::Ev::Sync; e.topic = names[0](); e.proc = sim::current_process(); e.sub_id = int(N); e.stamp = t; sim::W->emit(e); }
            call(tup);
            last_signal = t;
            tuples.erase(t);
            // clear old tuples
            auto it = tuples.begin();
            while (it != tuples.end() && it->first <= last_signal) it = tuples.erase(it);
        }
        if (queue_size > 0) while (tuples.size() > queue_size) tuples.erase(tuples.begin());
    }
    uint32_t queue_size;
    std::mutex mutex;
    std::map<sim::Nanos, Tuple> tuples;
    sim::Nanos last_signal = 0;
    std::function<void(const Tuple&)> call;
    std::function<std::string()> names[N];
};
}
