// Reference semantics of route segments.  Never compiled into anything that
// runs: parsed by the analysis and compared, as canonical guarded values, with
// the functions of the same name in /repo's current source.
#include "DurationSegment.h"
#include "LoadSegment.h"

#include <algorithm>
#include <limits>

namespace pyvrp::spec
{
Duration MAX() { return std::numeric_limits<Duration>::max(); }

// Doing `a`, travelling for `edge`, then doing `b`.
DurationSegment duration_merge(Duration const edge,
                               DurationSegment const &a,
                               DurationSegment const &b)
{
    Duration const offset = edge + (a.duration_ - a.timeWarp_);

    // Arriving after b can start at the latest, even when starting a as soon
    // as possible, means warping back in time; arriving before b can start at
    // the earliest, even when starting a as late as possible, means waiting.
    Duration warp = 0;
    if (b.startLate_ < a.startEarly_ + offset)
        warp = a.startEarly_ + offset - b.startLate_;

    Duration wait = 0;
    if (b.startEarly_ - offset > a.startLate_)
        wait = b.startEarly_ - offset - a.startLate_;

    Duration late = b.startLate_;  // guarded against overflow
    if (offset > b.startLate_ - MAX())
        late = b.startLate_ - offset;

    DurationSegment res;
    res.duration_ = a.duration_ + edge + wait + b.duration_;
    res.timeWarp_ = a.timeWarp_ + warp + b.timeWarp_;
    res.startEarly_ = std::max(b.startEarly_ - offset, a.startEarly_) - wait;
    res.startLate_ = std::min(late, a.startLate_) + warp;
    res.releaseTime_ = std::max(a.releaseTime_, b.releaseTime_);
    res.cumDuration_ = a.cumDuration_ + b.cumDuration_;
    res.cumTimeWarp_ = a.cumTimeWarp_ + b.cumTimeWarp_;
    res.prevEndLate_ = a.prevEndLate_;
    return res;
}

DurationSegment duration_merge0(DurationSegment const &a,
                                DurationSegment const &b)
{
    return duration_merge(0, a, b);
}

Duration duration_startEarly(DurationSegment const &self)
{
    return std::max(self.releaseTime_, self.startEarly_);
}

Duration duration_startLate(DurationSegment const &self)
{
    return std::max(self.releaseTime_, self.startLate_);
}

Duration duration_duration(DurationSegment const &self)
{
    // Includes any waiting between the end of the previous trip and the start
    // of this one.
    Duration const wait = duration_startEarly(self) - self.prevEndLate_;
    return self.cumDuration_ + self.duration_ + (wait > 0 ? wait : 0);
}

Duration duration_timeWarp(DurationSegment const &self, Duration limit)
{
    Duration warp = self.cumTimeWarp_ + self.timeWarp_;
    Duration const net = duration_duration(self) - warp;

    if (self.releaseTime_ > self.startLate_)
        warp += self.releaseTime_ - self.startLate_;
    if (net > limit)
        warp += net - limit;

    return warp;
}

Duration duration_endEarly(DurationSegment const &self)
{
    return duration_startEarly(self) + duration_duration(self)
           - self.cumDuration_
           - (duration_timeWarp(self, MAX()) - self.cumTimeWarp_);
}

Duration duration_endLate(DurationSegment const &self)
{
    Duration const net = duration_duration(self) - self.cumDuration_
                         - (duration_timeWarp(self, MAX()) - self.cumTimeWarp_);
    Duration const late = duration_startLate(self);
    return net > MAX() - late ? MAX() : late + net;
}

Duration duration_prevEndLate(DurationSegment const &self)
{
    return self.prevEndLate_;
}

Duration duration_releaseTime(DurationSegment const &self)
{
    return self.releaseTime_;
}

Duration duration_slack(DurationSegment const &self)
{
    Duration prev = self.prevEndLate_ - self.releaseTime_;
    if (prev < 0)
        prev = 0;
    return std::min(prev, duration_startLate(self) - duration_startEarly(self));
}

DurationSegment duration_finaliseFront(DurationSegment const &self)
{
    // The trip with its release times made part of its time window.
    DurationSegment window;
    window.startEarly_ = duration_startEarly(self);
    window.startLate_ = duration_startLate(self);

    DurationSegment trip;
    trip.duration_ = self.duration_;
    trip.timeWarp_ = self.timeWarp_;
    trip.startEarly_ = self.startEarly_;
    trip.startLate_ = self.startLate_;

    return duration_merge(0, window, trip);
}

DurationSegment duration_finaliseBack(DurationSegment const &self)
{
    // This trip's duration and time warp become those of past trips, and what
    // follows can start no earlier than this trip ends.
    DurationSegment prev;
    prev.startLate_ = self.prevEndLate_;
    DurationSegment const done
        = DurationSegment::merge(prev, self.finaliseFront());

    DurationSegment res;
    res.startEarly_ = done.endEarly();
    res.startLate_ = MAX();
    res.releaseTime_ = done.endEarly();
    res.cumDuration_ = self.cumDuration_ + done.duration();
    res.cumTimeWarp_ = self.cumTimeWarp_ + done.timeWarp(MAX());
    res.prevEndLate_ = done.endLate();
    return res;
}

DurationSegment duration_of_client(Client const &client)
{
    DurationSegment res;
    res.duration_ = client.serviceDuration;
    res.startEarly_ = client.twEarly;
    res.startLate_ = client.twLate;
    res.releaseTime_ = client.releaseTime;
    return res;
}

DurationSegment duration_of_depot(Depot const &depot, Duration const service)
{
    DurationSegment res;
    res.duration_ = service;
    res.startEarly_ = depot.twEarly;
    res.startLate_ = depot.twLate;
    return res;
}

DurationSegment duration_of_step(Shipment::Step const &step)
{
    DurationSegment res;
    res.duration_ = step.serviceDuration;
    res.startEarly_ = step.twEarly;
    res.startLate_ = step.twLate;
    return res;
}

DurationSegment duration_of_vehicle(VehicleType const &type, Duration const late)
{
    DurationSegment res;
    res.startEarly_ = type.twEarly;
    res.startLate_ = late;
    return res;
}

DurationSegment duration_init(Duration duration,
                              Duration timeWarp,
                              Duration startEarly,
                              Duration startLate,
                              Duration releaseTime,
                              Duration cumDuration,
                              Duration cumTimeWarp,
                              Duration prevEndLate)
{
    DurationSegment res;
    res.duration_ = duration;
    res.timeWarp_ = timeWarp;
    res.startEarly_ = startEarly;
    res.startLate_ = startLate;
    res.releaseTime_ = releaseTime;
    res.cumDuration_ = cumDuration;
    res.cumTimeWarp_ = cumTimeWarp;
    res.prevEndLate_ = prevEndLate;
    return res;
}

LoadSegment load_merge(LoadSegment const &a, LoadSegment const &b)
{
    LoadSegment res;
    res.initial_ = a.initial_ + b.initial_;
    res.delta_ = a.delta_ + b.delta_;
    res.increase_ = std::max(a.increase_, a.delta_ + b.increase_);
    res.excessLoad_ = a.excessLoad_ + b.excessLoad_;
    return res;
}

Load load_load(LoadSegment const &self)
{
    return self.initial_ + self.increase_;
}

Load load_initial(LoadSegment const &self) { return self.initial_; }

Load load_delta(LoadSegment const &self) { return self.delta_; }

Load load_increase(LoadSegment const &self) { return self.increase_; }

Load load_excessLoad(LoadSegment const &self, Load capacity)
{
    Load excess = self.excessLoad_;
    if (self.initial_ + self.increase_ > capacity)
        excess += self.initial_ + self.increase_ - capacity;
    return excess;
}

LoadSegment load_finalise(LoadSegment const &self, Load capacity)
{
    LoadSegment res;
    res.excessLoad_ = load_excessLoad(self, capacity);
    return res;
}

LoadSegment load_of_client(Client const &client, size_t dim)
{
    LoadSegment res;
    res.initial_ = client.delivery[dim];
    res.delta_ = client.pickup[dim] - client.delivery[dim];
    res.increase_ = std::max<Load>(client.pickup[dim] - client.delivery[dim], 0);
    return res;
}

LoadSegment
load_of_shipment(Shipment const &shipment, Activity::ActivityType type, size_t dim)
{
    Load const delta = type == Activity::ActivityType::PICKUP
                           ? shipment.amount[dim]
                           : -shipment.amount[dim];

    LoadSegment res;
    res.delta_ = delta;
    res.increase_ = std::max<Load>(0, delta);
    return res;
}

LoadSegment load_of_vehicle(VehicleType const &type, size_t dim)
{
    LoadSegment res;
    res.initial_ = type.initialLoad[dim];
    return res;
}

LoadSegment load_init(Load initial, Load delta, Load increase, Load excess)
{
    LoadSegment res;
    res.initial_ = initial;
    res.delta_ = delta;
    res.increase_ = increase;
    res.excessLoad_ = excess;
    return res;
}
}  // namespace pyvrp::spec
