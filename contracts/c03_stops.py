"""C03 (timetable), C04 (load) and the stop part of C05."""
from pyvc.spec import R

S = "jinete.models.stops:Stop."
INFTY = float("inf")


def stop(name, props, **k):
    return R.add(S + name, params=dict(self="ref:Stop"), result=k.pop("result", "num"), props=props, **k)


def came_from(stop):
    return stop.vehicle.origin.position if stop.previous is None else stop.previous.position


def left_at(stop):
    return stop.vehicle.origin.earliest if stop.previous is None else stop.previous.departure_time


c = stop("earliest", ["C03"])


@c.post("no service before the earliest start of any pickup or delivery made here")
def _(self, result):
    return all(result >= p.trip.origin_earliest for p in self.pickup_planned_trips) and all(
        result >= p.trip.destination_earliest for p in self.delivery_planned_trips
    )


@c.post("the latest of these starts, zero when there are none")
def _(self, result):
    nothing = not any(True for p in self.pickup_planned_trips) and not any(True for p in self.delivery_planned_trips)
    return (
        any(result == p.trip.origin_earliest for p in self.pickup_planned_trips)
        or any(result == p.trip.destination_earliest for p in self.delivery_planned_trips)
        or (nothing and result == 0)
    )


c = stop("latest", ["C03"])


@c.post("the latest start of every pickup and delivery made here is respected")
def _(self, result):
    return all(result <= p.trip.origin_latest for p in self.pickup_planned_trips) and all(
        result <= p.trip.destination_latest for p in self.delivery_planned_trips
    )


@c.post("the tightest of them, unbounded when there are none")
def _(self, result):
    nothing = not any(True for p in self.pickup_planned_trips) and not any(True for p in self.delivery_planned_trips)
    return (
        any(result == p.trip.origin_latest for p in self.pickup_planned_trips)
        or any(result == p.trip.destination_latest for p in self.delivery_planned_trips)
        or (nothing and result == INFTY)
    )


c = stop("load_time", ["C03"])


@c.post("no pickup or delivery made here takes longer")
def _(self, result):
    return all(result >= p.trip.origin_duration for p in self.pickup_planned_trips) and all(
        result >= p.trip.destination_duration for p in self.delivery_planned_trips
    )


@c.post("the longest of them, zero when there are none")
def _(self, result):
    nothing = not any(True for p in self.pickup_planned_trips) and not any(True for p in self.delivery_planned_trips)
    return (
        any(result == p.trip.origin_duration for p in self.pickup_planned_trips)
        or any(result == p.trip.destination_duration for p in self.delivery_planned_trips)
        or (nothing and result == 0)
    )


c = stop("arrival_time", ["C03"])


@c.post("departure from the previous place plus the travel time")
def _(self, result):
    return result == left_at(self) + came_from(self).time_to(self.position)


c = stop("starting_time", ["C03"])


@c.post("the latest of arrival, earliest start and planned start")
def _(self, result):
    if self._starting_time is None:
        return result == max(self.arrival_time, self.earliest)
    return result == max(self.arrival_time, self.earliest, self._starting_time)


c = stop("departure_time", ["C03"])


@c.post("service start plus the longest service")
def _(self, result):
    return result == self.starting_time + self.load_time


c = stop("waiting_time", ["C03"])


@c.post("service start minus arrival, never negative")
def _(self, result):
    return result == self.starting_time - self.arrival_time and result >= 0


for name, what in (("previous_departure_time", left_at), ("previous_position", came_from)):
    c = stop(name, ["C03"], opaque=False, result="num" if what is left_at else "ref:GeometricPosition")
    if what is left_at:

        @c.post("when the previous place is left")
        def _(self, result):
            return result == left_at(self)
    else:

        @c.post("the previous place")
        def _(self, result):
            return result is came_from(self)


c = stop("transit_time", ["C03"], opaque=False)


@c.post("the travel time from the previous place")
def _(self, result):
    return result == came_from(self).time_to(self.position)


c = stop("distance", ["C03"])


@c.post("the distance to the previous place")
def _(self, result):
    return result == self.position.distance_to(came_from(self))


# --------------------------------------------------------------------------------------------------------- load

c = stop("capacity", ["C04"], assert_mode="assume")


@c.post("what was on board, plus the pickups, minus the deliveries made here")
def _(self, result):
    before = 0 if self.previous is None else self.previous.capacity
    return result == before + sum(p.trip.capacity for p in self.pickup_planned_trips) - sum(p.trip.capacity for p in self.delivery_planned_trips)


c = stop("previous_capacity", ["C04"], opaque=False)


@c.post("the load after the previous stop, nothing before the first")
def _(self, result):
    return result == (0 if self.previous is None else self.previous.capacity)


# --------------------------------------------------------------------------------------------------------- verdict

c = stop("feasible", ["C05"], result="bool")


@c.post("inside the window and the load fits, within a thousandth")
def _(self, result):
    return result == (
        self.earliest <= self.starting_time + 0.001
        and self.starting_time <= self.latest + 0.001
        and self.capacity <= self.vehicle.capacity + 0.001
    )


c = stop("all_previous", [], result="list:ref:Stop", assumed="Stop.all_previous is only used by assertions")
