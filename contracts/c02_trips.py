"""C02: the effective time windows of a request."""
from pyvc.spec import R

T = "jinete.models.trips:Trip."


def travel(t):
    return t.origin.position.time_to(t.destination.position)


def trip(name, **k):
    return R.add(T + name, params=dict(self="ref:Trip"), result=k.pop("result", "num"), props=["C02"], opaque=False, **k)


c = trip("origin_earliest")


@c.post("requested start, or what the ride-time limit implies for the delivery's")
def _(self, result):
    return result == max(self.origin.earliest, self.destination.earliest - self.timeout - self.origin.duration)


c = trip("origin_latest")


@c.post("requested end, or what travel and service imply for the delivery's")
def _(self, result):
    return result == min(self.origin.latest, self.destination.latest - travel(self) - self.origin.duration)


c = trip("destination_earliest")


@c.post("requested start, or the earliest possible arrival after the pickup")
def _(self, result):
    return result == max(self.destination.earliest, self.origin.earliest + self.origin.duration + travel(self))


c = trip("destination_latest")


@c.post("requested end, or the end of the ride-time limit after the latest pickup")
def _(self, result):
    return result == min(self.destination.latest, self.origin.latest + self.origin.duration + self.timeout)


c = trip("origin_position", result="ref:GeometricPosition")


@c.post("the requested pickup place")
def _(self, result):
    return result is self.origin.position


c = trip("destination_position", result="ref:GeometricPosition")


@c.post("the requested delivery place")
def _(self, result):
    return result is self.destination.position


c = trip("origin_duration")


@c.post("the requested pickup duration")
def _(self, result):
    return result == self.origin.duration


c = trip("destination_duration")


@c.post("the requested delivery duration")
def _(self, result):
    return result == self.destination.duration


c = trip("distance")


@c.post("the direct distance")
def _(self, result):
    return result == self.origin.position.distance_to(self.destination.position)


c = R.add(T + "duration", params=dict(self="ref:Trip", now="num"), result="num", props=["C02"], opaque=False)


@c.post("the direct travel time")
def _(self, result):
    return result == travel(self)


c = trip("empty", result="bool")


@c.post("no load")
def _(self, result):
    return result == (self.capacity == 0)


@R.lemma("start times that meets all requested limits meet all effective bounds", ["C02"], t="ref:Trip", p="num", d="num")
def _(t, p, d):
    legal = (
        t.origin.earliest <= p and p <= t.origin.latest and t.destination.earliest <= d and d <= t.destination.latest
        and p + t.origin.duration + travel(t) <= d and d - (p + t.origin.duration) <= t.timeout
    )
    return not legal or (
        t.origin_earliest <= p and p <= t.origin_latest and t.destination_earliest <= d and d <= t.destination_latest
    )
