"""Scheduler seam of the Python engine: the order in which vehicles are updated within a step.

The engine updates vehicles in the order of its dictionary of living vehicles (creation order). The
order carries no meaning of its own, so the simulator may decide it: "queue" is front to back along
each link (the order the compiled engine uses), "reverse" and "random" are other legal orders.
"""
import random
from collections import OrderedDict


class SchedDict(OrderedDict):
    def __init__(self, W, mode, seed=0):
        OrderedDict.__init__(self, W.VEHICLES_LIVING)
        self.W, self.mode, self.r = W, mode, random.Random(seed)

    def order(self):
        ks = list(OrderedDict.keys(self))
        if self.mode == "reverse":
            return ks[::-1]
        if self.mode == "random":
            self.r.shuffle(ks)
            return ks
        pos = {}
        for l in self.W.LINKS:
            for v in l.vehicles:
                pos[v.name] = len(pos)
        n = len(pos)
        return sorted(ks, key=lambda k: pos.get(k, n))

    def __iter__(self):
        return iter(self.order())

    def keys(self):
        return self.order()

    def values(self):
        return [OrderedDict.__getitem__(self, k) for k in self.order()]

    def items(self):
        return [(k, OrderedDict.__getitem__(self, k)) for k in self.order()]


def install(W, mode, seed=0):
    W.VEHICLES_LIVING = SchedDict(W, mode, seed)
