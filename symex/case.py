class Case:
    """one bounded verification problem: fn(E, **kw)"""

    def __init__(self, cid, fn, tier="quick", secs=60, need=(), bound="", **kw):
        self.id, self.fn, self.tier, self.secs, self.need, self.bound, self.kw = cid, fn, tier, secs, tuple(need), bound, kw
