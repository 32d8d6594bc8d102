"""Registry used by the files in checks/."""
REG = []


class H:
    def __init__(self, fn, name, bounds, tier, opts):
        self.fn = fn
        self.name = name
        self.bounds = bounds
        self.tier = tier
        self.opts = opts


def harness(bounds="", tier="quick", name=None, each=None, **opts):
    """each: list of (suffix, kwargs) -> one obligation per entry"""
    def deco(fn):
        base = name or fn.__name__
        if each is None:
            REG.append(H(fn, base, bounds, tier, opts))
        else:
            for suf, kw in each:
                o = dict(opts)
                t = kw.get("_tier", tier)
                kw2 = {k: v for k, v in kw.items() if not k.startswith("_")}
                REG.append(H((lambda h, _f=fn, _k=kw2: _f(h, **_k)), base + "/" + str(suf), bounds, t, o))
        return fn
    return deco
