import functools

HARNESSES = []  # list of dict(prop, name, fn, params, opts)


class Harness(object):
    def __init__(self, prop, name, fn, params, opts):
        self.prop, self.name, self.fn, self.params, self.opts = prop, name, fn, params, opts

    def __call__(self, ctx):
        return self.fn(ctx, **self.params)


def harness(prop, params=None, thorough=None, **opts):
    """register fn as a harness of property prop.
    params: list of keyword dicts for both tiers; thorough: extra ones."""

    def deco(fn):
        ps = [(p, False) for p in (params if params is not None else [{}])]
        ps += [(p, True) for p in (thorough or [])]
        for p, th in ps:
            nm = fn.__name__
            if p:
                nm += "[" + ",".join("%s=%s" % (k, getattr(v, "__name__", v)) for k, v in sorted(p.items())) + "]"
            o = dict(opts)
            o["thorough_only"] = th or opts.get("thorough_only", False)
            o["doc"] = (fn.__doc__ or "").strip()
            HARNESSES.append(Harness(prop, nm, fn, p, o))
        return fn

    return deco
