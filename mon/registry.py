"""Workload generators and oracles, registered per property."""
GENS = {}      # name -> function(G, r) -> list of Op
ORACLES = {}   # property -> {fn: oracle(op, out, ck) -> verdict}
PROPS = {}     # property -> configuration


def gen(name):
    def deco(f):
        assert name not in GENS, name
        GENS[name] = f
        f.gen_name = name
        return f

    return deco


def crowds(name, *names):
    """Make the generator of thousands of points from others."""

    def make(G, r):
        G.crowd = True
        return GENS[r.choice(names)](G, r)

    return gen(name)(make)


def oracle(prop, *fns):
    def deco(f):
        for fn in fns:
            table = ORACLES.setdefault(prop, {})
            assert fn not in table, (prop, fn)
            table[fn] = f
        return f

    return deco


def prop(id, gens, quick, thorough, rule, **config):
    """gens: {generator name: weight}; quick, thorough: number of cases per tier."""
    PROPS[id] = dict(gens=gens, quick=quick, thorough=thorough, rule=rule, **config)
