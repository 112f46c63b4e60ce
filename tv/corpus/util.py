import random
from .. import gen
from ..equiv import Case

ALLCTX = [c for c, _ in gen.CTX]
MAINCTX = ['root', 'neg', 'reif', 'limp', 'or', 'itec', 'b2i', 'fora', 'let']


def grid(name, exprs, ctxs, profs, limit, seed=0, lib='std', flags=(), **kw):
    """expressions x contexts x profiles; with a limit: a seeded rotation that keeps every expression at the root and in other contexts"""
    rng = random.Random('%s-%s' % (name, seed))
    out = []
    for id, src in gen.cross(name, exprs, ctxs, profs, rng, limit=limit):
        out.append(Case("%s-%s" % (id, lib), src, lib=lib, flags=flags, **kw))
    return out


def texts(name, models, lib='std', flags=(), **kw):
    out = []
    for i, m in enumerate(models):
        data = None
        if isinstance(m, tuple):
            m, data = m
        out.append(Case('%s-m%d-%s' % (name, i, lib), m, lib=lib, flags=flags, data=data, **kw))
    return out


def items(name, its, profs=(0,), lib='std', flags=(), **kw):
    """complete constraint items (or several), declarations added"""
    out = []
    for i, t in enumerate(its):
        for p in profs:
            out.append(Case('%s-i%d-p%d-%s' % (name, i, p, lib), gen.model(t if t.rstrip().endswith(';') else t + ';', p), lib=lib, flags=flags, **kw))
    return out


def rand(name, feats, n, seed, lib='std', depth=2, flags=(), ctxs=None, start=0, **kw):
    out = []
    cc = [c for c in gen.CTX if ctxs is None or c[0] in ctxs]
    for i in range(start, start + n):
        R = gen.Rand('%d-%d' % (seed, i), set(feats.split(',')), p=i % 6)
        e = R.bools(depth + (i % 2))
        out.append(Case('%s-r%d-%d-%s' % (name, seed, i, lib), gen.model(cc[i % len(cc)][1] % e, i % 6), lib=lib, flags=flags, **kw))
    return out


def multi(name, feats, n, seed, lib='std', flags=(), start=0, **kw):
    return [Case('%s-x%d-%d-%s' % (name, seed, i, lib), gen.multi('%d-%d' % (seed, i), set(feats.split(',')), i % 6), lib=lib, flags=flags, **kw) for i in range(start, start + n)]


def full(tier):
    return tier != 'quick'


def fixed(name, n, seed, lib='std', flags=(), start=0, **kw):
    return [Case('%s-f%d-%d-%s' % (name, seed, i, lib), gen.fixed('%d-%d' % (seed, i), i % 6), lib=lib, flags=flags, **kw) for i in range(start, start + n)]
