"""Copies of scenarios with sizes beyond what can be enumerated, executed along fixed schedules
(seam.Stream) and judged in the same way."""
from lib.env import THOROUGH

DIMS = [dict(lxi=3, lz=4, ly=3, d=4), dict(lxi=4, lz=3, ly=4, d=4), dict(lxi=2, lz=5, ly=2, d=4)]


def scaled(tasks, fn, every=1, N=None, M=None, T=None, dims=False, seeds=(0, 1), start=0, **extra):
    """Every `every`-th task of function `fn` with other sizes (only the sizes it has)."""
    out = []
    for i, k in enumerate([k for n, k in tasks if n == fn][start::every]):
        k = dict(k)
        for name, v in (('N', N), ('M', M), ('T', T)):
            if v is not None and name in k:
                k[name] = v[i % len(v)] if isinstance(v, (list, tuple)) else v
        if T is not None and k.get('fo'):
            k['fo'] = [j % 2 if j < k['T'] - 1 else 0 for j in range(k['T'])]     # a conditional path of that length
        if dims:
            for name, v in DIMS[i % len(DIMS)].items():
                if k.get(name):
                    k[name] = v
        if seeds is not None and (N or M or T):
            k['dev'] = list(seeds)
        k.update(dict((name.rstrip('_'), v) for name, v in extra.items()))
        out.append((fn, k))
    return out


TABLE = {
    'C04': [('f_simulate', dict(N=(5, 17, 30), T=(9, 7, 6), S=3, seeds=(0, 1, 2, 3)))],
    'C08': [('f_run', dict(N=(9, 17, 30), T=(8, 6, 7), seeds=(0, 1), every_=7))],
    'C06': [('f_extreme', dict(every=3, N=(8, 13, 5), T=(9, 7, 12)))],
    'C13': [('f_sim', dict(every=3, N=(17, 9, 12, 30), M=(5, 11, 14, 3), T=(6, 5, 8)))],
    'C14': [('f_density', dict(every=13, start=0, dims=True)), ('f_sample', dict(every=7, start=2, dims=True)),
            ('f_initial', dict(every=3, dims=True)), ('f_proposal', dict(every=3, dims=True))],
    'C15': [('f_history', dict(every=11, dims=True)), ('f_run', dict(every=11, dims=True)),
            ('f_run', dict(every=9, start=3, N=(7, 12), M=(8, 5), T=(6, 5), seeds=None)), ('f_backstep', dict(every=3, dims=True))],
    'C16': [('f_history', dict(every=9, dims=True)), ('f_run', dict(every=7, dims=True, dev=1, N=2, seeds=None)),
            ('f_run', dict(every=3, N=(6, 5, 7), T=(5, 6, 4)))],
    'C17': [('f_grid', dict(every=5, dims=True)), ('f_run', dict(every=9, dims=True)),
            ('f_run', dict(every=4, start=1, N=(7, 11), M=(5, 9), T=(6, 5)))],
    'C18': [('f_marg', dict(every=5, dims=True)), ('f_run', dict(every=5, dims=True)),
            ('f_run', dict(every=2, N=(7, 11), M=(5, 9), T=(6, 5)))],
    'C19': [('f_history', dict(every=9, dims=True)), ('f_run', dict(every=3, dims=True)),
            ('f_run', dict(every=2, N=(7, 11), M=(5, 9), T=(6, 5)))],
    'C20': [('f_nlg', dict(every=5, dims=True)), ('f_mix', dict(every=11, dims=True)), ('f_hier', dict(every=11, dims=True)),
            ('f_run', dict(N=(9, 6), M=(5, 8), T=(5, 6)))],
    'C21': [('f_mix', dict(every=9, dims=True)), ('f_ltv', dict(every=11, dims=True)), ('f_nlg', dict(dims=True)),
            ('f_mix', dict(every=4, start=1, M=(7, 5), T=(5, 6)))],
    'C22': [('f_model', dict(every=5, dims=True))],
    'C23': [('f_em', dict(every=3, T=(6, 5, 7), cbs=3))],
    'C24': [('f_saem', dict(every=3, start=1, T=(5, 6)))],
    'C25': [('f_density', dict(every=3, dims=True)), ('f_steps', dict(every=5, dims=True)), ('f_history', dict(every=3, dims=True))],
    'C26': [('f_pdf', dict(every=3, dims=True)), ('f_kf', dict(every=7, dims=True)), ('f_mlnlg', dict(every=23, dims=True)),
            ('f_run', dict(every=7, dims=True)), ('f_run', dict(every=3, N=11, M=7, T=5))],
    'C28': [('f_run', dict(every=2, N=(9, 14, 7), M=(8, 5, 11), T=(5, 6)))],
    'C32': [('f_run', dict(every=2, N=(9, 14, 30), M=(8, 5, 11), T=(6, 5, 7)))],
}


def add(pid, tasks):
    """The tasks followed by the enlarged copies of some of them."""
    out = list(tasks)
    for fn, kw in TABLE.get(pid, ()):
        if THOROUGH:
            kw = dict(kw, every=1 + kw.get('every', 1) // 3, seeds=None if kw.get('seeds', 0) is None else range(8))
        out += scaled(tasks, fn, **kw)
    return out
