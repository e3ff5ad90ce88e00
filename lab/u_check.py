"""P12: the supplied exit conditions against the state of a manager object, over a growing run."""
import random
import time

import coop

TAG = 'P12'
FORK = False
NOW = [1.6e9]
coop.install()  # no server process for each manager object
time.time = lambda: NOW[0]

SPECIAL = ['inf', 'nan', 'ninf', 'none']


def value(r):
    return [r.randint(-30, 30) * r.choice([1, 1, 16]), r.choice([0, 0, 0, 5, 20, -5, -20])]


def gen(seed):
    r = random.Random(f'check{seed}')
    cks = []
    for _ in range(r.randint(1, 4)):
        k = r.choice(['fmax', 'target', 'nconv', 'kills', 'after', 'after', 'omax', 'session', 'overall', 'target'])
        c = dict(k=k, a=0, b=0, dflt=1)
        if k in ('fmax', 'nconv', 'kills', 'omax'):
            c['a'] = r.choice([0, 1, 2, 3, 5, 10]) * (r.choice([1, 10]) if k == 'fmax' else 1)
        elif k == 'after':
            c['a'], c['b'], c['dflt'] = r.randint(0, 4), r.randint(0, 4), int(r.random() < .15)
            if c['dflt']:
                c['a'], c['b'] = 0, 1
        elif k == 'target':
            c['a'], c['dflt'] = r.randint(-30, 30) * r.choice([1, 1, 16]), int(r.random() < .5)
            c['b'] = 0 if c['dflt'] else r.choice([0, 1, 5, 40])
        else:
            c['a'] = r.choice([1, 8, 40, 1000])
        cks.append(c)
    st = dict(f=0, o=0, conv=0, kills=0, fx=['none', 0], now=0, started=0, used=0)
    steps = []
    for _ in range(r.randint(2, 14)):
        for _ in range(r.randint(0, 3)):
            z = r.choice(['f', 'f', 'o', 'conv', 'kills', 'fx', 'now'])
            if z == 'fx':
                st['fx'] = value(r) if r.random() < .8 else [r.choice(SPECIAL[:3]), 0]
            elif z == 'now':
                st['now'] += r.choice([1, 7, 8, 40, 900])
            else:
                st[z] += r.choice([1, 1, 2, 9 if z == 'f' else 1])
        if r.random() < .3 and not st['started']:
            st['started'] = 1
        if r.random() < .08:  # a new session from a checkpoint
            st['used'] += st['now'] + r.choice([0, 3])
            st['now'] = 0
            st['started'] = int(r.random() < .7)
        steps.append(dict(st, fx=list(st['fx'])))
    return dict(cks=cks, steps=steps)


def run(case, scratch, ev):
    from glompo.convergence import (KillsAfterConvergence, MaxFuncCalls, MaxKills, MaxOptsStarted, MaxSeconds,
                                    NOptConverged, TargetCost)
    from glompo.core.manager import GloMPOManager
    from glompo.common.namedtuples import Result
    man = GloMPOManager()
    objs = []
    for c in case['cks']:
        k, a, b = c['k'], c['a'], c['b']
        objs.append(MaxFuncCalls(a) if k == 'fmax' else NOptConverged(a) if k == 'nconv' else MaxKills(a) if k == 'kills' else
                    MaxOptsStarted(a) if k == 'omax' else MaxSeconds(session_max=a / 8) if k == 'session' else
                    MaxSeconds(overall_max=a / 8) if k == 'overall' else
                    (KillsAfterConvergence() if c['dflt'] else KillsAfterConvergence(a, b)) if k == 'after' else
                    TargetCost(a / 16) if c['dflt'] else TargetCost(a / 16, b / 16))
    for s in case['steps']:
        g, e = s['fx']
        fx = {'inf': float('inf'), 'nan': float('nan'), 'ninf': float('-inf'), 'none': None}[g] if isinstance(g, str) else \
            g / 16 + e * 1e-7
        man.f_counter, man.o_counter, man.conv_counter = s['f'], s['o'], s['conv']
        man.hunt_victims = {z + 1: 1.5 for z in range(s['kills'])}
        man.result = Result(None if fx is None else [0.5], fx, None if fx is None else {}, None if fx is None else {})
        man.t_used = s['used'] / 8
        NOW[0] = 1.6e9 + s['now'] / 8
        man.t_start = 1.6e9 if s['started'] else None
        rets, last = [], []
        for o in objs:
            v = o(man)
            rets.append('T' if v is True or (v == 1 and type(v).__name__ in ('bool_', 'bool')) else
                        'F' if v == 0 and type(v).__name__ in ('bool_', 'bool') else 'odd')
            last.append('T' if o.last_result else 'F' if o.last_result is not None else 'N')
        sp = g if isinstance(g, str) else ''
        ev('check', st={**s, 'fx': [0, 0] if sp else [g, e], 'sp': sp}, ret=rets, last=last)
