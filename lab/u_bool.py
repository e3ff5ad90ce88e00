"""P11: AND/OR combinations of checkers and hunters of any shape, with shared and stateful leaves."""
import random

TAG = 'P11'
FORK = False


def gen(seed):
    r = random.Random(f'bool{seed}')
    nl = r.randint(1, 6)
    leaves = [[r.random() < .5 for _ in range(r.randint(1, 4))] for _ in range(nl)]
    nodes = []
    shared = r.random() < .4
    order = list(range(1, nl + 1))
    for n in order:
        nodes.append(dict(k='leaf', n=n, l=0, r=0))
    free = list(range(1, nl + 1))
    r.shuffle(free)
    while len(free) > 1 or r.random() < (.3 if shared else 0):
        if shared and r.random() < .4:
            a, b = r.choice(free), r.randint(1, len(nodes))
            if r.random() < .5:
                a, b = b, a
        elif len(free) > 1:
            a, b = r.sample(free, 2)
        else:
            continue
        nodes.append(dict(k=r.choice('|&'), n=0, l=a, r=b))
        free = [z for z in free if z not in (a, b)] + [len(nodes)]
        if len(nodes) > 14:
            break
    evals = [free[-1] if r.random() < .75 else r.randint(1, len(nodes)) for _ in range(r.randint(1, 6))]
    return dict(kind=r.choice(['checker', 'hunter']), leaves=[['T' if b else 'F' for b in v] for v in leaves], nodes=nodes, evals=evals,
                shared=1 if shared else 0)


def run(case, scratch, ev):
    from glompo.convergence.basechecker import BaseChecker
    from glompo.hunters.basehunter import BaseHunter
    Base = BaseChecker if case['kind'] == 'checker' else BaseHunter
    calls = []

    class Leaf(Base):
        def __init__(self, n):
            super().__init__()
            self.n = n
            self.count = 0

        def __call__(self, *args):
            assert args == ARGS
            calls.append(self.n)
            vals = case['leaves'][self.n - 1]
            self.last_result = vals[self.count % len(vals)] == 'T'
            self.count += 1
            return self.last_result

    ARGS = ('MANAGER',) if case['kind'] == 'checker' else ('LOG', 1, 2)
    objs = []
    for nd in case['nodes']:
        if nd['k'] == 'leaf':
            objs.append(Leaf(nd['n']))
        elif nd['k'] == '|':
            objs.append(objs[nd['l'] - 1] | objs[nd['r'] - 1])
        else:
            objs.append(objs[nd['l'] - 1] & objs[nd['r'] - 1])

    def tf(v):
        return 'N' if v is None else ('T' if v is True else 'F' if v is False else 'odd')

    for j in case['evals']:
        calls.clear()
        ret = objs[j - 1](*ARGS)
        called = list(calls)
        ev('eval', node=j, called=called, ret=tf(ret), last=[tf(o.last_result) for o in objs],
           text=''.join(objs[j - 1].str_with_result().split()), plain=''.join(str(objs[j - 1]).split()),
           leaves=[o.n for o in objs[j - 1]])
