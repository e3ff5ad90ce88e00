"""P31: plots of a log."""
import random

import u_log

TAG = 'P31'
FORK = False
ENDS = ['GloMPO Termination', 'Optimizer convergence: tolerance', 'Normal termination (Reason unknown)', 'Error termination (exitcode 3)',
        'Traceback (most recent call last)', 'Forced GloMPO Termination', 'Checkpointed', 'something else']
run = u_log.run


def gen(seed):
    r = random.Random(f'plot{seed}')
    case = u_log.gen(seed + 500000)
    ops, st, out = [op for op in case['ops'] if op[0] not in ('saveload', 'ask') or r.random() < .4], [], []
    for op in ops:
        if op[0] == 'add':
            st.append(op[1])
        if op[0] == 'meta' and op[2] == 'end_cond':
            op = [*op[:3], r.choice(ENDS)]
        if op[0] == 'clear' and r.random() < .8:
            out.append(['meta', op[1], 'end_cond', r.choice(ENDS)])
        out.append(op)
        if st and r.random() < .06:
            out.append(['plot', r.randint(0, 1), r.randint(0, 1), r.randint(0, 1)])
    out.append(['plot', r.randint(0, 1), r.randint(0, 1), r.randint(0, 1)])
    out.append(['trials', r.choice([0, 0, r.choice(st or [0])]), r.randint(0, 1), r.randint(0, 1)])
    out.append(['ask'])
    return dict(case, ops=out, traj=int(r.random() < .5), num=r.choice([0, 0, 1, 2, 3, 4]))


def draw(log, op, scratch, ev):
    """ What is on the figures the log saves (a stand-in takes the place of writing the picture). """
    import os
    import warnings
    import matplotlib.pyplot as plt
    from matplotlib.colors import to_rgba
    from matplotlib.figure import Figure
    warnings.simplefilter('ignore')
    figs = []

    def hue(z):
        return tuple(round(c, 4) for c in to_rgba(z))

    def num(v):
        v = float(v)
        c = u_log.code(v)
        return round(1000 * v) if abs(c) < 900000 else c * 1000

    def save(self, fname, *args, **kwargs):
        ax, = self.get_axes()
        leg = ax.get_legend()
        names = {}
        if leg is not None:
            handles = getattr(leg, 'legend_handles', None) or getattr(leg, 'legendHandles')
            for h, t in zip(handles, leg.get_texts()):
                a, _, b = t.get_text().partition(': ')
                if a.isdigit():
                    names[hue(h.get_color())] = (int(a), b)
        curves, marks, trials = [], [], []
        for ln in ax.get_lines():
            xs, ys = [float(v) for v in ln.get_xdata()], [num(v) for v in ln.get_ydata()]
            if hue(ln.get_color()) in names:
                o, t = names[hue(ln.get_color())]
                curves.append(dict(o=o, t=t, xs=[int(v) for v in xs], ys=ys))
            elif names or leg is not None:
                m = str(ln.get_marker())
                marks += [[int(v), w, m] for v, w in zip(xs, ys) if m in ('x', '*', 's')]
            else:
                trials.append(ys)
        figs.append(dict(name=os.path.relpath(str(fname), scratch), curves=sorted(curves, key=lambda c: c['o']), marks=sorted(marks), trials=trials,
                         named=sorted(o for o, _ in names.values())))
    keep, cwd = Figure.savefig, os.getcwd()
    Figure.savefig = save
    plt.close('all')
    exc = ''
    try:
        plt.ion() if op[3] else plt.ioff()
        os.chdir(scratch)
        if op[0] == 'plot':
            log.plot_trajectory(os.path.join(scratch, 'traj.png'), bool(op[1]), bool(op[2]))
        else:
            log.plot_optimizer_trials(*([os.path.join(scratch, 'sub')] if op[2] else [None]), **(dict(opt_id=op[1]) if op[1] else {}))
    except Exception as e:
        exc = type(e).__name__
    finally:
        Figure.savefig = keep
        os.chdir(cwd)
    ev(op[0], log=op[1] if op[0] == 'plot' else 0, bst=op[2] if op[0] == 'plot' else 0, opt=op[1] if op[0] == 'trials' else 0, sub=op[2] if op[0] == 'trials' else 0,
       figs=figs, open=len(plt.get_fignums()), inter=int(plt.isinteractive() == bool(op[3])), exc=exc)
    plt.ioff()
    plt.close('all')
