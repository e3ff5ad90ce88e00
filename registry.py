"""Which machinery decides which property."""

# Scenario families (see lab/scen.py) with the number of scenarios of the quick tier; unit recorders; design models.
PROPS = {
    'P01': dict(models=['hunt'], lab=dict(core=70, hunt=90, fast=80, ends=60, stop=30, ckpt=40), units=['signal']),
    'P02': dict(models=['queue', 'stop'], lab=dict(fast=40, stop=30), units=['queue']),
    'P03': dict(models=['slots'], lab=dict(shrink=60, core=120, hunt=80, ends=100, ckpt=60, manual=30, timed=40)),
    'P04': dict(models=['hunt'], lab=dict(hunt=220, manual=60, share=30, ckpt=60)),
    'P05': dict(models=['fault'], lab=dict(ends=140, force=60, hunt=60, faults=40, ckpt=60, flog=40, manual=60, timed=30)),
    'P06': dict(models=['ckhunt'], lab=dict(ckpt=200, shrink=40, flog=80, relog=40, ckfail=40)),
    'P07': dict(lab=dict(ckfail=150, ckpt=120), units=['chk']),
    'P08': dict(models=['ck', 'stop'], lab=dict(ckpt=160, ckfail=140, manual=40, force=80), units=['signal']),
    'P09': dict(models=['live', 'stop'], lab=dict(faults=140, stop=60, ends=80, force=60, ckfail=40, timed=80)),
    'P10': dict(models=['stop', 'slots'], lab=dict(core=80, hunt=90, ckpt=80, ends=60, fast=40, timed=80)),
    'P11': dict(lab={}, units=['bool']),
    'P12': dict(lab=dict(ckpt=100), units=['check']),
    'P13': dict(lab={}, units=['hunt']),
    'P14': dict(models=['slots'], lab=dict(ends=150, ckpt=80, share=60, hunt=60), units=['signal']),
    'P15': dict(models=['logfile'], lab=dict(flog=180, relog=60, hunt=60, ckpt=40), units=['log']),
    'P16': dict(lab={}, units=['dir'], thorough=8),
    'P17': dict(lab=dict(manual=300)),
    'P18': dict(lab=dict(force=360)),
    'P19': dict(lab=dict(share=330), units=['signal']),
    'P20': dict(lab={}, units=['select']),
    'P21': dict(lab={}, units=['gen']),
    'P22': dict(lab=dict(prints=200), units=['print']),
    'P23': dict(lab={}, units=['random']),
    'P25': dict(lab=dict(core=30, hunt=40, ends=50, ckpt=140, ckfail=100, faults=60, timed=40, flog=60, relog=40)),
    'P26': dict(lab=dict(vis=160), units=['scope']),
    'P27': dict(lab={}, units=['cma']),
    'P28': dict(lab={}, units=['conf']),
    'P29': dict(lab=dict(det=260), units=['signal']),
    'P30': dict(lab={}, units=['bench']),
    'P31': dict(lab={}, units=['plot']),
    'P24': dict(lab=dict(ckpt=180, sched=80, manual=60, ckfail=60)),
}
UNITS = {
    'chk': dict(rec='chk', module='ChkTrace', n=500),
    'dir': dict(rec='dir', module='DirTrace', n=500),
    'random': dict(rec='random', module='RandomTrace', n=3000),
    'print': dict(rec='print', module='PrintTrace', n=500),
    'select': dict(rec='select', module='SelectTrace', n=4000),
    'gen': dict(rec='gen', module='GenTrace', n=4000),
    'log': dict(rec='log', module='LogTrace', n=2000),
    'signal': dict(rec='signal', module='SignalTrace', n=1500),
    'hunt': dict(rec='hunt', module='HuntTrace', n=4000),
    'bool': dict(rec='bool', module='BoolTrace', n=3000),
    'check': dict(rec='check', module='CheckTrace', n=3000),
    'scope': dict(rec='scope', module='ScopeTrace', n=300),
    'queue': dict(rec='queue', module='QueueTrace', n=600),
    'conf': dict(rec='conf', module='ConfTrace', n=400),
    'bench': dict(rec='bench', module='BenchTrace', n=1200),
    'plot': dict(rec='plot', module='PlotTrace', n=250),
    'cma': dict(rec='cma', module='CmaTrace', n=2000),
}
# Design models, checked exhaustively by TLC: module, configuration of the quick and of the thorough tier.
MODELS = {
    'queue': dict(module='ChunkQueue', quick='ChunkQueue.cfg', thorough='ChunkQueueT.cfg'),
    'logfile': dict(module='LogFile', quick='LogFile.cfg', thorough='LogFileT.cfg'),
    'hunt': dict(module='Glompo', quick='GlompoHunt.cfg', thorough='GlompoHuntT.cfg'),
    'slots': dict(module='Glompo', quick='GlompoSlots.cfg', thorough='GlompoSlotsT.cfg'),
    'ck': dict(module='Glompo', quick='GlompoCk.cfg', thorough='GlompoCkT.cfg'),
    'ckhunt': dict(module='Glompo', quick='GlompoCkHunt.cfg', thorough='GlompoCkHuntT.cfg'),
    'fault': dict(module='Glompo', quick='GlompoFault.cfg', thorough='GlompoFaultT.cfg'),
    'live': dict(module='Glompo', quick='GlompoLive.cfg', thorough='GlompoLiveT.cfg'),
    'stop': dict(module='Glompo', quick='GlompoStop.cfg', thorough='GlompoStopT.cfg'),
}
NOTES = {'': 'Every recorded behaviour of the real code is judged step by step by TLC against the TLA+ rules; '
             'bounded by the generated scenarios and schedules (deterministic from VERIF_SEED). Trusted: the laboratory '
             'that replaces processes, pipes, locks and clock by deterministic stand-ins and records what crosses them.'}
