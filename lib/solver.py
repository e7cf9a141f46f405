"""The iterative solvers of drivers/solvers.cc: discovery and event views."""
import re
import ir as IR, summary as S
from events import *
from harness import Broken
from absint import IvView, Engine, default_kill, root, LIN, lin_add, lin_scale

NAMES = ('LoopSolver','GradientSolver','CGSolver','BiCGSTABSolver','MINRESSolver','RestartedGMResSolver',
         'RestartedFlexibleGMResSolver','GeneralizedPCGSolver','RestartedFCGSolver')
class Solver: pass

class Solvers:
    def __init__(self, ctx, view=EvView):
        m = self.m = ctx.module('solvers.cc')
        self.probes = component_probes(m)
        for k in ('pre','post','papply','opapply','opasa','norm','dot','solve','solve4'):
            if k not in self.probes: raise Broken('component probe %s not found in solvers.cc' % k)
        self.off = offsets(m)
        self.conv = ('ld', S.subst(self.off['converged'], {('p', 0): ('p', 3)}), 'i8')     # res.converged
        self.list = []
        for f in m.functions.values():
            if not f.blocks: continue
            h = head(f.dem or '')
            b = re.match(r'Dune::(\w+)::apply$', h)
            if not b: continue
            n = len(f.params)
            if n == 4 and b.group(1) in NAMES:
                s = Solver(); s.name = b.group(1); s.fn = f
                s.v = view(m, f)
                if s.v.noreturn: raise Broken('%s::apply never returns' % s.name)
                s.evs = events(s.v, self.probes)
                self.classify(s)
                self.list.append(s)
                ctx.functions.add(f.dem)
        miss = set(NAMES) - {s.name for s in self.list}
        if miss: raise Broken('no apply(x,b,res) found for ' + ', '.join(sorted(miss)))
    def classify(self, s):
        """Iteration constructor/step/destructor calls"""
        for L in s.evs.values():
            for e in L:
                if e.kind != 'call': continue
                h = head(e.name)
                if h.endswith('Iteration::step'): e.kind = 'step'
                elif re.search(r'Iteration::Iteration$', h): e.kind = 'itctor'
                elif re.search(r'Iteration::~Iteration$', h): e.kind = 'itdtor'

WORK = ('papply','opapply','opasa')
def allev(s):
    for b in s.fn.order:
        for e in s.evs.get(b, ()): yield e


class SView(IvView):
    """view for the apply methods: the result record (4th argument) is tracked"""
    cells = (('p', 3),)
def step_split(sv, e, a, b):
    """the two outcomes of Iteration::step: success sets res.converged; a, b: automaton states"""
    r = ('call', e.ins.res)
    return [(a, [r] if e.ins.res else [], [(sv.conv, LIN(1))]), (b, [('not', r)] if e.ins.res else [], [(sv.conv, LIN(0))])]
def cycle_conds(sv, e):
    i = ('ld', e.args[4], 'i32'); mm = ('ld', sv.off['mmax'], 'i32')
    return [('icmp', 'sle', lin_add(i, mm, -1)), ('icmp', 'sge', LIN(0, [(i, 1)]))]
def engine(sv, s, delta, edgeq=None, extra=None, facts=()):
    v = s.v; off = sv.off
    def kill(e):
        if e.kind == 'orth': return None      # takes the index by const reference (rule R-helper of S03)
        if e.kind in ('step', 'itctor'):
            d = default_kill(e)
            return lambda y: (y[0] == 'ld' and root(y[1]) == ('p', 3)) or (d is not None and d(y))
        return default_kill(e)
    facts = list(facts)
    if s.name.startswith('Restarted') and 'GMRes' in s.name: facts.append(LIN(1, [(('ld', off['restart_gmres'], 'i32'), -1)]))
    if 'FCG' in s.name: facts.append(LIN(0, [(('ld', off['mmax'], 'i32'), -1)]))
    eng = Engine(v, s.evs, delta, edgeq=edgeq, kill=kill, normal_only=True, init_facts=facts)
    rel = eng.relevant
    steps = {('call', e.ins.res) for e in allev(s) if e.kind == 'step'}
    eng.relevant = lambda t: (t in steps or t == sv.conv or t in eng.cellterms or (isinstance(t, tuple) and (t[:1] == ('ld',) and root(t[1]) == ('p', 0)
                              or t[:1] == ('intr',) and t[1] in ('smin', 'smax'))) or rel(t) or (extra is not None and extra(t)))
    return eng

def parallel(ctx, items, work):
    """run work(item) in forked processes; their obligations and failures are appended in order"""
    import os, pickle, traceback
    jobs = []
    n = len(ctx.obs); nb = len(ctx.brk)
    for it in items:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                err = None
                try: work(it)
                except Broken as e: err = str(e)
                except Exception: err = traceback.format_exc()[-1500:]
                with os.fdopen(w, 'wb') as f: pickle.dump((ctx.obs[n:], ctx.brk[nb:], err), f)
            finally: os._exit(0)
        os.close(w); jobs.append((pid, r))
    for pid, r in jobs:
        with os.fdopen(r, 'rb') as f: d = f.read()
        os.waitpid(pid, 0)
        if not d: ctx.broken('analysis process ended without a result'); continue
        o, b, err = pickle.loads(d)
        ctx.obs += o; ctx.brk += b
        if err: ctx.broken(err)
