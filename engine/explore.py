"""Explores every path of a harness over the symbolic copy of the package.

A task is (assignment, pins, bound, decisions): run the harness under the
assignment, then for every branch recorded at an index >= bound ask the solver
for inputs that agree with the path before it and take the other side.  The
paths of the tree are visited once each; a case is exhausted when no task is
left and no query came back undecided.

Assertions of the harness become queries  path prefix /\\ not assertion.
A model of such a query (or an exception, or a run that does not end) is a
candidate: it is replayed on the unmodified package in a fresh interpreter and
reported only when it fails there too.
"""
import json
import os
import random
import re
import signal
import subprocess
import sys
import time
import traceback
import types
from fractions import Fraction

import z3

from . import loader, sym
from .sym import (AND, NOT, OR, Ctx, Limit, PathAbort, branch, node_of,
                  node_z3, set_ctx, simp)

PY = '/opt/venv/bin/python'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class PathTimeout(BaseException):
    pass


class CheckFailed(Exception):
    pass


class Env(object):
    """what a harness sees; the same harness runs on symbolic and on concrete
    inputs (sym=False: replay on the real code)"""

    TOL = 1e-6

    def __init__(self, S, sym_mode, assign=None):
        self.S = S
        self.np = S.np
        self.sym = sym_mode
        self.assign = assign or {}
        self.failures = []
        self.nchecks = 0
        self.reached = 0

    # inputs -------------------------------------------------------------
    def real(self, name, lo=None, hi=None, default=None, lo_open=False,
             hi_open=False):
        if self.sym:
            return sym.new_real(name, lo, hi, lo_open, hi_open, default)
        if name not in self.assign:
            # not met on the symbolic path: any value is as good
            if default is None:
                default = hi if lo is None else lo if hi is None else \
                    (Fraction(lo) + Fraction(hi)) / 2
            self.assign[name] = Fraction(default or 0)
        return float(Fraction(self.assign[name]))

    def zint(self, name, lo, hi, default=None):
        if self.sym:
            return sym.new_zint(name, lo, hi, default)
        return int(self.assign.setdefault(
            name, lo if default is None else default))

    def int(self, name, lo, hi, default=None):
        if lo == hi:
            return lo
        if self.sym:
            return sym.new_int(name, lo, hi, default)
        return int(self.assign.setdefault(
            name, lo if default is None else default))

    def choice(self, name, options):
        options = list(options)
        i = self.int(name, 0, len(options) - 1)
        return options[int(i)]

    # assertions ---------------------------------------------------------
    def assume(self, cond):
        if self.sym:
            n = simp(node_of(cond))
            if n is True:
                return
            if n is False:
                raise PathAbort()
            c = sym.ctx()
            k = len(c.trace)
            if branch(n):
                if len(c.trace) > k:
                    c.trace[-1] = (c.trace[-1][0], True, 'assume')
            else:
                raise PathAbort()
        elif not bool(cond):
            raise PathAbort()

    def check(self, cond, msg):
        self.nchecks += 1
        if self.sym:
            c = sym.ctx()
            c.checks += 1
            n = simp(node_of(cond))
            if n is True:
                return
            c.obligations.append((len(c.trace), n, msg))
            if n is False or not sym.node_shadow(n):
                raise CheckFailed(msg)
        elif not bool(cond):
            raise CheckFailed(msg)

    def fail(self, msg):
        self.check(False, msg)

    def reach(self):
        """vacuity: the assertions were reached"""
        self.reached += 1

    # comparisons of numbers: exact on symbolic values, with a tolerance on
    # floating point ones
    def eq(self, a, b):
        if self.sym:
            return a == b
        try:
            if a == b:
                return True
        except Exception:
            pass
        return abs(a - b) <= self.TOL * max(1.0, abs(a), abs(b))

    def le(self, a, b):
        if self.sym:
            return a <= b
        return a <= b + self.TOL

    def lt(self, a, b):
        if self.sym:
            return a < b
        return a < b - self.TOL

    def all(self, conds):
        if self.sym:
            return sym.mkbool(AND([node_of(c) for c in conds]))
        return all(bool(c) for c in conds)

    def any(self, conds):
        if self.sym:
            return sym.mkbool(OR([node_of(c) for c in conds]))
        return any(bool(c) for c in conds)

    def neg(self, c):
        if self.sym:
            return sym.mkbool(NOT(node_of(c)))
        return not bool(c)

    def array(self, x, dtype=None):
        if dtype is None:
            return self.np.array(x)
        return self.np.array(x, dtype=dtype)


def sig(n):
    if n is True or n is False:
        return int(n)
    t = n[0]
    if t == 's':
        return hash((n[1], n[3]))
    if t == 'z':
        return n[1].hash()
    if t == 'not':
        return hash(('not', sig(n[1])))
    return hash((t, tuple(sig(x) for x in n[1])))


def prefix_hash(tr, h=0, lo=0, hi=None):
    for n, v, _ in tr[lo:hi]:
        h = hash((h, sig(n), v))
    return h


def eval_node(n, a, memo=None):
    """truth of a condition under an assignment (None: not decided here)"""
    if n is True or n is False:
        return n
    t = n[0]
    if t == 's':
        s = Fraction(0)
        for m, c in n[1]:
            v = c
            for x in m:
                v = v * a[x]
            s += v
        return ((s > 0) - (s < 0)) in n[3]
    if t == 'and' or t == 'or':
        r = [eval_node(x, a) for x in n[1]]
        if None in r:
            return None
        return all(r) if t == 'and' else any(r)
    if t == 'not':
        r = eval_node(n[1], a)
        return None if r is None else not r
    sub = [(sym.z3var(x), z3.BitVecVal(int(v), sym.W))
           for x, v in a.items() if sym._varkind.get(x) == 'bv']
    e = z3.simplify(z3.substitute(n[1], *sub)) if sub else n[1]
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return None


def strict(n, neg=False):
    """the condition with its boundary left out"""
    if n is True or n is False:
        return n != neg
    t = n[0]
    if t == 's':
        sg = (sym.ALL - n[3] if neg else n[3]) - {0}
        return ('s', n[1], n[2], sg) if sg else False
    if t == 'not':
        return strict(n[1], not neg)
    if t in ('and', 'or'):
        f = AND if (t == 'and') != neg else OR
        return f([strict(x, neg) for x in n[1]])
    return NOT(n) if neg else n


class Runner(object):
    """runs in a worker process"""

    def __init__(self, S, R, cases, opts):
        self.S, self.R, self.cases = S, R, cases
        self.o = opts
        self.funcs = set()

    # one run -------------------------------------------------------------
    def run(self, ci, assign, pins, profile=False):
        c = set_ctx(Ctx(assign, pins))
        # a new copy of the package: nothing is left from other paths
        S = loader.load('sym')
        E = loader.ENV = Env(S, True)
        E.case = self.cases[ci]
        status, info = 'ok', None
        limit = self.cases[ci].get('path_timeout',
                                   self.o.get('path_timeout', 20))
        signal.setitimer(signal.ITIMER_REAL, limit)
        if profile:
            src = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'src')

            def prof(fr, ev, arg):
                if ev == 'call':
                    co = fr.f_code
                    if co.co_filename.startswith(src):
                        self.funcs.add(os.path.basename(co.co_filename)[:-3] +
                                       '.' + co.co_qualname)
            sys.setprofile(prof)
        try:
            self.cases[ci]['h'](S, E, **self.cases[ci]['args'])
        except PathAbort:
            status = 'abort'
        except CheckFailed as e:
            status, info = 'check', str(e)
        except Limit as e:
            status, info = 'limit', str(e)
        except PathTimeout:
            status, info = 'timeout', 'no result after %d s' % limit
        except z3.Z3Exception as e:
            status, info = 'limit', 'z3: ' + str(e)[:80]
        except RecursionError:
            status, info = 'error', 'RecursionError'
        except Exception as e:
            status = 'error'
            info = '%s: %s' % (type(e).__name__, str(e)[:200])
            if unknown_interface(e):
                status = 'limit'
            if self.o.get('debug'):
                traceback.print_exc()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            if profile:
                sys.setprofile(None)
        return c, E, status, info

    def model_assign(self, m, c):
        out = {}
        for x, kind in c.decls.items():
            v = m.eval(sym.z3var(x), model_completion=True)
            if kind == 'real':
                if z3.is_algebraic_value(v):
                    return None
                out[x] = Fraction(v.numerator_as_long(),
                                  v.denominator_as_long())
            elif kind == 'int':
                out[x] = Fraction(v.as_long())
            else:
                out[x] = v.as_signed_long()
        return out

    def _check(self, s, st, budget=None):
        t = time.time()
        s.set('timeout', int(budget or self.o.get('query_ms', 4000)))
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        st['queries'] += 1
        st['solver_s'] += time.time() - t
        return r

    def _solve(self, s, extra, st, c):
        """model of s /\\ extra or None (unsat) or 'unknown'"""
        s.push()
        try:
            for e in extra:
                s.add(e)
            r = self._check(s, st)
            if r == z3.unsat:
                return None
            a = None
            if r == z3.sat:
                a = self.model_assign(s.model(), c)
                if a is not None:
                    return a
            # algebraic model or undecided: a fresh non-incremental solver
            f = z3.Then('simplify', 'qfnra-nlsat').solver() if not any(
                k == 'bv' for k in c.decls.values()) else z3.Solver()
            f.add(s.assertions())
            r2 = self._check(f, st)
            if r2 == z3.unsat:
                return None
            if r2 == z3.sat:
                a = self.model_assign(f.model(), c)
                if a is not None:
                    return a
            if r == z3.sat or r2 == z3.sat:
                return 'algebraic'
            return 'unknown'
        finally:
            s.pop()

    def _nice(self, s, extra, st, c, a):
        """a model with small dyadic reals, if there is one"""
        reals = [x for x, k in c.decls.items() if k == 'real']
        if not reals or all(a[x].denominator in (1, 2, 4, 8, 16, 32, 64)
                            for x in reals):
            return a
        s.push()
        try:
            for e in extra:
                s.add(e)
            for den in (4, 64):
                s.push()
                for x in reals:
                    k = z3.Int('dy!%s' % x)
                    s.add(sym.z3var(x) == z3.ToReal(k) / den)
                r = self._check(s, st, 2000)
                b = self.model_assign(s.model(), c) if r == z3.sat else None
                s.pop()
                if b is not None:
                    return b
        finally:
            s.pop()
        return a

    # one task --------------------------------------------------------------
    def task(self, ci, assign, pins, bound, dec, st, profile=False):
        """returns (children, candidates)"""
        c, E, status, info = self.run(ci, assign, pins, profile)
        children, cands = [], []
        st['paths'] += 1
        st['checks'] += c.checks
        st['reached'] += E.reached
        tr = c.trace
        # the run must repeat the decisions of the path it was derived from
        if bound:
            hp = prefix_hash(tr, 0, 0, bound - 1)
            if len(tr) < bound or (hp, tr[bound - 1][1]) != dec:
                st['diverged'] += 1
        hs = [prefix_hash(tr, 0, 0, bound)] if bound <= len(tr) else [0]
        for i in range(bound, len(tr)):
            hs.append(prefix_hash(tr, hs[-1], i, i + 1))
        if status == 'limit':
            st['limits'][info] = st['limits'].get(info, 0) + 1
        for w in c.incomplete:
            st['limits'][w] = st['limits'].get(w, 0) + 1
        if status == 'abort':
            st['aborted'] += 1
        full = dict(c.assign)
        if status == 'ok':
            st['samples'] = [{'inputs': _js(full), 'decisions': len(tr),
                              'assertions': c.checks}]
        if status in ('check', 'error', 'timeout'):
            cands.append((status, info, full))
        # queries
        s = z3.SolverFor(self.o['logic']) if self.o.get('logic') else \
            z3.Solver()
        for b in c.base:
            s.add(b)
        for i in range(min(bound, len(tr))):
            n, v, _ = tr[i]
            s.add(node_z3(n if v else NOT(n)))
        obl = {}
        for k, n, msg in c.obligations:
            if k >= bound:
                obl.setdefault(k, []).append((n, msg))
        end = len(tr)
        for i in range(bound, end + 1):
            if i in obl and not (status == 'check' and i == end and False):
                ns = [n for n, _ in obl[i] if n is not False]
                if ns:
                    bad = node_z3(OR([NOT(n) for n in ns]))
                    r = self._solve(s, [bad], st, c)
                    if r == 'unknown' or r == 'algebraic':
                        st['unknown'] += 1
                    elif r is not None:
                        r = self._nice(s, [bad], st, c, r)
                        cands.append(('check', obl[i][0][1], r))
                    st['obligations'] += len(ns)
            if i == end:
                break
            n, v, p = tr[i]
            z = node_z3(n if v else NOT(n))
            if p == 'assume' or (p is not None and p[1] is None):
                s.add(z)
                continue
            st['branches'] += 1
            neg = node_z3(NOT(n) if v else n)
            r = self._solve(s, [neg], st, c)
            if r == 'algebraic':
                # only irrational solutions found: is there anything beyond
                # the boundary?
                r = self._solve(s, [node_z3(strict(n, v))], st, c)
                if r is None:
                    st['algebraic'] += 1
            if isinstance(r, str):
                st['unknown'] += 1
            elif r is not None:
                pp = {k: x for k, x in pins.items() if k[0] <= i}
                if p is not None and p != 'assume':
                    pp[p[0]] = p[1]
                children.append((r, pp, i + 1, (hs[i - bound], not v)))
            s.add(z)
        if c.overflow and status == 'ok':
            bad = z3.Or([z3.Not(x) for x in c.overflow])
            r = self._solve(s, [bad], st, c)
            if r is not None:
                k = 'possible 16-bit overflow in the encoding'
                st['limits'][k] = st['limits'].get(k, 0) + 1
        # validation of this path against the real code
        st['seen'] += 1
        if self.o.get('validate', 0) and status == 'ok' and \
                (st['seen'] % self.o['validate'] == 1 or
                 self.o['validate'] == 1):
            a = full
            if all(isinstance(v, int) or v.denominator <= 4096
                   for v in a.values()):
                r = concrete(loader.load('real', serial=True),
                             self.cases[ci], a, 30)
                if r is None:
                    st['validated'] += 1
                elif r[0] == 'abort':
                    pass
                else:
                    cands.append(('validation', r[1], a))
                    st['mismatch'] += 1
        return children, cands


def unknown_interface(e):
    """the harness itself calls something that is not there, or not with
    these arguments: nothing can be said about the property here"""
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    if os.path.basename(os.path.dirname(
            tb.tb_frame.f_code.co_filename)) != 'checks':
        return False
    if isinstance(e, AttributeError):
        return isinstance(e.obj, types.ModuleType) or \
            type(e.obj).__module__.startswith('permaviss') or \
            getattr(e.obj, '__module__', '').startswith('permaviss')
    return isinstance(e, TypeError) and re.search(
        r'required positional|takes .* positional|unexpected keyword',
        str(e)) is not None


def concrete(R, case, assign, timeout):
    """None when the harness passes on the concrete input, (kind, info)
    otherwise"""
    E = loader.ENV = Env(R, False, assign)
    E.case = case
    # time of this process; waiting for others (pools) may take longer
    signal.setitimer(signal.ITIMER_PROF, timeout)
    signal.setitimer(signal.ITIMER_REAL, timeout * 2.2)
    try:
        case['h'](R, E, **case['args'])
    except PathAbort:
        return 'abort', None
    except CheckFailed as e:
        return 'check', str(e)
    except PathTimeout:
        return 'timeout', 'no result after %d s' % timeout
    except Exception as e:
        if unknown_interface(e):
            return 'abort', None
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/permaviss/' in f.filename]
        loc = ' at %s:%d' % (os.path.basename(where[-1].filename),
                             where[-1].lineno) if where else ''
        return 'error', '%s: %s%s' % (type(e).__name__, str(e)[:200], loc)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
    return None


def _alarm(*a):
    raise PathTimeout()


def newst():
    return {'paths': 0, 'checks': 0, 'reached': 0, 'queries': 0,
            'solver_s': 0.0, 'unknown': 0, 'algebraic': 0, 'diverged': 0,
            'limits': {}, 'aborted': 0, 'branches': 0, 'obligations': 0,
            'validated': 0, 'mismatch': 0, 'seen': 0, 'samples': []}


def addst(a, b):
    for k, v in b.items():
        if k == 'limits':
            for x, n in v.items():
                a['limits'][x] = a['limits'].get(x, 0) + n
        elif k == 'samples':
            a[k] = (a[k] + v)[-2:]
        else:
            a[k] = a.get(k, 0) + v


def worker(conn, runner, seed):
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    rng = random.Random(seed)
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            return
        if msg is None:
            return
        ci, tasks, tlimit, first = msg
        st = newst()
        t0 = time.time()
        cands = []
        order = runner.cases[ci].get('order', 'dfs')
        while tasks and time.time() - t0 < tlimit and not cands:
            if order == 'random':
                j = rng.randrange(len(tasks))
                tasks[j], tasks[-1] = tasks[-1], tasks[j]
            a, p, b, d = tasks.pop()
            ch, ca = runner.task(ci, a, p, b, d, st, profile=first)
            first = False
            rng.shuffle(ch)
            tasks.extend(ch)
            cands.extend(ca)
        st['busy_s'] = time.time() - t0
        conn.send((ci, tasks, cands, st, runner.funcs))
        runner.funcs = set()


def run_check(pid, cases, opts, seed):
    import multiprocessing as mp
    t0 = time.time()
    deadline = t0 + opts['budget']
    S = loader.load('sym')
    R = loader.load('real', serial=True)
    random.seed(seed)
    nw = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 8))
    fr = [[({}, {}, 0, None)] for _ in cases]
    spent = [0.0] * len(cases)
    stats = [newst() for _ in cases]
    started = [False] * len(cases)
    busy = [0] * len(cases)
    funcs = set()
    ctxm = mp.get_context('fork')
    workers = []
    for w in range(nw):
        a, b = ctxm.Pipe()
        pr = ctxm.Process(target=worker, args=(
            b, Runner(S, R, cases, opts), seed * 1000 + w),
            daemon=True)
        pr.start()
        b.close()
        workers.append([a, pr, None])
    violation = None
    unrepro = []
    nreplay = 0
    lost = 0
    known = opts.get('known', {})
    knownhits = {}
    try:
        while violation is None:
            now = time.time()
            for w in workers:
                if w[2] is not None:
                    continue
                if now > deadline:
                    break
                # the case that has had the least time for its weight
                best = None
                for ci in range(len(cases)):
                    if fr[ci]:
                        k = (spent[ci] + 0.7 * busy[ci]) / cases[ci].get(
                            'weight', 1)
                        if best is None or k < best[0]:
                            best = (k, ci)
                if best is None:
                    break
                ci = best[1]
                n = len(fr[ci])
                idle = sum(1 for x in workers if x[2] is None)
                take = max(1, min(64, n // max(1, idle)))
                if cases[ci].get('order') == 'random':
                    random.shuffle(fr[ci])
                # hand out the shallow tasks (the biggest subtrees)
                fr[ci].sort(key=lambda t: -t[2])
                ts = fr[ci][-take:]
                del fr[ci][-take:]
                tl = 0.15 if n < 40 else opts.get('slice', 1.0)
                w[0].send((ci, ts, tl, not started[ci]))
                started[ci] = True
                w[2] = (ci, ts, time.time())
                busy[ci] += 1
            act = [w for w in workers if w[2] is not None]
            if not act:
                break
            if now > deadline + opts.get('path_timeout', 20) + 40:
                break
            ready = mp.connection.wait([w[0] for w in act] +
                                       [w[1].sentinel for w in act],
                                       timeout=5)
            for w in act:
                if w[0] in ready:
                    try:
                        ci, tasks, cands, st, fs = w[0].recv()
                    except EOFError:
                        lost += 1
                        busy[w[2][0]] -= 1
                        fr_loss(stats[w[2][0]])
                        respawn(w, ctxm, S, R, cases, opts, seed)
                        continue
                    busy[ci] -= 1
                    w[2] = None
                    spent[ci] += st.pop('busy_s')
                    fr[ci].extend(tasks)
                    addst(stats[ci], st)
                    funcs |= fs
                    for kind, info, assign in cands:
                        if violation is not None or nreplay > 40:
                            break
                        nreplay += 1
                        v = confirm(pid, cases[ci], kind, info, assign, opts)
                        if v is None:
                            unrepro.append({'case': cases[ci]['name'],
                                            'kind': kind, 'info': info,
                                            'inputs': _js(assign)})
                        else:
                            kf = match_known(known, v)
                            if kf is not None:
                                knownhits[kf] = v
                            else:
                                violation = v
                                break
                elif w[1].sentinel in ready:
                    lost += 1
                    busy[w[2][0]] -= 1
                    fr_loss(stats[w[2][0]])
                    respawn(w, ctxm, S, R, cases, opts, seed)
    finally:
        for w in workers:
            try:
                w[1].kill()
            except Exception:
                pass
        for w in workers:
            w[1].join(5)
    tot = newst()
    for s in stats:
        addst(tot, s)
    percase = []
    for ci, c in enumerate(cases):
        s = stats[ci]
        ex = not fr[ci] and not busy[ci] and not s['unknown'] and \
            not s['limits'] and not s['diverged']
        percase.append({'case': c['name'], 'bounds': c.get('bounds', ''),
                        'paths': s['paths'], 'branches': s['branches'],
                        'queries': s['queries'],
                        'obligations': s['obligations'],
                        'assertions': s['checks'],
                        'reached_end': s['reached'],
                        'unknown': s['unknown'],
                        'algebraic_boundary': s['algebraic'],
                        'diverged': s['diverged'],
                        'limits': s['limits'],
                        'assumption_aborts': s['aborted'],
                        'validated': s['validated'],
                        'samples': s['samples'],
                        'pending': len(fr[ci]),
                        'exhausted': bool(ex),
                        'cpu_s': round(spent[ci], 2)})
    rep = {'total': tot, 'cases': percase, 'functions': sorted(funcs),
           'unreproduced': unrepro[:20], 'n_unreproduced': len(unrepro),
           'replays': nreplay, 'violation': violation, 'lost_workers': lost,
           'wall_s': time.time() - t0, 'known': knownhits,
           'exhaustive': all(c['exhausted'] for c in percase)}
    return rep


def fr_loss(st):
    st['limits']['worker lost'] = st['limits'].get('worker lost', 0) + 1


def respawn(w, ctxm, S, R, cases, opts, seed):
    try:
        w[1].kill()
    except Exception:
        pass
    a, b = ctxm.Pipe()
    pr = ctxm.Process(target=worker, args=(
        b, Runner(S, R, cases, opts), seed + random.randrange(10**6)),
        daemon=True)
    pr.start()
    b.close()
    w[0], w[1], w[2] = a, pr, None


def _js(assign):
    return {k: (str(v) if isinstance(v, Fraction) else int(v))
            for k, v in assign.items()}


def match_known(known, v):
    for k, f in known.items():
        if f.get('case') == v['case'] and f.get('inputs') == v['inputs']:
            return k
    return None


def confirm(pid, case, kind, info, assign, opts):
    """replay the candidate on the unmodified code in a new interpreter"""
    variants = [assign]
    if any(isinstance(v, Fraction) and v.denominator > 4096
           for v in assign.values()):
        for den in (64, 1024, 1 << 20):
            variants.append({k: (Fraction(round(v * den), den)
                                 if isinstance(v, Fraction) else v)
                             for k, v in assign.items()})
    for a in variants:
        rec = {'property': pid, 'case': case['name'], 'inputs': _js(a),
               'found_by': kind, 'claim': info}
        d = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, '%s-%d-%d.json' % (pid, os.getpid(),
                                                 len(os.listdir(d))))
        with open(fn, 'w') as f:
            json.dump(rec, f, indent=1)
        env = dict(os.environ)
        try:
            r = subprocess.run([PY, os.path.join(VERIF, 'replay.py'), fn],
                               stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True,
                               timeout=opts.get('replay_timeout', 150),
                               env=env)
            rc, out = r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            rc, out = 99, ''
        if rc == 1:
            rec['observed'] = out.strip().splitlines()[-1] if out else ''
            with open(fn, 'w') as f:
                json.dump(rec, f, indent=1)
            rec['path'] = fn
            return rec
        os.remove(fn)
    return None
