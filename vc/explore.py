"""Explores all paths of a contract and discharges its obligations."""
import time
import traceback

import z3

from .core import ENG, PathDead, Unsupported, Budget, VCError, prove, is_t, is_f, SOLVER_TIME, FALSE
from . import nparr as A
from .symspec import SymSpec, model_values
from .spec import StopContract


class Report:
    def __init__(self):
        self.paths = 0
        self.dead = 0
        self.obligations = 0
        self.discharged = 0
        self.backends = {}
        self.refuted = []
        self.unknown = []
        self.unsupported = []
        self.crashed = []
        self.names = {}
        self.wall = 0.0
        self.nontrivial = 0

    def complete(self):
        return not (self.refuted or self.unknown or self.unsupported or self.crashed) and self.obligations > 0

    def as_dict(self):
        d = dict(self.__dict__)
        d['complete'] = self.complete()
        return d


def explore(contract, sizes=None, budget=40.0, ms=6000, max_paths=4000, stop_on_refuted=3, verbose=False):
    rep = Report()
    t0 = time.time()
    ENG.reset_all()
    ENG.work = [[]]
    ENG.deadline = t0 + budget
    slow = {}

    def prover(S, name, pc, goal, detail=None):
        rep.obligations += 1
        ENG.poll()
        if ENG.sums:
            A.sum_lemmas()
            pc = list(ENG.pc)
        left = ENG.deadline - time.time()
        t = time.time()
        st, be, model = prove(pc, goal, ms=min(ms, max(left, 0.5) * 1000))
        dt = time.time() - t
        if dt > slow.get(name, 0):
            slow[name] = dt
        r = rep.names.setdefault(name, [0, 0])
        r[0] += 1
        if st == 'proved':
            rep.discharged += 1
            rep.backends[be] = rep.backends.get(be, 0) + 1
            if be != 'simplifier':
                rep.nontrivial += 1
            r[1] += 1
            if verbose:
                print('   proved %-60s %s %.2f' % (name, be, dt))
            return
        if st == 'refuted':
            try:
                vals = model_values(model, S.named)
            except Exception as e:
                vals = {}
            rep.refuted.append({'name': name, 'values': vals, 'trace': list(ENG.trace), 'detail': detail})
            if verbose:
                print('   REFUTED %s %s %s' % (name, detail or '', {k: v for k, v in list(vals.items())[:40]}))
        else:
            rep.unknown.append({'name': name, 'trace': list(ENG.trace), 'detail': detail})
            if verbose:
                print('   unknown %s %.2f %s' % (name, dt, detail or ''))

    while ENG.work:
        if len(rep.refuted) >= stop_on_refuted or len(rep.unsupported) > 5 or len(rep.unknown) > 8:
            break
        if rep.paths >= max_paths or time.time() > ENG.deadline:
            rep.unsupported.append('budget: %d paths explored, %d pending' % (rep.paths, len(ENG.work)))
            break
        prefix = ENG.work.pop()
        ENG.start(prefix)
        S = SymSpec(sizes, prover)
        try:
            contract.fn(S)
            rep.paths += 1
        except StopContract:
            rep.paths += 1
        except PathDead:
            rep.dead += 1
        except Unsupported as e:
            rep.unsupported.append('%s' % e)
            if verbose:
                print('   UNSUPPORTED %s' % e)
                traceback.print_exc()
        except Budget as e:
            rep.unsupported.append('budget: %s (%d paths done, %d pending)' % (e, rep.paths, len(ENG.work)))
            break
        except RecursionError as e:
            rep.unsupported.append('recursion')
        except z3.Z3Exception as e:
            rep.unsupported.append('z3: %s' % e)
            if verbose:
                traceback.print_exc()
        except Exception as e:
            if ENG.pending is not None:
                rep.unsupported.append('%s' % ENG.pending)
                continue
            rep.crashed.append('%s: %s' % (type(e).__name__, e))
            if verbose:
                traceback.print_exc()
            if len(rep.crashed) > 3:
                break
    rep.wall = time.time() - t0
    rep.slow = sorted(slow.items(), key=lambda x: -x[1])[:3]
    return rep
