"""Path exploration by re-execution: a symbolic bool in a branch asks
`Ctx.decide`, which forks; runs are replayed with decision prefixes."""
import time
import ir
from ir import *
import prover

CUR = None           # current Ctx


class PathEnd(BaseException):
    """this path ends here (loop back edge checked, infeasible, ...)"""


class Budget(BaseException):
    pass


class Ctx:
    def __init__(self, ver, prefix):
        self.ver = ver
        self.prefix = list(prefix)
        self.dec = []
        self.decb = []
        self.pc = []
        self.facts = []
        self.forks = []
        self.active = []         # loop counters in scope (var atoms)
        self.bodies = []         # the loops whose bodies are being run
        self.counter = {}
        self.ghost = {}
        self.heap_roots = []
        self.frames = []
        self.rng = None
        self.written = set()
        self.loopocc = {}
        self.heads = 0

    def fresh_name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        # names are path dependent: include the decisions taken so far
        h = ''.join('T' if d[0] else 'F' for d in self.dec if d[1])
        return '%s.%d%s' % (base, n, ('.' + h) if h else '')

    def fresh(self, base, sort='R', lo=None, hi=None, args=None):
        """fresh symbolic scalar depending on the enclosing loop counters"""
        n = self.fresh_name(base)
        ks = [P(k) for k in self.active]
        return app('$' + n, ks, sort) if ks else P(mk('var', ('$' + n + '#',), sort))

    def hyps(self):
        return self.pc + self.facts

    def assume(self, b):
        b = B(b)
        if b is TRUE:
            return
        if b is FALSE:
            raise PathEnd('infeasible')
        (self.pc).append(b)

    def fact(self, b):
        b = B(b)
        if b is not TRUE:
            self.facts.append(b)

    def known(self, b):
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if b in self.pc or b in self.facts:
            return True
        nb = NOT(b)
        if nb in self.pc or nb in self.facts:
            return False
        return None

    def decide(self, b, note=''):
        b = B(b)
        r = self.known(b)
        if r is not None:
            return r
        i = len(self.dec)
        if i < len(self.prefix):
            val, forked = self.prefix[i]
        else:
            self.ver.tick()
            t = self.ver.feasible(self.hyps(), b)
            f = self.ver.feasible(self.hyps(), NOT(b)) if t else True
            if t and f:
                self.ver.push(self.dec + [(False, True)])
                val, forked = True, True
            else:
                if not t and self.ver.linear_unsat(self.hyps()):
                    raise PathEnd('infeasible')
                val, forked = t, False
        self.dec.append((val, forked))
        lit = b if val else NOT(b)
        self.decb.append(lit if forked else None)
        self.pc.append(lit)
        return val

    def choose(self, note=''):
        """nondeterministic choice (both explored)"""
        i = len(self.dec)
        if i < len(self.prefix):
            val, forked = self.prefix[i]
        else:
            self.ver.push(self.dec + [(False, True)])
            val, forked = True, True
        self.dec.append((val, forked))
        self.decb.append(None)
        return val

    def prove(self, b, timeout=None):
        b = B(b)
        r = self.known(b)
        if r is not None:
            return r
        return self.ver.prove(self.hyps(), b, timeout)


def cur():
    return CUR


def set_cur(c):
    global CUR
    CUR = c
