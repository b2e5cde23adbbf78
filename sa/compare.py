"""Comparison of the summaries of a function with those of the reviewed tree."""
import ast
import time
from . import terms as t
from .terms import raw
from .eval import Undecided
from .driver import summarise, make_world, evaluator, default_of
from .frontend import Program, Func, Class, Unsupported

MAXSECONDS = 45          # for one comparison
RETRYSECONDS = 120       # for seeing a difference differently
TOTALSECONDS = 600       # for a run


class Result:
    __slots__ = ('verdict', 'facets', 'why', 'level', 'nfacets', 'inlined', 'called', 'loops', 'shown')

    def __init__(self, verdict, facets=(), why='', level='mod', nfacets=0, inlined=(), called=(), loops=0, shown=None):
        self.verdict, self.facets, self.why, self.level, self.nfacets = verdict, list(facets), why, level, nfacets
        self.inlined, self.called, self.loops, self.shown = sorted(inlined), sorted(called), loops, shown or {}

    def __repr__(self):
        return '<%s %s %s %s>' % (self.verdict, self.level, self.facets, self.why)


def vocabulary(v):
    """Operators a facet uses that depend on names outside the package and on builtin methods."""
    out = set()
    for x in t.walk(v):
        if x.op in ('m', 'ext', 'ret', 'after', 'new', 'superext') and x.a and isinstance(x.a[0], str):
            out.add((x.op, x.a[0]))
        elif x.op in ('glob', 'extref', 'sym'):
            out.add((x.op, x.a[0]))
        elif x.op in ('field',):
            out.add((x.op, x.a[1]))
        elif x.op == 'const':
            pass
        else:
            out.add((x.op, None))
    return out


class Comparer:
    def __init__(self, spec_root, repo_root):
        self.sp = Program(spec_root)
        self.tp = Program(repo_root)
        self.sw = make_world(self.sp)
        self.tw = make_world(self.tp, self.sw)
        self.sw.absent = {q for q in self.sp.funcs if q not in self.tp.funcs}
        self.end = time.monotonic() + TOTALSECONDS

    def one(self, qual, level, tf=None):
        """Result at one level."""
        now = time.monotonic()
        if now > self.end:
            return Result('undecided', why='out of time', level=level)
        t.DEADLINE[0] = min(now + MAXSECONDS, self.end)
        try:
            return self._compare(qual, level, tf)
        except (TypeError, ValueError, AttributeError, KeyError, IndexError, AssertionError) as e:
            # code the engine has no rule for
            return Result('undecided', why='not understood: %s' % e, level=level)
        finally:
            t.DEADLINE[0] = None

    def _compare(self, qual, level, tf):
        sf = self.sp.funcs[qual]
        tf = tf or self.tp.funcs.get(qual)
        t.reset()
        self.sw.reset()
        self.tw.reset()
        extra = tf.params_all()[len(sf.params_all()):]
        if len(sf.params_all()) > len(tf.params_all()) or any(default_of(tf, n) is None for n in extra):
            return Result('undecided', why='signature changed', level=level)
        try:
            a = summarise(self.sw, sf, level)
        except (Undecided, t.TooBig, RecursionError) as e:
            return Result('undecided', why='reference: %s' % e, level=level)
        try:
            b = summarise(self.tw, tf, level)
        except Undecided as e:
            return Result('undecided', why=str(e), level=level)
        except t.TooBig:
            return Result('undecided', why='summary too large', level=level)
        except RecursionError:
            return Result('undecided', why='summary too deep', level=level)
        except Unsupported as e:
            return Result('undecided', why=str(e), level=level)
        bad, shown = self.differences(a, b)
        if bad:
            r = self.retry(qual, sf, tf, level, a, b)
            if r is not None:
                a, b = r
                bad, shown = [], {}
        foreign = set()
        if bad:
            known = set()
            for v in a.facets.values():
                known |= vocabulary(v)
            for k in bad:
                y = b.facets.get(k)
                if y is not None:
                    foreign |= vocabulary(y) - known
        r = Result('differ' if bad else 'equal', bad, '', level, len(a.facets), b.inlined, b.called, b.loops, shown)
        r.why = ','.join('%s:%s' % x for x in sorted(foreign, key=str))
        return r

    def retry(self, qual, sf, tf, level, a, b):
        """Summaries that agree, of the same two functions seen differently, or None."""
        # a difference is only reported when this fails, so it has time of its own
        t.DEADLINE[0] = min(time.monotonic() + RETRYSECONDS, self.end + RETRYSECONDS)
        if self.congruent(a, b):
            return a, a
        force = frozenset()
        for _ in range(4):
            if self.tw.sliced:
                # a loop over a slice where the reviewed one may index: equal where the reviewed one stays in the sequence
                self.tw.reset()
                self.tw.trust = True
                try:
                    c = summarise(self.tw, tf, level, force)
                    if not self.differences(a, c)[0]:
                        return a, c
                except (Undecided, t.TooBig, RecursionError, Unsupported):
                    pass
                finally:
                    self.tw.trust = False
            # functions only one of the two calls: replaced by their bodies
            more = {q for q in set(a.called) ^ set(b.called) if q in self.sp.funcs and q in self.tp.funcs}
            if not more - force - {qual}:
                return None
            force |= more - {qual}
            try:
                self.sw.reset()
                self.tw.reset()
                a = summarise(self.sw, sf, level, force)
                b = summarise(self.tw, tf, level, force)
            except (Undecided, t.TooBig, RecursionError, Unsupported):
                return None
            if not self.differences(a, b)[0]:
                return a, b
        return None

    def congruent(self, a, b):
        """The facets agree once equalities are used where they hold."""
        memo = {}
        try:
            for k in self.differences(a, b)[0]:
                x, y = a.facets.get(k), b.facets.get(k)
                if x is None or y is None or t.congruent(x, memo) is not t.congruent(y, memo):
                    return False
        except (t.TooBig, RecursionError, Undecided, Unsupported, TypeError, ValueError, AttributeError, KeyError, IndexError,
                AssertionError):
            return False
        return True

    @staticmethod
    def differences(a, b):
        bad, shown = [], {}
        for k in sorted(set(a.facets) | set(b.facets)):
            x, y = a.facets.get(k), b.facets.get(k)
            if x is y:
                continue
            bad.append(k)
            shown[k] = (x, y)
        return bad, shown

    def function(self, qual, tf=None):
        """Equal at some level, else the outcome at the first level."""
        if (tf or self.tp.funcs.get(qual)) is None:
            return Result('undecided', why='not in the tree')
        first = None
        for level in ('mod', 'priv'):
            r = self.one(qual, level, tf)
            if r.verdict == 'equal':
                return r
            if first is None or first.verdict == 'undecided':
                first = r
        return first
