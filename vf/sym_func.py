"""Uninterpreted user callbacks (fx, hx, Jacobians, residuals ...)."""
from .ctx import ctx, Unsupported
from .sc import Sc, to_sc, ONE, ZERO
from .mat import Mat, Algebra, d1, deq
from .arr import SymArr, lift
from . import arr as A
import numpy as np


def argkey(v):
    if v is None:
        return ('none',)
    if isinstance(v, (str, bytes, tuple)) and not isinstance(v, (SymArr,)):
        if isinstance(v, tuple):
            return tuple(argkey(x) for x in v)
        return v
    v = lift(v)
    if isinstance(v, Sc):
        return ('s', v.key())
    return ('m', v.nd, v.mat.key())


class SymFunc:
    """f: R^n -> R^m, arbitrary but deterministic and pure"""

    def __init__(self, name, m, col=False):
        self.name, self.m, self.col = name, to_sc(m), col
        self.__name__ = name

    def __deepcopy__(self, memo):
        return self

    def __call__(self, x, *args, **kw):
        ex = tuple(argkey(a) for a in args) + tuple((k, argkey(kw[k])) for k in sorted(kw))
        xv = lift(x)
        if isinstance(xv, Sc):
            xm, nd = Mat.scalar_mat(xv), 1
        else:
            xm, nd = xv.mat.renorm(), xv.nd
        Al = Algebra.cur()
        if not d1(xm.cols):
            raise Unsupported('callback on a matrix')
        from .loops import mat_mentions, head
        for lp in reversed(ctx().loops):
            g = lp.gen_atom()
            if mat_mentions(lp, g, xm):
                # x = Y' e_k : map over the rows of Y
                from .loops import sum_over
                e = Mat(lp.n, ONE, {(g.id,): ONE})
                Y = sum_over(lp, e @ xm.T).renorm()
                key = ('fmap', self.name, Y.key(), ex)
                a = Al.by_key.get(key)
                if a is None:
                    a = Al.atom('%s(%d)' % (self.name, len(Al.atoms)), lp.n, self.m, 'fmap', (self.name, Y, ex, (args, kw)), key=key)
                r = Mat.of(a).T @ Mat.of(g)
                return SymArr(r, 2 if (nd == 2 or self.col) else 1)
        key = ('fapp', self.name, xm.key(), ex)
        a = Al.by_key.get(key)
        if a is None:
            a = Al.atom('%s(%d)' % (self.name, len(Al.atoms)), self.m, ONE, 'fapp', (self.name, xm, ex, (args, kw)), key=key)
        return SymArr(Mat.of(a), 2 if (nd == 2 or self.col) else 1)


class SymJac:
    def __init__(self, name, m, n):
        self.name, self.m, self.n = name, to_sc(m), to_sc(n)
        self.__name__ = name

    def __deepcopy__(self, memo):
        return self

    def __call__(self, x, *args, **kw):
        ex = tuple(argkey(a) for a in args) + tuple((k, argkey(kw[k])) for k in sorted(kw))
        xv = lift(x)
        xm = Mat.scalar_mat(xv) if isinstance(xv, Sc) else xv.mat.renorm()
        key = ('jac', self.name, xm.key(), ex)
        Al = Algebra.cur()
        a = Al.by_key.get(key)
        if a is None:
            a = Al.atom('%s(%d)' % (self.name, len(Al.atoms)), self.m, self.n, 'fapp', (self.name, xm, ex, (args, kw)), key=key)
        return SymArr(Mat.of(a), 2)
