"""Data of a grid as a sequence of Fourier transforms of other data.

A value is written as   scale * ops(base)   where ops is, per axis, a reduced word of
transforms (F forward, f inverse, S fftshift, s ifftshift); transforms of different
axes commute, F f and S s next to each other cancel.  Anything else is the base."""
from common import *
from axes import name, karg, rat, Rat
from terms import children
import vec as vecs

LETTER = {'numpy.fft.fftn': 'F', 'numpy.fft.ifftn': 'f', 'numpy.fft.fft': 'F', 'numpy.fft.ifft': 'f', 'numpy.fft.fft2': 'F', 'numpy.fft.ifft2': 'f', 'numpy.fft.fftshift': 'S', 'numpy.fft.ifftshift': 's',
          'scipy.fft.fftn': 'F', 'scipy.fft.ifftn': 'f', 'scipy.fft.fft': 'F', 'scipy.fft.ifft': 'f', 'scipy.fft.fftshift': 'S', 'scipy.fft.ifftshift': 's'}
CANCEL = {'Ff', 'fF', 'Ss', 'sS'}


class Chain(object):
    def __init__(self, base, scale, words):
        self.base, self.scale, self.words = base, scale, words

    def word(self, i):
        return self.words.get(i, '')

    def __repr__(self):
        return '%r * %s(%s)' % (self.scale, {k: v for k, v in self.words.items() if v}, show(self.base, 3))


def push(w, c):
    return w[:-1] if w and w[-1] + c in CANCEL else w + c


class FT(object):
    """reads values under one choice of path conditions; n: number of axes of the data"""

    def __init__(self, ax, n):
        self.ax, self.n, self.memo = ax, n, {}

    def of(self, t):
        if t not in self.memo:
            self.memo[t] = self._of(t)
        return self.memo[t]

    def _of(self, t):
        t = self.ax.pick(t)
        if t is None:
            return None
        n = name(t)
        if n in LETTER:
            x = karg(t, 'x', 0) or karg(t, 'a', 0)
            ks = {k for k, _ in t.a[2]}
            if x is None or ks - {'axes', 'axis', 'x', 'a'}:
                return None
            one = n.endswith(('.fft', '.ifft'))
            shift = LETTER[n] in 'Ss'
            if len(t.a[1]) > (2 if shift else 1):
                return None
            a = karg(t, 'axes', 1 if shift else None) or karg(t, 'axis')
            if a is None:
                axes = [self.n - 1] if one else list(range(self.n))
                if n.endswith(('fft2',)):
                    axes = [self.n - 2, self.n - 1]
            else:
                axes = vecs.ints(a)
                if axes is None and a.op == 'const' and isinstance(a.a[0], int):
                    axes = [a.a[0]]
            if axes is None:
                return None
            c = self.of(x)
            if c is None:
                return None
            w = dict(c.words)
            for i in axes:
                i = i + self.n if i < 0 else i
                w[i] = push(w.get(i, ''), LETTER[n])
            return Chain(c.base, c.scale, w)
        if n in ('numpy.multiply', 'numpy.divide', 'numpy.true_divide') and len(t.a[1]) == 2:
            t = mk('bin', '*' if n.endswith('multiply') else '/', *t.a[1])
        if t.op == 'bin' and t.a[0] in '*/':
            a, b = self.of(t.a[1]), t.a[2]
            s = self.ax.scalar(b) if self.number(b) else None
            if a is not None and s is not None:
                s = s if t.a[0] == '*' else s.inv()
                return Chain(a.base, a.scale * s, a.words) if s is not None else None
            s = self.ax.scalar(t.a[1]) if self.number(t.a[1]) else None
            b = self.of(b)
            if t.a[0] == '*' and b is not None and s is not None:
                return Chain(b.base, b.scale * s, b.words)
            return Chain(t, rat(1), {})
        if n in ('numpy.copy', 'numpy.array', 'numpy.asarray') and len(t.a[1]) == 1:
            return self.of(t.a[1][0])
        if t.op == 'mcall' and t.a[0] == 'copy' and not t.a[2]:
            return self.of(t.a[1])
        return Chain(t, rat(1), {})

    def number(self, t):
        t = self.ax.pick(t)
        if t is None:
            return False
        if t.op == 'bin':
            return self.number(t.a[1]) and self.number(t.a[2])
        if t.op == 'neg':
            return self.number(t.a[0])
        if name(t) in ('numpy.prod', 'numpy.product'):
            return True
        return t.op == 'const' or vecs.scalar(t)

    def found(self, t, bases, out=None, seen=None):
        """every largest part of t that is a transform of one of the bases"""
        out = [] if out is None else out
        seen = set() if seen is None else seen
        if t in seen:
            return out
        seen.add(t)
        c = self.of(t)
        if c is not None and c.base in bases:
            out.append(c)
            return out
        p = self.ax.pick(t)
        for x in children(p) if p is not None else ():
            self.found(x, bases, out, seen)
        return out


def target(state, wanted):
    """word and factor exponent taking one axis from a state to another"""
    if state == wanted:
        return '', 0
    return ('FS', 1) if wanted else ('sf', -1)


def matches(ch, v, states, wanted, sizes, normalize, rep, where, con, rule, what):
    """obligations that a chain took every axis from its state to the wanted one"""
    k = 0
    scale = rat(1)
    for i, (a, b) in enumerate(zip(states, wanted)):
        w, e = target(a, b)
        k += 1
        rep.ob(rule, '%s axis %d' % (con, i), ch.word(i) == w, where,
               '%s: axis %d is %s and recorded as %s afterwards, but was put through %s instead of %s' % (what, i, 'in Fourier space' if a else 'in map space', 'Fourier space' if b else 'map space', spell(ch.word(i)), spell(w)))
        if e and normalize:
            d = rat_of(v, sizes[i])
            scale = scale * (d if e > 0 else d.inv())
    rep.ob(rule, con + ' properties', ch.word(len(states)) == '', where, '%s: the property axis is put through %s' % (what, spell(ch.word(len(states)))))
    ok = v.same(ch.scale, scale)
    if ok is not None:
        rep.ob('factor', con, ok, where, '%s: values are multiplied by %r, expected %r' % (what, ch.scale, scale))
    return k


def rat_of(v, t):
    return v.ax.scalar(t)


def spell(w):
    return '.'.join({'F': 'forward', 'f': 'inverse', 'S': 'fftshift', 's': 'ifftshift'}[c] for c in w) or 'no transform'
