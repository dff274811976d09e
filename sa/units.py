"""Unit strings as monomials: coefficient, power of h, base units."""
import re

BASE = {'kpc': (1e-3, 'Mpc'), 'pc': (1e-6, 'Mpc'), 'Mpc': (1, 'Mpc'), 'Gpc': (1e3, 'Mpc'), 'Gyr': (1e9, 'yr'), 'Myr': (1e6, 'yr'), 'yr': (1, 'yr'),
        'ckpc': (1e-3, 'Mpc'), 'cMpc': (1, 'Mpc')}
NODIM = {'none', '', '?', 'mag', 'dimensionless', 'radians', 'rad', 'radian', 'deg', 'degrees'}


class Unit(object):
    def __init__(self, c=1.0, h=0, d=None):
        self.c, self.h, self.d = c, h, dict(d or {})

    def mul(self, o, s=1):
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, 0) + s * v
        return Unit(self.c * o.c ** s, self.h + s * o.h, {k: v for k, v in d.items() if v})

    def power(self, n):
        return Unit(self.c ** n, self.h * n, {k: v * n for k, v in self.d.items()})


def parse(s):
    """Unit or None when the text is not understood"""
    if not isinstance(s, str):
        return None
    if s.strip().lower() in NODIM:
        return Unit()
    toks = re.findall(r'\d+\.?\d*(?:[eE][+-]?\d+)?|[A-Za-z_]+|\*\*|\^|[*/()\-+]', s)
    if ''.join(toks) != re.sub(r'\s', '', s):
        return None
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def atom():
        t = peek()
        pos[0] += 1
        if t == '(':
            u = expr()
            if peek() != ')':
                raise ValueError
            pos[0] += 1
        elif re.match(r'\d', t):
            u = Unit(float(t))
        elif t == 'h':
            u = Unit(1, 1)
        elif t in BASE:
            u = Unit(BASE[t][0], 0, {BASE[t][1]: 1})
        elif re.match(r'[A-Za-z_]+$', t):
            u = Unit(1, 0, {t: 1})
        else:
            raise ValueError
        if peek() in ('^', '**'):
            pos[0] += 1
            sg = 1
            if peek() in '-+':
                sg = -1 if peek() == '-' else 1
                pos[0] += 1
            u = u.power(sg * int(peek()))
            pos[0] += 1
        elif peek() in ('-',):
            pos[0] += 1
            u = u.power(-int(peek()))
            pos[0] += 1
        return u

    def expr():
        u = atom()
        while peek() is not None and peek() != ')':
            if peek() == '/':
                pos[0] += 1
                u = u.mul(atom(), -1)
            else:
                if peek() == '*':
                    pos[0] += 1
                u = u.mul(atom())
        return u
    try:
        u = expr()
        return u if pos[0] == len(toks) else None
    except (ValueError, TypeError, IndexError, AttributeError):
        return None
