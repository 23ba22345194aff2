#!/usr/bin/env python3
"""Grammars: a curated pool and random ones, as C++ (real library types) and as text for the reference model.

A node is a tuple. Literals are tuples of symbol codes.
  ('any', lit) ('none', lit) ('all', lit) ('anyt',) ('eps',) ('choice', [..]) ('seq', [..]) ('maybe', p) ('exactly', n, p)
  ('plus', p) ('star', p) ('delim', p, d) ('delimk', p, d) ('ignore', p) ('complete', p) ('join', p)
  ('map', site, ret, pss, apply, p) ('filter', site, kind, apply, p) ('name', text, p) ('rec', i)
ret: 0-6 flavour of value, 10 nothing, 11 its argument, 12 int, 13 trimmed span, 14 nothing whatever it is given, 20 constant, 21 defaulted, 30-36 into,
40.. types of the standard library: 40 string, 41 vector<int>, 42 optional<int>, 43 tuple<int, int>, 44 unique_ptr<int>, 45 bool, 46 array<int, 2>, 47 pair<int, int>, 48 variant<int, bool>, 49 vector of values, 50 tuple<move-only value, int>.
Ways of writing a parser, only in public style; resolved by normalise():
  ('not', p)                       operator!
A custom parser is a name '@' (its type deduced) or an into with pass style 9 (its result_type constructed from the value of the parser it stands for).
  ('chain', [p, leaf..], tree)     modifiers applied in a given association; a leaf is a node with ('hole',) in it
  ('subst', [p, leaf..], [(name, tree)..])   sub() with one or more substitutions
"""
import random

# ---------------------------------------------------------------- helpers to write grammars
def lit(s): return tuple(ord(c) for c in s)
def A(s): return ('any', tuple(sorted(set(lit(s)))))
def N(s): return ('none', tuple(sorted(set(lit(s)))))
def L(s): return ('all', lit(s))
ANY = ('anyt',)
EPS = ('eps',)
def C(*ps): return ('choice', list(ps))
def S(*ps): return ('seq', list(ps))
def M(p): return ('maybe', p)
def E(n, p): return ('exactly', n, p)
def P(p): return ('plus', p)
def Z(p): return ('star', p)
def D(p, d): return ('delim', p, d)
def DK(p, d): return ('delimk', p, d)
def I(p): return ('ignore', p)
def CP(p): return ('complete', p)
def J(p): return ('join', p)
def NM(p, n='nm'): return ('name', n, p)
def F(p, ret=0, pss=0, ap=0): return ('map', 0, ret, pss, ap, p)
def X(p, kind=3, ap=0): return ('filter', 0, kind, ap, p)
def R(i): return ('rec', i)
def NOT(p): return ('not', p)
HOLE = ('hole',)

VOID = 'void'

class Bad(Exception):
    pass

# ---------------------------------------------------------------- types
STD = {40: 'str', 41: ('vec', 'int'), 42: ('opt', 'int'), 43: ('tup', 'int', 'int'), 44: 'uptr', 45: 'bool', 46: ('arr', 2, 'int'), 47: ('pair', 'int', 'int'), 48: ('var', 'int', 'bool'), 49: ('vec', ('tok', 0)), 50: ('tup', ('tok', 1), 'int')}
def ty(n, rec=None):
    k = n[0]
    if k in ('any', 'none', 'all', 'anyt', 'join'):
        if k == 'join':
            t = ty(n[1], rec)
            if not joinable(t): raise Bad('join')
        return 'span'
    if k == 'eps': return VOID
    if k == 'ignore':
        ty(n[1], rec); return VOID
    if k in ('complete', 'maybe', 'plus', 'star'):
        t = ty(n[1], rec)
        if k == 'complete': return t
        if t == VOID: return VOID
        return ({'maybe': 'opt', 'plus': 'vec', 'star': 'vec'}[k], t)
    if k == 'name': return ty(n[2], rec)
    if k == 'exactly':
        t = ty(n[2], rec)
        if t == VOID: return VOID
        if not defaultable(t): raise Bad('default')
        return ('arr', n[1], t)
    if k == 'seq':
        ts = [t for t in (ty(p, rec) for p in n[1]) if t != VOID]
        if not ts: return VOID
        for t in ts:
            if not defaultable(t): raise Bad('default')
        return ts[0] if len(ts) == 1 else ('tup',) + tuple(ts)
    if k == 'choice':
        ts = choice_types(n, rec)
        if not ts: return VOID
        if not defaultable(ts[0]): raise Bad('default')
        return ts[0] if len(ts) == 1 else ('var',) + tuple(ts)
    if k in ('delim', 'delimk'):
        a, b = ty(n[1], rec), ty(n[2], rec)
        if k == 'delim': b = VOID
        if a == VOID and b == VOID: return VOID
        if b == VOID: return ('vec', a)
        if a == VOID: return ('vec', b)
        return ('pair', ('vec', a), ('vec', b))
    if k == 'map':
        _, site, ret, pss, ap, p = n
        t = ty(p, rec)
        if ap:
            if not (isinstance(t, tuple) and t[0] in ('tup', 'arr', 'pair')) or textual(p, rec): raise Bad('apply')
            first = t[1] if t[0] != 'arr' else t[2]
            if t[0] == 'arr' and t[1] > 12: raise Bad('apply')
            el = list(t[1:]) if t[0] != 'arr' else [t[2]]
        else:
            first = t
            el = [t]
        if ret <= 6 or ret in (10, 12, 14):
            r = ('tok', ret) if ret <= 6 else 'int' if ret == 12 else VOID
        elif ret == 11:
            if first == VOID: raise Bad('pass')
            if pss == 2 and (not copyable(first) or copy_hazard(first)): raise Bad('pass')
            r = first
        elif ret == 13:
            if first != 'span': raise Bad('trim')
            r = 'span'
        elif ret in (20, 21): r = 'int'
        elif ret >= 40: r = STD[ret]
        else:
            if t == VOID: raise Bad('into')
            r = ('tokc', site, ret - 30)
            if r in (t, first): raise Bad('into itself')     # that would be a copy
        return r
    if k == 'filter':
        t = ty(n[4], rec)
        if n[3] and (not (isinstance(t, tuple) and t[0] in ('tup', 'arr', 'pair')) or textual(n[4], rec)): raise Bad('apply')
        if n[2] >= 10 and t != VOID and (not copyable(t) or copy_hazard(t)): raise Bad('copy')
        return t
    if k == 'rec':
        return rec[n[1]]
    raise Exception(k)

def textual(n, rec):
    """The model may hold this value as text only (default value of an alternative without value)."""
    while n[0] in ('name', 'complete', 'filter'): n = kids(n)[0]
    if n[0] == 'choice':
        return any(ty(p, rec) == VOID or textual(p, rec) for p in n[1])
    if n[0] == 'seq':
        nv = [p for p in n[1] if ty(p, rec) != VOID]
        return len(nv) == 1 and textual(nv[0], rec)
    return n[0] == 'map' and n[2] == 11

def choice_types(n, rec):
    out = []
    for p in n[1]:
        t = ty(p, rec)
        if t != VOID and t not in out: out.append(t)
    return out

def defaultable(t):
    if isinstance(t, str): return True
    if t[0] == 'tok': return t[1] != 6
    if t[0] == 'tokc': return t[2] != 6
    if t[0] in ('tup', 'pair'): return all(defaultable(x) for x in t[1:])
    if t[0] == 'arr': return defaultable(t[2])
    if t[0] == 'var': return defaultable(t[1])
    return True

def copyable(t):
    if t == 'uptr': return False
    if isinstance(t, str): return True
    if t[0] == 'tok': return t[1] not in (1, 4)
    if t[0] == 'tokc': return t[2] not in (1, 4)
    if t[0] == 'arr': return copyable(t[2])
    return all(copyable(x) for x in t[1:])

def copy_hazard(t):
    """libstdc++ 13 takes a variant of vectors, strings and trivial types for one that is never valueless; when the copy of an
    alternative throws, the destructor of the unfinished copy runs off the end of a switch. A user function that copies
    such a value would meet that, whatever the library under test does."""
    if isinstance(t, str): return False
    if t[0] in ('tok', 'tokc'): return False
    if t[0] == 'arr': return copy_hazard(t[2])
    if t[0] == 'var' and any(x == 'str' or x[0] == 'vec' for x in t[1:]) and not any(x[0] in ('tok', 'tokc', 'opt', 'pair', 'tup') for x in t[1:]): return True
    return any(copy_hazard(x) for x in t[1:])

def joinable(t):
    if t == 'span': return True
    if isinstance(t, str): return False
    if t[0] in ('opt', 'vec'): return joinable(t[1])
    if t[0] == 'arr': return joinable(t[2])
    if t[0] == 'tup': return all(joinable(x) for x in t[1:])
    return False

def deftext(t):
    if t == 'span': return 's_'
    if t == 'int': return 'i0'
    if t in ('str', 'bool', 'uptr'): return {'str': 'z', 'bool': 'b0', 'uptr': 'o-'}[t]
    if t[0] in ('tok', 'tokc'): return 'k!d'
    if t[0] == 'opt': return '?-'
    if t[0] == 'vec': return '{}'
    if t[0] == 'arr': return '[' + ','.join([deftext(t[2])] * t[1]) + ']'
    if t[0] == 'tup': return '(' + ','.join(deftext(x) for x in t[1:]) + ')'
    if t[0] == 'pair': return '(%s&%s)' % (deftext(t[1]), deftext(t[2]))
    if t[0] == 'var': return '<0:' + deftext(t[1]) + '>'
    raise Exception(t)

# ---------------------------------------------------------------- traversal
KIDS = {'maybe': 1, 'plus': 1, 'star': 1, 'ignore': 1, 'complete': 1, 'join': 1, 'exactly': 2, 'map': 5, 'filter': 4, 'name': 2, 'not': 1}
def kids(n):
    k = n[0]
    if k in ('choice', 'seq', 'chain', 'subst'): return list(n[1])
    if k in ('delim', 'delimk'): return [n[1], n[2]]
    if k in KIDS: return [n[KIDS[k]]]
    return []

def rebuild(n, ks):
    k = n[0]
    if k in ('choice', 'seq'): return (k, list(ks))
    if k in ('chain', 'subst'): return (k, list(ks), n[2])
    if k in ('delim', 'delimk'): return (k, ks[0], ks[1])
    if k in KIDS:
        l = list(n); l[KIDS[k]] = ks[0]; return tuple(l)
    return n

def sites(n, counter):
    """Number user functions."""
    ks = [sites(x, counter) for x in kids(n)]
    n = rebuild(n, ks)
    if n[0] in ('map', 'filter'):
        counter[0] += 1
        l = list(n); l[1] = counter[0]; n = tuple(l)
    return n

def walk(n):
    yield n
    for x in kids(n): yield from walk(x)

def freeze(n):
    return tuple(freeze(x) if isinstance(x, (list, tuple)) else x for x in n)

# ---------------------------------------------------------------- operator simplifications (public style)
def n_seq(a, b):
    if a[0] == 'all' and b[0] == 'all': return ('all', a[1] + b[1])
    l = a[1] if a[0] == 'seq' else [a]
    r = b[1] if b[0] == 'seq' else [b]
    return ('seq', list(l) + list(r))

def n_choice(a, b):
    if freeze(a) == freeze(b): return a
    ka, kb = a[0], b[0]
    if ka in ('any', 'none') and kb in ('any', 'none'):
        sa, sb = set(a[1]), set(b[1])
        if ka == 'any' and kb == 'any': return ('any', tuple(sorted(sa | sb)))
        if ka == 'none' and kb == 'none': return ('none', tuple(sorted(sa & sb)))
        if ka == 'any': return ('none', tuple(sorted(sb - sa)))
        return ('none', tuple(sorted(sa - sb)))
    l = a[1] if ka == 'choice' else [a]
    r = b[1] if kb == 'choice' else [b]
    return ('choice', list(l) + list(r))

def normalise(n):
    """The parser that operators and modifiers make of it."""
    k = n[0]
    if k == 'chain':
        r = normalise(n[1][0])
        for i in flat(n[2]): r = put(n[1][i], r)
        return r
    if k == 'subst':
        r = normalise(n[1][0])
        for name, tree in n[2]: r = replace(r, name, lambda x: fold(n[1], tree, x))
        return r
    return simplify(rebuild(n, [normalise(x) for x in kids(n)]))

def flat(tree):
    """Which modifiers, in the order of application."""
    return [tree] if isinstance(tree, int) else flat(tree[0]) + flat(tree[1])

def fill(leaf, p):
    return p if leaf == HOLE else rebuild(leaf, [fill(x, p) for x in kids(leaf)])

def put(leaf, p):
    """A modifier applied to a parser."""
    if leaf[0] == 'subst':
        for name, tree in leaf[2]: p = replace(p, name, lambda x: fold(leaf[1], tree, x))
        return p
    return simplify(fill(normalise(leaf), p))

def fold(ks, tree, p):
    for i in flat(tree): p = put(ks[i], p)
    return p

def custom(n):
    return n[0] == 'name' and n[1] == '@' or n[0] == 'map' and 30 <= n[2] < 40 and n[3] == 9

def replace(n, name, f):
    if custom(n): return n          # what a custom parser stands for is its own affair
    n = rebuild(n, [replace(x, name, f) for x in kids(n)])
    return f(n[2]) if n[0] == 'name' and n[1] == name else n

def simplify(n):
    k = n[0]
    ks = kids(n)
    if k in ('seq', 'choice'):
        f = n_seq if k == 'seq' else n_choice
        r = ks[0]
        for x in ks[1:]: r = f(r, x)
        return r
    if k == 'not':
        return ({'any': 'none', 'none': 'any'}[n[1][0]], n[1][1])
    if k == 'maybe':
        c = n[1][0]
        if c == 'maybe' or c == 'star': return n[1]
        if c == 'plus': return ('star', n[1][1])
    if k == 'plus':
        c = n[1][0]
        if c == 'plus' or c == 'star': return n[1]
        if c == 'maybe': return ('star', n[1][1])
    if k == 'star':
        c = n[1][0]
        if c == 'star': return n[1]
        if c in ('plus', 'maybe'): return ('star', n[1][1])
    if k in ('ignore', 'complete', 'join') and n[1][0] == k: return n[1]
    return n

def plain(n):
    """As written, without the simplifications of operators (only negation, which has no meaning of its own)."""
    n = rebuild(n, [plain(x) for x in kids(n)])
    return simplify(('not', normalise(n[1]))) if n[0] == 'not' else n

# ---------------------------------------------------------------- C++
CPPT = {'char': 'char', 'wchar': 'wchar_t', 'c8': 'char8_t', 'c16': 'char16_t', 'c32': 'char32_t', 'int': 'int', 'enum': 'h::En', 'elem': 'h::Elem', 'uchar': 'unsigned char', 'i64': 'long long', 'dbl': 'double'}
MAXSYM = {'char': 255, 'wchar': 100000, 'c8': 255, 'c16': 65535, 'c32': 100000, 'int': 100000, 'enum': 100000, 'elem': 100000, 'uchar': 255, 'i64': 100000, 'dbl': 100000}
PREFIX = {'char': '', 'wchar': 'L', 'c8': 'u8', 'c16': 'u', 'c32': 'U'}
CHARS = ('char', 'wchar', 'c8', 'c16', 'c32', 'uchar')

class Emit:
    def __init__(self, vt, gi):
        self.vt, self.gi = vt, gi
        self.customs = {}

    def cust(self, n, norm=lambda p: p):
        """A custom parser for this node: the same one for the same parser and result."""
        if n[0] == 'name': p, res = n[2], ''
        else: p, res = n[5], 'using result_type = h::TokC<%d, %d>; ' % (n[1], n[2] - 30)
        if any(x[0] == 'rec' for x in walk(p)): raise Bad('custom around a recursive parser')
        key = (res, self.raw(norm(p)))
        if key not in self.customs:
            name = 'Cust%d_%d' % (self.gi, len(self.customs))
            self.customs[key] = (name, 'struct %s : t::custom_parser<%s, %s> { %sstatic consteval auto get_parser() { return %s{}; } };' % (name, name, CPPT[self.vt], res, key[1]))
        return self.customs[key][0]

    def arr(self, l, ordered=False):
        t = CPPT[self.vt]
        if ordered and self.vt == 'char': l = sorted(l, key=lambda c: c - 256 if c > 127 else c)
        return 'd::static_array<%s, %d>{%s}' % (t, len(l), ', '.join('h::lit<%s>(%d)' % (t, c) for c in l))

    def fn(self, n):
        _, site, ret, pss, ap, _p = n
        return 'h::Fn<%d, %d, %d>{}' % (site, ret, pss)

    def raw(self, n):
        k = n[0]; r = self.raw
        if custom(n): return self.cust(n)
        if k in ('any', 'none', 'all'):
            return 'd::%s_of_parser<%s>' % (k, self.arr(n[1], k != 'all'))
        if k == 'anyt': return 'd::anything_parser<%s>' % CPPT[self.vt]
        if k == 'eps': return 'd::epsilon_parser<%s>' % CPPT[self.vt]
        if k == 'choice': return 'd::choice_parser<%s>' % ', '.join(r(x) for x in n[1])
        if k == 'seq': return 'd::sequence_parser<%s>' % ', '.join(r(x) for x in n[1])
        if k == 'maybe': return 'd::maybe_parser<%s>' % r(n[1])
        if k == 'plus': return 'd::one_or_more_parser<%s>' % r(n[1])
        if k == 'star': return 'd::zero_or_more_parser<%s>' % r(n[1])
        if k == 'exactly': return 'd::exactly_parser<%s, d::index_c<%d>>' % (r(n[2]), n[1])
        if k == 'delim': return 'd::delimit_parser<%s, d::ignore_parser<%s>>' % (r(n[1]), r(n[2]))
        if k == 'delimk': return 'd::delimit_parser<%s, %s>' % (r(n[1]), r(n[2]))
        if k in ('ignore', 'complete', 'join'): return 'd::%s_parser<%s>' % (k, r(n[1]))
        if k == 'name': return 'd::named_parser<%s, "%s">' % (r(n[2]), n[1])
        if k == 'rec': return 'Rec%d_%d' % (self.gi, n[1])
        if k == 'map':
            _, site, ret, pss, ap, p = n
            if ret == 20: return 'd::constant_parser<%s, d::integral_constant<7>>' % r(p)
            if ret == 21: return 'd::defaulted_parser<%s, int>' % r(p)
            if 30 <= ret < 40: return 'd::%s_parser<%s, h::TokC<%d, %d>>' % ('apply_into' if ap else 'into', r(p), site, ret - 30)
            return 'd::%s_parser<%s, d::integral_constant<%s>>' % ('apply_map' if ap else 'map', r(p), self.fn(n))
        if k == 'filter':
            return 'd::%s_parser<%s, d::integral_constant<h::Pr<%d, %d, %d>{}>>' % ('apply_filter' if n[3] else 'filter', r(n[4]), n[1], n[2] % 10, n[2] // 10)
        raise Exception(k)

    def text(self, l):
        return self.vt in PREFIX and l and all(32 < c < 127 and c not in (34, 92) for c in l)

    def mods(self, ks, tree, rng):
        if isinstance(tree, int): return self.modifier(ks[tree], rng)
        return '(%s %% %s)' % (self.mods(ks, tree[0], rng), self.mods(ks, tree[1], rng))

    def apply(self, ks, tree, p, rng):
        if isinstance(tree, int):
            if ks[tree][0] in ('delim', 'delimk') and rng.random() < 0.4: return 't::%s(%s, %s)' % ('delimit' if ks[tree][0] == 'delim' else 'delimit_keep', p, self.pub(ks[tree][2], rng))
            m = self.modifier(ks[tree], rng)
            return '%s(%s)' % (m, p) if rng.random() < 0.5 else '(%s %% %s)' % (p, m)
        x = rng.randrange(4)
        if x == 0: return '(%s %% %s)' % (p, self.mods(ks, tree, rng))
        if x == 1: return '%s(%s)' % (self.mods(ks, tree, rng), p)
        p = self.apply(ks, tree[0], p, rng)
        return self.apply(ks, tree[1], p, rng) if x == 2 else '(%s %% %s)' % (p, self.mods(ks, tree[1], rng))

    def modifier(self, n, rng):
        k = n[0]
        if k == 'exactly': return 't::exactly<%d>' % n[1]
        if k in ('delim', 'delimk'): return 't::%s(%s)' % ('delimit' if k == 'delim' else 'delimit_keep', self.pub(n[2], rng))
        if k in ('ignore', 'complete', 'join'): return 't::' + k
        if k == 'name': return 't::name<"%s">' % n[1]
        if k == 'map':
            _, site, ret, pss, ap, p = n
            if ret == 20: return 't::constant<7>'
            if ret == 21: return 't::defaulted<int>'
            if 30 <= ret < 40: return 't::%s<h::TokC<%d, %d>>' % ('apply_into' if ap else 'into', site, ret - 30)
            return 't::%s<%s>' % ('apply' if ap else 'map', self.fn(n))
        if k == 'filter': return 't::%s<h::Pr<%d, %d, %d>{}>' % ('apply_filter' if n[3] else 'filter', n[1], n[2] % 10, n[2] // 10)
        if k == 'subst': return 't::sub(%s)' % ', '.join('t::name<"%s"> = %s' % (name, self.mods(n[1], tree, rng)) for name, tree in n[2])
        raise Exception(k)

    def pub(self, n, rng):
        k = n[0]; r = lambda x: self.pub(x, rng)
        if custom(n): return self.cust(n, normalise) + '{}'
        mod = lambda m, x: ('t::%s(%s)' % (m, x)) if rng.random() < 0.5 else '(%s %% t::%s)' % (x, m)
        if k in ('any', 'none', 'all'):
            if self.text(n[1]):
                l = list(n[1])
                if k != 'all':
                    rng.shuffle(l)
                    while rng.random() < 0.2: l.insert(rng.randrange(len(l) + 1), rng.choice(l))
                s = PREFIX[self.vt] + '"' + ''.join(chr(c) for c in l) + '"'
                if k == 'none' and rng.random() < 0.5: return '(!%s_any)' % s
                if k == 'any' and rng.random() < 0.1: return '(!%s_none)' % s
                return '%s_%s' % (s, k)
            l = list(n[1])
            if k != 'all': rng.shuffle(l)
            return 't::%s<%s>' % (k, self.arr(l))
        if k == 'anyt': return 'd::anything_parser<%s>{}' % CPPT[self.vt]
        if k == 'eps': return 'd::epsilon_parser<%s>{}' % CPPT[self.vt]
        if k in ('choice', 'seq'):
            return '(' + (' | ' if k == 'choice' else ' >> ').join('t::eps' if k == 'choice' and i and x == EPS else r(x) for i, x in enumerate(n[1])) + ')'
        if k == 'not': return '(!%s)' % r(n[1])
        if k == 'chain':
            return self.apply(n[1], n[2], r(n[1][0]), rng)
        if k == 'subst':
            p = r(n[1][0])
            subs = ['t::name<"%s"> = %s' % (name, self.mods(n[1], tree, rng)) for name, tree in n[2]]
            form = rng.randrange(4)
            if form == 0: return 't::sub(%s, %s)' % (p, ', '.join(subs))
            if form == 1: return '(%s %% t::sub(%s))' % (p, ', '.join(subs))
            if form == 2: return 't::sub(%s)(%s)' % (', '.join(subs), p)
            for x in subs: p = '(%s %% t::sub(%s))' % (p, x)
            return p
        if k == 'maybe': return '(~%s)' % r(n[1])
        if k == 'plus': return '(+%s)' % r(n[1])
        if k == 'star': return '(*%s)' % r(n[1])
        if k == 'exactly': return mod('exactly<%d>' % n[1], r(n[2]))
        if k in ('delim', 'delimk'):
            m = 'delimit' if k == 'delim' else 'delimit_keep'
            a, b = r(n[1]), r(n[2])
            return 't::%s(%s, %s)' % (m, a, b) if rng.random() < 0.5 else '(%s %% t::%s(%s))' % (a, m, b)
        if k in ('ignore', 'complete', 'join'): return mod(k, r(n[1]))
        if k == 'name': return mod('name<"%s">' % n[1], r(n[2]))
        if k == 'rec': return 'Rec%d_%d{}' % (self.gi, n[1])
        if k == 'map':
            _, site, ret, pss, ap, p = n
            if ret == 20: return mod('constant<7>', r(p))
            if ret == 21: return mod('defaulted<int>', r(p))
            if 30 <= ret < 40: return mod('%s<h::TokC<%d, %d>>' % ('apply_into' if ap else 'into', site, ret - 30), r(p))
            return mod('%s<%s>' % ('apply' if ap else 'map', self.fn(n)), r(p))
        if k == 'filter':
            return mod('%s<h::Pr<%d, %d, %d>{}>' % ('apply_filter' if n[3] else 'filter', n[1], n[2] % 10, n[2] // 10), r(n[4]))
        raise Exception(k)

def sexpr(n, rec):
    k = n[0]; s = lambda x: sexpr(x, rec)
    codes = lambda l: ','.join(map(str, l)) if l else '-'
    if k in ('any', 'none', 'all'): return '(%s %s)' % (k, codes(n[1]))
    if k in ('anyt', 'eps'): return '(%s)' % k
    if k == 'choice':
        ts = choice_types(n, rec)
        idx = [(-1 if t == VOID else ts.index(t)) for t in (ty(p, rec) for p in n[1])]
        ar = 0 if not ts else 1 if len(ts) == 1 else 2
        dt = '' if not ts else deftext(ts[0]) if ar == 1 else '<0:' + deftext(ts[0]) + '>'
        return '(choice %d %s "%s" %s)' % (ar, ','.join(map(str, idx)), dt, ' '.join(s(p) for p in n[1]))
    if k == 'exactly': return '(exactly %d %s)' % (n[1], s(n[2]))
    if k == 'map':
        _, site, ret, pss, ap, p = n
        return '(map %d %d %d %s)' % (site, ret - 30 if 30 <= ret < 40 else ret, ap, s(p))
    if k == 'filter': return '(filter %d %d %d %s)' % (n[1], n[2] % 10, n[3], s(n[4]))
    if k == 'name': return '(name %s)' % s(n[2])
    if k == 'rec': return '(rec %d)' % n[1]
    return '(%s %s)' % (k, ' '.join(s(x) for x in kids(n)))

# ---------------------------------------------------------------- features
def nullable(n, recs, seen=frozenset()):
    k = n[0]
    if k in ('any', 'none', 'anyt'): return False
    if k == 'all': return not n[1]
    if k in ('eps', 'maybe', 'star'): return True
    if k == 'choice': return any(nullable(x, recs, seen) for x in n[1])
    if k == 'seq': return all(nullable(x, recs, seen) for x in n[1])
    if k in ('delim', 'delimk'): return nullable(n[1], recs, seen)
    if k == 'rec':
        if n[1] in seen: return False
        return nullable(recs[n[1]], recs, seen | {n[1]})
    return nullable(kids(n)[0], recs, seen)

def features(n, recs):
    f = set()
    for r in [n] + list(recs):
        for x in walk(r):
            k = x[0]
            f.add(k)
            if k == 'map' and x[2] not in (20, 21): f.add('cb')
            if k == 'filter': f.add('cb')
            if k == 'map' and (x[2] <= 6 or 30 <= x[2] < 40 or x[2] >= 49): f.add('tok')
            if k == 'map' and (x[2] in (5, 35)): f.add('body')
            if k in ('plus', 'star') and nullable(x[1], recs): f.add('nullrep')
            if k in ('delim', 'delimk') and nullable(x[1], recs) and nullable(x[2], recs): f.add('nullrep')
            if k in ('plus', 'star', 'delim', 'delimk'): f.add('vec')
    return f

class G:
    def __init__(self, name, root, recs=(), rectypes=(), vt='char', elems=None, style=None, allr=False, aswritten=False):
        self.name, self.root0, self.recs0, self.rectypes = name, root, list(recs), list(rectypes)
        self.vt = vt
        self.elems = elems or [vt]
        self.style = style
        self.allr = allr
        self.aswritten = aswritten       # the model gets it as written, without the simplifications
        high = max([c for r in [root] + list(recs) for x in walk(r) if x[0] in ('any', 'none', 'all') for c in x[1]] + [0])
        assert high < 128 or self.elems == [vt], name

    def prepare(self, gi, rng):
        self.gi = gi
        c = [0]
        style = self.style or rng.choice(['raw', 'pub'])
        self.root = sites(self.root0, c)
        self.recs = [sites(r, c) for r in self.recs0]
        em = Emit(self.vt, gi)
        if style == 'pub':
            self.cpp = 'decltype(' + em.pub(self.root, rng) + ')'
            self.reccpp = ['decltype(' + em.pub(r, rng) + ')' for r in self.recs]
            self.root = plain(self.root) if self.aswritten else normalise(self.root)
            self.recs = [normalise(r) for r in self.recs]
        else:
            if self.aswritten or any(x[0] in ('not', 'chain', 'subst') for r in [self.root] + self.recs for x in walk(r)): raise Bad('style')
            self.cpp = em.raw(self.root)
            self.reccpp = [em.raw(r) for r in self.recs]
        self.customs = [x for _, x in em.customs.values()]
        self.t = ty(self.root, self.rectypes)
        for r, t in zip(self.recs, self.rectypes):
            if ty(r, self.rectypes) != t: raise Bad('rec type %s %s' % (ty(r, self.rectypes), t))
        self.sx = sexpr(self.root, self.rectypes) + ' ' + ' '.join(sexpr(r, self.rectypes) for r in self.recs)
        self.feat = features(self.root, self.recs)
        if self.recs: self.feat.add('rec')
        self.feat.add('style:' + style)

    def emit(self):
        o = []
        for i, t in enumerate(self.rectypes):
            ct = 'h::Tok<%d>' % t[1]
            o.append('struct Rec%d_%d : t::custom_parser<Rec%d_%d, %s> { using result_type = %s; static consteval auto get_parser(); };' % (self.gi, i, self.gi, i, CPPT[self.vt], ct))
        o += self.customs
        for i, c in enumerate(self.reccpp):
            o.append('consteval auto Rec%d_%d::get_parser() { return %s{}; }' % (self.gi, i, c))
        n = 'g%d' % self.gi
        o.append('using P%s = std::remove_const_t<%s>;' % (n, self.cpp))
        cp = 'true' if copyable(self.t) else 'false'
        vs = ', '.join('h::variant<P%s, %s, %s, %s, %s>("%s", %d)' % (n, CPPT[e], cp, 'true' if e in CHARS else 'false', 'true' if self.allr else 'false', e, 127 if e == 'char' and self.vt != 'char' else MAXSYM[e]) for e in self.elems)
        o.append('static const sim::Variant v%s[] = { %s };' % (n, vs))
        esc = lambda s: s.replace('\\', '\\\\').replace('"', '\\"')
        o.append('static const sim::GrammarDef d%s = { %d, "%s", "%s", "%s", "%s", %d, v%s };' % (n, self.gi, self.name, esc(self.sx), esc(self.cpp), ' '.join(sorted(self.feat)), len(self.elems), n))
        o.append('static const bool r%s = (sim::eng_register(&d%s), true);' % (n, n))
        return '\n'.join(o) + '\n'

# ---------------------------------------------------------------- random grammars
class Rand:
    def __init__(self, rng, w, alpha='abcd', maxdepth=4):
        self.rng, self.w, self.alpha, self.maxdepth = rng, w, alpha, maxdepth

    def basic(self):
        r = self.rng; a = self.alpha
        x = r.random()
        if x < 0.45: return ('all', lit(''.join(r.choice(a) for _ in range(r.choice([1, 1, 2, 2, 3, 4])))))
        if x < 0.75: return A(''.join(r.sample(a, r.randint(1, min(3, len(a))))))
        if x < 0.88: return N(''.join(r.sample(a, r.randint(1, min(2, len(a))))))
        if x < 0.91: return ANY
        if x < 0.93: return L('')
        if x < 0.95: return N('')
        return ('all', lit(''.join(r.choice(a[:2]) for _ in range(r.choice([3, 5, 8])))))

    def node(self, depth):
        r = self.rng
        if depth <= 0: return self.basic()
        for _ in range(40):
            k = r.choices(list(self.w), weights=list(self.w.values()))[0]
            n = self.one(k, depth)
            try:
                ty(n, None)
                return n
            except Bad:
                continue
        return self.basic()

    def one(self, k, depth):
        r = self.rng; sub = lambda: self.node(depth - 1 - (r.random() < 0.3))
        if k == 'basic': return self.basic()
        if k == 'eps': return EPS
        if k == 'choice': return C(*[sub() for _ in range(r.choice([2, 2, 3, 3, 4, 6]))])
        if k == 'seq': return S(*[sub() for _ in range(r.choice([2, 2, 3, 3, 4]))])
        if k == 'maybe': return M(sub())
        if k == 'exactly': return E(r.choice([1, 2, 2, 3, 4]), sub())
        if k == 'plus': return P(sub())
        if k == 'star': return Z(sub())
        if k == 'delim': return D(sub(), sub())
        if k == 'delimk': return DK(sub(), sub())
        if k == 'ignore': return I(sub())
        if k == 'complete': return CP(sub())
        if k == 'join': return J(sub())
        if k == 'name': return NM(sub(), '@') if r.random() < 0.4 else NM(sub())
        if k == 'filter': return X(sub(), r.choice([0, 1, 2, 2, 3, 3]) + (10 if r.random() < 0.3 else 0), r.random() < 0.3)
        if k == 'map':
            ret = r.choice([0, 0, 1, 2, 3, 4, 5, 6, 10, 10, 11, 12, 13, 20, 21, 30, 30, 31, 33, 35] + ([40 + r.randrange(11)] * 3))
            if 30 <= ret < 40 and r.random() < 0.25: return F(sub(), ret, 9)
            return F(sub(), ret, r.choice([0, 0, 1, 2]), int(r.random() < 0.35))
        raise Exception(k)

    def grammar(self):
        for _ in range(400):
            n = self.node(self.rng.choice([2, 3, 3, self.maxdepth, self.maxdepth]))
            cnt = sum(1 for _ in walk(n))
            if not 2 <= cnt <= 22: continue
            try:
                ty(n, None)
                return n
            except Bad:
                continue
        return S(A('ab'), L('c'))

W0 = {'basic': 3, 'choice': 3, 'seq': 3, 'maybe': 1.5, 'exactly': 1, 'plus': 1.5, 'star': 1.5, 'delim': 1, 'delimk': 1, 'ignore': 1, 'complete': 0.5, 'join': 1, 'name': 0.3, 'filter': 1, 'map': 2.5, 'eps': 0.2}
def W(**kw):
    w = dict(W0)
    w.update(kw)
    return w
