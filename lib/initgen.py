"""Generates aggregate types and initialisers for them (positional, designated, ranges, elided braces, strings, overriding)."""
import random
SC = ['signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', '_Bool', 'float', 'double']
BF = [('signed char', 8), ('unsigned char', 8), ('short', 16), ('unsigned short', 16), ('int', 32), ('unsigned', 32), ('long', 64), ('unsigned long', 64)]

class G(object):
    def __init__(self, seed, val):
        self.r = random.Random(seed)
        self.val = val          # val(ctype, bits) -> expression text
        self.n = 0
    def nm(self):
        self.n += 1
        return 'm%d' % self.n
    def ty(self, depth):
        r = self.r
        c = r.random()
        if depth == 0 or c < 0.35: return ('s', r.choice(SC), 0)
        if c < 0.5: return ('a', r.randint(1, 4), self.ty(depth - 1))
        if c < 0.56: return ('str', r.choice(['char', 'char', 'unsigned char']), r.randint(2, 9))
        return self.agg('un' if c < 0.66 else 'st', depth)
    def agg(self, k, depth):
        r = self.r
        ms = []
        for _ in range(r.randint(1, 4)):
            if r.random() < 0.22:
                t, w = r.choice(BF)
                z = r.random()
                if z < 0.12 and k == 'st': ms.append((None, ('s', t, r.randint(1, w))))
                elif z < 0.2 and k == 'st': ms.append((None, ('s', t, 0)))
                else: ms.append((self.nm(), ('s', t, r.choice([1, w, r.randint(1, w)]))))
            else: ms.append((self.nm(), self.ty(depth - 1)))
        if not any(m[0] for m in ms): ms.append((self.nm(), ('s', 'int', 0)))
        if k == 'un' and ms[0][0] is None: ms = ms[::-1]
        return (k, ms)
    def decl(self, t, name):
        if t[0] == 's': return '%s %s' % (t[1], name)
        if t[0] == 'str': return '%s %s[%d]' % (t[1], name, t[2])
        if t[0] == 'a': return self.decl(t[2], '%s[%d]' % (name, t[1]))
        body = []
        for n, m in t[1]:
            if m[0] == 's' and (m[2] or n is None): body.append('%s %s:%d;' % (m[1], n or '', m[2]))
            else: body.append(self.decl(m, n) + ';')
        return '%s { %s } %s' % ('struct' if t[0] == 'st' else 'union', ' '.join(body), name)
    # an initialiser with its own braces
    def init(self, t):
        r = self.r
        if t[0] == 's': return ('{ %s }' if r.random() < 0.08 else '%s') % self.val(t[1], t[2])
        if t[0] == 'str':
            if r.random() < 0.6:
                n = r.randint(0, t[2])
                s = ''.join(r.choice('abcXYZ019 %') for _ in range(n))
                s = ('"%s"' % s) if r.random() < 0.7 else ('{ "%s" }' % s)
                return s
            return '{ %s }' % ', '.join(self.val(t[1], 0) for _ in range(r.randint(1, t[2])))
        if r.random() < 0.06: return '{ 0 }' if self.first_scalar(t) else '{ %s }' % self.init(t[2] if t[0] == 'a' else t[1][0][1])
        items = []
        if t[0] == 'a':
            i = 0
            while i < t[1]:
                c = r.random()
                if c < 0.15 and items: break
                if c < 0.3:
                    i = r.randrange(t[1])
                    if r.random() < 0.4 and t[2][0] == 's':
                        j = r.randint(i, t[1] - 1)
                        items.append('[%d ... %d] = %s' % (i, j, self.init(t[2]))); i = j + 1
                    else:
                        items.append('[%d] = %s' % (i, self.init(t[2]))); i += 1
                    if r.random() < 0.5: continue
                    if len(items) > 8: break
                    continue
                items.append(self.elem(t[2])); i += 1
            return '{ %s }' % ', '.join(items)
        ms = [m for m in t[1] if m[0]]
        if t[0] == 'un':
            if r.random() < 0.5: return '{ %s }' % self.elem(ms[0][1])
            n, m = r.choice(ms)
            return '{ .%s = %s }' % (n, self.init(m))
        i = 0
        while i < len(ms):
            c = r.random()
            if c < 0.1 and items: break
            if c < 0.3:
                i = r.randrange(len(ms))
                n, m = ms[i]
                items.append('.%s = %s' % (n, self.init(m))); i += 1
                if len(items) > 8: break
                continue
            items.append(self.elem(ms[i][1])); i += 1
        return '{ %s%s }' % (', '.join(items), ',' if items and r.random() < 0.2 else '')
    def first_scalar(self, t):
        while t[0] in ('a', 'st', 'un'):
            t = t[2] if t[0] == 'a' else [m for m in t[1] if m[0]][0][1]
        return t[0] in ('s', 'str')
    def elem(self, t):
        # braces may be left out
        if t[0] in ('a', 'st', 'un') and self.r.random() < 0.35: return self.flat(t)
        return self.init(t)
    def flat(self, t):
        # the first thing must not be a brace: it would be taken as that of the aggregate
        if t[0] == 's': return self.val(t[1], t[2])
        if t[0] == 'str': return ', '.join(self.val(t[1], 0) for _ in range(t[2]))
        if t[0] == 'a': l = [t[2]] * t[1]
        else: l = [m for n, m in t[1] if n][:1 if t[0] == 'un' else None]
        return ', '.join([self.flat(l[0])] + [self.elem(x) for x in l[1:]])
