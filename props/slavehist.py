"""Sequences of requests and local operations on two real slaves, against a plain model of the protocol (concrete runs, for C05-C10).
A property judges the requests it is about; after the others the model takes over what the memory holds."""
from .common import excs

KINDS = (1, 2, 3, 4)
SUPPORTED = (1, 2, 3, 4, 5, 6, 7, 15, 16, 22, 23)
CLAIMS = {'C05': (1, 2), 'C06': (3, 4), 'C07': (5, 6, 22), 'C08': (15, 16, 23), 'C09': 'codes', 'C10': 'frame'}


class Model(object):
    """kind -> name -> [start, values]"""

    def __init__(self, unsigned):
        self.unsigned = unsigned
        self.kinds = {k: {} for k in KINDS}

    def block(self, kind, a, n):
        for start, vals in self.kinds[kind].values():
            if start <= a and a + n <= start + len(vals):
                return start, vals
        return None

    def words(self, vals):
        return [b for v in vals for b in ((v >> 8) & 255, v & 255)]

    def stored(self, w):
        return w - 65536 if w > 32767 and not self.unsigned else w

    def reply(self, pdu):
        """(code or None, reply or None, [(values, offset, new values)]); None for what is not complete"""
        f = pdu[0]
        w = lambda i: pdu[i] * 256 + pdu[i + 1]
        if f not in (1, 2, 3, 4, 5, 6, 7, 15, 16, 22, 23):
            return 1, None, []
        if f == 7:
            return None, None, []
        if len(pdu) < {22: 7, 15: 6, 16: 6, 23: 10}.get(f, 5):
            return None
        if f in (1, 2, 3, 4):
            q = w(3)
            if not 1 <= q <= (2000 if f < 3 else 125):
                return 3, None, []
            b = self.block({1: 1, 2: 2, 3: 3, 4: 4}[f], w(1), q)
            if b is None:
                return 2, None, []
            vals = b[1][w(1) - b[0]:w(1) - b[0] + q]
            if f > 2:
                return None, [f, 2 * q] + self.words(vals), []
            data = [0] * ((q + 7) // 8)
            for i, v in enumerate(vals):
                if v:
                    data[i // 8] |= 1 << i % 8
            return None, [f, len(data)] + data, []
        if f in (5, 6, 22):
            b = self.block(1 if f == 5 else 3, w(1), 1)
            if b is None:
                return 2, None, []
            at = w(1) - b[0]
            if f == 5:
                if w(3) not in (0, 0xff00):
                    return 3, None, []
                v = 1 if w(3) else 0
            elif f == 6:
                v = self.stored(w(3))
            else:
                v = self.stored((b[1][at] & w(3) | w(5) & ~w(3)) & 0xffff)
            return None, pdu[:7 if f == 22 else 5], [(b[1], at, [v])]
        if f in (15, 16):
            q, n = w(3), pdu[5]
            if not 1 <= q <= (1968 if f == 15 else 123) or n != ((q + 7) // 8 if f == 15 else 2 * q) or len(pdu) < 6 + n:
                return 3, None, []
            b = self.block(1 if f == 15 else 3, w(1), q)
            if b is None:
                return 2, None, []
            vals = [pdu[6 + i // 8] >> i % 8 & 1 for i in range(q)] if f == 15 else [self.stored(w(6 + 2 * i)) for i in range(q)]
            return None, pdu[:5], [(b[1], w(1) - b[0], vals)]
        rq, q, n = w(3), w(7), pdu[9]
        if not 1 <= rq <= 125 or not 1 <= q <= 123 or n != 2 * q or len(pdu) < 10 + n:
            return 3, None, []
        rb, b = self.block(3, w(1), rq), self.block(3, w(5), q)
        if rb is None or b is None:
            return 2, None, []
        return None, [23, 2 * rq] + self.words(rb[1][w(1) - rb[0]:w(1) - rb[0] + rq]), [(b[1], w(5) - b[0], [self.stored(w(10 + 2 * i)) for i in range(q)])]


def word(v):
    return [v >> 8 & 255, v & 255]


def any_value(r, kind, unsigned):
    if kind < 3:
        return r.choice((0, 1, 1, 2, 255))
    return r.choice((0, 1, 255, 256, 0x7fff, r.randrange(32768))) if r.random() < 0.7 else (r.choice((0x8000, 0xffff, r.randrange(32768, 65536))) - (0 if unsigned else 65536))


def gen_request(r, blocks, focus):
    """a request PDU, mostly for what is there"""
    f = r.choice(focus) if r.random() < 0.7 else r.choice((1, 2, 3, 4, 5, 6, 15, 16, 22, 23, 23, 7, r.randrange(256), 128 | r.choice(SUPPORTED)))
    kind = {1: 1, 2: 2, 3: 3, 4: 4, 5: 1, 15: 1}.get(f, 3)

    def place(top):
        here = [b for b in blocks if b[0] == kind] or [(kind, 0, 8)]
        _, start, size = r.choice(here)
        q = min(top, size, r.choice((1, 1, 2, 7, 8, 9, 16, 17, size, top, r.randint(1, max(1, min(size, top))))))
        a = start + r.choice((0, size - q, r.randrange(size - q + 1)))
        k = r.random()
        if k < 0.06:
            a += 1
        elif k < 0.1:
            a -= 1
        elif k < 0.13:
            q += 1
        elif k < 0.15:
            q = r.choice((0, top + 1, 65535))
        elif k < 0.2 and size < top:
            a, q = start + r.choice((0, 0, size - 1)), r.randint(size + 1, top)         # allowed, but longer than the block
        return max(0, min(a, 65535)), q
    if f in (1, 2, 3, 4):
        a, q = place(2000 if f < 3 else 125)
        p = [f] + word(a) + word(q)
    elif f in (5, 6):
        a, _ = place(1)
        p = [f] + word(a) + (r.choice(([0, 0], [255, 0], [255, 0], [255, 0], [0, 1], [1, 0], [255, 1])) if f == 5 else word(r.choice((0, 1, 0x8000, 65535, r.randrange(65536)))))
    elif f == 22:
        a, _ = place(1)
        p = [f] + word(a) + word(r.choice((0, 65535, 0xff00, r.randrange(65536)))) + word(r.choice((0, 65535, 0xff, r.randrange(65536))))
    elif f in (15, 16):
        a, q = place(1968 if f == 15 else 123)
        n = (q + 7) // 8 if f == 15 else 2 * q
        p = [f] + word(a) + word(q) + [(n + (r.choice((-1, 1)) if r.random() < 0.05 else 0)) & 255] + [r.randrange(256) for _ in range(min(n, 260))]
    elif f == 23:
        a, q = place(125)
        wa, wq = place(123)
        n = 2 * wq
        p = [f] + word(a) + word(q) + word(wa) + word(wq) + [(n + (r.choice((-1, 1)) if r.random() < 0.05 else 0)) & 255] + [r.randrange(256) for _ in range(min(n, 260))]
    else:
        p = [f] + [r.randrange(256) for _ in range(r.choice((0, 4, 6)))]
    if r.random() < 0.04:
        p = p[:r.randrange(1, len(p) + 1)]
    return p


def gen(r, focus):
    sizes = lambda: r.choice((1, 2, 3, 8, 9, 17, 30, r.randrange(1, 40)) + ((130, 2100) if r.random() < 0.2 else ()))
    ops, blocks, n = [], [[], []], 0
    requests = []

    def add(s):
        k = r.choice(KINDS)
        here = sorted((b[1], b[1] + b[2]) for b in blocks[s] if b[0] == k)
        size = sizes()
        start = here[-1][1] + r.choice((0, 0, 1, 5)) if here else r.choice((0, 0, 1, 7, 100, 60000))
        if start + size <= 65536:
            blocks[s].append((k, start, size))
            ops.append(['add', s, k, 'b%d_%d' % (k, start), start, size])
    for s in (0, 1):
        for _ in range(r.choice((2, 4, 6))):
            add(s)
    for _ in range(r.choice((3, 8, 20))):
        s = r.randrange(2)
        x = r.random()
        if x < 0.05:
            add(s)
        elif x < 0.09 and blocks[s]:
            b = r.choice(blocks[s])
            blocks[s].remove(b)
            ops.append(['remove', s, b[0], 'b%d_%d' % (b[0], b[1])])
            if r.random() < 0.6:
                size = min(b[2], r.choice((b[2], b[2], max(1, b[2] - 1), 1)))
                blocks[s].append((b[0], b[1], size))
                ops.append(['add', s, b[0], 'b%d_%d' % (b[0], b[1]), b[1], size])
                ops.append(['set', s, b[0], 'b%d_%d' % (b[0], b[1]), b[1], size, r.randrange(1 << 30)])
        elif x < 0.1:
            blocks[s] = []
            ops.append(['clear', s])
        elif x < 0.3 and blocks[s]:
            b = r.choice(blocks[s])
            q = r.choice((1, 1, b[2], r.randint(1, b[2])))
            ops.append(['set', s, b[0], 'b%d_%d' % (b[0], b[1]), b[1] + r.randrange(b[2] - q + 1), q, r.randrange(1 << 30)])
        elif x < 0.55 and requests:
            ops.append(['request', s, r.choice(requests[-4:])])
        else:
            requests.append(gen_request(r, blocks[s], focus))
            ops.append(['request', s, requests[-1]])
    return ops


def play(vc, prop):
    import random
    w = vc.world()
    claim = CLAIMS[prop]
    focus = claim if isinstance(claim, tuple) else (1, 2, 3, 4, 5, 6, 15, 16, 22, 23)
    slaves = [w.modbus.Slave(k + 1, vc.flag('unsigned')) for k in (0, 1)]
    models = [Model(s.unsigned) for s in slaves]

    def memory(s):
        return {k: {n: list(slaves[s].get_values(n, b[0], len(b[1]))) for n, b in models[s].kinds[k].items()} for k in KINDS}

    def expected(s):
        return {k: {n: list(b[1]) for n, b in models[s].kinds[k].items()} for k in KINDS}
    for op in vc.given('ops', lambda r: gen(r, focus)):
        s, what = op[1], op[0]
        m = models[s]
        if what == 'add':
            slaves[s].add_block(op[3], op[2], op[4], op[5])
            m.kinds[op[2]][op[3]] = [op[4], [0] * op[5]]
        elif what == 'remove':
            slaves[s].remove_block(op[3])
            del m.kinds[op[2]][op[3]]
        elif what == 'clear':
            slaves[s].remove_all_blocks()
            m.kinds = {k: {} for k in KINDS}
        elif what == 'set':
            start, vals = m.kinds[op[2]][op[3]]
            r = random.Random(op[6])
            new = [any_value(r, op[2], m.unsigned) for _ in range(op[5])]
            slaves[s].set_values(op[3], op[4], new if len(new) > 1 else new[0])
            vals[op[4] - start:op[4] - start + len(new)] = new
        else:
            pdu = list(op[2])
            f = pdu[0]
            want = m.reply(pdu)
            r = vc.call(slaves[s].handle_request, bytes(pdu))
            vc.ensure('a request does not change how words are read', bool(slaves[s].unsigned) is bool(m.unsigned))
            got = list(r.value) if r.ok and vc.is_bytes(r.value) else None
            told = lambda: 'request %s to slave %d: %r' % (bytes(pdu[:20]).hex(), s, r)
            if claim == 'codes':
                if want is not None and want[0] is not None:
                    vc.ensure('an illegal request gets its exception code', got == [f | 128 & 255, want[0]], told)
                elif want is not None:
                    vc.ensure('a legal request gets a normal reply', got is not None and got[:1] == [f], told)
            elif claim == 'frame':
                # a refused request and a read change nothing, a write nothing outside its range
                normal = got is not None and got[:1] == [f]
                before, after = expected(s), memory(s)
                may = set()
                if normal and want is not None and want[0] is None:
                    for vals, at, new in want[2]:
                        for k in KINDS:
                            for n, b in m.kinds[k].items():
                                if b[1] is vals:
                                    may = {(k, n, at + i) for i in range(len(new))}
                for k in KINDS:
                    for n in before[k]:
                        x, y = before[k][n], after[k][n]
                        if x != y:
                            bad = [i for i in range(len(x)) if x[i] != y[i] and (k, n, i) not in may]
                            vc.ensure('no item outside the range of a successful write changes', not bad, lambda: '%s; block %s items %s' % (told(), n, bad[:5]))
                for k in KINDS:
                    for n, b in m.kinds[k].items():
                        b[1][:] = after[k][n]
                if want is not None and want[0] is None and want[2] and normal:
                    continue
            elif f in claim and want is not None and want[0] is None:
                vc.ensure('the reply is the one the protocol demands', got == want[1], lambda: '%s, expected %s' % (told(), bytes(want[1][:40]).hex()))
                for vals, at, new in want[2]:
                    vals[at:at + len(new)] = new
                after = memory(s)
                for k in KINDS:
                    for n, b in m.kinds[k].items():
                        if after[k][n] != b[1]:
                            i = [i for i in range(len(b[1])) if after[k][n][i] != b[1][i]][0]
                            vc.ensure('exactly the addressed items hold the new values', False, lambda: '%s; block %s item %d: %r instead of %r' % (told(), n, i, after[k][n][i], b[1][i]))
            if claim != 'frame':
                after = memory(s)
                for k in KINDS:
                    for n, b in m.kinds[k].items():
                        b[1][:] = after[k][n]
        if what == 'request' and claim == 'frame' or what == 'request' and isinstance(claim, tuple) and op[2][0] in claim:
            vc.ensure('a request to one slave changes no other', memory(1 - s) == expected(1 - s))
        elif what == 'request':
            after = memory(1 - s)
            for k in KINDS:
                for n, b in models[1 - s].kinds[k].items():
                    b[1][:] = after[k][n]
        else:
            # local operations are other properties' business
            for t in (0, 1):
                after = memory(t)
                for k in KINDS:
                    for n, b in models[t].kinds[k].items():
                        b[1][:] = after[k][n]
