"""Shared pieces of the contracts: checksum contract, memory of a slave, frames."""
import z3
from vc import core, seq, shims, harness as H
from vc.core import VcInt, VcBool, Unsupported, PathEnd, mk, zi, zb, cond, mkbool, ival
from vc.seq import VcList, VcDict, VcBytes, Conc, Fn, ObjSeq, to_seq
from .c01 import crc_int, swap

COILS, DISCRETE_INPUTS, HOLDING_REGISTERS, ANALOG_INPUTS = 1, 2, 3, 4
KINDS = (COILS, DISCRETE_INPUTS, HOLDING_REGISTERS, ANALOG_INPUTS)


# ------------------------------------------------------------------------------------------------ checksum
class CrcContract(object):
    """contract of utils.calculate_crc proved by C01: a 16-bit function of the byte sequence"""

    def __init__(self, vc):
        self.vc = vc
        self.calls = []

    def __call__(self, data):
        if not self.vc.sym:
            return swap(crc_int(list(data.s.items() if hasattr(data, 's') else data)))
        if not self.vc.is_bytes(data):
            raise TypeError('not bytes')
        s = to_seq(data)
        for t, r in self.calls:
            if seq.provably_equal(s, t):
                return r
        if s.conc() and all(isinstance(x, int) for x in s.items()):
            r = swap(crc_int(s.items()))
        else:
            r = self.vc.E.fresh_bv('crc', 16)
        self.calls.append((s, r))
        return r


def crc_patches(vc):
    """(patches, spec): in proofs the checksum is used through its contract"""
    c = CrcContract(vc)
    if vc.sym:
        vc.trust('utils.calculate_crc (C01)')
        return {'utils.calculate_crc': c}, c
    return {}, c


def with_crc(vc, body, spec):
    """body followed by its checksum, as a sequence"""
    return vc.cat(body, vc.word(spec(vc.tobytes(body))))


# ------------------------------------------------------------------------------------------------ memory
def limits():
    """the numbers of items the code compares with"""
    return [x for x in H.pool() if 1 <= x <= 2100] or [1]


class KindDraw(object):
    """one kind of blocks: the concretisable part of a Memory"""
    def __init__(self, mem, kind):
        self.mem, self.kind = mem, kind

    def size_term(self):
        t = 0
        for blk, st, sz, ct in self.mem.blocks[self.kind]:
            t = core.iadd(t, ival(sz))
        return t

    def concretise(self, model):
        out = []
        for blk, st, sz, ct in self.mem.blocks[self.kind]:
            n = core.concrete(sz, model)
            if n > 20000:
                raise Unsupported('too large')
            a = core.concrete(st, model)
            if ct is None:
                vals = [0] * n
            else:
                vals = [core.concrete(ct.get(k), model) for k in range(n)]
            out.append([a, vals])
        return sorted(out, key=lambda b: b[0])


class Memory(object):
    """arbitrary block lists of a slave: any number of blocks per kind, pairwise disjoint, with arbitrary contents

    values: {kind: (lo, hi)} or {kind: ('bv', width, signed)}
    """

    def __init__(self, vc, w, kinds=KINDS, values=None, name='mem', small=False, focus=None, ordered=False):
        self.vc, self.w, self.name = vc, w, name
        self.kinds = kinds
        self.values = values or {}
        self.focus = tuple(focus) if focus is not None else tuple(self.values) or tuple(kinds)
        self.blocks = {k: [] for k in KINDS}        # (block, start, size, content Seq or list)
        self.lists = {}
        self.seqs = {}
        self.never = {k: [] for k in KINDS}         # ranges no block contains
        self.busy = False
        self.small = small
        self.ordered = ordered                      # each list sorted by address
        self.facts = {k: [] for k in KINDS}         # what holds for every block of a kind: fn(start, size) -> condition
        for k in KINDS:
            self._make(k)
        items = [(k, self.lists[k]) for k in KINDS]
        self.dict = dict(items) if vc.conc else VcDict(items)

    def _vals(self, kind):
        return self.values.get(kind, (0, 1) if kind in (COILS, DISCRETE_INPUTS) else ('bv', 16, False))

    def _bounds(self, kind):
        v = self._vals(kind)
        if v[0] == 'bv':
            return (-(1 << (v[1] - 1)), (1 << (v[1] - 1)) - 1) if v[2] else (0, (1 << v[1]) - 1)
        return v

    def _make(self, kind):
        vc = self.vc
        nm = '%s.%d' % (self.name, kind)
        if vc.sym:
            e = vc.E
            if kind not in self.kinds:
                n = 0
            elif vc.bounded:
                n = e.choice(3) if kind in self.focus else 1
            else:
                n = e.fresh_int(nm + '.n', 0).i

            def make(i, serial):
                st = e.fresh_int('%s.start' % nm, 0)
                sz = e.fresh_int('%s.size' % nm, 1)
                return self._block(kind, st, sz, nm)

            def relate(i, a, j, b):
                self._relate(kind, i, a, j, b)
            if isinstance(n, int):
                objs = [make(i, i) for i in range(n)]
                for x in range(n):
                    for y in range(x):
                        relate(x, objs[x], y, objs[y])
                s = Conc(objs)
            else:
                s = ObjSeq(n, make, relate)
            self.seqs[kind] = s
            self.lists[kind] = VcList(s)
            self.orig = getattr(self, 'orig', {})
            self.orig[kind] = s
            e.draws[nm] = KindDraw(self, kind)
            return
        data = vc.given(nm, lambda r: self._random(kind, r) if kind in self.kinds else [])
        l = []
        for st, vals in data:
            if not vals:
                continue
            blk = self._block(kind, st, len(vals), nm, vals)
            l.append(blk)
        self.lists[kind] = vc.mklist(l)
        self.orig = getattr(self, 'orig', {})
        self.orig[kind] = list(l)

    def _random(self, kind, r):
        lo, hi = self._bounds(kind)
        out = []
        at = r.choice((0, 0, 1, r.randrange(30), r.randrange(65536)))
        for _ in range(r.choice((1, 1, 2, 3, 0, 2))):
            n = r.choice((1, 2, 3, r.randrange(1, 20), r.randrange(1, 40), r.choice((7, 8, 9, 15, 16, 17, 64, 100, 125, 126, 123, 124, 200))))
            if not self.small and r.random() < 0.08:
                n = r.choice((1968, 1969, 2000, 2001, 2010, 1000, 1024))
            elif not self.small and r.random() < 0.15:
                n = max(1, r.choice(limits()) + r.choice((-1, 0, 0, 1)))
            if r.random() < 0.5:
                vals = [r.choice([x for x in (lo, hi, 0, 1, -1, 255, 256, 32767, 32768) if lo <= x <= hi]) for _ in range(n)]
            else:
                vals = [r.randint(lo, hi) for _ in range(n)]
            out.append([at, vals])
            at = at + n + r.choice((0, 0, 1, 2, r.randrange(20), r.randrange(2000)))
        if r.random() < 0.3:
            r.shuffle(out)
        return out

    def _block(self, kind, st, sz, nm, vals=None):
        vc = self.vc
        self.busy = True
        blk = self.w.modbus.ModbusBlock(st, sz, 'blk')
        if vc.sym:
            v = self._vals(kind)
            ct = H.uf_bvs(nm + '.v', ival(sz), v[1], v[2]) if v[0] == 'bv' else H.uf_ints(nm + '.v', ival(sz), v[0], v[1])
            blk[0:sz] = VcList(ct)
            for (a, q) in self.never[kind]:
                vc.E.fact(self._notin(st, sz, a, q))
            for f in self.facts[kind]:
                vc.E.fact(zb(cond(f(st, sz))))
        else:
            ct = list(vals)
            blk[0:sz] = vc.mklist(vals)
        self.busy = False
        self.blocks[kind].append((blk, st, sz, ct))
        return blk

    def info(self, blk):
        for k in KINDS:
            for rec in self.blocks[k]:
                if rec[0] is blk:
                    return rec
        raise Unsupported('unknown block')

    def _relate(self, kind, i, a, j, b):
        _, s1, n1, _ = self.info(a)
        _, s2, n2, _ = self.info(b)
        if self.ordered:
            lt = cond(mk(i) < mk(j))
            self.vc.E.fact(z3.If(lt, zi(s1 + n1) <= zi(s2), zi(s2 + n2) <= zi(s1)) if not isinstance(lt, bool)
                           else zi(s1 + n1) <= zi(s2) if lt else zi(s2 + n2) <= zi(s1))
            return
        self.vc.E.fact(z3.Or(zi(s1 + n1) <= zi(s2), zi(s2 + n2) <= zi(s1)))

    def _notin(self, st, sz, a, q):
        return z3.Not(z3.And(zi(st) <= zi(a), zi(a + q) <= zi(st + sz)))

    def near(self, kind):
        """interesting addresses of a kind (concrete runs)"""
        if self.vc.sym:
            return ()
        out = []
        for blk, st, sz, ct in self.blocks[kind]:
            out += [st, st + sz - 1, st + sz, st + sz // 2]
        return out

    def sizes(self, kind):
        if self.vc.sym:
            return ()
        out = []
        for blk, st, sz, ct in self.blocks[kind]:
            out += [sz, sz - 1, sz // 2]
        return out

    def range(self, kind, qname, sname, lo, hi, reps=(), wide=False):
        """(start, quantity): arbitrary, in concrete runs mostly inside a block"""
        vc = self.vc

        def mkq(r):
            szs = [sz for _, _, sz, _ in self.blocks[kind]]
            if not szs or r.random() < 0.12:
                return None
            sz = r.choice(szs)
            if r.random() < 0.15:
                # the limits the code knows, and their neighbours
                fit = [x for x in limits() + [hi] if x <= sz]
                if fit:
                    return min(sz, r.choice(fit) + r.choice((-1, 0, 0, 1)))
            return r.choice((sz, 1, r.randint(1, sz), r.randint(1, sz), sz, sz - 1))

        def mks(r):
            bs = [(st, sz) for _, st, sz, _ in self.blocks[kind] if sz >= q]
            if not bs or r.random() < 0.12:
                return None
            st, sz = r.choice(bs)
            return st + r.choice((0, sz - q, r.randint(0, sz - q), r.randint(0, sz - q)))
        q = vc.size(qname, lo, hi, reps=reps, near=self.sizes(kind), make=mkq) if qname else 1
        start = vc.int(sname, 0, 65535, near=self.near(kind), make=mks)
        return start, q

    # ---- cases
    def containing(self, kind, addr, q):
        """a block of that kind that contains [addr, addr+q)  ->  (block, offset, content)"""
        vc = self.vc
        if vc.sym:
            e = vc.E
            s = self.seqs[kind]
            if isinstance(s, Conc):
                if not s.v:
                    raise PathEnd()
                k = e.choice(len(s.v))
                blk = s.v[k]
            else:
                wi = e.fresh_int('witness', 0)
                e.assume(wi.i < zi(mk(s.n)))
                blk = s.get(wi.i)
                s.witness = getattr(s, 'witness', []) + [wi.i]
            _, st, sz, ct = self.info(blk)
            e.assume(z3.And(zi(st) <= zi(addr), zi(addr + q) <= zi(st + sz)))
            if not e.feasible():
                raise PathEnd()
            return blk, addr - st, ct
        for blk, st, sz, ct in self.blocks[kind]:
            if st <= addr and addr + q <= st + sz:
                return blk, addr - st, ct
        raise H.Reject('not mapped')

    def none_contains(self, kind, addr, q):
        vc = self.vc
        if vc.sym:
            self.never[kind].append((addr, q))
            for blk, st, sz, ct in self.blocks[kind]:
                vc.E.assume(self._notin(st, sz, addr, q))
            if not vc.E.feasible():
                raise PathEnd()
            return
        for blk, st, sz, ct in self.blocks[kind]:
            if st <= addr and addr + q <= st + sz:
                raise H.Reject('mapped')

    def mapped(self, kind, addr, q):
        """both cases: the block that holds [addr, addr+q) (with offset and content), or None"""
        vc = self.vc
        if vc.sym:
            if vc.E.choice(2) == 0:
                return self.containing(kind, addr, q)
            self.none_contains(kind, addr, q)
            return None
        for blk, st, sz, ct in self.blocks[kind]:
            if st <= addr and addr + q <= st + sz:
                return blk, addr - st, ct
        return None

    # ---- frame
    def frame(self, label, written=None):
        """every item of every block outside `written(kind, address)` has its old value; the layout is the old one"""
        vc = self.vc
        if vc.mode == 'obs':
            return
        wr = written or (lambda kind, a: False)
        if vc.conc:
            for k in KINDS:
                l = self.dict[k] if k in self.dict else None
                if l is None or len(l) != len(self.orig[k]) or any(x is not y for x, y in zip(l, self.orig[k])):
                    raise H.Violation(label + ' (layout)', 'blocks of kind %d changed' % k)
                for blk, st, sz, ct in self.blocks[k]:
                    if blk.starting_address != st or blk.size != sz or len(blk[0:sz + 1]) != sz:
                        raise H.Violation(label + ' (layout)', 'block at %d' % st)
                    for i in range(sz):
                        if not wr(k, st + i) and not blk[i] == ct[i]:
                            raise H.Violation(label, 'kind %d address %d was %r is %r' % (k, st + i, ct[i], blk[i]))
            return
        e = vc.E
        if e.choice(2) == 1:
            return
        for k in KINDS:
            l = self.dict[k]
            e.ensure(label + ' (layout)', l is self.lists[k] and l.s is self.orig[k])
        if len(self.kinds) == 1:
            k = self.kinds[0]
        else:
            k = self.kinds[e.choice(len(self.kinds))]
        s = self.orig[k]
        j = e.fresh_int('anyblock', 0)
        e.assume(j.i < zi(mk(s.n)))
        if not e.feasible():
            raise PathEnd()
        blk = s.get(j.i)
        _, st, sz, ct = self.info(blk)
        i = e.fresh_int('anyitem', 0)
        e.assume(i < sz)
        if not e.feasible():
            raise PathEnd()
        e.ensure(label + ' (layout)', vc.and_(blk.starting_address == st, blk.size == sz))
        new = blk[i]
        old = ct.get(i.i)
        e.ensure(label, vc.or_(wr(k, st + i), new == old))
        raise PathEnd()


def reg_values(unsigned):
    return ('bv', 16, not unsigned)


def make_slave(vc, w, mem, unsigned=True, slave_id=1):
    return w.modbus.Slave(slave_id, unsigned, mem.dict)


def extra(vc):
    """bytes behind what the function of a request needs"""
    return vc.bytes('extra', lo=0, hi=None if vc.sym else 3, reps=(0, 1))


def pdu_of(vc, *parts):
    """a request PDU; bytes or bytearray in concrete runs"""
    s = vc.cat(*parts)
    if vc.conc and vc.pick('pdutype', ('bytes', 'bytearray')) == 'bytearray':
        return bytearray(s)
    return vc.tobytes(s)


def excs(w):
    return w.load('exceptions')


def is_exception_reply(vc, value, fc, code):
    """value is the exception reply of function fc with this code (condition)"""
    if not vc.is_bytes(value):
        return False
    n = vc.len(value)
    if vc.conc:
        return n == 2 and value[0] == (fc | 0x80) and value[1] == code
    if not bool(n == 2):
        return False
    return vc.and_(vc.at(value, 0) == (fc | 0x80), vc.at(value, 1) == code)


# ------------------------------------------------------------------------------------------------ encodings
def w16(vc, s, i):
    if vc.sym:
        return shims.from_be([vc.at(s, i), vc.at(s, i + 1)])
    return vc.at(s, i) * 256 + vc.at(s, i + 1)


def sword(vc, s, i, unsigned):
    """the 16-bit word at byte i, read as two's complement unless unsigned"""
    if vc.sym:
        return shims.from_be_code([vc.at(s, i), vc.at(s, i + 1)], 'H' if unsigned else 'h')
    v = w16(vc, s, i)
    if unsigned:
        return v
    return vc.ite(v >= 32768, v - 65536, v)


def words_payload(vc, get, q):
    """2q bytes: the words get(0..q-1), big endian"""
    def byte(m):
        if vc.conc:
            return get(m // 2) >> (0 if m % 2 else 8) & 255
        v = get(m // 2)
        return vc.ite(m % 2 == 0, core.byte_of(v, 8), core.byte_of(v, 0))
    return vc.fn(2 * q, byte)


def content_after(vc, entry, off, n, item):
    """entry with items off..off+n-1 replaced by item(0..n-1)"""
    s = to_seq(entry)
    if all(isinstance(x, int) for x in (s.n, off, n)):
        return Conc([item(i - off) if off <= i < off + n else s.get(i) for i in range(s.n)])
    return Fn(s.n, lambda i: vc.ite(vc.and_(mk(i) >= off, mk(i) < off + n), item(mk(i) - off), s.get(i)))


def bit_of(vc, data, n):
    """coil n of a packed payload"""
    b = vc.at(data, n // 8)
    if vc.conc:
        return b >> (n % 8) & 1
    if isinstance(n, int):
        return (b >> (n % 8)) & 1
    r = (b >> 7) & 1
    for j in range(7):
        r = vc.ite(n % 8 == j, (b >> j) & 1, r)
    return r


def vmin(vc, a, b):
    return vc.ite(a < b, a, b)
