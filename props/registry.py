"""An arbitrary slave with named blocks (C15, C16)."""
import z3
from vc import core, seq, harness as H
from vc.core import Unsupported, PathEnd, mk, zi, ival
from vc.seq import VcDict, VcList, Conc, ObjSeq
from .common import Memory, KINDS, excs

READ = {1: 1, 2: 2, 3: 3, 4: 4}
FC_OF_KIND = {1: 1, 2: 2, 3: 3, 4: 4}       # COILS, DISCRETE_INPUTS, HOLDING_REGISTERS, ANALOG_INPUTS -> read function


class Rec(object):
    """a named block"""
    def __init__(self, name, kind, start, size, content, index=None, obj=None):
        self.name, self.kind, self.start, self.size, self.content, self.index, self.obj = name, kind, start, size, content, index, obj


class NameDraw(object):
    def __init__(self, reg, label):
        self.reg, self.label = reg, label

    def concretise(self, model):
        r = self.reg.names.get(self.label)
        return None if r is None else [r.kind, core.concrete(r.start, model)]


class NameMap(object):
    """arbitrary map from names onto the blocks of the memory, one name per block"""
    def __init__(self, reg, template):
        self.reg, self.template = reg, template
        self.known = {}
        self.vals = ObjSeq(0, None)         # nothing a loop could enumerate

    @property
    def keys(self):
        raise Unsupported('the names of an arbitrary slave cannot be enumerated')

    def lookup(self, name, miss):
        if not isinstance(name, str) or seq.has_token(name):
            return miss
        if name not in self.known:
            self.known[name] = self._choose(name)
        r = self.known[name]
        return miss if r is None else self.template(r)

    def _choose(self, name):
        e, mem = core.ENG, self.reg.mem
        c = e.choice(1 + len(KINDS))
        if c == 0:
            return None
        kind = KINDS[c - 1]
        s = mem.seqs[kind]
        i = e.fresh_int('blockof', 0)
        e.assume(i.i < zi(mk(s.n)))
        for o in self.known.values():
            if o is not None and o.kind == kind:
                e.assume(o.index.i != i.i)
        if not e.feasible():
            raise PathEnd()
        blk = s.get(i.i)
        s.witness = getattr(s, 'witness', []) + [i.i]
        _, st, sz, ct = mem.info(blk)
        return Rec(name, kind, st, sz, ct, i, blk)


class Reg(object):
    """self.slave: arbitrary number of blocks per kind under arbitrary names with arbitrary contents.

    Proofs start from the representation (lists sorted by address and disjoint, one name per block); bounded and concrete
    runs build the state through add_block and set_values."""

    def __init__(self, vc, w, focus=KINDS):
        self.vc, self.w = vc, w
        self.names = {}                 # label -> Rec or None
        self.any = vc.sym and not vc.bounded
        self.recs = []
        if self.any:
            self._arbitrary()
            return
        if vc.conc:
            raw = {k: vc.given('mem.%d' % k, lambda r: self._random(k, r)) for k in KINDS}
            data = [(k, st, vals) for k in KINDS for st, vals in raw[k] if vals]
            order = vc.given('order', lambda r: [r.random() for _ in data])
            if len(order) == len(data):
                data = [d for _, d in sorted(zip(order, data), key=lambda x: x[0])]
        else:
            n = vc.E.choice(3)
            data = []
            for j in range(n):
                k = focus[vc.E.choice(min(2, len(focus)))]
                st, sz = vc.int('start', 0), vc.int('size', 1)
                for k2, s2, z2, _ in data:
                    if k2 == k:
                        vc.assume(vc.or_(st + sz <= s2, s2 + z2 <= st))
                data.append((k, st, sz, vc.ints('content', sz)))
            data = [(k, st, ct) for k, st, sz, ct in data]
        self.slave = w.modbus.Slave(1, vc.flag('unsigned'))
        # any text is a name
        spell = vc.given('spelling', lambda r: r.choice((0, 0, 1, 2, 3))) if vc.conc else 0
        self.absent = ('absent', 'b', '', '00')[spell % 4]
        for j, (k, st, vals) in enumerate(data):
            name = ('b%d' % j, '' if j == 0 else 'b%d' % j, '0' * (j + 1) if j != 1 else 'None', ' ' * j)[spell % 4]
            n = vc.len(vals)
            self.slave.add_block(name, k, st, n)
            self.slave.set_values(name, st, vals)
            self.recs.append(Rec(name, k, st, n, vals))

    def _random(self, kind, r):
        out, at = [], r.choice((0, 0, 1, r.randrange(30), r.randrange(60000)))
        for _ in range(r.choice((0, 1, 1, 2, 3))):
            n = r.choice((1, 2, 3, r.randrange(1, 12)))
            if r.random() < 0.012:
                # the limits that appear in the code
                n = r.choice([x for x in H.pool() if 8 < x <= 70000]) + r.choice((0, 0, 1, 2, 10))
                out.append([at, [r.randrange(1, 65536)] * n])
                for _ in range(5):
                    out[-1][1][r.randrange(n)] = r.randrange(65536)
                out[-1][1][-1] = 7
                at += n
                continue
            out.append([at, [r.choice((0, 1, 5, 255, 32767, r.randrange(65536))) for _ in range(n)]])
            at += n + r.choice((0, 0, 1, 2, r.randrange(10)))
        return out

    def _arbitrary(self):
        vc, w = self.vc, self.w
        self.mem = Memory(vc, w, values={k: (None, None) for k in KINDS}, ordered=True)
        empty = VcDict([(k, VcList([])) for k in KINDS])
        s = w.modbus.Slave(1, vc.flag('unsigned'), empty)
        s.add_block('probe', 3, 77, 5)
        l = empty[3].s
        if not (isinstance(l, Conc) and len(l.v) == 1):
            raise Unsupported('the blocks of a kind are not a list')
        blk = l.v[0]
        d = [v for v in vars(s).values() if isinstance(v, VcDict) and v is not empty and v._find('probe') is not None]
        if len(d) != 1 or len(d[0].e) != 1:
            raise Unsupported('the names of the blocks are not one dictionary')
        val = d[0]['probe']
        parts = val if isinstance(val, tuple) else (val,)
        how = []
        for p in parts:
            how.append('obj' if p is blk else 'kind' if p == 3 else 'start' if p == 77 else 'size' if p == 5 else None)
        if None in how:
            raise Unsupported('the registered value of a block is not understood')

        def template(r):
            t = tuple({'obj': r.obj, 'kind': r.kind, 'start': r.start, 'size': r.size}[h] for h in how)
            return t if isinstance(val, tuple) else t[0]
        s.remove_block('probe')
        if d[0].e or empty[3].s.n != 0:
            raise Unsupported('the names of the blocks are not one dictionary')
        for k in KINDS:
            empty[k] = self.mem.lists[k]
        self.mem.dict = empty
        self.map = NameMap(self, template)
        self.dict = d[0]
        d[0].base = self.map
        self.slave = s

    # ---------------------------------------------------------------- names
    def pick(self, label, p=0.8):
        """an arbitrary name: (name, its block or None)"""
        vc = self.vc
        if self.any:
            v = self.map.lookup(label, None)
            r = self.map.known[label]
            self.names[label] = r
            vc.E.draws[label] = NameDraw(self, label)
            return label, r
        if vc.sym:
            k = vc.E.choice(len(self.recs) + 1)
            r = self.recs[k - 1] if k else None
            self.names[label] = r
            vc.E.draws[label] = NameDraw(self, label)
            return (r.name, r) if r is not None else (self.absent, None)

        def choose(rr):
            if not self.recs or rr.random() > p:
                return None
            b = rr.choice(self.recs)
            return [b.kind, b.start]
        v = vc.given(label, choose)
        if v is not None:
            for r in self.recs:
                if [r.kind, r.start] == list(v):
                    return r.name, r
            raise H.Reject('no such block')
        return self.absent, None

    # ---------------------------------------------------------------- ranges
    def overlaps(self, kind, start, size):
        """does [start, start+size) meet a block of that kind?  (both cases in proofs)"""
        vc = self.vc
        if not self.any:
            return any(r.kind == kind and bool(vc.and_(start < r.start + r.size, r.start < start + size)) for r in self.recs)
        e, mem = vc.E, self.mem
        hit = lambda st, sz: vc.and_(start < st + sz, st < start + size)
        if e.choice(2) == 0:
            s = mem.seqs[kind]
            i = e.fresh_int('overlapped', 0)
            e.assume(i.i < zi(mk(s.n)))
            blk = s.get(i.i)
            _, st, sz, _ = mem.info(blk)
            vc.assume(hit(st, sz))
            vc.hints.witnesses.append(i)
            return True
        mem.facts[kind].append(lambda st, sz: vc.not_(hit(st, sz)))
        for blk, st, sz, _ in mem.blocks[kind]:
            vc.assume(vc.not_(hit(st, sz)))
        return False

    def list_now(self, kind):
        v = self.mem.dict[kind]
        if not isinstance(v, VcList):
            raise Unsupported('the blocks of a kind are not a list')
        return v.s

    def find_new(self, kind):
        """position of the block in the list of a kind that was not there before"""
        def scan(s, off):
            if isinstance(s, Conc):
                for k, o in enumerate(s.v):
                    if not any(o is rec[0] for rec in self.mem.blocks[kind]):
                        return core.iadd(off, k), o
            elif isinstance(s, seq.Cat):
                for q in s.p:
                    r = scan(q, off)
                    if r is not None:
                        return r
                    off = core.iadd(off, q.n)
            return None
        return scan(self.list_now(kind), 0)

    # ---------------------------------------------------------------- what the user sees
    def near(self):
        out = []
        for r in self.recs:
            if self.vc.conc:
                out += [r.start, r.start + r.size - 1, r.start + r.size]
        return out

    def missing(self, label, name):
        vc = self.vc
        r = vc.call(self.slave.get_values, name, vc.int('anyaddress'))
        vc.ensure(label, r.raised(excs(self.w).MissingKeyError), r)

    def holds(self, label, name, rec, content=None):
        """the block called `name` covers exactly the range of rec and holds `content` (default: the old content)"""
        vc, e = self.vc, excs(self.w)
        ct = rec.content if content is None else content
        if vc.conc:
            for a in (rec.start - 1, rec.start + rec.size):
                r = vc.call(self.slave.get_values, name, a)
                vc.ensure(label + ' (range)', r.raised(e.OutOfModbusBlockError), r)
            if rec.size > 200:
                r = vc.call(self.slave.get_values, name, rec.start, rec.size)
                vc.ensure(label, r.ok and list(r.value) == list(ct), lambda: '%s: %r, expected %r' % (name, r, ct))
            for o in range(rec.size) if rec.size <= 200 else (0, 1, rec.size // 2, rec.size - 2, rec.size - 1):
                r = vc.call(self.slave.get_values, name, rec.start + o)
                vc.ensure(label, r.ok and isinstance(r.value, tuple) and len(r.value) == 1, r)
                vc.ensure(label, r.value[0] == ct[o], lambda: '%s item %d: %r, expected %r' % (name, o, r.value[0], ct[o]))
            return
        if rec.index is not None:
            vc.hints.witnesses = [rec.index - 1, rec.index, rec.index + 1]
        a = vc.int('address')
        r = vc.call(self.slave.get_values, name, a)
        if bool(vc.and_(a >= rec.start, a < rec.start + rec.size)):
            vc.ensure(label, r.ok and isinstance(r.value, tuple) and len(r.value) == 1, r)
            if r.ok:
                vc.ensure(label, r.value[0] == vc.at(ct, a - rec.start), r)
        else:
            vc.ensure(label + ' (range)', r.raised(e.OutOfModbusBlockError), r)

    def all_hold(self, label, content=None):
        """concrete runs: every block"""
        for r in self.recs:
            self.holds(label, r.name, r, (content or {}).get(r.name))
