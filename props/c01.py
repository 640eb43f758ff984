"""C01: calculate_crc is the Modbus CRC-16 of its argument, low byte first."""
from vc.harness import harness
from vc import core
from vc.core import VcInt
import z3


def crc_step_int(crc, b):
    crc ^= b
    for _ in range(8):
        crc = (crc >> 1) ^ 0xA001 if crc & 1 else crc >> 1
    return crc


def crc_int(data):
    crc = 0xFFFF
    for b in data:
        crc = crc_step_int(crc, b)
    return crc


def crc_step(crc, b):
    """bitwise definition, one byte"""
    if isinstance(crc, int) and isinstance(b, int):
        return crc_step_int(crc, b)
    c = crc ^ b
    for _ in range(8):
        c = core.vite((c & 1) != 0, (c >> 1) ^ 0xA001, c >> 1)
    return c


def swap(v):
    return ((v & 0xFF) << 8) + ((v >> 8) & 0xFF)


class Crc(object):
    """ghost: CRC of the first k bytes, by its recursive definition"""
    def __init__(self, vc, data):
        self.vc, self.data = vc, data
        if vc.sym:
            e = core.ENG
            e.fresh_n += 1
            self.f = z3.Function('CRC!%d' % e.fresh_n, z3.IntSort(), z3.BitVecSort(16))
            e.fact(self.f(z3.IntVal(0)) == z3.BitVecVal(0xFFFF, 16))
        else:
            self.pre = [0xFFFF]
            for b in list(data.s.items() if hasattr(data, 's') else data):
                self.pre.append(crc_step_int(self.pre[-1], b))

    def at(self, k):
        if not self.vc.sym:
            return self.pre[k]
        if isinstance(k, int) and k == 0:
            return 0xFFFF
        e = core.ENG
        kt = core.zi(k)
        # definition: CRC(k+1) = step(CRC(k), data[k])   (unfolded once around the point asked for)
        for d in (0, -1):
            j = z3.simplify(kt + d)
            step = crc_step(VcInt(None, self.f(j)), self.vc.at(self.data, core.mk(j)))
            s = step.sbv(16) if isinstance(step, VcInt) else z3.BitVecVal(step, 16)
            e.fact(z3.Implies(z3.And(j >= 0, j < core.zi(self.vc.len(self.data))), self.f(z3.simplify(j + 1)) == s))
        return VcInt(None, self.f(kt))


@harness('C01', ['utils.calculate_crc', 'utils.swap_bytes'])
def crc16(vc):
    w = vc.world()
    data = vc.bytes('data', lo=0, reps=(0, 1, 2, 3), kind=vc.pick('type', ('bytes', 'bytearray')))
    g = Crc(vc, data)
    vc.hints.ints.append(lambda k: g.at(k))
    vc.hints.ints.append(lambda k: swap(g.at(k)))
    r = vc.call(w.utils.calculate_crc, data)
    vc.ensure('calculate_crc returns', r.ok, r)
    n = vc.len(data)
    vc.ensure('result is the Modbus CRC-16, low byte first', r.value == swap(g.at(n)), lambda: '%r' % (r.value,))
    vc.cover('arbitrary data')


@harness('C01', ['utils.swap_bytes'])
def swap_bytes(vc):
    w = vc.world()
    v = vc.int('v', 0, 65535, bv=16)
    r = vc.call(w.utils.swap_bytes, v)
    vc.ensure('swap_bytes exchanges the two bytes', r.ok and r.value == swap(v))


@harness('C01', ['utils.calculate_crc', 'utils.swap_bytes'], sym=False)
def successive(vc):
    """one calculation after another"""
    vc.successive((crc16, swap_bytes))
