"""C30: RTU timing."""
from vc.harness import harness
from .net import Port, Stream

INTER = 'utils.calculate_rtu_inter_char'
MASTER = ['modbus_rtu.RtuMaster.__init__', 'modbus_rtu.RtuMaster.set_timeout', INTER]
SERVER = ['modbus_rtu.RtuServer.__init__', 'modbus_rtu.RtuServer.set_timeout', INTER]


def char_time(vc, baud):
    """seconds per character"""
    return 11 / baud if bool(baud <= 19200) else 0.0005


def near(vc, a, b):
    """equal; in concrete runs up to rounding"""
    if vc.sym:
        return a == b
    return a is not None and abs(a - b) <= 1e-9 * abs(b)


def baudrate(vc):
    if vc.flag('whole'):
        return vc.int('baudrate', 1, 10000000 if not vc.sym else None, near=(1, 300, 9600, 19200, 38400, 115200))
    return vc.real('baudrate', above=0, hi=None if vc.sym else 1e7, near=(19200,))


@harness('C30', [INTER])
def inter_char(vc):
    w = vc.world()
    b = baudrate(vc)
    r = vc.call(w.utils.calculate_rtu_inter_char, b)
    vc.ensure('there is a character time for every baud rate', r.ok, r)
    vc.cover('computed')
    vc.ensure('the character time is eleven bits up to 19200 baud, 0.5 ms above', near(vc, r.value, char_time(vc, b)), lambda: '%r at %r baud' % (r.value, b))


def setting(vc, p, names):
    """multipliers given or not"""
    kw, vals = {}, []
    for n, d in names:
        v = d
        if vc.flag(n + ' given'):
            v = kw[n] = vc.real(n, above=0, hi=None if vc.sym else 20.0, near=(1, 1.5, 3.5))
        vals.append(v)
    return kw, vals


def check(vc, port, t, x):
    vc.cover('made')
    vc.ensure('the inter-byte timeout is a multiple of the character time', near(vc, port.inter_byte_timeout, x[0] * t), lambda: '%r' % (port.inter_byte_timeout,))
    vc.ensure('the read timeout is a multiple of the character time', near(vc, port.timeout, x[1] * t), lambda: '%r' % (port.timeout,))


def preset(vc, port):
    """what the port was set to before is of no account"""
    port.inter_byte_timeout = vc.real('inter-byte timeout before', 0, None if vc.sym else 2.0, near=(0.0001,)) if vc.flag('inter-byte timeout was set') else None
    return port


NAMES = (('interchar_multiplier', 1.5), ('interframe_multiplier', 3.5))


@harness('C30', MASTER)
def master(vc):
    w = vc.world()
    b = baudrate(vc)
    port = Port(vc, baudrate=b, timeout=vc.pick('timeout before', (1.0, None, 0)), is_open=vc.flag('open'))
    preset(vc, port)
    kw, x = setting(vc, port, NAMES)
    how = vc.pick('character time', ('not given', 'none', 'given'))
    t = char_time(vc, b)
    if how == 'none':
        kw['t0'] = None
    elif how == 'given':
        t = kw['t0'] = vc.real('t0', above=0, hi=None if vc.sym else 1.0, near=(0.0005, 0.001))
    if len(kw) == 3 and vc.flag('positional'):
        r = vc.call(w.modbus_rtu.RtuMaster, port, kw['interchar_multiplier'], kw['interframe_multiplier'], kw['t0'])
    else:
        r = vc.call(w.modbus_rtu.RtuMaster, port, **kw)
    vc.ensure('a master is made', r.ok, r)
    check(vc, port, t, x)
    vc.ensure('the master knows its timeout', near(vc, r.value.get_timeout(), x[1] * t))
    vc.call(r.value.open)
    check(vc, port, t, x)


@harness('C30', SERVER)
def server(vc):
    w = vc.world()
    b = baudrate(vc)
    port = Port(vc, stream=Stream(vc, 'port', vc.mkbytes([]), whole=True), baudrate=b, timeout=vc.pick('timeout before', (1.0, None, 0)), is_open=vc.flag('open'))
    preset(vc, port)
    kw, x = setting(vc, port, NAMES)
    t = char_time(vc, b)
    if vc.flag('databank'):
        kw['databank'] = w.modbus.Databank()
    r = vc.call(w.modbus_rtu.RtuServer, port, **kw)
    vc.ensure('a server is made', r.ok, r)
    check(vc, port, t, x)
    vc.ensure('the server knows its timeout', near(vc, r.value.get_timeout(), x[1] * t))
    vc.call(r.value._do_init)
    check(vc, port, t, x)
    blocking = vc.flag('running')
    if blocking:
        vc.call(r.value.start)
    vc.call(r.value._do_run)
    check(vc, port, t, x)
    if vc.conc:
        r.value.close()


@harness('C30', MASTER + SERVER, weight=2)
def side_by_side(vc):
    """two masters or servers with their own settings at the same time, used in turn"""
    w = vc.world()
    made = []
    for k in (0, 1):
        b = baudrate(vc)
        kw, x = setting(vc, None, NAMES)
        p = Port(vc, 'port%d' % k, stream=Stream(vc, 'port%d' % k, vc.mkbytes([]), whole=True), baudrate=b, timeout=1.0, is_open=True)
        kind = vc.pick('kind', ('master', 'server'))
        r = vc.call(w.modbus_rtu.RtuMaster if kind == 'master' else w.modbus_rtu.RtuServer, p, **kw)
        vc.ensure('made', r.ok, r)
        made.append((r.value, p, x[1] * char_time(vc, b), x[0] * char_time(vc, b), kind))
    set_later = vc.flag('set later')
    if set_later:
        v = vc.real('seconds', above=0, hi=None if vc.sym else 9.0)
        vc.call(made[1][0].set_timeout, v)
        made[1] = made[1][:2] + (v,) + made[1][3:]
    for m, p, t, i, kind in made:
        if kind == 'server':
            vc.call(m._do_init)
            if vc.flag('running'):
                vc.call(m.start)
            vc.call(m._do_run)
        else:
            vc.call(m.open)
    vc.cover('used')
    for m, p, t, i, kind in made:
        vc.ensure('each knows its own timeout', near(vc, m.get_timeout(), t), lambda: '%r' % (m.get_timeout(),))
        vc.ensure('each port has its own read timeout', near(vc, p.timeout, t), lambda: '%r' % (p.timeout,))
        vc.ensure('each port has its own inter-byte timeout', near(vc, p.inter_byte_timeout, i), lambda: '%r' % (p.inter_byte_timeout,))


@harness('C30', MASTER + SERVER, sym=False)
def successive(vc):
    """masters and servers with different settings, one after another"""
    vc.successive((inter_char, master, server))
