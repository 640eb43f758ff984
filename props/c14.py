"""C14: the set of slaves is a map from unit id to slave."""
from vc.harness import harness
from .common import excs
from .bank import Bank

DB = 'modbus.Databank.'
FNS = [DB + 'add_slave', DB + 'get_slave', DB + 'remove_slave', DB + 'remove_all_slaves']
SV = ['modbus.Server.' + f for f in ('add_slave', 'get_slave', 'remove_slave', 'remove_all_slaves')]


def look(vc, w, top, i):
    """the slave registered under i as far as the user can tell, or None"""
    r = vc.call(top.get_slave, i)
    if r.ok:
        return r.value
    vc.ensure('retrieving an absent slave is refused with a missing-key error', r.raised(excs(w).MissingKeyError), r)
    return None


def is_slave(w, s):
    return isinstance(s, w.modbus.Slave)


@harness('C14', FNS + SV)
def fresh(vc):
    """a new databank holds no slave"""
    w = vc.world()
    db = w.modbus.Databank()
    top = w.modbus.Server(db) if vc.flag('server') else db
    i = vc.int('id')
    vc.ensure('a new databank holds no slave', look(vc, w, top, i) is None)
    r = vc.call(top.remove_slave, i)
    vc.ensure('removing an absent slave is refused with a missing-key error', r.raised(excs(w).MissingKeyError), r)
    vc.cover('fresh')


def step(name, op, fns):
    @harness('C14', fns, name=name)
    def h(vc):
        w = vc.world()
        bank = Bank(vc, w, (), server=vc.flag('server'))
        top = bank.top
        near = list(bank.ids) if bank.ids else []
        mk_ = (lambda r: r.choice(near) if near and r.random() < 0.5 else None) if vc.conc else None
        i = vc.int('id', near=(0, 1, 255, 256), make=mk_)
        j = vc.int('other', near=(0, 1, 255, 256), make=mk_)
        before_i, before_j = look(vc, w, top, i), look(vc, w, top, j)
        vc.ensure('a registered id is in 1..255', before_j is None or bool(vc.and_(j >= 1, j <= 255)))
        want = op(vc, w, top, i, before_i)
        after_j = look(vc, w, top, j)
        vc.cover('step')
        if want is ALL or bool(i == j) and want is not SAME:
            want = None if want is ALL else want
        else:
            want = before_j
        vc.ensure('every id holds what the last operation on it left', after_j is want,
                  lambda: 'id %r holds %r, expected %r (operation on id %r)' % (j, after_j, want, i))


SAME, ALL = object(), object()


def add_args(vc, w):
    how = vc.pick('args', ('none', 'signed', 'no memory', 'memory'))
    return {'none': (), 'signed': (False,), 'no memory': (True, None), 'memory': (True, {k: [] for k in (1, 2, 3, 4)})}[how]


def do_add(vc, w, top, i, before):
    e = excs(w)
    args = add_args(vc, w)
    r = vc.call(top.add_slave, i, *args)
    if not bool(vc.and_(i >= 1, i <= 255)):
        vc.cover('id out of range')
        vc.ensure('an id outside 1..255 is refused', not r.ok, r)
        return SAME
    if before is not None:
        vc.cover('existing id')
        vc.ensure('adding an existing id is refused with a duplicate-key error', r.raised(e.DuplicatedKeyError), r)
        return SAME
    vc.cover('new id')
    vc.ensure('adding a new id returns a slave', r.ok and is_slave(w, r.value), r)
    vc.ensure('the slave is a new object', r.value is not before)
    starts_empty(vc, w, r.value, args)
    return r.value


def starts_empty(vc, w, s, args):
    """a slave that was just added over no memory, or over a memory without blocks"""
    vc.ensure('the slave reads words as asked', bool(s.unsigned) is (args[0] if args else True))
    r = vc.call(s.get_values, 'x', 0, 1)
    vc.ensure('a new slave has no block', r.raised(excs(w).MissingKeyError), r)
    f = vc.pick('function', (1, 2, 3, 4))
    r = vc.call(s.handle_request, bytes([f, 0, 0, 0, 1]))
    vc.ensure('a new slave answers no address', r.ok and vc.is_bytes(r.value) and vc.len(r.value) == 2, r)
    vc.ensure_eq('a new slave answers no address', r.value, bytes([0x80 | f, 2]))


def do_remove(vc, w, top, i, before):
    r = vc.call(top.remove_slave, i)
    if before is None:
        vc.cover('absent id')
        vc.ensure('removing an absent slave is refused with a missing-key error', r.raised(excs(w).MissingKeyError), r)
        return SAME
    vc.cover('present id')
    vc.ensure('removing a slave succeeds', r.ok, r)
    return None


def do_clear(vc, w, top, i, before):
    r = vc.call(top.remove_all_slaves)
    vc.ensure('removing all slaves succeeds', r.ok, r)
    return ALL


def do_get(vc, w, top, i, before):
    vc.ensure('retrieving changes nothing', look(vc, w, top, i) is before)
    return SAME


step('add', do_add, [FNS[0], FNS[1], SV[0], SV[1]])
step('remove', do_remove, [FNS[1], FNS[2], SV[1], SV[2]])
step('remove_all', do_clear, [FNS[1], FNS[3], SV[1], SV[3]])
step('get', do_get, [FNS[1], SV[1]])


@harness('C14', FNS + SV, sym=False)
def history(vc):
    """random histories on the real code (bounded length)"""
    w = vc.world()
    db = w.modbus.Databank()
    top = w.modbus.Server(db) if vc.flag('server') else db
    ops = vc.given('ops', lambda r: [[r.choice(('add', 'add', 'add', 'remove', 'remove', 'clear') if r.random() < 0.3 else ('add', 'remove')),
                                      r.choice((0, 1, 2, 3, 254, 255, 256, -1, r.randrange(1, 256)))] for _ in range(r.randrange(1, 14))])
    model, made = {}, []
    for op, i in ops:
        if op == 'add':
            args = add_args(vc, w)
            r = vc.call(top.add_slave, i, *args)
            if not 1 <= i <= 255 or i in model:
                vc.ensure('an illegal addition is refused', not r.ok, r)
            else:
                vc.ensure('a legal addition succeeds', r.ok and is_slave(w, r.value), r)
                model[i] = r.value
                vc.ensure('every addition makes a new slave', not any(x is r.value for x in made))
                made.append(r.value)
                starts_empty(vc, w, r.value, args)
                if vc.flag('with blocks'):
                    vc.call(r.value.add_block, 'x', 3, 0, 2)
        elif op == 'remove':
            r = vc.call(top.remove_slave, i)
            vc.ensure('removal succeeds exactly if present', r.ok == (i in model), r)
            model.pop(i, None)
        else:
            top.remove_all_slaves()
            model.clear()
        for k in (0, 1, 2, 3, 254, 255, 256, i):
            vc.ensure('every id holds what the last operation on it left', look(vc, w, top, k) is model.get(k), 'id %d after %s %d' % (k, op, i))


@harness('C14', FNS + SV, sym=False)
def shared_memory(vc):
    """slaves over one memory: taking one away leaves the others what they have"""
    w = vc.world()
    db = w.modbus.Databank()
    top = w.modbus.Server(db) if vc.flag('server') else db
    memory = {k: [] for k in (1, 2, 3, 4)}
    ids = vc.given('ids', lambda r: r.sample(range(1, 256), 3))
    a = top.add_slave(ids[0], True, memory)
    a.add_block('x', 3, 10, 5)
    a.set_values('x', 10, [1, 2, 3, 4, 5])
    b = top.add_slave(ids[1], True, memory)
    c = top.add_slave(ids[2])
    c.add_block('y', 1, 0, 8)

    def read(s, f, at, n):
        r = vc.call(s.handle_request, bytes([f, 0, at, 0, n]))
        return bytes(r.value) if r.ok else r
    ops = vc.given('ops', lambda r: [[r.choice(('remove', 'add', 'get')), r.randrange(3)] for _ in range(r.randrange(1, 6))])
    if vc.flag('all at the end'):
        ops = ops + [['clear', 0]]
    for op, k in ops:
        if op == 'remove':
            vc.call(top.remove_slave, ids[k])
        elif op == 'add':
            vc.call(top.add_slave, ids[k], True, memory)
        elif op == 'get':
            vc.call(top.get_slave, ids[k])
        else:
            top.remove_all_slaves()
        for s in (a, b):
            vc.ensure('what a slave holds stays when another is added or removed', read(s, 3, 10, 5) == bytes([3, 10, 0, 1, 0, 2, 0, 3, 0, 4, 0, 5]), lambda: 'after %s %d' % (op, ids[k]))
        vc.ensure('what a slave holds stays when another is added or removed', read(c, 1, 0, 8) == bytes([1, 1, 0]))
