"""C31: the simulator's commands and its RPC client."""
import io, sys, select as real_select, socket as real_socket, socketserver as real_ss, queue as real_queue
from vc import core, seq, shims
from vc.core import VcInt
from vc.harness import harness

SIM = ['simulator.Simulator.' + f for f in ('_handle', '_tuple_to_str', '_do_add_slave', '_do_has_slave', '_do_remove_slave', '_do_remove_all_slaves',
       '_do_add_block', '_do_remove_block', '_do_remove_all_blocks', '_do_set_values', '_do_get_values', '_do_install_hook', '_do_uninstall_hook', '_do_set_verbose',
       'add_command', 'declare_hook')]
RPC = ['simulator.RpcHandler.handle']
CON = ['simulator.ConsoleInterface.run', 'simulator.ConsoleInterface._check_console_input']
CLI = ['simulator_rpc_client.SimulatorRpcClient.' + f for f in ('_rpc_call', '_response_to_values', 'add_slave', 'remove_slave', 'remove_all_slaves', 'has_slave', 'add_block',
       'remove_block', 'remove_all_blocks', 'set_values', 'get_values', 'install_hook', 'uninstall_hook')]


class Done(BaseException):
    """there is no further command"""


class Q(object):
    """a queue between the interfaces and the command loop"""
    _vc_ignore = True

    def __init__(self, maxsize=0):
        self.items, self.puts = [], []
        self.pump = None

    def put(self, x, *a, **k):
        self.items.append(x)
        self.puts.append(x)
    put_nowait = put

    def get(self, block=True, timeout=None):
        if not self.items and self.pump is not None:
            self.pump()
        if not self.items:
            if timeout is not None or not block:
                raise real_queue.Empty()
            raise Done()
        return self.items.pop(0)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        return not self.items

    def qsize(self):
        return len(self.items)


class Text(object):
    """a file of lines"""
    _vc_ignore = True

    def __init__(self, lines=()):
        self.lines, self.out = list(lines), []

    def readline(self, *a):
        return self.lines.pop(0) if self.lines else ''

    def write(self, s):
        self.out.append(s)

    def flush(self):
        pass

    def fileno(self):
        return 0


class TCPServer(object):
    def __init__(self, *a, **k):
        pass

    def serve_forever(self, *a):
        pass

    def shutdown(self):
        pass

    server_close = shutdown


def simulator(vc, server=None, stubs=None):
    st = {'queue': shims.Mod(real_queue, Queue=Q), 'socketserver': shims.Mod(real_ss, TCPServer=TCPServer)}
    st.update(stubs or {})
    w = vc.world(stubs=st)
    m = w.simulator
    if server is None:
        return w, m, None
    s = m.Simulator(server(w))
    return w, m, s


def loop(vc, sim, cmds):
    """the command loop over these commands: (answers, did it end?, error)"""
    for c in cmds:
        sim.inq.put(c)
    n = len(sim.outq.puts)
    try:
        r = vc.call(sim._handle)
        ended = True
    except Done:
        r, ended = None, False
    return sim.outq.puts[n:], ended, r


# ------------------------------------------------------------------------------------------------ one command, any numbers
def text(x):
    """a number as it is written"""
    return str(x)


def number(vc, w):
    """what a piece of text says: an integer, or text"""
    if seq.has_token(w):
        p = seq.split_tokens(w)
        if len(p) == 1 and p[0][0] in ('dec', 'fmt'):
            return p[0][1] if p[0][0] == 'dec' else p[0][1][1]
        return w
    return w


def same_text(vc, label, got, want):
    """the text is these words (numbers by their value)"""
    vc.ensure(label, isinstance(got, str), lambda: repr(got))
    g = got.split(' ')
    vc.ensure(label, len(g) == len(want), lambda: '%r, expected %r' % (got, want))
    for a, b in zip(g, want):
        if isinstance(b, VcInt) or isinstance(b, int):
            a = number(vc, a)
            if isinstance(a, str):
                vc.ensure(label, not isinstance(b, VcInt) and a == str(b), lambda: '%r, expected %r' % (got, want))
            else:
                vc.ensure(label, a == b, lambda: '%r, expected %r' % (got, want))
        else:
            vc.ensure(label, a == b, lambda: '%r, expected %r' % (got, want))


def same_call(vc, label, got, want):
    vc.ensure(label, got[0] == want[0] and len(got) == len(want), lambda: '%r, expected %r' % (got, want))
    for a, b in zip(got[1:], want[1:]):
        if isinstance(b, (list, tuple)):
            vc.ensure_eq(label, vc.mklist(list(a)) if isinstance(a, (list, tuple)) else a, vc.mklist(list(b)))
        else:
            vc.ensure(label, type(a) is not str or type(b) is str, lambda: '%r, expected %r' % (got, want))
            vc.ensure(label, a == b, lambda: '%r, expected %r' % (got, want))


class Fake(object):
    """a server, or a slave, that records what is asked of it"""
    _vc_ignore = True

    def __init__(self, vc, log, name, answers):
        self._vc_c, self._log, self._name, self._answers = vc, log, name, answers

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)

        def f(*a, **kw):
            self._log.append((self._name, k) + a + tuple(sorted(kw.items())))
            r = self._answers.get(k)
            if isinstance(r, Exception):
                raise r
            return r
        return f


def num(vc, name):
    return vc.int(name, -100000 if vc.conc else None, 100000 if vc.conc else None)


WORDS = ('b', '0', 'name-1', 'quit', 'a.quit', 'get_values')


def word(vc, name):
    """a name without blanks"""
    if vc.sym:
        return vc.pick(name, WORDS)
    return vc.given(name, lambda r: r.choice(WORDS) if r.random() < 0.6 else ''.join(r.choice('abqui_t0.-:;=/{}%\\\u00e9') for _ in range(r.randrange(1, 8))))


@harness('C31', SIM, weight=2)
def command(vc):
    """every command with any numbers; the operation succeeds or raises"""
    log, answers = [], {}
    w, mod, sim = simulator(vc, lambda w: Fake(vc, log, 'server', answers))
    answers['get_slave'] = Fake(vc, log, 'slave', answers)
    name = vc.pick('command', ('add_slave', 'has_slave', 'remove_slave', 'remove_all_slaves', 'add_block', 'remove_block', 'remove_all_blocks', 'set_values', 'get_values', 'set_verbose'))
    s, block = num(vc, 'slave'), word(vc, 'block')
    error = vc.pick('the operation', ('works', 'raises'))
    e = w.modbus.ModbusError(2, 'some reason') if vc.flag('modbus error') else Exception('some reason')
    args, calls, result = [s], [], None
    if name == 'add_slave':
        calls, result = [('server', 'add_slave', s)], [s]
    elif name == 'has_slave':
        calls, result = [('server', 'get_slave', s)], ['1' if error == 'works' else '0']
    elif name == 'remove_slave':
        calls = [('server', 'remove_slave', s)]
    elif name == 'remove_all_slaves':
        args, calls = [], [('server', 'remove_all_slaves')]
    elif name == 'set_verbose':
        calls, result = [('server', 'set_verbose', s)], [s]
    else:
        calls = [('server', 'get_slave', s)]
        if name == 'remove_all_blocks':
            calls.append(('slave', name))
        else:
            args.append(block)
            if name == 'remove_block':
                calls.append(('slave', name, block))
            elif name == 'add_block':
                k, a, n = num(vc, 'kind'), num(vc, 'address'), num(vc, 'length')
                args += [k, a, n]
                calls.append(('slave', name, block, k, a, n))
                result = [block]
            else:
                a = num(vc, 'address')
                n = vc.pick('values', (0, 1, 2, 5) if not vc.conc else (0, 1, 2, 5, 40, 64, 65, 123, 200))
                held = [num(vc, 'held%d' % k) for k in range(n)]
                answers['get_values'] = vc.mktuple(held) if n else ()
                result = held if n else ['']
                if name == 'get_values':
                    args += [a, n]
                    calls.append(('slave', name, block, a, n))
                else:
                    vals = [num(vc, 'value%d' % k) for k in range(n)]
                    args += [a] + vals
                    calls += [('slave', name, block, a, vals), ('slave', 'get_values', block, a, n)]
    if error == 'raises':
        failing = vc.pick('which fails', calls)
        answers[failing[1]] = e
        calls = calls[:calls.index(failing) + 1]
    line = ' '.join([name] + [text(x) for x in args]) + vc.pick('end of line', ('', '\n', '\r\n'))
    out, ended, _ = loop(vc, sim, [line])
    vc.cover(name)
    vc.ensure('a command does not end the loop', not ended)
    vc.ensure('the operation is performed once', len(log) == len(calls), lambda: '%r: %r' % (line, log))
    for g, c in zip(log, calls):
        same_call(vc, 'the named operation is performed with the given numbers', g, c)
    vc.ensure('a command gets exactly one answer', len(out) == 1, lambda: '%r: %r' % (line, out))
    good = error == 'works' or name == 'has_slave'
    head = name + (' done: ' if good else ' error: ')
    a = out[0]
    vc.ensure('the answer names the command and its outcome', isinstance(a, str) and a[:len(head)] == head and a[-2:] == '\r\n', lambda: '%r: %r' % (line, a))
    if not good:
        vc.ensure('an error is answered with its reason', a[len(head):-2] == str(e), lambda: repr(a))
    elif result is not None:
        same_text(vc, 'the answer carries the result', a[len(head):-2], result)


@harness('C31', SIM)
def other_lines(vc):
    """custom and unknown commands, missing and wrong arguments, the end; a command after each of them"""
    log, answers = [], {}
    w, mod, sim = simulator(vc, lambda w: Fake(vc, log, 'server', answers))
    answers['get_slave'] = Fake(vc, log, 'slave', answers)
    calls = []

    def custom(args):
        calls.append(list(args))
        if args[-1] == 'fail':
            raise ValueError('it failed')
        return 'a result'
    kind = vc.pick('line', ('custom', 'custom fails', 'unknown', 'malformed', 'quit'))
    end = vc.pick('end of line', ('', '\n', '\r\n'))
    bad = vc.pick('malformed', ('add_slave', 'add_slave x', 'has_slave', 'remove_slave', 'remove_slave 1.5', 'add_block 1 b 1 0', 'add_block 1 b 1 0 y', 'add_block x b 1 0 1',
                                'remove_block 1', 'remove_block', 'remove_all_blocks', 'set_values 1 b', 'set_values 1 b x 1', 'set_values 1 b 0 1 x', 'set_values 1 b 0  1', 'get_values 1 b 0  1', 'add_slave  1', 'remove_block  1 b', 'get_values 1 b 0',
                                'get_values 1 b 0 z', 'set_verbose', 'set_verbose on', 'install_hook', 'install_hook a', 'install_hook a nothing', 'add_slave ')) if kind == 'malformed' else None
    more = word(vc, 'argument') if kind == 'custom' else ''
    line = {'custom': 'mine 1 ' + more, 'custom fails': 'mine fail', 'unknown': vc.pick('unknown', ('', 'hello', 'Add_slave 1', ' add_slave 1', 'add_slave1', 'done', '%s', 'mine2 x')) if kind == 'unknown' else '',
            'malformed': bad, 'quit': vc.pick('quit', ('quit', 'quit now')) if kind == 'quit' else ''}[kind] + end
    sim.add_command('mine', custom)
    out, ended, r = loop(vc, sim, [line, 'set_verbose 1'])
    vc.cover(kind)
    if kind == 'quit':
        vc.ensure('quit ends the loop', ended and r.ok, r)
        vc.ensure('quit is answered once', len(out) == 1, lambda: repr(out))
        vc.ensure('nothing is done after quit', not log)
        return
    vc.ensure('no command other than quit ends the loop', not ended, lambda: repr(line))
    vc.ensure('a command gets exactly one answer', len(out) == 2, lambda: '%r: %r' % (line, out))
    vc.ensure('the next command is served', out[1] == 'set_verbose done: 1\r\n' and log[-1:] == [('server', 'set_verbose', 1)], lambda: repr(out))
    a = out[0]
    if kind == 'custom':
        vc.ensure('a custom command is executed once', calls == [['mine', '1', more]], lambda: repr(calls))
        vc.ensure('the answer carries the result', a == 'mine done: a result\r\n', lambda: repr(a))
    elif kind == 'custom fails':
        vc.ensure('a custom command is executed once', calls == [['mine', 'fail']], lambda: repr(calls))
        vc.ensure('an error is answered with its reason', a == 'mine error: it failed\r\n', lambda: repr(a))
    elif kind == 'unknown':
        vc.ensure('an unknown command is answered with an error', a[:5] == 'error' and a[-2:] == '\r\n', lambda: repr(a))
        vc.ensure('an unknown command does nothing', len(log) == 1)
    else:
        head = bad.split(' ')[0] + ' error: '
        vc.ensure('a malformed command is answered with an error', a[:len(head)] == head and a[-2:] == '\r\n', lambda: '%r: %r' % (line, a))
        vc.ensure('a malformed command does nothing', all(c[0] == 'server' and c[1] == 'get_slave' for c in log[:-1]), lambda: repr(log))


@harness('C31', SIM + ['hooks.install_hook', 'hooks.uninstall_hook'])
def hook_commands(vc):
    """hooks are installed and removed by name"""
    w, mod, sim = simulator(vc, lambda w: Fake(vc, [], 'server', {}))
    seen = []
    for n in 'fg':
        sim.declare_hook(n, lambda args, n=n: seen.append((n, args)))
    at = 'modbus.Server.before_handle_request'

    def installed(p):
        del seen[:]
        w.hooks.call_hooks(p, 'x')
        return [n for n, _ in seen]
    here, there = [], []
    for k in range(3):
        cmd = vc.pick('command', ('install f', 'install g', 'uninstall', 'uninstall f', 'uninstall f '))
        # what is there, as the documentation has it
        where, p = vc.pick('point', ((here, at), (there, 'another')))
        ok = True
        if cmd[:7] == 'install':
            line = 'install_hook %s %s' % (p, cmd[-1])
            where.append(cmd[-1])
        elif cmd == 'uninstall':
            line = 'uninstall_hook ' + p + vc.pick('blank', ('', ' '))
            del where[:]
        else:
            line = 'uninstall_hook %s f' % p
            if cmd[-1] == ' ':
                line = 'uninstall_hook %s nothing' % p
                ok = False
            elif 'f' in where:
                where.remove('f')
            else:
                ok = None
        out, ended, _ = loop(vc, sim, [line + '\n'])
        vc.cover(cmd)
        vc.ensure('a command gets exactly one answer', len(out) == 1 and not ended, lambda: '%r: %r' % (line, out))
        name = line.split(' ')[0]
        if ok is not None:
            head = name + (' done: ' if ok else ' error: ')
            vc.ensure('the answer names the command and its outcome', out[0][:len(head)] == head, lambda: '%r: %r' % (line, out))
        vc.ensure('exactly the named hook is installed or removed', installed(at) == here and installed('another') == there, lambda: '%r: %r %r' % (line, installed(at), here))


# ------------------------------------------------------------------------------------------------ the interfaces
LINES = ('add_slave 12', 'get_values 1 b 0 5\r\n', ' has_slave 1 ', 'x', 'quit', 'add_block 1 caf\u00e9 1 0 1', '\u20ac')
ANSWERS = ('add_slave done: 12\r\n', 'x error: no\r\n', 'bye-bye\r\n', 'error: unknown command \u00e9\r\n', 'add_block done: \u20ac\r\n')


class Conn(object):
    """the connection of a RPC client"""
    _vc_ignore = True

    def __init__(self, data):
        self.data, self.sent = data, b''

    def recv(self, n, *a):
        d, self.data = self.data[:n], self.data[n:]
        return d

    def sendall(self, b):
        self.sent += bytes(b) if isinstance(b, (bytes, bytearray)) else bytes(seq.to_seq(b).items())

    def send(self, b):
        self.sendall(b)
        return len(b)

    def close(self):
        pass
    settimeout = setsockopt = shutdown = lambda self, *a: None


@harness('C31', RPC)
def rpc_handler(vc):
    """a command received over RPC goes to the loop once, and its answer back once"""
    w, mod, _ = simulator(vc)
    if vc.conc:
        line = vc.pick('line', LINES + (None,)) or ''.join(vc.given('text', lambda r: [chr(r.choice((32, 97, 48, 233, 8364, 128512, r.randrange(33, 0x2000)))) for _ in range(r.randrange(1, 60))]))
        answer = vc.pick('answer', ANSWERS + (None,)) or ''.join(vc.given('result', lambda r: [chr(r.choice((32, 97, 48, 233, 8364, r.randrange(32, 0x2000)))) for _ in range(r.randrange(0, 3000))])) + '\r\n'
        raw = vc.given('bad bytes', lambda r: r.choice(([], [], [], [255], [195], [0xe2, 0x82])))
    else:
        line, answer, raw = vc.pick('line', LINES), vc.pick('answer', ANSWERS), []
    data = line.encode('utf-8') + bytes(raw)
    c = Conn(data)
    h = mod.RpcHandler.__new__(mod.RpcHandler)
    h.request, h.client_address, h.server = c, ('10.0.0.9', 5), None
    mod.OUTPUT_QUEUE.pump = lambda: mod.OUTPUT_QUEUE.put(answer)
    r = vc.call(h.handle)
    vc.ensure('a command over RPC is answered', r.ok, r)
    vc.cover('answered')
    got = mod.INPUT_QUEUE.puts
    vc.ensure('a command over RPC goes to the loop once', len(got) == 1, lambda: repr(got))
    if not raw:
        vc.ensure('the command is what was received', isinstance(got[0], str) and got[0].strip() == line.strip(), lambda: '%r: %r' % (line, got[0]))
    else:
        vc.ensure('the command is text', isinstance(got[0], str))
    vc.ensure('the answer is sent back unchanged, once', c.sent == answer.encode('utf-8'), lambda: '%r: %r' % (answer, c.sent))
    vc.ensure('no answer is left over', not mod.OUTPUT_QUEUE.items)


@harness('C31', CON)
def console(vc):
    """lines from the console: one command, one answer each"""
    n = vc.pick('lines', (1, 2, 3))
    lines = [vc.pick('line', LINES[:2] + LINES[3:4]).strip() + '\n' for _ in range(n)]
    idle = vc.pick('idle', (0, 1, 2))
    stdin, stdout = Text(lines), Text()
    state = [idle, None]

    def sel(r, w, x, timeout=None):
        if state[0] > 0:
            state[0] -= 1
            return [], [], []
        if not stdin.lines:
            state[1]._go.clear()
            return [], [], []
        return list(r), [], []
    w, mod, _ = simulator(vc, stubs={'sys': shims.Mod(sys, stdin=stdin, stdout=stdout), 'select': shims.Mod(real_select, select=sel)})
    outs = [vc.pick('answer', ANSWERS[:3]) for _ in range(n)]
    left = list(outs)
    mod.OUTPUT_QUEUE.pump = lambda: mod.OUTPUT_QUEUE.put(left.pop(0)) if left and len(mod.INPUT_QUEUE.puts) == n - len(left) + 1 else None
    c = mod.ConsoleInterface()
    state[1] = c
    r = vc.call(c.run)
    vc.ensure('the console goes on', r.ok, r)
    vc.cover('lines')
    vc.ensure('every line goes to the loop once', [x.strip('\r\n') for x in mod.INPUT_QUEUE.puts] == [l.strip('\n') for l in lines], lambda: repr(mod.INPUT_QUEUE.puts))
    vc.ensure('every answer is written once', ''.join(stdout.out) == ''.join(outs), lambda: repr(stdout.out))


# ------------------------------------------------------------------------------------------------ the client
class Link(object):
    """connections of the RPC client to a simulator: what is sent, what is answered"""
    _vc_ignore = True

    def __init__(self, vc, serve, piece):
        self.vc, self.serve, self.piece = vc, serve, piece
        self.conns = []
        me = self

        class S(object):
            _vc_ignore = True

            def __init__(self, *a, **k):
                self.got, self.buf, self.peer, self.closed, self.asked = b'', None, None, False, False
                me.conns.append(self)

            def connect(self, a):
                self.peer = a

            def settimeout(self, t):
                pass
            setsockopt = shutdown = setblocking = lambda self, *a: None

            def sendall(self, b):
                self.got += bytes(b) if isinstance(b, (bytes, bytearray)) else bytes(seq.to_seq(b).items())

            def send(self, b):
                self.sendall(b)
                return len(b)

            def recv(self, n, *a):
                if self.buf is None:
                    self.buf = me.serve(self.got)
                k = min(n, me.piece(len(self.buf)))
                d, self.buf = self.buf[:k], self.buf[k:]
                return d

            def makefile(self, mode='r', *a, **k):
                out = b''
                while True:
                    d = self.recv(4096)
                    if not d:
                        break
                    out += d
                return io.BytesIO(out) if 'b' in mode else io.StringIO(out.decode('utf-8', 'replace'))

            def close(self):
                self.closed = True

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()
        self.stubs = {'socket': shims.Mod(real_socket, socket=S, create_connection=lambda addr, *a, **k: self.connected(S(), addr))}

    def connected(self, s, addr):
        s.connect(addr)
        return s


API = ('add_slave', 'remove_slave', 'remove_all_slaves', 'has_slave', 'add_block', 'remove_block', 'remove_all_blocks', 'set_values', 'get_values', 'install_hook', 'uninstall_hook')


def api(vc, name):
    """(arguments of the client's method, words of the command)"""
    s = num(vc, 'slave')
    b = word(vc, 'block')
    if name in ('add_slave', 'remove_slave', 'has_slave', 'remove_all_blocks'):
        return (s,), [name, s]
    if name == 'remove_all_slaves':
        return (), [name]
    if name == 'remove_block':
        return (s, b), [name, s, b]
    if name == 'add_block':
        k, a, n = num(vc, 'kind'), num(vc, 'address'), num(vc, 'length')
        return (s, b, k, a, n), [name, s, b, k, a, n]
    if name == 'get_values':
        a, n = num(vc, 'address'), num(vc, 'length')
        return (s, b, a, n), [name, s, b, a, n]
    if name == 'set_values':
        a = num(vc, 'address')
        vals = [num(vc, 'value%d' % k) for k in range(vc.pick('count', (1, 2, 4)))]
        return (s, b, a, vc.mktuple(vals) if vc.flag('tuple') else vc.mklist(vals)), [name, s, b, a] + vals
    if name == 'install_hook':
        return ('a.b', 'f'), [name, 'a.b', 'f']
    return (('a.b', 'f'), [name, 'a.b', 'f']) if vc.flag('function') else (('a.b',), [name, 'a.b'])


@harness('C31', CLI, weight=2)
def client(vc):
    """what the client sends for each of its methods, and what it makes of the answer"""
    name = vc.pick('method', API)
    args, words = api(vc, name)
    answer = vc.pick('answer', ('done', 'error', 'unknown', 'another', 'longer name', 'nothing', 'not at the start'))
    n = vc.pick('number of values', (1, 2, 3)) if name == 'get_values' and answer == 'done' else 0
    held = [num(vc, 'held%d' % k) for k in range(n)]
    flag = vc.flag('there') if name == 'has_slave' and answer == 'done' else None
    result = ' '.join(text(x) for x in held) if n else str(int(flag)) if flag is not None else vc.pick('result', ('12', '', 'some text: done: x', '1 2 3', '\u00e9', ' b ')) if answer == 'done' else 'x'
    if name == 'get_values' and answer != 'done':
        result = '1 2'
    if vc.conc and answer == 'done' and name in ('set_values', 'add_block') and vc.pick('long', (False, False, False, True)):
        result = ' '.join(['12345'] * vc.pick('long result', (170, 171, 700, 11000, 20000)))
    line = {'done': '%s done: %s\r\n' % (name, result), 'error': '%s error: %s\r\n' % (name, result), 'unknown': 'error: unknown command %s\r\n' % name,
            'another': 'other done: %s\r\n' % result, 'longer name': '%s2 done: %s\r\n' % (name, result), 'nothing': '',
            'not at the start': 'x error: %s done: %s\r\n' % (name, result)}[answer]
    data = line.encode('utf-8')
    cut = vc.pick('pieces', ('whole', 'last byte apart', 'last two apart') + (('single bytes', 'small') if vc.conc else ()))
    whole = len(data)
    piece = {'whole': lambda left: left, 'last byte apart': lambda left: left - 1 if left > 1 else left, 'last two apart': lambda left: left - 2 if left > 2 else left,
             'single bytes': lambda left: min(1, left), 'small': lambda left: min(3, left)}[cut]
    link = Link(vc, lambda got: data, piece)
    w = vc.world(stubs=link.stubs)
    host, port = vc.pick('server', (('127.0.0.1', 2711), ('10.0.0.7', 99)))
    c = w.simulator_rpc_client.SimulatorRpcClient() if port == 2711 else w.simulator_rpc_client.SimulatorRpcClient(host, port)
    r = vc.call(getattr(c, name), *args)
    vc.cover(name)
    vc.ensure('a call makes one connection to the simulator', len(link.conns) == 1 and link.conns[0].peer == (host, port), lambda: repr([x.peer for x in link.conns]))
    sent = link.conns[0].got.decode('utf-8')
    same_text(vc, 'the command is the method and its arguments', sent.rstrip(), words)
    if answer != 'done':
        vc.ensure('any other answer raises', not r.ok, r)
        return
    vc.ensure('a done answer is accepted', r.ok, r)
    if name == 'has_slave':
        vc.ensure('has_slave tells whether the slave is there', r.value is flag, r)
    elif name == 'get_values':
        vc.ensure_eq('the values are returned', r.value, vc.mktuple(held))
    elif name in ('add_slave', 'add_block', 'set_values'):
        vc.ensure('exactly the result is returned', r.value == result, r)
    else:
        vc.ensure('exactly the result is returned', r.value is None or r.value == result, r)
    if answer == 'done' and name == 'add_slave':
        vc.ensure('exactly the result is returned', vc.call(c._response_to_values, line[:-2], name).value == result)


# ------------------------------------------------------------------------------------------------ everything together
@harness('C31', SIM + RPC + CLI, sym=False, m3=1.5)
def together(vc):
    """client, RPC handler, command loop and a real server, against a model of the memory"""
    holder = {}
    proto = vc.pick('server', ('tcp', 'composite'))

    def serve(got):
        mod, sim = holder['mod'], holder['sim']
        c = Conn(got)
        h = mod.RpcHandler.__new__(mod.RpcHandler)
        h.request = c

        def pump():
            try:
                sim._handle()
            except Done:
                pass
        mod.OUTPUT_QUEUE.pump = pump
        h.handle()
        return c.sent
    k = vc.pick('piece', (1, 5, 100000))
    link = Link(vc, serve, lambda left: min(k, left))
    w, mod, _ = simulator(vc, stubs=link.stubs)
    srv = w.modbus_tcp.TcpServer(databank=w.modbus.Databank()) if proto == 'tcp' else mod.CompositeServer([w.modbus_tcp.TcpServer], [(1502,)])
    sim = mod.Simulator(srv)
    holder.update(mod=mod, sim=sim)
    sim.declare_hook('f', lambda args: None)
    c = w.simulator_rpc_client.SimulatorRpcClient()

    def rnd(r):
        k = r.choice(('add_slave',) * 2 + ('add_block',) * 4 + ('set_values', 'get_values') * 4 + ('has_slave', 'remove_slave', 'remove_block', 'remove_all_blocks', 'remove_all_slaves'))
        s, b = r.choice((1, 1, 2, 255, -1, 300)), r.choice('abc')
        a, n = r.choice((0, 3, 7, 9, 20)), r.choice((1, 1, 3, 5, 0))
        return {'add_slave': [k, s], 'has_slave': [k, s], 'remove_slave': [k, s], 'remove_all_slaves': [k], 'remove_all_blocks': [k, s], 'remove_block': [k, s, b],
                'add_block': [k, s, b, r.choice((1, 2, 3, 4, 4, 5)), a, r.choice((0, 1, 5, 10))], 'get_values': [k, s, b, a, n],
                'set_values': [k, s, b, a, [r.choice((0, 1, 5, 65535, -3)) for _ in range(n)]]}[k]
    model = {}
    for op in vc.given('calls', lambda r: [['add_slave', 1]] + [rnd(r) for _ in range(r.randrange(1, 25))]):
        name, a = op[0], op[1:]
        ok, want = True, None
        blocks = model.get(a[0]) if a else None
        if name == 'add_slave':
            ok = 1 <= a[0] <= 255 and blocks is None
            if ok:
                model[a[0]], want = {}, str(a[0])
        elif name == 'has_slave':
            want = blocks is not None
        elif name == 'remove_slave':
            ok = blocks is not None
            if ok:
                del model[a[0]]
        elif name == 'remove_all_slaves':
            model.clear()
        elif blocks is None:
            ok = False
        elif name == 'remove_all_blocks':
            blocks.clear()
        elif name == 'remove_block':
            ok = a[1] in blocks
            if ok:
                del blocks[a[1]]
        elif name == 'add_block':
            _, b, kind, st, n = a
            ok = b not in blocks and 1 <= kind <= 4 and n > 0 and not any(q[0] == kind and q[1] < st + n and st < q[1] + len(q[2]) for q in blocks.values())
            if ok:
                blocks[b] = (kind, st, [0] * n)
                want = b
        else:
            b, st = a[1], a[2]
            n = len(a[3]) if name == 'set_values' else a[3]
            q = blocks.get(b)
            if n == 0:
                ok = None           # nothing to read or write: left open
            else:
                ok = q is not None and q[1] <= st and st + n <= q[1] + len(q[2])
                if ok:
                    o = st - q[1]
                    if name == 'set_values':
                        q[2][o:o + n] = a[3]
                    want = tuple(q[2][o:o + n])
                    if name == 'set_values':
                        want = ' '.join(str(x) for x in want)
        r = vc.call(getattr(c, name), *a)
        if ok is None:
            continue
        vc.ensure('a call succeeds exactly when its operation does', r.ok == ok, lambda: '%r: %r' % (op, r))
        if ok and want is not None:
            vc.ensure('a call returns the result of its operation', r.value == want, lambda: '%r: %r, expected %r' % (op, r, want))
        if not ok:
            vc.ensure('an error carries the name of the command', str(r.exc).startswith(name + ' error: '), r)
    vc.ensure('no answer is left over', not mod.OUTPUT_QUEUE.items and len(mod.INPUT_QUEUE.puts) == len(mod.OUTPUT_QUEUE.puts) == len(link.conns))


@harness('C31', SIM, sym=False)
def any_lines(vc):
    """any lines at all: one answer each, and the loop goes on"""
    w, mod, sim = simulator(vc, lambda w: w.modbus_tcp.TcpServer(databank=w.modbus.Databank()))
    names = sorted(sim.cmds)
    lines = vc.given('lines', lambda r: [(r.choice(names) if r.random() < .8 else r.choice(('x', '', 'Quit', '%d', 'a{0}'))) + ''.join(
        ' ' + r.choice(('1', '0', '-1', 'b', '', '3', 'x', '99999999999999999999', '{0}', '%s', '\u00e9', '1.5', '1_0')) for _ in range(r.choice((0, 1, 2, 3, 4, 5, 6, 70, 200)))) + r.choice(('', '\n', '\r\n')) for _ in range(r.randrange(1, 12))])
    out, ended, _ = loop(vc, sim, lines)
    vc.ensure('no command other than quit ends the loop', not ended)
    vc.ensure('a command gets exactly one answer', len(out) == len(lines), lambda: repr((lines, out)))
    for l, a in zip(lines, out):
        n = l.strip('\r\n').split(' ')[0]
        if n in names:
            vc.ensure('the answer names the command and its outcome', a.startswith(n + ' done: ') or a.startswith(n + ' error: '), lambda: repr((l, a)))
        else:
            vc.ensure('an unknown command is answered with an error', a.startswith('error'), lambda: repr((l, a)))
