"""soundness.py [NAME...]: states that a loop may change without saying so (closures, iterators, sets, defaults, library objects).
Every variant of _read_registers named *-bug is wrong for 100 registers or more; the proof must not go through for one.  What it
prints: concrete runs, why the proof stopped, obligations and how many of them were refuted."""
import os, re, shutil, subprocess, sys, tempfile
src = open('/repo/modbus_tk/modbus.py', newline='').read().replace('\r\n', '\n')
i = src.index('        # add the values of every register on 2 bytes')
j = src.index('return response', i)
variants = {
'nonlocal':'''        def add(reg):
            nonlocal response
            response += struct.pack(">" + ("H" if self.unsigned else "h"), reg)
        for reg in values:
            add(reg)
        ''',
'nonlocal-bug':'''        count = 0
        def add(reg):
            nonlocal response, count
            if count < 100:
                response += struct.pack(">" + ("H" if self.unsigned else "h"), reg)
            else:
                response += b"\\0\\0"
            count += 1
        for reg in values:
            add(reg)
        ''',
'nonlocal2-bug':'''        count = [0]
        def add(reg):
            nonlocal response
            if count[0] < 100:
                response += struct.pack(">" + ("H" if self.unsigned else "h"), reg)
            else:
                response += b"\\0\\0"
            count[0] += 1
        for reg in values:
            add(reg)
        ''',
'walrus':'''        n = 0
        response += b"".join(struct.pack(">" + ("H" if self.unsigned else "h"), reg if (n := n + 1) < 100 else 0) for reg in values)
        ''',
'gen-bug':'''        def gen():
            n = 0
            while True:
                n += 1
                yield 0 if n > 100 else 1
        g = gen()
        for reg in values:
            response += struct.pack(">" + ("H" if self.unsigned else "h"), reg if next(g) else 0)
        ''',
'iter-bug':'''        g = iter([1] * 100 + [0] * 100)
        for reg in values:
            response += struct.pack(">" + ("H" if self.unsigned else "h"), reg if next(g) else 0)
        ''',
'count-bug':'''        import itertools
        g = itertools.count()
        for reg in values:
            response += struct.pack(">" + ("H" if self.unsigned else "h"), reg if next(g) < 100 else 0)
        ''',
'zip-bug':'''        import itertools
        g = zip(itertools.count(), itertools.count())
        for reg in values:
            response += struct.pack(">" + ("H" if self.unsigned else "h"), reg if next(g)[0] < 100 else 0)
        ''',
'attr-bug':'''        class C:
            n = 0
        c = C()
        for reg in values:
            c.n += 1
            response += struct.pack(">" + ("H" if self.unsigned else "h"), reg if c.n < 100 else 0)
        ''',
'fattr-bug':'''        def c(): pass
        c.n = 0
        for reg in values:
            c.n += 1
            response += struct.pack(">" + ("H" if self.unsigned else "h"), reg if c.n < 100 else 0)
        ''',
'default-bug':'''        def c(reg, n=[0]):
            n[0] += 1
            return reg if n[0] < 100 else 0
        for reg in values:
            response += struct.pack(">" + ("H" if self.unsigned else "h"), c(reg))
        ''',
'partial-bug':'''        import functools
        def f(n, reg):
            n[0] += 1
            return reg if n[0] < 100 else 0
        c = functools.partial(f, [0])
        for reg in values:
            response += struct.pack(">" + ("H" if self.unsigned else "h"), c(reg))
        ''',
'set-bug':'''        s = set()
        for reg in values:
            s.add(len(response))
            response += struct.pack(">" + ("H" if self.unsigned else "h"), reg if len(s) < 100 else 0)
        ''',
'deque-bug':'''        import collections
        s = collections.deque()
        for reg in values:
            s.append(1)
            response += struct.pack(">" + ("H" if self.unsigned else "h"), reg if len(s) < 100 else 0)
        ''',
'io-bug':'''        import io
        s = io.StringIO()
        for reg in values:
            s.write("1")
            response += struct.pack(">" + ("H" if self.unsigned else "h"), reg if len(s.getvalue()) < 100 else 0)
        ''',
'dict-bug':'''        s = {}
        for reg in values:
            s["n"] = s.get("n", 0) + 1
            response += struct.pack(">" + ("H" if self.unsigned else "h"), reg if s["n"] < 100 else 0)
        ''',
'global-bug':'''        global N
        N = 0
        for reg in values:
            N += 1
            response += struct.pack(">" + ("H" if self.unsigned else "h"), reg if N < 100 else 0)
        ''',
'str-bug':'''        s = ""
        for reg in values:
            s += "x"
            response += struct.pack(">" + ("H" if self.unsigned else "h"), reg if len(s) < 100 else 0)
        ''',
'globals-bug':'''        globals()["N"] = 0
        for reg in values:
            globals()["N"] += 1
            response += struct.pack(">" + ("H" if self.unsigned else "h"), reg if globals()["N"] < 100 else 0)
        ''',
'list-bug':'''        s = []
        for reg in values:
            s.append(None)
            response += struct.pack(">" + ("H" if self.unsigned else "h"), reg if len(s) < 100 else 0)
        ''',
}
bad = 0
for k, v in variants.items():
    if len(sys.argv) > 1 and k not in sys.argv[1:]:
        continue
    d = tempfile.mkdtemp(prefix='sound', dir='/tmp')
    try:
        shutil.copytree('/repo/modbus_tk', d + '/modbus_tk')
        open(d + '/modbus_tk/modbus.py', 'w').write(src[:i] + v + src[j:])
        r = subprocess.run(['python3-vt', 'tools/dbg.py', 'C06', 'read_registers'], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                           env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
    finally:
        shutil.rmtree(d)
    o = r.stdout + r.stderr
    stop = ' '.join(re.findall(r'CONTROL.*', o))[:100]
    refuted = [int(x) for x in re.findall(r'proof obl \d+ bad (\d+)', o)]
    through = not stop and refuted == [0]
    wrong = through == (k.endswith('-bug') or k == 'walrus')
    bad += wrong
    print('%-4s %-14s %s | %s | %s' % ('BAD' if wrong else 'OK', k, ' '.join(re.findall(r'conc \{[^}]*\}', o)[:1]), stop, refuted))
sys.exit(bad)
