"""C24 (trie) and C25 (line editor)"""
import io
import os
import sys
from .base import case, checked, eq, expect, raises, Skip, Mismatch, short
from gsmtermlib.trie import Trie


# -- C24 -------------------------------------------------------------------------------------------------------------
def rkey(r, alpha='ab'): return ''.join(r.choice(alpha) for _ in range(r.choice((0, 1, 1, 2, 2, 3, 4))))


def rtrie(r):
    alpha = r.choice(('ab', 'abc', 'a', 'AT+CM='))
    ops = [('new', rkey(r, alpha), 'root')] if r.random() < .2 else []
    for _ in range(r.choice((1, 2, 3, 5, 8, 15, 30))):
        k = r.choice(('set', 'set', 'set', 'del', 'del', 'get', 'pre', 'bad'))
        ops.append((k, rkey(r, alpha) if k != 'bad' else None, r.choice((0, 1, None, 'v', ''))))
    return ops


def trie_fixed():
    ks = ['', 'a', 'b', 'aa', 'ab', 'abc', 'aab']
    out = [[('set', x, i) for i, x in enumerate(t)] for t in [(a, b) for a in ks for b in ks]]
    out += [[('set', a, 1), ('set', b, 2), ('del', c, 0), ('set', d, 4)] for a in ks for b in ks for c in ks for d in ('', 'a', 'ab')]
    out += [[('set', a, 1), ('set', b, 2), ('set', c, 3), ('del', b, 0)] for a in ks for b in ks for c in ks]
    out += [[('new', a, 0), ('set', b, 1), ('del', c, 0)] for a in ks for b in ks for c in ks] + [[('new', a, 0), ('del', a, 0), ('set', b, 1)] for a in ks for b in ks]
    out += [[('bad', None, 1)], [('set', 'a', 1), ('bad', None, 2)]]
    return out


def same(ok, what):
    if not ok: raise Mismatch(what)


def check_trie(t, d, extra):
    eq(len(t), len(d), 'size')
    eq(sorted(t.keys()), sorted(d), 'keys')
    eq(sorted(iter(t)), sorted(d), 'iteration')
    probe = set(d) | set(extra)
    for k in list(d): probe.update((k[:-1], k + 'a', k[1:], k[:1]))
    for k in probe:
        eq(k in t, k in d, 'membership of %r' % k)
        eq(t.get(k, 'absent'), d.get(k, 'absent'), 'get(%r)' % k)
        if k in d: eq(t[k], d[k], 'lookup of %r' % k)
        else: raises(lambda: t[k], KeyError)
        eq(sorted(t.keys(k)), sorted(x for x in d if x.startswith(k)), 'keys with prefix %r' % k)
        below = [x for x in d if x.startswith(k)]
        if below:
            c = t.longestCommonPrefix(k)
            same(c.startswith(k), 'the common prefix of what starts with %r is given as %r' % (k, c))
            for x in below: same(x.startswith(c), '%r, given as the common prefix of what starts with %r, is no prefix of %r' % (c, k, x))


@case('C24', fixed=trie_fixed, gen=rtrie)
@checked
def trie_ops(ops):
    t, d = Trie(), {}
    for op, k, v in ops:
        if op == 'new': t, d = Trie(k, v), {k: v}
        elif op == 'set':
            t[k] = v; d[k] = v
        elif op == 'del':
            if k in d:
                del t[k]; del d[k]
            else:
                def f(): del t[k]
                raises(f, KeyError)
        elif op == 'get': pass
        elif op == 'bad':
            def f(): t[None] = v
            raises(f, ValueError)
            raises(lambda: t[None], ValueError)
            def f(): del t[None]
            raises(f, ValueError)
        check_trie(t, d, [k] if k is not None else [])


# -- C25 -------------------------------------------------------------------------------------------------------------
_T = []


def terminal():
    """gsmtermlib.terminal imported without a real console"""
    if _T: return _T[0]
    import termios

    class In:
        def fileno(self): return 0
    saved = (sys.stdin, termios.tcgetattr, termios.tcsetattr)
    sys.stdin = In()
    termios.tcgetattr = lambda fd: [0, 0, 0, 0, 0, 0, [0] * 32]
    termios.tcsetattr = lambda *a: None
    try:
        import gsmtermlib.terminal as T
    finally:
        sys.stdin, termios.tcgetattr, termios.tcsetattr = saved
    _T.append(T)
    return T


NAMED = ('LEFT', 'RIGHT', 'UP', 'DOWN', 'HOME', 'END', 'DEL', 'BS', 'ENTER', 'TAB', 'CTRLZ', 'ESC', 'JUNK')
LINES = ['AT', 'ATZ', 'at+c', 'AT+CM', '  at ', 'at+cmgs=5', 'help', 'ls', '?ATZ', 'ATD??', 'AT+CPIN=', 'nosuch=', '=', 'lscat', 'ls x', 'AT+CMGF=??', '   ', 'atd1;', 'AT+CUSD', 'ats', 'x=']


def rkeys(r):
    out = []
    for _ in range(r.choice((3, 8, 20, 40))):
        k = r.random()
        if k < .25: out += list(r.choice(LINES))
        elif k < .4: out.append(r.choice('aAtT+=? xz5~!'))
        elif k < .6: out.append(r.choice(('ENTER', 'TAB')))
        else: out.append(r.choice(NAMED))
    return (out, r.choice((True, True, False)))


def keys_fixed():
    out = []
    for l in LINES:
        for tail in (['TAB'], ['ENTER'], ['ENTER', 'UP', 'UP', 'DOWN', 'DOWN'], ['HOME', 'DEL', 'BS', 'RIGHT', 'BS', 'END', 'DEL', 'BS'], ['LEFT', 'LEFT', 'q', 'RIGHT', 'w', 'BS', 'BS'], ['TAB', 'TAB', 'ENTER', 'UP', 'TAB'], ['LEFT'] * 12 + ['x', 'TAB']):
            out.append((list(l) + tail, True))
    for r in (True, False): out.append((list('at+cmgs=5') + ['ENTER'] + list('hi there') + ['LEFT', 'LEFT', 'ENTER', 'a', 'CTRLZ', 'UP', 'UP'], r))
    out.append((list('at+cmgs=5') + ['ENTER'] + list('abc') + ['ESC', 'x', 'BS', 'UP'], True))
    many = []
    for i in range(105): many += list('c%d' % i) + ['ENTER']
    out.append((many + ['UP'] * 103 + ['DOWN'] * 104, True))
    out.append((['UP', 'DOWN', 'LEFT', 'RIGHT', 'BS', 'DEL', 'HOME', 'END', 'ENTER', 'TAB', 'ESC', 'CTRLZ'], True))
    return out


@case('C25', fixed=keys_fixed, gen=rkeys)
@checked
def editor(inp):
    keys, prompt_ok = inp
    T = terminal()
    con = T.console
    t = T.GsmTerm('-- TEST --', useColor=False)
    code = {'LEFT': con.CURSOR_LEFT, 'RIGHT': con.CURSOR_RIGHT, 'UP': con.CURSOR_UP, 'DOWN': con.CURSOR_DOWN, 'HOME': con.HOME, 'END': con.END, 'DEL': con.DELETE, 'BS': t.BACKSPACE_CHARACTER, 'ENTER': '\n',
            'TAB': '\t', 'CTRLZ': t.CTRL_Z_CHARACTER, 'ESC': t.ESC_CHARACTER, 'JUNK': '\x1b[99~'}
    sent = []

    class Port:
        def write(self, d): sent.append(d)
    t.serial = Port()
    t.alive = True
    def write(data, waitForResponse=True, timeout=5, expectedResponseTermSeq=None):
        if not prompt_ok: raise T.TimeoutException()
        return ['> ']
    t.write = write
    t.stop = lambda: setattr(t, 'alive', False)
    names = sorted(t.completion.keys())
    st = dict(line='', cur=0, hist=[], pos=0, sms=False)
    todo = list(keys)
    last = [None]

    def state(): return (''.join(t.inputBuffer), t.cursorPos, list(t.history), t.historyPos, bool(t._typingSms))

    def step(k):
        """advance the reference editor by a key and compare"""
        line, cur = st['line'], st['cur']
        got = state()
        expect(0 <= t.cursorPos <= len(t.inputBuffer), 'cursor %d outside the line of %d after %r' % (t.cursorPos, len(t.inputBuffer), k))
        expect(0 <= t.historyPos <= len(t.history), 'history position %d outside the history of %d after %r' % (t.historyPos, len(t.history), k))
        if k == 'LEFT': st['cur'] = max(0, cur - 1)
        elif k == 'RIGHT': st['cur'] = min(len(line), cur + 1)
        elif k == 'HOME': st['cur'] = 0
        elif k == 'END': st['cur'] = len(line)
        elif k == 'BS':
            if cur: st['line'] = line[:cur - 1] + line[cur:]; st['cur'] = cur - 1
        elif k == 'DEL':
            if cur < len(line): st['line'] = line[:cur] + line[cur + 1:]
        elif k == 'UP':
            if st['pos'] > 0:
                st['pos'] -= 1
                st['line'] = st['hist'][st['pos']]; st['cur'] = len(st['line'])
        elif k == 'DOWN':
            if st['pos'] < len(st['hist']) - 1:
                st['pos'] += 1
                st['line'] = st['hist'][st['pos']]; st['cur'] = len(st['line'])
        elif k == 'ENTER':
            if st['sms']:
                st['line'] = line[cur:]; st['cur'] = 0
            else:
                s = line.strip()
                st['line'], st['cur'] = '', 0
                if s:
                    st['hist'] = (st['hist'] + [s])[-100:]
                    st['pos'] = len(st['hist'])
                st['sms'] = got[4] if s.lower().startswith('at+cmgs=') and not s.endswith('??') else False
        elif k == 'CTRLZ':
            if st['sms']: st.update(line='', cur=0, sms=False)
        elif k == 'ESC':
            if st['sms']: st.update(line='', cur=0, sms=False)
        elif k == 'TAB':
            typed = line.strip().upper()
            if got[:2] != (line, cur):
                match = [n for n in names if n.startswith(typed)]
                expect(match, 'completion changed the line %r although nothing matches' % line)
                if got[0] != line:
                    expect(all(n.startswith(got[0]) for n in match), 'completion of %r to %r, which not all matching commands share' % (line, got[0]))
                    expect(got[0].startswith(typed), 'completion of %r to %r, which does not begin with what was typed' % (line, got[0]))
            st['line'], st['cur'] = got[0], got[1]
        elif k == 'JUNK': pass
        elif len(k) == 1 and (33 <= ord(k) <= 126 or k.isspace()):
            st['line'] = line[:cur] + k + line[cur:]; st['cur'] = cur + 1
        eq(got, (st['line'], st['cur'], st['hist'], st['pos'], st['sms']), 'editor (line, cursor, history, position, message mode) after %r with line %r, cursor %d' % (k, line, cur))

    def getkey():
        if last[0] is not None: step(last[0])
        if not todo:
            t.alive = False
            last[0] = None
            return '\x00\x00\x00'
        last[0] = todo.pop(0)
        return code.get(last[0], last[0])
    saved = (con.getkey, sys.stdout)
    con.getkey = getkey
    sys.stdout = io.StringIO()
    try:
        t._inputLoop()
    finally:
        con.getkey, sys.stdout = saved
    expect(not todo, 'the input loop ended early')


# -- C29 -------------------------------------------------------------------------------------------------------------
SCRIPTS = [None, [], ['AT', ' ATZ ', '', '# no', '  #x', 'ATI'], ['help', 'ATD1;', 'ls', 'lsx', '?ATZ', 'at??'], ['at'] * 3]


def rtyping(r):
    keys, ok = rkeys(r)
    if r.random() < .4: keys = list('at+cmgs=1') + ['ENTER'] + keys
    keys = [k for k in keys]
    for _ in range(r.randrange(3)): keys.insert(r.randrange(len(keys) + 1), ('NOTE', [r.choice(('OK', 'ERROR', 'RING', 'x {0} %s', '')) for _ in range(r.randrange(1, 4))]))
    sc = r.choice(SCRIPTS)
    if sc is not None: keys += list(r.choice(('load @', 'LOAD  @ ', 'load @'))) + ['ENTER']
    return (keys, ok, sc, r.random() < .5)


def typing_fixed():
    out = [(list(l) + ['ENTER'] + list(l) + ['LEFT', 'ENTER', 'CTRLZ', 'ESC'], ok, None, False) for l in LINES + ['load', 'loadx', 'helpme', '??', '?', '???', 'a', 'ATD1;', 'lsx', 'ls ', 'ls nothing', 'x??'] for ok in (True, False)]
    out += [(list('at+cmgs=5') + ['ENTER'] + list('hi there') + t, ok, None, c) for ok in (True, False) for c in (True, False)
            for t in (['CTRLZ'], ['ESC'], ['ENTER', 'CTRLZ'], ['LEFT', 'LEFT', 'ENTER', 'a', 'CTRLZ'], ['HOME', 'ENTER', 'CTRLZ', 'CTRLZ'], [('NOTE', ['> ']), 'CTRLZ', 'x', 'ENTER'], ['ESC', 'ESC', 'x', 'CTRLZ', 'ENTER'])]
    out += [(list('load @') + ['ENTER'], True, s, False) for s in SCRIPTS] + [(list('load @nosuch') + ['ENTER'], True, [], False)]
    out += [(list('abc') + ['LEFT', ('NOTE', l), 'd', 'ENTER'], True, None, c) for l in (['OK'], ['ERROR'], ['a', 'b', 'c'], ['x', 'ERROR'], ['ERROR', 'x'], ['']) for c in (True, False)]
    return out


def sent_for(T, t, e, script):
    """what entering the text e sends; None: a listing or not, both are fine"""
    if not e: return ''
    if len(e) > 2 and (e[0] == '?' or e.endswith('??')): return ''
    low = e.lower()
    if low.startswith('help'): return ''
    if low in ('ls', 'lscat'): return ''
    if low.startswith('ls ') and low.split(' ', 1)[1] in [c.lower() for c in t.completion.categories]: return ''
    if low.startswith('load') and ' ' in e:
        out = ''
        for l in script or [] if os.path.isfile(e.split(' ', 1)[1].strip()) else []:
            if l.strip() and not l.strip().startswith('#'): out += sent_for(T, t, l.strip(), None)
        return out
    return e + '\r'


@case('C29', fixed=typing_fixed, gen=rtyping)
@checked
def typing(inp):
    import tempfile, shutil
    if not isinstance(inp, tuple): inp = (list('atd1;') + ['ENTER'], True, None, False)
    keys, prompt_ok, script, colour = inp
    T = terminal()
    con = T.console
    t = T.GsmTerm('-- TEST --', useColor=colour)
    code = {'LEFT': con.CURSOR_LEFT, 'RIGHT': con.CURSOR_RIGHT, 'UP': con.CURSOR_UP, 'DOWN': con.CURSOR_DOWN, 'HOME': con.HOME, 'END': con.END, 'DEL': con.DELETE, 'BS': t.BACKSPACE_CHARACTER, 'ENTER': '\n',
            'TAB': '\t', 'CTRLZ': t.CTRL_Z_CHARACTER, 'ESC': t.ESC_CHARACTER, 'JUNK': '\x1b[99~'}
    sent, waits = [], []

    class Port:
        def write(self, d): sent.append(d)
    t.serial, t.alive = Port(), True

    def write(data, waitForResponse=True, timeout=5, expectedResponseTermSeq=None):
        sent.append(data)
        waits.append(expectedResponseTermSeq)
        if not prompt_ok: raise T.TimeoutException()
        return ['> ']
    t.write = write
    stops, left = [], []
    def stop(): stops.append(1); t.alive = False
    t.stop = stop
    if not all(hasattr(t, n) for n in ('inputBuffer', 'cursorPos', '_typingSms')): raise Skip()
    todo, last = list(keys), [None]
    screen = io.StringIO()
    real = sys.stdout, con.getkey, T.time.sleep
    folder = tempfile.mkdtemp(prefix='gsmterm') if script is not None else None
    path = os.path.join(folder, 'script') if folder else ''

    def state(): return (''.join(t.inputBuffer), t.cursorPos, bool(t._typingSms))

    def settle():
        """what the last key sent"""
        k, (line, cur, sms) = last[0]
        got = ''.join(sent)
        want = ''
        if k == 'ENTER': want = line[:cur] if sms else sent_for(T, t, line.strip(), script)
        elif k == 'CTRLZ' and sms: want = line + '\x1a'
        elif k == 'ESC' and sms: want = '\x1b'
        eq(got, want, 'sent by %r with line %r, cursor %d, typing a message: %s' % (k, line, cur, sms))
        cmgs = k == 'ENTER' and not sms and want.lower().startswith('at+cmgs=') and want.endswith('\r')
        eq(waits, ['> '] if cmgs else [], 'prompts waited for')
        if k == 'ENTER': eq(bool(t._typingSms), sms or bool(cmgs and prompt_ok), 'typing a message after %r' % line)
        del sent[:], waits[:]

    def getkey():
        if last[0] is not None: settle()
        while todo and isinstance(todo[0], tuple):
            lines = todo.pop(0)[1]
            before, at = state(), screen.tell()
            t._handleModemNotification(list(lines))
            eq(state(), before, 'what is being typed after a notification')
            new = screen.getvalue()[at:]
            expect(new.count('\n'.join(lines)) >= 1, 'the lines %r are not shown: %r' % (lines, new))
            eq(sent, [], 'sent by a notification')
        if not todo:
            last[0] = None
            if left: t.alive = False; return '\x00\x00\x00'
            left.append(1)
            return t.EXIT_CHARACTER if len(keys) % 2 else t.EXIT_CHARACTER_2
        k = todo.pop(0)
        if k == 'ENTER' and path and '@' in ''.join(t.inputBuffer): 
            i = t.inputBuffer.index('@')
            t.inputBuffer[i:i + 1] = list(path)
        last[0] = (k, state())
        return code.get(k, k)
    try:
        if folder:
            with open(path, 'w') as f: f.write('\n'.join(script) + '\n')
        con.getkey, sys.stdout, T.time.sleep = getkey, screen, lambda s: None
        t._inputLoop()
    finally:
        sys.stdout, con.getkey, T.time.sleep = real
        if folder: shutil.rmtree(folder)
    expect(not todo and left, 'the input loop ended early')
    eq((len(stops), ''.join(sent)), (1, ''), 'stops asked for by the exit key, and what it sends')


@case('C29', fixed=lambda: [(['a', '\n', 'bc'], ['x', '', 'OK']), ([], []), (['\n', '\n', '\x04', ' ', '\x1a'], ['RING'])], gen=lambda r: ([r.choice(('a', '\n', '\t', ' ', '\x1b[A', '\x7f', '\r')) for _ in range(r.randrange(6))], [r.choice(('OK', '', 'a b')) for _ in range(r.randrange(4))]), weight=.3)
@checked
def raw(inp):
    """the raw terminal: started, keys typed, lines received, stopped with its exit key"""
    keys, lines = inp
    T = terminal()
    con, sent, events = T.console, [], []

    class Port:
        def write(self, d): sent.append(d)
        def close(self): events.append('closed')

    class Raw(T.RawTerm):
        def connect(self): events.append('connected'); self.serial = Port(); self.alive = True
        def close(self): events.append('closed')
    todo = list(keys) + [T.RawTerm.EXIT_CHARACTER]
    t = Raw('port', 9600)
    eq((t.port, t.baudrate), ('port', 9600), 'port and speed')
    real = sys.stdout, con.getkey

    def getkey():
        expect(events[:1] == ['connected'], 'a key is read before the port is open')
        if not todo: t.alive = False; return ''
        return todo.pop(0)
    screen = io.StringIO()
    con.getkey, sys.stdout = getkey, screen
    try:
        t.start()
        t.inputThread.join(5)
        at = screen.tell()
        t.notifyCallback(list(lines))
        eq(screen.getvalue()[at:], ''.join(l + '\n' for l in lines), 'shown')
    finally:
        sys.stdout, con.getkey = real
    eq(todo, [], 'keys left')
    eq(sent, ['\r' if k == '\n' else k for k in keys], 'sent')
    eq(events, ['connected', 'closed'], 'connection')
