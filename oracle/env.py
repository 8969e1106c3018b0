"""Single-threaded environment for GsmModem/SerialComms objects: a recording serial port whose answers are produced at
the moment of the write, virtual events, timers, threads and clock."""
import logging
import threading as real_threading
import time as real_time
import types
import gsmmodem.modem as M
import gsmmodem.serial_comms as S


logging.disable(logging.CRITICAL)


class Env:
    """respond(data) -> list of lines; a line 'P:<text>' is a prompt (delivered without line end check)"""
    def __init__(self, respond=None):
        self.respond = respond or (lambda data: ['OK'])
        self.sent = []
        self.sleeps = []
        self.idle = []          # callables run, one per blocking wait, while the caller waits
        self.waits = []
        self.threads = []
        self.timers = []
        self.now = 0.0
        self.inwaiting = []
        self.closed = 0
        self.run_threads = True
        self.handoff = False    # what arrives while the caller waits runs in a thread of its own, which stops right after it has woken the caller, until release()
        self.other = None
        self.events = []
        self.log = []           # ('w', data) and ('s', seconds) in order

    def __enter__(self):
        env = self

        class Event:
            def __init__(self):
                self.flag = False
                env.events.append(self)
            def is_set(self): return self.flag
            isSet = is_set
            def set(self):
                self.flag = True
                o = env.other
                if o and o.event is self and real_threading.current_thread() is o.thread:
                    o.woken.set()
                    o.go.wait(5)
            def clear(self): self.flag = False
            def wait(self, timeout=None):
                env.waits.append(timeout)
                if not self.flag and env.idle:
                    f = env.idle.pop(0)
                    if env.handoff: Other(env, f, self)
                    else: f()
                if not self.flag: env.advance(timeout)
                return self.flag

        class Thread:
            def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
                self.target, self.args, self.kwargs, self.daemon = target, args, kwargs or {}, daemon
            def start(self):
                env.threads.append(self)
                if env.run_threads and self.target: self.target(*self.args, **self.kwargs)
            def join(self, timeout=None): pass
            def is_alive(self): return False
            isAlive = is_alive

        class Timer(Thread):
            def __init__(self, interval, function, args=(), kwargs=None):
                Thread.__init__(self, target=function, args=args, kwargs=kwargs)
                self.interval = interval
            def start(self):
                env.timers.append([env.now + self.interval, self])
            def cancel(self):
                env.timers = [t for t in env.timers if t[1] is not self]
        ns = {k: getattr(real_threading, k) for k in dir(real_threading) if not k.startswith('__')}
        ns.update(Event=Event, Thread=Thread, Timer=Timer)
        fake_threading = types.SimpleNamespace(**ns)
        tns = {k: getattr(real_time, k) for k in dir(real_time) if not k.startswith('__')}
        tns.update(sleep=self.sleep, time=lambda: env.now, monotonic=lambda: env.now)
        fake_time = types.SimpleNamespace(**tns)
        self.saved = []
        for mod in (M, S):
            for name, val in (('threading', fake_threading), ('time', fake_time), ('Event', Event), ('Thread', Thread), ('Timer', Timer), ('sleep', self.sleep)):
                if hasattr(mod, name):
                    self.saved.append((mod, name, getattr(mod, name)))
                    setattr(mod, name, val)
        self.call_cls = (M.Call.DTMF_COMMAND_BASE, M.Call.dtmfSupport)
        self.Event = Event
        return self

    def __exit__(self, *a):
        for mod, name, val in reversed(self.saved): setattr(mod, name, val)
        M.Call.DTMF_COMMAND_BASE, M.Call.dtmfSupport = self.call_cls

    def release(self):
        """let what arrived run to its end"""
        if self.other:
            self.other.go.set(); self.other.thread.join(5); self.other = None

    def sleep(self, t):
        self.sleeps.append(t); self.log.append(('s', t))
        if len(self.sleeps) > 2000: raise RuntimeError('still waiting after 2000 sleeps')
        self.advance(t)

    def advance(self, t):
        self.now += t or 0
        for item in list(self.timers):
            if item[0] <= self.now and item in self.timers:
                self.timers.remove(item)
                item[1].target(*item[1].args, **item[1].kwargs)

    def modem(self, **attrs):
        m = M.GsmModem('-- TEST --')
        m.serial = FakeSerial(self, m)
        m.alive = True
        for k, v in attrs.items(): setattr(m, k, v)
        self.m = m
        return m

    def feed(self, lines):
        """deliver an unsolicited group of lines"""
        for i, l in enumerate(lines):
            self.inwaiting = [1] if i < len(lines) - 1 else [0]
            self.m._handleLineRead(l)


class Other:
    def __init__(self, env, f, event):
        self.woken, self.go = real_threading.Event(), real_threading.Event()

        def run():
            try: f()
            finally: self.woken.set()
        self.thread = real_threading.Thread(target=run, daemon=True)
        self.event = event
        env.other = self
        self.thread.start()
        self.woken.wait(5)


class FakeSerial:
    def __init__(self, env, m): self.env, self.m = env, m
    def write(self, data):
        self.env.sent.append(data); self.env.log.append(('w', data))
        if len(self.env.sent) > 5000: raise RuntimeError('still writing after 5000 commands')
        for line in self.env.respond(data) or []:
            if callable(line): line()
            elif line.startswith('P:'): self.through_reader(line[2:])
            else: self.m._handleLineRead(line)
    def through_reader(self, text):
        """text without line end: delivered by the library's own reader, if it recognises it as the expected prompt"""
        chars, m = list(text), self.m
        alive, m.alive = m.alive, True

        def read(n=1):
            if chars: return chars.pop(0)
            m.alive = False
            return ''
        self.read = read
        try: m._readLoop()
        finally: m.alive = alive
    def inWaiting(self):
        return self.env.inwaiting[0] if self.env.inwaiting else 0
    in_waiting = property(inWaiting)
    def close(self): self.env.closed += 1
    def flush(self): pass


def script(*answers, default=('OK',)):
    """successive answers, then the default"""
    it = list(answers)

    def respond(data):
        return it.pop(0) if it else list(default)
    return respond
