# -*- coding: utf-8 -*-
"""First constructions of Compound classes by many threads (C14).

Every hook call, every construction and every element's initialisation is an
event; all events of a history are recorded in one total order.  Hooks stop at
pause points, where a scheduler lets them go on in the order of a behaviour of
the specification, in a random order, or at once (free running threads).
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *  # noqa
from flatland import Compound
from java.lang import Thread as JThread

WAITING = ('WAITING', 'BLOCKED', 'TIMED_WAITING')


class Boom(Exception):
    pass


class World(object):
    """The classes and threads of one history."""

    def __init__(self, w, mode):
        self.w = w
        w.h += 1
        self.mode = mode                 # 'held', 'free', 'nap'
        self.lock = threading.Lock()
        self.log = []
        self.classes, self.keys, self.seen = [], [], []
        self.mine = []                   # numbers of the classes made here, not by constructors
        self.gates = {}                  # thread name -> (place, event)
        self.jthreads, self.threads = {}, {}
        self.failing = {}                # class -> number of hook runs still to fail
        self.opened = False
        self.local = threading.local()

    # ---- events
    def event(self, _o, **kw):
        op = {'o': _o}
        op.update(kw)
        with self.lock:
            self.log.append(op)

    def num(self, c):
        with self.lock:
            for i, x in enumerate(self.classes):
                if x is c:
                    return i + 1
            of = -1
            for x in c.__mro__:
                for i, y in enumerate(self.classes):
                    if x is y and of < 0:
                        of = i + 1
            self.classes.append(c)
            self.keys.append(self.keys[of - 1] if of > 0 else u'?')
            self.seen.append(self.seen[of - 1] if of > 0 else False)
            self.log.append({'o': 'fresh', 'c': len(self.classes), 'of': of})
            return len(self.classes)

    def me(self):
        return getattr(self.local, 'name', u'main')

    def pause(self, place):
        if self.mode == 'free' or self.opened:
            return
        if self.mode == 'nap':
            time.sleep(0.002)
            return
        if self.me() == u'main':
            return
        e = threading.Event()
        with self.lock:
            if self.opened:
                return
            self.gates[self.me()] = (place, e)
        e.wait(30)
        with self.lock:
            self.gates.pop(self.me(), None)

    def let(self, place, name):
        """Let a paused hook go on: the named thread's, or another's at the same place."""
        with self.lock:
            g = self.gates.get(name)
            if g is None or g[1].isSet():
                at = [x for x in sorted(self.gates) if not self.gates[x][1].isSet()
                      and (place is None or self.gates[x][0] == place)]
                if not at:
                    return
                name = at[0]
                g = self.gates[name]
            g[1].set()
        self.settle(name)
        self.settle()

    def settle(self, *names):
        """Wait until the threads are paused, waiting for one another, or done."""
        for name in names or list(self.threads):
            still = 0
            for _ in range(400):
                t = self.threads[name]
                if not t.isAlive():
                    break
                with self.lock:
                    g = self.gates.get(name)
                if g is not None and not g[1].isSet():
                    break
                j = self.jthreads.get(name)
                if j is not None and str(j.getState()) in WAITING and g is None:
                    still += 1
                    if still > 4:
                        break
                else:
                    still = 0
                time.sleep(0.0005)

    # ---- classes
    def hooked(self, base, parts, name, style, nested):
        world = self
        keys_before = [] if not nested else None

        def init(cls):
            me = world.me()
            world.event('begin', c=world.num(cls), t=me)
            ok = False
            try:
                if nested:
                    super(made[0], cls).__compound_init__()
                    world.pause('inner')
                world.pause('end')
                if world.failing.get(made[0], 0) > 0:
                    world.failing[made[0]] -= 1
                    raise Boom()
                if parts:
                    have = list(cls.field_schema) if nested else []
                    cls.field_schema = have + [String.named(p) for p in parts]
                ok = True
            finally:
                world.event('end' if ok else 'fail', c=world.num(cls), t=me)

        def start(self, *a, **kw):
            world.event('init', c=world.num(type(self)), t=world.me())
            return super(made[0], self).__init__(*a, **kw)

        members = {'__compound_init__': classmethod(init) if style % 2 else init, 'tag': u'none'}
        if not any(x.__dict__.get('traced') for x in base.__mro__):
            members['traced'] = True
            members['__init__'] = start
        if base is Compound:
            members['compose'] = lambda self: (u''.join(c.u for c in self.children), None)
            members['explode'] = lambda self, value: True
        made = [type(base)(name, (base,), members)]
        return made[0]

    def add(self, c, keys, seen):
        with self.lock:
            self.classes.append(c)
            self.keys.append(keys)
            self.seen.append(seen)
            i = len(self.classes)
            self.mine.append(i)
            self.log.append({'o': 'class', 'c': i, 'keys': keys, 'seen': seen})
        return i

    def make(self, what, i=0, style=0, n=0):
        """what: 'hook', 'nest', 'inherit', 'using', 'named', 'date'"""
        if what == 'date':
            c = type(DateYYYYMMDD)('D%d' % n, (DateYYYYMMDD,), {'tag': u'none'})
            return self.add(c, u'year,month,day', False)
        if what == 'hook':
            return self.add(self.hooked(Compound, [u'p%d' % n, u'q'], 'H%d' % n, style, False), u'p%d,q' % n, True)
        if what == 'datehook':
            return self.add(self.hooked(DateYYYYMMDD, [], 'DH%d' % n, style, True), u'year,month,day', True)
        base, keys, seen = self.classes[i - 1], self.keys[i - 1], self.seen[i - 1]
        if what == 'nest':
            extra = [] if u'year' in keys else [u'x%d' % n]
            return self.add(self.hooked(base, extra, 'N%d' % n, style, True), u','.join([keys] + extra), True)
        if what == 'inherit':
            return self.add(type(base)('I%d' % n, (base,), {}), keys, seen)
        if what == 'using':
            return self.add(base.using(optional=True), keys, seen)
        return self.add(base.named(u'n%d' % n), keys, seen)

    # ---- threads
    def ask(self, name, i, overrides, hand=False, ready=None):
        def body():
            self.local.name = name
            self.jthreads[name] = JThread.currentThread()
            c = self.classes[i - 1]
            if ready is not None:
                ready.wait(10)
            tag = c.tag
            self.event('ask', t=name, c=i, ov=sorted(overrides), hand=hand)
            try:
                if hand:
                    c.__compound_init__()
                    self.event('byhand', t=name, c=i)
                    return
                el = c(**overrides)
                self.event('built', t=name, c=self.num(type(el)), keys=u','.join(txt(x.name) for x in type(el).field_schema),
                           parts=u','.join(sorted(el.keys())), given=[[k, txt(overrides[k])] for k in sorted(overrides)],
                           got=[[k, txt(getattr(el, k))] for k in sorted(overrides)],
                           orig=[tag, c.tag])
            except Boom:
                self.event('raised', t=name, exc=u'Boom')
            except Exception as e:
                self.event('raised', t=name, exc=txt(type(e).__name__) + u' ' + txt(str(e))[:200])
        t = threading.Thread(target=body)
        t.setDaemon(True)
        self.threads[name] = t
        t.start()

    def finish(self):
        with self.lock:
            self.opened = True
            for name, (place, e) in self.gates.items():
                e.set()
        end = time.time() + 60
        for name in sorted(self.threads):
            self.threads[name].join(max(0.1, end - time.time()))
            if self.threads[name].isAlive():
                self.event('stuck', t=name)
        with self.lock:
            log = list(self.log)
        self.w.rec({'h': self.w.h, 'op': {'o': 'start', 'mode': self.mode}, 'res': u'ok'})
        for op in log:
            self.w.rec({'h': self.w.h, 'op': op, 'res': u'ok'})
        self.w.rec({'h': self.w.h, 'op': {'o': 'finish'}, 'res': u'ok'})


def replay(w, n, b):
    """A behaviour of the specification: A has a hook, B's hook calls A's."""
    world = World(w, 'held')
    kind = n % 3
    a = world.make(('hook', 'datehook', 'hook')[kind], style=n, n=1)
    if kind == 2:
        a = world.make('inherit', i=a, n=2)
    nest = world.make('nest', i=a, style=n + 1, n=3)
    where = {u'A': a, u'B': nest}
    w.doing(('replay', b))
    for op, name in b['ops']:
        if op == u'start':
            world.ask(name, where[b['wants'][int(name[1:]) - 1]], {})
            for _ in range(200):
                if name in world.jthreads:
                    break
                time.sleep(0.0005)
            world.settle(name)
        else:
            world.let(op, name)
    world.finish()
    w.done()


OVERRIDES = [{}, {}, {}, {'tag': u'x'}, {'tag': u'none'}, {'name': u'given'}, {'tag': u'y', 'optional': True}]


def random_history(w, rng):
    mode = rng.choice(['held', 'held', 'nap', 'free'])
    world = World(w, mode)
    w.doing(('random', mode))
    for n in range(rng.randint(1, 4)):
        if not world.classes or rng.random() < 0.3:
            world.make(rng.choice(['hook', 'hook', 'datehook', 'date']), style=rng.randint(0, 1), n=n)
        else:
            world.make(rng.choice(['nest', 'nest', 'inherit', 'using', 'named']),
                       i=rng.choice(world.mine), style=rng.randint(0, 1), n=n)
    asked = 0
    hands = set()
    focus = rng.choice(world.mine)

    def target():
        return focus if rng.random() < 0.6 else rng.choice(world.mine)
    if rng.random() < 0.25:
        i = target()
        if world.seen[i - 1]:
            hands.add(i)
            world.opened = True          # before it starts: it must not stop at a pause point
            world.ask(u'hand', i, {}, hand=True)
            world.threads[u'hand'].join()
            world.opened = False
    if rng.random() < 0.3 and not hands:
        c = world.classes[target() - 1]
        own = [x for x in c.__mro__ if '__compound_init__' in x.__dict__][0]
        if own not in (DateYYYYMMDD, Compound):
            world.failing[own] = rng.randint(1, 2)
    if mode == 'held':
        for _ in range(rng.randint(4, 14)):
            if asked < 5 and rng.random() < 0.5:
                asked += 1
                name = u't%d' % asked
                if rng.random() < 0.2 and len(world.classes) < 8:
                    world.make(rng.choice(['inherit', 'using', 'named', 'nest']), i=target(), n=10 + asked)
                world.ask(name, target(), rng.choice(OVERRIDES))
                world.settle(name)
            else:
                world.let(None, u't%d' % rng.randint(1, max(1, asked)))
    else:
        for _ in range(rng.randint(1, 3)):
            ready = threading.Event()
            for _ in range(rng.randint(2, 6)):
                asked += 1
                world.ask(u't%d' % asked, target(), rng.choice(OVERRIDES), ready=ready)
            ready.set()
            for name in list(world.threads):
                world.threads[name].join(10)
    world.finish()
    w.done()


def main():
    prof, out, seed, shard, budget = main_args()
    w = Writer(out, 200)
    if prof.startswith('@'):
        for n, line in enumerate(open(prof[1:])):
            guarded(w, replay, w, n, json.loads(line))
    else:
        rng = random.Random('%s-%d-%d' % (prof, seed, shard))
        while w.n < budget:
            guarded(w, random_history, w, rng)
    w.close()
    os._exit(0)


main()
