"""C35: contexts are a stack of cards of each thread: what is set on one is seen below it, not above it nor in other threads, and leaving uncovers the previous one"""
import random
import threading
import warnings

from vlib.harness import Check
from checks.common import Boom, BoomBase

from satella.coding import Context

warnings.simplefilter('ignore', RuntimeWarning)

CHECK = Check('C35', 'A case is a random program of entering and leaving contexts, setting, deleting and reading variables; distinct by the program; '
                     'non-trivial if at least two oracle evaluations took place')

GONE = object()
NAMES = ['alpha', 'beta', 'gamma', 'items', 'get_it', '_private']


class Card:
    """what a context should be"""

    def __init__(self, real, own, parent):
        self.real, self.own, self.parent = real, own, parent

    def look(self, name):
        card = self
        while card is not None:
            if name in card.own:
                return card.own[name]
            card = card.parent
        return GONE


class Program:
    def __init__(self, c, rng, tag, pause=lambda: None):
        self.c, self.rng, self.tag, self.pause = c, rng, tag, pause
        self.current = None       # the innermost card
        self.budget = rng.randrange(5, 40)
        self.templates = []       # contexts made, with the variables given to them

    def value(self):
        return self.rng.choice([None, 0, '', False, 5, (self.tag, self.rng.randrange(1000)), [], 'text'])

    def cards(self):
        out, card = [], self.current
        while card is not None:
            out.append(card)
            card = card.parent
        return out

    def verify(self):
        c = self.c
        for card in self.cards():
            for name in NAMES:
                want = card.look(name)
                st, got = c.attempt(lambda: getattr(card.real, name))
                if want is GONE:
                    c.expect(st == 'exc' and isinstance(got, AttributeError), 'absent', name=name, got_=repr(got))
                else:
                    c.expect(st == 'ok' and got is want, 'value', name=name, got_=repr(got), want_=repr(want))
                c.expect(bool(card.real.does_exist(name)) == (want is not GONE), 'does-exist', name=name)
        if self.current is not None:
            c.expect(Context.get() is self.current.real, 'current', depth=len(self.cards()))

    def act(self):
        c, rng = self.c, self.rng
        self.pause()
        cards = self.cards()
        op = rng.randrange(9)
        c.rec(self.tag, op, len(cards))
        if not cards or op == 0 and self.current.parent is None and rng.random() < 0.2:
            if rng.random() < 0.3 and not cards:
                real = Context.get()
                for name in NAMES:
                    c.expect(not real.does_exist(name), 'fresh-is-empty', name=name)
                self.current = Card(real, {}, None)
                c.count('roots')
            return
        card = self.current if rng.random() < 0.6 else rng.choice(cards)
        name = rng.choice(NAMES)
        if op <= 3:
            v = self.value()
            setattr(card.real, name, v)
            card.own[name] = v
        elif op == 4:
            delattr(card.real, name)
            card.own[name] = GONE
            c.count('deletions')
        elif op == 5 and card.parent is not None:
            v = self.value()
            card.real.push_up(name, v)
            card.parent.own[name] = v
            c.count('pushed up')
        elif op == 6 and card.parent is not None:
            have = [n for n, v in card.own.items() if v is not GONE]
            if have:
                name = rng.choice(have)
                card.real.push_up(name)
                card.parent.own[name] = card.own.pop(name)
                c.count('pushed up')
        self.pause()

    def block(self, depth=0):
        c, rng = self.c, self.rng
        for _ in range(rng.randrange(1, 7)):
            if self.budget <= 0:
                return
            self.budget -= 1
            if depth < 5 and rng.random() < 0.35:
                self.enter(depth)
            else:
                self.act()
            self.verify()

    def enter(self, depth):
        c, rng = self.c, self.rng
        before = self.current
        how = rng.randrange(4)
        if how == 0 and self.templates:
            template, own = rng.choice(self.templates)
            own = dict(own)
        elif how == 1 and before is not None:       # a context that is on the stack already
            template, own = rng.choice(self.cards()).real, {}
        else:
            own = {n: self.value() for n in rng.sample(NAMES, rng.choice([0, 0, 1, 3]))}
            template = Context(**own)
            self.templates.append((template, dict(own)))
        fail = rng.choice([None, None, Boom, BoomBase])
        c.rec(self.tag, 'enter', how, sorted(own), depth)
        c.count('contexts entered')
        try:
            with template as real:
                self.current = Card(real, own, before)
                c.expect(Context.get() is real, 'entered-is-current')
                self.verify()
                self.block(depth + 1)
                if fail is not None:
                    raise fail()
            c.expect(fail is None, 'exception-passes')
        except (Boom, BoomBase):
            c.expect(fail is not None, 'exception-passes')
        self.current = before

    def run(self):
        while self.budget > 0:
            self.block()
            if self.current is None and self.rng.random() < 0.3:
                real = Context.get()
                self.c.expect(not any(real.does_exist(n) for n in NAMES), 'fresh-is-empty', 'variables of contexts that were left are still there')
                self.current = Card(real, {}, None)


def in_thread(c, fn):
    """contexts are those of a thread, so each case needs a new one"""
    out = []
    t = threading.Thread(target=lambda: out.append(c.attempt(fn)))
    t.start()
    t.join(60)
    c.expect(out and out[0][0] == 'ok', 'program-ends', got_=repr(out))


@CHECK.scenario(quick=150, thorough=8000)
def programs(c):
    in_thread(c, Program(c, c.rng, 'only').run)


@CHECK.scenario(quick=40, thorough=2500)
def threads(c):
    """contexts of a thread are its own, whichever thread runs at any moment"""
    seeds = [c.rng.randrange(2 ** 60) for _ in range(c.rng.randrange(2, 4))]
    turn = threading.Condition()
    alive = list(range(len(seeds)))
    state = {'turn': 0}
    order = random.Random(sum(seeds))

    def pause_for(i):
        def pause():
            with turn:          # hands the turn over, at random
                state['turn'] = order.choice(alive)
                turn.notify_all()
                while state['turn'] != i:
                    turn.wait(10)
        return pause
    progs = []
    for i, s in enumerate(seeds):
        p = Program(c, random.Random(s), i, pause_for(i))
        p.budget = min(p.budget, 15)
        progs.append(p)
    failed = []

    def go(i):
        with turn:
            while state['turn'] != i:
                turn.wait(10)
        r = c.attempt(progs[i].run)
        if r[0] != 'ok':
            failed.append(r)
        with turn:
            alive.remove(i)
            if alive:
                state['turn'] = order.choice(alive)
            turn.notify_all()
    ts = [threading.Thread(target=go, args=(i,), daemon=True) for i in range(len(seeds))]
    for t in ts:
        t.start()
    for t in ts:
        t.join(120)
    c.expect(not any(t.is_alive() for t in ts) and not failed, 'program-ends', got_=repr(failed))


if __name__ == '__main__':
    CHECK.main()
