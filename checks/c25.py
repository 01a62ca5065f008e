"""C25: metrics report exactly what was fed to them, per level, label and time, also by many threads at once"""
import http.client
import json
import math
import re
import threading
import time
import warnings

from vlib.harness import Check

from checks.common import not_locked_out, Unhashable

import satella.coding
from satella.exceptions import MetricAlreadyExists
from satella.instrumentation.metrics import (AggregateMetric, DEBUG, DISABLED, INHERIT, LabeledMetric, MetricData,
                                             MetricDataCollection, MetricLevel, RUNTIME, getMetric)
from satella.instrumentation.metrics.metric_types import register_metric
from satella.instrumentation.metrics.metric_types.base import LeafMetric
from satella.instrumentation.metrics.exporters import PrometheusHTTPExporterThread, metric_data_collection_to_prometheus

CHECK = Check('C25', 'A case is one random history of creations, reports, level changes, resets and exports over a tree of metrics '
                     'compared with a model, or one schedule of threads reporting at once; distinct by history and interleaving; '
                     'non-trivial if at least two oracle evaluations took place')


def as_dict(c, mdc, key='export'):
    out = {}
    for md in mdc.values:
        k = md.name, tuple(sorted(((a, str(b)) for a, b in md.labels.items())))
        c.expect(k not in out, key + '-duplicate', 'the same data point occurs twice', point=k)
        out[k] = md.value
    return out


def point(name, labels):
    return name, tuple(sorted((a, str(b)) for a, b in labels.items()))


def close(a, b):
    return a.keys() == b.keys() and all(type(a[k]) in (int, float) and math.isclose(a[k], b[k], rel_tol=1e-9, abs_tol=1e-9) for k in a)


def diff(a, b):
    return {'%s%s' % k: (a.get(k), b.get(k)) for k in list(a) + list(b) if k not in a or k not in b or a[k] != b[k]}


def quantile(values, q):
    v = sorted(values)
    if not v:
        return 0.0
    pos = (len(v) - 1) * q
    i = int(pos)
    return v[i] if i + 1 >= len(v) else v[i] + (v[i + 1] - v[i]) * (pos - i)


# ------------------------------------------------------------------ models of leaves
class Leaf:
    """model of a leaf; feed(value, labels, now), points(now)"""

    def __init__(self, rng, name):
        self.name = name
        self.kwargs = {}
        self.kids = {}
        self.init(rng)

    def init(self, rng):
        pass

    def gen(self, rng):
        return (rng.choice([1, 2, 5, -3, 0.5]),)

    def feed(self, args, labels, now):
        key = tuple(sorted(labels.items()))
        if labels:
            if key not in self.kids:
                kid = self.kids[key] = type(self).__new__(type(self))
                kid.__dict__.update(self.__dict__)
                kid.kids, kid.key = {}, labels
                kid.fresh()
            self.kids[key].take(args, now)
        self.take(args, now)

    def points(self, now):
        if self.kids:
            out = {}
            for kid in self.kids.values():
                out.update(kid.own(kid.key, now))
            out.update(self.total(now))
            return out
        return self.own({}, now)


class IntLeaf(Leaf):
    kind = 'int'

    def init(self, rng):
        self.fresh()

    def fresh(self):
        self.v = 0

    def gen(self, rng):
        return (rng.choice([1, 2, 70, -4, 0]),)

    def take(self, args, now):
        self.v = args[0]

    def own(self, labels, now):
        return {point(self.name, labels): self.v}

    def total(self, now):
        return {}


class FloatLeaf(IntLeaf):
    kind = 'float'

    def gen(self, rng):
        return (rng.choice([1.5, 2, -0.25, 1e6]),)


class CounterLeaf(Leaf):
    kind = 'counter'

    def init(self, rng):
        self.sum = rng.random() < 0.6
        self.count = rng.random() < 0.5
        self.kwargs = dict(sum_children=self.sum, count_calls=self.count)
        self.fresh()

    def fresh(self):
        self.v = self.n = 0

    def gen(self, rng):
        return rng.choice([(1,), (2,), (-5,), (0.5,), ()])

    def take(self, args, now):
        self.v += args[0] if args else 0
        self.n += 1

    def own(self, labels, now):
        out = {point(self.name, labels): self.v}
        if self.count:
            out[point(self.name + '.count', labels)] = self.n
        return out

    def total(self, now):
        out = {}
        if self.sum:
            out[point(self.name + '.sum', {})] = self.v
        if self.count:
            out[point(self.name + '.count', {})] = self.n
        return out


class CpsLeaf(Leaf):
    kind = 'cps'

    def init(self, rng):
        self.periods = rng.choice([[1], [1, 5], [10, 2, 30], [5, 1], [2, 30, 10]])
        self.agg = rng.random() < 0.6
        self.kwargs = dict(time_unit_vectors=self.periods, aggregate_children=self.agg)
        self.fresh()

    def fresh(self):
        self.clicks = []

    def gen(self, rng):
        return ()

    def take(self, args, now):
        self.clicks.append(now)

    def own(self, labels, now, name=None):
        return {point(name or self.name, {'period': p, **labels}): sum(1 for t in self.clicks if now - t < p) for p in self.periods}

    def total(self, now):
        return self.own({}, now, self.name + '.total') if self.agg else {}


class LinkLeaf(Leaf):
    kind = 'linkfail'

    def init(self, rng):
        self.down, self.up = rng.choice([(2, 2), (3, 1), (1, 3), (4, 2)])
        self.events = []
        self.seen = []
        self.kwargs = dict(consecutive_failures_to_offline=self.down, consecutive_successes_to_online=self.up,
                           callback_on_online=lambda a, labels: self.seen.append(('online', a, dict(labels))),
                           callback_on_offline=lambda a, labels: self.seen.append(('offline', a, dict(labels))))
        self.key = {}
        self.mine = True
        self.addresses = rng.random() < 0.5
        self.fresh()

    def fresh(self):
        self.links = {}

    def gen(self, rng):
        return (rng.random() < 0.5,) if not self.addresses else (rng.random() < 0.5, rng.choice([0, 1, 7]))

    def feed(self, args, labels, now):
        key = tuple(sorted(labels.items()))
        if labels:
            if key not in self.kids:
                kid = self.kids[key] = type(self).__new__(type(self))
                kid.__dict__.update(self.__dict__)
                kid.kids, kid.key = {}, labels
                kid.fresh()
            self.kids[key].take(args, now)
        else:
            self.take(args, now)

    def take(self, args, now):
        ok, address = args[0], args[1] if len(args) > 1 else 0
        link = self.links.setdefault(address, [0, 0, True])
        if ok:
            link[0], link[1] = 0, link[1] + 1
            if not link[2] and link[1] == self.up:
                link[2] = True
                self.events.append(('online', address, self.key))
        else:
            link[0], link[1] = link[0] + 1, 0
            if link[2] and link[0] == self.down:
                link[2] = False
                self.events.append(('offline', address, self.key))

    def own(self, labels, now):
        out = {}
        for a, (f, s, working) in self.links.items():
            lab = dict(labels)
            if set(self.links) != {0}:
                lab['address'] = a
            out[point(self.name + '.consecutive_failures', lab)] = f
            out[point(self.name + '.consecutive_successes', lab)] = s
            out[point(self.name + '.status', lab)] = int(working)
        return out

    def total(self, now):
        return {}


class SummaryLeaf(Leaf):
    kind = 'summary'

    def init(self, rng):
        self.qs = rng.choice([(0.5, 0.95), (0.0, 0.25, 1.0), (0.9,)])
        self.last = rng.choice([1, 3, 10])
        self.agg, self.cc = rng.random() < 0.6, rng.random() < 0.6
        self.kwargs = dict(quantiles=self.qs, last_calls=self.last, aggregate_children=self.agg, count_calls=self.cc)
        self.fresh()

    def fresh(self):
        self.window, self.n, self.sum = [], 0, 0

    def take(self, args, now):
        self.window = (self.window + [args[0]])[-self.last:]
        self.n += 1
        self.sum += args[0]

    def own(self, labels, now):
        out = {point(self.name, {'quantile': q, **labels}): quantile(self.window, q) for q in self.qs}
        if self.cc:
            out[point(self.name + '.count', labels)] = self.n
            out[point(self.name + '.sum', labels)] = self.sum
        return out

    def total(self, now):
        out = {}
        if self.agg:
            values = [v for kid in self.kids.values() for v in kid.window]
            out = {point(self.name + '.total', {'quantile': q}): quantile(values, q) for q in self.qs}
        if self.cc:
            out[point(self.name + '.count', {})] = self.n
            out[point(self.name + '.sum', {})] = self.sum
        return out


class HistogramLeaf(Leaf):
    kind = 'histogram'

    def init(self, rng):
        self.limits = rng.choice([(1, 2, 3), (0.5,), (.005, .01, .025, .05, .075, .1, .25, .5, .75, 1.0, 2.5, 5.0, 7.5, 10.0)])
        self.agg = rng.random() < 0.6
        self.kwargs = dict(aggregate_children=self.agg)
        if len(self.limits) < 10:
            self.kwargs['buckets'] = self.limits
        self.fresh()

    def fresh(self):
        self.values = []

    def gen(self, rng):
        return (rng.choice([0, 0.25, 0.5, 1, 2, 2.999, 3, 100, 0.01]),)

    def take(self, args, now):
        self.values.append(args[0])

    def own(self, labels, now, name=None):
        name = name or self.name
        out = {}
        low = 0.0
        for up in tuple(self.limits) + (math.inf,):
            out[point(name, {'le': low, 'ge': up, **labels})] = sum(1 for v in self.values if low <= v < up)
            low = up
        out[point(name + '.sum', labels)] = sum(self.values)
        out[point(name + '.count', labels)] = len(self.values)
        return out

    def total(self, now):
        return self.own({}, now, self.name + '.total') if self.agg else {}


LEAVES = [IntLeaf, FloatLeaf, CounterLeaf, CpsLeaf, LinkLeaf, SummaryLeaf, HistogramLeaf]


class Node:
    def __init__(self, name, parent, level):
        self.name, self.parent, self.level = name, parent, level
        self.kids = {}
        self.leaf = None
        self.internal = False
        self.labelled = False

    def effective(self):
        n = self
        while n.level == INHERIT:
            n = n.parent
        return n.level

    def points(self, now, top=True, internals=True):
        """what is exported, with names relative to this node"""
        if self.leaf is not None:
            return {} if self.internal and not internals else self.leaf.points(now)
        out = {}
        for kid in self.kids.values():
            if kid.effective() <= self.effective():
                for (name, labels), v in kid.points(now, False, internals).items():
                    out[(self.name + '.' if self.name else '') + name, labels] = v
        return out

    def path(self):
        return '' if self.parent is None else (self.parent.path() + '.' if self.parent.path() else '') + self.name


LINE = re.compile(r'^([a-zA-Z_:][a-zA-Z0-9_:]*)(?:\{(.*)\})? (\S+)(?: (-?\d+))?$')
LABEL = re.compile(r'([a-zA-Z_][a-zA-Z0-9_]*)="((?:[^"\\\n]|\\.)*)"(?:,|$)')


def parse_prometheus(c, text):
    out = {}
    for line in text.split('\n'):
        if not line:
            continue
        m = LINE.match(line)
        c.expect(m is not None, 'prometheus-syntax', 'a line is not in the exposition format', line=line)
        labels, pos = {}, 0
        raw = m.group(2) or ''
        while pos < len(raw):
            lm = LABEL.match(raw, pos)
            c.expect(lm is not None, 'prometheus-labels', 'labels are not in the exposition format', line=line)
            labels[lm.group(1)] = re.sub(r'\\(.)', lambda e: '\n' if e.group(1) == 'n' else e.group(1), lm.group(2))
            pos = lm.end()
        k = point(m.group(1), labels)
        c.expect(k not in out, 'prometheus-duplicate', 'the same sample was exported twice', line=line)
        out[k] = float(m.group(3))
    return out


def prometheus_names(points):
    return {(name.replace('.', '_'), labels): v for (name, labels), v in points.items()}


def reset_all():
    getMetric('').reset()


@CHECK.scenario(quick=120, thorough=4000)
def history(c):
    rng = c.rng
    reset_all()
    root = Node('', None, RUNTIME)
    objs = {}
    leaves = []
    with c.virtual_time() as vt:
        def fetch(path, kind='base', level=None, leaf=None, **kw):
            node = root
            parts = path.split('.') if path else []
            for i, p in enumerate(parts):
                last = i == len(parts) - 1
                if p not in node.kids:
                    kid = node.kids[p] = Node(p, node, level if level is not None else INHERIT)
                    if last and leaf is not None:
                        kid.leaf = leaf
                node = node.kids[p]
            if level is not None:
                node.level = level
            m = getMetric(path, kind, level, **kw) if level is not None else getMetric(path, kind, **kw)
            if path in objs and node in objs[path]:
                c.expect(m is objs[path][0], 'same-name-another-object', 'getMetric returned another object for the same name', name=path)
            objs[path] = m, node
            return m, node

        for step in range(rng.randrange(5, 40)):
            op = rng.random()
            vt.advance(rng.choice([0.137, 0.611, 3.251]))
            if op < 0.25 or not leaves:
                base = '.'.join(rng.choice(['a', 'b', 'c', 'ab', 'leaf']) for _ in range(rng.randrange(0, 3)))
                name = 'leaf%s' % (step if rng.random() < 0.7 else 'x' * (step + 1))
                path = (base + '.' if base else '') + name
                leaf = rng.choice(LEAVES)(rng, name)
                level = rng.choice([None, None, None, RUNTIME, DEBUG, DISABLED])
                internal = rng.random() < 0.2
                kw = dict(leaf.kwargs)
                if internal:
                    kw['internal'] = True
                m, node = fetch(path, leaf.kind, level, leaf, **kw)
                node.internal = internal
                node.labelled = rng.random() < 0.5
                leaves.append((m, node))
                c.rec('create', (path, leaf.kind, str(level), internal))
            elif op < 0.75:
                m, node = rng.choice(leaves)
                labels = {}
                if node.labelled:
                    labels = {rng.choice(['k', 'l']): rng.choice(['v', 'w', 5]) for _ in range(rng.randrange(1, 3))}
                args = node.leaf.gen(rng)
                lvl = rng.choice([RUNTIME, RUNTIME, DEBUG])
                if node.effective() >= lvl:
                    node.leaf.feed(args, labels, vt.now)
                    c.count('accepted')
                else:
                    c.count('below-level')
                how = rng.random()
                report = m
                if labels and how < 0.2:
                    report, labels = LabeledMetric(m, **labels), {}
                elif how < 0.3:
                    report = AggregateMetric(m)
                if rng.random() < 0.3:
                    report.handle(rng.choice([lvl, int(lvl)]), *args, **labels)
                elif lvl == RUNTIME:
                    report.runtime(*args, **labels)
                else:
                    report.debug(*args, **labels)
            elif op < 0.85:
                path = rng.choice(list(objs))
                m, node = objs[path]
                lvl = rng.choice([RUNTIME, DEBUG, DISABLED, INHERIT])
                if lvl == INHERIT and path == '':
                    continue
                if rng.random() < 0.5:
                    m.level = rng.choice([lvl, int(lvl)])
                else:
                    getMetric(path, m.CLASS_NAME, lvl)
                node.level = lvl
                c.eq(m.level, node.effective(), 'level', 'wrong effective level', name=path)
                c.rec('level', (path, str(lvl)))
            elif op < 0.9:
                path = rng.choice(list(objs) + [p for p in objs for q in objs if p and q.startswith(p) and q[len(p):len(p) + 1] not in ('', '.')])
                m, node = objs[path]
                if path == '' or rng.random() < 0.5:
                    continue
                # a metric that is gone, with everything below
                getMetric(path, m.CLASS_NAME).reset()
                del node.parent.kids[node.name]
                objs = {p: v for p, v in objs.items() if p != path and not p.startswith(path + '.')}
                leaves = [v for v in leaves if v[1].path() in objs and objs[v[1].path()][1] is v[1]]
                c.rec('reset', path)
                for other, (om, onode) in objs.items():
                    if other:
                        c.expect(getMetric(other, om.CLASS_NAME) is om, 'reset-took-another', 'resetting a metric removed another one', reset=path, other=other)
            else:
                path = rng.choice(['', 'a', 'a.b', 'b', 'ab'] + list(objs) * 2)
                node = root
                for p in path.split('.') if path else ():
                    node = node.kids.get(p)
                    if node is None:
                        break
                if node is not None:
                    fetch(path, objs[path][0].CLASS_NAME if path in objs else 'base')
            if rng.random() < 0.5:
                compare(c, root, vt.now, objs)
        compare(c, root, vt.now, objs)
        for m, node in leaves:
            if isinstance(node.leaf, LinkLeaf):
                c.eq(node.leaf.seen, node.leaf.events, 'linkfail-callbacks', 'wrong sequence of callbacks')
    reset_all()


def compare(c, root, now, objs):
    want = root.points(now)
    top = getMetric('')
    mdc = top.to_metric_data()
    got = as_dict(c, mdc)
    c.expect(close(got, want), 'export-wrong', 'the root metric exports something else than reported', difference=diff(got, want))
    if not objs:
        return
    text = metric_data_collection_to_prometheus(mdc)
    exported = prometheus_names(root.points(now, internals=False))
    got = parse_prometheus(c, text)
    c.expect(close(got, exported), 'prometheus-wrong', 'the Prometheus export differs', difference=diff(got, exported))
    path = c.rng.choice(list(objs))
    m, node = objs[path]
    sub = as_dict(c, m.to_metric_data())
    want = node.points(now)
    c.expect(close(sub, want), 'export-subtree-wrong', 'a metric exports something else than reported', name=path, difference=diff(sub, want))
    c.count('exports')


@CHECK.scenario(quick=60, thorough=1500)
def names(c):
    """One name is one metric; another type is refused, forbidden characters are, leaves have no children"""
    rng = c.rng
    reset_all()
    kinds = ['int', 'counter', 'summary', 'base', 'histogram', 'cps', 'float', 'empty']
    known = {}
    for _ in range(12):
        path = '.'.join(rng.choice('xyz') for _ in range(rng.randrange(1, 4)))
        kind = rng.choice(kinds)
        parents = ['.'.join(path.split('.')[:i]) for i in range(1, path.count('.') + 1)]
        blocked = any(known.get(p, 'base') not in ('base', 'empty') for p in parents)
        try:
            m = getMetric(path, kind)
        except MetricAlreadyExists as e:
            c.expect(path in known and known[path] != kind, 'names-refused', 'refused though the type agrees', path=path, kind=kind, known=known)
            c.eq((e.name, e.requested_type, e.existing_type), (path, kind, known[path]), 'names-error', 'wrong details of the error')
        except TypeError:
            c.expect(blocked, 'names-typeerror', 'refused though the parent may have children', path=path, known=known)
            c.expect(path not in {md.name for md in getMetric('').to_metric_data().values}, 'names-refused-exported', 'a refused metric is exported')
        else:
            c.expect(not blocked or path in known, 'names-leaf-has-children', 'a leaf has got a child', path=path, known=known)
            c.expect(known.get(path, kind) == kind, 'names-type-changed', 'another type was accepted', path=path, kind=kind, known=known)
            for p in parents:
                known.setdefault(p, 'base')
            known[path] = kind
            c.expect(getMetric(path, kind) is m, 'names-identity', 'another object for the same name')
            c.eq(m.get_fully_qualified_name(), path, 'names-fqn', 'wrong fully qualified name')
    for bad in ('a b', 'ż', 'a-b', 'a/b', 'a.b{', 'x\n'):
        c.raises(ValueError, lambda: getMetric(bad, 'int'), 'names-forbidden')
    c.raises(AssertionError, lambda: setattr(getMetric(''), 'level', INHERIT), 'names-root-inherit')
    c.eq(getMetric('').level, RUNTIME, 'names-root-level', 'the root was changed by a refused level')
    reset_all()


@CHECK.scenario(quick=60, thorough=1500)
def timestamps(c):
    """A metric with timestamps carries the time of its last update, one without carries none"""
    rng = c.rng
    reset_all()
    with c.virtual_time() as vt:
        metrics = []
        for i in range(4):
            kind = rng.choice(['int', 'float', 'counter', 'summary', 'histogram', 'cps', 'linkfail', 'quantile'])
            path = rng.choice(['', 'a.', 'a.b.']) + 'm%s' % i
            stamped = rng.random() < 0.6
            kw = {'enable_timestamp': True} if stamped else {}
            metrics.append((path, kind, stamped, getMetric(path, kind, **kw), {'created': time.time()}, rng.random() < 0.5))
        for _ in range(rng.randrange(1, 12)):
            vt.advance(rng.choice([0.25, 1.5, 7]))
            path, kind, stamped, m, updates, labelled = rng.choice(metrics)
            label = rng.choice('uvw') if labelled else None
            args = () if kind == 'cps' else (1,)
            m.runtime(*args, **({'lab': label} if labelled else {}))
            updates[label] = time.time()
            updates['any'] = time.time()
        for path, kind, stamped, m, updates, labelled in metrics:
            whole = m.to_metric_data()
            for lab in 'uvw':
                if labelled and lab in updates:
                    part = m.get_specific_metric_data({'lab': lab})
                    c.eq({(x.name, x.labels, x.value) for x in part.values},
                         {(x.name, x.labels, x.value) for x in whole.values if x.labels.get('lab') == lab}, 'specific', 'not the points of these labels')
                else:
                    c.raises(KeyError, lambda: m.get_specific_metric_data({'lab': lab}), 'specific-missing')
        for md in getMetric('').to_metric_data().values:
            for path, kind, stamped, m, updates, labelled in metrics:
                if md.name == path or md.name.startswith(path + '.'):
                    if not stamped:
                        c.eq(md.timestamp, None, 'timestamp-unwanted', 'a timestamp of a metric that has none', metric=path, kind=kind)
                    else:
                        want = updates.get(md.labels.get('lab')) if 'lab' in md.labels else updates.get('any', updates['created'])
                        if want is not None:
                            c.eq(md.timestamp, want, 'timestamp', 'not the time of the last update', metric=path, kind=kind, point=repr(md), now=time.time())
    reset_all()


class MyData(MetricData):
    pass


class MyCollection(MetricDataCollection):
    pass


@CHECK.scenario(quick=60, thorough=1500)
def collections(c):
    """Algebra of collections: later data override earlier, nothing given is modified, JSON goes both ways"""
    rng = c.rng

    def gen():
        return {(rng.choice(['a', 'b', 'a.c']), (('l', rng.choice(['1', '2'])),) if rng.random() < 0.6 else ()): rng.randrange(4) * 1000
                for _ in range(rng.randrange(5))}

    def make(d):
        Collection = rng.choice([MetricDataCollection, MyCollection])
        return Collection([rng.choice([MetricData, MyData])(n, v * 1, dict(lab), internal=internal[n]) for (n, lab), v in d.items()])
    internal = {'a': rng.random() < 0.3, 'b': rng.random() < 0.3, 'a.c': rng.random() < 0.3, 'p.a': False, 'a.p': False}
    d1, d2 = gen(), gen()
    a, b = make(d1), make(d2)
    c.eq(as_dict(c, a + b), {**d1, **d2}, 'add', 'wrong sum')
    c.eq((as_dict(c, a), as_dict(c, b)), (d1, d2), 'add-modified', 'addition modified its operands')
    one = rng.choice([MetricData, MyData])('a', 99)
    c.eq(as_dict(c, MetricDataCollection(one)), {('a', ()): 99}, 'made-of-one')
    c.eq(as_dict(c, MetricDataCollection(one, MyData('b', 1))), {('a', ()): 99, ('b', ()): 1}, 'made-of-some')
    c.eq(as_dict(c, a + one), {**d1, ('a', ()): 99}, 'add-one', 'wrong sum')
    c.eq(as_dict(c, a), d1, 'add-one-modified', 'addition modified its operand')
    copy = MetricDataCollection(a)
    copy += one
    c.eq(as_dict(c, copy), {**d1, ('a', ()): 99}, 'iadd-one', 'wrong sum')
    c.eq(as_dict(c, a), d1, 'copy-aliased', 'modifying a copy modified the original')
    a2 = make(d1)
    a2 += b
    c.eq(as_dict(c, a2), {**d1, **d2}, 'iadd', 'wrong sum')
    c.eq(as_dict(c, b), d2, 'iadd-modified', 'the operand was modified')
    c.eq(make(d1) == make(d2), d1.keys() == d2.keys(), 'eq', 'wrong equality')
    c.eq(make(d1).strict_eq(make(d2)), d1 == d2, 'strict-eq', 'wrong strict equality')
    pre, post = make(d1), make(d1)
    c.expect(pre.prefix_with('p') is pre and post.postfix_with('p') is post, 'fix-return', 'self has to be returned')
    wpre, wpost = {('p.' + n, lab): v for (n, lab), v in d1.items()}, {(n + '.p', lab): v for (n, lab), v in d1.items()}
    c.eq((as_dict(c, pre), as_dict(c, post)), (wpre, wpost), 'fixes', 'wrong names')
    for x, w in ((pre, wpre), (post, wpost)):
        fresh = MetricDataCollection([MetricData(n, v, dict(lab)) for (n, lab), v in w.items()])
        c.expect(x == fresh and fresh == x and x.strict_eq(fresh), 'fixes-eq', 'a renamed collection is not equal to a fresh one')
        for md in fresh.values:
            c.expect(md in x.values, 'fixes-in', 'a renamed element cannot be found')
        x += MetricData('p.a' if x is pre else 'a.p', 1)
        c.eq(as_dict(c, x), {**w, (('p.a' if x is pre else 'a.p'), ()): 1}, 'fixes-replace', 'a renamed element was not replaced')
    lab = make(d1)
    lab.add_labels({'l': 'x', 'new': 'y'})
    want = {(n, tuple(sorted({**dict(l0), 'l': 'x', 'new': 'y'}.items()))) for (n, l0) in d1}
    c.eq(set(as_dict(c, lab, 'x')) if len(want) == len(lab.values) else want, want, 'add-labels', 'wrong labels')
    stamped = [MetricData(n, v, dict(lab), rng.choice([None, 0, 0.5, 7]), rng.random() < 0.5) for (n, lab), v in d1.items()]
    for md in stamped:
        back = MetricData.from_json(json.loads(json.dumps(md.to_json())))
        c.eq((back.name, back.value, dict(back.labels), back.timestamp, back.internal),
             (md.name, md.value, dict(md.labels), md.timestamp, md.internal), 'json-one', 'changed by JSON')
        c.eq(MetricData.from_json(md.to_json('up')).name, 'up.' + md.name, 'json-prefix', 'wrong name')
    for other in ('x', 5, None, [one]):
        c.raises(TypeError, lambda: a + other, 'add-foreign', other=repr(other))
    c.eq(as_dict(c, a), d1, 'add-foreign', 'a refused addition modified its operand')
    when = rng.choice([0, 5.5, None])
    late = make(d1)
    c.expect(late.set_timestamp(when) is late and all(md.timestamp == when for md in late.values), 'set-timestamp')
    c.expect(late.set_value(when) is late and all(md.value == when for md in late.values), 'set-value')
    js = json.loads(json.dumps(a.to_json()))
    back = MetricDataCollection.from_json(js)
    c.expect(back.strict_eq(a) and {(m.name, m.internal) for m in back.values} == {(m.name, m.internal) for m in a.values}, 'json', 'changed by JSON')
    c.expect(MetricDataCollection.from_json(js).strict_eq(a), 'json-twice', 'the JSON was consumed by being read')
    vis = make(d1)
    vis.remove_internals()
    c.eq(as_dict(c, vis), {k: v for k, v in d1.items() if not internal[k[0]]}, 'remove-internals', 'wrong elements removed')


@CHECK.scenario(quick=80, thorough=1500)
def prometheus_text(c):
    """Any labels and values make the round trip through the text format"""
    rng = c.rng
    d = {}
    for _ in range(rng.randrange(6)):
        labels = {rng.choice(['a', 'b', 'lab_1']): ''.join(rng.choice(['x', '"', '\\', '\n', ' ', '}', '{', ',', '=', 'ż', 'n', '#'])
                                                            for _ in range(rng.randrange(5))) for _ in range(rng.randrange(3))}
        d[point(rng.choice(['x', 'x.y', 'q_z:w']), labels)] = rng.choice([0, 1, -5, 2.5, 1e300, 10 ** 20])
    ts = rng.choice([None, 0, 0.25, 5, 1.5, 1600000000.123])
    mdc = MetricDataCollection([MetricData(n, v, dict(lab), ts) for (n, lab), v in d.items()])
    text = metric_data_collection_to_prometheus(mdc)
    c.eq(parse_prometheus(c, text), {k: float(v) for k, v in prometheus_names(d).items()}, 'prometheus-roundtrip', 'wrong samples', text=text)
    for line in text.split('\n'):
        if line:
            c.expect(line.endswith('\n') is False and (ts is None) == (LINE.match(line).group(4) is None), 'prometheus-timestamp', 'wrong timestamp', line=line)
            if ts is not None:
                c.eq(int(LINE.match(line).group(4)), int(ts * 1000), 'prometheus-timestamp-value', 'wrong timestamp', line=line)


@CHECK.scenario(quick=40, thorough=800)
def others(c):
    """callable, uptime, empty"""
    rng = c.rng
    reset_all()
    state = {'v': 0, 't': 100.0}
    m = getMetric('call', 'callable', value_getter=lambda: state['v'])
    other = LabeledMetric(m, key=5, callable=lambda: state['v'] * 2)
    up = getMetric('sub.up', 'uptime', time_getter=lambda: state['t'])
    emp = getMetric('sub.emp', 'empty')
    with c.virtual_time() as vt:
        up2 = getMetric('up.default', 'uptime')
        for _ in range(3):
            vt.advance(rng.choice([0.25, 3, 100, 9999]))
            (point_,) = up2.to_metric_data().values
            c.eq(point_.value, vt.now - 1000.0, 'uptime', 'not the time elapsed')
            c.eq({p.timestamp for p in m.to_metric_data().values}, {time.time()}, 'callable-timestamp')
    getMetric('up').reset()
    for _ in range(5):
        state['v'] = rng.randrange(100)
        state['t'] += rng.random() * 10
        emp.runtime(5, x=7)
        c.eq(as_dict(c, getMetric('').to_metric_data()),
             {point('call', {}): state['v'], point('call', {'key': 5}): state['v'] * 2, point('sub.up', {}): state['t'] - 100.0},
             'others', 'wrong values')
    # a metric class of one's own
    @register_metric
    class Doubled(LeafMetric):
        CLASS_NAME = 'doubled-%d' % rng.randrange(3)
        last = None

        def _handle(self, value, **labels):
            self.last = value * 2

        def to_metric_data(self):
            return MetricDataCollection() if self.last is None else MetricDataCollection(MetricData(self.name, self.last, {}))
    own = getMetric('own.metric', Doubled.CLASS_NAME)
    c.expect(type(own) is Doubled and own is getMetric('own.metric', Doubled.CLASS_NAME), 'registered-class')
    c.raises(MetricAlreadyExists, lambda: getMetric('own.metric', 'int'), 'registered-class-conflict')
    own.runtime(21)
    c.eq(as_dict(c, getMetric('own').to_metric_data()), {point('own.metric', {}): 42}, 'registered-class')
    own.debug(50)
    c.eq(own.last, 42, 'registered-class', 'a report of too low a level got through')
    c.rec(Doubled.CLASS_NAME, state['v'], round(state['t'], 1))
    c.raises(TypeError, lambda: m.runtime(5), 'callable-fed')
    c.raises(TypeError, lambda: up.runtime(5), 'uptime-fed')
    c.raises(TypeError, lambda: getMetric('sub').runtime(5), 'container-fed')
    reset_all()


@CHECK.scenario(quick=40, thorough=1500)
def concurrent_reports(c):
    """Whatever the schedule, the totals agree once everybody is done, and exporting never fails in the meantime"""
    rng = c.rng
    reset_all()
    labelled = rng.random() < 0.6
    kind = rng.choice(['counter', 'summary', 'histogram', 'cps', 'linkfail', 'int', 'counter'])
    kw = {'counter': dict(count_calls=True), 'summary': dict(last_calls=50), 'histogram': dict(buckets=(1, 2)),
          'cps': dict(time_unit_vectors=[1000]), 'linkfail': {}, 'int': {}}[kind]
    plans = [[rng.choice(['u', 'v']) for _ in range(rng.randrange(1, 4))] for _ in range(3)]

    def body(_):
        m = getMetric('conc', kind, **kw)

        def worker(plan):
            def run():
                for lab in plan:
                    args = () if kind == 'cps' else (1.5,) if kind in ('summary', 'histogram') else (1,) if kind != 'linkfail' else (True,)
                    m.runtime(*args, **({'lab': lab} if labelled else {}))
            return run

        def reader():
            for _ in range(2):
                as_dict(c, m.to_metric_data())
                m.level = RUNTIME
        c.go(*[worker(p) for p in plans], reader)
        got.update(as_dict(c, m.to_metric_data()))
    got = {}
    c.sched(body, gran=rng.choice(['opcode', 'line']), max_steps=200000)
    total = sum(map(len, plans))
    per = {lab: sum(p.count(lab) for p in plans) for lab in 'uv'} if labelled else {None: total}
    for lab, n in per.items():
        if not n:
            continue
        L = {'lab': lab} if lab else {}
        want = {'counter': {point('conc', L): n, point('conc.count', L): n},
                'summary': {point('conc.count', L): n, point('conc.sum', L): n * 1.5},
                'histogram': {point('conc.count', L): n, point('conc.sum', L): n * 1.5, point('conc', {'le': 1, 'ge': 2, **L}): n},
                'cps': {point('conc', {'period': 1000, **L}): n},
                'linkfail': {point('conc.consecutive_successes', L): n, point('conc.consecutive_failures', L): 0},
                'int': {point('conc', L): 1}}[kind]
        for k, v in want.items():
            c.eq(got.get(k), v, 'concurrent-lost', 'values were lost or invented', point=k, kind=kind, plans=plans)
    if labelled:
        want = {'counter': {point('conc.sum', {}): total, point('conc.count', {}): total},
                'summary': {point('conc.count', {}): total, point('conc.sum', {}): total * 1.5},
                'histogram': {point('conc.total.count', {}): total, point('conc.total', {'le': 1, 'ge': 2}): total},
                'cps': {point('conc.total', {'period': 1000}): total}}.get(kind, {})
        for k, v in want.items():
            c.eq(got.get(k), v, 'concurrent-total-lost', 'values were lost or invented in the total', point=k, kind=kind, plans=plans)
    c.rec('end', (kind, labelled, plans))
    reset_all()


@CHECK.scenario(quick=30, thorough=800)
def concurrent_creation(c):
    """Threads asking for metrics of the same and overlapping names get one metric per name, each in the tree exactly once"""
    rng = c.rng
    reset_all()
    paths = ['a', 'a.b', 'a.b.x', 'a.y', 'b.x']
    kinds = {'a': 'base', 'a.b': 'base', 'a.b.x': 'counter', 'a.y': 'counter', 'b.x': 'counter'}
    plans = [[rng.choice(paths) for _ in range(3)] for _ in range(3)]
    got = []

    def body(_):
        def worker(plan):
            def run():
                for p in plan:
                    m = getMetric(p, kinds[p])
                    if kinds[p] == 'counter':
                        m.runtime(1)
                    got.append((p, m))
            return run
        c.go(*[worker(p) for p in plans])
    c.sched(body, gran='line')
    by = {}
    for p, m in got:
        by.setdefault(p, set()).add(id(m))
    c.expect(all(len(v) == 1 for v in by.values()), 'creation-two-objects', 'two objects of the same name', plans=plans)
    want = {}
    for plan in plans:
        for p in plan:
            if kinds[p] == 'counter':
                want[p, ()] = want.get((p, ()), 0) + 1
    c.eq(as_dict(c, getMetric('').to_metric_data()), want, 'creation-lost', 'reports were lost', plans=plans)
    reset_all()


@CHECK.scenario(quick=3, thorough=25)
def exporter_thread(c):
    """The HTTP exporter serves the current state under /metrics and nothing else, and quits upon being told"""
    rng = c.rng
    reset_all()
    enable = rng.random() < 0.5
    labels = rng.choice([{'service': 'a"b'}, {'service': 'x', 'host': 'y z'}, {}])
    th = PrometheusHTTPExporterThread('127.0.0.1', 0, *([labels] if labels else []), **({'enable_metric': enable} if enable else {}))
    th.start()
    try:
        for _ in range(200):
            port = th.httpd.server_address[1]
            if port:
                break
            time.sleep(0.01)
        m = getMetric('exp.value', 'int')
        hid = getMetric('exp.hidden', 'int', internal=True)
        for i in range(3):
            v = rng.randrange(1000)
            m.runtime(v)
            hid.runtime(v)
            for attempt in range(50):
                try:
                    conn = http.client.HTTPConnection('127.0.0.1', port, timeout=10)
                    conn.request('GET', '/metrics')
                    break
                except ConnectionError:
                    time.sleep(0.02)
            r = conn.getresponse()
            text = r.read().decode('utf-8')
            conn.close()
            c.eq(r.status, 200, 'exporter-status', 'wrong status')
            got = parse_prometheus(c, text)
            c.eq(got.get(point('exp_value', labels)), float(v), 'exporter-value', 'wrong value exported', text=text)
            c.expect(not any('hidden' in k[0] for k in got), 'exporter-internal', 'an internal metric is exported', text=text)
            if enable:
                c.eq({k[1] for k in got if k[0] == 'prometheus_exports_per_time'},
                     {tuple(sorted({'period': p, **labels}.items())) for p in ('1', '20', '60')}, 'exporter-periods', 'wrong periods')
        conn = http.client.HTTPConnection('127.0.0.1', port, timeout=10)
        conn.request('GET', '/other')
        c.eq(conn.getresponse().status, 404, 'exporter-404', 'wrong status')
        conn.close()
    finally:
        c.expect(th.terminate() is th, 'exporter-terminate-result')
        th.join(10)
    c.expect(not th.is_alive(), 'exporter-terminate', 'the exporter did not quit')
    reset_all()


@CHECK.scenario(quick=40, thorough=800)
def after_failures(c):
    """A report that cannot be made sense of, or a name that makes none, leaves everything usable for everybody"""
    def make(s):
        reset_all()
        out = []
        for kind in c.rng.sample(('int', 'float', 'counter', 'summary', 'histogram', 'cps', 'linkfail', 'quantile'), 2):
            m = getMetric('fails.' + kind, kind)

            def works(m=m, kind=kind):
                m.runtime(*(() if kind == 'cps' else (1,)))
                getMetric('').to_metric_data()
                m.level = RUNTIME
            out += [(lambda m=m: m.runtime(1, 2, 3, 4), works, kind + ' arguments'), (lambda m=m: m.runtime(1, lab=Unhashable()), works, kind + ' label')]
            if kind not in ('linkfail', 'cps'):
                out += [(lambda m=m: m.runtime('not a number'), works, kind + ' value'), (lambda m=m: m.runtime(None), works, kind + ' none')]
        out = [o for o in out if o[2] not in ('int value', 'int none', 'float value', 'float none')]
        other = getMetric('fails.int', 'int')

        def created():
            getMetric('brand.new%d' % len(out), 'int').runtime(1)
        out += [(lambda: getMetric('fails.int', 'counter'), created, 'kind conflict'), (lambda: getMetric('fails.new', 'no such kind'), created, 'unknown kind'),
                (lambda: getMetric('fails.other', 'int', metric_level=99), created, 'level'), (lambda: getMetric(5, 'int'), created, 'name'),
                (lambda: setattr(other, 'level', 99), created, 'set level')]
        return c.rng.sample(out, 3)
    not_locked_out(c, make)
    reset_all()


@CHECK.scenario(quick=60, thorough=2500)
def links_exported_meanwhile(c):
    """Exporting a linkfail metric never changes what it counts, and shows each address as it was at some moment"""
    rng = c.rng
    reset_all()
    labelled = rng.random() < 0.3
    plans = [(a, [rng.random() < 0.7 for _ in range(rng.randrange(1, 5))]) for a in rng.sample(range(12), rng.choice([1, 1, 1, 3, 12]))]
    rounds = rng.randrange(1, 4)
    workers = rng.randrange(1, 4)
    seen, got = [], {}
    slow = rng.choice([0, 2, 8])
    working = []
    c.rec(labelled, plans, rounds, workers, slow)

    def states(plan):
        link = [0, 0, 1]
        out = [tuple(link)]
        for ok in plan:
            link = [0, link[1] + 1, link[2]] if ok else [link[0] + 1, 0, link[2]]
            if ok and not link[2] and link[1] == 2:
                link[2] = 1
            elif not ok and link[2] and link[0] == 2:
                link[2] = 0
            out.append(tuple(link))
        return out

    def export(m):
        data = {}
        for v in m.to_metric_data().values:
            data.setdefault(v.labels.get('address', 0), {})[v.name.split('.')[-1]] = v.value
        return data

    def body(_):
        m = getMetric('links', 'linkfail', consecutive_failures_to_offline=2, consecutive_successes_to_online=2)

        class Address(int):
            """takes its time, also when it is being exported, if no other can appear in the meantime"""
            def __hash__(self):
                if slow and (len(plans) == 1 or threading.current_thread() in working):
                    time.sleep(rng.randrange(slow))
                return hash(int(self))

        def worker(i):
            def run():
                working.append(threading.current_thread())
                for address, plan in plans[i::workers]:
                    for ok in plan:
                        m.runtime(ok, Address(address), **({'lab': 'x'} if labelled else {}))
            return run

        def reader():
            for _ in range(rounds):
                time.sleep(rng.randrange(3))
                seen.append(export(m))
        c.go(*[worker(i) for i in range(workers)], reader)
        got.update(export(m))
    c.sched(body, gran=rng.choice(['opcode', 'opcode', 'line']), max_steps=200000)
    reset_all()
    names = ('consecutive_failures', 'consecutive_successes', 'status')
    for address, plan in plans:
        ways = states(plan)
        want = dict(zip(names, ways[-1]))
        c.eq(got.get(address), want, 'links-changed-by-exporting', 'counted something else', address=address, plan=plan)
        for data in seen:
            for i, name in enumerate(names):
                if address in data:
                    c.expect(data[address][name] in {w[i] for w in ways}, 'links-invented', name=name, got=data[address], plan=plan)


@CHECK.scenario(quick=6, thorough=200)
def many_children(c):
    """The total takes all of the labelled series, however many are there"""
    rng = c.rng
    reset_all()
    n, keep = rng.randrange(15, 60), rng.randrange(1, 4)
    c.rec(n, keep)
    m = getMetric('crowd', 'summary', last_calls=keep, quantiles=[0, 0.5, 1])
    windows = {}
    for _ in range(n * keep * 2):
        lab, v = rng.randrange(n), rng.randrange(10 ** 6)
        m.runtime(v, lab=lab)
        windows[lab] = (windows.get(lab, []) + [v])[-keep:]
    data = as_dict(c, m.to_metric_data())
    values = sorted(v for w in windows.values() for v in w)
    for q in (0, 0.5, 1):
        c.eq(data.get(point('crowd.total', {'quantile': q})), quantile(values, q), 'crowd-total', q=q)
        for lab, w in windows.items():
            c.eq(data.get(point('crowd', {'quantile': q, 'lab': lab})), quantile(w, q), 'crowd-own', q=q, lab=lab)
    reset_all()


@CHECK.scenario(quick=4, thorough=100)
def long_histories(c):
    """Numbers of calls and thresholds that are by no means small"""
    rng = c.rng
    reset_all()
    log = []
    down, up, keep = rng.randrange(257, 600), rng.randrange(257, 600), rng.randrange(257, 600)
    c.rec(down, up, keep)
    link = getMetric('long.link', 'linkfail', consecutive_failures_to_offline=down, consecutive_successes_to_online=up,
                     callback_on_online=lambda a, lab: log.append(('up', a)), callback_on_offline=lambda a, lab: log.append(('down', a)))
    for i in range(down + rng.randrange(3)):
        c.eq(log, [('down', 0)] if i >= down else [], 'linkfail-down', i=i)
        link.runtime(False)
    for i in range(up + rng.randrange(3)):
        c.eq(log, [('down', 0), ('up', 0)] if i >= up else [('down', 0)], 'linkfail-up', i=i)
        link.runtime(True)
    c.eq(log, [('down', 0), ('up', 0)], 'linkfail-up')
    default = getMetric('long.default', 'linkfail', callback_on_online=lambda a, lab: log.append('up'), callback_on_offline=lambda a, lab: log.append('down'))
    del log[:]
    for i in range(100):
        c.eq(log, [], 'linkfail-default', i=i)
        default.runtime(False)
    for i in range(10):
        c.eq(log, ['down'], 'linkfail-default', i=i)
        default.runtime(True)
    c.eq(log, ['down', 'up'], 'linkfail-default')
    calls = getMetric('long.calls', 'summary', last_calls=keep, quantiles=[0, 0.5, 1])
    reported = [rng.randrange(100000) for _ in range(keep + rng.randrange(1, 300))]
    for v in reported:
        calls.runtime(v)
    got = as_dict(c, calls.to_metric_data())
    last = sorted(reported[-keep:])
    c.eq(got.get(point('calls', {'quantile': 'p0'}), got.get(point('calls', {'quantile': 0}))), last[0], 'long-summary', keys=repr(list(got))[:300])
    c.eq(got[point('calls.count', {})], len(reported), 'long-summary-count')
    c.eq(got[point('calls.sum', {})], sum(reported), 'long-summary-sum')
    for name, value in (('long.int', 5), ('long.float', 2.75)):
        m = getMetric(name, name.split('.')[1])
        for _ in range(3):
            value = value * 1000 + 1
            m.runtime(value)
        c.eq(list(as_dict(c, m.to_metric_data()).values()), [value], 'long-value')
    reset_all()


@CHECK.scenario(quick=60, thorough=1500)
def own_labels(c):
    """Labels and internality given upon creation are on every point the metric gives"""
    rng = c.rng
    reset_all()
    mine = {k: rng.choice(['x', 'y', 7]) for k in rng.sample(['host', 'port', 'zone'], rng.randrange(1, 4))}
    internal = rng.random() < 0.4
    kind = rng.choice(['counter', 'int', 'float', 'summary', 'histogram', 'cps', 'linkfail', 'callable', 'uptime'])
    kw = {'labels': dict(mine)}
    if internal:
        kw['internal'] = True
    if kind == 'callable':
        kw['value_getter'] = lambda: 5
    stamped = rng.random() < 0.5 and kind not in ('callable', 'uptime')
    if stamped:
        kw['enable_timestamp'] = True
    level = rng.choice([None, RUNTIME])
    c.rec(kind, internal, stamped, sorted(mine.items(), key=repr))
    m = getMetric('own.labels', kind, level, **kw)
    extra = {}
    if kind == 'callable' and rng.random() < 0.7:
        extra = {'more': 'z'} if rng.random() < 0.5 else {'more': 'z', 'host': 'other'}
        lm = LabeledMetric(m, callable=lambda: 6, **extra)      # noqa - kept
    args = () if kind == 'cps' else (True,) if kind == 'linkfail' else (1,)
    if kind not in ('callable', 'uptime'):
        m.runtime(*args)
    points = list(m.to_metric_data().values)
    c.expect(points, 'own-labels-nothing', 'no points')
    plain = 0
    for p in points:
        have = {k: v for k, v in p.labels.items() if k not in ('quantile', 'le', 'ge', 'period')}
        if extra and 'more' in have:
            c.eq((have, p.value), ({**mine, **extra}, 6), 'own-labels-labeled', 'labels of a labeled callable')
        else:
            plain += 1
            c.eq(have, mine, 'own-labels', 'labels of a point', kind=kind, point=p.name)
        c.eq(p.internal, internal, 'own-internal', 'internality of a point', kind=kind, point=p.name)
        if stamped:
            c.expect(p.timestamp is not None, 'own-timestamp', 'no timestamp', kind=kind, point=p.name)
    c.expect(plain, 'own-labels-nothing', 'no points of the metric itself')
    if kind == 'callable':
        c.eq(kw['labels'], mine, 'own-labels-changed', 'the labels given were changed')
    reset_all()


@CHECK.scenario(quick=60, thorough=2000)
def reset_and_again(c):
    """Branches that have been reset, and metrics made anew in them, stay apart"""
    rng = c.rng
    names = ['ra.%s' % x for x in 'pqr'][:rng.randrange(2, 4)]
    reset_all()
    expected = {}
    for round_ in range(rng.randrange(1, 4)):
        for name in names:
            if rng.random() < 0.7:
                getMetric(name + '.x', 'int').runtime(round_)
                expected[name + '.x'] = round_
        for name in rng.sample(names, rng.randrange(len(names) + 1)):
            try:
                metric = getMetric(name)
                metric.reset()
            except MetricAlreadyExists:
                continue
            expected.pop(name + '.x', None)
            if rng.random() < 0.5:
                # the object that has been reset can be used on
                c.count('reset')
        c.rec(sorted(expected.items()))
        got = {v.name: v.value for v in getMetric('').to_metric_data().values if v.name.startswith('ra.')}
        c.eq(got, expected, 'only-its-own', round=round_)


@CHECK.scenario(quick=40, thorough=1500)
def reset_meanwhile(c):
    """Metrics made by some threads while another thread resets another branch are all there afterwards"""
    rng = c.rng
    reset_all()
    plans = [[rng.choice('xyz') for _ in range(rng.randrange(1, 3))] for _ in range(rng.randrange(1, 3))]
    deep = rng.random() < 0.3
    c.rec(plans, deep)
    made = []

    def body(_):
        getMetric('other.' + ('deep.' if deep else '') + 'm', 'int').runtime(1)
        getMetric('kept', 'int').runtime(7)

        def maker(i, plan):
            def run():
                for n in plan:
                    m = getMetric('b%d.%s' % (i, n), 'counter')
                    m.runtime(1)
                    made.append(('b%d.%s' % (i, n), m))
            return run

        def resetter():
            getMetric('other').reset()
        c.go(resetter, *[maker(i, p) for i, p in enumerate(plans)])
        for name, m in made:
            c.expect(getMetric(name, 'counter') is m, 'reset-took-another', name=name)
        got = {v.name: v.value for v in getMetric('').to_metric_data().values if v.name.startswith(('b', 'other.', 'kept'))}
        want = {name: sum(1 for x, _ in made if x == name) for name, _ in made}
        c.eq(got, dict(want, kept=7), 'reset-took-values')
    c.sched(body, gran=rng.choice(['opcode', 'line']), max_steps=200000)
    reset_all()
