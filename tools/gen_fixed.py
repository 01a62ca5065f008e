"""Records every fix: commit of /repo in known_findings.json, as 'fixed: property=<id> <commit> <what failed>'"""
import json, os, subprocess, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [  # (regexp on message, property) goes first, then (prefix of a file, property)
    ('imported first', 'C34'), ('LockedDataset|MonitorSet|MonitorDict|MonitorList', 'C01'), ('AtomicNumber', 'C02'), ('Condition.notify_all', 'C04'),
    ('futures of functions called in a thread', 'C05'), ('SingleStartThread', 'C03'), ('singletons', 'C03'), ('DeferredValue', 'C03'),
    ('IDAllocator', 'C03'), ('MetrifiedExclusiveWritebackCache', 'C11'), ('cache_memoize|CacheDict', 'C10'), ('safe_wait', 'C06'),
    ('MetrifiedThreadPool', 'C27'), ('CallNoOftenThan', 'C07'), ('queue_get does not', 'C29'), ('sync_threadpool', 'C05'),
    ('rethrow_as|log_exceptions|CustomException', 'C29'), ('retry', 'C28'), ('measure', 'C26'), ('ListDeleter', 'C13'),
    ('comparing a JSONAble|__slots__', 'C18'), ('chain_callables|chain_functions', 'C28'), ('measured generators', 'C25'),
    ('cached failure', 'C10'), ('expiring|ExpiringEntry|SelfCleaning', 'C09'),
]
FILES = [
    ('coding/structures/dictionaries/cache_dict', 'C10'), ('coding/structures/dictionaries/writeback', 'C11'),
    ('coding/structures/dictionaries/expiring', 'C09'), ('coding/structures/dictionaries', 'C13'),
    ('coding/structures/heaps', 'C08'), ('coding/structures/syncable', 'C15'), ('coding/structures/sparse', 'C12'),
    ('coding/structures/sorted_list', 'C12'), ('coding/structures/ranking', 'C12'), ('coding/structures/queues', 'C04'),
    ('coding/structures/proxy', 'C14'), ('coding/structures/immutable', 'C13'), ('coding/structures/typednamed', 'C14'),
    ('coding/structures/mixins', 'C14'), ('coding/structures/hashable', 'C14'), ('coding/structures/singleton', 'C03'),
    ('coding/optionals', 'C14'), ('coding/predicates', 'C14'), ('coding/deleters', 'C13'), ('coding/sequences', 'C16'),
    ('coding/iterators', 'C16'), ('coding/generators', 'C16'), ('coding/transforms', 'C17'), ('coding/concurrent/locked', 'C01'),
    ('coding/concurrent/atomic', 'C02'), ('coding/concurrent/queue', 'C04'), ('coding/concurrent/futures', 'C05'),
    ('coding/concurrent/sync', 'C05'), ('coding/concurrent/thread', 'C06'), ('coding/concurrent/functions', 'C05'),
    ('coding/concurrent/callablegroup', 'C07'), ('coding/concurrent/timer', 'C07'), ('coding/concurrent/value', 'C03'),
    ('coding/concurrent/id_allocator', 'C03'), ('coding/decorators', 'C28'), ('coding/misc', 'C28'), ('coding/overloading', 'C28'),
    ('coding/metaclasses', 'C28'), ('coding/recast', 'C29'), ('coding/deep_compare', 'C30'), ('coding/resources', 'C32'),
    ('db.py', 'C32'), ('imports.py', 'C32'), ('dao.py', 'C32'), ('opentracing', 'C33'), ('debug', 'C33'), ('json.py', 'C18'),
    ('coding/environment', 'C35'), ('parsing.py', 'C19'), ('files.py', 'C20'), ('os/pidlock', 'C21'), ('os/', 'C22'), ('processes', 'C22'),
    ('configuration/schema', 'C23'), ('configuration/sources', 'C24'), ('instrumentation/metrics/structures/threadpool', 'C27'),
    ('instrumentation/metrics', 'C25'), ('instrumentation/trace_back', 'C29'), ('instrumentation/memory/dump', 'C30'),
    ('instrumentation', 'C31'), ('time/', 'C26'), ('exception', 'C29'),
]
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=C %h %s', '--name-only'], text=True)
out, cur = [], None
for line in log.splitlines() + ['C x end']:
    if line.startswith('C '):
        if cur and cur[1].startswith('fix: ') and cur[0] not in ('1730167', 'f7c6da2'):  # a repair and its reversal
            h, msg, files = cur
            msg = msg[5:]
            prop = next((p for r, p in MAP if re.search(r, msg)), None)
            if prop is None:
                prop = next((p for f in files for pre, p in FILES if f.replace('satella/', '', 1).startswith(pre)), None)
            assert prop, cur
            out.append('fixed: property=%s %s %s' % (prop, h, msg))
        cur = line.split(' ', 2)[1:] + [[]]
    elif line:
        cur[2].append(line)
p = os.path.join(HERE, 'known_findings.json')
d = json.load(open(p))
d['fixed'] = out
json.dump(d, open(p, 'w'), indent=1, ensure_ascii=False)
print(len(out))
