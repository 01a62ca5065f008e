"""Which lines of satella were executed in a worker, by scenario. Used by tools/cov.py and tools/mutate.py only, never by checks"""
import os
import sys
import tempfile

TOOL = 3
HITS = set()
NAME = ['import']


def start(repo):
    prefix = os.path.join(repo, 'satella') + os.sep
    m = sys.monitoring

    def on_line(code, line):
        if code.co_filename.startswith(prefix):
            HITS.add((NAME[0], code.co_filename, line))
        return m.DISABLE

    m.use_tool_id(TOOL, 'linecov')
    m.register_callback(TOOL, m.events.LINE, on_line)
    m.set_events(TOOL, m.events.LINE)


def scenario(name):
    NAME[0] = name
    sys.monitoring.restart_events()


def dump():
    fd, path = tempfile.mkstemp(dir=os.environ['VERIF_COV'], suffix='.cov')
    with os.fdopen(fd, 'w') as f:
        for name, path, line in sorted(HITS):
            f.write('%s:%s:%s\n' % (name, path, line))
