"""C24 logged records are read back and filtered exactly"""
import contextlib
import io
import logging
import os
import shutil
import tempfile
import datetime as dtm

from contracts.common import *
from pyvc.core import short

reg = Registry('C24')
reg.assumptions += ['logging.handlers.RotatingFileHandler appends one line per record and rotates the file as documented',
                    'datetime.strptime reads the given format (stand-in in the proofs: any times)']
LO = IG + 'logging.ignis_logging'
LABEL = 'ignis_logging'


def lg():
    import qiskit.ignis.logging as m
    return m


# --------------------------------------------------- the filters of the reader
class Time:
    """stand-in for datetime: a point in (symbolic) time"""
    table = {}

    def __init__(self, t):
        self.t = t

    def __lt__(self, o): return self.t < o.t
    def __le__(self, o): return self.t <= o.t
    def __gt__(self, o): return self.t > o.t
    def __ge__(self, o): return self.t >= o.t

    @staticmethod
    def strptime(s, fmt):
        if (s, fmt) not in Time.table:
            raise ValueError('time data %r does not match format %r' % (s, fmt))
        return Time.table[(s, fmt)]


class Files(dict):
    """stand-in for open"""

    def open(self, name, mode='r', *a, **k):
        if mode not in ('r', 'rt'):
            raise Unsupported('open ' + mode)
        return io.StringIO(self[name])


FILES = Files()
FMT = '%Y/%m/%d %H:%M:%S'


def stamp(k):
    return '2019/08/04 13:27:%02d' % k


def bound(v, name, how):
    """(argument, format argument, time) of a bound of the window"""
    if how == 'none':
        return None, None, None
    if v.symbolic:
        t = v.int(name, 0, 100)
        if how == 'datetime':
            return Time(t), None, t
        fmt = FMT if how == 'string' else '%d.%m. %H'
        Time.table[(name, fmt)] = Time(t)
        return name, (None if how == 'string' else fmt), t
    t = v.int(name, 0, 59)
    d = dtm.datetime(2019, 8, 4, 13, 27, t)
    if how == 'datetime':
        return d, None, t
    if how == 'string':
        return d.strftime(FMT), None, t
    return d.strftime('%S-%M-%H %d.%m.%Y'), '%S-%M-%H %d.%m.%Y', t


HOW = ['none', 'datetime', 'string', 'format']


@reg.contract(LO + ':IgnisLogReader.read_values; _filter_by_datetime', mode='S', sizes=[dict(n=n, a=a, b=b) for n in (1, 2) for a in HOW for b in HOW],
              rsizes=[dict(n=n, a=a, b=b) for n in (1, 6) for a in HOW for b in HOW], samples=3, mods=[LO], extra={'datetime': Time, 'open': FILES.open})
def window(v, n, a, b):
    """all times of the records and bounds: exactly the records between the bounds,
    both included, in the order of the file"""
    ts, rows = [], []
    Time.table.clear()
    for k in range(n):
        if v.symbolic:
            t, s = v.int('t%d' % k, 0, 100), stamp(k)
            Time.table[(s, FMT)] = Time(t)
        else:
            t = v.int('t%d' % k, 0, 59)
            s = stamp(t)
        ts.append(t)
        rows.append((s, "'k%d':'v%d'" % (k % 2, k)))
    fa, ff, ft = bound(v, 'from', a)
    ta, tf, tt = bound(v, 'to', b)
    keys = v.choice('keys', [None, ['k0'], ['k1', 'k0']])
    text = ''.join('%s %s %s\n' % (s, LABEL, kv) for s, kv in rows)
    with given_file(v, text) as name:
        got = lg().IgnisLogReader().read_values(v.choice('arg', ['string', 'list']) == 'list' and [name] or name, keys=keys, from_datetime=fa, from_datetime_format=ff, to_datetime=ta, to_datetime_format=tf)
    i = 0
    for t, (s, kv) in zip(ts, rows):
        inside = and_(True if ft is None else ft <= t, True if tt is None else t <= tt)
        if keys is not None and kv.split(':')[0].strip("'") not in keys:
            inside = False
        row = s.split() + [kv]
        if i < len(got) and list(got[i]) == row:
            v.ensure('only records inside the window', inside, lambda: short((row, fa, ta)))
            i += 1
        else:
            v.ensure('every record inside the window', not_(inside), lambda: short((row, got, fa, ta)))
    v.ensure('nothing else', i == len(got), lambda: short(got))


@contextlib.contextmanager
def given_file(v, text):
    if v.symbolic:
        FILES.clear()
        FILES['log'] = text
        yield 'log'
        return
    d = tempfile.mkdtemp(prefix='c24-')
    try:
        p = os.path.join(d, 'x.log')
        with open(p, 'w') as f:
            f.write(text)
        yield p
    finally:
        shutil.rmtree(d)


NAMES = ['a', 'ab', 'b', 't1']


@reg.contract(LO + ':IgnisLogReader.read_values; _filter_keys', mode='S', sizes=[dict(n=n) for n in (1, 2)], rsizes=[dict(n=n) for n in (1, 3, 6)], samples=12, mods=[LO], extra={'open': FILES.open})
def keyfilter(v, n):
    """all records over a set of keys, all filters: exactly the pairs with the given
    keys, records without any are left out"""
    rows = []
    for k in range(n):
        m = v.choice('m%d' % k, [1, 2])
        pairs = []
        for j in range(m):
            name = v.choice('k%d_%d' % (k, j), NAMES[:4 - n] if v.symbolic else NAMES)
            val = v.choice('v%d_%d' % (k, j), ['1', 'x y'] if v.symbolic else ['1', 'x:y', 'a', '[1, 2, 4]', "{'a': 1, 'b': 2}", '', '0.5  s', '[[1 0]\n [0 1]]'])
            pairs.append((name, val))
        rows.append((stamp(k), pairs))
    keys = v.choice('keys', [None, ['a'], ['b', 'ab']] if v.symbolic else [None, ['a'], ['b', 'ab'], ['t1', 'zz'], [], ('a', 't1')])
    text = ''.join("%s %s %s\n" % (s, LABEL, ''.join("'%s':'%s' " % p for p in pairs)) for s, pairs in rows)
    with given_file(v, text) as name:
        got = lg().IgnisLogReader().read_values(name, keys=keys)
    want = []
    for s, pairs in rows:
        p = ["'%s':'%s'" % x for x in pairs if keys is None or x[0] in keys]
        if p:
            want.append(s.split() + p)
    v.ensure('exactly the matching pairs', [list(r) for r in got] == want, lambda: short((got, want)))


# -------------------------------------------------------------- whole system
SERIAL = [0]


class Scene:
    """a scratch home and working directory, a fresh logging facility"""

    def __init__(self):
        self.home = tempfile.mkdtemp(prefix='c24-')
        self.loggers = []

    def __enter__(self):
        self.m = lg()
        if not hasattr(self.m.IgnisLogging, '_reset_to_defaults'):
            raise Skip('no reset of the singleton')
        self.m.IgnisLogging._reset_to_defaults('none')
        self.env = os.environ.get('HOME')
        self.cwd = os.getcwd()
        self.cls = logging.getLoggerClass()
        os.environ['HOME'] = self.home
        self.work = os.path.join(self.home, 'Work')
        os.mkdir(self.work)
        os.chdir(self.work)
        self.err = io.StringIO()
        self.ctx = contextlib.redirect_stderr(self.err)
        self.ctx.__enter__()
        return self

    def __exit__(self, *a):
        self.ctx.__exit__(None, None, None)
        for n in self.loggers:
            lo = logging.getLogger(n)
            for h in (getattr(lo, '_file_handler', None),):
                if h is not None:
                    h.close()
            self.m.IgnisLogging._reset_to_defaults(n)
            self.m.IgnisLogging()                     # the next reset acts again
        self.m.IgnisLogging._reset_to_defaults('none')
        os.chdir(self.cwd)
        if self.env is None:
            os.environ.pop('HOME', None)
        else:
            os.environ['HOME'] = self.env
        logging.setLoggerClass(self.cls)
        shutil.rmtree(self.home)
        return False

    def config(self, text, path=None):
        if path is None:
            os.makedirs(os.path.join(self.home, '.qiskit'), exist_ok=True)
            path = os.path.join(self.home, '.qiskit', 'logging.yaml')
        with open(path, 'w') as f:
            f.write(text)
        return path

    def logger(self, k=0):
        name = 'c24logger%d' % SERIAL[0] + '_x' * k
        self.loggers.append(name)
        return self.m.IgnisLogging().get_logger(name)

    def files(self):
        out = []
        for d, _, fs in os.walk(self.home):
            out += [os.path.join(d, f) for f in fs if f != 'logging.yaml']
        return sorted(out)


VALUES = [0, 1.5, 'text', [1, 2, 4], {'a': 'b', 'c': [1]}, (1, 'x'), None, 'two  words', "it's", 'k:v', '%s %d', 'a,b;c#d', np.array([[1, 0], [0, 1]]), '', '1e-3 s', 'üñ', "'", '{}']


def random_record(v, k):
    r = nprng(v, 'r%s' % k)
    names = ['t1', 'qubits', 'T1', 'x', 'name2', 'key_3', 'a']
    pick = r.permutation(len(names))[:1 + r.randint(4)]
    return {names[i]: VALUES[r.randint(len(VALUES))] for i in pick}


def as_row(rec):
    return ["'%s':'%s'" % (k, x) for k, x in rec.items()]


@reg.contract(LO + ':IgnisLogger.log_to_file; enable/disable; IgnisLogging.get_logger; IgnisLogReader', mode='B', sizes=[dict(conf=c) for c in ('none', 'true', 'false', 'wrong')], samples=8)
def histories(v, conf):
    """sequences of requests of loggers, enabling, disabling and logging"""
    SERIAL[0] += 1
    with Scene() as s:
        if conf != 'none':
            s.config({'true': 'file_logging: true\n', 'false': 'file_logging: false\n', 'wrong': 'file_loggin: true\nmax_size: x\n'}[conf])
        on = {}
        want = []
        r = nprng(v)
        start = dtm.datetime.now().replace(microsecond=0)
        for step in range(12):
            k = int(r.randint(2))
            op = ['log', 'log', 'log', 'get', 'enable', 'disable', 'info'][r.randint(7)]
            if k not in on or op == 'get':
                lo = s.logger(k)
                on[k] = conf == 'true' or on.get(k, False)
            else:
                lo = logging.getLogger(s.loggers[0].split('_x')[0] + '_x' * k)
            if op == 'enable':
                lo.enable_file_logging()
                on[k] = True
            elif op == 'disable':
                lo.disable_file_logging()
                on[k] = False
            elif op == 'info':
                lo.warning('message %d', step)
                v.ensure('other messages are printed', 'message %d' % step in s.err.getvalue())
            elif op == 'log':
                rec = random_record(v, step)
                before = s.err.getvalue()
                lo.log_to_file(**rec)
                if on[k]:
                    want.append(as_row(rec))
                    v.ensure('data are not printed', s.err.getvalue() == before)
        if not want:
            v.ensure('nothing is written', s.files() == [], lambda: short(s.files()))
            return
        v.ensure('the configured file only', s.files() == [os.path.join(s.work, 'ignis.log')], lambda: short(s.files()))
        with open(s.files()[0], encoding='utf-8') as f:
            v.ensure('other messages are not written to the file', 'message' not in f.read())
        rd = s.m.IgnisLogReader()
        v.ensure('the reader finds it', rd.get_log_files() == [os.path.join(s.work, 'ignis.log')])
        got = rd.read_values()
        v.ensure('one row per record, same keys and values, in order', [g[2:] for g in got] == want, lambda: short((got, want)))
        end = dtm.datetime.now()
        times = [dtm.datetime.strptime(' '.join(g[:2]), FMT) for g in got]
        v.ensure('time of the record', all(start <= t <= end for t in times), lambda: short(times))
        keys = v.choice('keys', [['t1'], ['qubits', 'x'], ['none'], ['T1', 'a', 'key_3']])
        sel = [[p for p in w if p.split("'")[1] in keys] for w in want]
        v.ensure('exactly the matching pairs', [g[2:] for g in rd.read_values(keys=keys)] == [x for x in sel if x])
        v.ensure('window around', len(rd.read_values(from_datetime=start, to_datetime=end)) == len(want))
        v.ensure('window before', rd.read_values(to_datetime=start - dtm.timedelta(seconds=1)) == [])
        v.ensure('window after', rd.read_values(from_datetime=(end + dtm.timedelta(seconds=2)).strftime(FMT)) == [])


@reg.contract(LO + ':IgnisLogging._load_config_file; _initialize; get_log_file; get_file_handler', mode='B', sizes=[dict(where=w) for w in ('home', 'given')], samples=15)
def configuration(v, where):
    """configuration files: the given values, however written"""
    SERIAL[0] += 1
    with Scene() as s:
        fname = v.choice('file', [None, 'my.log', 'My Log.LOG', 'a+b(1).log', 'x[1].log', 'c:d.log', 'SUB/f.log', 'ABS'])
        path = None if fname is None else os.path.join(s.home, 'Abs.Log') if fname == 'ABS' else fname
        if fname == 'SUB/f.log':
            os.mkdir(os.path.join(s.work, 'SUB'))
        enabled = v.choice('enabled', ['true', 'True', 'TRUE', 'false', 'yes', None])
        size, rot = v.choice('size', [None, '0', '200', 'abc']), v.choice('rot', [None, '0', '3', '-1', '25'])
        lines = []
        for key, val in (('file_logging', enabled), ('log_file', path), ('max_size', size), ('max_rotations', rot)):
            if val is not None:
                kk = v.choice('case' + key, [key, key.upper()])
                lines.append(v.choice('style' + key, ['%s: %s', '  %s :  %s  # comment: x', '%s:%s', '%s:\t%s\t#x']) % (kk, val))
        r = nprng(v)
        lines = [lines[i] for i in r.permutation(len(lines))]
        if v.choice('noise', [False, True]):
            lines.insert(0, '# file_logging: true')
            lines.append('other: 1')
            lines.append('')
        if where == 'home':
            s.config('\n'.join(lines) + '\n')
            m = s.m.IgnisLogging()
        else:
            m = s.m.IgnisLogging(s.config('\n'.join(lines), os.path.join(s.home, 'logging.yaml')))
        want = path or 'ignis.log'
        v.ensure('log file', m.get_log_file() == want, lambda: short((m.get_log_file(), want)))
        v.ensure('one object', s.m.IgnisLogging() is m)
        lo = s.logger()
        n = 12 if size == '200' and rot != '25' else 60
        for i in range(n):
            lo.log_to_file(i=i)
        full = os.path.join(s.work, want)
        if (enabled or '').lower() != 'true':
            v.ensure('nothing is written', s.files() == [], lambda: short(s.files()))
            return
        sz = int(size) if size in ('0', '200') else 0
        nr = int(rot) if rot in ('0', '3', '25') else 0
        if sz and nr:
            k = 1
            # 43 or 44 bytes per record, 4 per file, the last file not full
            v.ensure('rotated files', s.files() == sorted([full] + [full + '.%d' % i for i in range(1, len(s.files()))]) and len(s.files()) >= n // 4, lambda: short(s.files()))
        else:
            v.ensure('one file', s.files() == [full], lambda: short((s.files(), full)))
        rd = s.m.IgnisLogReader()
        v.ensure('the reader finds the files', sorted(rd.get_log_files()) == s.files(), lambda: short(rd.get_log_files()))
        got = sorted(int(g[2].split("'")[3]) for g in rd.read_values())
        v.ensure('all records are read', got == list(range(n)), lambda: short(got))


@reg.contract(LO + ':IgnisLogReader.get_log_files', mode='B', samples=8)
def only_log_files(v):
    """files with similar names are not taken for log files"""
    SERIAL[0] += 1
    with Scene() as s:
        s.config('file_logging: true\nlog_file: run.log\n')
        s.logger().log_to_file(a=1)
        for other in ('run.log.bak', 'run.logx', 'run.log.1x', 'run.log_1', 'xrun.log', 'runxlog', 'run.log2'):
            if v.choice(other, [True, False]):
                with open(other, 'w') as f:
                    f.write("2019/08/04 13:27:00 %s 'a':'2'\n" % LABEL)
        rot = v.choice('rot', [[], ['run.log.1'], ['run.log.1', 'run.log.10'], ['run.log.%d' % i for i in range(1, 13)]])
        for k, p in enumerate(rot):
            with open(p, 'w') as f:
                f.write("2019/08/04 13:27:00 %s 'a':'3'\n" % LABEL)
            os.utime(p, (1000 - k, 1000 - k))
        got = s.m.IgnisLogReader().get_log_files()
        v.ensure('log files, oldest first', got == [os.path.join(s.work, p) for p in rot[::-1] + ['run.log']], lambda: short(got))


@reg.contract(LO + ':IgnisLogReader (rejection)', mode='B', samples=3)
def reject(v):
    with given_file(v, "2019/08/04 13:27:00 %s 'a':'2'\n" % LABEL) as p:
        rd = lg().IgnisLogReader()
        v.ensure_raises('wrong time', ValueError, rd.read_values, p, from_datetime='yesterday')
        v.ensure_raises('wrong time', ValueError, rd.read_values, p, to_datetime='2019/08/04')


# ----------------------------------------------------------------- any number of records
from contracts import ulib as UL


class AnyTime:
    """stand-in for datetime on records of arbitrary number"""

    def __init__(self, t):
        self.t = t

    def __lt__(self, o): return self.t < o.t
    def __le__(self, o): return self.t <= o.t
    def __gt__(self, o): return self.t > o.t
    def __ge__(self, o): return self.t >= o.t

    @staticmethod
    def strptime(s, fmt):
        if isinstance(s, UL.unb.Formatted) and s.fmt[0] == '%s %s' and [getattr(p, 'pos', None) for p in s.fmt[1]] == [0, 1]:
            if fmt != FMT:
                raise UL.Unsupported('format of a record')
            u = UL.Engine.of(UL.core.cur())
            return AnyTime(UL.Sym(u.fun('time', UL.STRING, UL.I)(s.fmt[1][0].t)))
        return Time.strptime(s, fmt)


class Row:
    """one row of a log file: date, time, label, pairs"""

    def __init__(self, t):
        self.t = t

    def split(self, sep=None, maxsplit=-1):
        if sep is not None or maxsplit != 3:
            raise UL.Unsupported('split')
        return self

    def __getitem__(self, k):
        if isinstance(k, slice) and (k.start or 0, k.stop) == (0, 2):
            return Stamp(self)
        if isinstance(k, slice) and (k.start, k.stop) == (3, None):
            return [self]
        raise UL.Unsupported('part of a row')


class Stamp:
    def __init__(self, row):
        self.row = row

    def __getitem__(self, k):
        p = UL.Obj(self.row.t)
        p.pos = k
        return p

    def __add__(self, o):
        if not isinstance(o, Pairs) or not o.row.t.eq(self.row.t):
            raise UL.Unsupported('pairs of another row')
        return UL.Obj(UL.Engine.of(UL.core.cur()).fun('record_filtered' if o.filtered else 'record', UL.STRING, UL.STRING)(self.row.t))


class Pairs:
    def __init__(self, row, filtered=False):
        self.row, self.filtered = row, filtered

    def some(self):
        return UL.SymBool(UL.Engine.of(UL.core.cur()).fun('some_filtered' if self.filtered else 'some', UL.STRING, UL.B)(self.row.t))

    def __bool__(self):
        return bool(self.some())

    def symlen(self):
        raise UL.Unsupported('number of pairs')


class AnyReader:
    """self of the reader: the parts that read text are contracts of their own"""

    def _split_rows(self, text):
        return text

    def _split_pairs(self, row):
        return Pairs(row)

    def _filter_keys(self, kv, keys):
        if kv.filtered or keys != ['k']:
            raise UL.Unsupported('filter')
        return Pairs(kv.row, True)

    def _filter_by_datetime(self, *a):
        return UL.twin(LO, 'IgnisLogReader._filter_by_datetime', {'datetime': AnyTime})(self, *a)

    def get_log_files(self):
        raise UL.Unsupported('files')


@reg.contract(LO + ':IgnisLogReader.read_values (any number of records)',
              sizes=[dict(a=a, b=b, keys=k) for a in ('none', 'datetime', 'string') for b in ('none', 'datetime') for k in (False, True)], **UL.U)
def any_records(v, a, b, keys):
    """files with any number of records: those inside the window with a pair asked for, in order, and no others"""
    u = UL.Engine.of(v)
    row = u.fun('row', UL.I, UL.STRING)
    n = v.int('n', 0)
    rows = UL.Seq(n, lambda i: Row(row(i)), ('rows', ()))

    def bnd(name, how):
        if how == 'none':
            return None, None
        t = v.int(name)
        if how == 'datetime':
            return AnyTime(t), t
        Time.table[(name, FMT)] = AnyTime(t)
        return name, t
    fa, ta = bnd('from', a)
    fb, tb = bnd('to', b)

    @contextlib.contextmanager
    def op(name, mode='r', *r, **k):
        f = UL.Bag()
        f.read = lambda: rows
        yield f
    got = UL.twin(LO, 'IgnisLogReader.read_values', {'open': op, 'datetime': AnyTime})(
        AnyReader(), log_files='log', keys=['k'] if keys else None, from_datetime=fa, to_datetime=fb)
    i = v.int('i', 0)
    v.require(i < n)
    t = UL.Sym(u.fun('time', UL.STRING, UL.I)(row(i.t)))
    want = UL.SymBool(u.fun('some_filtered' if keys else 'some', UL.STRING, UL.B)(row(i.t)))
    for lo, x in ((True, ta), (False, tb)):
        if x is not None:
            want = and_(want, t >= x if lo else t <= x)
    q = got.seq
    if q is None or q.prev is not None or u.seqid(q) != ('rows', ()):
        raise UL.Unsupported('result')
    g = q.guard(i.t) if q.guard is not None else True
    v.ensure('exactly the records asked for', UL.iff(g, want))
    v.ensure('record with its time and pairs', UL.SymBool(q.elem(i.t).t == u.fun('record_filtered' if keys else 'record', UL.STRING, UL.STRING)(row(i.t))))


class Pair(UL.Obj):
    """'key':'value'"""

    def split(self, sep):
        if sep != ':':
            raise UL.Unsupported('split')
        return [KeyPart(UL.Engine.of(UL.core.cur()).fun('key', UL.STRING, UL.STRING)(self.t))]


class KeyPart(UL.Obj):
    def strip(self, c):
        if c != "'":
            raise UL.Unsupported('strip')
        return UL.Str(self.t)


class KeySet:
    def contains(self, k):
        return UL.SymBool(UL.Engine.of(UL.core.cur()).fun('asked', UL.STRING, UL.B)(k.t))

    def __contains__(self, k):
        return bool(self.contains(k))


@reg.contract(LO + ':IgnisLogReader._filter_keys (any number of pairs and keys)', **UL.U)
def any_pairs(v):
    """any number of pairs and keys: exactly the pairs with the keys, in order"""
    u = UL.Engine.of(v)
    n = v.int('n', 0)
    pair = u.fun('pair', UL.I, UL.STRING)
    got = UL.twin(LO, 'IgnisLogReader._filter_keys')(None, UL.Seq(n, lambda i: Pair(pair(i)), ('pairs', ())), KeySet())
    i = v.int('i', 0)
    v.require(i < n)
    q = got.seq if isinstance(got, UL.State) else got
    if q is None or q.prev is not None or u.seqid(q) != ('pairs', ()):
        raise UL.Unsupported('result')
    g = q.guard(i.t) if q.guard is not None else True
    v.ensure('exactly the pairs asked for', UL.iff(g, UL.SymBool(u.fun('asked', UL.STRING, UL.B)(u.fun('key', UL.STRING, UL.STRING)(pair(i.t))))))
    v.ensure('the pair itself', UL.SymBool(q.elem(i.t).t == pair(i.t)))
