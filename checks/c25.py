"""C25: the log file."""
import datetime
import itertools
import os
import shutil
import tempfile
import time

from vlib import sched

ID = 'C25'
BOUNDS = {
    'quick': 'every sequence of <= 4 operations (log by three loggers, one the child of another, with '
             '1..2 pairs; enable, disable, get the logger again, read) in 4 configurations; every '
             'pair of 19 kinds of values with every key filter; configuration files over all '
             'spellings of 4 settings; every pair of date limits on a grid around the entries of two '
             'files, every subset of keys; every subset of 8 file names for the search; all '
             'interleavings at source line granularity of 2 threads logging 1..2 entries each with '
             '<= 2 preemptions (same logger, two loggers, parent and child; with and without '
             'rotation; first use and later); up to 25 entries over up to 13 files',
    'thorough': 'sequences of <= 5 operations, <= 3 preemptions, 3 threads with <= 1',
}
ASSUMPTIONS = ['loggers are obtained through IgnisLogging, from the thread that starts the others',
               'values do not contain text that looks like the next pair or the next entry',
               'configuration values contain no # (it starts a comment)']
TECHNIQUE = ('stateless model checking of the real code: every operation sequence to a depth, and every '
             'thread interleaving at line granularity up to a preemption bound under a controlled '
             'scheduler')
CASE_TIMEOUT = 900
LIB = '/repo/qiskit/ignis/logging'


def cases(tier):
    """All cases, simplest first."""
    deep = tier == 'thorough'
    for i, name in enumerate(NAMES):
        for flag in ('true', 'True', 'TRUE', 'false', 'tru', '', None):
            for how in ('home', 'path'):
                yield ['config', i, flag, '', '', how]
        for size, rot in itertools.product(('', '40', '1000', 'abc', '-5'), ('', '0', '2', 'x')):
            yield ['config', i, 'true', size, rot, 'home']
    for i in range(len(VALUES)):
        for j in range(len(VALUES)):
            yield ['values', i, j]
    for mask in range(256):
        for i in range(len(NAMES)):
            if i < 3 or mask % 5 == 0:
                yield ['files', mask, i]
    for i in range(-1, len(GRID)):
        for j in range(-1, len(GRID)):
            for kind in ('text', 'format', 'object', 'mixed', 'mixed2'):
                yield ['dates', i, j, kind]
    for config in ('none', 'true', 'false', 'rotate'):
        for k in range(1, 4):
            for seq in itertools.product(OPS, repeat=k):
                if useful(seq):
                    yield ['seq', config, ''.join(seq)]
    for rotations in (1, 9, 10, 12):
        for total in (1, rotations, rotations + 1, rotations + 2, 25):
            for reads in (0, 1):
                yield ['long', rotations, total, reads]
    threads = []
    for who in ('same', 'two', 'child'):
        for config in ('true', 'rotate'):
            for used in (0, 1):
                for per in (1, 2):
                    threads.append([who, config, used, per])
    parts = 6
    for who, config, used, per in threads:
        for part in range(parts):
            yield ['threads', who, config, used, [per, per], 2 if per == 1 or deep else 1, part,
                   parts]
    if deep:
        for who, config, used, _ in threads[::2]:
            for part in range(12):
                yield ['threads', who, config, used, [1, 1, 1], 1, part, 12]
                yield ['threads', who, config, used, [1, 1], 3, part, 12]
    for config in ('none', 'true', 'false', 'rotate'):
        for k in ((4, 5) if deep else (4,)):
            for seq in itertools.product(OPS, repeat=k):
                if useful(seq):
                    yield ['seq', config, ''.join(seq)]


def useful(seq):
    """Sequences that end by logging (every sequence is read at the end)."""
    return seq[-1] in 'abcm'


def run(case, ctx):
    """Dispatch."""
    ctx.kind(case[0])
    ctx.state(case)
    base = tempfile.mkdtemp(prefix='c25-', dir=os.environ.get('VERIF_SCRATCH'))
    try:
        globals()['run_' + case[0]](case, ctx, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def library():
    """The library (fresh in every execution, see sched.isolated)."""
    from qiskit.ignis.logging import IgnisLogging, IgnisLogReader
    return IgnisLogging, IgnisLogReader


CONFIGS = {'none': None, 'true': 'file_logging: true\n', 'false': 'file_logging: false\n',
           'rotate': 'file_logging: true\nmax_size: 130\nmax_rotations: 3\n'}
OPS = 'abcmEDGR'


def write_config(text):
    """The configuration in the home directory."""
    if text is not None:
        os.makedirs('.qiskit', exist_ok=True)
        with open('.qiskit/logging.yaml', 'w') as out:
            out.write(text)


def pairs(row):
    """The pairs of a row."""
    return list(row[2:])


def run_seq(case, ctx, base):
    """Sequences of operations."""
    _, config, seq = case

    def body():
        write_config(CONFIGS[config])
        logging_class, reader_class = library()
        top = logging_class()
        loggers = {'a': top.get_logger('verif'), 'b': top.get_logger('other'),
                   'c': top.get_logger('verif.sub')}
        loggers['m'] = loggers['a']
        reads = []
        start = time.time()
        for i, oper in enumerate(seq):
            if oper in 'abc':
                loggers[oper].log_to_file(k1='mark%d' % i)
            elif oper == 'm':
                loggers[oper].log_to_file(k1='mark%d' % i, qubits=[i, 2], k3='mark x')
            elif oper == 'E':
                loggers['a'].enable_file_logging()
            elif oper == 'D':
                loggers['a'].disable_file_logging()
            elif oper == 'G':
                loggers['a'] = loggers['m'] = logging_class().get_logger('verif')
            elif os.path.exists('ignis.log'):
                reads.append([i, reader_class().read_values()])
        rows = reader_class().read_values() if os.path.exists('ignis.log') else None
        files = reader_class().get_log_files()
        sizes = [os.path.getsize(f) for f in files]
        return dict(rows=rows, reads=reads, files=[os.path.basename(f) for f in files],
                    sizes=sizes, start=start, end=time.time(),
                    present=sorted(f for f in os.listdir('.') if not f.startswith('.')))

    out, console = sched.isolated(body, base)
    on = {'a': config in ('true', 'rotate')}
    on['b'] = on['c'] = on['a']
    want, at, dropped = [], {}, set()
    for i, oper in enumerate(seq):
        ctx.step()
        at[i] = len(want)
        if oper in 'abcm':
            if on['a' if oper == 'm' else oper]:
                want.append(["'k1':'mark%d'" % i] + (
                    ["'qubits':'[%d, 2]'" % i, "'k3':'mark x'"] if oper == 'm' else []))
            else:
                dropped.add('a' if oper == 'm' else oper)
        elif oper == 'E':
            on['a'] = True
        elif oper == 'D':
            on['a'] = False
    ctx.check('console', 'mark' not in console, console[:500])
    # what is not written is announced, once per logger
    ctx.equal('warned-once', console.count('File logging is disabled'), len(dropped))
    ctx.equal('warned-why', console.count('no config file'),
              len(dropped) if config == 'none' else 0)
    if not want:
        ctx.equal('no-file', out['present'], [])
        return
    rows = [pairs(r) for r in out['rows'] or []]
    if config == 'rotate':
        ctx.equal('rows-suffix', rows, want[len(want) - len(rows):])
        ctx.check('newest-kept', bool(rows), 'no rows')
        ctx.check('lost-only-by-rotation', len(rows) == len(want) or len(out['files']) == 4,
                  '%d of %d rows in %d files' % (len(rows), len(want), len(out['files'])))
        ctx.equal('log-files', sorted(out['files']), out['present'])
        ctx.equal('file-order', out['files'],
                  ['ignis.log.%d' % i for i in reversed(range(1, len(out['files'])))] + ['ignis.log'])
        ctx.check('file-size', all(s <= 130 for s in out['sizes']), out['sizes'])
    else:
        ctx.equal('rows', rows, want)
        ctx.equal('one-file', out['present'], ['ignis.log'])
    for i, got in out['reads']:
        full = [pairs(r) for r in got]
        done = want[:at[i]]
        ctx.equal('rows-when-read', full, done[len(done) - len(full):] if config == 'rotate' else done)
    low = datetime.datetime.fromtimestamp(int(out['start']))
    high = datetime.datetime.fromtimestamp(int(out['end']))
    for row in out['rows']:
        when = datetime.datetime.strptime('%s %s' % tuple(row[:2]), '%Y/%m/%d %H:%M:%S')
        ctx.check('time', low <= when <= high, '%s not in %s..%s' % (when, low, high))


def run_long(case, ctx, base):
    """Many rotations, one entry per file."""
    _, rotations, total, reads = case

    def body():
        write_config('file_logging: true\nmax_size: 50\nmax_rotations: %d\n' % rotations)
        logging_class, reader_class = library()
        log = logging_class().get_logger('verif')
        seen = []
        for i in range(total):
            log.log_to_file(k1='mark%02d' % i)
            if reads:
                seen.append(reader_class().read_values())
        files = reader_class().get_log_files()
        given = [reader_class().read_values(files), reader_class().read_values(files[::-1])]
        return dict(seen=seen, rows=reader_class().read_values(), given=given,
                    files=[os.path.basename(f) for f in reader_class().get_log_files()])
    out, _ = sched.isolated(body, base)
    ctx.step(total)
    for num, rows in enumerate(out['seen'] + [out['rows']]):
        num = total if num == len(out['seen']) else num + 1
        ctx.equal('long-rows', [pairs(r) for r in rows],
                  [["'k1':'mark%02d'" % i] for i in range(max(0, num - rotations - 1), num)])
    ctx.equal('given-files', out['given'], [out['rows'], out['rows'][::-1]])
    count = min(total, rotations + 1)
    ctx.equal('long-files', out['files'],
              ['ignis.log.%d' % i for i in reversed(range(1, count))] + ['ignis.log'])


VALUES = ['plain', 'two words', '[1, 2, 4]', "{'a': 1, 'b': [2]}", "it's", '"q"', '', '0.25', 'a:b',
          'line\nline', '100%', '%s %d', '{}', 'mark, and', 'é∞', "'", '  padded ', '\ttab', 'long ' * 900]


def run_values(case, ctx, base):
    """Values of every kind, read back with every filter."""
    _, i, j = case
    first, second = VALUES[i], VALUES[j]

    def body():
        logging_class, reader_class = library()
        log = logging_class().get_logger('verif')
        log.enable_file_logging()
        log.log_to_file(k1=first, k2=second)
        log.log_to_file(k2=first)
        log.log_to_file(k3=first, k=second, k1=7)
        log.log_to_file(K1=first, K_2=second)
        reader = reader_class()
        filters = [None] + [list(f) for k in range(1, 4)
                            for f in itertools.combinations(['k', 'k1', 'k2', 'k3', 'zz'], k)]
        filters += [['K1'], ['k1', 'K_2'], ['K']]
        return [[f, reader.read_values(keys=f), reader.read_values(
            keys=f, from_datetime='2000/01/01 00:00:00', to_datetime='2999/01/01 00:00:00')]
                for f in filters]
    out, console = sched.isolated(body, base)
    ctx.equal('console', console, '')
    entries = [[('k1', first), ('k2', second)], [('k2', first)],
               [('k3', first), ('k', second), ('k1', '7')], [('K1', first), ('K_2', second)]]
    for filt, rows, dated in out:
        want = [["'%s':'%s'" % kv for kv in e if filt is None or kv[0] in filt] for e in entries]
        want = [w for w in want if w]
        ctx.equal('pairs', [pairs(r) for r in rows], want)
        ctx.equal('pairs-with-dates', [pairs(r) for r in dated], want)


NAMES = ['ignis.log', 'Test_Log.LOG', 'log', 'a+b(1).log', 'x[0-9].log', 'my log.txt', 'sub/Dir/run.log',
         'time:12.log']


def run_config(case, ctx, base):
    """Configuration files."""
    _, index, flag, size, rot, how = case
    name = NAMES[index]
    lines = ['# a comment: true', '', 'unknown: 3', 'nonsense']
    if flag is not None:
        lines.append('file_logging:  %s  # on or off' % flag)
    if size:
        lines.append('max_size: ' + size)
    if index:
        lines.append('  Log_File : ' + name + '   ')
    if rot:
        lines.append('max_rotations:' + rot)

    def body():
        if '/' in name:
            os.makedirs(os.path.dirname(name))
        text = '\n'.join(lines) + '\n'
        if how == 'home':
            write_config(text)
        else:
            with open('some.conf', 'w') as out:
                out.write(text)
        logging_class, reader_class = library()
        top = logging_class() if how == 'home' else logging_class('some.conf')
        log = top.get_logger('verif')
        for i in range(4):
            log.log_to_file(k='mark%d' % i)
        found = [os.path.join(d, f)[2:] for d, _, fs in os.walk('.') for f in fs]
        found = sorted(f for f in found if not f.startswith('.') and f != 'some.conf')
        rows = reader_class().read_values()
        return dict(name=top.get_log_file(), found=found, rows=rows,
                    files=[os.path.relpath(f) for f in reader_class().get_log_files()])
    out, console = sched.isolated(body, base)
    ctx.equal('log-file-name', out['name'], name)
    ctx.check('console', 'mark' not in console, console[:500])
    if (flag or '').lower() != 'true':
        ctx.equal('disabled', [out['found'], out['rows'], out['files']], [[], [], []])
        return
    # an entry is 19 + 1 + 13 + 1 + 12 characters and the end of the line: alone in files of 40 bytes
    rotated = size == '40' and rot == '2'
    want = [name, name + '.1', name + '.2'] if rotated else [name]
    ctx.equal('log-files-written', out['found'], want)
    ctx.equal('log-files-found', sorted(out['files']), want)
    ctx.equal('rows', [pairs(r) for r in out['rows']],
              [["'k':'mark%d'" % i] for i in range(1 if rotated else 0, 4)])


def run_files(case, ctx, base):
    """Which files are log files, and their order."""
    _, mask, index = case
    name = NAMES[index]
    right = ['', '.1', '.2', '.10']
    wrong = ['1', '.bak', '_1', '.1.gz']
    chosen = [s for i, s in enumerate(right + wrong) if mask >> i & 1]

    def body():
        write_config('log_file: %s\n' % name)
        if '/' in name:
            os.makedirs(os.path.dirname(name))
        when = int(time.time()) - 1000
        for suffix in chosen:
            with open(name + suffix, 'w') as out:
                out.write("2020/01/01 00:00:00 ignis_logging 'k':'%s' \n" % (suffix or 'base'))
            age = int(suffix[1:]) if suffix in right[1:] else 0
            os.utime(name + suffix, (when - 10 * age, when - 10 * age))
        reader = library()[1]()
        return [reader.get_log_files(), reader.read_values()]
    (files, rows), _ = sched.isolated(body, base)
    want = [s for s in reversed(right) if s in chosen]
    ctx.equal('log-files', files, [os.path.join(base, name + s) for s in want])
    ctx.equal('rows', [pairs(r) for r in rows], [["'k':'%s'" % (s or 'base')] for s in want])


ENTRIES = [['2019/08/04 13:27:04', 'k1'], ['2019/08/04 13:27:05', 'k2'], ['2019/08/04 13:27:05', 'k1'],
           ['2019/12/31 23:59:59', 'k1 k2'], ['2020/01/01 00:00:00', 'k3'], ['2020/10/02 01:02:03', 'k2']]
GRID = ['2019/08/04 13:27:03', '2019/08/04 13:27:04', '2019/08/04 13:27:05', '2019/08/04 13:27:06',
        '2019/12/31 23:59:59', '2020/01/01 00:00:00', '2020/02/01 00:00:00', '2020/10/02 01:02:02',
        '2020/10/02 01:02:03', '2020/10/02 01:02:04']
FMT = '%Y/%m/%d %H:%M:%S'
OTHER = '%d-%m-%y %H.%M.%S'


def run_dates(case, ctx, base):
    """Limits of date and time."""
    _, i, j, kind = case
    low = datetime.datetime.strptime(GRID[i], FMT) if i >= 0 else None
    high = datetime.datetime.strptime(GRID[j], FMT) if j >= 0 else None

    formats = {'format': (OTHER, OTHER), 'mixed': (OTHER, None), 'mixed2': (None, OTHER)}.get(
        kind, (None, None))

    def convert(limit, fmt):
        if limit is None:
            return None
        return limit if kind == 'object' else limit.strftime(fmt or FMT)
    keysets = [None, ['k1'], ['k2'], ['k3'], ['k1', 'k3'], ['k2', 'k1'], ['none']]

    def body():
        for name, part in (('ignis.log.1', ENTRIES[:3]), ('ignis.log', ENTRIES[3:])):
            with open(name, 'w') as out:
                for pos, (when, keys) in enumerate(part):
                    out.write('%s ignis_logging %s\n' % (
                        when, ' '.join("'%s':'v%d w'" % (k, pos) for k in keys.split())))
        reader = library()[1]()
        args = dict(from_datetime=convert(low, formats[0]), from_datetime_format=formats[0],
                    to_datetime=convert(high, formats[1]), to_datetime_format=formats[1])
        return [[files, keys, reader.read_values(files, keys, **args)] for keys in keysets
                for files in (None, 'ignis.log', ['ignis.log.1'], ['ignis.log', 'ignis.log.1'],
                              ['ignis.log.1', 'ignis.log'])]
    out, _ = sched.isolated(body, base)
    parts = {'ignis.log.1': ENTRIES[:3], 'ignis.log': ENTRIES[3:]}
    for files, keys, rows in out:
        ctx.step()
        order = ['ignis.log.1', 'ignis.log'] if files is None else \
            [files] if isinstance(files, str) else files
        want = []
        for name in order:
            for pos, (when, entry) in enumerate(parts[name]):
                stamp = datetime.datetime.strptime(when, FMT)
                if (low and stamp < low) or (high and stamp > high):
                    continue
                got = ["'%s':'v%d w'" % (k, pos) for k in entry.split() if keys is None or k in keys]
                if got:
                    want.append(when.split() + got)
        ctx.equal('date-rows', rows, want)


def run_threads(case, ctx, base):
    """All interleavings of threads that log at the same time."""
    _, who, config, used, per, bound, part, parts = case
    number = [0]

    def once(prefix):
        number[0] += 1
        cwd = os.path.join(base, str(number[0]))

        def body():
            write_config(CONFIGS['rotate'].replace('rotations: 3', 'rotations: 9')
                         if config == 'rotate' else CONFIGS['true'])
            logging_class, reader_class = library()
            top = logging_class()
            names = {'same': ['verif'] * 3, 'two': ['verif', 'other', 'third'],
                     'child': ['verif', 'verif.sub', 'verif.sub.x']}[who]
            loggers = [top.get_logger(n) for n in names]
            if used:
                for log in loggers[:len(per)]:
                    log.log_to_file(k='mark-first')

            def make(tid):
                def work():
                    for i in range(per[tid]):
                        loggers[tid].log_to_file(k='mark-%d-%d' % (tid, i), qubits=[tid, i])
                return work
            trace, errors = sched.execute([make(t) for t in range(len(per))], prefix, LIB)
            loggers[0].log_to_file(k='mark-last')
            rows = reader_class().read_values()
            return dict(trace=trace, errors=errors, rows=rows)
        out, console = sched.isolated(body, cwd)
        shutil.rmtree(cwd, ignore_errors=True)
        where = 'schedule ' + ''.join(str(t[1]) for t in out['trace'])
        ctx.step(len(out['trace']))
        ctx.outcome([case, prefix])
        ctx.equal('thread-errors', [where, out['errors']], [where, []])
        rows = [pairs(r) for r in out['rows']]
        first = [["'k':'mark-first'"]] * len(per) if used else []
        ctx.equal('thread-first', [where, rows[:len(first)]], [where, first])
        ctx.equal('thread-last', [where, rows[-1:]], [where, [["'k':'mark-last'"]]])
        middle = rows[len(first):-1]
        for tid, count in enumerate(per):
            mine = [r for r in middle if r[0].startswith("'k':'mark-%d-" % tid)]
            ctx.equal('thread-rows', [where, mine],
                      [where, [["'k':'mark-%d-%d'" % (tid, i), "'qubits':'[%d, %d]'" % (tid, i)]
                               for i in range(count)]])
        ctx.equal('thread-row-number', [where, len(middle)], [where, sum(per)])
        ctx.check('thread-console', 'mark' not in console, where + console[:500])
        return out['trace']
    sched.explore(once, bound, part, parts)
