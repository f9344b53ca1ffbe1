"""Builds the concrete driver from /repo's current sources and runs batches of inputs through the real code."""
import os, subprocess, sys, tempfile, shutil, concurrent.futures, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'vc'))
import build

WRAP = ('exit malloc calloc realloc strdup strndup lstat stat access rename renameat unlink remove rmdir link mkdir opendir readdir '
        'closedir fopen setlocale getenv').split()
SAN = ['-fsanitize=address', '-fno-omit-frame-pointer', '-O1', '-g', '-w', '-fno-builtin-strdup']


def h(s):
    """string argument for the driver"""
    if s is None:
        return '-'
    return '=' + s.hex()


def unh(s):
    if s is None or s.startswith('-'):
        return None
    return bytes.fromhex(s[1:])


class Crash:
    def __init__(self, text, code):
        self.text, self.code = text, code

    def summary(self):
        m = re.search(r'SUMMARY: .*', self.text) or re.search(r'ERROR: .*', self.text)
        return m.group(0)[:300] if m else 'terminated with status %s' % self.code


class Driver:
    def __init__(self):
        self.work = tempfile.mkdtemp(prefix='detoxrp.')
        self.src = build.stage(self.work)
        self.exe = os.path.join(self.work, 'driver')
        self._build()

    def _build(self):
        objs = []

        def one(f):
            o = os.path.join(self.work, f[:-2] + '.o')
            d = ['-Dmain=detox_main'] if f == 'detox.c' else []
            build.run([build.CLANG] + SAN + build.DEFS + d + ['-I' + self.src, '-c', '-o', o, os.path.join(self.src, f)])
            return o

        def drv():
            o = os.path.join(self.work, 'driver_.o')
            build.run([build.CLANG] + SAN + build.DEFS + ['-I' + self.src, '-c', '-o', o, os.path.join(HERE, 'driver.c')])
            return o
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            d = ex.submit(drv)
            objs = list(ex.map(one, build.sources(self.src)))
            objs.append(d.result())
        build.run([build.CLANG] + SAN + ['-o', self.exe] + objs + ['-Wl,' + ','.join('--wrap=' + w for w in WRAP)])

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def _run(self, lines, timeout):
        env = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C.UTF-8', 'HOME': self.work,
               'ASAN_OPTIONS': 'detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:print_legend=0:max_allocation_size_mb=4096'}
        inp = tempfile.TemporaryFile(dir=self.work)
        inp.write(('\n'.join(lines) + '\n').encode())
        inp.seek(0)
        out = tempfile.TemporaryFile(dir=self.work)
        err = tempfile.TemporaryFile(dir=self.work)
        env['DRV_FD'] = str(out.fileno())
        p = subprocess.Popen([self.exe], stdin=inp, stdout=subprocess.DEVNULL, stderr=err, env=env, cwd=self.work, pass_fds=(out.fileno(),))
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        out.seek(0)
        ans = out.read().decode('latin1').split('\n')
        done = ans[:-1]
        err.seek(0)
        t = err.read()[-20000:].decode('latin1')
        return done, p.returncode, t

    def batch(self, lines, timeout=120):
        """-> list of answers (str, or Crash)"""
        res = []
        i = 0
        crashes = 0
        while i < len(lines):
            done, code, t = self._run(lines[i:], timeout)
            res += done[:len(lines) - i]
            i = len(res)
            if i < len(lines):
                res.append(Crash(t, code))
                i += 1
                crashes += 1
                if crashes > 20:
                    res += [None] * (len(lines) - i)
                    break
        return res

    def pbatch(self, lines, jobs=8, timeout=120):
        if len(lines) < 64:
            return self.batch(lines, timeout)
        n = (len(lines) + jobs - 1) // jobs
        parts = [lines[k:k + n] for k in range(0, len(lines), n)]
        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            out = list(ex.map(lambda p: self.batch(p, timeout), parts))
        return [x for o in out for x in o]


def fields(a):
    """code=.. sig=.. out=.. answers"""
    d = {}
    for w in a.split(' '):
        k, _, v = w.partition('=')
        d[k] = v
    for k in ('out', 'err', 'evt', 'ans'):
        d[k] = bytes.fromhex(d.get(k, ''))
    d['code'], d['sig'] = int(d['code']), int(d['sig'])
    d['events'] = [tuple(e.split(':')) for e in d['evt'].decode().split('|') if e]
    d['ans'] = d['ans'].decode('latin1')
    return d


if __name__ == '__main__':
    d = Driver()
    try:
        for a in d.batch([l.rstrip('\n') for l in sys.stdin]):
            print(a if isinstance(a, str) else a.summary())
    finally:
        d.close()
