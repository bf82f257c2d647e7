"""P39: the store of pretrained models."""
import contextlib
import http.server
import io
import os
import signal
import sys
import threading
import urllib.error
import urllib.request
import zipfile
import zlib

import chainer
from hypothesis import strategies as st

from chainerrl.misc import pretrained_models as pm

from pbt.core import (Suite, check, eq, must_raise, quiet_stdout,
                      scratch_dir)
from pbt.gen import rng, sized

suite = Suite(
    'P39',
    'a model that failed to arrive is asked for again, or several processes '
    'ask for the same model',
    ['models come from a server on the loopback interface that fails as '
     'asked; crashes end a forked process at any file operation'])

ALGS = ['DQN', 'A3C', 'TRPO']
GAMES = ['Breakout', 'PongNoFrameskip-v4', 'HalfCheetah-v2']
FAULTS = ['missing', 'short', 'garbage', 'half', 'drop']


def archive(alg, env, kind, version):
    """{file name: contents} and the archive with them."""
    r = rng(hash_of(alg, env, kind, version))
    files = {'{}/{}{}.npz'.format(kind, n, '' if i else version):
             r.bytes(int(r.randint(1, 5000)))
             for i, n in enumerate(['model', 'optimizer', 'deep/target'])}
    f = io.BytesIO()
    with zipfile.ZipFile(f, 'w') as z:
        for n, b in files.items():
            z.writestr(zipfile.ZipInfo(n), b)
    return files, f.getvalue()


def hash_of(*xs):
    return zlib.crc32(repr(xs).encode())


class Server(object):
    """Serves archives of the current version, with faults."""

    def __init__(self):
        self.version, self.faults, self.requests = 0, [], []
        outer = self

        class Handler(http.server.BaseHTTPRequestHandler):
            def log_message(self, *args):
                pass

            def do_GET(self):
                outer.requests.append(self.path)
                fault = outer.faults.pop(0) if outer.faults else None
                if fault == 'drop':
                    self.close_connection = True
                    return
                parts = self.path.strip('/').split('/')
                if fault == 'missing' or len(parts) != 4 \
                        or not parts[3].endswith('.zip'):
                    self.send_error(404)
                    return
                body = archive(parts[1], parts[2], parts[3][:-4],
                               outer.version)[1]
                n = len(body)
                if fault == 'garbage':
                    body = bytes(n)
                if fault == 'half':          # complete, but not an archive
                    body = body[:n // 2]
                    n = len(body)
                self.send_response(200)
                self.send_header('Content-Length', str(n))
                self.end_headers()
                if fault == 'short':         # the connection breaks
                    body = body[:n // 2]
                self.wfile.write(body)

        class Quiet(http.server.ThreadingHTTPServer):
            def handle_error(self, request, client_address):
                pass

        self.http = Quiet(('127.0.0.1', 0), Handler)
        self.thread = threading.Thread(target=self.http.serve_forever,
                                       kwargs={'poll_interval': 0.01},
                                       daemon=True)
        self.thread.start()
        # everything is imported before a process is forked
        for path in ['DQN/Breakout/best.zip', 'x']:
            try:
                urllib.request.urlopen(self.url + path).read()
            except urllib.error.HTTPError as e:
                e.close()
        self.requests[:] = []

    @property
    def url(self):
        return 'http://127.0.0.1:{}/models/'.format(self.http.server_port)

    def close(self):
        self.http.shutdown()
        self.http.server_close()
        self.thread.join()


@contextlib.contextmanager
def store():
    """A server and an empty store; yields (server, directory)."""
    os.environ['no_proxy'] = '*'
    server = Server()
    old_url, old_root = pm.download_url, chainer.dataset.get_dataset_root()
    pm.download_url = server.url
    try:
        with scratch_dir() as root, quiet_stdout():
            chainer.dataset.set_dataset_root(root)
            yield server, root
    finally:
        pm.download_url = old_url
        chainer.dataset.set_dataset_root(old_root)
        server.close()


def tree(path):
    out = {}
    for d, _, names in os.walk(path):
        for n in names:
            with open(os.path.join(d, n), 'rb') as f:
                out[os.path.relpath(os.path.join(d, n),
                                    os.path.dirname(path))] = f.read()
    return out


def complete(path, root, key, version):
    alg, env, kind = key
    check(os.path.isdir(path), 'no model at {}', path)
    check(os.path.realpath(path).startswith(os.path.realpath(root) + os.sep),
          'model outside the store: {}', path)
    got, want = tree(path), archive(alg, env, kind, version)[0]
    eq(sorted(got), sorted(want), 'files of the model')
    check(got == want, 'the contents of the model differ')


KEY = st.tuples(st.sampled_from(ALGS), st.sampled_from(GAMES),
                st.sampled_from(['best', 'final'])).map(list)


def canonical(key):
    alg, env, kind = key
    return alg, env.replace('NoFrameskip-v4', ''), kind


def no_rubbish(root, server):
    """Every file is empty (a lock), part of a model or a whole archive."""
    whole = set()
    for alg in ALGS:
        for env in {canonical((alg, g, ''))[1] for g in GAMES}:
            for kind in pm.MODELS[alg]:
                for v in range(server.version + 1):
                    files, z = archive(alg, env, kind, v)
                    whole.update(files.values())
                    whole.add(z)
    for name, contents in tree(root).items():
        check(not contents or contents in whole,
              'a file is left behind: {} ({} bytes)', name, len(contents))


@suite.facet(st.fixed_dictionaries({
    # [model, fault of its download or None, does the server get a new one]
    'ops': sized(st.tuples(KEY, st.one_of(
        st.none(), st.none(), st.sampled_from(FAULTS)),
        st.integers(0, 3)).map(list), 1, 12)}), quick=150, shards=2,
    max_shrink=30)
def history(case, note):
    stored, paths, failed, retried = {}, {}, set(), False
    with store() as (server, root):
        for key, fault, news in case['ops']:
            alg, env, kind = key
            k = canonical(key)
            server.version += news == 0
            server.requests[:] = []
            server.faults = [fault] if fault else []
            if kind not in pm.MODELS[alg]:
                with must_raise(AssertionError):
                    pm.download_model(alg, env, model_type=kind)
                eq(server.requests, [], 'requests for an unsupported model')
                continue
            url = '/models/{}/{}/{}.zip'.format(*k)
            if k in stored:
                path, cached = pm.download_model(alg, env, model_type=kind)
                eq(server.requests, [], 'requests for a stored model')
                check(cached is True, 'a stored model is not reported so')
                eq(path, paths[k], 'path')
            elif fault:
                try:
                    path, cached = pm.download_model(alg, env,
                                                     model_type=kind)
                except Exception:
                    failed.add(k)
                    eq(server.requests[:1], [url], 'requests')
                    no_rubbish(root, server)
                    continue
                # a download may be tried again; what comes is complete
                check(len(server.requests) > 1,
                      'a failed download ({}) went unnoticed', fault)
                stored[k] = server.version
            else:
                path, cached = pm.download_model(alg, env, model_type=kind)
                retried |= k in failed
                check(cached is False, 'a new model is reported as cached')
                eq(server.requests, [url], 'requests')
                stored[k] = server.version
                paths[k] = path
            paths.setdefault(k, path)
            for j, p in paths.items():
                complete(p, root, j, stored[j])
            no_rubbish(root, server)
        check(len(set(paths.values())) == len(paths), 'models share a path')
    with must_raise(AssertionError):
        pm.download_model('NoSuchAlgorithm', 'Pong')
    note.nontrivial(retried)


class Crash(object):
    """Ends this process at the n-th file operation below a directory."""

    def __init__(self, root, n):
        self.root, self.n, self.on = root, n, True

    def __call__(self, event, args):
        if not self.on or event not in (
                'open', 'os.rename', 'os.mkdir', 'os.remove', 'shutil.move',
                'shutil.copyfile', 'os.rmdir', 'os.truncate'):
            return
        if any(isinstance(a, (str, bytes)) and os.fsdecode(a).startswith(
                self.root) for a in args):
            self.n -= 1
            if self.n < 0:
                os._exit(9)


def start(fn):
    """Run fn in a forked process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.alarm(60)
            os.close(r)
            fn()
            code = 0
        except BaseException as e:
            os.write(w, repr(e).encode()[:4000])
        finally:
            os._exit(code)
    os.close(w)
    return pid, r


def finish(proc):
    """(exit code, what went wrong)."""
    pid, r = proc
    with os.fdopen(r, 'rb') as f:
        text = f.read().decode()
    return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]), text


@suite.facet(st.fixed_dictionaries({
    'key': KEY.filter(lambda k: k[2] in pm.MODELS[k[0]]),
    'other': KEY.filter(lambda k: k[2] in pm.MODELS[k[0]]),
    'sibling': st.booleans(),
    'crashes': sized(st.integers(0, 30), 1, 3)}), quick=60, shards=2,
    max_shrink=20)
def crash(case, note):
    """A download that is killed at any point leaves nothing half-done."""
    alg, env, kind = case['key']
    k = canonical(case['key'])
    crashed = 0
    with store() as (server, root):
        for n in case['crashes']:
            def attempt():
                sys.addaudithook(Crash(root, n))
                path, _ = pm.download_model(alg, env, model_type=kind)
                complete(path, root, k, 0)
            code, text = finish(start(attempt))
            check(code in (0, 9), 'after {} crashes: {}', crashed, text)
            crashed += code == 9
        # another model is not affected
        other = case['other']
        if case['sibling']:
            other = [alg, env, 'final']
        p, _ = pm.download_model(other[0], other[1], model_type=other[2])
        complete(p, root, canonical(other), 0)
        path, cached = pm.download_model(alg, env, model_type=kind)
        complete(path, root, k, 0)
        check(cached or not server.faults, 'faults')
        again, cached = pm.download_model(alg, env, model_type=kind)
        eq((again, cached), (path, True), 'asking again')
    note.label('{} crashes'.format(crashed))
    note.nontrivial(crashed > 0)


@suite.facet(st.fixed_dictionaries({
    'keys': sized(KEY.filter(lambda k: k[2] in pm.MODELS[k[0]]), 2, 4),
    'same': st.booleans()}), quick=30, shards=2, max_shrink=10)
def concurrent(case, note):
    """Processes asking at once all get complete models, loaded once."""
    keys = case['keys']
    if case['same']:
        keys = [keys[0]] * len(keys)
    with store() as (server, root):
        def ask(key):
            alg, env, kind = key
            path, _ = pm.download_model(alg, env, model_type=kind)
            complete(path, root, canonical(key), 0)
        got = [finish(p) for p in [start(lambda key=key: ask(key))
                                   for key in keys]]
        eq(got, [(0, '')] * len(keys), 'processes asking at once')
        want = sorted({'/models/{}/{}/{}.zip'.format(*canonical(k))
                       for k in keys})
        eq(sorted(server.requests), want, 'requests')
    note.nontrivial(len(set(map(canonical, keys))) < len(keys))
