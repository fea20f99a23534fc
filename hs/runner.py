"""Talks to the simulator binary: one scenario in, one result out. A result is a function of the scenario alone."""
import json, os, subprocess, threading

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BIN = os.environ.get('HSIM_BIN', os.path.join(os.environ.get('HSIM_BUILD', os.path.join(V, 'build')), 'hsim'))


class SimError(Exception):
    """The simulator itself failed (not a verdict about the code)."""


class Hsim:
    def __init__(self, cpu=None, timeout_ms=60000):
        env = dict(os.environ)
        env['HSIM_TIMEOUT_MS'] = str(timeout_ms)
        if cpu is not None:
            env['HSIM_CPU'] = str(cpu)
        self.p = subprocess.Popen([BIN, 'serve'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  env=env)
        self.runs = 0
        self.steps = 0

    def run(self, sc):
        data = (json.dumps(sc) + '\n').encode()
        try:
            self.p.stdin.write(data)
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except OSError as e:
            raise SimError('simulator pipe: %s' % e)
        if not line:
            raise SimError('simulator ended, status %s' % self.p.wait())
        r = json.loads(line)
        if 'driver_error' in r:
            raise SimError(r['driver_error'])
        self.runs += 1
        self.steps += r['stats']['steps']
        return r

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()


def run_fresh(sc, timeout_ms=60000):
    h = Hsim(timeout_ms=timeout_ms)
    try:
        return h.run(sc)
    finally:
        h.close()
