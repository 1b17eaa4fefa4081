"""A configured server and its clients, inside a scratch area."""
import os, signal, subprocess, time
from .common import CheckError, alive, listeners, quote, wait_for


class World:
    def __init__(self, scratch, name='srv', commands=None, header='', sections='', options=(), env=None, shim='', stubs=True, port=None,
                 base=None, conf=None, connect_ms=20000, section='', before='', closed=()):
        self.s = scratch
        self.closed = closed
        self.name = name
        self.port = port or scratch.ports.get()
        self.root = scratch.mkdir('world%d' % self.port)
        self.base = base or scratch.mkdir('world%d' % self.port, 'base')
        self.stubs = scratch.mkdir('world%d' % self.port, 'stubs') if stubs else None
        self.commands = commands if commands is not None else {'run': "%s" % quote(scratch.bin + '/puppet'), 'nostart': quote(self.root + '/no/such/program')}
        self.confText = conf or ('%s\nbaseDirectory = %s\nconnectTimeoutMs = %d\n%s[%s:%d] %s\n' % (header, quote(self.base), connect_ms, before, name, self.port, section)
                                 + ''.join('%s %s\n' % kv for kv in self.commands.items()) + sections)
        self.conf = scratch.write('world%d/k8psh.conf' % self.port, self.confText)
        self.options = list(options)
        self.env = dict(env or {'PATH': '/usr/bin:/bin'})
        self.shim = shim
        self.server = None
        self.logfile = None

    def env_with(self, env, shim):
        e = dict(env)
        if shim:
            e['LD_PRELOAD'] = self.s.bin + '/shim.so'
            e['VSHIM'] = shim
        return e

    def start(self, timeout=20):
        argv = [self.s.bin + '/k8pshd', '--config', self.conf, '--name', self.name]
        argv += ['-e', self.stubs] if self.stubs else ['-d']
        argv += self.options
        self.logfile = self.root + '/server.log'
        with open(self.logfile, 'ab') as lg:
            self.server = self.s.popen(argv, env=self.env_with(self.env, self.shim), cwd=self.root, stdout=lg, stderr=lg, closed=self.closed)
        if not wait_for(lambda: self.listening() or self.server.poll() is not None, timeout) or self.server.poll() is not None:
            return False
        if self.stubs:  # the links are made after the port is bound
            wait_for(lambda: len(os.listdir(self.stubs)) >= self.expected_stubs() or self.server.poll() is not None, timeout)
        return self.server.poll() is None

    def expected_stubs(self):
        return 0

    def listening(self):
        return bool(listeners(self.port))

    def running(self):
        return self.server is not None and self.server.poll() is None

    def client(self, args, command='run', direct=True, env=None, cwd=None, shim='', pre=(), stub=None, **io):
        argv = [stub] if stub else [self.s.bin + '/k8psh'] + list(pre) + [command]
        return self.s.popen(argv + list(args), env=self.env_with(env if env is not None else {'K8PSH_CONFIG': self.conf}, shim), cwd=cwd or self.base, **io)

    def stop(self):
        if self.server is not None:
            if self.server.poll() is None:
                self.server.kill()
            self.server.wait()
            self.server = None

    def serverlog(self):
        try:
            with open(self.logfile, 'rb') as f:
                return f.read()[-4000:].decode('latin1')
        except OSError:
            return ''
