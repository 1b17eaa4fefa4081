"""check <property> [--replay FILE] [--seconds N]: decides one property; see DESIGN.md."""
import argparse, importlib, json, os, resource, sys, time, traceback
from . import common, tlc
from .common import CheckError, WORK, VERIF, log

MODULES = {
    'C01': 'sessionchecks', 'C02': 'sessionchecks', 'C03': 'sessionchecks', 'C04': 'sessionchecks', 'C05': 'sessionchecks',
    'C06': 'requests', 'C07': 'environment', 'C08': 'serverrequests', 'C09': 'lifecycle', 'C10': 'lifecycle', 'C11': 'lifecycle',
    'C12': 'lifecycle', 'C13': 'configs', 'C14': 'options', 'C15': 'connecting', 'C16': 'paths', 'C17': 'installing', 'C18': 'idle', 'C19': 'logs',
}


class Violation(Exception):
    pass


class Context:
    def __init__(self, prop, tier, seed, scale):
        self.prop, self.tier, self.seed, self.scale = prop, tier, seed, scale
        self.thorough = tier == 'thorough'
        self.level = 'model_checking'
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.cover = {}
        self.assumptions = []
        self.violations = []
        self.findings = []
        self.start = time.monotonic()

    def seconds(self, quick, thorough=None):
        return (thorough if self.thorough and thorough is not None else quick) * self.scale

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def note(self, key, value):
        self.cover[key] = value

    def add(self, key, n=1):
        self.cover[key] = self.cover.get(key, 0) + n

    def model(self, module, what=None, **kw):
        """An exhaustive check of a specification; its failure says nothing about the code."""
        kw.setdefault('workers', common.CPUS)
        kw.setdefault('heap', '8g')
        kw.setdefault('timeout', 3000 if self.thorough else 300)
        res = tlc.run(module, **kw)
        if not res.ok and kw['workers'] > 1:     # (see tlc.run)
            res = tlc.run(module, **kw)
        if not res.ok:
            raise CheckError('the specification %s violates its own properties:\n%s' % (module, res.out[-4000:]))
        self.states += res.distinct
        self.transitions += res.states
        self.cover.setdefault('models', []).append(dict(module=module, what=what or '', states=res.distinct, transitions=res.states,
                                                        depth=res.depth, wall_s=round(res.wall, 1)))
        return res

    def refuted(self, module, what, **kw):
        """A system that is known to be wrong: the properties of the specification must tell."""
        kw.setdefault('workers', common.CPUS)
        kw.setdefault('timeout', 300)
        res = tlc.run(module, **kw)
        if res.ok:
            raise CheckError('the specification %s does not distinguish: %s' % (module, what))
        self.cover.setdefault('wrong_systems_refuted_by_the_model', []).append(what)

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violate(self, replay, text):
        """Reports a violation; `replay` is what replay() of the check's module takes."""
        os.makedirs(WORK, exist_ok=True)
        path = os.path.join(WORK, '%s-%d.json' % (self.prop, len(self.violations)))
        with open(path, 'w') as o:
            json.dump(dict(property=self.prop, text=text, replay=replay), o, indent=1)
        self.violations.append((path, text))
        log('%s: %s' % (self.prop, text[:3000]))

    def evidence(self):
        cov = dict(self.cover)
        cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples or ['none'])
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.monotonic() - self.start, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        path = os.path.join(VERIF, 'evidence', self.prop + '.json')
        with open(path + '.tmp', 'w') as o:
            json.dump(ev, o, indent=1, default=repr)
        os.replace(path + '.tmp', path)


def setup():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    print('built in', common.build())
    return 0


def main():
    if sys.argv[1:] == ['--setup']:
        return setup()
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=float(os.environ.get('VERIF_SCALE', '1')))
    ap.add_argument('--thorough', action='store_true')
    a = ap.parse_args()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    tier = 'thorough' if a.thorough or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    ctx = Context(a.property, tier, common.SEED, a.scale)
    try:
        mod = importlib.import_module('vk.' + MODULES[a.property])
        if a.replay:
            with open(a.replay) as f:
                r = json.load(f)
            mod.replay(ctx, r['replay'])
        else:
            getattr(mod, a.property.lower())(ctx)
    except CheckError as e:
        log('check error: %s' % e)
        if not ctx.violations:
            return 2
    except Exception:
        log('check error: ' + traceback.format_exc())
        if not ctx.violations:
            return 2
    if not a.replay:
        ctx.evidence()
    for path, text in ctx.violations:
        print('VIOLATION property=%s replay=%s' % (ctx.prop, path), flush=True)
    log('%s: %s in %.1f s (%d model states, %d traces)' % (ctx.prop, 'VIOLATED' if ctx.violations else 'held', time.monotonic() - ctx.start, ctx.states, ctx.traces))
    return 1 if ctx.violations else 0


if __name__ == '__main__':
    sys.exit(main())
