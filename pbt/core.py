"""
The search engine: a property is a strategy of JSON-able cases and a check that raises Violation.
"""
import contextlib
import hashlib
import json
import os
import time
import traceback


class Violation(Exception):
    """The property does not hold for this case."""


class SutError(Violation):
    """The code under test raised on a valid input."""


class Skip(Exception):
    """The case lies outside the domain of the property (counted, never silent)."""


@contextlib.contextmanager
def sut(what=''):
    """Calls into the code under test: an exception it raises is a violation, not a harness error."""
    try:
        yield
    except (Violation, Skip):
        raise
    except Exception as e:
        tb = traceback.format_exc(limit=-4)
        raise SutError(f'{what}: raised {type(e).__name__}: {e}\n{tb}') from e


class Prop:
    id = None
    rule = ''
    assumptions = ()
    shards = 7
    quick = 10  # cases per shard
    thorough = 100
    level = 'exploration'
    # listed known findings: function(case, message) -> text or None

    def strategy(self, tier):
        raise NotImplementedError

    def check(self, case, note):
        raise NotImplementedError

    def nontrivial(self, case):
        return True

    def labels(self, case):
        return []

    def explicit(self):
        """Cases always run, spread over the shards, before the generated ones."""
        return []


class Enough(KeyboardInterrupt):
    """Ends the search from within a case; not an Exception, which hypothesis would take for a failure of the case."""


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def known_findings(prop_id):
    """Entries of the committed known-findings file: lines 'open: property=<id> key=<key> <text>'."""
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    out = {}
    with open(os.path.join(here, 'known-findings.txt')) as f:
        for line in f:
            if line.startswith(f'open: property={prop_id} key='):
                key, _, text = line.split('key=', 1)[1].strip().partition(' ')
                out[key] = text
    return out


def run_shard(prop, seed, n_cases, tier, shard, out_path, shrink_s=40.0):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture.engine import ConjectureRunner

    # Every case is drawn afresh: the duplication of parts of earlier cases, which hypothesis does between fresh draws,
    # costs five of six cases and skews the choice of options.
    ConjectureRunner.generate_mutations_from = lambda self, data: None

    st = {
        'evaluations': 0,
        'skipped': 0,
        'nontrivial': set(),
        'labels': {},
        'samples': [],
        'notes': {},
        'failure': None,
        'known': {},
    }
    known = known_findings(prop.id)
    failed = {}
    first = [None]
    t0 = time.time()

    def one(case, count=True):
        d = digest(case)
        if d in failed:
            raise failed[d]
        if first[0] is not None and time.time() - first[0] > shrink_s:
            raise Enough
        counting = count and first[0] is None
        notes = {}

        def note(key, k=1):
            notes[key] = notes.get(key, 0) + k

        try:
            prop.check(case, note)
        except Skip as e:
            if counting:
                st['skipped'] += 1
                st['labels'][f'skipped: {e}'] = st['labels'].get(f'skipped: {e}', 0) + 1
            return
        except Violation as e:
            key = getattr(e, 'key', None)
            if key is not None and key in known:
                st['known'][key] = known[key]
                return
            e.case = case
            failed[d] = e
            if first[0] is None:
                first[0] = time.time()
            raise
        if counting:
            st['evaluations'] += 1
            for k, v in notes.items():
                st['notes'][k] = st['notes'].get(k, 0) + v
            for lb in prop.labels(case):
                st['labels'][lb] = st['labels'].get(lb, 0) + 1
            if prop.nontrivial(case):
                st['nontrivial'].add(d)
                if len(st['samples']) < 2:
                    st['samples'].append(case)

    def dump():
        o = dict(st)
        o['nontrivial'] = sorted(st['nontrivial'])
        o['wall_s'] = time.time() - t0
        tmp = out_path + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(o, f)
        os.replace(tmp, out_path)

    try:
        for i, case in enumerate(prop.explicit()):
            if i % prop.shards == shard:
                one(json.loads(json.dumps(case)))
        if n_cases > 0:

            @hypothesis.seed(seed)
            @settings(
                max_examples=n_cases,
                database=None,
                deadline=None,
                derandomize=False,
                report_multiple_bugs=False,
                suppress_health_check=list(HealthCheck),
                phases=(Phase.generate, Phase.shrink),
                print_blob=False,
            )
            @given(prop.strategy(tier))
            def search(case):
                one(json.loads(json.dumps(case)))

            search()
    except Enough:
        # the time for shrinking is over: the shortest failing case so far
        e = min(failed.values(), key=lambda v: len(json.dumps(v.case)))
        st['failure'] = {'case': e.case, 'message': str(e)[:6000]}
    except Violation as e:
        st['failure'] = {'case': e.case, 'message': str(e)[:6000]}
    except Exception:
        # a failure that does not repeat (state leaking between cases) is still a failure
        if not failed:
            raise
        e = list(failed.values())[-1]
        st['failure'] = {'case': e.case, 'message': 'the failure is not deterministic: ' + str(e)[:6000]}
    dump()
