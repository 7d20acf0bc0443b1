"""Which targets decide which property, and what counts as a non-trivial case."""
import build as B

# BDW-GC (an external library behind the same API) only takes part where said so,
# and single-threaded: it stops mutators anywhere, not just at safepoints, so the
# model of another thread may be in the middle of an operation.
MMC, PCC = B.MMC, B.PCC
OWN = ['semi'] + PCC + MMC
GEN = ['generational-pcc'] + [v for v in MMC if 'generational' in v]
WITH_BDW = OWN + ['bdw']
CONS = [v for v in MMC if v.startswith(('stack-', 'heap-'))]
MULTI = PCC + MMC              # the semi-space collector has but one mutator

ASSUMPTIONS = [
    'x86-64 GNU/Linux, gcc; schedules are those the kernel produces on 8 cores under generated '
    'yields and parallelism, so concurrency is sampled, not enumerated',
    'the embedder in harness/fz-embedder.h and harness/gcfuzz.c follows the contract in '
    'doc/manual.md (write barriers, safepoints, root and object tracing)',
]

def unit(name, **kw):
    kw['name'] = name
    return kw

def options_units():
    us = []
    for impl, variant in (('semi', 'semi'), ('pcc', 'pcc'), ('mmc', 'mmc'), ('bdw', 'bdw')):
        _, d, libs = B.variant_flags(variant)
        san = impl in ('semi', 'bdw')
        us.append(unit('options', tag='-' + impl, san=san, mode='opt' if not san else 'dbg',
                       libs=libs, chunk=2000,
                       flags=d + ['-DGC_ATTRS="%s/api/%s-attrs.h"' % (B.REPO, impl),
                                  '-DGC_EMBEDDER="fz-embedder.h"'],
                       src=['%s.c' % impl] + ['gc-%s.c' % x for x in (
                           'ephemeron', 'finalizer', 'stack', 'options',
                           'platform-gnu-linux', 'tracepoint')]))
    return us

TRACE = ['-DGC_PRECISE_ROOTS=1', '-DGC_PARALLEL=1', '-DGC_DEBUG=1']
def trace_units():
    return [unit('trace', tag='', san=False, mode='opt', chunk=20, weight=2, flags=TRACE,
                 src=['gc-platform-gnu-linux.c']),
            unit('trace', tag='-serial', san=False, mode='opt', chunk=20, flags=TRACE + ['-DFZ_SERIAL'],
                 src=['gc-platform-gnu-linux.c'])]

# The ephemeron and finalizer machinery under a tracer of the harness's own.
UNDER = ['-fvisibility=hidden', '-DGC_PRECISE_ROOTS=1', '-DGC_PARALLEL=1', '-DFZ_MMC',
         '-DGC_ATTRS="%s/api/mmc-attrs.h"' % B.REPO, '-DGC_EMBEDDER="fz-embedder.h"']
EPH = unit('eph', san=False, mode='opt', chunk=80, flags=UNDER, src=['gc-ephemeron.c'], weight=2)
FIN = [unit('fin', san=san, mode=mode, chunk=chunk, flags=UNDER + ['-DFZ_PRIORITIES=5'],
            src=['gc-finalizer.c']) for san, mode, chunk in ((True, 'dbg', 20), (False, 'opt', 60))]

SIZER = unit('sizer', mode='opt', chunk=2000, flags=[
    '-DGC_PRECISE_ROOTS=1', '-DGC_PARALLEL=1', '-DGC_ATTRS="%s/api/mmc-attrs.h"' % B.REPO])

def gc(profile, variants, **kw):
    kw.update(profile=profile, variants=variants)
    return kw

PROPS = {
    'C01': dict(
        gc=[gc('graph', WITH_BDW), gc('churn', WITH_BDW)],
        rule='a run of a generated operation sequence against a real heap in which at least one '
             'collection happened and at least 200 objects were compared with the shadow heap afterwards',
        nontrivial=lambda d: d.get('gcs', 0) >= 1 and d.get('verified', 0) >= 200),
    'C02': dict(
        gc=[gc('churn', WITH_BDW, weight=2), gc('large', WITH_BDW)],
        rule='a run in which at least two collections happened and at least 100 fresh objects were '
             'checked for zeroed contents, alignment and disjointness',
        nontrivial=lambda d: d.get('gcs', 0) >= 2 and d.get('zerochk', 0) >= 100),
    'C03': dict(
        gc=[gc('mt', MULTI)],
        rule='a run with at least two mutator threads, at least one collection and at least one '
             'object exchanged through a shared root',
        nontrivial=lambda d: d.get('gcs', 0) >= 1 and d.get('threads', 0) >= 2 and d.get('shared', 0) >= 1),
    'C04': dict(
        gc=[gc('gen', GEN)],
        rule='a run with at least one minor collection and at least one old-to-young edge stored '
             'through the write barrier',
        nontrivial=lambda d: d.get('minor', 0) >= 1 and d.get('old2young', 0) >= 1),
    'C05': dict(
        gc=[gc('eph', WITH_BDW)], units=[EPH],
        rule='a run that saw at least one ephemeron die and at least one live ephemeron checked '
             'after a collection (ephemerons under the tracer of the harness: two and twenty)',
        nontrivial=lambda d: d.get('gcs', 0) >= 1 and d.get('eph_dead', 0) >= 1 and d.get('eph_livechk', 0) >= 1),
    'C06': dict(
        gc=[gc('fin', WITH_BDW)], units=FIN,
        rule='a run in which at least one finalizer was popped, out of at least two attached '
             '(finalizers under the tracer of the harness: five popped, and five not fired)',
        nontrivial=lambda d: d.get('fin_pop', 0) >= 1 and d.get('fin_new', 0) >= 2),
    'C07': dict(
        gc=[gc('pin', PCC + MMC)],
        rule='a run in which at least one pinned object was found unmoved after a collection',
        nontrivial=lambda d: d.get('gcs', 0) >= 1 and d.get('pinchk', 0) >= 1),
    'C08': dict(
        gc=[gc('cons', CONS + ['bdw'])],
        rule='a run in which at least one object referenced only from a conservatively scanned '
             'stack frame was verified after a collection',
        nontrivial=lambda d: d.get('gcs', 0) >= 1 and d.get('framechk', 0) >= 1),
    'C09': dict(
        gc=[gc('churn', OWN, weight=2), gc('large', OWN)],
        rule='a run that allocated at least four times its live bound in garbage over at least '
             'three collections without running out of memory',
        nontrivial=lambda d: d.get('gcs', 0) >= 3 and d.get('bytes', 0) >= 4 << 20),
    'C10': dict(
        gc=[gc('policy', OWN)], units=[SIZER],
        rule='a run with at least one collection and one observed heap resize or an audited heap size',
        nontrivial=lambda d: d.get('gcs', 0) >= 1),
    'C11': dict(
        gc=[gc('events', OWN)],
        rule='a run in which the event stream of at least two collections was checked against the '
             'protocol automaton',
        nontrivial=lambda d: d.get('gcs', 0) >= 2 and d.get('events', 0) >= 10),
    'C12': dict(
        units=options_units(), quick_s=40, thorough_s=600,
        rule='a case with at least two accepted and two rejected option settings'),
    'C13': dict(
        units=[unit('addr', chunk=200)], quick_s=40, thorough_s=780,
        rule='a case (operation history) with at least three removals'),
    'C14': dict(
        gc=[gc('large', OWN, weight=1)],
        rule='a run with at least two collections in which at least five large objects were allocated '
             'and at least five checked',
        nontrivial=lambda d: d.get('gcs', 0) >= 2 and d.get('large', 0) >= 5 and d.get('largechk', 0) >= 5),
    'C15': dict(
        units=trace_units(), quick_s=60, thorough_s=780,
        rule='a traced synthetic heap of more than 300 reachable objects (parallel: on which more than '
             'one worker did work), or a work-queue / field-set history against its model'),
    'C16': dict(
        gc=[gc('ext', OWN)],
        rule='a run in which at least one collection happened and at least one extern object was checked',
        nontrivial=lambda d: d.get('gcs', 0) >= 1 and d.get('extchk', 0) >= 1),
    'C17': dict(
        gc=[gc('foot', OWN)],
        rule='a run with at least one collection in which resident memory was measured at least once '
             'after the housekeeping had its turns',
        nontrivial=lambda d: d.get('gcs', 0) >= 1 and d.get('footchk', 0) >= 1),
    'C18': dict(
        units=[unit('stats', chunk=200)], quick_s=40, thorough_s=600,
        rule='a history of at least three collections, fed to a generated chain of listeners'),
    'C19': dict(
        units=[unit('platform', san=False, chunk=40, src=['gc-platform-gnu-linux.c'])],
        quick_s=40, thorough_s=600,
        rule='a history that acquired memory at least twice and discarded or released some'),
    'C20': dict(
        units=[unit('background', chunk=200)], quick_s=30, thorough_s=300,
        rule='a history in which at least ten task runs were accounted for and a task was removed'),
    'C22': dict(
        gc=[gc('oom', OWN)],
        rule='a run with at least one collection in which a fixed heap was filled until the collector '
             'gave up, or a growable one was filled with thousands of objects',
        nontrivial=lambda d: d.get('gcs', 0) >= 1 and (d.get('oom', 0) >= 1 or d.get('hoarded', 0) >= 1000)),
    'C21': dict(
        units=[unit('prims', chunk=200)], quick_s=40, thorough_s=600,
        rule='a case with at least twenty scans that found a byte not at once, or at least three removals '
             'from the tree of intervals'),
}
