"""Runs simulated executions of one scenario on one platform.  Talks JSON lines with the master."""
import functools
import gc
import importlib
import json
import os
import sys
import traceback


def classify(e, sut):
    """exception that escaped a run: did it come out of the code under test?"""
    tb = e.__traceback__
    files = []
    while tb is not None:
        files.append((tb.tb_frame.f_code.co_filename, tb.tb_lineno, tb.tb_frame.f_code.co_name))
        tb = tb.tb_next
    hits = [f for f in files if f[0].startswith(sut) or f[0].startswith('capnpy/') or
            f[0].replace('\\', '/').split('/')[-1].split('_')[0] in ('rich', 'anyp', 'keyed') or
            f[0].endswith('.capnp')]
    return hits


def main():
    name = sys.argv[1]
    out = os.fdopen(os.dup(1), 'w', 1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.setrecursionlimit(1000)
    from dst import core, values
    platform = os.environ['VERIF_VARIANT']
    sut = os.environ['VERIF_SUT']
    mod = importlib.import_module('dst.scenarios.' + name)
    import capnpy
    assert os.path.realpath(capnpy.__file__).startswith(os.path.realpath(sut)), capnpy.__file__
    import capnpy.blob
    assert bool(capnpy.blob.PYX) == (platform in ('cy', 'asan')), (platform, capnpy.blob.PYX)
    ctx = mod.setup(platform)
    out.write(json.dumps({'ready': 1}) + '\n')
    out.flush()
    n = 0
    for line in sys.stdin:
        job = json.loads(line)
        if job.get('quit'):
            break
        for item in job['runs']:
            out.write('{"start": %d}\n' % item['i'])
            out.flush()
            if 'choices' in item and item['choices'] is not None:
                ch = core.Choices(replay=item['choices'])
            else:
                sink = None
                if item.get('rec'):
                    fd = os.open(item['rec'], os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                    sink = functools.partial(os.write, fd)
                ch = core.Choices(seed=item['seed'], sink=sink)
            run = core.Run(ch, platform, keep_log=item.get('keep', False))
            res = {'i': item['i']}
            v = None
            try:
                mod.run(run, ctx)
            except core.Violation as e:
                v = (e.cls, e.msg)
            except core.Discard as e:
                res['discard'] = str(e)
            except core.HarnessError as e:
                res['harness'] = traceback.format_exc()
            except values.Mismatch as e:
                v = ('inconsistent-read', str(e))
            except Exception as e:
                hits = classify(e, sut)
                if hits:
                    v = ('unexpected-exception:' + type(e).__name__,
                         '%s: %s at %s' % (type(e).__name__, str(e)[:300], '/'.join(hits[-1][0].split('/')[-2:]) + ':' +
                                           str(hits[-1][1])))
                    run.log(traceback.format_exc())
                else:
                    # nothing escapes a run on the unchanged tree: the code under test returned something absurd
                    v = ('unexpected-exception:' + type(e).__name__, traceback.format_exc()[-1500:])
                    run.log(traceback.format_exc())
            except BaseException as e:
                res['harness'] = traceback.format_exc()
            res.update(digest=run.digest(), nlog=run.nlog, simtime=run.simtime, steps=run.steps,
                       faults=run.faults, probes=run.probes, states=list(run.states)[:400], nch=len(ch.rec))
            if v:
                res['violation'] = v
            if v or item.get('keep') or 'harness' in res:
                res['choices'] = ch.rec
                res['lines'] = run.lines
            n += 1
            if n % 50 == 0:
                gc.collect()
            out.write(json.dumps(res) + '\n')
            out.flush()
        out.write('{"batch": 1}\n')
        out.flush()
    out.close()
    os._exit(0)


if __name__ == '__main__':
    main()
