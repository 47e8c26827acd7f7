"""Exploration of one harness instance and replay of counterexamples."""
import signal, sys, time, traceback
from fractions import Fraction
from . import core, env
from .core import (SymCtx, ConcreteCtx, PathCut, PathInfeasible, PathTimeout, CheckFailed, Inconclusive,
                   EngineSignal, Stats)

PATH_SECONDS = 60


def _alarm(signum, frame):
    raise PathTimeout("path time limit")


class Timer(object):
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        return False


def describe_exc(e):
    tb = traceback.extract_tb(e.__traceback__)
    loc = [f for f in tb if '/pymnet/' in f.filename]
    f = loc[-1] if loc else tb[-1]
    return '%s: %s (%s:%s in %s)' % (type(e).__name__, str(e)[:200], f.filename, f.lineno, f.name)


class Functions(object):
    """Records which pymnet functions execute (sys.monitoring; each reported once)."""
    def __init__(self):
        self.seen = set()
        mon = sys.monitoring
        try:
            mon.use_tool_id(4, 'symx')
        except ValueError:
            return
        pre = env.REPO + '/pymnet/'

        def start(code, off):
            if code.co_filename.startswith(pre):
                self.seen.add('%s:%s' % (code.co_filename[len(env.REPO) + 1:], code.co_qualname))
            return mon.DISABLE
        mon.register_callback(4, mon.events.PY_START, start)
        mon.set_events(4, mon.events.PY_START)

    def take(self):
        s, self.seen = self.seen, set()
        sys.monitoring.restart_events()
        return s


def replay(fn, cfg, values, limit=PATH_SECONDS, floats=None):
    """Run the harness on ordinary values. Returns (status, detail):
    'ok' | 'violated' | 'infeasible' | 'cut' | 'hang'."""
    saved = core.CTX
    env.remove_shadows()
    ctx = ConcreteCtx(values)
    core.CTX = ctx
    env.POLICY.configure(cfg)
    try:
        with Timer(limit):
            fn(ctx, cfg)
        return 'ok', ''
    except CheckFailed as e:
        return 'violated', e.label
    except PathInfeasible:
        return 'infeasible', ''
    except PathCut as e:
        return 'cut', str(e)
    except PathTimeout:
        return 'hang', 'no result after %d s' % limit
    except RecursionError as e:
        return 'violated', 'unexpected exception: ' + describe_exc(e)
    except Exception as e:
        d = describe_exc(e)
        if floats is None and any(isinstance(v, Fraction) for v in leaves(values)):
            # the exception has to be raised for native floats as well (numpy functions refuse fractions)
            s, d2 = replay(fn, cfg, native(values), limit, floats=True)
            if s != 'violated' or not d2.startswith('unexpected exception'):
                return 'fractions only', d
        return 'violated', 'unexpected exception: ' + d
    finally:
        core.CTX = saved
        if isinstance(saved, SymCtx):
            env.install_shadows()


def leaves(v):
    if isinstance(v, dict):
        v = list(v.values())
    if isinstance(v, (list, tuple)):
        for x in v:
            for y in leaves(x):
                yield y
    else:
        yield v


def native(v):
    if isinstance(v, dict):
        return {k: native(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(native(x) for x in v)
    return float(v) if isinstance(v, Fraction) else v


def explore(fn, cfg, prefix, seconds, deadline, max_paths=10 ** 9, sample=False):
    """Explore the subtree below prefix for at most `seconds`; returns a result dict with
    the prefixes left over."""
    st = Stats()
    ctx = SymCtx(st, deadline)
    env.install_shadows()
    todo = [(list(prefix), 0)]
    t0 = time.time()
    out = {'violations': [], 'errors': [], 'inconclusive': [], 'left': [], 'samples': [], 'finished_paths': 0,
           'covered': {}}
    core.CTX = ctx
    env.POLICY.configure(cfg)
    try:
        while todo:
            if time.time() - t0 > seconds or time.time() > deadline or st.paths >= max_paths:
                out['left'] = [p for p, k in todo]
                break
            pre, keep = todo.pop()
            ctx.start_path(pre, keep)
            core.CTX = ctx
            st.paths += 1
            nviol = len(ctx.violations)
            verdict = 'done'
            try:
                with Timer(PATH_SECONDS):
                    try:
                        fn(ctx, cfg)
                    except (PathInfeasible, PathTimeout):
                        raise
                    except BaseException as e:
                        ctx.flush()
                        raise
                    ctx.flush()
                if ctx.path_obl:
                    out['finished_paths'] += 1
            except PathCut as e:
                verdict = 'violated' if len(ctx.violations) > nviol else 'cut'
                if verdict == 'cut':
                    st.cut += 1
            except PathInfeasible:
                verdict = 'infeasible'
                st.infeasible += 1
            except PathTimeout as e:
                if time.time() > deadline:
                    out['left'] = [pre] + [p for p, k in todo]
                    break
                verdict, why = 'odd', 'path time limit'
            except Inconclusive as e:
                verdict, why = 'odd', e.why
            except AssertionError as e:
                if 'nondeterministic' in str(e):
                    raise
                verdict, why = 'odd', describe_exc(e)
            except Exception as e:
                verdict, why = 'odd', describe_exc(e)
            if ctx.pinned and verdict == 'done':
                st.inconclusive += 1
                out['inconclusive'].append('a symbolic value was converted to a native float')
            if verdict == 'violated':
                label, values = ctx.violations[-1]
                st.replays += 1
                s, d = replay(fn, cfg, values)
                if s in ('violated', 'hang'):
                    out['violations'].append({'label': d if s == 'violated' else 'hang', 'symbolic_label': label,
                                              'values': values})
                elif s == 'cut':
                    st.cut += 1
                elif s == 'fractions only':
                    st.inconclusive += 1
                    out['inconclusive'].append(d)
                else:
                    out['errors'].append({'label': label, 'values': values, 'replay': s})
            elif verdict == 'odd':
                # an exception (or a construct the engine cannot follow): decide with a model of the path
                values = ctx.witness()
                if values is None:
                    st.infeasible += 1
                else:
                    st.replays += 1
                    s, d = replay(fn, cfg, values)
                    if s in ('violated', 'hang'):
                        out['violations'].append({'label': d if s == 'violated' else 'hang', 'symbolic_label': why,
                                                  'values': values})
                    else:
                        st.inconclusive += 1
                        out['inconclusive'].append(why)
            elif verdict == 'done' and sample and len(out['samples']) < 2 and st.paths in (1, 5):
                w = ctx.witness()
                if w is not None:
                    st.replays += 1
                    s, d = replay(fn, cfg, w)
                    if s == 'ok':
                        out['samples'].append(w)
                    elif s == 'violated':
                        out['violations'].append({'label': d, 'symbolic_label': 'witness replay', 'values': w})
            core.CTX = ctx
            # alternatives, deepest first on top of the stack
            for i in range(len(pre), len(ctx.trace)):
                kind, v, alt = ctx.trace[i]
                if not alt:
                    continue
                head = ctx.trace[:i]
                flip = ('b', not v, False) if kind == 'b' else ('x', v, False)
                todo.append((head + [flip], ctx.dpos_entry[i]))
            if len(out['violations']) >= 3:
                out['left'] = []
                out['stopped'] = True
                break
    finally:
        core.CTX = None
        env.remove_shadows()
    # a retained solver prefix is only valid in this process
    out['stats'] = st.as_dict()
    return out
