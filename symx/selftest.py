"""Engine self-test: known-true and known-false obligations, exhaustiveness of forking, replay."""
import time
from . import env
from . import core, explore as ex


def h_true(S, c):
    x, y = S.int('x'), S.int('y')
    d = {x: 1}
    d[y] = 2
    S.check(core.eqt(len(d), core.Ite(core.eqt(x, y), 1, 2)), 'dict size')


def h_false(S, c):
    x = S.real('x')
    S.assume(x > 3)
    S.check(x < 10, 'false for large x')


def h_paths(S, c):
    n = 0
    for i in range(4):
        n += 1 if S.bool('b%d' % i) else 0
    S.check(n <= 4, 'count')


def h_conc(S, c):
    i = S.int('i', 0, 4)
    S.check([0, 1, 2, 3, 4][i] == S.conc(i), 'index')


def h_exc(S, c):
    x = S.real('x')
    1 / (x - 2)
    S.check(True, 'reached')


def h_sqrt(S, c):
    import math
    x = S.real('x')
    S.assume(x > 0)
    r = math.sqrt(x)
    S.check(core.eqt(r * r, x), 'sqrt')


def main():
    env.load()
    dl = time.time() + 100
    r = {f.__name__: ex.explore(f, {}, [], 50, dl) for f in (h_true, h_false, h_paths, h_conc, h_exc, h_sqrt)}
    assert not r['h_true']['violations'] and r['h_true']['stats']['paths'] == 2
    assert r['h_false']['violations'] and r['h_false']['violations'][0]['values']['x'] >= 10
    assert r['h_paths']['stats']['paths'] == 16 and not r['h_paths']['violations']
    assert r['h_conc']['stats']['paths'] == 5 and not r['h_conc']['violations']
    assert 'ZeroDivisionError' in r['h_exc']['violations'][0]['label']
    assert not r['h_sqrt']['violations'] and r['h_sqrt']['finished_paths'] == 1
    print('symx self-test OK, z3', core.z3.get_version_string())


if __name__ == '__main__':
    main()
