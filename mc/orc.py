"""All equivalence oracles under tiny parameters, with every random choice enumerated."""
from .build import build, ref_sul, ALPHABETS
from .ref import machines, from_key, family
from .choices import explore

LOW, HIGH = 0.0, 1 - 2 ** -53


def factories():
    from aalpy import oracles as O
    from aalpy.oracles.PacOracle import PacOracle
    from aalpy.oracles.ProvidedSequencesOracleWrapper import ProvidedSequencesOracleWrapper as Prov
    from aalpy.oracles.PerfectKnowledgeEqOracle import PerfectKnowledgeEqOracle as Perfect
    F = {}
    F['walk'] = lambda A, s, x: O.RandomWalkEqOracle(A, s, num_steps=4, reset_prob=0.5)
    F['walk_total'] = lambda A, s, x: O.RandomWalkEqOracle(A, s, num_steps=5, reset_after_cex=False, reset_prob=0.5)
    F['word'] = lambda A, s, x: O.RandomWordEqOracle(A, s, num_walks=2, min_walk_len=1, max_walk_len=3)
    F['word_total'] = lambda A, s, x: O.RandomWordEqOracle(A, s, num_walks=2, min_walk_len=2, max_walk_len=3, reset_after_cex=False)
    F['pac'] = lambda A, s, x: PacOracle(A, s, epsilon=0.7, delta=0.7, min_walk_len=1, max_walk_len=2)
    F['prefix_df'] = lambda A, s, x: O.StatePrefixEqOracle(A, s, walks_per_state=1, walk_len=2)
    F['prefix_sh'] = lambda A, s, x: O.StatePrefixEqOracle(A, s, walks_per_state=2, walk_len=1, max_tests=3, depth_first=False)
    F['focus'] = lambda A, s, x: O.TransitionFocusOracle(A, s, num_random_walks=2, walk_len=2, same_state_prob=0.5)
    F['w'] = lambda A, s, x: O.WMethodEqOracle(A, s, x['m'])
    F['wp'] = lambda A, s, x: O.WpMethodEqOracle(A, s, x['m'])
    F['rw'] = lambda A, s, x: O.RandomWMethodEqOracle(A, s, walks_per_state=1, walk_len=2)
    F['rwp'] = lambda A, s, x: O.RandomWpMethodEqOracle(A, s, min_length=1, expected_length=1, num_tests=2)
    F['bfs'] = lambda A, s, x: O.BreadthFirstExplorationEqOracle(A, s, depth=3)
    F['kstate_p'] = lambda A, s, x: O.KWayStateCoverageEqOracle(A, s, k=2, random_walk_len=2, method='permutations')
    F['kstate_c'] = lambda A, s, x: O.KWayStateCoverageEqOracle(A, s, k=2, random_walk_len=1, method='combinations')
    F['ktrans_r'] = lambda A, s, x: O.KWayTransitionCoverageEqOracle(A, s, k=2, method='random', num_generate_paths=1, max_path_len=3)
    F['ktrans_q'] = lambda A, s, x: O.KWayTransitionCoverageEqOracle(A, s, k=2, method='random', num_generate_paths=1, max_path_len=2,
                                                                       optimize='queries')
    F['ktrans_p'] = lambda A, s, x: O.KWayTransitionCoverageEqOracle(A, s, k=2, method='prefix', random_walk_len=1)
    F['cache'] = lambda A, s, x: O.CacheBasedEqOracle(A, s, num_walks=2, depth_increase=1)
    F['provided'] = lambda A, s, x: Prov(A, s, O.WMethodEqOracle(A, s, x['m']), x['words'])
    F['perfect'] = lambda A, s, x: Perfect(A, s, x['model'])
    return F


# oracles that compare every single output and therefore return the shortest differing prefix of a test
FIRST_DIFF = {'walk', 'walk_total', 'word', 'word_total', 'pac', 'focus', 'w', 'wp', 'rw', 'rwp', 'bfs', 'kstate_p', 'kstate_c',
              'ktrans_r', 'ktrans_q', 'ktrans_p', 'provided', 'perfect'}
OPTS = {n: {} for n in ('walk', 'walk_total', 'word', 'word_total', 'pac', 'prefix_df', 'prefix_sh', 'focus', 'w', 'wp', 'rw', 'rwp',
                        'bfs', 'kstate_p', 'kstate_c', 'ktrans_r', 'ktrans_q', 'ktrans_p', 'cache', 'provided', 'perfect')}
for n in ('bfs', 'prefix_sh', 'kstate_p', 'kstate_c', 'rw'):
    OPTS[n] = dict(shuffle='ends')
for n in ('walk', 'walk_total', 'focus', 'rwp', 'ktrans_p'):
    OPTS[n] = dict(OPTS[n], floats=(HIGH, LOW) if n.startswith('walk') else (LOW, HIGH))


def snapshot(hyp):
    ids = {id(s): j for j, s in enumerate(hyp.states)}
    return ([(repr(s.state_id), tuple(s.prefix) if s.prefix is not None else None, [(a, ids.get(id(t))) for a, t in s.transitions.items()],
              repr(getattr(s, 'output_fun', None)), repr(getattr(s, 'output', None))) for s in hyp.states], ids.get(id(hyp.initial_state)))


def pairs(tier, thin=1):
    """(system, hypothesis) pairs with the same answer to the empty word."""
    for kind in ('dfa', 'moore', 'mealy'):
        ms = [m for n in (1, 2) for m in machines(kind, n, 2, minimal=True)]
        fam = [m for _, m in family(kind, 2) if m.n <= 5]
        three = list(machines(kind, 3, 2, minimal=True))
        three = three[:: 60 if kind == 'mealy' else 12]
        step = {'dfa': 2, 'moore': 1, 'mealy': 23}[kind] * thin
        k = 0
        for a in ms:
            for b in ms:
                if kind != 'mealy' and a.out[0] != b.out[0]:
                    continue
                if k % step == 0 or a is b:
                    yield a.key(), b.key()
                k += 1
        k = 0
        for a in fam + three:
            for b in ms + three[::7]:
                if kind != 'mealy' and a.out[0] != b.out[0]:
                    continue
                if k % (step * 5) == 0:
                    yield a.key(), b.key()
                k += 1
        for a in fam:
            yield a.key(), a.key()


def env(name, sref, href, A):
    from aalpy.base.SUL import CacheSUL
    base = ref_sul(sref, A)
    sul = base
    hyp = build(href, A)
    hyp.compute_prefixes()
    if name == 'cache':
        sul = CacheSUL(base)
        sul.query((A[0],))
        sul.query((A[1], A[0]))
    words = [(A[0], A[0]), [A[1]], (A[1], A[0], A[1]), (A[0], A[0])]
    x = dict(m=max(sref.n, href.n), words=words, model=build(sref, A))
    return base, sul, hyp, x
