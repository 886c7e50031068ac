"""Source of properties.jsonl and MANIFEST.json: run python3 tools/props.py."""
import json
import os

P = []
NA = []
S = 'discs/samplers/'


def prop(pid, title, statement, over, qtext, why, files, mech, note,
         observe=None, state=None, technique=None):
  P.append((dict(
      id=pid, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=a, where=b)
                                           for a, b in mech],
                   **({'observe_at': observe} if observe else {}),
                   **({'state': state} if state else {}))),
            note, technique))


KW = ('The repository has no test that looks at a transition probability; the '
      'stable tests only call two methods of one model. A sampled test sees a '
      'few model tables and a few random keys, and a wrong kernel still '
      'returns plausible samples.')
KT = ('symbolic execution of the jaxpr of the real step() with symbolic random '
      'draws and an uninterpreted target; z3 on the resulting identity; '
      'counterexamples replayed statistically on the unpatched sampler')
KN = ('z3 over all values of the target (every log-likelihood and gradient '
      'entry is a free real) and of the carried state, all random outcomes; '
      'bounded to the listed shapes/categories/batches; one step from an '
      'arbitrary state; real arithmetic')


def kernel(pid, title, statement, files, mech, q=None, note=KN):
  prop(pid, title, statement, ['inputs', 'histories', 'configurations'],
       q or 'every target distribution, every start state and sampler state '
       'after the first step, every random outcome; shapes and options listed '
       'in the evidence', KW, files, mech, note,
       observe=['value returned by one sampler step'], technique=KT)


kernel('S01', 'Gibbs step draws the scanned site from its exact conditional',
       'One step of the Gibbs sampler leaves every site but the scanned one '
       'unchanged and sets the scanned site to each category with exactly the '
       'conditional probability of that category given the other sites under '
       'the target distribution. This holds for binary and multi-category '
       'targets and for every chain of the batch.',
       [S + 'gibbs.py'], [('site conditional', S + 'gibbs.py: step')])
kernel('S02', 'Block Gibbs step draws the block from its exact joint conditional',
       'One step of the block Gibbs sampler leaves every site outside the '
       'current block unchanged and draws the block jointly, each joint '
       'assignment with exactly its conditional probability given the rest. A '
       'block that does not fit at the end of the lattice is truncated, not '
       'wrapped or padded.',
       [S + 'blockgibbs.py'], [('block enumeration', S + 'blockgibbs.py: step')])
kernel('S03', 'Hamming ball sampler leaves the target distribution invariant',
       'For every target distribution, applying one Hamming ball step to a '
       'state distributed according to the target yields a state with the '
       'same distribution, for each chain of the batch. In particular the '
       'radius is drawn in proportion to the number of states at that distance.',
       [S + 'hammingball.py'], [('radius and auxiliary draw', S + 'hammingball.py: step')])
kernel('S04', 'Random walk Metropolis is reversible for the target',
       'For all states x and y, the probability of x under the target times '
       'the probability that one random-walk step moves x to y equals the same '
       'product with x and y exchanged. This holds whatever the current '
       'proposal radius is, adaptive or not.',
       [S + 'randomwalk.py', S + 'abstractsampler.py', 'discs/common/math_util.py'],
       [('proposal and MH accept', S + 'randomwalk.py: step')])
kernel('S05', 'Gibbs-with-gradients is reversible for the target',
       'For all states x and y, target(x) times the probability of moving x to '
       'y in one Gibbs-with-gradients step equals target(y) times the '
       'probability of moving y to x, for every gradient the model reports, '
       'every balancing function, number of flips, mask and adaptation state. '
       'This holds per chain for batches too.',
       [S + 'gwg.py', S + 'locallybalanced.py', 'discs/common/math_util.py'],
       [('proposal and MH accept', S + 'gwg.py: step')])
kernel('S06', 'Path auxiliary sampler is reversible for the target',
       'For all states x and y, target(x) times the probability of moving x to '
       'y in one path-auxiliary step equals target(y) times the probability of '
       'moving y to x, for every gradient or log-ratio the model reports, '
       'every balancing function, path length, mask and adaptation state.',
       [S + 'path_auxiliary.py', S + 'locallybalanced.py', 'discs/common/math_util.py'],
       [('path proposal and MH accept', S + 'path_auxiliary.py: step')])
kernel('S07', 'Discrete Langevin Monte Carlo is reversible for the target',
       'After the step that initialises the step size, for all states x and y, '
       'target(x) times the probability of moving x to y in one step equals '
       'target(y) times the probability of moving y to x, for every gradient '
       'the model reports, every balancing function, solver and step size.',
       [S + 'dlmc.py', S + 'locallybalanced.py'],
       [('proposal and MH accept', S + 'dlmc.py: step')])
kernel('S08', 'Discrete MALA is reversible for the target',
       'After the step that initialises the step size, for all states x and y, '
       'target(x) times the probability of moving x to y in one step equals '
       'target(y) times the probability of moving y to x, for every gradient '
       'the model reports, every balancing function and step size.',
       [S + 'dmala.py', S + 'locallybalanced.py'],
       [('proposal and MH accept', S + 'dmala.py: step')])
kernel('S09', 'Chains of one batch do not influence one another',
       'When several chains are advanced together, the next state of each '
       'chain has exactly the distribution it would have if that chain were '
       'advanced alone with the same sampler state, whatever the other chains '
       'contain; for every sampler except Hamming ball (which shares one '
       'radius draw) the chains also move independently given their states.',
       [S + f for f in ('gibbs.py', 'blockgibbs.py', 'hammingball.py',
                        'randomwalk.py', 'gwg.py', 'path_auxiliary.py',
                        'dlmc.py', 'dmala.py')],
       [('batched proposal, accept and select', 'discs/samplers: step of each sampler')],
       q='every pair of chain states and every target; batch of two')

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),
                       'props_more.py')).read())


def main():
  root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
  with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p, _, _ in P:
      f.write(json.dumps(p) + '\n')
    for p, _ in NA:
      f.write(json.dumps(p) + '\n')
  checks = []
  for p, note, tech in P:
    assert len(p['title']) <= 80, p['id']
    if not os.path.exists(os.path.join(root, 'checks', p['id'] + '.py')):
      raise SystemExit('no check for ' + p['id'])
    checks.append(dict(
        property=p['id'], quick_cmd='bash /verif/check.sh %s quick' % p['id'],
        thorough_cmd='bash /verif/check.sh %s thorough' % p['id'],
        technique=tech, level='model_checking', level_note=note,
        evidence_file='evidence/%s.json' % p['id']))
  man = dict(version=1, setup_cmd='true', checks=checks,
             not_applicable=[dict(property=p['id'], reason=r) for p, r in NA],
             notes='Bounded symbolic execution of the real code (jaxprs and '
             'Python source from /repo at run time) with z3; see DESIGN.md.')
  with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')


main()
