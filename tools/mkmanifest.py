#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
C = []
def c(prop, technique, note, level='model_checking'):
    C.append({'property': prop, 'quick_cmd': 'python3 tools/check.py %s --tier quick' % prop, 'thorough_cmd': 'python3 tools/check.py %s --tier thorough' % prop,
              'technique': technique, 'level': level, 'level_note': note})
T = 'TLA+ trace validation with TLC: API traces recorded from the real library are checked against spec/PslpTrace.tla'
N = 'Every recorded behaviour is judged by TLC with exact rational arithmetic; coverage is the generated inputs, not all inputs. Trusts TLC, the Rat override and the driver\'s recording; the solver that produces certificates is not trusted (the specification checks them).'
c('C01', T + ' (invariant InfeasibleSound), on small scopes enumerated by TLC and on generated families', N)
c('C02', T + ' (invariant UnbndOrInfeasSound), on small scopes enumerated by TLC and on generated families', N)
c('C03', 'TLC on the reductions and their postsolve as a transition system (spec/Presolve.tla, every order of reductions on small problems); ' + T + ' (invariant Equivalent)', N)
c('C04', T + ' (invariant PostPrimal), on small scopes enumerated by TLC and on generated families', N)
c('C05', T + ' (invariant PostDual), on small scopes enumerated by TLC and on generated families', N)
c('C06', 'TLC on the main loop (spec/Phases.tla); ' + T + ' (invariants ShapeNew, ShapeRun, Exhausted, and TimesTrue under a clock of the driver)', N)
c('C07', 'API histories enumerated by TLC (spec/ApiGen.tla) replayed into the library, traces validated by TLC (InputIntact, SameRun, SamePost, SameView)', N)
c('C08', 'API histories enumerated by TLC (spec/ApiGen.tla) replayed into the library under an allocation ledger, traces validated by TLC (SameRun, SamePost, SameView, Ledger)', N)
c('C09', T + ' (invariants OnlyTrivial and FiniteBoundsKept against the functional specification spec/Trivial.tla, OffMeansOff, Silent, DefaultsRight)', N)
c('C10', 'TLC on the design of the construction (spec/Build.tla: no race, same object under every interleaving); TLA+ trace validation with TLC of constructions under forced thread orders and under a race detector (Accepted, SameRun, SamePost)', N)
c('C11', 'TLC on the design of the construction (spec/Build.tla, any set of failing allocations); enumeration of every failing allocation of the real constructor (alone, with all later ones, with a second one), traces validated by TLC (Builds, Ledger)', N)
c('C12', 'TLA+ trace validation with TLC (Accepted: every call returned, and no memory checker objected) on a build with address and undefined-behaviour sanitizers and under valgrind', N)
c('C13', 'TLC on the main loop (spec/Phases.tla); ' + T + ' (StopsSoon, SameRun and all result invariants), under a clock that jumps at every possible point', N)
c('C14', 'TLA+ trace validation with TLC of concurrent sessions, which have to be explained by the sequential specification (Accepted, SameRun, SamePost), under a race detector and at full speed', N)
c('C15', 'TLC on the main loop (spec/Phases.tla, Settled); ' + T + ' (invariants NothingLeft and NothingMissed: the patterns of spec/Left.tla do not occur in what is returned), on small scopes enumerated by TLC and on generated families', N)
M = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': C, 'not_applicable': []}
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'MANIFEST.json')
    json.dump(M, open(out, 'w'), indent=1); open(out, 'a').write('\n')
