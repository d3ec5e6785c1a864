#!/usr/bin/env python3
"""writes properties.jsonl (one place to edit it)"""
import json, os
PS = []
def P(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': hook}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    PS.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
               'why_tests_cant': why, 'anchors': a})
RED = ['src/explorers/SimpleReductions.c', 'src/explorers/StonCols.c', 'src/explorers/DtonsEq.c', 'src/explorers/Parallel_rows.c',
       'src/explorers/Parallel_cols.c', 'src/explorers/Primal_propagation.c', 'src/explorers/Simple_dual_fix.c',
       'src/core/CoreTransformation.c', 'src/core/Activity.c', 'src/core/Presolver.c']

P('C01', 'An "infeasible" verdict is only given to infeasible problems',
  'When presolving reports that a problem is infeasible, no point satisfies all its row sides and variable bounds (beyond the feasibility tolerance the library works with). A feasible problem never gets this verdict, whichever reductions are enabled.',
  ['inputs', 'configurations'], 'for every LP (rows with equal, one, two or no finite sides; free, boxed, half-bounded, fixed variables) and every combination of settings',
  'The tests contain a handful of infeasible problems; that no feasible problem among all problems and settings is rejected is a statement about the problems they do not contain.',
  RED, [('bound and side clash tests with the feasibility tolerance', 'src/explorers/SimpleReductions.c, src/core/CoreTransformation.c'),
        ('row activities against sides', 'src/explorers/Primal_propagation.c'), ('parallel rows with incompatible sides', 'src/explorers/Parallel_rows.c')],
  ['the value returned by run_presolver'])
P('C02', 'An "unbounded or infeasible" verdict is never given to a problem with an optimum',
  'When presolving reports that a problem is unbounded or infeasible, the problem has no optimal solution: either no point is feasible or the objective is unbounded below on the feasible points.',
  ['inputs', 'configurations'], 'for every LP and every combination of settings',
  'Tests show the verdict on chosen unbounded problems, not its absence on all problems that have an optimum.',
  ['src/explorers/Simple_dual_fix.c', 'src/explorers/SimpleReductions.c', 'src/explorers/StonCols.c', 'src/explorers/Parallel_cols.c', 'src/core/Presolver.c'],
  [('dual fixing and empty columns with an unbounded direction', 'src/explorers/Simple_dual_fix.c, src/explorers/SimpleReductions.c'),
   ('dominated merged columns', 'src/explorers/Parallel_cols.c')], ['the value returned by run_presolver'])
P('C03', 'The reduced problem is equivalent to the original one',
  'After presolving, the reduced problem is infeasible, unbounded or solvable exactly when the original problem is. If they are solvable, the optimal value of the reduced problem plus its objective offset is the optimal value of the original problem.',
  ['inputs', 'configurations'], 'for every LP and every combination of settings, after any number and order of reductions',
  'Each test compares a reduced problem with an expected one for a single reduction on a single problem; the interaction of reductions over all problems is untested.',
  RED, [('every reduction preserves the optimal value', 'src/explorers/*.c'), ('objective offset of fixed and substituted variables', 'src/core/Problem.c'),
        ('incremental activities, locks and sizes that reductions rely on', 'src/core/Activity.c, src/core/Locks.c, src/core/CoreTransformation.c')],
  ['reduced_prob after run_presolver'])
P('C04', 'Postsolve turns a feasible reduced point into a feasible one of equal objective',
  'For every point that is feasible for the reduced problem, postsolving yields a point of the original dimension that is finite, satisfies all original row sides and variable bounds, and has the objective value of the reduced point plus the objective offset.',
  ['inputs', 'configurations', 'histories'], 'for every LP, every settings, and every feasible (vertex, interior, optimal or not) point of the reduced problem, postsolved any number of times',
  'The tests postsolve one hand-picked solution of a few problems.',
  ['src/core/Postsolver.c', 'src/core/CoreTransformation.c'] + RED[:7],
  [('record of each reduction, undone in reverse order', 'src/core/Postsolver.c'), ('reduced-to-original index maps', 'src/core/State.c, src/core/Postsolver.c')],
  ['sol->x after postsolve'])
P('C05', 'Postsolve turns an optimal reduced primal-dual pair into an original optimal one',
  'For every primal-dual solution that satisfies the optimality conditions of the reduced problem, the postsolved primal-dual solution satisfies those of the original: reduced costs equal c - A\'y, and a nonzero row or variable multiplier has the sign of a side or bound that is active.',
  ['inputs', 'configurations', 'histories'], 'for every LP, every settings, and every optimal pair of the reduced problem, including degenerate ones and ones that are not vertices',
  'Dual postsolve depends on which bounds are active at the particular solution: each test exercises one of exponentially many patterns.',
  ['src/core/Postsolver.c'] + RED[:7],
  [('multipliers of implied bounds moved to the rows that implied them', 'src/core/Postsolver.c'), ('deleted and transformed rows get their multiplier back', 'src/core/Postsolver.c'),
   ('split of merged columns', 'src/core/Postsolver.c')], ['sol->y and sol->z after postsolve'])
P('C06', 'The reduced problem is well formed, no larger, and truthfully reported',
  'A presolved problem is a valid CSR problem with consistent sides and bounds, has at most as many rows, columns and nonzeros as the original, and contains no empty column and no row with fewer than two entries. The status says "unchanged" exactly if none of the three sizes changed, and the reported sizes and removed-nonzero counts agree with the problem and add up, and the reported times are those that passed on the clock.',
  ['inputs', 'configurations'], 'for every LP and every combination of settings',
  'Consistency checks run only in debug builds on the tests\' problems; a release build checks nothing.',
  ['src/core/Presolver.c', 'src/core/Problem.c', 'src/core/Constraints.c', 'src/core/Matrix.c', 'src/core/State.c'],
  [('compaction of rows, columns and bounds', 'src/core/Problem.c, src/core/Constraints.c, src/core/Matrix.c'), ('statistics accumulated per phase', 'src/core/Presolver.c')],
  ['reduced_prob, stats and the value returned by run_presolver'])
P('C07', 'The caller\'s data are neither modified nor needed after construction',
  'No call modifies the arrays, the settings or the solution vectors it is given. Once a presolver has been built, overwriting, reusing or releasing the arrays it was built from changes nothing about what presolving and postsolving return.',
  ['inputs', 'histories'], 'for every LP and every history of calls in which the caller overwrites or frees its arrays at any point after construction',
  'No test modifies its arrays after construction and looks at the results.',
  ['src/core/Presolver.c', 'src/core/Matrix.c', 'include/PSLP/PSLP_API.h'], [('deep copies of all input arrays', 'src/core/Presolver.c, src/core/Matrix.c')],
  ['results of run_presolver and postsolve; contents of the caller\'s arrays'])
P('C08', 'Results do not depend on the history of calls or on other presolver objects',
  'What presolving and postsolving return depends on the problem, the settings and the arguments only: not on other presolver objects alive, built, run or freed in between, on how often postsolve was called before, or on the contents of fresh memory. The reduced problem stays as it is until its presolver is freed, the solution until the next postsolve, and freeing releases everything that was allocated exactly once.',
  ['histories', 'inputs'], 'for every LP and every legal history of build, run, postsolve, read and free calls over several presolver objects',
  'Tests use one object and one call sequence; histories are unbounded.',
  ['src/core/Presolver.c', 'src/core/Postsolver.c', 'src/core/State.c', 'src/core/Workspace.c'],
  [('all state hangs off the presolver object', 'src/core/Presolver.c'), ('postsolve starts from scratch on every call', 'src/core/Postsolver.c'), ('ownership tree released by free', 'src/core/*.c')],
  ['return values, reduced_prob and sol of every call; the allocation ledger'])
P('C09', 'Settings mean what they say',
  'A reduction that is switched off removes nothing, finite bounds are not tightened by propagation when that is off, and nothing is printed when verbose is off (which changes nothing else; when it is on, presolving reports the sizes of the problem before and after, or the verdict). When none of the enabled reductions finds anything to do, the presolved problem is the original without its fixed variables, singleton rows, empty rows and empty columns, and nothing else; and of a problem that falls into independent parts, this goes for each part, whatever happens to the others. The default settings switch every reduction on; switching all on or off leaves the limits alone.',
  ['configurations', 'inputs'], 'for every combination of settings and every LP',
  'Tests call single reductions directly or use a few settings; that a reduction does not happen is not observed for any other combination.',
  ['src/core/Presolver.c', 'src/explorers/SimpleReductions.c', 'src/explorers/Primal_propagation.c', 'include/PSLP/PSLP_API.h'],
  [('each reduction guarded by its flag', 'src/core/Presolver.c'), ('trivial reductions that always run', 'src/explorers/SimpleReductions.c'), ('default and all-on, all-off settings', 'src/core/Presolver.c')],
  ['reduced_prob and stats after run_presolver; standard output; the settings objects'])
P('C10', 'Construction gives the same presolver under every schedule of its threads',
  'Building a presolver uses a second thread, and no two concurrent parts of the construction touch the same memory unless both only read it. Whatever the schedule, the object built is the same: presolving and postsolving return the same.',
  ['schedules', 'inputs'], 'for every LP and every interleaving of the threads used by construction',
  'A test runs under whatever schedule the machine happens to produce.',
  ['src/core/Presolver.c', 'src/core/Matrix.c', 'src/core/Locks.c', 'src/core/Activity.c'],
  [('work split so that the second thread writes only its own outputs, joined before use', 'src/core/Presolver.c')],
  ['results of run_presolver and postsolve; memory accesses of the two threads'])
P('C11', 'A failed allocation makes construction return NULL and nothing else',
  'If any allocation made while building a presolver fails, construction returns NULL, having released whatever it had allocated; it neither crashes nor releases anything twice, and other presolver objects are unaffected. Without a failure it never returns NULL, and if its thread cannot be started it still returns either NULL or a presolver that works.',
  ['fault_sequences', 'inputs'], 'for every LP and every allocation (in turn) made by the construction, under each order of its threads',
  'No test makes an allocation fail.',
  ['src/core/Presolver.c', 'src/core/Constraints.c', 'src/core/State.c', 'src/core/Matrix.c', 'src/core/Workspace.c', 'src/core/Postsolver.c', 'src/core/Problem.c'],
  [('checks after each group of allocations and a common clean-up path', 'src/core/Presolver.c')], ['value returned by new_presolver; the allocation ledger'])
P('C12', 'Every call on valid data returns without a memory error',
  'Building, running, postsolving, reading and freeing always return for valid problems, without reading or writing outside the memory that belongs to the library or the caller\'s arrays, without using freed or uninitialised memory and without undefined arithmetic.',
  ['inputs', 'configurations', 'histories'], 'for every LP, every combination of settings and every legal history of calls',
  'The tests are not run under sanitizers here and cover few shapes of problem.',
  ['src/core/Matrix.c', 'src/core/CoreTransformation.c', 'src/core/Presolver.c', 'src/core/Postsolver.c', 'src/explorers/'],
  [('row storage with slack and shifting', 'src/core/Matrix.c'), ('growable vectors', 'include/data_structures'), ('main loop terminates when a cycle removes little', 'src/core/Presolver.c')],
  ['return of every call, in a build with address and undefined-behaviour checking'])
P('C13', 'When its time is up, presolving stops soon and with a valid result',
  'Once the time a presolve was given has passed, it ends after at most the round of reductions under way, however much it could still reduce. What it has by then is a reduced problem as good as any other: equivalent to the original, well formed, and fit for postsolving. Before that the time has no influence on the result.',
  ['schedules', 'inputs', 'configurations'], 'for every LP, every time limit, and every point of the run at which the time runs out',
  'No test runs out of time, let alone at every point of a run.',
  ['src/core/Presolver.c', 'include/explorers/Timer.h'],
  [('elapsed time compared with the limit after every phase', 'src/core/Presolver.c'), ('every phase leaves a consistent problem behind', 'src/core/Presolver.c, src/explorers/*.c')],
  ['the value returned by run_presolver, reduced_prob, sol after postsolve; readings of the clock'])
P('C14', 'Different presolvers can work at the same time in different threads',
  'Threads that build, run, postsolve and free presolvers of their own, at the same time and in any interleaving, each get what they would get alone. They never touch the same memory unless all of them only read it.',
  ['schedules', 'inputs', 'histories'], 'for every number of threads, each with its own presolvers, and every interleaving of their calls',
  'All tests are single-threaded.',
  ['src/explorers/Parallel_rows.c', 'src/explorers/Primal_propagation.c', 'src/core/Presolver.c'],
  [('no mutable state outside the presolver object (sorting contexts are per thread)', 'src/explorers/Parallel_rows.c, src/explorers/Primal_propagation.c')],
  ['return values, reduced_prob and sol of every call; memory accesses of the threads'])
P('C15', 'A presolve that ends by itself leaves nothing for the enabled reductions',
 'A presolve that is not cut short by its time limit goes on until a whole cycle of reductions removes next to nothing; when at most 18 nonzeros are left, that is nothing at all. Of a problem with at most 33 rows and 33 columns, such a remainder contains no fixed variable; with ston_cols, no singleton column that is free or stands in an equation with a bound missing; with dual_fix, no column that no row keeps from moving to where its cost does not object; with parallel_rows, no row that is a multiple of another; with parallel_cols, no column that is a multiple of another with the cost in the same ratio; with dton_eq, in problems of at most 6 rows and moderate coefficients, no equation with two entries. And when no column was removed beyond the trivial reductions, there was no doubleton equation (with a moderate pivot and no fill-in) to start with, and with primal_propagation no row whose value is bounded above or below by the bounds, and that presolve left as it was with its bounds, has a side that the bounds imply already, or implies a bound on a variable that has none on that side.',
 ['inputs', 'configurations'], 'for every LP within these sizes and every combination of settings',
 'Tests check what single reductions do to chosen problems; that none is passed by is a statement about every remainder.',
 ['src/core/Presolver.c', 'src/core/Constraints.c', 'src/core/CoreTransformation.c', 'src/core/State.c', 'src/explorers/'],
 [('rows and columns whose size, bounds or sides change are queued for the reductions that may now apply', 'src/core/CoreTransformation.c, src/core/Constraints.c, src/core/Activity.c'), ('cycles repeated until little is removed', 'src/core/Presolver.c')],
 ['reduced_prob after run_presolver'])
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    open(out, 'w').write(''.join(json.dumps(p) + '\n' for p in PS))
