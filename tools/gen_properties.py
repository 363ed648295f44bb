import json
def P(id,title,statement,over,qt,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=hook
    assert len(title)<=80,(id,len(title))
    return d
NW='crates/nonlinear/src/newton.rs'; NT='crates/nonlinear/src/traits.rs'; DN='crates/linear/src/dense.rs'; NR='crates/nonlinear/src/norm_wrms.rs'; LT='crates/linear/src/traits.rs'
S_J=('jcur','whether the Jacobian data is current','Newton::jcur'); S_C=('niters/nconvfails/curiter','statistics','Newton')
S_D=('delta','residual / right-hand side / correction work vector','Newton::delta')
S_P=('pivots','row exchanges of the last factorization','Dense::pivots')
TESTN='The one existing nonlinear test runs a single fault-free convergent solve of one 3x3 problem.'
TESTD='The existing linear tests factor or solve five fixed 3x3/4x4 systems once each, on a new solver, with no failure.'
L=[]
L.append(P('N01','Every nonlinear solve returns after bounded work',
 "Whatever the problem's callbacks answer, in any order (success, recoverable failure, unrecoverable failure, a setup that declines to refresh the Jacobian, a convergence test that never accepts), a nonlinear solve returns after at most two attempts, each making at most max(1, configured limit) linear solves. An attempt gives up for lack of convergence only after making that many, and a recoverable failure that is not cured is returned to the caller as a recoverable convergence failure.",
 ['fault_sequences','histories','inputs'],'all sequences of callback outcomes over a session of solves on one solver, all iteration limits',
 TESTN+' Termination depends on the order of failures and the Jacobian status left by earlier solves.',
 [NW,NT],[('attempt loop and iteration limit','Newton::solve')],[S_J,S_C],['callback sequence of NLProblem','return value of NLSolver::solve']))
L.append(P('N02','Success means the returned iterate passed the convergence test',
 "A nonlinear solve reports success only if the convergence test accepted the very iterate it returns, and that iterate is the initial guess plus, in order, the corrections produced by the linear solves of the attempt that converged, in which no callback failed. As soon as the test accepts an iterate the solve returns success with it and makes no further callback.",
 ['fault_sequences','histories','inputs'],'all callback outcome sequences, values and iteration counts',
 TESTN+' False success needs a failure, a retry or an unusual value at a particular iteration.',
 [NW],[('iterate update and convergence branch','Newton::solve')],[S_D],['return value and output vector of NLSolver::solve']))
L.append(P('N03','A stale Jacobian earns exactly one retry; a current one none',
 "When a callback reports a recoverable convergence failure, or the iteration limit is reached, while the Jacobian is not current, the solve restarts exactly once from the initial guess: it re-evaluates the residual there and runs a Jacobian setup flagged as forced by a bad Jacobian; if the Jacobian is current, or the retry was already used, the failure is returned instead. The Jacobian is current when the latest setup reported that it updated it and no solve has succeeded since. Apart from the retry, setup runs exactly when the caller asked for it: once, unflagged, right after the first residual evaluation.",
 ['fault_sequences','histories'],'all placements of recoverable failures and of setup outcomes over sessions of several solves',
 TESTN+' No test reaches the retry path or a second solve on the same solver.',
 [NW,NT],[('jcur / jbad / call_lsetup handling','Newton::solve')],[S_J],['callback sequence of NLProblem']))
L.append(P('N04','Unrecoverable failures stop the solve at once and come back unchanged',
 "If any callback reports an unrecoverable error, at whatever point of a solve including its retry, the solve makes no further callback and returns that same error with its details. It is never retried, turned into a recoverable failure, or reported as success.",
 ['fault_sequences','histories'],'all positions and kinds of unrecoverable callback errors',
 TESTN+' No test injects an error.',
 [NW,'crates/nonlinear/src/lib.rs'],[('error propagation','Newton::solve'),('error conversion','nonlinear::Error')],None,['return value of NLSolver::solve','callbacks after the error']))
L.append(P('N05','Solver statistics account for every iteration and failure',
 "Across any history of solves on one solver, the total iteration count equals the number of linear solves it requested, and the total convergence-failure count equals the number of attempts that did not converge (a retried attempt and its retry count separately, unrecoverable errors count too). During the convergence test the current-iteration number is the zero-based index of the iteration within the attempt.",
 ['histories','fault_sequences'],'all histories of solves with successes, retries and failures of every kind, short and very long',
 TESTN+' Totals are printed, not checked, and only one solve is made.',
 [NW],[('counter updates','Newton::solve')],[S_C],['get_num_iters','get_num_conv_fails','get_cur_iter inside the convergence test']))
L.append(P('N06','Callbacks always see consistent, current data',
 "Setup receives the initial guess and the residual just evaluated there; every linear solve receives the current iterate and exactly the negated residual evaluated at that iterate; the convergence test receives the updated iterate, the correction just produced and the caller's tolerance and weights. Before every further iteration the residual is evaluated anew at the updated iterate, and a retry restarts all of this from the initial guess.",
 ['fault_sequences','histories','inputs'],'all values, iteration counts, retries and failure histories',
 TESTN+' The arguments are only checked through the one converged answer.',
 [NW,NT],[('data flow between sys, setup, solve and ctest','Newton::solve')],[S_D],['arguments of NLProblem callbacks']))
L.append(P('N07','A solve is unaffected by what earlier solves went through',
 "A solve makes bit for bit the same callbacks and returns the same result and iterate as on a newly created solver with the same limit and Jacobian status, whatever the earlier solves on it did: converge, fail recoverably or unrecoverably at any callback, receive non-finite data, or be unwound by a panicking callback. What the output vector held before the call does not matter either.",
 ['histories','fault_sequences','crash_points'],'all histories of earlier solves and faults, including panics unwinding out of any callback',
 TESTN+' A solver is never used twice.',
 [NW],[('per-solve initialisation','Newton::solve')],[S_J,S_D,S_C],['callback sequence, return value and output vector of NLSolver::solve']))
L.append(P('N08','Interleaved, nested and cloned nonlinear solvers do not interfere',
 "Any number of nonlinear solvers advanced in any interleaving at their callbacks, or nested inside each other's callbacks, each behave bit for bit as when run alone. A clone taken between solves continues exactly as the original would have, statistics and Jacobian status included, and using one does not change the other.",
 ['schedules','histories','crash_points'],'all interleavings at callback boundaries, nesting points and checkpoint positions',
 TESTN+' Tests never have two solvers alive in one schedule.',
 [NW],[('all state is per solver','Newton'),('checkpointing','derive(Clone) on Newton')],[S_J,S_D,S_C],['callback sequence, result and statistics of each solver']))
L.append(P('D01','Linear solves answer for the matrix last set up',
 "After a successful setup, every solve returns an x that satisfies A x = b to backward-stable accuracy for the matrix A given to that setup, whatever the solver went through before (other matrices, setups that failed as singular, non-finite data) and whatever x held on entry. This holds for single and double precision, any size from one up, any row order and scaling, including systems that cannot be solved without row exchanges.",
 ['histories','fault_sequences','inputs'],'all sessions of setups (succeeding, singular, non-finite) and solves over several solvers',
 TESTD,[DN,LT],[('factorization with row exchanges','dense_get_rf'),('forward and back substitution','dense_get_rs')],[S_P],['solution vector of LSolver::solve']))
L.append(P('D02','Singular matrices are reported at the right column and do no lasting harm',
 "A matrix whose elimination meets an exactly zero pivot column makes setup fail with the one-based index of the first column that depends on the columns before it; a matrix whose elimination meets none is accepted however badly its columns are scaled. After a failed setup the solver can be set up again and then works exactly as a new one.",
 ['fault_sequences','histories'],'singular matrices of every rank-deficient column injected at arbitrary points of a session',
 TESTD+' No singular matrix is tried.',
 [DN,'crates/linear/src/lib.rs'],[('zero pivot test','dense_get_rf'),('error reporting','Dense::setup')],[S_P],['return value of LSolver::setup','later solves']))
L.append(P('D03','Linear solves disturb neither factors, right-hand side nor other memory',
 "A solve leaves the factored matrix and the right-hand side unchanged bit for bit, so any number of solves after one setup, in any order, give the same bits for the same right-hand side. Setup and solve write nothing outside the matrix and the solution vector they are handed, also when these are views into larger arrays, and views give the same bits as owned storage.",
 ['histories','configurations'],'all orders of repeated solves, right-hand sides and storage layouts in a session',
 TESTD+' Each factorization is used once, with owned storage only.',
 [DN],[('solve into the caller\'s x','Dense::solve'),('substitution in place','dense_get_rs')],[S_P],['matrix, right-hand side and surrounding memory after each call']))
L.append(P('D04','Interleaved and cloned linear solvers do not interfere',
 "Any number of linear solvers used in any interleaving each give bit for bit the results they give alone. A clone taken at any point between calls solves with the original's factorization, and setting up or failing to set up one leaves the other's results unchanged.",
 ['schedules','histories','crash_points'],'all interleavings of setup, solve and clone over several solvers',
 TESTD+' Tests never use two solvers in one schedule.',
 [DN],[('pivots are per solver','Dense'),('checkpointing','derive(Clone) on Dense')],[S_P],['solutions of each solver']))
L.append(P('S01','Reported convergence bounds the true error',
 "When the Newton solver, the dense linear solver and the weighted norm are used together with the plain test 'weighted norm of the correction at most the tolerance', a reported success means that the weighted distance to the true root is at most what that last correction and the contraction of the iteration allow, although Jacobians are stale or perturbed and residual, setup or linear-solve failures are injected and retried along the way.",
 ['fault_sequences','histories','inputs'],'all fault sequences over sessions of well-posed problems with a known root',
 TESTN+' It uses an exact, fresh Jacobian and loose tolerance.',
 [NW,DN,NR],[('Newton iteration','Newton::solve'),('weighted norm in the convergence test','NormWRMS::norm_wrms'),('LU solve','Dense')],[S_J,S_P],['returned iterate versus known root']))
L.append(P('S02','Non-finite data is never accepted as a converged solution',
 "When residuals, Jacobians or corrections turn NaN or infinite at any point of a solve whose convergence test compares the library's weighted norm with the tolerance, the solve never reports success with a non-finite iterate or with an iteration whose correction was non-finite; it returns, with a failure or after recovering to finite values, and the next fault-free solve is unaffected.",
 ['fault_sequences','histories'],'all positions, components and kinds (NaN, +inf, -inf) of corrupted values',
 TESTN+' Only finite data is tried.',
 [NR,NW,DN],[('norm propagates non-finite values','NormWRMS::norm_wrms'),('convergence branch','Newton::solve')],None,['return value and iterate']))
L.append(P('S03','Solving recovers as soon as faults stop',
 "After any history of injected faults (failed, panicking or corrupted callbacks, singular or non-finite Jacobians, exhausted iteration limits), once callbacks behave again a solve that asks for a fresh Jacobian and starts inside the convergence region of a well-posed problem succeeds within the iterations a new solver needs. ",
 ['fault_sequences','histories','crash_points'],'all fault histories followed by fault-free solves; progress bounded by the iterations of a fresh solver',
 TESTN+' There is no failure to recover from.',
 [NW,DN],[('retry and reinitialisation','Newton::solve'),('refactorization after failure','Dense::setup')],[S_J,S_P],['return value and number of iterations']))
L.append(P('S04','Transient faults cost work, not accuracy, in time stepping',
 "A time-stepping client that advances a stiff system with this solver stack, reusing Jacobians across steps and retrying a failed step with a fresh Jacobian, reaches its end time in bounded work for every sequence of transient faults, and its trajectory agrees with the fault-free reference within the accumulated tolerance. The same client restarted from a checkpoint of solvers and state continues to the same trajectory bit for bit.",
 ['fault_sequences','histories','crash_points'],'all transient fault sequences and checkpoint/restart positions over a simulated integration',
 TESTN+' The integrator tests are not built at this commit.',
 [NW,DN,NR],[('modified Newton with Jacobian reuse','Newton::solve'),('factors reused across solves','Dense::solve')],[S_J,S_P],['trajectory of the client, callback counts']))
L.append(P('P01','The weighted norm equals the root mean square of the weighted entries',
 "For every vector and weight vector of equal length, the weighted root-mean-square norm equals sqrt(sum((x_i w_i)^2)/n) up to rounding.",
 ['inputs'],'all vectors and weights','One pair of constant vectors is tested.',[NR],[('norm','NormWRMS::norm_wrms')]))
L.append(P('P02','A successful factorization leaves the documented LU form in the matrix',
 "After a successful setup the matrix holds U on and above the diagonal and multipliers of magnitude at most one below it, whose product is a row permutation of the original matrix up to rounding.",
 ['inputs'],'all non-singular matrices','Two fixed 3x3 matrices are tested.',[DN],[('LU factorization','dense_get_rf')]))
I='The integrator sources at the repository root are not part of any package and none of their tests is built.'
SR='src/lib.rs'
I='The integrator sources at the repository root are not part of any package and none of their tests is built; those tests compare single routines with a few recorded states.'
SL='src/impl_solve.rs'; RC='src/impl_r_check.rs'; ST='src/impl_stop_test.rs'; CS='src/impl_complete_step.rs'; NL='src/ida_nls.rs'; LS='src/ida_ls.rs'; TC='src/tol_control.rs'; IO='src/ida_io.rs'
PHI=('phi/psi','modified divided differences and step history','Ida'); CT=('hh/kk/kused/ns/phase','step size and order control','Ida')
OBS=['callback sequence of the problem, the tolerance control and the solvers','arguments, result and statistics of Ida::solve and the queries']
L.append(P('I01','Every integration call makes progress, stops where asked, or says why not',
 "Every call of Ida::solve returns after bounded work (at most 500 steps). In normal mode success means exactly the requested output time, reached by the first step that gets there and by no step beyond it; in one-step mode it means one step at most and a later time than before; a root return lies between the previous return and both the requested time and the current time; an error leaves the time at that of the last accepted step and has a cause: a step that failed as often as the limits allow, the step limit, unusable weights, a tout too close or behind, or a root function failing, or vanishing twice too close together, at the time the error names; of a step given up it says whether it failed the error test, did not converge, or met an unrecoverable error, which is handed on. Internal time only advances, in the direction of the first tout, either sign. None of this makes it panic. An error does not end the integration: the call can be repeated, and once nothing fails any more steps succeed again.",
 ['fault_sequences','histories','inputs'],'all problems, output schedules, and sequences of failures of residual, Jacobian, linear solver, nonlinear solver, weights and root functions',I,
 [SL,ST,SR],[('call set-up, step loop','Ida::solve'),('stopping tests','stop_test1/stop_test2'),('retry limits','Ida::handle_n_flag')],[CT],OBS))
L.append(P('I02','Whatever failed before, a step starts from the accepted history alone',
 "The prediction of every attempt, value and derivative, is the polynomial of degree k (the order of the attempt) through the last k+1 accepted points, continued to the attempt's time (for the first step: the initial value and slope); so an attempt that failed, in the nonlinear solve or the error test, leaves nothing behind in it. An accepted point is the prediction plus the correction the nonlinear solve returned; weights are 1/(rtol |y| + atol) at the last accepted point and are the ones the next attempts use; after an error the solution vectors hold the last accepted point.",
 ['fault_sequences','histories','inputs'],'all histories of accepted, failed and rejected attempts over all orders and step sizes',I,
 [SR,CS,TC],[('coefficients and prediction','set_coeffs/predict'),('undoing an attempt','Ida::restore, Ida::reset'),('history update','complete_step')],[PHI,CT],OBS))
L.append(P('I03','Roots are found where a monitored function changes sign, first one first',
 "Between returns, no monitored function that keeps its sign at the ends of steps and outputs is reported, and none that changes it from one to the next goes unreported; a root return names the functions that vanish or change sign there, within 100 roundings of the current time plus step, together with the direction: +1 for a function that goes from negative to positive, -1 for the opposite. This holds for functions that are exactly zero at the start or at a previous root, for several roots in one step, returned one after the other, and in both directions of integration.",
 ['histories','inputs','fault_sequences'],'all trajectories, sets of root functions and output schedules',I,
 [RC,SL],[('root search','root_find'),('checks at start, after a root, after a step','r_check1/r_check2/r_check3')],[('tlo/thi/trout, glo/ghi/grout','ends of the searched interval and function values there','Ida')],OBS))
L.append(P('I04','Steps are accepted exactly when their local error passes the test',
 "A step is accepted if and only if its nonlinear solve converged and the weighted norm of the correction times the formula's variable-step error coefficient is at most one; so on well-posed problems the computed solution stays near the true one, also when attempts fail and are retried along the way.",
 ['fault_sequences','histories','inputs'],'all problems, tolerances, step size and order histories and fault placements',I,
 [SR,CS],[('error test','test_error'),('error coefficient','set_coeffs')],[CT],OBS))
L.append(P('I05','Solutions and derivatives between steps are those of the accepted points',
 "Asked for a time within the last step, the integrator returns the value, and the derivative of any order up to the last method order, of the polynomial of that degree through the last accepted points, whatever was asked, failed or returned before; times before the last step and higher derivatives are refused, each with an error that says which (for a time, naming it and the bounds it had to lie within), and nothing within it is. What solve leaves in the solution vectors at the time it returns, and what root functions are evaluated on, is that same polynomial.",
 ['histories','inputs','fault_sequences'],'all times, derivative orders and integration histories',I,
 [SR],[('interpolation','get_solution, get_dky')],[PHI],OBS))
L.append(P('I06','Each attempt solves one consistent Newton system',
 "Within an attempt residual, Jacobian and linear solves belong to one system: all at the attempt's time; residuals at the prediction plus the corrections so far, with the derivative changed by the leading coefficient cj times them; the Jacobian for that cj, at the point of the last residual, handed over cleared, factored as it was filled in; the linear solve for the negated last residual with factors of a successful setup whose cj is within a ratio of 0.6 of the present one, its result rescaled by 2/(1+cj ratio). The correction handed to the error test is the sum of these. A retry restarts from the prediction.",
 ['fault_sequences','histories','inputs'],'all step, order and failure histories',I,
 [NL,LS,SR],[('residual, setup, solve and test callbacks','IdaNLProblem'),('Jacobian and cj ratio','IdaLProblem'),('when to refresh the Jacobian','nonlinear_solve')],[('cj/cj_old/cj_ratio','leading coefficients now and at the last setup','IdaLProblem')],OBS))
L.append(P('I07','What output is asked for does not change the integration',
 "The internal steps of an integration (times, orders, iterations, accepted values) are bit for bit the same whether the caller asks for output times, single steps, interpolated values or derivatives in between, and whether other integrations run interleaved with it.",
 ['schedules','histories','fault_sequences'],'all output schedules, queries and interleavings with other integrations',I,
 [SL,ST,SR],[('output by interpolation only','Ida::solve, get_solution')],[PHI],OBS))
L.append(P('I08','Integrator statistics say what happened',
 "After every call the reported totals equal what happened: steps, residual evaluations, Jacobian evaluations, linear setups, root function evaluations, error test failures, nonlinear convergence failures, nonlinear iterations; the reported last step and order are those of the last accepted step, the reported next step and order are the ones tried next, and the reported initial step is the first one if that was accepted at once.",
 ['histories','fault_sequences'],'all histories of calls, steps and failures',I,
 [IO,SR],[('statistics','get_* of Ida'),('counting','Ida::step, handle_n_flag, complete_step')],[('counters','totals','Ida::counters')],OBS))
L.append(P('I09','Failed attempts are retried as documented and given up at the limits',
 "After an attempt whose nonlinear solve did not converge (or whose Jacobian or linear solve failed recoverably) the step is retried at the same order with a quarter of the step; after the first failed error test at the order and size the error estimates suggest (between 0.25 and 0.9 of the step), after the second with a quarter of the step, from the third on at order one with a quarter of the step; after ten of either kind in one step the call gives up and returns the error. An unrecoverable failure of the nonlinear solver ends the call at once, with that error.",
 ['fault_sequences','histories'],'all sequences of convergence and error test failures',I,
 [SR],[('failure decision','Ida::handle_n_flag')],[CT],OBS))
L.append(P('I10','Step size and order follow the documented strategy',
 "The first step is one thousandth of the distance to the first tout, or less if the weighted initial slope asks for it. In the starting phase step size doubles and order rises after each step; afterwards the next order is one of k-1, k, k+1 as the weighted error estimates of those orders say, raised only after k+1 equal steps at the same order and never above five, and the step is doubled when the estimate allows it, kept when it nearly does, and otherwise reduced by a factor between 0.9 and 0.5.",
 ['histories','inputs','fault_sequences'],'all histories of steps, orders and failures',I,
 [CS,SR,SL],[('strategy after a step','complete_step'),('error estimates','test_error'),('first step','Ida::solve')],[CT],OBS))
L.append(P('I11','The corrector iteration stops exactly as its convergence test says',
 "A correction is accepted if and only if its weighted norm times rate/(1-rate) is at most 0.33, with the rate estimated from the norms of this attempt's corrections, or taken over from the last estimate while step size, order and Jacobian stay the same (20 after a Jacobian update, 100 after a change of step or order), or if the first correction is negligible; a rate above 0.9 ends the iteration as not converging, and so do four iterations without acceptance.",
 ['histories','inputs','fault_sequences'],'all correction sequences and histories of setups, steps and orders',I,
 [NL,SR],[('convergence test','IdaNLProblem::ctest'),('resetting the rate factor','nonlinear_solve')],[('ss/oldnrm','convergence rate factor, norm of the first correction','IdaNLProblem')],OBS))
L.append(P('I12','Unusable weights and impossible accuracy are refused, and nothing else is',
 "Before every step, the first included, the error weights in force are checked. If one of them is not a positive finite number the call ends with an illegal-input error, and if machine epsilon times the weighted norm of the current solution exceeds one it ends with an error saying that too much accuracy was requested; in both cases no residual is evaluated on those weights, the solution vectors hold the last accepted point and the time is unchanged. Otherwise no call is refused for these reasons. The reported tolerance scale factor is epsilon times that norm at the last check, and ten times that after a refusal for accuracy. Once the weights are usable again the integration goes on.",
 ['inputs','fault_sequences','histories'],'all tolerances, also zero ones and ones near machine epsilon, and all weight functions that misbehave at any evaluation',I,
 [SL,SR,TC],[('check of the first weights','Ida::initial_setup'),('checks before each step','Ida::solve'),('weights','TolControl::ewt_set')],[('ida_ewt','error weights in force','IdaNLProblem'),('ida_tolsf','tolerance scale factor','Ida')],OBS))
L.append(P('I13','Direction of time and units are conventions',
 "The same equations written in other units, or run the other way round in time, give the same integration: with time, each component of the solution (and its tolerance), the equations and the root functions multiplied by powers of two, each with either sign (positive for the root functions), every call returns the same status, every time, value, derivative, interpolated value and weight is exactly the original one in the new units, roots are found at the same places with the same directions, and all counts and orders are the same, whatever fails along the way.",
 ['inputs','histories','fault_sequences'],'all problems, tolerances, output schedules, queries, root functions and fault sequences, each against its rescaled and reversed images',I,
 [SL,SR,RC,ST,CS,NL,LS],[('step loop and stopping tests','Ida::solve, stop_test1/stop_test2'),('root search','root_find'),('strategy','complete_step'),('interpolation','get_solution, get_dky')],[PHI,CT],OBS))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in L))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in L: jsonschema.validate(x,sch)
print(len(L))
