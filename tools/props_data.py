BASE_NOTE = ('Exhaustive over the abstract cells of the property (all values of every argument are covered by some '
             'cell); sound up to the analyser in /verif/engine, clang\'s front end and the stated assumptions '
             '(no integer overflow, rounding ignored where real forms are compared).')

prop('O03', 'Vectors of different spaces are never combined',
     'Every operation that combines several vectors, a vector with a convex set, or a vector with an operator first '
     'checks that all of them belong to the required vector space. When one does not, the operation reports the error '
     '(the error handler for operations without status, the bad-space status otherwise), returns zero when it is a '
     'reduction, and neither reads nor writes any vector or output.',
     ['inputs', 'programs'], 'for every operation and every non-empty set of operands taken from a foreign space',
     'A test mixes a few spaces; the guarantee is for each operand position of each operation and for every vector '
     'space implementation, including ones not written yet.',
     ['src/algebra.c', 'src/optimpack.h'],
     [('owner comparison before dispatch', 'src/algebra.c: opk_vcopy .. opk_vaxpbypcz'),
      ('space checks of convex sets and operators', 'src/algebra.c: opk_project_variables .. opk_apply_inverse'),
      ('bound vectors of a box', 'src/algebra.c: set_bound')])

prop('O04', 'Missing optional operations are reported, never called',
     'When a vector space, a convex set or an operator does not provide an optional method (array import or export, '
     'projections, free variables, step limits, operator application), the corresponding request returns the '
     'not-implemented status without touching its operands; when the method is provided it is called with the '
     'caller\'s arguments and its status is returned. The predicates telling which methods a convex set has agree '
     'with this, and a box offers exactly the methods its vector space implements.',
     ['programs', 'inputs'], 'for every optional method, present or absent, in any combination',
     'Only the built-in spaces exist in the repository and they implement everything, so no test can reach the '
     'missing-method case without writing another vector space.',
     ['src/algebra.c', 'src/optimpack-private.h'],
     [('method tests before dispatch', 'src/algebra.c: opk_vimport, opk_vexport, opk_project_*, opk_get_*, opk_apply_*'),
      ('method selection of a box', 'src/algebra.c: opk_new_boxset')])

prop('O05', 'Element access stays inside the vector',
     'Reading or writing one component succeeds exactly for indices from zero to the size minus one and is otherwise '
     'refused with the out-of-bounds status and no effect; importing or exporting an array is refused with the '
     'invalid-argument status unless the number of elements equals the vector size and the element type is known. '
     'No operation of the built-in vector spaces accesses memory outside the elements of its operands, and printing '
     'a vector shows its leading elements up to the requested maximum.',
     ['inputs'], 'for every vector size, index, element count, element type and operation',
     'Boundary values of index and size are unbounded in number and an access one past the end of an array rarely '
     'shows in a test.',
     ['src/algebra.c', 'src/simple_vector.c'],
     [('index and size checks', 'src/algebra.c: opk_vpeek, opk_vpoke, opk_vimport, opk_vexport, opk_vprint'),
      ('element loops', 'src/simple_vector.c')])

prop('O06', 'Vector operations compute the documented elementwise results',
     'For the built-in single and double precision vector spaces, filling, copying, scaling, swapping, elementwise '
     'products, linear combinations of two or three vectors, array import and export, and component access set every '
     'element of the destination to the documented combination of the source elements, whichever of the operands are '
     'the same vector and whatever the coefficients (including zero, one and minus one). Inner products and norms '
     'reduce all the elements, each exactly once. Rounding errors aside.',
     ['inputs'], 'for every size, coefficient value and aliasing pattern of the operands',
     'Special coefficient values and in-place use multiply into hundreds of cases per operation; tests use a handful.',
     ['src/simple_vector.c', 'src/dblvector.c', 'src/fltvector.c', 'src/algebra.c'],
     [('element loops with special-cased coefficients', 'src/simple_vector.c: fill .. axpbypcz'),
      ('dispatch', 'src/algebra.c: opk_vfill .. opk_vaxpbypcz')])

prop('O08', 'Dispatch to a vector space honours its contract for any coefficients',
     'Whatever the vector space implementation, the generic vector operations obtain the documented result using only '
     'the operations of the table, which they call within its stated contract: copy and exchange never with identical '
     'vectors, scaling never with a factor of zero or one, linear combinations never with a zero coefficient. Zero '
     'and unit coefficients and identical operands yield the same result as the general formula.',
     ['programs', 'inputs'], 'for every vector space implementation, coefficients and aliasing of operands',
     'The built-in spaces tolerate calls outside the contract, so tests with them cannot see a breach that breaks a '
     'user-written space.',
     ['src/algebra.c', 'src/optimpack-private.h'],
     [('coefficient case analysis', 'src/algebra.c: opk_vscale, opk_vaxpby, opk_vaxpbypcz'),
      ('contract of the table', 'src/optimpack-private.h: struct opk_vspace_operations_')])

prop('V01', 'Invalid parameters are refused at creation, valid ones accepted',
     'Constructing an optimizer, a line search, a vector space or a one-dimensional minimization with parameters '
     'outside their documented domains (including NaN and infinite values, reversed step bounds, unknown types of '
     'variables, bounds or update rules, missing bound addresses, bounds with an unconstrained algorithm) is refused '
     'with the documented error code and creates nothing. Any combination of valid parameters is accepted, the '
     'default ones included.',
     ['inputs'], 'for every value of every parameter, the other parameters being arbitrary',
     'Floating-point parameters have NaN, infinities, signed zeros and boundary values; tests only use default '
     'settings.',
     ['src/vmlmb.c', 'src/nlcg.c', 'src/lnsrch.c', 'src/driver.c', 'src/fmin.c', 'src/simple_vector.c'],
     [('option validators', 'src/vmlmb.c: opk_check_vmlmb_options; src/nlcg.c: opk_check_nlcg_options'),
      ('constructors', 'src/vmlmb.c: opk_new_vmlmb_optimizer; src/nlcg.c: opk_new_nlcg_optimizer; src/lnsrch.c: '
       'opk_lnsrch_new_*; src/driver.c: opk_new_optimizer'),
      ('interval and precision', 'src/fmin.c: opk_fmin_start, opk_fmin_set_precision')])

prop('L01', 'Line searches follow their task protocol over any history',
     'A line search asks for a function evaluation (search), or stops with convergence, a warning or an error; its '
     'reported task, status and step always agree with what it returned and every proposed step lies within the '
     'bounds given at the start. Iterating a search which is not started, or with a step that is not the proposed '
     'one, or starting with a non-descent direction or invalid bounds is refused with the documented error, and a '
     'search can be restarted at any time whatever happened before.',
     ['inputs', 'histories'], 'for every line search, any number of searches and iterations, any values',
     'Misuse, restarts in the middle of a search and steps at their bounds are never reached by running an optimizer '
     'on the test functions.',
     ['src/lnsrch.c', 'src/optimpack-private.h'],
     [('driver of the line searches', 'src/lnsrch.c: opk_lnsrch_start, opk_lnsrch_iterate, opk_lnsrch_get_*'),
      ('methods', 'src/lnsrch.c: backtrack_*, nonmonotone_*, csrch_*')],
     state=[('task, status, step', 'what the search is waiting for, why it stopped, current step',
             'struct opk_lnsrch_ in src/optimpack-private.h')])

prop('L02', 'Line searches report convergence only under their conditions',
     'The Armijo and the nonmonotone line searches declare convergence only when the sufficient decrease condition '
     'holds, with respect to the largest of at most the last m function values for the latter; the More and Thuente '
     'line search only when both the sufficient decrease and the curvature conditions hold. A warning or an error is '
     'never reported as convergence, and satisfied conditions are never missed.',
     ['inputs', 'histories'], 'for every history of searches and iterations, function values, slopes and tolerances',
     'Whether the accepted step satisfies the conditions is an inequality between real numbers over all objective '
     'functions; the tests only look at the final result of an optimization.',
     ['src/lnsrch.c'],
     [('acceptance tests', 'src/lnsrch.c: backtrack_iterate, nonmonotone_iterate, csrch_iterate'),
      ('memory of the last values', 'src/lnsrch.c: nonmonotone_start')])

prop('L03', 'The safeguarded step keeps its bracket and follows the published rule',
     'Given two end points with their function values and derivatives and a trial step, the safeguarded step procedure '
     'refuses inconsistent arguments without changing anything; otherwise it chooses the new step by the published '
     'case analysis (cubic, secant or mean formulas with their safeguards), keeps it within the bracket or the step '
     'bounds, and updates the interval so that the best end point is kept and a bracketed minimizer remains '
     'bracketed.',
     ['inputs'], 'for every end points, function values, derivatives, trial step and bounds (rounding aside)',
     'The four cases and their safeguards combine into many branches of which an optimization run takes only a few.',
     ['src/lnsrch.c'],
     [('case analysis', 'src/lnsrch.c: opk_cstep'), ('update of the interval', 'src/lnsrch.c: opk_cstep')])

prop('L04', 'Between two values each line search proceeds by its published rule',
     'One iteration of a line search, in any state of the search: the backtracking and nonmonotone searches reduce the step '
     'by safeguarded quadratic interpolation or bisection as described; the search of More and Thuente changes stage, uses '
     'the modified function, calls the safeguarded step procedure with the best and the other end points, takes a '
     'bisection when the bracket does not shrink enough, maintains the interval of the next steps and falls back to the '
     'best step, as published; warnings are given for the published reasons and steps stay within their bounds. A new '
     'search starts afresh.',
     ['inputs', 'histories'], 'for every state of the search and values of the function and of its derivative (rounding aside)',
     'Which of the stages and safeguards are used depends on the function; a wrong one only makes rare searches fail or last.',
     ['src/lnsrch.c'],
     [('iterations', 'src/lnsrch.c: backtrack_iterate, nonmonotone_iterate, csrch_iterate'), ('start', 'src/lnsrch.c: '
       'csrch_start')],
     state=[('csrch_lnsrch', 'interval, stage and widths of the search of More and Thuente', 'src/lnsrch.c')])

prop('R01', 'No hidden state: independent objects may be used concurrently',
     'Apart from the installed error handler, the library (including the Powell solvers) keeps no modifiable state '
     'outside the objects and workspaces given by the caller, and calls no function of the C library with hidden '
     'state. Results therefore depend only on the arguments, and threads working on distinct objects do not '
     'interfere.',
     ['schedules', 'programs'], 'for every function of the library and every interleaving of calls on distinct objects',
     'A static buffer or cache shows only with particular interleavings of calls or threads, which no test runs.',
     ['src'], [('error handler', 'src/utils.c: opk_set_error_handler'), ('cached constant', 'src/fmin.c: FMIN_SQRT_EPSILON'),
               ('method tables', 'src/lnsrch.c, src/simple_vector.c, src/driver.c')],
     note='Flow-insensitive over the whole program: a global written through an address recovered from an integer or '
          'from a callback of the user would not be seen.')

prop('R03', 'The library is silent and never terminates the calling program',
     'No function writes to a stream or terminates the program, except the default error handler and the printing of '
     'vectors; errors are reported through the installed handler or a status. The Powell solvers produce no output at '
     'all when their verbosity is zero, whatever happens (including errors).',
     ['inputs', 'programs'], 'for every function, argument and history of calls',
     'Output on rarely taken branches (errors, rescue steps, invalid arguments) is invisible to tests, which never '
     'look at the standard streams.',
     ['src'], [('error reporting', 'src/utils.c: opk_error'), ('printing of vectors', 'src/algebra.c: opk_vprint'),
               ('verbosity', 'src/cobyla.c, src/newuoa.c, src/bobyqa.c: iprint')],
     note='The integer interval analysis ignores integer overflow and assumes that the objective functions do not '
          'print; objects are assumed to be zeroed or initialised before use.')

prop('E01', 'Status codes, texts and named constants agree',
     'Each status of the library and of the Powell solvers has its own non-empty descriptive text, any other code the '
     'text documented for unknown codes; system error codes translate to the matching status or minus one; and '
     'looking up a public constant by name yields its value, any other name (or none) being an invalid argument that '
     'stores nothing.',
     ['inputs'], 'for every integer code and every name',
     'The tables have more than a hundred entries written by hand; tests touch a few.',
     ['src/utils.c', 'src/optimpack.h', 'src/cobyla.c', 'src/newuoa.c', 'src/bobyqa.c'],
     [('tables', 'src/utils.c: opk_get_reason, opk_guess_status, opk_get_integer_constant'),
      ('Powell statuses', 'src/cobyla.c: cobyla_reason; src/newuoa.c: newuoa_reason; src/bobyqa.c: bobyqa_reason')])

prop('S01', 'Text outputs never overflow and report the size needed',
     'Copying a text into a buffer, and retrieving the name or description of an optimizer, never writes more than '
     'the given number of bytes (nothing for a null buffer or a zero size), always terminates a non-empty buffer, '
     'copies the longest prefix that fits, and returns the number of bytes required for the whole text. The '
     'intermediate buffers are large enough for every method and option.',
     ['inputs'], 'for every source text, buffer size, method, option and number of memorized steps',
     'The overflow of an internal buffer needs one particular combination of options, and off-by-one errors one '
     'particular size.',
     ['src/utils.c', 'src/nlcg.c', 'src/vmlmb.c', 'src/driver.c'],
     [('bounded copy', 'src/utils.c: opk_copy_string'),
      ('descriptions', 'src/nlcg.c: opk_get_nlcg_description; src/vmlmb.c: opk_get_vmlmb_description')])

OPTNOTE = ('Histories are followed until the memory of correction pairs has wrapped around (memory of one to three pairs) '
           'and through restarts; those which agree on the line search answers, on the usable pairs and on the last kind '
           'of direction are represented by one of them. Real arithmetic (rounding is ignored); equality of the values '
           'by random interpretation, wrong with a probability of about 2^-50. Vector operations, box sets and line '
           'searches are replaced by their contracts, which O03-O08 and L01-L03 decide.')

prop('O07', 'Box constraints: projections, free variables and step limits are exact',
     'Projecting variables on a box moves each component to the nearest value within its bounds and leaves those '
     'inside untouched; projecting a direction zeroes exactly the components that would leave the box at once, with '
     'the orientation asked for, and the free variables are the complementary mask. The step limits are the smallest '
     'step at which some bound becomes active, the smallest non-zero one, and the largest useful one (infinite when '
     'the motion is unbounded). This holds for scalar, array and absent bounds on either side, and array bounds of '
     'either precision are imported exactly.',
     ['inputs'], 'for every kind of lower and upper bounds, values, directions and orientation',
     'Nine combinations of bounds times the ordering of value, bounds and direction give many cases per element; '
     'tests only have one or two kinds of bounds.',
     ['src/simple_vector.c', 'src/algebra.c'],
     [('box operations', 'src/simple_vector.c: project_variables, project_direction, get_free_variables, get_step_limits'),
      ('bounds', 'src/algebra.c: set_bound, opk_new_boxset')])

prop('O01', 'Objects live exactly as long as they are referenced',
     'An object created by the library lives until the last of its references is dropped, and is then destroyed '
     'exactly once, together with what it alone refers to: a vector keeps its space, a box its space and bounds, an '
     'optimizer its space, line search, box and work vectors. Dropping everything leaves no memory allocated; nothing '
     'is used after being released; the release function of wrapped data is called exactly once when the data are no '
     'longer needed. Creation that fails for lack of memory at any point leaves nothing behind and releases nothing '
     'that the caller owns.',
     ['inputs', 'histories', 'fault_sequences'],
     'for every kind of object, order of drops, and allocation that fails',
     'Leaks, early releases and failures of a particular allocation are invisible to tests that only look at results.',
     ['src/algebra.c', 'src/simple_vector.c', 'src/vmlmb.c', 'src/nlcg.c', 'src/lnsrch.c', 'src/driver.c'],
     [('reference counts', 'src/algebra.c: opk_hold_object, opk_drop_object'),
      ('finalizers', 'src/algebra.c: finalize_*; src/vmlmb.c, src/nlcg.c, src/driver.c: finalize_*'),
      ('failures', 'src/driver.c: opk_new_optimizer; src/vmlmb.c: opk_new_vmlmb_optimizer; src/algebra.c: opk_new_boxset'),
      ('release functions', 'src/simple_vector.c: opk_wrap_simple_*_vector, opk_rewrap_simple_*_vector')],
     state=[('references', 'number of references to the object', 'struct opk_object_ in src/optimpack-private.h')],
     note='Scripts of creations, holds and drops for each kind of object, every allocation of each creation failing in '
          'turn; the elements of the vectors are not tracked (O05, O06).')

prop('T01', 'Optimizers follow their task protocol over any history',
     'After a start, an optimizer asks for the function and gradient, then, each time it is iterated as told, either '
     'asks for another evaluation, announces new variables, or stops with convergence, a warning or an error; the '
     'recorded task and status always agree with what was returned. The numbers of iterations, evaluations and '
     'restarts count exactly the accepted points, the evaluations and the resets of the recursion. A failure of the '
     'line search or of a projection is reported with its status, stays reported until the next start, and is never '
     'taken for progress.',
     ['inputs', 'histories'], 'for every method and options, function values, gradients, and answers of the line search',
     'Failures in the middle of a search, restarts and stalled searches are never produced by the test functions.',
     ['src/vmlmb.c', 'src/nlcg.c'],
     [('driver of the tasks', 'src/vmlmb.c: opk_start_vmlmb, opk_iterate_vmlmb; src/nlcg.c: opk_start_nlcg, opk_iterate_nlcg'),
      ('counters', 'src/vmlmb.c, src/nlcg.c: evaluations, iterations, restarts')],
     state=[('task, status, counters', 'what the caller must do next and what happened so far',
             'struct opk_vmlmb_ in src/vmlmb.c, struct opk_nlcg_ in src/nlcg.c')], note=OPTNOTE)

prop('T02', 'Convergence is announced exactly under the gradient test',
     'A global convergence is announced when, and only when, the Euclidean norm of the gradient at the accepted '
     'variables (of the projected gradient with bounds) is not larger than the greater of the absolute threshold and '
     'the relative threshold times the initial norm; the norm returned to the caller is that one.',
     ['inputs', 'histories'], 'for every history, gradients and thresholds',
     'A wrong reference norm or a gradient left unprojected still converges on the test problems.',
     ['src/vmlmb.c', 'src/nlcg.c'],
     [('test', 'src/vmlmb.c: opk_iterate_vmlmb; src/nlcg.c: opk_iterate_nlcg'), ('norm', 'opk_get_*_gnorm')], note=OPTNOTE)

prop('T04', 'Constrained iterates are always feasible',
     'With bounds, all the variables a quasi-Newton optimizer asks to evaluate (the initial ones included) are the '
     'result of a projection on the feasible set, whatever the method, the line search and the history.',
     ['inputs', 'histories'], 'for every convex set, history, function values and gradients',
     'A trial point slightly outside the bounds, or outside only after a particular history, does not change the '
     'result of a test.',
     ['src/vmlmb.c'], [('trial points', 'src/vmlmb.c: opk_start_vmlmb, opk_iterate_vmlmb')], note=OPTNOTE)

prop('T05', 'The quasi-Newton direction is that of the limited memory BFGS recursion',
     'The search direction of the variable metric optimizer is that of the limited memory BFGS recursion with the '
     'last memorized pairs of steps and gradient changes whose curvature is positive (restricted to the free variables '
     'for VMLMB, the projected gradient differences for BLMVM), with the documented initial scaling; it is replaced by '
     'the (projected) steepest descent only when it is not a sufficient descent direction. The pairs which can be '
     'inspected are the last ones, in order, at most as many as the memory allows.',
     ['inputs', 'histories'], 'for every memory, method, history, variables and gradients',
     'An error in the order of the pairs, in the wrap-around of the memory or in the scaling only slows down '
     'convergence, which no test notices.',
     ['src/vmlmb.c'], [('two-loop recursion', 'src/vmlmb.c: apply'), ('memory', 'src/vmlmb.c: update, slot, opk_get_vmlmb_s, '
                       'opk_get_vmlmb_y')],
     state=[('s, y, mp', 'memorized pairs and their number', 'struct opk_vmlmb_ in src/vmlmb.c')], note=OPTNOTE)

prop('T06', 'Each conjugate gradient rule computes its published direction',
     'The search direction of the non-linear conjugate gradient optimizer is the gradient combined with the previous '
     'direction with the coefficient of the selected rule (Hestenes and Stiefel, Fletcher and Reeves, Polak, Ribiere '
     'and Polyak, Fletcher, Liu and Storey, Dai and Yuan, Perry and Shanno, Hager and Zhang), made non-negative when '
     'Powell restarts are asked for; the steepest descent is used only at the start or when the coefficient vanishes '
     'or the direction is not a sufficient descent.',
     ['inputs', 'histories'], 'for every rule, options, history, variables and gradients',
     'All these rules converge on the test functions, even with a wrong coefficient.',
     ['src/nlcg.c'], [('rules', 'src/nlcg.c: update_*'), ('sign of the gradient difference', 'src/nlcg.c: form_y'),
                      ('restart', 'src/nlcg.c: opk_iterate_nlcg')], note=OPTNOTE)

prop('T07', 'Optimizers search along the descent direction from the last accepted point',
     'Every trial point is the last accepted one minus the step times the search direction (projected with bounds), '
     'for the step proposed by the line search; the line search is started once per iteration with the function value '
     'and directional derivative at the accepted point, and iterated with those at the trial point; the first step '
     'and its bounds are the documented ones (estimated minimum, relative size, Shanno and Phua step, step limits of '
     'the box); the caller\'s accepted variables and gradient are never altered.',
     ['inputs', 'histories'], 'for every method, options, history, function values and gradients',
     'A wrong slope or first step still leads to a minimum of the test functions.',
     ['src/vmlmb.c', 'src/nlcg.c'], [('line search', 'src/vmlmb.c: opk_iterate_vmlmb; src/nlcg.c: opk_iterate_nlcg')],
     note=OPTNOTE)

FNOTE = ('Real arithmetic (no rounding), a finite interval and a function which never returns NaN are assumed; how close '
         'the result is to a true minimum is a numerical question which is out of reach.')
prop('F01', 'Univariate minimization evaluates and reports golden section brackets',
     'opk_fmin and opk_fmin_with_context evaluate the function at the end points which are not excluded bounds, then '
     'only at the points of the golden section method (extrapolation until the minimum is bracketed, then reduction of '
     'the bracket) given the values found so far; the position reported as the minimum and the bounds reported around it '
     'are the final ones, in increasing order, each with the value that the function returned at that very position.',
     ['inputs', 'histories'], 'for every function, interval, flags and number of evaluations',
     'A wrong update of the bracket still converges on the parabola of a test; which comparisons come out depends on '
     'the function.',
     ['src/fmin.c'], [('the two functions', 'src/fmin.c: opk_fmin, opk_fmin_with_context')], note=FNOTE)

prop('F02', 'Univariate minimization honours its budget and its precision',
     'opk_fmin and opk_fmin_with_context never evaluate the function beyond the limit (the initial points excepted), '
     'report the exact number of evaluations, return 0 exactly when the distance between the minimum and the far bound '
     'is within the precision relative to the largest position, 1 when the evaluations run out before that, 2 when they '
     'run out without a bracket (the last three positions are then reported), and -1 without evaluating anything for an '
     'empty interval. A negative precision stands for the default one.',
     ['inputs', 'histories'], 'for every function, interval, flags, precision and limit',
     'Running out of evaluations, or a minimum which is never bracketed, do not happen in the tests.',
     ['src/fmin.c'], [('the two functions', 'src/fmin.c: opk_fmin, opk_fmin_with_context')], note=FNOTE)

prop('F03', 'Univariate minimization by reverse communication follows the same method',
     'Driven by opk_fmin_next, a search asks for the values the golden section method needs, in order, whatever these '
     'values are; it announces convergence exactly when the precision is reached; it can be continued after convergence '
     'with another precision without counting or using a value twice; a changed position, a missing argument or a call '
     'out of turn is an error that lasts until the next start; the initial interval and the result are available when '
     'there are some and each output is optional.',
     ['inputs', 'histories'], 'for every function, interval, flags, precision and order of the calls',
     'The state kept between the calls matters after histories (continuation, misuse, restart) no test goes through.',
     ['src/fmin.c'], [('reverse communication', 'src/fmin.c: opk_fmin_start, opk_fmin_next, opk_fmin_get_final, '
                       'opk_fmin_get_initial, opk_fmin_get_status')],
     state=[('opk_fmin_context', 'bracket, values, stage, status and number of evaluations', 'src/fmin.c')], note=FNOTE)

prop('T03', 'The simple driver hands everything over to the requested optimizer',
     'An optimizer made by opk_new_optimizer is an instance of the requested method, in the simple vector space of the '
     'requested type and size, with the given options, line search and bounds (a static array of the type of the '
     'variables may be used in place); starting and iterating it is starting and iterating that instance, once, with '
     'the arrays of the caller as variables and gradient, and every query about it is answered by that instance. '
     'NULL arrays are refused, recorded as an illegal address, and do not stop a later correct call.',
     ['inputs', 'histories', 'configurations'], 'for every method, type, number of variables, pair of bounds, arrays and '
     'order of the calls',
     'The combinations of types and bounds are many, and an answer taken from the wrong counter or a stale array gives '
     'plausible values.',
     ['src/driver.c'], [('creation', 'src/driver.c: opk_new_optimizer'),
                        ('tables of operations', 'src/driver.c: nlcg_ops, vmlmb_ops'),
                        ('reverse communication', 'src/driver.c: opk_start, opk_iterate')],
     note='What the inner optimizers and box sets do is the matter of the other properties: here their public functions '
          'are recorded calls.')

prop('O02', 'NULL arguments are answered, not followed',
     'The public functions which accept or check the addresses they are given answer a NULL one as documented (nothing '
     'done, zero, -1, NULL, an illegal address status or an error task) without following it, without calling any '
     'method, and without changing the objects and arrays given by the other arguments.',
     ['inputs'], 'for every such function and argument, and any value of the other arguments',
     'Each such path is a line never executed by the tests; a crash there takes the whole application down.',
     ['src/algebra.c', 'src/lnsrch.c', 'src/nlcg.c', 'src/vmlmb.c', 'src/driver.c', 'src/fmin.c', 'src/utils.c',
      'src/simple_vector.c'],
     [('address checks', 'the functions listed in table() of checks/nulls.py')],
     note='Functions which require valid addresses (the operations on vectors, the solvers) are not concerned.')

PF = ['src/newuoa.c', 'src/cobyla.c', 'src/bobyqa.c']
prop('K01', 'Dense linear algebra kernels refuse bad arguments before any work',
     'opk_{d,s}gemv, trmv, trsv, gemm, syrk and potf2 answer the index (its opposite for potf2) of an invalid argument '
     'whenever there is one (bad flag, negative dimension, leading dimension less than one or than the number of rows of '
     'its matrix, zero increment), whatever the other arguments, and then touch none of the arrays.',
     ['inputs'], 'for every combination of valid and invalid arguments, dimensions and increments of any value',
     'Tests call the kernels with valid arguments.', ['src/linalg.c'],
     [('argument checks', 'OPK_GEMV, OPK_TRMV, OPK_TRSV, OPK_GEMM, OPK_SYRK, OPK_POTF2')])

prop('K02', 'Dense linear algebra kernels compute their documented result, in place',
     'Each kernel of the dense linear algebra (amax, asum, axpy, copy, dot, nrm2, scal, sum, swap, zero, iamax, gemv, trmv, '
     'trsv, gemm, syrk, potf2, in both precisions) yields, for every content of its arrays, its documented result in real '
     'arithmetic: it reads and writes only elements of the vectors (strided, possibly backward) and of the part of the '
     'matrices it documents, changes nothing but the result, does not use C when beta is zero, and potf2 stops at the '
     'first minor which is not positive.',
     ['inputs'], 'for every content of the arrays and scalar factors, with each flag, increment and padding',
     'Each kernel has many variants (transposed or not, triangle, increments of either sign, special factors); tests use '
     'few of them.', ['src/linalg.c'],
     [('kernels', 'src/linalg.c')],
     note='Dimensions are bounded (vectors up to 17 elements, matrices up to 4 by 4): every variant and remainder of the '
          'unrolled loops is covered.')

prop('Q01', 'Conjugate gradients keep their state true to the documented recurrences',
     'In any stage and for any content of its arrays, a call of opk_{d,s}plcg, lcg or trcg makes exactly the documented '
     'step: x changes by rho[2]*p and r by -rho[2]*q with the optimal step, the direction by the weight rho[3], NEWX, AP, '
     'PRECOND, FINISH and NON_CONVEX are returned when and only when the products r.z and p.q command it, terminal stages '
     'change nothing, bad stages and radii are errors; trcg never leaves the trust region: its x is inside (NEWX) or '
     'exactly on the boundary (TRUNCATED), forwards along p, and rho[4] is its norm.',
     ['inputs', 'histories'], 'for every stage, preconditioner or not, and content of the arrays',
     'Loss of definiteness, truncation and restarts happen only for particular matrices.', ['src/lcg.c'],
     [('steps', 'OPK_PLCG, OPK_LCG, OPK_TRCG')],
     note='Real arithmetic; numbers of variables 1 to 3 (5 in thorough runs).',
     state=[('opk_cg_state', 'stages of the reverse communication', 'src/optimpack-linalg.h')])

prop('Q02', 'The trust region step of More and Sorensen is the published one',
     'For any symmetric matrix, linear term, radius, tolerances, starting multiplier and maximum number of iterations, '
     'opk_dgqt and opk_sgqt return the status, the number of iterations, the step, the multiplier and the value of the '
     'quadratic which the algorithm of More and Sorensen gives; a step declared accurate is inside the relaxed trust '
     'region; the matrix is whole on exit whichever path was followed, the linear term is untouched, no other element of '
     'the arrays is referenced and optional results may be NULL. opk_destsv and opk_sestsv give the published estimate of '
     'the smallest singular value with a unit vector z such that norm(R.z) is the estimate.',
     ['inputs'], 'for every matrix, linear term, radius and tolerance',
     'Indefinite, singular and hard cases, and the last iterations, are reached only by particular matrices; nothing in '
     'the tests calls these functions.', ['src/gqtpar.c'],
     [('step', 'OPK_GQT'), ('estimate', 'OPK_ESTSV')],
     note='Real arithmetic; boxes of values, orders 1 to 3 (5 in thorough runs).',
     state=[('opk_dgqt', 'one call', 'src/gqtpar.c')])

prop('W01', 'Powell solvers validate their arguments before doing anything',
     'NEWUOA, BOBYQA and COBYLA refuse, with the documented status (NULL, -1 or an errno value for the creation of a '
     'context) and without evaluating anything nor writing to the variables, the scales or the workspace, a number of '
     'variables, of interpolation points or of constraints out of range, trust region radii out of order, missing arrays '
     'or functions, bad scaling factors and, for BOBYQA, bounds closer than twice the initial radius; and they start for '
     'all other arguments. The simple drivers hand the same arguments over, for a minimization without scaling.',
     ['inputs'], 'for every combination of valid and invalid arguments',
     'Tests pass valid arguments; each refusal, and each limit of the accepted ranges, is a separate path.',
     PF, [('entry points', 'newuoa_optimize, newuoa, newuoa_create; bobyqa_optimize, bobyqa; cobyla_optimize, cobyla, '
                           'cobyla_create')],
     note='NaN radii are excluded. Numbers of variables are bounded where a loop over arrays has to be followed.')

prop('W02', 'Powell solvers never exceed the number of evaluations allowed',
     'NEWUOA, BOBYQA and COBYLA never call the objective function, nor ask for its value by reverse communication, more '
     'than the given limit (a limit less than one counts as one); the number of evaluations they report is the number '
     'made, and the status they return is the one they keep.',
     ['inputs', 'histories'], 'for every objective function and constraints, dimensions and limit, on every path',
     'The evaluations are made at one place reached from many in code with hundreds of jumps; only some objective '
     'functions take the rare ones.',
     PF, [('evaluation sites', 'newuoa.c: newuob; bobyqa.c: bobyqb, prelim, rescue; cobyla.c: cobylb'),
          ('reverse communication', 'newuoa_iterate, cobyla_iterate')])

prop('W03', 'BOBYQA evaluates the objective function within the bounds only',
     'Every point at which BOBYQA calls the objective function satisfies the bounds given by the user, exactly, in the '
     'units of the user, on every path of the algorithm (initial model, trust region and alternative steps, rescue), '
     'whether or not the variables are scaled; and so does the point it returns.',
     ['inputs'], 'for every objective function, bounds, starting point, scaling and path of the algorithm',
     'A point one rounding error out of a bound (or far out of it on a rescue step) requires particular bounds, scaling '
     'factors and function values.',
     ['src/bobyqa.c'], [('evaluation sites', 'bobyqa.c: bobyqb, prelim, rescue'), ('bounds', 'bobyqa.c: bobyqa_optimize')],
     note='The bounds and the coordinates are not NaN. Loops over the variables are supposed to be run at least once.')

prop('W04', 'Powell solvers speak in the terms of their user',
     'Whether minimizing or maximizing and with or without scaling, NEWUOA, BOBYQA and COBYLA give the objective function '
     'variables in the units of the user, every one of them set, work on the value with the sign of a minimization, '
     'report (in the workspace and in the messages) values of the sign that the user knows, and leave in the array of '
     'variables unscaled variables on every return.',
     ['inputs', 'configurations'], 'for every objective function, with or without maximization and scaling, on every path',
     'Maximization with scaling is rarely tested and a wrong sign or unit on a rare path (rescue, early return) goes '
     'unnoticed.',
     PF, [('signs and units', 'newuoa.c: newuob; bobyqa.c: bobyqb, prelim, rescue; cobyla.c: cobylb')],
     note='Loops over the variables are supposed to be run at least once.')

prop('W06', 'Reverse communication resumes exactly where it stopped',
     'When NEWUOA or COBYLA is driven by reverse communication, every local variable which is needed after the value of '
     'the function is given has, at that point, the value that it had when the value was requested: each is saved in the '
     'context before leaving, at its last value, and restored from there.',
     ['histories', 'schedules'], 'for every variable and every path through the suspension points',
     'A variable restored stale or never saved only matters on the paths where it is used later, which depend on the '
     'objective function.',
     ['src/newuoa.c', 'src/cobyla.c'], [('save and restore', 'newuoa.c: newuob (reverse communication form); cobyla.c: '
                                         'cobylb (reverse communication form)')],
     state=[('newuoa_context_t and cobyla_context_t', 'saved local variables', 'src/newuoa.c, src/cobyla.c')])

prop('W07', 'Contexts of the Powell solvers have a consistent life',
     'A context of NEWUOA or COBYLA is fully initialised by its creation and by a restart, asks for the value of the '
     'function first, answers each query with its own member, refuses an iteration when it is terminated or inconsistent, '
     'is deleted as a whole, and a NULL context or failed allocation is answered by an error and errno, never followed. '
     'Every status has its own message.',
     ['histories', 'fault_sequences'], 'for every state of a context, failure of the allocation and order of the calls',
     'Restarting, misuse and memory exhaustion are not exercised by the tests.',
     ['src/newuoa.c', 'src/cobyla.c', 'src/bobyqa.c'],
     [('life cycle', 'newuoa_create, newuoa_restart, newuoa_iterate, newuoa_get_*, newuoa_delete, *_reason; the same for '
                     'cobyla')])

prop('M01', 'Memory accesses stay within the blocks allocated and only use defined values',
     'Along every history of creations, uses, misuses and destructions of spaces, vectors, sets, line searches, optimizers, '
     'drivers, univariate minimizers and contexts of the Powell solvers, whatever the options, the sizes and the memory '
     'requested, each access to a block that the library has allocated, to one of its tables or to one of its local '
     'arrays is inside that block, table or array; no decision and no address depends on a value which was never set.',
     ['histories', 'inputs', 'configurations'], 'for every access on every path, for any sizes and options',
     'A block allocated a little too small is usually rounded up by the allocator and read or written by neighbours '
     'without any visible effect in a test.',
     ['src/utils.c', 'src/vmlmb.c', 'src/nlcg.c', 'src/lnsrch.c', 'src/driver.c', 'src/algebra.c', 'src/fmin.c',
      'src/newuoa.c', 'src/cobyla.c'],
     [('sizes of the blocks', 'vmlmb.c: opk_new_vmlmb_optimizer; nlcg.c: opk_new_nlcg_optimizer; algebra.c: '
                              'opk_allocate_vector; newuoa.c: newuoa_create; cobyla.c: cobyla_create')],
     note='Histories are those of the other checks (bounded number of iterations for the optimizers, any number for the '
          'line searches and the univariate minimizers); accesses to the arrays of the caller are the matter of O05, K02 '
          'and the work arrays of the Powell solvers of W05.')

prop('W05', 'Workspaces are divided in disjoint arrays which are long enough',
     'The arrays in which NEWUOA, BOBYQA and COBYLA divide the workspace given by the user or allocated by the creation of '
     'a context have the lengths documented in the solvers, do not overlap, are aligned and stay within the documented '
     'size of the workspace (or the allocated block), with and without scaling, whatever the numbers of variables, '
     'interpolation conditions and constraints.',
     ['inputs', 'configurations'], 'for all dimensions, with and without scaling',
     'Two arrays which overlap by one element for some dimensions give slightly wrong steps and a workspace one element '
     'too short corrupts the memory of the caller; the tests use a few dimensions.',
     PF, [('partitions', 'newuoa.c: newuoa_create, newuob; bobyqa.c: bobyqb; cobyla.c: cobyla_create, cobyla_optimize')],
     note='The partition is computed as polynomials of the dimensions; the comparison is made for all the dimensions below '
     '6 (below 9 in the thorough check), with all the permitted numbers of interpolation conditions. The accesses to the '
     'arrays are the concern of W01.')

prop('W08', 'Lagrange functions of NEWUOA and BOBYQA are updated by Powell\'s formula',
     'When an interpolation point is replaced, the matrices BMAT and ZMAT (with IDZ) of NEWUOA and BOBYQA, which represent the '
     'inverse of the matrix of the interpolation equations, become those given by the updating formula of Powell for any '
     'contents of the matrices, whatever the null elements in the row of the replaced point; BMAT stays symmetric where it '
     'must.',
     ['inputs'], 'for every contents of the matrices and replaced point, with positive denominators where they are in exact '
     'arithmetic (rounding aside)',
     'An error in the update only degrades the models: the solvers still converge on smooth test functions, more slowly.',
     ['src/newuoa.c', 'src/bobyqa.c'], [('updating procedures', 'newuoa.c: update; bobyqa.c: update')],
     note='Dimensions are given: N=2 with NPT=4 to 6 (also N=3 in the thorough check).')

# ---------------------------------------------------------------------------------------------------------- not claimed

prop('N01', 'Optimizers converge to a stationary point of a smooth function',
     'For every continuously differentiable function bounded below, with a Lipschitz gradient, VMLMB and NLCG reach a '
     'point where the norm of the (projected) gradient is below the required threshold, unless a limit is hit.',
     ['inputs', 'programs'], 'for every objective function and starting point',
     'Tests minimize the functions of one collection.',
     ['src/vmlmb.c', 'src/nlcg.c', 'src/lnsrch.c'],
     [('descent and line search', 'vmlmb.c: opk_iterate_vmlmb; nlcg.c: opk_iterate_nlcg; lnsrch.c')])

prop('N02', 'Powell solvers return a local minimum and the best point found',
     'On a normal termination NEWUOA, BOBYQA and COBYLA leave in the variables the best point they have evaluated, which '
     'is within a few RHOEND of a local minimum of the function (and feasible up to RHOEND for COBYLA).',
     ['inputs', 'programs'], 'for every objective function, constraints and trust region radii',
     'Tests use two or three functions.',
     ['src/newuoa.c', 'src/bobyqa.c', 'src/cobyla.c'],
     [('interpolation models and trust region steps', 'newuoa.c: newuob; bobyqa.c: bobyqb; cobyla.c: cobylb')])

prop('N03', 'Rounding errors do not spoil the results',
     'Sums, inner products, factorizations, steps and directions are computed with a relative error bounded by a modest '
     'multiple of the machine precision, and the iterations of the solvers end in floating point arithmetic.',
     ['inputs'], 'for every finite input and vector size',
     'Rounding depends on every bit of the input.',
     ['src/simple_vector.c', 'src/linalg-double.h', 'src/linalg-single.h', 'src/lnsrch.c'],
     [('floating point code', 'all numerical loops')])

na('N01', 'Convergence quantifies over infinite sequences of iterates produced by an unknown function; no invariant in '
          'reach of dataflow, typestate or abstract domains bounds them. The ingredients that can be decided from the '
          'source (directions, line search conditions, feasibility, convergence test) are L02, L03, T02, T04-T07.')
na('N02', 'That the point returned is the best one depends on real comparisons accumulated over all the evaluations '
          'through the indices of translated Fortran (KOPT and updates of the model), and its closeness to a minimum is '
          'numerical analysis; neither has a sound static argument in reach. The parts about counts, bounds, signs and '
          'state are W02-W07.')
na('N03', 'Bounds on rounding errors for symbolic sizes and unbounded iterations need relational floating point domains '
          'over whole solvers, out of reach here; all the checks compare results in real arithmetic.')
