#!/usr/bin/env python3
"""Writes properties.jsonl (the one place where the property texts are kept)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=False):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = list(observe)
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})


IF = 'src/xrtm_interface.c'
MO = 'src/xrtm_model.c'

p('C01', 'Saved calculations are never stale',
  'After any input of a model instance is changed by a set function, every quantity that the instance kept from an earlier solution and that depends on that input is recomputed before the next solution uses it: '
  'the set function marks as out of date exactly what its input affects, for every layer and Fourier order it affects, whatever options for saving intermediate results are on. The same holds after a change between the solvers that share saved layer operators.',
  ['histories', 'configurations'], 'all interleavings of set, solve and query calls on an instance, for all option/solver combinations',
  'a test fixes one short history; staleness shows only for particular (changed input, saved quantity, save options, solver) combinations, of which there are thousands',
  [IF, MO, 'src/xrtm_model.h', 'src/xrtm_save_tree.c'],
  [('dependency masks of saved quantities', 'src/xrtm_model.c: *_deps(), resolve_deps0/1/2()'),
   ('inputs raise dirty bits', 'src/xrtm_interface.c: set_deps(), xrtm_set_*()')],
  [('dep_flags_*', 'per saved quantity: inputs changed since it was computed', 'struct xrtm_data')], ['xrtm_solution', 'xrtm_radiance'])

p('C02', 'Saved results are rebuilt as a whole and never mixed',
  'When a saved calculation is found out of date, the recomputation rewrites everything that is kept for it, and the mark that says it is up to date is cleared only for quantities that this same step rewrites. '
  'Two saved quantities that are computed in different places never share one up-to-date mark.',
  ['histories', 'configurations'], 'all orders in which saved quantities are requested', 'needs two requests in a particular order on one instance, with particular save options',
  [MO], [('resolve / recompute pairs', 'src/xrtm_model.c: resolve_deps0/1/2() callers')])

p('C04', 'A rejected input leaves the instance unchanged',
  'When a call that sets an input fails, the instance is exactly as it was before the call: no value, size, marker or saved state has been modified. '
  'A caller that recovers from the error and solves again gets the result of the old inputs.',
  ['inputs', 'fault_sequences'], 'every failing set call with every combination of valid and invalid elements',
  'the failing element can be anywhere in an array argument, tests never look at the instance after a failed call',
  [IF, 'src/xrtm_fd_interface.c'], [('argument validation in setters', 'src/xrtm_interface.c: xrtm_set_*()')])

p('C05', 'Indexes and counts from the caller are validated before use',
  'Every index or count that a caller passes to a public function is checked against the documented range (zero to the number of elements minus one) before it is used to address any element, and a value outside the range makes the call fail. '
  'No public call reads or writes outside the arrays that belong to the instance, whatever integer is passed.',
  ['inputs'], 'all integer values of all index and count arguments of all public functions',
  'tests pass valid indexes; an off-by-one or a missing lower bound is invisible until memory is corrupted',
  [IF, 'src/xrtm_support.h', 'src/xrtm_fd_interface.c'], [('index range checks', 'src/xrtm_support.h: CHECK_INDEX_RANGE, CHECK_*; src/xrtm_interface.c')])

p('C06', 'Storage that the options did not allocate is never touched',
  'An instance owns only the storage that its options, solvers and sizes call for. '
  'Every documented call on an instance (any setter, getter, query or solution for one of its solvers; the undocumented reverse mode excepted) either refuses with an error when the instance was created without what the call needs, or touches only members whose storage was allocated for this combination of options, solvers and counts.',
  ['configurations', 'inputs'], 'all option / solver combinations accepted at creation and all public calls on them',
  'tests use a handful of combinations; a missing precondition dereferences a null or garbage pointer only for others',
  [IF, MO], [('conditional allocation', 'src/xrtm_interface.c: xrtm_create_misc()'), ('option preconditions', 'src/xrtm_interface.c: setters and getters')])

p('C07', 'A simulation never runs on inputs that were not set',
  'A solution or query through the documented interface is refused with an error as long as an input that the chosen configuration uses (options, sources, solver, kernels, every layer, every kernel and every kernel parameter) has not been set since the instance was created; asking for an input that was not set is refused too. '
  'Setting an input marks exactly that input, or that layer, parameter or element of it, as set, and only once the values were accepted. (Derivative inputs have the value zero from the creation on.)',
  ['histories', 'configurations'], 'all orders and subsets of set calls before a solve, for all configurations',
  'tests always set everything; forgetting one input silently uses uninitialized numbers',
  [IF], [('completeness check', 'src/xrtm_interface.c: check_inputs_initialized(), solution_preprocess()')],
  [('set_flags_*', 'input has been set', 'struct xrtm_data')])

p('C08', 'What is set is what is read back',
  'For every input with a set and a get function, the get function returns the element that the set function stored for the same layer, element, coefficient, kernel, parameter and derivative indexes. '
  'Setting one element never changes another one.',
  ['inputs', 'histories'], 'all indexes and values of all set/get pairs', 'swapped or shifted indexes agree on symmetric or single-element cases',
  [IF, 'src/xrtm_fd_interface.c'], [('set and get pairs', 'src/xrtm_interface.c: xrtm_set_*(), xrtm_get_*()')])

p('C09', 'Destroying an instance releases everything it allocated, once',
  'Everything that creating and using an instance allocated on its behalf is released exactly once, by the matching release function, when the instance is destroyed, for every combination of options, solvers and sizes. '
  'Nothing is released that was not allocated.',
  ['configurations', 'histories'], 'all option/solver combinations; create/use/destroy histories', 'leaks and double frees are silent in tests and appear only for particular option combinations',
  [IF, 'src/xrtm_fd_interface.c', 'src/xrtm_save_tree.c', 'src/xrtm_stacks.c'], [('allocation', 'src/xrtm_interface.c: xrtm_create_misc()'), ('release', 'src/xrtm_interface.c: xrtm_destroy()')])

p('C10', 'Temporary storage is released on every path',
  'Memory that a call of the C interface (of the model, its finite difference variant and the C helpers of the Fortran bindings) allocates for its own temporary use is released before the call returns, on success and on every error path, and is neither used nor released again afterwards. '
  'Repeated simulations on an instance do not grow the memory of the process.',
  ['histories', 'fault_sequences'], 'all paths through all library functions, including error exits', 'leaks on error paths or rare branches do not change results',
  [IF, MO, 'src/xrtm_fd_interface.c', 'src/xrtm_sos.c', 'src/xrtm_radiance.c'], [('local allocations', 'src/*.c: alloc_array*/free_array*, malloc/free')])

p('C11', 'Names, masks and identifiers agree everywhere',
  'Each option, solver, output, input and kernel has one public identifier value and one name, and translating between name, position and mask in either direction always agrees with it. '
  'Every identifier is a distinct single bit (or a distinct number for kernels), and the group masks contain exactly the members documented for the group.',
  ['inputs'], 'all identifiers, names and positions', 'a shifted table entry gives a wrong but valid identifier that no existing test looks up',
  [IF, 'src/xrtm.h', 'src/xrtm_interface.h', 'src/xrtm_brdf.c'], [('name/value tables', 'src/xrtm_interface.c: xrtm_option_names[], xrtm_solver_names[], ...')])

p('C12', 'Model instances are independent of each other',
  'No library function keeps data that outlives a call anywhere but in the instance passed to it: simulations on different instances, interleaved or concurrent, give the same results as if each instance were alone in the process.',
  ['schedules', 'histories'], 'all interleavings and concurrent executions of calls on distinct instances', 'tests create one instance at a time',
  ['src', 'misc'], [('state lives in the instance', 'src/xrtm_interface.h: struct xrtm_data')])

p('C13', 'A failure inside the library always reaches the caller',
  'When any step of a library call fails or an error is reported on the error stream, the call as a whole reports failure: no failing step is ignored, and no error message is followed by a result that looks successful. '
  'This includes the status of the linear algebra routines the solvers use.',
  ['inputs', 'fault_sequences', 'configurations'], 'all failing steps on all paths of all public calls', 'failures of inner steps are rare and never provoked by the tests',
  ['src', 'misc'], [('error returns and messages', 'src/*.c: if (f(...)) { fprintf(stderr, "ERROR: ..."); return ...; }')])

p('C14', 'Errors are signalled with the documented code',
  'Every function of the public interface, finite difference interface included, that fails returns the documented error code for its result type, and never any other negative number that callers and language bindings would take for success or for data.',
  ['inputs', 'configurations'], 'all error returns of all public functions', 'the tests do not exercise error returns; bindings compare with one code only',
  [IF, 'src/xrtm_fd_interface.c', 'src/xrtm_support.h'], [('error codes', 'src/xrtm_interface.h: XRTM_INT_ERROR, XRTM_DBL_ERROR')])

p('C15', 'Unsupported combinations are refused at creation',
  'Creating an instance fails for every combination of options, solvers and sizes that the library does not support, such as a solver combined with an option it cannot handle, mutually exclusive options, or sizes outside their valid range. '
  'Supported combinations are accepted.',
  ['configurations'], 'all combinations of options, solvers and counts', 'there are too many combinations; an unsupported one that is accepted produces plausible but wrong numbers',
  [IF], [('validation', 'src/xrtm_interface.c: xrtm_check_options(), xrtm_check_counts(), xrtm_check_solvers()')])

p('C16', 'Every solver, kernel and output is dispatched to its own implementation',
  'Requesting a solver runs the implementation of that solver and of no other, in every supported configuration and in the adjoint mode too. Every BRDF kernel type is evaluated by functions of its own: '
  'the evaluation is reachable without an error exit, uses only quantities that the preparation of the same kernel computed, reads exactly the number of parameters the interface documents for the type, '
  'sets its derivatives whenever they are asked for, depends on the azimuth only if the type is expanded into a Fourier series, and is combined with the amplitude and parameters of the same kernel position. '
  'Requesting an output (radiance, mean radiance, flux) writes the result arrays of that output, including the derivatives when they are enabled, and no others.',
  ['inputs', 'configurations'], 'all solver, kernel and output identifiers', 'the tests run one solver and a single kernel',
  [MO, 'src/xrtm_brdf.c', 'src/xrtm_interface.c'], [('solver dispatch', 'src/xrtm_model.c: call_solver(), get_solution_internal()'), ('kernel evaluation', 'src/xrtm_brdf.c: call_aux_func(), call_kernel_func(), brdf_build_kernel_*()'), ('outputs', 'src/xrtm_interface.c: xrtm_radiance(), xrtm_mean_radiance(), xrtm_flux()')])

p('C17', 'The C++ binding forwards every call faithfully',
  'Each function of the C++ class calls the C function of the same name with the same arguments in the same order and turns the documented error codes, and only those, into exceptions.',
  ['inputs'], 'all functions of the binding', 'only a fraction of the binding is exercised by the example program',
  ['interfaces/xrtm_int_cpp.cpp', 'interfaces/xrtm_interface.def'], [('wrappers', 'interfaces/xrtm_int_cpp.cpp')])

p('C18', 'The Fortran bindings forward every call faithfully',
  'Each Fortran entry point calls the C function it is named after with the arguments in the same order and with the declared types, ranks and dimensions; functions that return a value return it unchanged, and the status of the others is zero exactly when the C function succeeded.',
  ['inputs'], 'all functions of the Fortran 77 and Fortran 90 bindings', 'only a fraction of the binding is exercised by the example programs',
  ['interfaces/xrtm_int_f77.f', 'interfaces/xrtm_int_f77_util.c', 'interfaces/xrtm_int_f90.f90', 'interfaces/xrtm_int_f90_util.c'], [('wrappers', 'interfaces/xrtm_int_f90.f90, interfaces/xrtm_int_f77.f')])

p('C19', 'The Python binding forwards every call faithfully',
  'Each method of the Python class passes its arguments to the C function of the same name in the same order and with matching types and dimensions, returns what that function produced and raises an exception whenever it reports an error.',
  ['inputs'], 'all methods of the Python binding', 'only a fraction of the binding is exercised by the example program',
  ['interfaces/xrtm_int_py.c'], [('wrappers', 'interfaces/xrtm_int_py.c')])

p('C20', 'Values saved for the adjoint are restored as they were saved',
  'In adjoint mode every value that the forward pass saves for the reverse pass is restored by the reverse pass from the same place and with the same type, and the path that identifies the place is left exactly as it was found when a step returns.',
  ['configurations', 'histories'], 'all forward/reverse pairs in all configurations', 'adjoint mode is not covered by the existing tests',
  ['src/xrtm_save_tree.c', 'src/xrtm_model_a.c', MO], [('save tree', 'src/xrtm_save_tree.h: save_tree_encode_*/decode_*/retrieve_data')])

p('C22', 'Derivative inputs never influence the radiances themselves',
  'Radiances, mean radiances and fluxes depend only on the base inputs: no linearized input ever flows into them. '
  'Switching derivatives on, or changing any linearized input, leaves the base results as they are.',
  ['inputs', 'configurations'], 'all values of all linearized inputs', 'a leak of one linearized quantity into a base quantity shows only for particular solvers and nonzero derivative values',
  ['src'], [('base and linearized computations', 'src/*.c: variables and arrays with suffix _l')])

p('C23', 'Every input influences the outputs and derivatives it should',
  'For every solver, each requested output is computed and depends on every physical input that the configuration makes relevant to it, and the derivative of each output depends on the linearized counterpart of each of these inputs. '
  'No source of light, layer property or surface property is dropped on the way.',
  ['configurations', 'inputs'], 'all solvers, outputs, options and inputs', 'the existing tests run few solver/option combinations and compare few numbers',
  ['src'], [('data flow from inputs to outputs', 'src/xrtm_model.c: get_solution*() and the solvers')])

p('C24', 'Finite differencing leaves the inputs as they were',
  'A finite difference run undoes all perturbations it applies, so that after a successful run every input of the underlying instance is back at its value and repeated runs give the same result. '
  'Every input that can be perturbed is perturbed, over its whole range, and each derivative returned is the difference quotient of the results computed, over the step between them.',
  ['inputs', 'histories'], 'all difference methods and perturbations', 'one run looks right; only the following run or a later solve is wrong',
  ['src/xrtm_fd_interface.c'], [('perturb and restore', 'src/xrtm_fd_interface.c: perturb_values(), xrtm_fd_solution()')])

p('C26', 'Arrays passed by the caller are neither kept nor modified',
  'Input arrays given to the library are copied: the library never keeps a reference to the caller\'s memory after a call returns, and never writes to an array that is an input of the call. '
  'Output arrays are written and not kept. (Kept by design: the function and auxiliary data given to xrtm_set_kernel_func() and the instance given to xrtm_fd_create().)',
  ['histories', 'inputs'], 'all public calls and all later modifications or releases of the caller\'s arrays', 'tests keep their arrays alive and unchanged',
  [IF, 'src/xrtm_fd_interface.c'], [('copying setters', 'src/xrtm_interface.c')])

p('C27', 'Solving and querying do not change the inputs',
  'Running a simulation or reading back inputs never changes any input of the instance or its configuration: reading the inputs before and after gives the same values, and a query changes nothing at all.',
  ['histories', 'configurations'], 'all sequences of solve and get calls', 'needs reading back all inputs after each kind of solve',
  [IF, MO], [('solve and get functions', 'src/xrtm_interface.c: xrtm_solution(), xrtm_radiance(), xrtm_get_*()')])

p('C28', 'Diagnostics never read beyond their arguments',
  'Every message the library formats supplies exactly the arguments, of the right kind, that its format asks for, and formatting into a fixed buffer never exceeds the buffer.',
  ['inputs', 'fault_sequences'], 'all messages on all error paths', 'error messages are produced on paths that tests do not take',
  ['src', 'misc', 'interfaces', 'utils'], [('formatted output', 'calls of the printf family')])

p('C30', 'Radiant energy is conserved for conservative scattering',
  'For non-absorbing layers over a non-absorbing surface the fluxes entering and leaving the atmosphere balance to numerical accuracy, for every solver.',
  ['inputs'], 'all optical properties with single scattering albedo one', 'a continuum of inputs', ['src'], [('solvers', 'src/xrtm_*.c')])
p('C31', 'Different solvers agree on the same problem',
  'Solvers that solve the same equations with the same discretization give the same radiances to numerical accuracy.',
  ['inputs', 'configurations'], 'all inputs and solver pairs', 'a continuum of inputs', ['src'], [('solvers', 'src/xrtm_*.c')])
p('C32', 'Linearized results are the derivatives of the base results',
  'Each linearized output equals the derivative of the base output along the given linearized inputs.',
  ['inputs', 'configurations'], 'all inputs and derivative directions', 'a continuum of inputs', ['src'], [('linearized solvers', 'src/xrtm_*.c')])
p('C33', 'Adjoint and tangent linear derivatives agree',
  'Derivatives computed in adjoint mode equal those computed in tangent linear mode.',
  ['inputs', 'configurations'], 'all inputs', 'a continuum of inputs', ['src/xrtm_model_a.c'], [('adjoint', 'src/*_a.c')])
p('C34', 'Symmetry and reciprocity of the computed radiances',
  'Computed reflection and transmission obey the reciprocity and azimuthal symmetry relations of the radiative transfer equation.',
  ['inputs'], 'all inputs', 'a continuum of inputs', ['src'], [('solvers', 'src/xrtm_*.c')])
p('C35', 'Quadrature and phase function expansions are accurate',
  'Quadrature nodes and weights integrate polynomials of the degree they promise exactly, and phase functions are reproduced from their expansion coefficients.',
  ['inputs'], 'all orders and angles', 'a continuum of inputs', ['src', 'misc'], [('quadrature', 'misc/rtutil_math.c')])

if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    print(len(P))
