TECH['C12'] = 'interprocedural effect analysis (may-write of static storage) over LLVM IR'
NOTE['C12'] = 'Sound for writes through pointers derived from static objects; trusts clang and the model of external routines.'
TECH['C13'] = 'error-path dataflow: every failing call site and ERROR message followed to the return'
NOTE['C13'] = 'Value-set propagation from each failing call to all reachable returns; frozen list of search functions whose negative result is an answer.'
TECH['C14'] = 'interprocedural constant propagation to the returns of all public functions'
NOTE['C14'] = 'Enumerates all negative constants that can reach a return of a public function.'
TECH['C28'] = 'type-checked format analysis plus object-size dataflow over LLVM IR'
NOTE['C28'] = 'clang -Wformat on every translation unit; sizes of buffers and maximum lengths of writes into them; offsets derived from reported lengths must be guarded.'
TECH['C11'] = 'consistency analysis of constant tables, enumerators and lookup code in LLVM IR'
NOTE['C11'] = 'All tables, enumerators, group masks and binding constants are enumerated and compared; lookup functions are checked for position consistency.'
TECH['C05'] = 'symbolic access analysis: branch facts at every array access against the allocated dimensions, linear arithmetic'
NOTE['C05'] = 'Every index of a public call that depends on a caller integer is proven in range by a sound, incomplete prover; sizes come from the allocations in the constructors.'
TECH['C08'] = 'symbolic access analysis: location read by each get function against locations stored by the set functions'
NOTE['C08'] = 'Set and get functions of the interface descriptions compared dimension by dimension, element of the caller array included; loops that are not counting loops are reported as undecided.'
TECH['C04'] = 'path-sensitive typestate analysis with callee outcome summaries'
NOTE['C04'] = 'Every path of every set function that ends in an error is followed; helpers are replaced by their (result, written objects) outcomes; unknown results are taken both ways.'
TECH['C26'] = 'interprocedural points-to and may-write summaries over LLVM IR'
NOTE['C26'] = 'Field-sensitive, flow-insensitive contents; every public function; external routines modelled by written arguments.'
TECH['C27'] = 'interprocedural may-write (effect) summaries, plus restore typestate for temporarily changed members'
NOTE['C27'] = 'Members read by the get functions against members written by simulations; option-pruned rerun for members computed in another output mode.'
TECH['C24'] = 'path-sensitive constant propagation of perturbations and step factors'
NOTE['C24'] = 'Loop bodies are taken once with a symbolic position; net perturbation, weights and coverage are exact on every path; failed runs are not followed.'
TECH['C15'] = 'abstract interpretation (intervals with known bits) of the constructor'
NOTE['C15'] = 'Each unsupported combination is assumed with all other inputs unknown; supported ones are enumerated by solver and up to two (thorough: three) features.'

TECH['C16'] = 'interprocedural conditional constant propagation over the LLVM IR with labelled pointers'
NOTE['C16'] = 'Per solver and feature, per kernel type and per output: the functions that can run, the parameters and prepared quantities read, the arrays written.'
TECH['C17'] = 'conditional forward dataflow over the LLVM IR of every method, and generated static assertions (compile-fail witnesses)'
NOTE['C17'] = 'Every method of both classes, once per class of results of the C function: arguments, number of calls, exception, result; identifiers and member types asserted at compile time.'
TECH['C18'] = 'dataflow over the GIMPLE of every Fortran procedure composed with conditional dataflow over the LLVM IR of its C helper, and generated compile-fail witnesses'
NOTE['C18'] = 'Every procedure of the Fortran 77 and 90 bindings: arguments, declared types, ranks and dimensions, status or value, error and success of the C function separately.'
TECH['C19'] = 'path-sensitive forward analysis (typestate and term propagation) over the LLVM IR of every method'
NOTE['C19'] = 'All paths of all methods, outcomes of the Python, NumPy and C calls enumerated; support functions analysed for every rank or list length up to five.'

TECH['C01'] = 'interprocedural flow summaries (field-sensitive, option-pruned, guarded by dirty-bit tests) composed with must-raise summaries of the set functions; symbolic ranges of the elements marked'
NOTE['C01'] = 'Covering set of configurations (pairs of option levels), every set function against every kept value of the instance; elements of arrays only through the ranges a set function marks.'
TECH['C09'] = 'path-condition (BDD) comparison of acquire and release events, plus typestate of early releases'
TECH['C06'] = 'interprocedural path-condition (BDD) summaries of pointer-member accesses, compared with the allocation conditions under the combinations creation accepts'
NOTE['C06'] = 'Every access through a pointer member below every public function; one solver per call, reverse mode and sizes of the storage excluded.'
TECH['C07'] = 'interprocedural path-condition (BDD) summaries of input reads, compared with the condition under which the completeness check passes with the flag of the input down; symbolic comparison of flag and element indexes'
NOTE['C07'] = 'Inputs with storage shared with values set at creation (output angles, quadrature) only through the acceptance rule; phase coefficients through their flag; one solver per call; reverse mode excluded.'
NOTE['C09'] = 'Every member allocated by a constructor, by later calls or by a saved calculation, against its release: condition over options/solvers/counts, class of storage, once. Loop bounds are not compared.'

TECH['C10'] = 'path-sensitive ownership (typestate) dataflow over the LLVM IR with interprocedural release, keep and hand-over summaries'
NOTE['C10'] = 'Every function the C interface and the helpers of the Fortran bindings reach; condition (BDD) under which each allocation is still owned at every return; memory handed on is left to its new owner (C09).'
