ZT = [TF + 'latex_zhz.py']
ET = [TF + 'latex_eT_zhz.py']
A(P('C13', 'z_t LaTeX equations are exactly the projected product H Z',
    'For every truncation, the z_t LaTeX contains one equation under the right heading for each projection operator within the truncation. Its sum lists every contraction of a Hamiltonian operator (ranks above two only with annihilation labels) with a z operator that ends on the projection exactly once and nothing else, with one f-bar per contraction, coefficient 1/(product of factorials of contracted and projected labels), every summation label exactly twice and every projection label exactly once. First term, time derivative, amplitude equation and the sum of products of dt/dtau with z carry the labels of the projection. Excited states are refused.',
    ['inputs', 'configurations'], 'Hamiltonian, cluster and projection truncations 1..6',
    'Reference output exists for one truncation; tests compare fragments.',
    ZT, [('_filter_out_valid_z_terms', TF + 'latex_zhz.py'), ('_build_hz_latex_prefactor', TF + 'latex_zhz.py'),
         ('_build_fifth_z_term', TF + 'latex_zhz.py'), ('generate_z_t_symmetric_latex', TF + 'latex_zhz.py')],
    ['the written .tex file'], note=NOTE + 'All truncations 1..6.'))
A(P('C14', 'eT_z_t LaTeX equations are exactly the projected product exp(T) H Z',
    'For every truncation, the right hand side eT_z_t LaTeX contains one equation for each projection operator (annihilation labels only) within the truncation. Its sum lists every contraction of up to the requested number of single t operators, each joined with h or with z, a Hamiltonian operator (ranks above two only with annihilation labels) and a z operator exactly once and nothing else, with one f-bar per contraction, coefficient 1/(product of factorials of the numbers of t-h, t-z and h-z contractions and of projected labels), every summation label exactly twice and every projection label exactly once; likewise the first term and the products of dt/dtau with z. Excited states are refused.',
    ['inputs', 'configurations'], 'Hamiltonian, cluster, projection truncations 1..6, order of exp(T) 1..8',
    'Reference output exists for one or two truncations.',
    ET, [('_filter_out_valid_eTz_terms', TF + 'latex_eT_zhz.py'), ('_generate_all_o_eT_h_z_connection_permutations', TF + 'latex_eT_zhz.py'),
         ('_build_eThz_latex_prefactor', TF + 'latex_eT_zhz.py'), ('_prepare_third_eTz_latex', TF + 'latex_eT_zhz.py')],
    ['the written .tex file'], note=NOTE))
A(P('C15', 'eT_z_t LaTeX of the left hand side differentiates exactly one factor per term',
    'The left hand side eT_z_t LaTeX lists, for each projection operator within the truncation, every contraction of up to the requested number of conjugate t operators with dt/dtau (one or two creation labels) and z, or with dz/dtau where there is no t derivative, exactly once and nothing else; exactly one factor is differentiated and carries i; prefactors, f-bar and labels follow the same rules as on the right hand side.',
    ['inputs', 'configurations'], 'Hamiltonian, cluster, projection truncations 1..6, order of exp(T) 1..8',
    'Reference output exists for one or two truncations.',
    ET, [('_generate_eT_z_symmetric_latex_equations', TF + 'latex_eT_zhz.py'), ('_build_eT_hz_term_latex_labels, _build_eT_right_z_term', TF + 'latex_eT_zhz.py')],
    ['the written .tex file'], note=NOTE))
A(P('C16', 'eT_z_t Python right hand sides compute the projected product exp(T) H Z',
    'Executing a generated right hand side eT_z_t module adds to each projection exactly the contractions of exp(T), one Hamiltonian operator and one z within the truncation, split into those without (HZ) and with (eT_HZ) t operators, each with coefficient 1/(product of factorials of the numbers of contractions and projected labels), surfaces multiplied as matrix times vector and output axes ordered Hamiltonian first.',
    ['inputs', 'configurations'], 'Hamiltonian, cluster, projection truncations 1..6, order of exp(T) 1..8 within the cost bound',
    'Tests compare generated text for a few truncations and never execute it.',
    [TF + 'code_eT_zhz.py', TF + 'latex_eT_zhz.py'],
    [('_write_third_eTz_einsum_python', TF + 'code_eT_zhz.py'), ('_build_eT_zhz_python_prefactor', TF + 'code_eT_zhz.py'), ('_generate_eT_zhz_einsums', TF + 'code_eT_zhz.py')],
    ['executing the generated module with symbolic tensors'], note=NOTE + 'Known finding F05; the two mode axes of h^1_1 are taken as interchangeable.'))
A(P('C17', 'eT_z_t Python left hand sides compute the terms which accompany dz/dtau',
    'Executing a generated left hand side eT_z_t module adds to each projection exactly the contractions of exp(T) conjugate with dt/dtau and z, or with dz/dtau, other than the dz/dtau it is solved for, with the coefficients of the right hand side rule, the surface label carried by z and output axes ordered dt/dtau first.',
    ['inputs', 'configurations'], 'Hamiltonian, cluster, projection truncations 1..6, order of exp(T) 1..8 within the cost bound',
    'Tests compare generated text for a few truncations and never execute it.',
    [TF + 'code_eT_zhz.py', TF + 'latex_eT_zhz.py'],
    [('_write_third_eTz_einsum_python', TF + 'code_eT_zhz.py'), ('_eT_zhz_einsum_vibrational_components_lhs', TF + 'code_eT_zhz.py')],
    ['executing the generated module with symbolic tensors'], note=NOTE))
A(P('C18', 'eT_z_t Python evaluates a term exactly when the truncation includes it',
    'At run time a generated eT_z_t module (left or right hand side) adds a contraction exactly when the caller\'s truncation includes the order of its Hamiltonian (or dt/dtau) operator, singles if it has t operators, and the order of its z operator, independently of all others. The amplitude is the sum of its HZ and eT_HZ parts with one axis per projected label, insists on the cluster amplitudes up to its order, and the optimized functions compute the same. A module for the ground state refuses hot band amplitudes; one with excited states computes the same contractions for the ground state and for hot bands.',
    ['inputs', 'configurations'], 'every truncation of the generator within the bound and every run-time truncation level',
    'The nesting of the run-time conditions depends on which terms share them; the tests compare text for a few truncations.',
    [TF + 'code_eT_zhz.py'], [('_collect_z_contributions', TF + 'code_eT_zhz.py'), ('_construct_eT_zhz_compute_function, _write_master_eT_zhz_compute_function', TF + 'code_eT_zhz.py')],
    ['executing the generated module under every truncation level'], note=NOTE))

REPLAY = 'TLA+ specification checked with TLC; behaviours generated from it by TLC are replayed in the real program and compared step by step'
SNOTE = ('Command pools of spec/GenSession.tla: every single command, and random sessions from TLC simulation (seeded). '
         'Trusts TLC, the replay harness and that a generator called directly in a fresh process is the reference for what a file should hold. ')
A(P('C19', 'driver.py writes exactly the requested equations, or refuses and writes none',
    'A run of driver.py produces the equations of exactly the truncation (given as integers by -t or as a JSON file by -p), ansatz (given by -a or inferred from the number of truncation values), language (-c), side (-lhs), states (-es) and treatment of f terms (-rf, a true or false word) that were asked for, in a file whose name states the request, replacing whatever the file held. -t also saves the truncation to ../truncs.json, from where -p reproduces the same equations. A request that is ambiguous, incomplete, out of range, of the wrong size for the ansatz or not implemented, or whose file cannot be written, ends with a nonzero exit status and neither creates nor changes any equations file. Earlier runs, stale files, logging options, and another run which writes a different equations file at the same time in the same directory never change what is produced.',
    ['inputs', 'configurations', 'histories', 'schedules'], 'every command line over the options of driver.py, every history of runs and truncation files, and every file access at which another run may intervene',
    'The driver has no unit tests of whole runs; option combinations and histories of files are unbounded.',
    [TF + 'driver.py', TF + '_glue_.py', TF + 'truncations.py', TF + 'truncation_keys.py'],
    [('__main__ block, _make_trunc, _boolean', TF + 'driver.py'), ('_generate_latex, _generate_python and their wrappers', TF + '_glue_.py')],
    ['exit status and files of driver.py runs in a scratch directory'], technique=REPLAY, note=SNOTE,
    state=[('truncs.json', 'the truncation saved by the last -t run', TF + 'driver.py')]))
A(P('C20', 'Truncations are accepted exactly when complete and in range; files round-trip',
    'A truncation dictionary is accepted for an ansatz exactly when every truncation the ansatz needs is present and lies between 1 and its maximum (6 for Hamiltonian, cluster, S-product and projection, 1 for the T rank, 8 for the order of exp(T)). Saving a truncation to a JSON file and loading it gives back the same dictionary, whatever was in the file before, and leaves the dictionary of the caller as it was. Loading refuses unreadable files, unknown or missing keys, and values out of range, and changes no file; given a dictionary with the same keys it overwrites the values in place, or leaves them when it refuses.',
    ['inputs', 'histories'], 'every dictionary over the known and unknown keys with boundary values, every history of saves, loads and hand edits',
    'Tests load and save one or two dictionaries.',
    [TF + 'truncations.py', TF + 'truncation_keys.py'],
    [('__verify_keys, _verify_fcc_truncations, _verify_zhz_truncations, _verify_eT_z_t_truncations', TF + 'truncations.py'),
     ('_save_to_JSON, _load_from_JSON', TF + 'truncations.py'), ('key_list_type, change_dictionary_keys_*', TF + 'truncation_keys.py')],
    ['calls of the functions and the files they leave'], technique=REPLAY, note=SNOTE))
A(P('C21', 'What a generator writes depends only on its arguments',
    'Whatever was generated before in the same process, whichever options earlier calls used, whatever the target file contained (but the thermal W equations keep the LaTeX preamble of the target), and whatever the hash seed of the interpreter, each generator (W, residual, dt amplitude, full CC, z_t and eT_z_t, Python and LaTeX) writes the file it would write in a fresh process, writes no other file, and leaves the truncation dictionary of the caller (whatever the order of its keys) unchanged. Options which the caller does not give take their documented defaults.',
    ['histories', 'configurations'], 'every sequence of generator calls in one process',
    'Tests call each generator once in one order with PYTHONHASHSEED fixed.',
    [TF + '_glue_.py', TF + 'code_full_cc.py', TF + 'code_eT_zhz.py', TF + 'latex_full_cc.py', TF + 'latex_zhz.py', TF + 'latex_eT_zhz.py',
     TF + 'latex_w_equations.py', TF + 'code_w_equations.py', TF + 'code_dt_equations.py', TF + 'code_residual_equations.py'],
    [('module level state of the generators', TF + 'code_residual_equations.py'), ('_generate_latex, _generate_python: defaults', TF + '_glue_.py')],
    ['files written by sequences of library calls in one process'], technique=REPLAY, note=SNOTE))
A(P('C22', 'Every generated LaTeX document is well formed and self-contained',
    'Whatever the truncation and options, a LaTeX document written by termfactory (W operators, full CC, z_t, eT_z_t) is one that LaTeX accepts: it has one preamble and one body; groups, environments, delimiters and parentheses of formulas are properly nested; scripts, alignment marks and line breaks stand only where they are allowed, at most one superscript and one subscript per symbol and one alignment mark per row of a split; no formula contains an empty line; every command is built in, defined once in the preamble or provided by a package the document loads, is used in the right mode and has its arguments. The thermal W equations are a fragment to which all but the preamble applies.',
    ['inputs', 'configurations'], 'every truncation, state, side and treatment of f terms for which a document is written, within the cost bound',
    'The documents are only compared with a few stored copies; the places where long sums are split, classes are empty or projections end a section depend on the truncation.',
    [TF + 'latex_w_equations.py', TF + 'latex_full_cc.py', TF + 'latex_zhz.py', TF + 'latex_eT_zhz.py', TF + 'reference_latex_headers.py'],
    [('headers', TF + 'reference_latex_headers.py'), ('generate_full_cc_latex', TF + 'latex_full_cc.py'), ('generate_z_t_symmetric_latex', TF + 'latex_zhz.py'),
     ('generate_eT_z_t_symmetric_latex', TF + 'latex_eT_zhz.py'), ('ground_state_w_equations_latex, excited_state_w_equations_latex', TF + 'latex_w_equations.py')],
    ['the written .tex file'], note=NOTE + 'No TeX installation is present: the specification states the rules of TeX for the constructs in use. Known finding F06.'))
A(P('C23', 'Every generated Python module is complete and self-contained',
    'Whatever the order, truncation and options, a Python module written by termfactory (W operators, residuals, dt amplitudes, full CC, eT_z_t) is valid Python whose functions can run: it imports only what its package provides and uses only members those imports have; every function is defined once; every name a function uses is a parameter, a variable assigned on every path to the use, an import, a builtin or a function of the module; calls of functions of the module, and of the residual module generated for the same order, pass the number of arguments those take; each contraction has as many operands as subscripts and output labels that occur once there and in some operand; each default function has its optimized counterpart.',
    ['inputs', 'configurations'], 'every order, truncation, state, side and treatment of f terms for which a module is written, within the cost bound',
    'The generated modules are only compared as text with a few stored copies; they are never imported, and which functions refer to each other depends on the order and truncation.',
    [TF + 'code_w_equations.py', TF + 'code_dt_equations.py', TF + 'code_residual_equations.py', TF + 'code_full_cc.py', TF + 'code_eT_zhz.py', TF + 'code_import_statements_module.py'],
    [('import statements', TF + 'code_import_statements_module.py'), ('_write_master_w_compute_function', TF + 'code_w_equations.py'),
     ('_write_master_dt_amplitude_function, generate_dt_amplitude_equations_file', TF + 'code_dt_equations.py'), ('_wrap_full_cc_generation', TF + 'code_full_cc.py'),
     ('_wrap_eT_zhz_generation, _write_master_eT_zhz_compute_function', TF + 'code_eT_zhz.py')],
    ['the written .py file'], note=NOTE + 'Known finding F07.'))
A(P('C24', 'Partitions, orderings and symmetrization are exhaustive and free of repeats',
    'For every n, the shared helpers list each partition of n exactly once (parts in decreasing order), the mixed ones exactly those with at most one part above one, the linked disconnected ones those of them with more than one part, the un-linked disconnected ones all others, and the connected one the n ones; unique_permutations lists each distinct order of its items exactly once, sorted; and the generated symmetrizing function adds up a tensor over every permutation of its mode axes exactly once, leaving the two electronic axes in place and tensors of order zero and one as they are.',
    ['inputs'], 'every n and every collection of items within the bound, every maximal order of the symmetrizing function',
    'Most of these helpers have no tests at all (they are excluded from coverage), yet every generator enumerates its terms with them.',
    [TF + 'helper_funcs.py'],
    [('generate_partitions_of_n and its relatives, unique_permutations', TF + 'helper_funcs.py'), ('build_symmetrizing_function', TF + 'helper_funcs.py')],
    ['values returned by the helpers and what the generated symmetrizing function computes'], note=NOTE))
