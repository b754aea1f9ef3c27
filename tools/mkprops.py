"""writes properties.jsonl and MANIFEST.json from one table"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONF = 'TLA+ specification checked with TLC; outputs of the real generators replayed against it (trace validation)'


def P(id, title, statement, over, qtext, why, files, mech, observe, technique=CONF, level='model_checking', note='', state=()):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                observe=observe, technique=technique, level=level, note=note, state=state)


NOTE = ('Bounded, exhaustive within the bounds named in DESIGN.md. Trusts TLC, the reader of the generated text in harness/ '
        'and the specification in spec/. ')
TF = 'termfactory/'
PROPS = []
A = PROPS.append

A(P('C01', 'Generated W operators are exactly the Taylor expansion of exp(T)',
    'For every requested order, the generated Python that evaluates a W operator sums exactly the products of amplitudes whose orders add up to that order and which the chosen ansatz (VECI, mixed, VECC) and singles/doubles/... truncation keep, each with coefficient 1/k! times the 1/n! of each amplitude, electronic surfaces multiplied in the order of the product. From order two on the result is symmetrized, has one axis per mode, and the function that evaluates all W operators returns exactly those the truncation needs and refuses truncations it does not support.',
    ['inputs', 'configurations'], 'every order 1..6, every ansatz, every truncation level',
    'The tests compare the text of a few orders with stored copies, so they neither execute the code nor cover every order/ansatz/truncation combination.',
    [TF + 'code_w_equations.py'], [('_generate_vemx_contributions, _generate_vecc_contributions, _w_einsum_list', TF + 'code_w_equations.py')],
    ['executing the generated module with symbolic amplitudes'], note=NOTE + 'Orders 1..6.'))
A(P('C02', 'Generated residuals are exactly H times W, order by order',
    'The generated residual of order p is the sum over all Hamiltonian operators h (up to the requested rank) and W operators of the contraction of the annihilation labels of h with W whose remaining labels number p, each with 1/(m! n! (p-m)!); terms whose W operator is not available are left out and those with second order couplings appear only when the Hamiltonian includes them. It refuses truncations which do not reach the order.',
    ['inputs', 'configurations'], 'every order 0..6, Hamiltonian rank 1..2, every set of available W operators, every truncation level',
    'The tests compare low orders with stored text; the order at which labels or factorials run out is never reached.',
    [TF + 'code_residual_equations.py', TF + 'namedtuple_defines.py'],
    [('generate_residual_data, construct_prefactor', TF + 'code_residual_equations.py'), ('write_residual_function_string', TF + 'code_residual_equations.py')],
    ['executing the generated module with symbolic h and w'], note=NOTE + 'Known finding F01.'))
A(P('C03', 'Generated amplitude derivatives obey the product rule of exp(T)',
    'The generated derivative of the amplitude of order n is the residual of order n minus the energy term w_n*epsilon/n! minus, for every product of two or more amplitudes in W_n that the ansatz and truncation keep, that product with each of its factors in turn differentiated, with the coefficient the product has in W_n. The result is symmetrized, and is refused when the truncation does not include order n.',
    ['inputs', 'configurations'], 'every order 1..6, every ansatz, every truncation level',
    'Tests compare stored text for a handful of orders and never execute the generated code.',
    [TF + 'code_dt_equations.py'], [('_write_dt_amplitude_strings, _generate_disconnected_einsum_function_call_list', TF + 'code_dt_equations.py')],
    ['executing the generated module with symbolic amplitudes and derivatives'], note=NOTE + 'Orders 1..6.'))
A(P('C04', 'Optimized W and derivative functions compute what the default ones do',
    'The generated functions that take precomputed contraction paths evaluate the same sum - same products, coefficients, order of the factors, symmetrization and refusals - as the definition of W and of the amplitude derivatives, when given the contraction paths which the same generated module computes for that ansatz and truncation.',
    ['inputs', 'configurations'], 'every order 1..6, every ansatz, every truncation level',
    'The path list and the calls that consume it are produced by separate code and are only compared with stored text; no test executes both together.',
    [TF + 'code_w_equations.py', TF + 'code_dt_equations.py'],
    [('_write_optimized_vemx_paths_function, _write_optimized_vecc_paths_function', TF + 'code_w_equations.py'), ('_write_optimized_linked_paths_function, _write_optimized_unlinked_paths_function', TF + 'code_dt_equations.py')],
    ['executing the generated module with symbolic amplitudes'], note=NOTE))
A(P('C05', 'LaTeX of the W operators lists every product once with its coefficient',
    'The LaTeX document of the W operators up to an order contains one equation for each W operator of the ground state (and, in the thermal document, for each split into creation and annihilation labels), whose right hand side lists every product of t operators with those labels exactly once with 1/(factorials of the repetitions), symmetrized from two labels on (the thermal document leaves out the product of one single t operator with annihilation labels). Generating the document again leaves it unchanged.',
    ['inputs', 'histories'], 'every order 0..12 (ground state), 1..4 (thermal), generated once or again over an existing file',
    'One stored document of each kind is compared; products only appearing at higher order, and regenerating over an older file, are never looked at.',
    [TF + 'latex_w_equations.py', TF + 'reference_latex_headers.py'],
    [('ground_state_w_equations_latex', TF + 'latex_w_equations.py'), ('excited_state_w_equations_latex', TF + 'latex_w_equations.py')],
    ['the written .tex file'], note=NOTE))
A(P('C06', 'Full CC LaTeX lists every contraction once, in the right class',
    'For every truncation, the full CC LaTeX contains one equation under the right heading for each projection operator within the truncation, whose right hand side lists each possible contraction of one Hamiltonian operator with up to S cluster operators exactly once and nothing else, under the class it belongs to: fully connected, linked disconnected or unlinked disconnected. Without f terms, exactly the terms carrying f are left out; projections of rank four and above are refused.',
    ['inputs', 'configurations'], 'Hamiltonian, cluster, S-product and projection truncations 1..6, ground and thermal, with and without f terms',
    'Reference files exist for one or two truncations; the number of terms grows combinatorially with the truncation.',
    [TF + 'latex_full_cc.py'],
    [('generate_full_cc_hamiltonian_operator', TF + 'latex_full_cc.py'), ('_filter_out_valid_s_terms', TF + 'latex_full_cc.py'),
     ('_generate_valid_s_n_operator_permutations', TF + 'latex_full_cc.py')],
    ['the written .tex file'], note=NOTE + 'Known finding F04.'))
A(P('C07', 'Full CC LaTeX terms carry the right prefactor and f factors',
    'Every contraction printed in the full CC LaTeX carries the rational prefactor of the Taylor series, of the definition of h and of the permutations among distinct connected cluster operators, and as many factors f (and f-bar) as the Hamiltonian operator has annihilation (creation) labels projected onto the projection operator.',
    ['inputs', 'configurations'], 'truncations 1..6, ground and thermal, with and without f terms',
    'Reference files exist for one or two truncations.',
    [TF + 'latex_full_cc.py'], [('_build_latex_prefactor', TF + 'latex_full_cc.py')], ['the written .tex file'], note=NOTE))
A(P('C08', 'Full CC LaTeX summation and projection labels are consistent',
    'In every contraction printed in the full CC LaTeX each summation label appears exactly twice, once on the Hamiltonian operator and once on a cluster operator, lower against upper; each label of the projection operator appears exactly once, in the position creation/annihilation demands, and all terms of one equation use the same projection labels.',
    ['inputs', 'configurations'], 'truncations 1..6, ground and thermal, with and without f terms',
    'Reference files exist for one or two truncations; labels run over only in larger ones.',
    [TF + 'latex_full_cc.py'], [('_build_h_term_latex_labels, _build_t_term_latex_labels', TF + 'latex_full_cc.py')],
    ['the written .tex file'], note=NOTE))
A(P('C09', 'Full CC LaTeX left hand sides are the derivative of exp(T) plus energy term',
    'The left hand side of each full CC LaTeX equation is i times the time derivative, by the product rule, of every product of cluster operators carrying exactly the labels of the projection operator, plus each such product times epsilon; every factor of every product is differentiated exactly once and each label appears once.',
    ['inputs', 'configurations'], 'every projection operator up to rank three, all truncations, ground and thermal',
    'Reference files exist for one or two truncations.',
    [TF + 'latex_full_cc.py'], [('_generate_left_hand_side', TF + 'latex_full_cc.py')],
    ['the written .tex file'], note=NOTE))
A(P('C10', 'Full CC Python contains exactly the contractions of the projected equations',
    'Executing a generated full CC module adds to each projection exactly the contractions of one Hamiltonian operator with up to S cluster operators, in their class, in every order of the (non-commuting) cluster operators, with the prefactor of the term and with output axes ordered Hamiltonian first; nothing is missing, added or counted twice. The whole amplitude is the sum of its three classes, and thermal amplitudes are refused; the options for states, f terms and side make no difference to the module.',
    ['inputs', 'configurations'], 'every truncation (H, CC, S, P in 1..6) within the cost bound',
    'Tests compare generated text for one or two truncations and never execute it.',
    [TF + 'code_full_cc.py', TF + 'latex_full_cc.py'],
    [('_write_cc_einsum_python_from_list', TF + 'code_full_cc.py'), ('_generate_full_cc_einsums', TF + 'code_full_cc.py')],
    ['executing the generated module with symbolic tensors'], note=NOTE))
A(P('C11', 'Full CC Python evaluates a term exactly when the truncation includes it',
    'At run time a generated full CC module adds a contraction exactly when the caller\'s truncation includes the order of its Hamiltonian operator and the rank of its largest cluster operator, independently of all other terms; raising a truncation level never removes a term.',
    ['inputs', 'configurations'], 'every truncation of the generator and every run-time truncation level of the caller',
    'The nesting of the run-time conditions depends on which terms share them; the tests compare text for one truncation.',
    [TF + 'code_full_cc.py'], [('_write_cc_einsum_python_from_list: grouping by truncation levels', TF + 'code_full_cc.py')],
    ['executing the generated module under every truncation level'], note=NOTE))
A(P('C12', 'Optimized full CC functions add what the default ones add',
    'For every run-time truncation, each generated optimized full CC function, given the contraction paths computed by the same module for that truncation, uses every path exactly once and adds the same products with the same coefficients as the default function; so does the whole optimized amplitude.',
    ['inputs', 'configurations'], 'every truncation of the generator within the bound and every run-time truncation level',
    'Paths and their consumers are generated separately and only matched by position; no test executes them.',
    [TF + 'code_full_cc.py'], [('_write_cc_optimized_paths_from_list, _generate_optimized_paths_functions', TF + 'code_full_cc.py')],
    ['executing the generated module with symbolic tensors'], note=NOTE + 'Known findings F02, F03.'))

import importlib.util  # noqa
_x = os.path.join(HERE, 'tools', 'props_more.py')
if os.path.exists(_x):
    exec(open(_x).read())

NOT_APPLICABLE = []


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['id']
            d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                     quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                     anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                                  observe_at=p['observe'], hook_needed=None))
            if p['state']:
                d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in p['state']]
            f.write(json.dumps(d) + '\n')
    py = '/opt/venv/bin/python'
    m = dict(version=1, setup_cmd=f'{py} tools/setup.py',
             checks=[dict(property=p['id'], quick_cmd=f'{py} check.py {p["id"]} --tier quick',
                          thorough_cmd=f'{py} check.py {p["id"]} --tier thorough',
                          evidence_file=f'evidence/{p["id"]}.json', technique=p['technique'], level=p['level'],
                          level_note=p['note']) for p in PROPS],
             not_applicable=NOT_APPLICABLE,
             notes='TLA+ with TLC. No hooks in /repo: the checks drive the public entry points and read what they write.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)


main()
