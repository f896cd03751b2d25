"""Writes MANIFEST.json: python3 tools/gen_manifest.py"""
import json
COMMON = ' Every obligation is generated from the source in /repo on that run; the engines that generate and discharge them are this framework\'s own (pv/*.py, with z3, sympy or exhaustive automaton exploration at the end) and are trusted. A replay on the real code, bounded, runs beside it and is never counted as proved; an obligation the engine cannot decide is reported as undecided (exit 0), not as discharged.'
GEN = 'Python writer run symbolically over arbitrary tables; z3-discharged invariant over focus constants on what reaches the generated file'
W = 'For every parsed mechanism of any size. Proves the writer\'s loop states and the meaning of the text it writes for one arbitrary cell (free constants), Python and Fortran, OpenMP on and off. Assumes the table contract of C01/C02 and mathematical coefficients (literal rounding not modelled).'
T = {
 'C01': ('loop contracts with ghost sums on extract_mechanism, discharged by z3', 'For every file in the documented format, any number of reactions and species per side: loss and gain tables, rate text. Assumes contracts of re.findall/split/strip/float on the documented notation (sampled, not proved) and positive coefficients.'),
 'C02': ('loop contracts with cardinality invariant on extract_mechanism, discharged by z3', 'For every file in the documented format: positions are 0..N-1, the two tables are inverse. Same assumptions as C01.'),
 'C03': (GEN, W), 'C04': (GEN, W), 'C05': (GEN + '; one case per equality pattern of (row, column, factor)', W + ' Derivatives are stated as polynomials over formal powers, so the product rule is the definition used.'),
 'C06': ('symbolic execution of the matrix writers on one arbitrary cell, z3', 'For every parsed mechanism: stored cell = stoichiometry, csr parts of the same matrix, non-integer dtype. Assumes scipy lil_matrix/tocsr and numpy.savez keep entries.'),
 'C07': (GEN, 'For every rate table of any size: slot e holds the text of reaction e exactly once, file complete. That the text denotes the rate is C10.'),
 'C08': ('generated rate files read as programs; equality of closed terms by normal form, bounds by case split and z3', 'For all T>0, H2O, RO2, times: each constant used by mechanisms has one value in both files; fall-off constants positive and below their limits (reference/falloff.json, from MCM v3.2). Real arithmetic: single precision of Fortran literals not modelled. Elementary bounds of exp/log10/powers are assumed.'),
 'C09': ('generated rate files read as programs; sign, night and period by normal form, case split and z3', 'For all times: J >= 0, zero below the horizon of the AtChem2 solar position, period 86400 s. Real arithmetic.'),
 'C10': ('text-function contracts; inductive invariant over the product automaton of rate texts, enumerated completely', 'For every rate text over the documented notation, of any length and nesting. Assumes contracts of str.replace/find/join and re.sub; meaning of a token changed in notation only is by definition. Single-precision rounding not modelled.'),
 'C11': ('symbolic execution of the index writer for one arbitrary species, z3', 'For every mechanism. The list of radicals is compared with reference/ro2.json (the repository\'s own repaired list: the MCM list itself is not available offline).'),
 'C12': ('symbolic execution of writer and generated Fortran; bin-loop contract; normal forms and z3', 'For all numbers of species, bins, condensing compounds and positive states. Real arithmetic; include_index distinct positions (C18). The all-species writer, which no driver calls, is under the same contracts with an empty ignore set.'),
 'C13': ('ownership contracts on OpenMP regions of the generated text (one writer per cell, private/shared frames), z3', 'For every mechanism and number of processors: each output cell belongs to one SINGLE block or one bin iteration; all else private or read only. Relies on OpenMP semantics of SINGLE, DO, PRIVATE and region end. Replay compiles and runs several thread counts.'),
 'C14': ('contracts on run_simulation and its nested callbacks; symbolic arrays, z3', 'For every time, state, batch of the four modules. Generated modules are known by the contracts of C03-C05, C07, C12 only; assimulo by an assumed contract.'),
 'C15': ('batch-loop invariant in run_simulation, base and step discharged by z3', 'For every number of batches and start time, for the three modules with photolysis. The fixed-yield module does not use time. Real arithmetic for times.'),
 'C16': ('batch-loop invariant in run_simulation (state, rows, end times), base and step discharged by z3', 'For every batch length and simulation time (more than 1e-9 batches), initial table and solver outputs of the four modules. Real arithmetic apart from the stated rounding slack.'),
 'C17': ('contract of lognormal discharged by normal forms (sympy) and z3', 'For all parameters in the quantifier, in real arithmetic (a distribution so far outside the range that all densities vanish in double precision is not covered). Assumes numpy.linspace and scipy lognorm.pdf contracts.'),
 'C18': ('loop contracts on Pure_component1, discharged by z3', 'For every species table and structure map of any size, one obligation set per boiling-point choice. UManSysProp functions are uninterpreted.'),
 'C19': ('contract of Pure_component2 discharged by normal forms (sympy) and z3', 'For every list of positive weights, T, R; real arithmetic.'),
 'C20': ('loop contracts on the two structure readers, discharged by z3', 'For every structure file of any size with one entry per species. minidom and pybel are assumed by contract.'),
 'C21': ('self-composition: driver executed symbolically fresh and from its saved files, argument terms equal', 'For the four drivers. Library, parser and writer calls are functions of their arguments and of the files named; pickle/numpy round trips assumed.'),
 'C22': ('lemma over the contracts of C03, C04 and C14, discharged by z3', 'For every mechanism, state and rate vector in the quantifier; re-proves the contracts it uses on the current source.'),
}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks = [dict(property=p['id'], quick_cmd='python3-vt run_check.py %s' % p['id'], thorough_cmd='python3-vt run_check.py %s thorough' % p['id'], technique='contract-based deductive verification: ' + T[p['id']][0], level='proof', level_note=T[p['id']][1] + COMMON) for p in props]
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=[], notes='No hooks in /repo: the source is read as it is. Findings and repairs: known_findings.txt. Method, bounds and limits: DESIGN.md.'), open('/verif/MANIFEST.json', 'w'), indent=1)
