"""Which jobs, assumptions and trusted parts belong to which property."""
from .proofs import Job

ENGINE = ['pv/sym.py: the collecting symbolic executor of the Python subset used by the functions (its rules for loops over arbitrary collections, dictionaries and text are the proof rules)',
          'pv/emit.py Mach: the reader of the generated Python/Fortran text', 'z3 4.x (cvc5 where z3 answers unknown)']
TABLES = ['precondition of the writers: the tables they read satisfy the contract of extract_mechanism (facts listed in pv/emit.py Vocab.facts), which is what properties C01 and C02 state']
REALS = ['stoichiometric coefficients are mathematical numbers; str() and formatting of a coefficient denote that number (literal rounding not modelled)']
BOUND = ['replay on the real code: generated routines compiled and compared with an independent evaluation on a corpus of mechanisms (bounded, never counted as proved)']
PARTS = ['s,n,m distinct', 's=n', 's=m', 'n=m', 's=n=m']

ALGENGINE = ['pv/simx.py: the symbolic executor of the Python/numpy subset', 'sympy normal forms (powers and logarithms of positive reals); z3 for shapes and orders']
SIM = ['contracts of the generated modules as stated by C03, C04, C05, C07 and C12 (each returns a function of its arguments and writes only its result array); the Python ones need zero-filled arrays of the right length',
       'assimulo: Explicit_Problem copies the initial state, simulate(T) integrates from t0 to T calling the given functions with arrays of the state length, the last row of its output is the final state',
       'precondition: the tables of C02 (positions are 0..N-1, one per name); requested initial species are species of the mechanism; aerosol: H2O has the last gas position',
       'real arithmetic for times and concentrations; round(x, 9) moves a value by at most half a unit of the ninth decimal; batch length > 0 and simulation time of more than 1e-9 batches']
RATES = ['real arithmetic; a numeric literal denotes its decimal value in both languages (Fortran reads literals without D in single precision: relative 6e-8 each)', 'temperature > 0, water >= 0, time >= 0',
         'exp, log10, powers, cosine are the mathematical functions; 10**x <= 1 for x <= 0, log10(x) < 0 for 0 < x < 1, exp(x) <= 1/(1 - x) for x <= 0', 'low- and high-pressure limits: reference/falloff.json (MCM v3.2)', 'the position of the sun follows the AtChem2 formulae the repository cites, at its day, latitude and longitude']
PART = ['real arithmetic; numeric literals denote their decimal value', 'masses, numbers, temperature, densities and diffusion coefficients are positive (powers and quotients are defined)',
        'include_index lists num_species_condensed distinct gas positions (property C18); the all-species variant condenses every species', 'Fortran semantics of whole-array and section assignment, SUM, and of the loop over bins; OpenMP: PRIVATE copies are undefined on entry, other variables are shared']
SIMENGINE = ['pv/simx.py: the symbolic executor of the Python/numpy subset used by run_simulation (its array model, its scatter rule for loops over species and its induction rule for the batch loop)', 'z3 4.x']
FOCUS = ['pv/focus.py: the symbolic executor of the Python subset used by the table-building functions (dictionaries as arrays with a domain, a size and value counts; joining of paths; its loop rule keeps only facts it has shown to hold on entry and to survive one arbitrary iteration)', 'z3 4.x']
KPP = ['the file is in the documented format: reactions {n.} lhs = rhs : rate ; with one number in braces each and the last one the number of reactions, a species written as NUMBER NAME (number: digits, digits with a decimal point; name: starts with a letter), separators + = : ; only where the format has them',
       'contract of re.findall for the number pattern on NUMBER NAME (first match is the number; without a number the first match, if any, lies inside the name and not at its start); split, strip, index, join as documented; float(text) is the number written',
       'coefficients are positive real numbers; the ghost sums and occurrence marks are defined by their recursion over the species of a side']
STRUCT = ['one entry per species in a structure file; a structure text has no markup characters; xml.dom.minidom and the regular expression behave on every text as on the sampled texts; every listed structure can be parsed by the molecule library',
          'fixed-yield file: each line holds a structure and a number']
UMAN = ['the tables of property C02 (positions are 0..N-1, one per name) and of C20 (every attached structure has a parsed molecule)', 'UManSysProp functions are functions of their arguments; a molecule with a structure contains carbon; real arithmetic', 'numpy.zeros and list repetition']
TEXTS = ['rate texts are sequences of numbers (digits, point, D or E exponent), names of generic constants, EXP/LOG/dlog/dabs/dsqrt followed by a bracket, J(n) with one or two digits, operators and brackets, without white space (property C01); nesting of brackets is not restricted',
         'str.replace, str.find, list, str.join and re.sub as documented; numba_exp and its companions are the functions the generated file defines (read by property C08)', 'single-precision rounding of Fortran literals is not modelled']
TEXTENGINE = ['pv/texts.py: the symbolic executor of the text functions, the automaton of rate texts, and the enumeration of configurations that decides equality of text functions']
DRIVERS = ['library functions, the parser, writers, property functions and the solver are functions of the contents of their arguments and of the files they are given (no clock, no random numbers)', 'pickle and numpy.save give back what was stored (molecules included; Open Babel 3 molecules cannot be pickled in this sandbox, the replay uses a stand-in)',
           'the compiled module is a function of the source file and the command; files are not changed by others between the runs; the restart is run by setting files_exist', 'project functions change their arguments only through subscripts, attributes and the usual methods of dictionaries, lists and arrays (flow-insensitive analysis of their source)']
DRIVENGINE = ['pv/drivers.py: the executor of the driver sections (files as a store; a statement outside its subset is a function of everything it reads) and the analysis of files written and arguments changed by project functions']
def writer_jobs(kind):
    out = []
    for d, o in (('py', False), ('f90', False), ('f90', True)):
        for p in (PARTS if kind == 'jac' else [None]):
            out.append(Job('writers', 'job', kind, d, o, p, 170, timeout=400))
    return out

def jobs(prop, tier):
    if prop == 'C03': return writer_jobs('react'), TABLES + REALS, ENGINE, BOUND
    if prop == 'C04': return writer_jobs('tend'), TABLES + REALS, ENGINE, BOUND
    if prop == 'C05': return writer_jobs('jac'), TABLES + REALS, ENGINE, BOUND
    if prop == 'C06': return [Job('writers', 'job_mat', w, 100) for w in ('reactants', 'loss_gain')], TABLES + REALS + ['scipy lil_matrix/tocsr and numpy savez keep the entries (assumed contract of the libraries)'], ENGINE, BOUND
    if prop == 'C07': return writer_jobs('rate'), TABLES, ENGINE, BOUND
    if prop == 'C11': return [Job('writers', 'job_ro2', 60)], TABLES + ['the peroxy-radical list of reference/ro2.json is the MCM list (the repository\'s own list after the repair of its duplicates)'], ENGINE, BOUND
    if prop == 'C22':
        return writer_jobs('react') + writer_jobs('tend') + [Job('lemmas', 'absent_species')], TABLES + REALS + ['zero to a positive power is zero', 'the right-hand side multiplies rate coefficients and products elementwise (property C14)'], ENGINE, BOUND
    if prop == 'C13':
        js = [Job('writers', 'job', k, 'f90', True, None, 170, timeout=400) for k in ('react', 'tend', 'rate')] + [Job('writers', 'job', 'jac', 'f90', True, p, 170, timeout=400) for p in ('n=m', 's=n=m')]
        js.append(Job('partition', 'job', 'C13', 'write_partitioning_section_fortran_ignore', 200, timeout=260))
        return js, TABLES + REALS + ['OpenMP semantics: a SINGLE block is executed by one thread; END SINGLE NOWAIT blocks of one region may run concurrently; END PARALLEL joins'], ENGINE, BOUND
    if prop in ('C08', 'C09'):
        parts = ('eq', 'eqomp', 'py', 'f90', 'omp') if prop == 'C08' else ('py', 'f90', 'omp')
        return [Job('rates', 'job', prop, w, 200, timeout=260) for w in parts], RATES, ['pv/rates.py: the readers of the generated Python and Fortran rate routines and the normal forms of their terms (sympy rational functions over exp, log10, powers, cosine)', 'pv/partition.py: the symbolic executor of the writers', 'z3; mpmath (60 digits) for refutations'], BOUND
    if prop == 'C12':
        return [Job('partition', 'job', 'C12', f, 200, timeout=260) for f in ('write_partitioning_section_fortran_ignore', 'write_partitioning_section_fortran')], PART, ['pv/partition.py: the symbolic executor of the writer, the reader of the generated Fortran routine and its rule for the loop over bins (each bin one unit of work)', 'sympy normal forms; z3'], BOUND
    if prop in ('C14', 'C15', 'C16'):
        js = [Job('simx', 'job', prop, m, 200, timeout=260) for m in ('py', 'f90', 'aerosol', 'fixed') if not (prop == 'C15' and m == 'fixed')]
        return js, SIM, SIMENGINE, ['replay on the real code: run_simulation with the solver and the compiled modules replaced by recorders (bounded, never counted as proved)']
    if prop == 'C17':
        return [Job('formulas', 'sizes', 200)], ['real arithmetic', 'numpy.linspace(a, b, n)[i] = a + i (b - a)/(n - 1); scipy lognorm.pdf is the log-normal density; numpy elementwise functions; finite sums are linear', 'at least two bins, 0 < lower < upper, standard deviation > 1, median > 0, total >= 0'], ALGENGINE, ['replay: lognormal run on a corpus and compared with an independent evaluation (bounded, never counted as proved)']
    if prop == 'C19':
        return [Job('formulas', 'kinetic', 200)], ['real arithmetic', 'numpy elementwise functions', 'positive weights, temperature and gas constant'], ALGENGINE, ['replay: Pure_component2 run on a corpus and compared with an independent evaluation (bounded, never counted as proved)']
    if prop in ('C01', 'C02'): return [Job('focus_specs', 'job', prop, 330, timeout=380)], KPP, FOCUS, BOUND
    if prop == 'C20': return [Job('focus_specs', 'job', prop, 200, p, timeout=260) for p in ('file', 'table')], STRUCT, FOCUS, ['replay: both functions run on generated files with a stand-in molecule library (bounded, never counted as proved)']
    if prop == 'C18': return [Job('focus_specs', 'job', prop, 330, p, timeout=380) for p in ('joback_and_reid', 'stein_and_brown', 'nannoolal')], UMAN, FOCUS, ['replay: Pure_component1 run with a stand-in for UManSysProp (bounded, never counted as proved)']
    if prop == 'C10': return [Job('texts', 'job', b, 60) for b in ('numba', 'fortran')], TEXTS, TEXTENGINE, ['replay: both functions run on a corpus of rate texts and on the rate texts of the bundled mechanisms (bounded, never counted as proved)']
    if prop == 'C21': return [Job('drivers', 'job', v, 60) for v in ('gas', 'f2py', 'aerosol', 'fixed')], DRIVERS, DRIVENGINE, ['replay: each driver run twice with stand-ins for solver, compiler and molecule library (bounded, never counted as proved)']
    return [], [], [], []
