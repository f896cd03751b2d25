# Writes /verif/properties.jsonl (kept as a script so that the wording lives in one place).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    assert len(title)<=80,title
    P.append(d)
PE='Parse_eqn_file.py'
NOASSERT="The tests run one mechanism (MCM_APINENE) once and discard the result of every numerical comparison, so they pass whatever the numbers are; "
p('C01','Every reaction is parsed with its exact reactants, products, amounts, rate',
  "For a KPP-style mechanism file, the parsed tables record, for each reaction in order, exactly the species it consumes and produces and how much of each: a leading number (integer or decimal) is the coefficient, digits inside a name belong to the name, a species written several times on one side counts the sum, the photon placeholder hv is not a species, and an empty product side produces nothing. A species on both sides appears in both tables. The rate text of each reaction is the text between ':' and ';' with white space removed.",
  ['inputs'],"all mechanism files in the documented format (any number of reactions, any names starting with a letter, any coefficients, any repetition, any line breaks and spacing)",
  NOASSERT+"coefficients other than 1, repeated products of a reactant, names with several digit groups and empty product lists are not sampled.",
  [PE],[('extract_mechanism: split on { } ; : = +, coefficient extraction, loss/gain accumulation',PE+':extract_mechanism')],
  [('loss_dict / gain_dict','amount of each species consumed / produced per reaction',PE+':extract_mechanism'),('rate_dict','rate text per reaction',PE+':extract_mechanism')],
  ['returned dictionary'])
p('C02','Species and array positions correspond one to one',
  "After parsing, every distinct species that occurs as a reactant or a product anywhere in the mechanism has exactly one array position, the positions used are exactly 0 to N-1 with N the number of distinct species, and the name-to-position and position-to-name tables are inverse to each other. Nothing else has a position.",
  ['inputs'],"all mechanism files in the documented format",
  NOASSERT+"one list of species is seen.",
  [PE],[('species registration on first sight',PE+':extract_mechanism')],
  [('species_dict, species_dict2array','position -> name, name -> position',PE+':extract_mechanism')])
p('C03','Reactant products are the mass-action products, in Python and in Fortran',
  "For every mechanism and every concentration vector, the generated Python and the generated Fortran each compute, for every reaction, the product over its distinct reactants of the concentration raised to the total coefficient of that reactant. This holds with and without OpenMP output requested.",
  ['programs','inputs','configurations'],"all parsed mechanisms, all non-negative concentrations, OpenMP on or off, any number of cores",
  NOASSERT+"coefficients different from 1 and repeated reactants are not checked against any expected value.",
  [PE],[('Python writer',PE+':write_reactants_indices'),('Fortran writer',PE+':write_reactants_indices_fortran')],None,['generated reactants()'])
p('C04','Tendencies are net stoichiometry times reaction rates',
  "For every mechanism and every vector of reaction rates, the tendency of each species computed by the generated Python and by the generated Fortran is the sum over reactions of (amount produced minus amount consumed) times the rate of that reaction. The tendencies of AIR, H2O and O2 are left at zero; OpenMP output does not change the values.",
  ['programs','inputs','configurations'],"all parsed mechanisms, all rate vectors, OpenMP on or off, any number of cores",
  NOASSERT+"coefficients different from 1, species on both sides, and long reaction lists (continuation lines) are not compared with anything.",
  [PE],[('Python writer',PE+':write_loss_gain_matrix'),('Fortran writer',PE+':write_loss_gain_fortran')],None,['generated dydt() / loss_gain()'])
p('C05','Jacobians are the exact derivatives of the tendencies',
  "For every mechanism, the generated Python and Fortran Jacobians give, for rate coefficients held fixed, the exact partial derivative of each species' tendency with respect to each species' concentration, including powers, coefficients and species that are both consumed and produced; the rows of AIR, H2O and O2 are zero. OpenMP output does not change the values.",
  ['programs','inputs','configurations'],"all parsed mechanisms, all positive concentrations, all rate coefficients, OpenMP on or off",
  NOASSERT+"no derivative is compared with a tendency at all.",
  [PE],[('Python writer',PE+':write_gas_jacobian_numba'),('Fortran writer',PE+':write_gas_jacobian_fortran')],None,['generated jacobian()'])
p('C06','Stored sparse matrices hold the same stoichiometry',
  "The saved reactant matrix has, at (reaction, species), the total coefficient with which the reaction consumes the species, and the saved loss/gain matrix has, at (species, reaction), the amount produced minus the amount consumed; all other entries are zero. The loss/gain matrix leaves out AIR, H2O and O2.",
  ['programs'],"all parsed mechanisms",
  "The tests never load the saved matrices.",
  [PE],[('reactant matrix',PE+':write_reactants_indices'),('loss/gain matrix',PE+':write_loss_gain_matrix'),('serialisation',PE+':save_sparse_csr')],None,['reactants_indices_sparse_*.npz, loss_gain_*.npz'])
p('C07','Each reaction gets its own rate expression in its own slot',
  "In the generated Python and Fortran rate files, the value returned at position e is the value of the expression converted for reaction e, for every reaction of the mechanism, and no slot is missing or written twice with different contents. This holds with and without OpenMP output requested.",
  ['programs','configurations'],"all rate tables with any number of reactions, OpenMP on or off, any number of cores",
  NOASSERT+"a shifted, swapped or dropped slot passes.",
  [PE],[('Python slots',PE+':write_rate_file_numba'),('Fortran slots',PE+':write_rate_file_fortran')],None,['generated evaluate_rates()'])
p('C08','Python and Fortran use the same generic and falloff rate constants',
  "For every temperature, water concentration, peroxy-radical sum and time of day, each generic, pressure-falloff and photolysis constant that a mechanism may use has the same value in the generated Python rate file and in the generated Fortran rate file. Each pressure-falloff constant is positive and no larger than its low-pressure or its high-pressure limit.",
  ['inputs','configurations'],"all temperatures 150-400 K, all non-negative H2O, RO2 and all times of day",
  "The tests evaluate one condition and discard the comparison; only constants used by one mechanism are reached.",
  [PE],[('Python prelude',PE+':write_rate_file_numba'),('Fortran prelude',PE+':write_rate_file_fortran')],None,['generated evaluate_rates()'])
p('C09','Photolysis rates are non-negative, vanish at night and repeat daily',
  "At any time, every photolysis rate computed by the generated rate files is non-negative, is exactly zero while the sun is below the horizon, and depends on the time only through the time of day, repeating every 86400 seconds.",
  ['inputs'],"all real times (seconds), both generated rate files",
  "One instant around noon is evaluated.",
  [PE],[('solar zenith and J values, Python',PE+':write_rate_file_numba'),('solar zenith and J values, Fortran',PE+':write_rate_file_fortran')])
p('C10','Rate-text conversion keeps the value of every rate expression',
  "Converting a rate expression for Python/Numba or for Fortran changes its notation only: evaluated with the same temperature, constants and photolysis rates, the converted text has the value of the original (Fortran D-exponents, EXP/LOG/dlog/dabs/dsqrt functions, and J(n) references included; single precision in Fortran literals is allowed for). Every occurrence in an expression is converted. One parsed table can be converted repeatedly and for both back ends in any order with the same results, and converting a result again for the same back end changes nothing.",
  ['inputs','histories'],"all rate expressions built from numbers in D/E notation, the known constants, J(n), the listed functions, + - * / ** and parentheses; all orders of the two conversions that the drivers use",
  NOASSERT+"one mechanism uses a small part of the notation.",
  ['rate_coeff_conversion.py'],[('Numba conversion','rate_coeff_conversion.py:convert_rate_mcm_numba'),('Fortran conversion','rate_coeff_conversion.py:convert_rate_mcm_fortran')])
p('C11','The peroxy-radical index set is exactly the radicals present',
  "The saved peroxy-radical indices are the array positions of exactly those species of the mechanism that are on the MCM peroxy-radical list, each once, as integers usable to index the concentration vector, also when there are none.",
  ['programs'],"all parsed mechanisms, including ones with no peroxy radicals",
  "One mechanism; the comparison is discarded.",
  [PE],[('index file writer',PE+':write_RO2_indices')],None,['<mechanism>_RO2_indices.npy'])
p('C12','Gas-particle partitioning conserves every compound',
  "In the generated partitioning routine, for every state, number of size bins and choice of condensing compounds, what each compound gains in all size bins together is exactly what it loses from the gas phase, compounds that do not condense have zero tendency, and the exchange with each bin is proportional to the difference between gas and equilibrium concentration. The reported organic mass is the sum over bins of all condensed compounds except water and the inert core.",
  ['inputs','configurations'],"all numbers of bins and species, all index selections, all positive states",
  "The partitioning tests are broken in the reference environment and compare nothing.",
  [PE],[('selected-species writer',PE+':write_partitioning_section_fortran_ignore'),('all-species writer',PE+':write_partitioning_section_fortran')],None,['generated dydt_partition()'])
p('C13','Generated OpenMP code gives the same result under every schedule',
  "In the generated parallel Fortran, every value that a parallel region outputs is written by exactly one unit of work and depends only on inputs and on values private to that unit, so the outputs are the same for every number of threads and every interleaving. The work-sharing directives are properly nested and cover every statement.",
  ['schedules','configurations'],"all thread counts, schedules, core counts and mechanism sizes; rate, reactant, loss/gain, Jacobian and partitioning files",
  "Tests compile without OpenMP output and run one schedule.",
  [PE],[('partitioning parallel loop',PE+':write_partitioning_section_fortran_ignore, write_partitioning_section_fortran'),('SINGLE blocks',PE+':write_rate_file_fortran, write_reactants_indices_fortran, write_loss_gain_fortran, write_gas_jacobian_fortran')])
p('C14','The solver is given the right-hand side and Jacobian of one model',
  "In each simulation module the right-hand side handed to the solver is, for every time and state, the tendency obtained from the rate coefficients at the current time of day, peroxy-radical sum of the current state, water and temperature, multiplied by the mass-action products of the current state, plus (aerosol) the partitioning tendency of the current state; the Jacobian handed over uses the same rate coefficients. Neither changes the state it is given.",
  ['inputs','histories'],"all times, states, mechanisms and batches",
  "The simulation modules are never run by the tests.",
  ['ODE_solver.py','f2py/ODE_solver.py','Aerosol/f2py/ODE_solver.py','Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py'],
  [('nested dydt_func and jac','ODE_solver.py:run_simulation and the other variants')],None,['functions handed to Explicit_Problem'])
p('C15','Time of day advances continuously across batches',
  "At solver time t within batch k of a simulation started at time of day s with batch length d, every evaluation of right-hand side and Jacobian uses the time of day s + k*d + t.",
  ['histories','inputs'],"all batch counts, batch lengths, start times and solver times",
  "The simulation modules are never run by the tests, and a single batch cannot show the restart.",
  ['ODE_solver.py','f2py/ODE_solver.py','Aerosol/f2py/ODE_solver.py'],[('time of day in dydt_func and jac','run_simulation in each module')])
p('C16','Batches chain: each starts where the last ended, one output row each',
  "A simulation runs exactly as many batches as are needed to cover the simulation time, the first starting from the requested initial concentrations (ppb scaled to molecules/cc at the position of the named species, everything else zero) and each later one from the final state of the one before. The output has one row per batch holding that batch's final state, with the matching end times.",
  ['histories','inputs'],"all simulation times and batch lengths (multiples or not), all initial concentration tables, all solver outputs",
  "The simulation modules are never run by the tests.",
  ['ODE_solver.py','f2py/ODE_solver.py','Aerosol/f2py/ODE_solver.py','Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py'],[('batch loop','run_simulation in each module')],None,['y_matrix, t_array, saved output files'])
p('C17','The initial size distribution has the requested total and range',
  "The initial aerosol size distribution has the requested number of bins, non-negative bin numbers that add up to the requested total, bin numbers in proportion to the log-normal density with the given median and geometric standard deviation, and strictly increasing sizes, evenly spaced in the logarithm, from the lower to the upper bound.",
  ['inputs'],"all bin counts >= 2, totals > 0, 0 < lower < upper, median > 0, geometric standard deviation > 1",
  "One parameter set is used and the result is not compared.",
  ['Aerosol/Size_distributions.py'],[('lognormal','Aerosol/Size_distributions.py:lognormal')])
p('C18','Every species is either condensing or ignored, by the stated cut-off',
  "When component properties are computed, each species is put in exactly one of the include and ignore sets: ignored if it has no structure, or if the cut-off is switched on and its vapour pressure is above the cut-off; included otherwise. The dense ignore mask agrees with the sets, and each property array holds the value of the species at its own array position.",
  ['inputs','configurations'],"all species tables, structures, vapour pressures, cut-offs and switch settings",
  "The property module is not importable in the tests (UManSysProp is missing).",
  ['Aerosol/Property_calculation.py'],[('Pure_component1','Aerosol/Property_calculation.py:Pure_component1')])
p('C19','Gas-kinetic properties follow the kinetic-theory formulas for any weight',
  "For any list of molecular weights, temperature and gas constant, each condensing compound gets diffusivity 1.9 M^(-2/3) cm2/s, mean thermal speed sqrt(8RT/(pi M 1e-3)) m/s and mean free path 3 D/(100 v) cm given in metres, element by element, and one accommodation coefficient per compound in (0,1].",
  ['inputs'],"all non-empty lists of positive molecular weights, all T>0, R>0",
  "The property module is not importable in the tests.",
  ['Aerosol/Property_calculation.py'],[('Pure_component2','Aerosol/Property_calculation.py:Pure_component2')])
p('C20','Structures are attached to the species they belong to',
  "Reading a structure file attaches to each mechanism species that the file lists with a structure exactly that species' structure, leaves species without one unmapped, and never attaches one species' structure to another; every attached structure has a parsed molecule. The oxidants OH, HO2 and O3 are left out.",
  ['inputs'],"all structure files and species tables, with entries missing, in any order",
  "No structure file exists in the repository, so the function is never run.",
  [PE],[('extract_smiles_species',PE+':extract_smiles_species'),('fixed-yield table',PE+':extract_species')])
p('C21','A restart from saved files runs the same model as a fresh parse',
  "Running a driver from the files saved by an earlier run of it passes the solver the same species tables, reaction count, index sets and property inputs as the fresh run did. Everything a restart reads has been written by the fresh run.",
  ['histories','configurations'],"all mechanisms; driver run fresh, then again on the saved files",
  "The drivers are never run by the tests.",
  ['Gas_simulation.py','f2py/Gas_simulation_f2py.py','Aerosol/f2py/Aerosol_simulation_f2py.py','Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py'],
  [('save and load branches of the driver','main block of each driver')])
p('C22','A species that is absent is never consumed',
  "For every mechanism, non-negative concentrations and non-negative rate coefficients, the gas-phase tendency of a species whose concentration is zero is non-negative, because every reaction that consumes it has it as a factor of its reactant product.",
  ['programs','inputs'],"all parsed mechanisms, all non-negative states with some species at zero, all non-negative rate coefficients",
  "The tests use one state and one mechanism and discard the comparison.",
  [PE],[('reactant list and loss table agree',PE+':extract_mechanism'),('reactant products and tendencies',PE+':write_reactants_indices*, write_loss_gain_*')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
print(len(P))
