PE = 'Parse_eqn_file.py'
S('C01-two-digit-decimal', 'C01', PE,
  [('temp=re.findall(r"[-+]?\\d*\\.\\d+|\\d+|\\d+",product)', 'temp=re.findall(r"[-+]?\\d?\\.\\d+|\\d+|\\d+",product)')],
  'a product with a decimal coefficient of two or more digits before the point', 'the coefficient and the name of the product are cut at the wrong place',
  '''
d = parse("{1} A + B = 12.5CC + D : 1.0E-12 ;\\n{2} CC = 0.25A : 1.0E-3 ;\\n")
ok = 'CC' in d['gain_dict'] and dict(d['gain_dict']['CC']) == {0: 12.5} and dict(d['gain_dict'].get('A', {})) == {1: 0.25}
done(ok, str({k: dict(v) for k, v in d['gain_dict'].items()}))
''')
S('C02-hv-product', 'C02', PE,
  [("""                    if product not in ['hv']:
                        # -- Update species""", """                    if product not in ['HV']:
                        # -- Update species""")],
  'the photon placeholder on the product side (fluorescence, chemiluminescence)', 'the photon becomes a species with an array position of its own',
  '''
d = parse("{1} NO + O3 = NO2 + hv : 1.0E-12 ;\\n{2} NO2 + hv = NO + O : J(4) ;\\n")
done('hv' not in d['species_dict2array'] and sorted(d['species_dict2array'].values()) == [0, 1, 2, 3], str(dict(d['species_dict2array'])))
''')
S('C03-small-exponent', 'C03', PE,
  [("""                    if stoich == 1:
                        f.write('*y[%s]'%(species_dict2array[reactant]))
                    else:
                        f.write('*y[%s]**%s'""", """                    if stoich <= 1:
                        f.write('*y[%s]'%(species_dict2array[reactant]))
                    else:
                        f.write('*y[%s]**%s'""")],
  'a reactant, not the first of its reaction, with a coefficient below one', 'the Python mass-action product uses the first power',
  '''
d = parse("{1} A + 0.5B = C : 1.0E-12 ;\\n")
s = d['species_dict2array']
quiet(P.write_reactants_indices, 'm', 1, 3, s, d['rate_dict_reactants'], d['loss_dict'])
y = np.zeros(3); y[s['A']] = 3.0; y[s['B']] = 4.0
v = pyfun('Reactants_conc_numba.py', 'reactants')(y, 1, np.zeros(1))[0]
done(close(v, 6.0), str(v))
''')
S('C04-fractional-yield', 'C04', PE,
  [("""                    for equation_step, stoich in gain_dict[species].items():
                        if flag > 4:
                            f.write(' & \\n')
                            f.write('    ')
                            flag=0
                        if gain_step==0:
                            if stoich==1:""", """                    for equation_step, stoich in gain_dict[species].items():
                        if flag > 4:
                            f.write(' & \\n')
                            f.write('    ')
                            flag=0
                        if gain_step==0:
                            if int(stoich)==1:""")],
  'a species whose first producing reaction has a yield strictly between 1 and 2', 'the Fortran tendency counts the yield as one',
  '''
d = parse("{1} A = 1.75B + C : 1.0E-12 ;\\n{2} C = B : 1.0E-3 ;\\n")
s = d['species_dict2array']
quiet(P.write_loss_gain_fortran, 'm', 2, 3, d['loss_dict'], d['gain_dict'], s, False)
r = np.array([2.0, 10.0]); o = np.zeros(3); fort('Loss_Gain.f90', 'loss_gain')(ptr(r), ptr(o))
done(close(o[s['B']], 13.5), str(o))
''')
S('C05-cubic', 'C05', PE,
  [("""                                        if reactant2 == reactant:
                                            if stoich_first == 2:
                                                if step == 1:
                                                    f.write('-%s*y[%s]'""", """                                        if reactant2 == reactant:
                                            if stoich_first >= 2:
                                                if step == 1:
                                                    f.write('-%s*y[%s]'""")],
  'a reaction that consumes three or more of one species', 'the Python Jacobian of the consuming rows loses a power of the concentration',
  '''
d = parse("{1} 3A = B : 1.0E-12 ;\\n")
s = d['species_dict2array']
quiet(P.write_gas_jacobian_numba, 'm', 1, 2, d['loss_dict'], d['gain_dict'], s, d['rate_dict_reactants'])
y = np.zeros(2); y[s['A']] = 5.0
J = pyfun('Jacobian_numba.py', 'jacobian')(np.array([2.0]), y, np.zeros((2, 2)))
done(close(J[s['A'], s['A']], -3 * 3 * 25 * 2.0), str(J))
''')
S('C06-integer-matrix', 'C06', PE,
  [("reactants_indices_sparse=lil_matrix((equations, num_species), )", "reactants_indices_sparse=lil_matrix((equations, num_species), dtype=np.int32)")],
  'a reactant with a coefficient that is not a whole number', 'the stored reactant matrix truncates the coefficient',
  '''
from scipy.sparse import csr_matrix
d = parse("{1} A + 1.5B = C : 1.0E-12 ;\\n{2} 2C = A : 1.0 ;\\n")
s = d['species_dict2array']
quiet(P.write_reactants_indices, 'm', 2, 3, s, d['rate_dict_reactants'], d['loss_dict'])
z = np.load('reactants_indices_sparse_m.npz'); M = csr_matrix((z['data'], z['indices'], z['indptr']), shape=z['shape']).toarray()
done(M[0, s['B']] == 1.5 and M[0, s['A']] == 1 and M[1, s['C']] == 2, str(M))
''')
S('C07-break-drops-slot', 'C07', PE,
  [("""        if openMP is True and check_step in break_list:
            f.write('!$OMP END SINGLE NOWAIT \\n') 
            f.write('!$OMP SINGLE \\n') 
        #pdb.set_trace()
        f.write('    rate_values(%s) =%s \\n' %(key+1,rate_dict_fortran[key])) 
        check_step+=1""", """        if openMP is True and check_step in break_list:
            f.write('!$OMP END SINGLE NOWAIT \\n') 
            f.write('!$OMP SINGLE \\n') 
            check_step=break_list.index(check_step)+check_step
        #pdb.set_trace()
        f.write('    rate_values(%s) =%s \\n' %(check_step+1,rate_dict_fortran[key])) 
        check_step+=1""")],
  'OpenMP output and a mechanism with more reactions than processors, so that there are two or more break points', 'after the second break point every rate lands in the wrong slot',
  '''
import multiprocessing; multiprocessing.cpu_count = lambda: 5
n = 20
d = parse(''.join("{%d} A = B : %d.0E-3 ;\\n" % (i + 1, i + 1) for i in range(n)))
rd = R.convert_rate_mcm_fortran(d['rate_dict'])
quiet(P.write_rate_file_fortran, 'm', rd, True)
o = np.zeros(n + 40); a = [np.array(x) for x in (1e7, 1e17, 298.0, 43200.0)]
fort('Rate_coefficients.f90', 'evaluate_rates', True)(*[ptr(x) for x in a], ptr(o))
done(all(close(o[i], (i + 1) * 1e-3) for i in range(n)), str(o[:n]))
''')
S('C08-kmt12', 'C08', PE,
  [("    f.write('    fc12 = 0.53 \\n') \n    f.write('    nc12 = 0.75-(1.27*LOG10(fc12)) \\n')", "    f.write('    fc12 = 0.35 \\n') \n    f.write('    nc12 = 0.75-(1.27*LOG10(fc12)) \\n')")],
  'a mechanism that uses KMT12 (SO2 + OH)', 'the Fortran and the Python value of KMT12 differ',
  '''
d = parse("{1} SO2 + OH = HSO3 : KMT12 ;\\n")
quiet(P.write_rate_file_fortran, 'm', R.convert_rate_mcm_fortran(d['rate_dict']), False)
quiet(P.write_rate_file_numba, 'm', R.convert_rate_mcm_numba(d['rate_dict']))
o = np.zeros(1); a = [np.array(x) for x in (1e7, 1e17, 298.0, 43200.0)]
fort('Rate_coefficients.f90', 'evaluate_rates')(*[ptr(x) for x in a], ptr(o))
v = pyfun('Rate_coefficients_numba.py', 'evaluate_rates')(43200.0, 1e7, 1e17, 298.0, np.zeros(1), np.zeros(63))[0]
done(close(o[0], v, 1e-4), '%r %r' % (o[0], v))
''')
S('C09-twilight', 'C09', PE,
  [("    f.write('    cosx_threshold = 1.0E-30  \\n') ", "    f.write('    cosx_threshold = -1.0E-02  \\n') ")] if False else
  [("""    f.write('    if cosx <= cosx_threshold: \\n') 
    f.write('        cosx = 0.0 \\n') 
    f.write('        secx = 1.0E+20 \\n') 
    f.write('    else: \\n') 
    f.write('        secx = 1.0 / cosx \\n') 
    f.write('    # Data taken from photolysis.txt. Calculations done in the form of:\\n') 
    f.write('    # j(k) = l(k)*cosx**( mm(k))*numba_exp(-nn(k)*secx)\\n') 
    #f.write('    J=[None]*62\\n') 
    f.write('    #J          L           M          N\\n') 
    f.write('    J[1]=6.073E-05*cosx**(1.743)*numba_exp(-1.0*0.474*secx)\\n')""", """    f.write('    if cosx <= -0.015: \\n') 
    f.write('        cosx = 0.0 \\n') 
    f.write('        secx = 1.0E+20 \\n') 
    f.write('    else: \\n') 
    f.write('        cosx = abs(cosx) \\n') 
    f.write('        secx = 1.0 / cosx \\n') 
    f.write('    # Data taken from photolysis.txt. Calculations done in the form of:\\n') 
    f.write('    # j(k) = l(k)*cosx**( mm(k))*numba_exp(-nn(k)*secx)\\n') 
    #f.write('    J=[None]*62\\n') 
    f.write('    #J          L           M          N\\n') 
    f.write('    J[1]=6.073E-05*cosx**(1.743)*numba_exp(-1.0*0.474*secx)\\n')""")],
  'the few minutes in which the sun is less than one degree below the horizon', 'photolysis goes on after sunset',
  '''
d = parse("{1} NO2 = NO + O : J(4) ;\\n")
quiet(P.write_rate_file_numba, 'm', R.convert_rate_mcm_numba(d['rate_dict']))
f = pyfun('Rate_coefficients_numba.py', 'evaluate_rates')
import math
def cosx(t):
    th = 2 * math.pi * 149 / 365
    dec = 0.006918 - 0.399912*math.cos(th) + 0.070257*math.sin(th) - 0.006758*math.cos(2*th) + 0.000907*math.sin(2*th) - 0.002697*math.cos(3*th) + 0.001480*math.sin(3*th)
    eq = 0.000075 + 0.001868*math.cos(th) - 0.032077*math.sin(th) - 0.014615*math.cos(2*th) - 0.040849*math.sin(2*th)
    h = (149 + t / 86400. - int(149 + t / 86400.)) * 24
    lha = math.pi * (h / 12 - (1 + 0.13 / 180)) + eq
    la = 51.51 * math.pi / 180
    return math.cos(lha) * math.cos(la) * math.cos(dec) + math.sin(la) * math.sin(dec)
bad = [t for t in range(0, 86400, 30) if cosx(t) < -1e-9 and f(float(t), 1e7, 1e17, 298.0, np.zeros(1), np.zeros(63))[0] != 0]
done(not bad, str(bad[:5]))
''')
S('C10-fifth-photolysis', 'C10', 'rate_coeff_conversion.py',
  [("""        while True:
            index = temp_text.find('J(', index + 1)
            if index == -1:  
                break  # All occurrences have been found
            indices.append(index)
        #Replace () with [] if associated""", """        while len(indices) < 4:
            index = temp_text.find('J(', index + 1)
            if index == -1:  
                break  # All occurrences have been found
            indices.append(index)
        #Replace () with [] if associated""")],
  'a rate expression with five or more photolysis rates', 'the fifth reference is left as a call',
  '''
t = R.convert_rate_mcm_numba({0: 'J(4)*0.5+J(5)+J(7)+J(8)+J(6)*EXP(-1.0D0/TEMP)'})[0]
J = np.arange(63) * 1.0
import math
try: v = eval(t, {'J': J, 'TEMP': 298.0, 'numba_exp': math.exp})
except Exception as e: done(False, '%s: %r' % (t, e))
done(close(v, 22.0 + 6 * math.exp(-1 / 298.0)), '%s -> %r' % (t, v))
''')
S('C11-duplicate-name', 'C11', PE,
  [("'C618O2','NC730O2','C730O2','C624O2',", "'C618O2','NC730O2','C730O2','C624O2','C734O2',")],
  'a mechanism that contains the peroxy radical C734O2', 'the radical is counted twice in the peroxy-radical sum',
  '''
d = parse("{1} C734O2 + NO = A : 1.0E-12 ;\\n{2} CH3O2 + NO = A : 1.0E-12 ;\\n")
s = d['species_dict2array']
quiet(P.write_RO2_indices, 'm', s)
done(sorted(np.load('m_RO2_indices.npy').tolist()) == sorted([s['C734O2'], s['CH3O2']]), str(np.load('m_RO2_indices.npy')))
''')
S('C17-density-of-log', 'C17', 'Aerosol/Size_distributions.py',
  [("pdf_output= stats.lognorm.pdf(x_output, shape, loc=0, scale=scale)", "pdf_output= stats.lognorm.pdf(x_output, max(shape,0.2), loc=0, scale=scale)")],
  'a narrow distribution, geometric standard deviation below 1.22', 'the bin numbers are not in proportion to the requested density',
  '''
from Size_distributions import lognormal
from scipy import stats
n, x = lognormal(8, 100, 0.2, 1.1, 0.15, 0.3)
p = stats.lognorm.pdf(x, np.log(1.1), 0, 0.2); p = p / p.sum() * 100
done(np.allclose(n, p, rtol=1e-6), str(n))
''')
# ---- aerosol, solver coupling, properties, drivers --------------------------------------------
PC, SD = 'Aerosol/Property_calculation.py', 'Aerosol/Size_distributions.py'
PART = '''
def case(ns, inc, bins):
    nc = len(inc); NA = 6.0221409e23; rng = np.random.RandomState(3)
    y = 10 ** rng.uniform(7, 10, ns + nc * bins); yc = 10 ** rng.uniform(8, 10, bins)
    a = dict(y=y, yc=yc, cd=3.0, cm=yc / NA * 132.14, dens=rng.uniform(900, 1600, nc), cdens=np.full(bins, 1770.0), ign=np.zeros(ns, dtype=np.int64),
             mw=rng.uniform(50, 300, nc), ps=10 ** rng.uniform(-13, -6, nc), D=rng.uniform(.02, .2, nc), al=rng.uniform(.1, 1, nc), cg=y[:ns][inc].copy(), N=10 ** rng.uniform(0, 3, bins), ga=rng.uniform(3e-8, 2e-7, nc), la=np.zeros(nc))
    return a
def run(fn, a, bins, tot):
    f = lambda x: ctypes.byref(ctypes.c_double(x))
    so = ctypes.c_double(0.0); aw, sz, dy = np.zeros(bins), np.zeros(bins), np.zeros(tot)
    fn(ptr(a['y']), ptr(a['yc']), f(a['cd']), ptr(a['cm']), ptr(a['dens']), ptr(a['cdens']), ptr(a['ign']), ptr(a['mw']), ptr(a['ps']), ptr(a['D']), ptr(a['al']), ptr(a['cg']), ptr(a['N']), ptr(a['ga']), ptr(a['la']),
       f(9.8), f(0.0), f(0.072), f(6.0221409e23), f(1.38e-23), f(461.), f(8.3144598), f(298.), f(1005.), f(287.), f(2500.), ctypes.byref(so), ptr(aw), ptr(sz), ptr(dy))
    return so.value, sz, dy
'''
S('C12-include-order', 'C12', PE,
  [("""    step=0
    for num in include_index:
        f.write('        dy_dt_gas_matrix(%s,size_step)=dm_dt(%s) \\n'%(num+1,step+1))
        step+=1""", """    step=0
    for num in sorted(include_index):
        f.write('        dy_dt_gas_matrix(%s,size_step)=dm_dt(%s) \\n'%(num+1,step+1))
        step+=1""")],
  'a list of condensing compounds that is not in ascending order of position', 'the gas-phase loss of one compound is booked on another',
  PART + '''
ns, inc, bins = 6, [4, 1, 5], 3; tot = ns + 3 * bins
quiet(P.write_partitioning_section_fortran_ignore, tot, bins, ns, 3, inc)
a = case(ns, inc, bins); so, sz, dy = run(fort('Partitioning.f90', 'dydt_partition'), a, bins, tot)
gain = dy[ns:].reshape(bins, 3).sum(axis=0)
done(all(close(-dy[c], gain[k], 1e-9) for k, c in enumerate(inc)) and all(dy[c] == 0 for c in (0, 2, 3)), str(dy))
''')
S('C13-shared-correction', 'C13', PE,
  [("""    f.write('!$OMP& PRIVATE(density,water_moles), & \\n') 
    f.write('!$OMP& PRIVATE(Kn,Inverse_Kn,Correction_part1, Correction_part2), & \\n') 
    f.write('!$OMP& PRIVATE(Correction_part3,Correction,kelvin_factor), & \\n') 
    f.write('!$OMP& PRIVATE(Pressure_eq,Cstar_i_m_t,k_i_m_t_part1), & \\n') 
    f.write('!$OMP& PRIVATE(k_i_m_t,dm_dt), & \\n') 
    f.write('!$OMP& SHARED(total_water_cond_mass,size_array), & \\n') 
    f.write('!$OMP& SHARED(ycore,core_diss,mw_array,density_input), & \\n') 
    f.write('!$OMP& SHARED(C_g_i_t,dy_dt,core_mass_array,R_gas,Psat), & \\n') 
    f.write('!$OMP& SHARED(gamma_gas,NA,alpha_d_org,Model_temp,DStar_org), & \\n') 
    f.write('!$OMP& SHARED(dy_dt_gas_matrix,aw_array,total_SOA_mass_array) \\n') 
    f.write('    DO size_step=1,%s \\n'%(num_bins)) 
    f.write('\\n')     	
    f.write('        !print *, "size", size_step \\n')""", """    f.write('!$OMP& PRIVATE(density,water_moles), & \\n') 
    f.write('!$OMP& PRIVATE(Kn,Inverse_Kn,Correction_part1, Correction_part2), & \\n') 
    f.write('!$OMP& PRIVATE(Correction,kelvin_factor), & \\n') 
    f.write('!$OMP& PRIVATE(Pressure_eq,Cstar_i_m_t,k_i_m_t_part1), & \\n') 
    f.write('!$OMP& PRIVATE(k_i_m_t,dm_dt), & \\n') 
    f.write('!$OMP& SHARED(total_water_cond_mass,size_array), & \\n') 
    f.write('!$OMP& SHARED(ycore,core_diss,mw_array,density_input), & \\n') 
    f.write('!$OMP& SHARED(C_g_i_t,dy_dt,core_mass_array,R_gas,Psat), & \\n') 
    f.write('!$OMP& SHARED(gamma_gas,NA,alpha_d_org,Model_temp,DStar_org), & \\n') 
    f.write('!$OMP& SHARED(dy_dt_gas_matrix,aw_array,total_SOA_mass_array) \\n') 
    f.write('    DO size_step=1,%s \\n'%(num_bins)) 
    f.write('\\n')     	
    f.write('        !print *, "size", size_step \\n')""")],
  'the generated file compiled with OpenMP and run on several threads', 'an array of the bin calculation is shared between threads, so that the tendencies depend on the schedule',
  PART + '''
os.environ['OMP_NUM_THREADS'] = '8'
ns, bins = 1500, 24; inc = list(range(ns)); tot = ns + ns * bins
quiet(P.write_partitioning_section_fortran_ignore, tot, bins, ns, ns, inc)
a = case(ns, inc, bins)
so, sz, ref = run(fort('Partitioning.f90', 'dydt_partition'), a, bins, tot)
fn = fort('Partitioning.f90', 'dydt_partition', omp=True); worst = 0.0
ctypes.CDLL('libgomp.so.1').omp_set_num_threads(8)
for k in range(150):
    dy = run(fn, a, bins, tot)[2]; worst = max(worst, float(np.max(np.abs(dy - ref) / np.maximum(np.abs(ref), 1e-30) * (np.abs(ref) > 1e-9 * np.abs(ref).max()))))
done(worst < 1e-6, 'largest relative difference %g' % worst)
''')
S('C14-clips-the-state', 'C14', 'f2py/ODE_solver.py',
  [("""        # make sure the y array is not a list. Assimulo uses lists
        y_asnumpy=numpy.array(y)
        
        #Calculate the concentration of RO2 species, using an index file created during parsing
        RO2=numpy.sum(y[RO2_indices])

        #Calculate reaction rate for each equation.
        # Note that H2O will change in parcel mode
        # The time_of_day_seconds""", """        # make sure the y array is not a list. Assimulo uses lists
        y_asnumpy=numpy.asarray(y)
        y_asnumpy[RO2_indices]=numpy.maximum(y_asnumpy[RO2_indices],0.0)
        
        #Calculate the concentration of RO2 species, using an index file created during parsing
        RO2=numpy.sum(y[RO2_indices])

        #Calculate reaction rate for each equation.
        # Note that H2O will change in parcel mode
        # The time_of_day_seconds""")],
  'a trial state of the solver in which a peroxy radical is slightly negative', 'the right-hand side changes the solver state it is given',
  '''
bad = []
def step(prob, T):
    y = np.array([1.0, -2.0, 3.0, -4.0]); z = y.copy(); prob.rhs(0.5, y)
    if not np.array_equal(y, z): bad.append(y)
    return z
solver(step)
stub('rate_coeff_f2py', evaluate_rates=lambda ro2, h, t, s: np.ones(2)); stub('reactants_conc_f2py', reactants=lambda y: np.ones(2))
stub('loss_gain_f2py', loss_gain=lambda r: np.zeros(4)); stub('jacobian_f2py', jacobian=lambda r, y: np.zeros((4, 4)))
m = load(REPO + '/f2py/ODE_solver.py', 'ode_f2py')
d = dict(species_dict={i: n for i, n in enumerate('ABCD')}, species_dict2array={n: i for i, n in enumerate('ABCD')}, species_initial_conc={'A': 1.0}, equations=2)
quiet(m.run_simulation, 'x', 0.0, False, 288.15, 0.5, np.array([1, 2]), 1e17, d, 100.0, 100.0)
done(not bad, str(bad))
''')
S('C15-whole-seconds', 'C15', 'ODE_solver.py',
  [('total_time+=batch_step', 'total_time=round(total_time+batch_step)')],
  'a batch length that is not a whole number of seconds', 'the time of day jumps at the batch boundaries',
  '''
seen = []
def step(prob, T):
    prob.rhs(0.25, np.ones(2)); return np.ones(2)
solver(step)
stub('Rate_coefficients_numba', evaluate_rates=lambda t, *a: (seen.append(t), np.ones(1))[1]); stub('Reactants_conc_numba', reactants=lambda y, e, r: np.ones(1))
stub('Loss_Gain_numba', dydt=lambda o, r: o); stub('Jacobian_numba', jacobian=lambda r, y, o: o)
np.savez('x', a=1)
m = load(REPO + '/ODE_solver.py', 'ode_numba')
d = dict(species_dict={0: 'A', 1: 'B'}, species_dict2array={'A': 0, 'B': 1}, species_initial_conc={'A': 1.0}, equations=1)
quiet(m.run_simulation, 'x', False, 43200.0, 288.15, 0.5, np.array([], dtype=int), 1e17, d, 10.0, 2.5)
done(len(seen) == 4 and all(abs(s - (43200.0 + 2.5 * k + .25)) < 1e-6 for k, s in enumerate(seen)), str(seen))
''')
S('C16-whole-molecules', 'C16', 'f2py/ODE_solver.py',
  [('y0 = [0]*num_species #Initial concentrations, set to 0', 'y0 = numpy.zeros(num_species,dtype=int) #Initial concentrations, set to 0')],
  'an initial concentration that is not a whole number of molecules per cc', 'the run starts from truncated concentrations',
  '''
starts = []
def step(prob, T): starts.append(prob.y0.copy()); return prob.y0 * 0.5
solver(step)
stub('rate_coeff_f2py', evaluate_rates=lambda ro2, h, t, s: np.ones(2)); stub('reactants_conc_f2py', reactants=lambda y: np.ones(2))
stub('loss_gain_f2py', loss_gain=lambda r: np.zeros(3)); stub('jacobian_f2py', jacobian=lambda r, y: np.zeros((3, 3)))
m = load(REPO + '/f2py/ODE_solver.py', 'ode_f2py')
d = dict(species_dict={i: n for i, n in enumerate('ABC')}, species_dict2array={n: i for i, n in enumerate('ABC')}, species_initial_conc={'A': 18.0, 'C': 3.0e-11}, equations=2)
quiet(m.run_simulation, 'x', 0.0, False, 288.15, 0.5, np.array([], dtype=int), 1e17, d, 200.0, 100.0)
done(len(starts) == 2 and np.allclose(starts[0], [18.0 * 2.55e10, 0, 3.0e-11 * 2.55e10], rtol=1e-9, atol=0), str(starts))
''')
S('C18-mask-position', 'C18', PC,
  [("""        else:
            ignore_index.append(species_dict2array[compound])
            ignore_index_fortran[species_dict2array[compound]]=1.0
        species_step+=1""", """        else:
            ignore_index.append(species_dict2array[compound])
            ignore_index_fortran[species_step]=1.0
        species_step+=1""")],
  'a species table whose order is not the order of the array positions, and a species without structure', 'the dense mask marks another species than the ignore set',
  '''
class Any:
    def __getattr__(s, n): return lambda *a, **k: 1.0
for n in ('umansysprop', 'umansysprop.boiling_points', 'umansysprop.vapour_pressures', 'umansysprop.critical_properties', 'umansysprop.liquid_densities', 'umansysprop.partition_models', 'umansysprop.activity_coefficient_models_dev', 'umansysprop.groups', 'umansysprop.forms', 'umansysprop.results'):
    m = stub(n); m.__getattr__ = lambda k: (lambda *a, **kw: -9.0)
sys.modules['umansysprop'].__getattr__ = lambda k: sys.modules.get('umansysprop.' + k) or (lambda *a, **kw: 0)
sys.modules['umansysprop.groups'].composition = lambda c: {'C': 1.0, 'H': 4.0, 'O': 1.0}
sys.modules['umansysprop.forms'].CoreAbundanceField = object
PCm = load(REPO + '/Aerosol/Property_calculation.py', 'PCm')
mol = types.SimpleNamespace(molwt=100.0)
sd = {2: 'C', 0: 'A', 1: 'B'}; s2a = {'A': 0, 'B': 1, 'C': 2}
r = quiet(PCm.Pure_component1, 3, sd, s2a, {'CO': mol}, {'A': 'CO', 'B': 'CO'}, 298.15, 'nannoolal', 'joback_and_reid', 'nannoolal', 'girolami', True, -6.0)
done(list(r['ignore_index_fortran']) == [0.0, 0.0, 1.0] and sorted(r['ignore_index']) == [2] and sorted(r['include_index']) == [0, 1], str(r))
''')
UM = '''
for n in ('umansysprop', 'umansysprop.boiling_points', 'umansysprop.vapour_pressures', 'umansysprop.critical_properties', 'umansysprop.liquid_densities', 'umansysprop.partition_models', 'umansysprop.activity_coefficient_models_dev', 'umansysprop.groups', 'umansysprop.forms', 'umansysprop.results'):
    m = stub(n); m.__getattr__ = lambda k: (lambda *a, **kw: -9.0)
sys.modules['umansysprop'].__getattr__ = lambda k: sys.modules.get('umansysprop.' + k) or (lambda *a, **kw: 0)
sys.modules['umansysprop.forms'].CoreAbundanceField = object
PCm = load(REPO + '/Aerosol/Property_calculation.py', 'PCm')
'''
S('C19-light-gas', 'C19', PC,
  [('DStar_org = 1.9E0*numpy.power(numpy.array(y_mw),-2.0E0/3.0E0)', 'DStar_org = 1.9E0*numpy.power(numpy.maximum(numpy.array(y_mw),16.0E0),-2.0E0/3.0E0)')],
  'a compound lighter than methane', 'its diffusivity and mean free path are those of a heavier one',
  UM + '''
mw = np.array([2.016, 18.0, 4.0026, 250.0]); r = quiet(PCm.Pure_component2, 4, list(mw), 8.3144598, 290.0)
D = 1.9 * mw ** (-2 / 3); v = np.sqrt(8 * 8.3144598 * 290.0 / (np.pi * mw * 1e-3))
done(np.allclose(r['DStar_org'], D, rtol=1e-6) and np.allclose(r['mean_them_vel'], v, rtol=1e-6) and np.allclose(r['gamma_gas'], 3 * D / (100 * v) / 100, rtol=1e-6), str(r))
''')
S('C20-hydroperoxyl', 'C20', PE,
  [("if species_name not in ['OH','HO2','O3','hv']: ", "if species_name not in ['OH','H02','O3','hv']: ")],
  'a mechanism with HO2 and a structure file that gives it a structure', 'the oxidant HO2 becomes a compound with a structure (and can condense)',
  '''
d = parse("{1} CH3O2 + HO2 = CH3OOH : 1.0E-12 ;\\n{2} OH + O3 = HO2 : 1.0E-13 ;\\n")
open('s.xml', 'w').write('<mechanism><species species_name="HO2"><smiles>O[O]</smiles></species><species species_name="CH3OOH"><smiles>COO</smiles></species><species species_name="OH"><smiles>[OH]</smiles></species></mechanism>')
r = quiet(P.extract_smiles_species, d, 's.xml')
done(dict(r['SMILES_dict']) == {'CH3OOH': 'COO'} and sorted(r['Pybel_object_dict']) == ['COO'], str(dict(r['SMILES_dict'])))
''')
S('C21-saved-count', 'C21', 'Gas_simulation.py',
  [("pickle.dump(equations, handle, protocol=pickle.HIGHEST_PROTOCOL)", "pickle.dump(len(species_dict), handle, protocol=pickle.HIGHEST_PROTOCOL)")],
  'a restart from saved files', 'the restarted run is given the number of species as the number of reactions',
  '''
import re, runpy
got = []
class Stop(Exception): pass
def rs(*a, **k): got.append(a); raise Stop()
stub('ODE_solver', run_simulation=rs); os.system = lambda c: 0
pk = stub('PyBox', Parse_eqn_file=P, rate_coeff_conversion=R); stub('PyBox.Parse_eqn_file'); stub('PyBox.rate_coeff_conversion')
os.makedirs('run/x/mechanism_files'); os.makedirs('run/mechanism_files')
eq = "{1} APINENE + O3 = A + B + C : 1.0E-12 ;\\n{2} A + O3 = B : 1.0E-13 ;\\n"
for p in ('run/x/mechanism_files', 'run/mechanism_files', 'run/x'):
    for n in ('MCM_APINENE', 'MCM_mixed_test', 'MCM_BCARY', 'MCM_test'): open('%s/%s.eqn.txt' % (p, n), 'w').write(eq)
os.chdir('run/x')
src = open(REPO + '/Gas_simulation.py').read()
for fresh in ("False", "True"):
    s = re.sub(r'files_exist *= *False', 'files_exist = ' + fresh, src)
    with contextlib.suppress(Stop): quiet(exec, compile(s, 'Gas_simulation.py', 'exec'), {'__name__': '__main__', '__file__': 'Gas_simulation.py'})
d0, d1 = [[x for x in g if isinstance(x, dict)][0] for g in got]
same = all(d0[k] == d1[k] for k in ('species_dict', 'species_dict2array', 'equations'))
done(len(got) == 2 and same, str([d0['equations'], d1['equations']]))
''')
S('C22-whole-order', 'C22', PE,
  [("""                        f.write('    reactants_conc(%s)=y(%s)**%s'%(equation_step+1,species_dict2array[reactant]+1,stoich))""",
    """                        f.write('    reactants_conc(%s)=y(%s)**%s'%(equation_step+1,species_dict2array[reactant]+1,int(stoich)))""")],
  'a reaction whose first reactant has a coefficient below one', 'the Fortran reaction goes on, and consumes the species, when the species is absent',
  '''
d = parse("{1} 0.5B + A = C : 1.0E-12 ;\\n")
s = d['species_dict2array']
quiet(P.write_reactants_indices_fortran, 'm', 1, s, d['rate_dict_reactants'], d['loss_dict'], False)
y = np.ones(3); y[s['B']] = 0.0; o = np.zeros(1)
fort('Reactants_conc.f90', 'reactants')(ptr(y), ptr(o))
done(o[0] == 0.0, str(o))
''')
