From ee9ce5024a05c737d4b29f29f9d6de7c921f875e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 01/20] fix: accumulate repeated products and keep products
 that are also reactants

The test for an existing gain entry looked at the last reactant instead of
the product, so 'HCHO = CO + HO2 + HO2' recorded one HO2 and a product listed
after a product equal to the last reactant was dropped by the bare except.
---
 Parse_eqn_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index aa72dae..41aaedb 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -279,7 +279,7 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
                             species_hess_gain_data[product]=[]
                         species_hess_gain_data[product].append(equation_step) #so from this we can work out a dx/dy
                         # -- Update loss dictionaries -- 
-                        if equation_step in gain_dict[reactant]:
+                        if equation_step in gain_dict[product]:
                             gain_dict[product][equation_step]+=stoich
                         else:
                             gain_dict[product][equation_step]=stoich
-- 
2.43.0


From cd3c8b5ea79bec8b7b923d33e90773ec96f6b251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 02/20] fix: do not append a second number to names after
 removing a coefficient

'2NO2' was parsed as species 'NO22'.
---
 Parse_eqn_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 41aaedb..b1d1c7a 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -201,7 +201,7 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
                     #in temp[0] away from the original string. Lets assume that we can attach the first
                     #part of the text with the second number in temp. Thus
                     if reactant.index(stoich) == 0 :
-                        reactant=reactant.split(stoich,1)[1]+temp[1]
+                        reactant=reactant.split(stoich,1)[1]
                         stoich=float(stoich)
                     else:
                         stoich=1.0
@@ -258,7 +258,7 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
                             #in temp[0] away from the original string. Lets assume that we can attach the first
                             #part of the text with the second number in temp. Thus
                             if product.index(stoich) == 0 :
-                                product=product.split(stoich,1)[1]+temp[1]
+                                product=product.split(stoich,1)[1]
                                 stoich=float(stoich)
                             else:
                                 stoich=1.0
-- 
2.43.0


From 2bcee375bce3ab4e1f22d1b852e8e50e8ce9dfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 03/20] fix: write the stoichiometric coefficient itself in the
 Fortran loss/gain file

Only indices shift by one between Python and Fortran; a coefficient of 2 was
written as 3.
---
 Parse_eqn_file.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index b1d1c7a..cd1751e 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2601,13 +2601,13 @@ def write_loss_gain_fortran(filename,equations,num_species,loss_dict,gain_dict,s
                             if stoich==1:
                                 f.write('-1.0*r(%s)'%(equation_step+1))
                             else:
-                                f.write('-1.0*r(%s)*%s'%(equation_step+1,stoich+1))
+                                f.write('-1.0*r(%s)*%s'%(equation_step+1,stoich))
                             loss_step+=1
                         else:
                             if stoich==1:
                                 f.write('-r(%s)'%(equation_step+1))
                             else:
-                                f.write('-r(%s)*%s'%(equation_step+1,stoich+1))
+                                f.write('-r(%s)*%s'%(equation_step+1,stoich))
                             loss_step+=1
                         flag+=1
                         
@@ -2624,13 +2624,13 @@ def write_loss_gain_fortran(filename,equations,num_species,loss_dict,gain_dict,s
                             if stoich==1:
                                 f.write('+r(%s)'%(equation_step+1))
                             else:
-                                f.write('+r(%s)*%s'%(equation_step+1,stoich+1))
+                                f.write('+r(%s)*%s'%(equation_step+1,stoich))
                             gain_step+=1
                         else:
                             if stoich==1:
                                 f.write('+r(%s)'%(equation_step+1))
                             else:
-                                f.write('+r(%s)*%s'%(equation_step+1,stoich+1))
+                                f.write('+r(%s)*%s'%(equation_step+1,stoich))
                             gain_step+=1
                         flag+=1
                         
-- 
2.43.0


From c69bad239115d14036628757005a1d60c0427243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:01 +0000
Subject: [PATCH 04/20] fix: list each distinct reactant of a reaction once

For 'HO2 + HO2' the combined stoichiometry (2) was applied for each listing,
so the reactant product became y**4 instead of y**2.
---
 Parse_eqn_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index cd1751e..0cb4d77 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -213,7 +213,8 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
             #Now store the stoichiometry and reactant in dictionaries
             if reactant not in ['hv']:
                 stoich_dict[equation_step][reactant_step]=stoich
-                rate_dict_reactants[equation_step][reactant_step]=reactant 
+                if reactant not in rate_dict_reactants[equation_step].values(): #a repeated reactant is already counted in loss_dict
+                    rate_dict_reactants[equation_step][reactant_step]=reactant 
                 # -- Update species dictionaries --
                 if reactant not in species_dict.values(): #check to see if entry already exists
                     species_dict[species_step]=reactant # useful for checking all parsed species
-- 
2.43.0


From ec9145e40783454edf5dbc77741c1f99be78bac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:01 +0000
Subject: [PATCH 05/20] fix: include the row species' stoichiometry in the
 generated Jacobians

d(dy_i/dt)/dy_j omitted the coefficient of species i (2*A = B gave half the
derivative, A = 2*B likewise) and dropped the factor for the differentiated
reactant when its coefficient was neither 1, 2 nor above 2.
---
 Parse_eqn_file.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 0cb4d77..56249d5 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2826,7 +2826,7 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                                                     step+=1
                                                 else:
                                                     f.write('*%s*y(%s)'%(stoich_first,species_dict2array[reactant2]+1))
-                                            elif stoich_first > 2:
+                                            else:
                                                 if step == 1:
                                                     f.write('-%s*y(%s)**%s'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
                                                     step+=1
@@ -2852,6 +2852,8 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                                 f.write('*r(%s)'%(equation+1))
                             elif step == 1:
                                 f.write('-1.0*r(%s)'%(equation+1))
+                            if loss_dict[species][equation] != 1: # stoichiometry of the species whose tendency is differentiated
+                                f.write('*%s'%(loss_dict[species][equation]))
                             equation_flag+=1
                             
                 # Now repeat the above procedure but for reactions that lead to concentration gain    
@@ -2902,7 +2904,7 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                                                     step+=1
                                                 else:
                                                     f.write('*%s*y(%s)'%(stoich_first,species_dict2array[reactant2]+1))
-                                            elif stoich_first > 2:
+                                            else:
                                                 if step == 1:
                                                     f.write('+%s*y(%s)**%s'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
                                                     step+=1
@@ -2928,6 +2930,8 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                                 f.write('*r(%s)'%(equation+1))
                             elif step == 1:
                                 f.write('+1.0*r(%s)'%(equation+1))
+                            if gain_dict[species][equation] != 1: # stoichiometry of the species whose tendency is differentiated
+                                f.write('*%s'%(gain_dict[species][equation]))
                             equation_flag+=1
 
 
@@ -3090,7 +3094,7 @@ def write_gas_jacobian_numba(filename,equations,num_species,loss_dict,gain_dict,
                                                     step+=1
                                                 else:
                                                     f.write('*%s*y[%s]'%(stoich_first,species_dict2array[reactant2]))
-                                            elif stoich_first > 2:
+                                            else:
                                                 if step == 1:
                                                     f.write('-%s*y[%s]**%s'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
                                                     step+=1
@@ -3116,6 +3120,8 @@ def write_gas_jacobian_numba(filename,equations,num_species,loss_dict,gain_dict,
                                 f.write('*r[%s]'%(equation))
                             elif step == 1:
                                 f.write('-1.0*r[%s]'%(equation))
+                            if loss_dict[species][equation] != 1: # stoichiometry of the species whose tendency is differentiated
+                                f.write('*%s'%(loss_dict[species][equation]))
                             equation_flag+=1
                             
                 # Now repeat the above procedure but for reactions that lead to concentration gain    
@@ -3166,7 +3172,7 @@ def write_gas_jacobian_numba(filename,equations,num_species,loss_dict,gain_dict,
                                                     step+=1
                                                 else:
                                                     f.write('*%s*y[%s]'%(stoich_first,species_dict2array[reactant2]))
-                                            elif stoich_first > 2:
+                                            else:
                                                 if step == 1:
                                                     f.write('+%s*y[%s]**%s'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
                                                     step+=1
@@ -3192,6 +3198,8 @@ def write_gas_jacobian_numba(filename,equations,num_species,loss_dict,gain_dict,
                                 f.write('*r[%s]'%(equation))
                             elif step == 1:
                                 f.write('+1.0*r[%s]'%(equation))
+                            if gain_dict[species][equation] != 1: # stoichiometry of the species whose tendency is differentiated
+                                f.write('*%s'%(gain_dict[species][equation]))
                             equation_flag+=1
 
 
-- 
2.43.0


From d84bfa3f6db7cbf99e5195852b75782f9a815419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:01 +0000
Subject: [PATCH 06/20] fix: apply every function-name conversion to a rate
 expression

Each replacement restarted from the unconverted text, so only the last entry of
the list took effect and e.g. dsqrt or LOG reached the generated code unchanged.
---
 rate_coeff_conversion.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rate_coeff_conversion.py b/rate_coeff_conversion.py
index beae9fe..8093b3a 100644
--- a/rate_coeff_conversion.py
+++ b/rate_coeff_conversion.py
@@ -80,8 +80,9 @@ def convert_rate_mcm(rate_dict):
     new_rate_full=[]
     for equation_step, rate_full in rate_dict.items():
         
+        temp_text=rate_full
         for operation in math_list:
-            temp_text=rate_full.replace(operation[0],operation[1])
+            temp_text=temp_text.replace(operation[0],operation[1])
         for syntax in map_list:
             temp_text=temp_text.replace(syntax[0],syntax[1])
 
@@ -161,8 +162,9 @@ def convert_rate_mcm_numba(rate_dict):
     new_rate_full=[]
     for equation_step, rate_full in rate_dict.items():
         
+        temp_text=rate_full
         for operation in math_list:
-            temp_text=rate_full.replace(operation[0],operation[1])
+            temp_text=temp_text.replace(operation[0],operation[1])
         for syntax in map_list:
             temp_text=temp_text.replace(syntax[0],syntax[1])
 
@@ -264,8 +266,9 @@ def convert_rate_mcm_fortran(rate_dict):
     new_rate_full=[]
     for equation_step, rate_full in rate_dict.items():
         
+        temp_text=rate_full
         for operation in math_list:
-            temp_text=rate_full.replace(operation[0],operation[1])
+            temp_text=temp_text.replace(operation[0],operation[1])
         for syntax in map_list:
             temp_text=temp_text.replace(syntax[0],syntax[1])
 
-- 
2.43.0


From 61091015dc13d1ae89a80ed30d3e3a4f7cb40839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:01 +0000
Subject: [PATCH 07/20] fix: convert double-precision literals with a zero
 exponent

'1.0D0' was passed to the generated code unconverted.
---
 rate_coeff_conversion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rate_coeff_conversion.py b/rate_coeff_conversion.py
index 8093b3a..d1adafb 100644
--- a/rate_coeff_conversion.py
+++ b/rate_coeff_conversion.py
@@ -147,6 +147,7 @@ def convert_rate_mcm_numba(rate_dict):
         ]
     map_list=[('D-','E-'),
         ('D+','E+'),
+        ('D0','E+0'),
         ('D1','E+1'),
         ('D2','E+2'),
         ('D3','E+3'),
@@ -250,6 +251,7 @@ def convert_rate_mcm_fortran(rate_dict):
         ]
     map_list=[('D-','E-'),
         ('D+','E+'),
+        ('D0','E+0'),
         ('D1','E+1'),
         ('D2','E+2'),
         ('D3','E+3'),
-- 
2.43.0


From 0fa0ee7a6fa027ff12c6572baec56038ffa48da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:13 +0000
Subject: [PATCH 08/20] fix: make the partitioning loop's slice bounds private
 to each OpenMP thread

index1 and index2 were shared by default, so one thread could write its
condensed-phase tendencies into another size bin's slice.
---
 Parse_eqn_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 56249d5..876a793 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -3323,7 +3323,7 @@ def write_partitioning_section_fortran(total_length_y,num_bins,num_species):
     f.write('    size_array(:)=0.0D0 \n') 
     f.write('    dy_dt(:)=0.0D0 \n') 
     f.write('!$OMP PARALLEL DO &\n') 
-    f.write('!$OMP& PRIVATE(size_step,total_mass),& \n') 
+    f.write('!$OMP& PRIVATE(size_step,total_mass,index1,index2),& \n') 
     f.write('!$OMP& PRIVATE(total_moles,y_mole_fractions,temp_array), & \n') 
     f.write('!$OMP& PRIVATE(mass_array,mass_fractions_array,density_array), & \n') 
     f.write('!$OMP& PRIVATE(density,water_moles), & \n') 
@@ -3540,7 +3540,7 @@ def write_partitioning_section_fortran_ignore(total_length_y,num_bins,num_specie
     f.write('    dy_dt(:)=0.0D0 \n') 
     f.write('\n')     
     f.write('!$OMP PARALLEL DO &\n') 
-    f.write('!$OMP& PRIVATE(size_step,total_mass),& \n') 
+    f.write('!$OMP& PRIVATE(size_step,total_mass,index1,index2),& \n') 
     f.write('!$OMP& PRIVATE(total_moles,y_mole_fractions,temp_array), & \n') 
     f.write('!$OMP& PRIVATE(mass_array,mass_fractions_array,density_array), & \n') 
     f.write('!$OMP& PRIVATE(density,water_moles), & \n') 
-- 
2.43.0


From 2ede482955826c3a82a6a6f442acb03fe5ae4bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:42 +0000
Subject: [PATCH 09/20] fix: make the all-species partitioning file compile and
 sum SOA mass per bin

The file zeroed an undeclared total_SOA_mass_array (it did not compile) and
accumulated the total into an uninitialised variable shared between threads.
Use one slot per size bin, as write_partitioning_section_fortran_ignore does.
---
 Parse_eqn_file.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 876a793..bf2aad1 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -3297,6 +3297,7 @@ def write_partitioning_section_fortran(total_length_y,num_bins,num_species):
     f.write('                              Correction, Kn, dm_dt,& \n')
     f.write('                              k_i_m_t_part1, k_i_m_t \n') 
     f.write('    REAL(8), dimension(%s,%s) :: dy_dt_gas_matrix \n'%(num_species,num_bins))
+    f.write('    REAL(8), dimension(%s) :: total_SOA_mass_array \n'%(num_bins))
     f.write('    REAL(8) total_moles, density, diameter, radius, water_moles  \n')
     f.write('    REAL(8), dimension(%s) :: Pressure_eq, Cstar_i_m_t \n'%(num_species)) 
     f.write('    REAL(8), dimension(%s) :: kelvin_factor,y_mole_fractions  \n'%(num_species))
@@ -3331,11 +3332,11 @@ def write_partitioning_section_fortran(total_length_y,num_bins,num_species):
     f.write('!$OMP& PRIVATE(Correction_part3,Correction,kelvin_factor), & \n') 
     f.write('!$OMP& PRIVATE(Pressure_eq,Cstar_i_m_t,k_i_m_t_part1), & \n') 
     f.write('!$OMP& PRIVATE(k_i_m_t,dm_dt), & \n') 
-    f.write('!$OMP& SHARED(total_SOA_mass,total_water_cond_mass,size_array), & \n') 
+    f.write('!$OMP& SHARED(total_water_cond_mass,size_array), & \n') 
     f.write('!$OMP& SHARED(ycore,core_diss,mw_array,density_input), & \n') 
     f.write('!$OMP& SHARED(C_g_i_t,dy_dt,core_mass_array,R_gas,Psat), & \n') 
     f.write('!$OMP& SHARED(gamma_gas,NA,alpha_d_org,Model_temp,DStar_org), & \n') 
-    f.write('!$OMP& SHARED(dy_dt_gas_matrix,aw_array) \n') 
+    f.write('!$OMP& SHARED(dy_dt_gas_matrix,aw_array,total_SOA_mass_array) \n') 
     f.write('    DO size_step=1,%s \n'%(num_bins)) 
     f.write('\n')     	
     f.write('        ! 1) Select a slice of y that represents this size bin \n') 
@@ -3350,7 +3351,7 @@ def write_partitioning_section_fortran(total_length_y,num_bins,num_species):
     f.write('        density_array(1:num_species)=density_input(1:num_species)\n') 
     f.write('        density_array(num_species+1)=core_density_array(size_step)\n') 
     f.write('\n')     	
-    f.write('        total_SOA_mass=total_SOA_mass+SUM(mass_array(1:num_species-1))\n') 
+    f.write('        total_SOA_mass_array(size_step)=SUM(mass_array(1:num_species-1))\n') 
     f.write('        total_water_cond_mass=total_water_cond_mass+mass_array(num_species)\n') 
     f.write('        aw_array(size_step)=temp_array(num_species)/total_moles  \n')     	
     f.write('        total_mass=SUM(mass_array(:))\n') 
@@ -3420,6 +3421,7 @@ def write_partitioning_section_fortran(total_length_y,num_bins,num_species):
     f.write('    ENDDO \n') 
     f.write('!$OMP END PARALLEL DO \n') 
     f.write('   dy_dt(1:num_species)=dy_dt(1:num_species)-SUM(dy_dt_gas_matrix, DIM=2)  \n')
+    f.write('   total_SOA_mass=SUM(total_SOA_mass_array)*(1.0D12)  \n')
     f.write('\n')    		    
     f.write('end subroutine \n') 
     f.close()  
-- 
2.43.0


From 0b11eb638bff2c1a44a536baaedeeddb62f969c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:42 +0000
Subject: [PATCH 10/20] fix: store the net coefficient of a species on both
 sides of a reaction

The gain overwrote the loss in the sparse loss/gain matrix.
---
 Parse_eqn_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index bf2aad1..a5a6b4d 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2402,10 +2402,10 @@ def write_loss_gain_matrix(filename,equations,num_species,loss_dict,gain_dict,sp
             for equation_step, stoich in gain_dict[species].items():
                 if stoich==1:
                     #f.write('+r[%s]'%(equation_step))
-                    loss_gain[species_step,equation_step]=1.0
+                    loss_gain[species_step,equation_step]+=1.0
                 else:
                     #f.write('+r[%s]*%s'%(equation_step,stoich))
-                    loss_gain[species_step,equation_step]=1.0*stoich
+                    loss_gain[species_step,equation_step]+=1.0*stoich
                 
     #Now convert matrix type for use in numerical operations later
     loss_gain = loss_gain.tocsr()
-- 
2.43.0


From 29ac32beda880e5e54980a484d7c67a150f5b9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:42 +0000
Subject: [PATCH 11/20] fix: leave a species without a SMILES entry unmapped

It was given the SMILES of the previously mapped species.
---
 Parse_eqn_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index a5a6b4d..6498e09 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -343,6 +343,7 @@ def extract_smiles_species(output_dict, SMILES_filename):
                     species_SMILES=re.search(r'<smiles>(.*?)</smiles>',node.getElementsByTagName('smiles').item(0).toxml()).group(1)
                 except:
                     print('No SMILES entry for species ',species_name)
+                    continue
                 SMILES_dict[species_name]=species_SMILES
                 Pybel_object=pybel.readstring('smi',species_SMILES)
                 Pybel_object_dict[species_SMILES]=Pybel_object
-- 
2.43.0


From f76ab87a428af2d3de13761646dcf9df2f8cce25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:42 +0000
Subject: [PATCH 12/20] fix: repair malformed names in the RO2 list

'IBUTALBO2' and 'IBUTALCO2' were one string and seven names ended in ')', so
these species never contributed to the RO2 total.
---
 Parse_eqn_file.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 6498e09..6a63b9b 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -1788,7 +1788,7 @@ def write_RO2_indices(filename,species_dict2array):
     #The following is a list of species defined as contributing to total RO2 concetrations [old MCM]
     RO2_names = ['HOCH2CH2O2','HO1C3O2','HYPROPO2','IPROPOLO2','NBUTOLAO2','NBUTOLBO2','BUT2OLO2','IBUTOLBO2','IBUTOLCO2','TBUTOLO2','HO3C5O2', 
     'PE2ENEBO2','HM2C43O2','M2BUOL2O2','HM33C3O2','ME3BUOLO2','HO2M2C4O2','ME2BU2OLO2','PROL11MO2','H2M3C4O2','ME2BUOLO2','CYHEXOLAO2','MIBKAOHAO2',  
-    'MIBKAOHBO2','MIBKHO4O2','CH3CO3','NMBOAO2','NMBOBO2','MBOAO2','MBOBO2','CH3O2','HCOCH2O2','C2H5CO3','C2H5O2','C3H7CO3','BUTALO2','NC3H7O2','IPRCO3','IBUTALBO2,'
+    'MIBKAOHBO2','MIBKHO4O2','CH3CO3','NMBOAO2','NMBOBO2','MBOAO2','MBOBO2','CH3O2','HCOCH2O2','C2H5CO3','C2H5O2','C3H7CO3','BUTALO2','NC3H7O2','IPRCO3','IBUTALBO2',
     'IBUTALCO2','IC3H7O2','C4H9CO3','C4CHOBO2','NC4H9O2','ACO3','ACRO2','OCCOHCO2','CH3C2H2O2','MACO3','MACRO2','MACROHO2','C3DBCO3','C4CONO3O2','C4NO3COO2',
     'C4OCCOHCO2','COCCOH2CO2','SC4H9O2',  
     'IC4H9O2','TC4H9O2','PEAO2','PEBO2',  
@@ -1808,25 +1808,25 @@ def write_RO2_indices(filename,species_dict2array):
     'C4NO32M1O2','C4NO32M2O2','C4M3NO31O2',  
     'C4M3NO32O2','IPRCHOOA','ME3BU2OLO2',  
     'C4M2NO32O2','C4M2NO33O2','C65NO36O2',  
-    'C66NO35O2','C6OH5O2','HO5C6O2','C62NO33O2)', 
+    'C66NO35O2','C6OH5O2','HO5C6O2','C62NO33O2', 
     'C63NO32O2','C64OH5O2','C65OH4O2',  
     'C4ME2NO3O2','C4ME2OHO2','BZBIPERO2',  
     'C6H5CH2O2','TLBIPERO2','OXYLO2',  
     'OXYBIPERO2','MXYLO2','MXYBIPERO2','PXYLO2',  
     'PXYBIPERO2','C6H5C2H4O2','EBZBIPERO2',  
-    'PHC3O2','PBZBIPERO2','PHIC3O2','IPBZBIPRO2)',  
+    'PHC3O2','PBZBIPERO2','PHIC3O2','IPBZBIPRO2',  
     'TM123BO2','TM123BPRO2','TM124BO2',  
     'TM124BPRO2','TMBO2','TM135BPRO2','ETOLO2',  
     'OETLBIPRO2','METLBIPRO2','PETLBIPRO2',  
     'DM35EBO2','DMEBIPRO2','DE35TO2',  
     'DETLBIPRO2','NSTYRENO2','STYRENO2',  
     'C6H5CO3','C6H5O2','CH2CLO2','CHCL2O2',  
-    'CCL3O2','CCL3CH2O2','TCEOHO2','C2CL3OHAO2)',  
+    'CCL3O2','CCL3CH2O2','TCEOHO2','C2CL3OHAO2',  
     'C2CL3OHBO2','C2CL2OHO2','DICLETO2',  
     'CH2OHCL2O2','CL2OHCH2O2','CL12PRAO2',  
     'CL12PRBO2','CL12PRCO2','CH3CCL2O2',  
     'CHCL2CH2O2','CH2CLCH2O2','CH3CHCLO2',  
-    'CHCL2CL2O2','CH2CL3O2','CHCL3O2','CCLNO3O2)',  
+    'CHCL2CL2O2','CH2CL3O2','CHCL3O2','CCLNO3O2',  
     'CNO3CLO2','CCLOHCH2O2','CH2OHCCLO2',  
     'NBUTDAO2','NBUTDBO2','BUTDAO2','BUTDBO2',  
     'BUTDCO2','NISOPO2','ISOP34O2','CHOOCH2O2',  
@@ -1837,7 +1837,7 @@ def write_RO2_indices(filename,species_dict2array):
     'NBUACETCO2','SBUACETAO2','SBUACETBO2',  
     'MCOOTBO2','TBOCOCH2O2','CH3OCH2O2',  
     'DIETETO2','ETOC2O2','MTBEAO2','MTBEBO2',  
-    'DIIPRETO2','IPROMC2O2','ETBEAO2','ETBEBO2)',  
+    'DIIPRETO2','IPROMC2O2','ETBEAO2','ETBEBO2',  
     'ETBECO2','MO2EOLAO2','MO2EOLBO2',  
     'EOX2EOLAO2','EOX2EOLBO2','PR2OHMOXO2',  
     'H2C3OCO2','BOX2EOHAO2','BOX2EOHBO2',  
@@ -1854,13 +1854,13 @@ def write_RO2_indices(filename,species_dict2array):
     'LIMBO2','LIMCO2','NBCO2','BCAO2',  
     'BCBO2','BCCO2','DMMAO2','DMMBO2',  
     'DMCO2','CH3SCH2O2','HODMSO2','ETHOXO2',  
-    'BUT2CO3','C3ME3CO3','C3ME3CHOO2','HOCH2CO3)',  
+    'BUT2CO3','C3ME3CO3','C3ME3CHOO2','HOCH2CO3',  
     'CH3CHOHCO3','IPRHOCO3','IPRCHOO',  
     'BZEMUCCO3','BZEMUCO2','C5DIALO2','NPHENO2',  
     'PHENO2','CRESO2','NCRESO2','TLEMUCCO3',  
     'TLEMUCO2','C615CO2O2','OXYMUCCO3',  
     'OXYMUCO2','MC6CO2O2','NOXYOLO2','OXYOLO2',  
-    'MXYMUCCO3','MXYMUCO2','C726CO5O2','MXYOLO2)',  
+    'MXYMUCCO3','MXYMUCO2','C726CO5O2','MXYOLO2',  
     'NMXYOLO2','PXYMUCCO3','PXYMUCO2',  
     'C6M5CO2O2','NPXYOLO2','PXYOLO2','EBENZOLO2',  
     'NEBNZOLO2','EBZMUCCO3','EBZMUCO2',  
@@ -1873,7 +1873,7 @@ def write_RO2_indices(filename,species_dict2array):
     'TM124MUCO2','C7CO2M5O2','NTM135OLO2',  
     'TM135OLO2','TM135MUCO3','TM135MUCO2',  
     'C7M2CO5O2','OETLMUCCO3','OETLMUCO2',  
-    'MC7CO2O2','NOETOLO2','OETOLO2','METLMUCCO3)',  
+    'MC7CO2O2','NOETOLO2','OETOLO2','METLMUCCO3',  
     'METLMUCO2','C826CO3O2','METOLO2',  
     'NMETOLO2','PETLMUCCO3','PETLMUCO2',  
     'C7M6CO2O2','NPETOLO2','PETOLO2','DMEBMUCO3',  
-- 
2.43.0


From 769f7acf6e29f48b4532b2ec06cd86226e98e637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:35 +0000
Subject: [PATCH 13/20] fix: carry the time of day on from one batch to the
 next

Every batch restarts the solver at t=0, so the right-hand side and Jacobian
evaluated photolysis for the first batch_step seconds of the day over and over.
---
 Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py | 2 +-
 Aerosol/f2py/ODE_solver.py                        | 2 +-
 ODE_solver.py                                     | 4 ++--
 f2py/ODE_solver.py                                | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py b/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
index ce71d93..5e69250 100644
--- a/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
+++ b/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
@@ -72,7 +72,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, H2O, PInit, y_co
         
         #pdb.set_trace()
         # Calculate time of day
-        time_of_day_seconds=start_time+t
+        time_of_day_seconds=start_time+total_time+t
         
         #pdb.set_trace()
         # make sure the y array is not a list. Assimulo uses lists
diff --git a/Aerosol/f2py/ODE_solver.py b/Aerosol/f2py/ODE_solver.py
index 89a5372..3d30075 100644
--- a/Aerosol/f2py/ODE_solver.py
+++ b/Aerosol/f2py/ODE_solver.py
@@ -69,7 +69,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
         
         #pdb.set_trace()
         # Calculate time of day
-        time_of_day_seconds=start_time+t
+        time_of_day_seconds=start_time+total_time+t
         
         #pdb.set_trace()
         # make sure the y array is not a list. Assimulo uses lists
diff --git a/ODE_solver.py b/ODE_solver.py
index a338b9e..707ef7c 100644
--- a/ODE_solver.py
+++ b/ODE_solver.py
@@ -80,7 +80,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
         #pdb.set_trace()
         #Here we use the pre-created Numba based functions to arrive at our value for dydt
         # Calculate time of day
-        time_of_day_seconds=start_time+t
+        time_of_day_seconds=start_time+total_time+t
 
         # make sure the y array is not a list. Assimulo uses lists
         y_asnumpy=numpy.array(y)
@@ -153,7 +153,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
 
         # Different solvers might call jacobian at different stages, so we have to redo some calculations here
         # Calculate time of day
-        time_of_day_seconds=start_time+t
+        time_of_day_seconds=start_time+total_time+t
 
         # make sure the y array is not a list. Assimulo uses lists
         y_asnumpy=numpy.array(y)
diff --git a/f2py/ODE_solver.py b/f2py/ODE_solver.py
index 58679f6..4399be4 100644
--- a/f2py/ODE_solver.py
+++ b/f2py/ODE_solver.py
@@ -69,7 +69,7 @@ def run_simulation(filename, start_time, save_output, temp, RH, RO2_indices, H2O
 
         #pdb.set_trace()
         # Calculate time of day
-        time_of_day_seconds=start_time+t
+        time_of_day_seconds=start_time+total_time+t
         
         # make sure the y array is not a list. Assimulo uses lists
         y_asnumpy=numpy.array(y)
@@ -110,7 +110,7 @@ def run_simulation(filename, start_time, save_output, temp, RH, RO2_indices, H2O
 
         # Different solvers might call jacobian at different stages, so we have to redo some calculations here 
         # Calculate time of day
-        time_of_day_seconds=start_time+t
+        time_of_day_seconds=start_time+total_time+t
         
         # make sure the y array is not a list. Assimulo uses lists
         y_asnumpy=numpy.array(y)
-- 
2.43.0


From 36f3068e012909270642d368476f22a81349ca25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:35 +0000
Subject: [PATCH 14/20] fix: run exactly as many batches as there are output
 rows

A simulation time that is not a whole number of batches (or a batch step such as
0.1 whose running sum falls short) ran one batch more than the output matrix has
rows and died with an IndexError.
---
 Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py | 4 ++--
 Aerosol/f2py/ODE_solver.py                        | 4 ++--
 ODE_solver.py                                     | 4 ++--
 f2py/ODE_solver.py                                | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py b/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
index 5e69250..76a1982 100644
--- a/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
+++ b/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
@@ -206,7 +206,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, H2O, PInit, y_co
     # the batch step change for increased speed
     t_array=[]
     time_step=0
-    number_steps=int(simulation_time/batch_step) # Just cycling through 3 steps to get to a solution
+    number_steps=int(numpy.ceil(round(simulation_time/batch_step,9))) # Just cycling through 3 steps to get to a solution
     
     # Define a matrix that stores values as outputs from the end of each batch step. Again, you can remove
     # the need to run in batches. You can tell the Assimulo solvers the frequency of outputs.
@@ -218,7 +218,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, H2O, PInit, y_co
     print("Starting simulation")
 
     # In the following, we can 
-    while total_time < simulation_time:
+    while time_step < number_steps:
         
         if total_time == 0.0:
             #Define an Assimulo problem
diff --git a/Aerosol/f2py/ODE_solver.py b/Aerosol/f2py/ODE_solver.py
index 3d30075..226affa 100644
--- a/Aerosol/f2py/ODE_solver.py
+++ b/Aerosol/f2py/ODE_solver.py
@@ -246,7 +246,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
     # batch_step=300.0
     t_array=[]
     time_step=0
-    number_steps=int(simulation_time/batch_step) # Just cycling through 3 steps to get to a solution
+    number_steps=int(numpy.ceil(round(simulation_time/batch_step,9))) # Just cycling through 3 steps to get to a solution
     
     # Define a matrix that stores values as outputs from the end of each batch step. Again, you can remove
     # the need to run in batches. You can tell the Assimulo solvers the frequency of outputs.
@@ -258,7 +258,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
     print("Starting simulation")
 
     # In the following, we can 
-    while total_time < simulation_time:
+    while time_step < number_steps:
         
         if total_time == 0.0:
             #Define an Assimulo problem
diff --git a/ODE_solver.py b/ODE_solver.py
index 707ef7c..b1c8630 100644
--- a/ODE_solver.py
+++ b/ODE_solver.py
@@ -226,7 +226,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
     # batch_step=100.0 # seconds
     t_array=[]
     time_step=0
-    number_steps=int(simulation_time/batch_step) # Just cycling through 3 steps to get to a solution
+    number_steps=int(numpy.ceil(round(simulation_time/batch_step,9))) # Just cycling through 3 steps to get to a solution
 
     # Define a matrix that stores values as outputs from the end of each batch step. Again, you can remove
     # the need to run in batches. You can tell the Assimulo solvers the frequency of outputs.
@@ -236,7 +236,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
 
     #pdb.set_trace()
 
-    while total_time < simulation_time:
+    while time_step < number_steps:
 
         if total_time == 0.0:
             #Define an Assimulo problem
diff --git a/f2py/ODE_solver.py b/f2py/ODE_solver.py
index 4399be4..58f9213 100644
--- a/f2py/ODE_solver.py
+++ b/f2py/ODE_solver.py
@@ -172,7 +172,7 @@ def run_simulation(filename, start_time, save_output, temp, RH, RO2_indices, H2O
     #batch_step=100.0
     t_array=[]
     time_step=0
-    number_steps=int(simulation_time/batch_step) # Just cycling through 3 steps to get to a solution
+    number_steps=int(numpy.ceil(round(simulation_time/batch_step,9))) # Just cycling through 3 steps to get to a solution
     
     # Define a matrix that stores values as outputs from the end of each batch step. Again, you can remove
     # the need to run in batches. You can tell the Assimulo solvers the frequency of outputs.
@@ -181,7 +181,7 @@ def run_simulation(filename, start_time, save_output, temp, RH, RO2_indices, H2O
     print("Starting simulation")
 
     # In the following, we can 
-    while total_time < simulation_time:
+    while time_step < number_steps:
         
         if total_time == 0.0:
             #Define an Assimulo problem
-- 
2.43.0


From 3fd441cf7c709006abb1bda601156dfdfe59aad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:54 +0000
Subject: [PATCH 15/20] fix: save an empty RO2 index set as integers

A mechanism without peroxy radicals saved a float64 array, which cannot index the
concentration vector (IndexError in the ODE right-hand side).
---
 Parse_eqn_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 6a63b9b..a7fd5d8 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2126,7 +2126,7 @@ def write_RO2_indices(filename,species_dict2array):
         if name in species_dict2array:
             RO2_indices.append(species_dict2array[name])
             
-    np.save(filename+'_RO2_indices', RO2_indices)
+    np.save(filename+'_RO2_indices', np.array(RO2_indices,dtype=int))
     	
 def write_reactants_indices(filename,equations,num_species,species_dict2array,rate_dict_reactants,loss_dict):
 
-- 
2.43.0


From 2bb6a93359ee6b8d7e82a0f9aed8e7b20140c289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:54 +0000
Subject: [PATCH 16/20] fix: save the number of equations the aerosol driver
 reloads

A run with files_exist=True loads <filename>_equations.pickle, which was never written.
---
 Aerosol/f2py/Aerosol_simulation_f2py.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Aerosol/f2py/Aerosol_simulation_f2py.py b/Aerosol/f2py/Aerosol_simulation_f2py.py
index a39b786..fa559cd 100644
--- a/Aerosol/f2py/Aerosol_simulation_f2py.py
+++ b/Aerosol/f2py/Aerosol_simulation_f2py.py
@@ -210,6 +210,8 @@ if __name__=='__main__':
         #    pickle.dump(property_dict2, handle, protocol=pickle.HIGHEST_PROTOCOL)
         with open(filename+'_num_species_gas.pickle', 'wb') as handle:
             pickle.dump(num_species, handle, protocol=pickle.HIGHEST_PROTOCOL)
+        with open(filename+'_equations.pickle', 'wb') as handle:
+            pickle.dump(equations, handle, protocol=pickle.HIGHEST_PROTOCOL)
         
         # Generate some static Fortran libraries for use in ODE solver
         # Here you have the option to use OpenMP for spreading caclualtions across available cores
-- 
2.43.0


From 5beb0457a65e5e746dce2ea5a74228298bc23dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:54 +0000
Subject: [PATCH 17/20] fix: compare species names by value

Whether water was scaled from ppb depended on string interning: a name read from a
pickle or a file was multiplied by the ppb factor.
---
 Aerosol/f2py/ODE_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Aerosol/f2py/ODE_solver.py b/Aerosol/f2py/ODE_solver.py
index 226affa..740aba0 100644
--- a/Aerosol/f2py/ODE_solver.py
+++ b/Aerosol/f2py/ODE_solver.py
@@ -213,9 +213,9 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
     # Define species concentrations in ppb fr the gas phase
     # You have already set this in the front end script, and now we populate the y array with those concentrations
     for specie in species_initial_conc.keys():
-        if specie is not 'H2O':
+        if specie != 'H2O':
             y0[species_dict2array[specie]]=species_initial_conc[specie]*Cfactor #convert from pbb to molcules/cc
-        elif specie is 'H2O':
+        elif specie == 'H2O':
             y0[species_dict2array[specie]]=species_initial_conc[specie]
 
     # Now add the initial condensed phase [including water]
-- 
2.43.0


From 4aebab3c49169afb47a7f76e7d20e0eb852fd50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:05 +0000
Subject: [PATCH 18/20] fix: do not reload an equation count the fixed-yield
 driver never has

There is no mechanism in the fixed-yield case; files_exist=True died with FileNotFoundError.
---
 Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py b/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py
index f682fa5..6d754dd 100644
--- a/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py
+++ b/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py
@@ -210,8 +210,6 @@ if __name__=='__main__':
             species_dict2array = pickle.load(f) 
         with open(filename+'_species_dict.pickle', 'rb') as f:
             species_dict = pickle.load(f) 
-        with open(filename+'_equations.pickle', 'rb') as f:
-            equations = pickle.load(f) 
         with open(filename+'_Pybel_object_dict.pickle', 'rb') as f:
             Pybel_object_dict= pickle.load(f) 
         with open(filename+'_SMILES_dict.pickle', 'rb') as f:
-- 
2.43.0


From aa359b7a4b33c5dbfb6b0a68575cb2e17109788c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:38 +0000
Subject: [PATCH 19/20] fix: keep the Fortran Jacobian within the free-form
 line length

Four terms of third-order reactions exceed 132 columns and do not compile; put one
term on a line.
---
 Parse_eqn_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index a7fd5d8..9554466 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2788,7 +2788,7 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                         reactants_list_loss_temp=list(set(reactants_list_loss_temp))
                         # Check if 'otherspecie' is in this reaction
                         if reactant in reactants_list_loss_temp:
-                            if equation_flag > 3: # this is just to ensure line length isnt a problem for Fortran compiler
+                            if equation_flag > 0: # this is just to ensure line length isnt a problem for Fortran compiler
                                 f.write(' & \n')
                                 f.write('    ')  
                                 equation_flag=0
@@ -2863,7 +2863,7 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                         reactants_list_gain_temp=[reactant for step, reactant in rate_dict_reactants[equation].items()]
                         reactants_list_gain_temp=list(set(reactants_list_gain_temp))
                         if reactant in reactants_list_gain_temp:
-                            if equation_flag > 3: # this is just to ensure line length isnt a problem for Fortran compiler
+                            if equation_flag > 0: # this is just to ensure line length isnt a problem for Fortran compiler
                                 f.write(' & \n')
                                 f.write('    ')  
                                 equation_flag=0
-- 
2.43.0


From 0976836bd45ce2a3d022311ea4cdba564e2f2a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:28 +0000
Subject: [PATCH 20/20] fix: leave the parsed rate table unchanged when
 converting it

---
 rate_coeff_conversion.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rate_coeff_conversion.py b/rate_coeff_conversion.py
index d1adafb..d895cd5 100644
--- a/rate_coeff_conversion.py
+++ b/rate_coeff_conversion.py
@@ -161,6 +161,8 @@ def convert_rate_mcm_numba(rate_dict):
 
     afterText = ['numba_abs','numba_sqrt','numba_log','numba_exp']
     new_rate_full=[]
+    # Work on a copy, so that the parsed table can still be converted for another back end
+    rate_dict=dict(rate_dict)
     for equation_step, rate_full in rate_dict.items():
         
         temp_text=rate_full
@@ -266,6 +268,8 @@ def convert_rate_mcm_fortran(rate_dict):
     afterText = ['ABS','SQRT','LOG','EXP']
 
     new_rate_full=[]
+    # Work on a copy, so that the parsed table can still be converted for another back end
+    rate_dict=dict(rate_dict)
     for equation_step, rate_full in rate_dict.items():
         
         temp_text=rate_full
-- 
2.43.0

