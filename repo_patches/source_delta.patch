From 4e9d0fdc8287a7aa0caa8c12368459929e796bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 01/24] fix: accumulate the gain of a product listed more than
 once in a reaction

The test looked the equation up under the last reactant instead of under the
product, so 'A = B + B' gained one B and 'A + B = B + C' lost C to a swallowed
KeyError.
---
 Parse_eqn_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index aa72dae..41aaedb 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -279,7 +279,7 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
                             species_hess_gain_data[product]=[]
                         species_hess_gain_data[product].append(equation_step) #so from this we can work out a dx/dy
                         # -- Update loss dictionaries -- 
-                        if equation_step in gain_dict[reactant]:
+                        if equation_step in gain_dict[product]:
                             gain_dict[product][equation_step]+=stoich
                         else:
                             gain_dict[product][equation_step]=stoich
-- 
2.43.0


From f53e02db63a1200c15f3cc26973ebf8b64a16caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 02/24] fix: keep the species name when a coefficient precedes
 a name with digits

'2NO2' was stored as species 'NO22' because the second number was appended to
text that already contained it.
---
 Parse_eqn_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 41aaedb..b1d1c7a 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -201,7 +201,7 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
                     #in temp[0] away from the original string. Lets assume that we can attach the first
                     #part of the text with the second number in temp. Thus
                     if reactant.index(stoich) == 0 :
-                        reactant=reactant.split(stoich,1)[1]+temp[1]
+                        reactant=reactant.split(stoich,1)[1]
                         stoich=float(stoich)
                     else:
                         stoich=1.0
@@ -258,7 +258,7 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
                             #in temp[0] away from the original string. Lets assume that we can attach the first
                             #part of the text with the second number in temp. Thus
                             if product.index(stoich) == 0 :
-                                product=product.split(stoich,1)[1]+temp[1]
+                                product=product.split(stoich,1)[1]
                                 stoich=float(stoich)
                             else:
                                 stoich=1.0
-- 
2.43.0


From 348634e37390746c3766c6f033b48c825cdc45fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:08 +0000
Subject: [PATCH 03/24] fix: accept a blank between a coefficient and its
 species

'2 NO2' kept only the text before the blank, so the reaction lost NO2 and a
species with an empty name appeared.
---
 Parse_eqn_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index b1d1c7a..e825382 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -140,9 +140,9 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
         equation_full=re.sub('\t','',equation_full)
         equation=equation_full.split(':',1)[0].split('=',1) #split the line into reactants and products
         reactants=equation[0].split('+') # extract content to the left of the previous split [reactants]
-        reactants= [x.strip(' ') for x in reactants] #strip away all whitespace
+        reactants= [''.join(x.split()) for x in reactants] #strip away all whitespace
         products=equation[1].split('+') # extract content to the right of the previous split [products]
-        products = [x.strip(' ') for x in products] #strip away all whitespace
+        products = [''.join(x.split()) for x in products] #strip away all whitespace
         #pdb.set_trace()
         #At the moment, we have not seperated the reactant/product from its stochiometric value
         ##rate_full=equation_full.split(':',1)[1].rsplit('\t',1)[1].split(';',1)[0] #pulls out the rate 
-- 
2.43.0


From 5711073263619ed9daeb0135594108f2c7734454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:26 +0000
Subject: [PATCH 04/24] fix: write a repeated reactant once in the reactant
 products

For 'A + A = ...' the summed stoichiometry 2 was written for both occurrences,
so the reaction rate used A**4 instead of A**2.
---
 Parse_eqn_file.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index e825382..9ebf496 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2148,10 +2148,11 @@ def write_reactants_indices(filename,equations,num_species,species_dict2array,ra
     reactants_indices=[]
     reactants_stoich_indices=[]
     for equation_step in range(equations):
-        reactants_indices.append([0]*len(rate_dict_reactants[equation_step].items()))
-        reactants_stoich_indices.append([0]*len(rate_dict_reactants[equation_step].items()))
+        unique_reactants=list(dict.fromkeys(rate_dict_reactants[equation_step].values()))
+        reactants_indices.append([0]*len(unique_reactants))
+        reactants_stoich_indices.append([0]*len(unique_reactants))
         step=0
-        for reactant_step, reactant in rate_dict_reactants[equation_step].items():
+        for reactant in unique_reactants:
             if reactant not in ['hv']:
                 stoich=loss_dict[reactant][equation_step]
                 reactants_indices[equation_step][step]=species_dict2array[reactant]
@@ -2213,7 +2214,8 @@ def write_reactants_indices(filename,equations,num_species,species_dict2array,ra
     #Get the required concentration products 
     for equation_step in range(equations):
         step=0
-        for reactant_step, reactant in rate_dict_reactants[equation_step].items():
+        # loss_dict holds the summed stoichiometry, so a repeated reactant is only written once
+        for reactant in dict.fromkeys(rate_dict_reactants[equation_step].values()):
             if reactant not in ['hv']:
                 stoich=loss_dict[reactant][equation_step]
                 if step==0:
@@ -2258,10 +2260,11 @@ def write_reactants_indices_fortran(filename,equations,species_dict2array,rate_d
     reactants_indices=[]
     reactants_stoich_indices=[]
     for equation_step in range(equations):
-        reactants_indices.append([0]*len(rate_dict_reactants[equation_step].items()))
-        reactants_stoich_indices.append([0]*len(rate_dict_reactants[equation_step].items()))
+        unique_reactants=list(dict.fromkeys(rate_dict_reactants[equation_step].values()))
+        reactants_indices.append([0]*len(unique_reactants))
+        reactants_stoich_indices.append([0]*len(unique_reactants))
         step=0
-        for reactant_step, reactant in rate_dict_reactants[equation_step].items():
+        for reactant in unique_reactants:
             if reactant not in ['hv']:
                 stoich=loss_dict[reactant][equation_step]
                 reactants_indices[equation_step][step]=species_dict2array[reactant]
@@ -2331,7 +2334,8 @@ def write_reactants_indices_fortran(filename,equations,species_dict2array,rate_d
         if openMP is True and equation_step in break_list:
             f.write('!$OMP END SINGLE NOWAIT\n') 
             f.write('!$OMP SINGLE \n') 
-        for reactant_step, reactant in rate_dict_reactants[equation_step].items():
+        # loss_dict holds the summed stoichiometry, so a repeated reactant is only written once
+        for reactant in dict.fromkeys(rate_dict_reactants[equation_step].values()):
             if reactant not in ['hv']:
                 stoich=loss_dict[reactant][equation_step]
                 if step==0:
-- 
2.43.0


From a1fd80aca427fc2c7ecb6c5b94d07ac11ff3f4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:26 +0000
Subject: [PATCH 05/24] fix: use the stoichiometric coefficient itself in the
 Fortran loss and gain

Coefficients other than 1 were written as stoich+1.
---
 Parse_eqn_file.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 9ebf496..583abf8 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2605,13 +2605,13 @@ def write_loss_gain_fortran(filename,equations,num_species,loss_dict,gain_dict,s
                             if stoich==1:
                                 f.write('-1.0*r(%s)'%(equation_step+1))
                             else:
-                                f.write('-1.0*r(%s)*%s'%(equation_step+1,stoich+1))
+                                f.write('-1.0*r(%s)*%s'%(equation_step+1,stoich))
                             loss_step+=1
                         else:
                             if stoich==1:
                                 f.write('-r(%s)'%(equation_step+1))
                             else:
-                                f.write('-r(%s)*%s'%(equation_step+1,stoich+1))
+                                f.write('-r(%s)*%s'%(equation_step+1,stoich))
                             loss_step+=1
                         flag+=1
                         
@@ -2628,13 +2628,13 @@ def write_loss_gain_fortran(filename,equations,num_species,loss_dict,gain_dict,s
                             if stoich==1:
                                 f.write('+r(%s)'%(equation_step+1))
                             else:
-                                f.write('+r(%s)*%s'%(equation_step+1,stoich+1))
+                                f.write('+r(%s)*%s'%(equation_step+1,stoich))
                             gain_step+=1
                         else:
                             if stoich==1:
                                 f.write('+r(%s)'%(equation_step+1))
                             else:
-                                f.write('+r(%s)*%s'%(equation_step+1,stoich+1))
+                                f.write('+r(%s)*%s'%(equation_step+1,stoich))
                             gain_step+=1
                         flag+=1
                         
-- 
2.43.0


From 0a26c63b6a851268d42641e9c6e1c2edd0ca5320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:26 +0000
Subject: [PATCH 06/24] fix: keep the loss of a species that is also a product
 in the sparse matrix

The gain overwrote the loss, so a catalyst got a net gain.
---
 Parse_eqn_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 583abf8..18c38c4 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2405,10 +2405,10 @@ def write_loss_gain_matrix(filename,equations,num_species,loss_dict,gain_dict,sp
             for equation_step, stoich in gain_dict[species].items():
                 if stoich==1:
                     #f.write('+r[%s]'%(equation_step))
-                    loss_gain[species_step,equation_step]=1.0
+                    loss_gain[species_step,equation_step]+=1.0
                 else:
                     #f.write('+r[%s]*%s'%(equation_step,stoich))
-                    loss_gain[species_step,equation_step]=1.0*stoich
+                    loss_gain[species_step,equation_step]+=1.0*stoich
                 
     #Now convert matrix type for use in numerical operations later
     loss_gain = loss_gain.tocsr()
-- 
2.43.0


From 98d2790c8ef5cf361c740e8e2f51b258d137240a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:26 +0000
Subject: [PATCH 07/24] fix: apply the stoichiometry of the row species in the
 gas phase Jacobian

d(dy_i/dt)/dy_j lacked the coefficient of species i, so rows were wrong for any
coefficient other than 1, and no term was written for a reactant coefficient
below 2 other than 1.
---
 Parse_eqn_file.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 18c38c4..e95ca9c 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2829,7 +2829,7 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                                                     step+=1
                                                 else:
                                                     f.write('*%s*y(%s)'%(stoich_first,species_dict2array[reactant2]+1))
-                                            elif stoich_first > 2:
+                                            else:
                                                 if step == 1:
                                                     f.write('-%s*y(%s)**%s'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
                                                     step+=1
@@ -2855,6 +2855,9 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                                 f.write('*r(%s)'%(equation+1))
                             elif step == 1:
                                 f.write('-1.0*r(%s)'%(equation+1))
+                            # the row scales with the stoichiometry of the row species itself
+                            if loss_dict[species][equation] != 1:
+                                f.write('*%s'%(loss_dict[species][equation]))
                             equation_flag+=1
                             
                 # Now repeat the above procedure but for reactions that lead to concentration gain    
@@ -2905,7 +2908,7 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                                                     step+=1
                                                 else:
                                                     f.write('*%s*y(%s)'%(stoich_first,species_dict2array[reactant2]+1))
-                                            elif stoich_first > 2:
+                                            else:
                                                 if step == 1:
                                                     f.write('+%s*y(%s)**%s'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
                                                     step+=1
@@ -2931,6 +2934,9 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                                 f.write('*r(%s)'%(equation+1))
                             elif step == 1:
                                 f.write('+1.0*r(%s)'%(equation+1))
+                            # the row scales with the stoichiometry of the row species itself
+                            if gain_dict[species][equation] != 1:
+                                f.write('*%s'%(gain_dict[species][equation]))
                             equation_flag+=1
 
 
@@ -3093,7 +3099,7 @@ def write_gas_jacobian_numba(filename,equations,num_species,loss_dict,gain_dict,
                                                     step+=1
                                                 else:
                                                     f.write('*%s*y[%s]'%(stoich_first,species_dict2array[reactant2]))
-                                            elif stoich_first > 2:
+                                            else:
                                                 if step == 1:
                                                     f.write('-%s*y[%s]**%s'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
                                                     step+=1
@@ -3119,6 +3125,9 @@ def write_gas_jacobian_numba(filename,equations,num_species,loss_dict,gain_dict,
                                 f.write('*r[%s]'%(equation))
                             elif step == 1:
                                 f.write('-1.0*r[%s]'%(equation))
+                            # the row scales with the stoichiometry of the row species itself
+                            if loss_dict[species][equation] != 1:
+                                f.write('*%s'%(loss_dict[species][equation]))
                             equation_flag+=1
                             
                 # Now repeat the above procedure but for reactions that lead to concentration gain    
@@ -3169,7 +3178,7 @@ def write_gas_jacobian_numba(filename,equations,num_species,loss_dict,gain_dict,
                                                     step+=1
                                                 else:
                                                     f.write('*%s*y[%s]'%(stoich_first,species_dict2array[reactant2]))
-                                            elif stoich_first > 2:
+                                            else:
                                                 if step == 1:
                                                     f.write('+%s*y[%s]**%s'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
                                                     step+=1
@@ -3195,6 +3204,9 @@ def write_gas_jacobian_numba(filename,equations,num_species,loss_dict,gain_dict,
                                 f.write('*r[%s]'%(equation))
                             elif step == 1:
                                 f.write('+1.0*r[%s]'%(equation))
+                            # the row scales with the stoichiometry of the row species itself
+                            if gain_dict[species][equation] != 1:
+                                f.write('*%s'%(gain_dict[species][equation]))
                             equation_flag+=1
 
 
-- 
2.43.0


From 246db4675d8095366f242148b852e5c8dea665e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:53 +0000
Subject: [PATCH 08/24] fix: apply every conversion to a rate expression and
 convert D0 exponents

Each pass of the loop restarted from the original text, so only the last
operation took effect: LOG, dlog, dsqrt and dabs stayed unconverted. The Numba
form also left exponents such as 1.0D0, which are not Python.
---
 rate_coeff_conversion.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rate_coeff_conversion.py b/rate_coeff_conversion.py
index beae9fe..5470e9c 100644
--- a/rate_coeff_conversion.py
+++ b/rate_coeff_conversion.py
@@ -80,8 +80,9 @@ def convert_rate_mcm(rate_dict):
     new_rate_full=[]
     for equation_step, rate_full in rate_dict.items():
         
+        temp_text=rate_full
         for operation in math_list:
-            temp_text=rate_full.replace(operation[0],operation[1])
+            temp_text=temp_text.replace(operation[0],operation[1])
         for syntax in map_list:
             temp_text=temp_text.replace(syntax[0],syntax[1])
 
@@ -146,6 +147,7 @@ def convert_rate_mcm_numba(rate_dict):
         ]
     map_list=[('D-','E-'),
         ('D+','E+'),
+        ('D0','E+0'),
         ('D1','E+1'),
         ('D2','E+2'),
         ('D3','E+3'),
@@ -161,8 +163,9 @@ def convert_rate_mcm_numba(rate_dict):
     new_rate_full=[]
     for equation_step, rate_full in rate_dict.items():
         
+        temp_text=rate_full
         for operation in math_list:
-            temp_text=rate_full.replace(operation[0],operation[1])
+            temp_text=temp_text.replace(operation[0],operation[1])
         for syntax in map_list:
             temp_text=temp_text.replace(syntax[0],syntax[1])
 
@@ -264,8 +267,9 @@ def convert_rate_mcm_fortran(rate_dict):
     new_rate_full=[]
     for equation_step, rate_full in rate_dict.items():
         
+        temp_text=rate_full
         for operation in math_list:
-            temp_text=rate_full.replace(operation[0],operation[1])
+            temp_text=temp_text.replace(operation[0],operation[1])
         for syntax in map_list:
             temp_text=temp_text.replace(syntax[0],syntax[1])
 
-- 
2.43.0


From 5e1a3a955f1cd85621cc1a4fc1fac14850e994ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:21 +0000
Subject: [PATCH 09/24] fix: correct the names of ten peroxy radicals in the
 RO2 list

A stray ')' or a comma inside the quotes kept them (HOCH2CO3 among them, in all
three mechanisms) out of the RO2 pool.
---
 Parse_eqn_file.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index e95ca9c..8bad76b 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -1786,7 +1786,7 @@ def write_RO2_indices(filename,species_dict2array):
     #The following is a list of species defined as contributing to total RO2 concetrations [old MCM]
     RO2_names = ['HOCH2CH2O2','HO1C3O2','HYPROPO2','IPROPOLO2','NBUTOLAO2','NBUTOLBO2','BUT2OLO2','IBUTOLBO2','IBUTOLCO2','TBUTOLO2','HO3C5O2', 
     'PE2ENEBO2','HM2C43O2','M2BUOL2O2','HM33C3O2','ME3BUOLO2','HO2M2C4O2','ME2BU2OLO2','PROL11MO2','H2M3C4O2','ME2BUOLO2','CYHEXOLAO2','MIBKAOHAO2',  
-    'MIBKAOHBO2','MIBKHO4O2','CH3CO3','NMBOAO2','NMBOBO2','MBOAO2','MBOBO2','CH3O2','HCOCH2O2','C2H5CO3','C2H5O2','C3H7CO3','BUTALO2','NC3H7O2','IPRCO3','IBUTALBO2,'
+    'MIBKAOHBO2','MIBKHO4O2','CH3CO3','NMBOAO2','NMBOBO2','MBOAO2','MBOBO2','CH3O2','HCOCH2O2','C2H5CO3','C2H5O2','C3H7CO3','BUTALO2','NC3H7O2','IPRCO3','IBUTALBO2',
     'IBUTALCO2','IC3H7O2','C4H9CO3','C4CHOBO2','NC4H9O2','ACO3','ACRO2','OCCOHCO2','CH3C2H2O2','MACO3','MACRO2','MACROHO2','C3DBCO3','C4CONO3O2','C4NO3COO2',
     'C4OCCOHCO2','COCCOH2CO2','SC4H9O2',  
     'IC4H9O2','TC4H9O2','PEAO2','PEBO2',  
@@ -1806,25 +1806,25 @@ def write_RO2_indices(filename,species_dict2array):
     'C4NO32M1O2','C4NO32M2O2','C4M3NO31O2',  
     'C4M3NO32O2','IPRCHOOA','ME3BU2OLO2',  
     'C4M2NO32O2','C4M2NO33O2','C65NO36O2',  
-    'C66NO35O2','C6OH5O2','HO5C6O2','C62NO33O2)', 
+    'C66NO35O2','C6OH5O2','HO5C6O2','C62NO33O2', 
     'C63NO32O2','C64OH5O2','C65OH4O2',  
     'C4ME2NO3O2','C4ME2OHO2','BZBIPERO2',  
     'C6H5CH2O2','TLBIPERO2','OXYLO2',  
     'OXYBIPERO2','MXYLO2','MXYBIPERO2','PXYLO2',  
     'PXYBIPERO2','C6H5C2H4O2','EBZBIPERO2',  
-    'PHC3O2','PBZBIPERO2','PHIC3O2','IPBZBIPRO2)',  
+    'PHC3O2','PBZBIPERO2','PHIC3O2','IPBZBIPRO2',  
     'TM123BO2','TM123BPRO2','TM124BO2',  
     'TM124BPRO2','TMBO2','TM135BPRO2','ETOLO2',  
     'OETLBIPRO2','METLBIPRO2','PETLBIPRO2',  
     'DM35EBO2','DMEBIPRO2','DE35TO2',  
     'DETLBIPRO2','NSTYRENO2','STYRENO2',  
     'C6H5CO3','C6H5O2','CH2CLO2','CHCL2O2',  
-    'CCL3O2','CCL3CH2O2','TCEOHO2','C2CL3OHAO2)',  
+    'CCL3O2','CCL3CH2O2','TCEOHO2','C2CL3OHAO2',  
     'C2CL3OHBO2','C2CL2OHO2','DICLETO2',  
     'CH2OHCL2O2','CL2OHCH2O2','CL12PRAO2',  
     'CL12PRBO2','CL12PRCO2','CH3CCL2O2',  
     'CHCL2CH2O2','CH2CLCH2O2','CH3CHCLO2',  
-    'CHCL2CL2O2','CH2CL3O2','CHCL3O2','CCLNO3O2)',  
+    'CHCL2CL2O2','CH2CL3O2','CHCL3O2','CCLNO3O2',  
     'CNO3CLO2','CCLOHCH2O2','CH2OHCCLO2',  
     'NBUTDAO2','NBUTDBO2','BUTDAO2','BUTDBO2',  
     'BUTDCO2','NISOPO2','ISOP34O2','CHOOCH2O2',  
@@ -1835,7 +1835,7 @@ def write_RO2_indices(filename,species_dict2array):
     'NBUACETCO2','SBUACETAO2','SBUACETBO2',  
     'MCOOTBO2','TBOCOCH2O2','CH3OCH2O2',  
     'DIETETO2','ETOC2O2','MTBEAO2','MTBEBO2',  
-    'DIIPRETO2','IPROMC2O2','ETBEAO2','ETBEBO2)',  
+    'DIIPRETO2','IPROMC2O2','ETBEAO2','ETBEBO2',  
     'ETBECO2','MO2EOLAO2','MO2EOLBO2',  
     'EOX2EOLAO2','EOX2EOLBO2','PR2OHMOXO2',  
     'H2C3OCO2','BOX2EOHAO2','BOX2EOHBO2',  
@@ -1852,13 +1852,13 @@ def write_RO2_indices(filename,species_dict2array):
     'LIMBO2','LIMCO2','NBCO2','BCAO2',  
     'BCBO2','BCCO2','DMMAO2','DMMBO2',  
     'DMCO2','CH3SCH2O2','HODMSO2','ETHOXO2',  
-    'BUT2CO3','C3ME3CO3','C3ME3CHOO2','HOCH2CO3)',  
+    'BUT2CO3','C3ME3CO3','C3ME3CHOO2','HOCH2CO3',  
     'CH3CHOHCO3','IPRHOCO3','IPRCHOO',  
     'BZEMUCCO3','BZEMUCO2','C5DIALO2','NPHENO2',  
     'PHENO2','CRESO2','NCRESO2','TLEMUCCO3',  
     'TLEMUCO2','C615CO2O2','OXYMUCCO3',  
     'OXYMUCO2','MC6CO2O2','NOXYOLO2','OXYOLO2',  
-    'MXYMUCCO3','MXYMUCO2','C726CO5O2','MXYOLO2)',  
+    'MXYMUCCO3','MXYMUCO2','C726CO5O2','MXYOLO2',  
     'NMXYOLO2','PXYMUCCO3','PXYMUCO2',  
     'C6M5CO2O2','NPXYOLO2','PXYOLO2','EBENZOLO2',  
     'NEBNZOLO2','EBZMUCCO3','EBZMUCO2',  
@@ -1871,7 +1871,7 @@ def write_RO2_indices(filename,species_dict2array):
     'TM124MUCO2','C7CO2M5O2','NTM135OLO2',  
     'TM135OLO2','TM135MUCO3','TM135MUCO2',  
     'C7M2CO5O2','OETLMUCCO3','OETLMUCO2',  
-    'MC7CO2O2','NOETOLO2','OETOLO2','METLMUCCO3)',  
+    'MC7CO2O2','NOETOLO2','OETOLO2','METLMUCCO3',  
     'METLMUCO2','C826CO3O2','METOLO2',  
     'NMETOLO2','PETLMUCCO3','PETLMUCO2',  
     'C7M6CO2O2','NPETOLO2','PETOLO2','DMEBMUCO3',  
-- 
2.43.0


From e301c56f304f57f8bdc79b45fd557c0f78c1ca5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:21 +0000
Subject: [PATCH 10/24] fix: save the RO2 indices as integers when a mechanism
 has no RO2

The empty list was saved as floats, which cannot index y in the ODE solvers.
---
 Parse_eqn_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 8bad76b..f795dab 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2124,7 +2124,7 @@ def write_RO2_indices(filename,species_dict2array):
         if name in species_dict2array:
             RO2_indices.append(species_dict2array[name])
             
-    np.save(filename+'_RO2_indices', RO2_indices)
+    np.save(filename+'_RO2_indices', np.array(RO2_indices,dtype=int))
     	
 def write_reactants_indices(filename,equations,num_species,species_dict2array,rate_dict_reactants,loss_dict):
 
-- 
2.43.0


From 63bd9de81e4d8497df4c6dd0e80bdac1f87672bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:48 +0000
Subject: [PATCH 11/24] fix: let the time of day advance from one batch to the
 next

Each batch restarts the solver at t=0, so the photolysis rates saw the same
batch_step seconds of the day over and over.
---
 Aerosol/f2py/ODE_solver.py | 2 +-
 ODE_solver.py              | 4 ++--
 f2py/ODE_solver.py         | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/Aerosol/f2py/ODE_solver.py b/Aerosol/f2py/ODE_solver.py
index 89a5372..fcb8981 100644
--- a/Aerosol/f2py/ODE_solver.py
+++ b/Aerosol/f2py/ODE_solver.py
@@ -69,7 +69,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
         
         #pdb.set_trace()
         # Calculate time of day
-        time_of_day_seconds=start_time+t
+        time_of_day_seconds=start_time+total_time+t # t restarts from 0 in every batch
         
         #pdb.set_trace()
         # make sure the y array is not a list. Assimulo uses lists
diff --git a/ODE_solver.py b/ODE_solver.py
index a338b9e..a60d96b 100644
--- a/ODE_solver.py
+++ b/ODE_solver.py
@@ -80,7 +80,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
         #pdb.set_trace()
         #Here we use the pre-created Numba based functions to arrive at our value for dydt
         # Calculate time of day
-        time_of_day_seconds=start_time+t
+        time_of_day_seconds=start_time+total_time+t # t restarts from 0 in every batch
 
         # make sure the y array is not a list. Assimulo uses lists
         y_asnumpy=numpy.array(y)
@@ -153,7 +153,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
 
         # Different solvers might call jacobian at different stages, so we have to redo some calculations here
         # Calculate time of day
-        time_of_day_seconds=start_time+t
+        time_of_day_seconds=start_time+total_time+t # t restarts from 0 in every batch
 
         # make sure the y array is not a list. Assimulo uses lists
         y_asnumpy=numpy.array(y)
diff --git a/f2py/ODE_solver.py b/f2py/ODE_solver.py
index 58679f6..5fba781 100644
--- a/f2py/ODE_solver.py
+++ b/f2py/ODE_solver.py
@@ -69,7 +69,7 @@ def run_simulation(filename, start_time, save_output, temp, RH, RO2_indices, H2O
 
         #pdb.set_trace()
         # Calculate time of day
-        time_of_day_seconds=start_time+t
+        time_of_day_seconds=start_time+total_time+t # t restarts from 0 in every batch
         
         # make sure the y array is not a list. Assimulo uses lists
         y_asnumpy=numpy.array(y)
@@ -110,7 +110,7 @@ def run_simulation(filename, start_time, save_output, temp, RH, RO2_indices, H2O
 
         # Different solvers might call jacobian at different stages, so we have to redo some calculations here 
         # Calculate time of day
-        time_of_day_seconds=start_time+t
+        time_of_day_seconds=start_time+total_time+t # t restarts from 0 in every batch
         
         # make sure the y array is not a list. Assimulo uses lists
         y_asnumpy=numpy.array(y)
-- 
2.43.0


From e730845873e6983b938fda80b9bb3ff067001422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:59 +0000
Subject: [PATCH 12/24] fix: size the simulation output for every batch that is
 run

The rows were rounded down while the loop ran until the time had passed, so a
run whose time is not a whole number of batches, or sums to just below it in
floating point (10 x 0.1 s), ended in an IndexError after the last batch.
---
 Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py | 9 +++++----
 Aerosol/f2py/ODE_solver.py                        | 9 +++++----
 ODE_solver.py                                     | 9 +++++----
 f2py/ODE_solver.py                                | 9 +++++----
 4 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py b/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
index ce71d93..6435b09 100644
--- a/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
+++ b/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
@@ -206,7 +206,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, H2O, PInit, y_co
     # the batch step change for increased speed
     t_array=[]
     time_step=0
-    number_steps=int(simulation_time/batch_step) # Just cycling through 3 steps to get to a solution
+    number_steps=int(numpy.ceil(round(simulation_time/batch_step,9))) # Just cycling through 3 steps to get to a solution
     
     # Define a matrix that stores values as outputs from the end of each batch step. Again, you can remove
     # the need to run in batches. You can tell the Assimulo solvers the frequency of outputs.
@@ -218,7 +218,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, H2O, PInit, y_co
     print("Starting simulation")
 
     # In the following, we can 
-    while total_time < simulation_time:
+    while time_step < number_steps:
         
         if total_time == 0.0:
             #Define an Assimulo problem
@@ -249,8 +249,9 @@ def run_simulation(filename, save_output, start_time, temp, RH, H2O, PInit, y_co
         exp_sim.report_continuously = True
         exp_sim.maxncf = 1000
         #Sets the parameters        
-        t_output, y_output = exp_sim.simulate(batch_step) #Simulate 'batch' seconds
-        total_time+=batch_step
+        step_time=min(batch_step,simulation_time-total_time) # the last batch may be shorter
+        t_output, y_output = exp_sim.simulate(step_time) #Simulate 'batch' seconds
+        total_time+=step_time
         t_array.append(total_time) # Save the output from the end step, of the current batch, to a matrix
         y_matrix[time_step,:]=y_output[-1,:]
         SOA_matrix[time_step,0]=dydt_func.total_SOA_mass
diff --git a/Aerosol/f2py/ODE_solver.py b/Aerosol/f2py/ODE_solver.py
index fcb8981..3b85cce 100644
--- a/Aerosol/f2py/ODE_solver.py
+++ b/Aerosol/f2py/ODE_solver.py
@@ -246,7 +246,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
     # batch_step=300.0
     t_array=[]
     time_step=0
-    number_steps=int(simulation_time/batch_step) # Just cycling through 3 steps to get to a solution
+    number_steps=int(numpy.ceil(round(simulation_time/batch_step,9))) # Just cycling through 3 steps to get to a solution
     
     # Define a matrix that stores values as outputs from the end of each batch step. Again, you can remove
     # the need to run in batches. You can tell the Assimulo solvers the frequency of outputs.
@@ -258,7 +258,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
     print("Starting simulation")
 
     # In the following, we can 
-    while total_time < simulation_time:
+    while time_step < number_steps:
         
         if total_time == 0.0:
             #Define an Assimulo problem
@@ -289,8 +289,9 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
         exp_sim.report_continuously = True
         exp_sim.maxncf = 1000
         #Sets the parameters        
-        t_output, y_output = exp_sim.simulate(batch_step) #Simulate 'batch' seconds
-        total_time+=batch_step
+        step_time=min(batch_step,simulation_time-total_time) # the last batch may be shorter
+        t_output, y_output = exp_sim.simulate(step_time) #Simulate 'batch' seconds
+        total_time+=step_time
         t_array.append(total_time) # Save the output from the end step, of the current batch, to a matrix
         y_matrix[time_step,:]=y_output[-1,:]
         SOA_matrix[time_step,0]=dydt_func.total_SOA_mass
diff --git a/ODE_solver.py b/ODE_solver.py
index a60d96b..df3a7bc 100644
--- a/ODE_solver.py
+++ b/ODE_solver.py
@@ -226,7 +226,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
     # batch_step=100.0 # seconds
     t_array=[]
     time_step=0
-    number_steps=int(simulation_time/batch_step) # Just cycling through 3 steps to get to a solution
+    number_steps=int(numpy.ceil(round(simulation_time/batch_step,9))) # Just cycling through 3 steps to get to a solution
 
     # Define a matrix that stores values as outputs from the end of each batch step. Again, you can remove
     # the need to run in batches. You can tell the Assimulo solvers the frequency of outputs.
@@ -236,7 +236,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
 
     #pdb.set_trace()
 
-    while total_time < simulation_time:
+    while time_step < number_steps:
 
         if total_time == 0.0:
             #Define an Assimulo problem
@@ -268,8 +268,9 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
         exp_sim.report_continuously = True
         exp_sim.maxncf = 1000
         #Sets the parameters
-        t_output, y_output = exp_sim.simulate(batch_step) #Simulate 'batch' seconds
-        total_time+=batch_step
+        step_time=min(batch_step,simulation_time-total_time) # the last batch may be shorter
+        t_output, y_output = exp_sim.simulate(step_time) #Simulate 'batch' seconds
+        total_time+=step_time
         t_array.append(total_time) # Save the output from the end step, of the current batch, to a matrix
         y_matrix[time_step,:]=y_output[-1,:]
 
diff --git a/f2py/ODE_solver.py b/f2py/ODE_solver.py
index 5fba781..96f99a9 100644
--- a/f2py/ODE_solver.py
+++ b/f2py/ODE_solver.py
@@ -172,7 +172,7 @@ def run_simulation(filename, start_time, save_output, temp, RH, RO2_indices, H2O
     #batch_step=100.0
     t_array=[]
     time_step=0
-    number_steps=int(simulation_time/batch_step) # Just cycling through 3 steps to get to a solution
+    number_steps=int(numpy.ceil(round(simulation_time/batch_step,9))) # Just cycling through 3 steps to get to a solution
     
     # Define a matrix that stores values as outputs from the end of each batch step. Again, you can remove
     # the need to run in batches. You can tell the Assimulo solvers the frequency of outputs.
@@ -181,7 +181,7 @@ def run_simulation(filename, start_time, save_output, temp, RH, RO2_indices, H2O
     print("Starting simulation")
 
     # In the following, we can 
-    while total_time < simulation_time:
+    while time_step < number_steps:
         
         if total_time == 0.0:
             #Define an Assimulo problem
@@ -213,8 +213,9 @@ def run_simulation(filename, start_time, save_output, temp, RH, RO2_indices, H2O
         exp_sim.report_continuously = True
         exp_sim.maxncf = 1000
         #Sets the parameters        
-        t_output, y_output = exp_sim.simulate(batch_step) #Simulate 'batch' seconds
-        total_time+=batch_step
+        step_time=min(batch_step,simulation_time-total_time) # the last batch may be shorter
+        t_output, y_output = exp_sim.simulate(step_time) #Simulate 'batch' seconds
+        total_time+=step_time
         t_array.append(total_time) # Save the output from the end step, of the current batch, to a matrix
         y_matrix[time_step,:]=y_output[-1,:]
                 
-- 
2.43.0


From d997e97a1ffc11697f77e5af3aba54084c8242dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:48 +0000
Subject: [PATCH 13/24] fix: keep the slice bounds of a size bin private to its
 thread

---
 Parse_eqn_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index f795dab..d4e5d39 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -3547,7 +3547,7 @@ def write_partitioning_section_fortran_ignore(total_length_y,num_bins,num_specie
     f.write('    dy_dt(:)=0.0D0 \n') 
     f.write('\n')     
     f.write('!$OMP PARALLEL DO &\n') 
-    f.write('!$OMP& PRIVATE(size_step,total_mass),& \n') 
+    f.write('!$OMP& PRIVATE(size_step,total_mass,index1,index2),& \n') 
     f.write('!$OMP& PRIVATE(total_moles,y_mole_fractions,temp_array), & \n') 
     f.write('!$OMP& PRIVATE(mass_array,mass_fractions_array,density_array), & \n') 
     f.write('!$OMP& PRIVATE(density,water_moles), & \n') 
-- 
2.43.0


From 093d6f046b29fb459cbf0db484b6f7c322181112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:48 +0000
Subject: [PATCH 14/24] fix: sum the condensed water over size bins without a
 data race

---
 Parse_eqn_file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index d4e5d39..f1e0894 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -3533,6 +3533,7 @@ def write_partitioning_section_fortran_ignore(total_length_y,num_bins,num_specie
     f.write('    INTEGER(8), PARAMETER :: num_species_condensed = %s \n'%(num_species_condensed))   
     f.write('    !Set all output variables to 0 \n') 
     f.write('    total_SOA_mass_array(:)=0.0D0 \n') 
+    f.write('    total_water_cond_mass=0.0D0 \n') 
     f.write('    dy_dt_gas_matrix(:,:)=0.0D0 \n') 
     f.write('    Pressure_eq(:)=0.0D0 \n') 
     f.write('    Cstar_i_m_t(:)=0.0D0 \n') 
@@ -3555,7 +3556,8 @@ def write_partitioning_section_fortran_ignore(total_length_y,num_bins,num_specie
     f.write('!$OMP& PRIVATE(Correction_part3,Correction,kelvin_factor), & \n') 
     f.write('!$OMP& PRIVATE(Pressure_eq,Cstar_i_m_t,k_i_m_t_part1), & \n') 
     f.write('!$OMP& PRIVATE(k_i_m_t,dm_dt), & \n') 
-    f.write('!$OMP& SHARED(total_water_cond_mass,size_array), & \n') 
+    f.write('!$OMP& REDUCTION(+:total_water_cond_mass), & \n') 
+    f.write('!$OMP& SHARED(size_array), & \n') 
     f.write('!$OMP& SHARED(ycore,core_diss,mw_array,density_input), & \n') 
     f.write('!$OMP& SHARED(C_g_i_t,dy_dt,core_mass_array,R_gas,Psat), & \n') 
     f.write('!$OMP& SHARED(gamma_gas,NA,alpha_d_org,Model_temp,DStar_org), & \n') 
-- 
2.43.0


From 7f2092fad66470182f72d1dccd725f193033beb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:48 +0000
Subject: [PATCH 15/24] fix: define the photolysis rates that have no
 parameterisation in Fortran

---
 Parse_eqn_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index f1e0894..2a1e8cf 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -1430,6 +1430,7 @@ def write_rate_file_fortran(filename,rate_dict_fortran,openMP):
     f.write('      secx = 1.0 / cosx \n')
     f.write('    end if \n')
     f.write('\n') 
+    f.write('    J(:)=0.0\n') 
     f.write('    J(1)=6.073E-05*cosx**(1.743)*EXP(-1.0*0.474*secx)\n') 
     f.write('    J(2)=4.775E-04*cosx**(0.298)*EXP(-1.0*0.080*secx)\n') 
     f.write('    J(3)=1.041E-05*cosx**(0.723)*EXP(-1.0*0.279*secx)\n') 
-- 
2.43.0


From f075a40055b6be928c98355aecdc5f3cadf26414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:48 +0000
Subject: [PATCH 16/24] fix: do not give a species without SMILES that of
 another species

---
 Parse_eqn_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 2a1e8cf..6639ba1 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -342,6 +342,7 @@ def extract_smiles_species(output_dict, SMILES_filename):
                     species_SMILES=re.search(r'<smiles>(.*?)</smiles>',node.getElementsByTagName('smiles').item(0).toxml()).group(1)
                 except:
                     print('No SMILES entry for species ',species_name)
+                    continue
                 SMILES_dict[species_name]=species_SMILES
                 Pybel_object=pybel.readstring('smi',species_SMILES)
                 Pybel_object_dict[species_SMILES]=Pybel_object
-- 
2.43.0


From af49d4b3acc579d893f0448160f20cf2ec94258d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:25 +0000
Subject: [PATCH 17/24] fix: recognise the H2O initial concentration by value,
 not by identity

---
 Aerosol/f2py/ODE_solver.py         | 4 ++--
 Aerosol/f2py/ODE_solver_opsplit.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Aerosol/f2py/ODE_solver.py b/Aerosol/f2py/ODE_solver.py
index 3b85cce..02c2996 100644
--- a/Aerosol/f2py/ODE_solver.py
+++ b/Aerosol/f2py/ODE_solver.py
@@ -213,9 +213,9 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
     # Define species concentrations in ppb fr the gas phase
     # You have already set this in the front end script, and now we populate the y array with those concentrations
     for specie in species_initial_conc.keys():
-        if specie is not 'H2O':
+        if specie != 'H2O':
             y0[species_dict2array[specie]]=species_initial_conc[specie]*Cfactor #convert from pbb to molcules/cc
-        elif specie is 'H2O':
+        elif specie == 'H2O':
             y0[species_dict2array[specie]]=species_initial_conc[specie]
 
     # Now add the initial condensed phase [including water]
diff --git a/Aerosol/f2py/ODE_solver_opsplit.py b/Aerosol/f2py/ODE_solver_opsplit.py
index 345fa48..40cd07f 100644
--- a/Aerosol/f2py/ODE_solver_opsplit.py
+++ b/Aerosol/f2py/ODE_solver_opsplit.py
@@ -200,9 +200,9 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
     # Define species concentrations in ppb fr the gas phase
     # You have already set this in the front end script, and now we populate the y array with those concentrations
     for specie in species_initial_conc.keys():
-        if specie is not 'H2O':
+        if specie != 'H2O':
             y0[species_dict2array[specie]]=species_initial_conc[specie]*Cfactor #convert from pbb to molcules/cc
-        elif specie is 'H2O':
+        elif specie == 'H2O':
             y0[species_dict2array[specie]]=species_initial_conc[specie]
 
     # Now add the initial condensed phase [including water]
-- 
2.43.0


From 6fe5db3d7db6b0fea1315e36c50a6ec774c82ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:25 +0000
Subject: [PATCH 18/24] fix: save the number of equations that an aerosol run
 with files_exist loads

---
 Aerosol/f2py/Aerosol_simulation_f2py.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Aerosol/f2py/Aerosol_simulation_f2py.py b/Aerosol/f2py/Aerosol_simulation_f2py.py
index a39b786..d6583f5 100644
--- a/Aerosol/f2py/Aerosol_simulation_f2py.py
+++ b/Aerosol/f2py/Aerosol_simulation_f2py.py
@@ -208,6 +208,8 @@ if __name__=='__main__':
         #    pickle.dump(property_dict1, handle, protocol=pickle.HIGHEST_PROTOCOL)
         #with open(filename+'_property_dict2.pickle', 'wb') as handle:
         #    pickle.dump(property_dict2, handle, protocol=pickle.HIGHEST_PROTOCOL)
+        with open(filename+'_equations.pickle', 'wb') as handle:
+            pickle.dump(equations, handle, protocol=pickle.HIGHEST_PROTOCOL)
         with open(filename+'_num_species_gas.pickle', 'wb') as handle:
             pickle.dump(num_species, handle, protocol=pickle.HIGHEST_PROTOCOL)
         
-- 
2.43.0


From 4b437c64e3dd92c679f1c3b644523d63d030d625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:47 +0000
Subject: [PATCH 19/24] fix: let a fixed yield run reuse the files of an
 earlier one

---
 Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py b/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py
index f682fa5..ec4b7e7 100644
--- a/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py
+++ b/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py
@@ -193,7 +193,8 @@ if __name__=='__main__':
         with open(filename+'_num_species_gas.pickle', 'wb') as handle:
             pickle.dump(num_species, handle, protocol=pickle.HIGHEST_PROTOCOL)
         with open(filename+'concentration_dict.pickle', 'wb') as handle:
-            pickle.dump(concentration_dict, handle, protocol=pickle.HIGHEST_PROTOCOL)
+            # by SMILES, since the Pybel objects used as keys are not the same ones when loaded again
+            pickle.dump({smiles: concentration_dict[Pybel_object] for smiles, Pybel_object in Pybel_object_dict.items()}, handle, protocol=pickle.HIGHEST_PROTOCOL)
         
         # Generate some static Fortran libraries for use in ODE solver
         # Here you have the option to use OpenMP for spreading caclualtions across available cores
@@ -210,8 +211,6 @@ if __name__=='__main__':
             species_dict2array = pickle.load(f) 
         with open(filename+'_species_dict.pickle', 'rb') as f:
             species_dict = pickle.load(f) 
-        with open(filename+'_equations.pickle', 'rb') as f:
-            equations = pickle.load(f) 
         with open(filename+'_Pybel_object_dict.pickle', 'rb') as f:
             Pybel_object_dict= pickle.load(f) 
         with open(filename+'_SMILES_dict.pickle', 'rb') as f:
@@ -223,7 +222,8 @@ if __name__=='__main__':
         with open(filename+'_num_species_gas.pickle', 'rb') as f:
             num_species= pickle.load(f) 
         with open(filename+'concentration_dict.pickle', 'rb') as f:
-            concentration_dict= pickle.load(f) 
+            concentration_smiles= pickle.load(f) 
+        concentration_dict={Pybel_object_dict[smiles]: concentration for smiles, concentration in concentration_smiles.items()}
             
         print("Calculating properties that dictate gas-to-particle partitioning")
         property_dict1=Property_calculation.Pure_component1(num_species,species_dict,
-- 
2.43.0


From 4f03db82d2df1d263cb9ce75a3ebe0040ac05e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:07 +0000
Subject: [PATCH 20/24] fix: keep lines of the generated Fortran Jacobian
 within the 132-column limit

---
 Parse_eqn_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 6639ba1..b82cff4 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2792,7 +2792,7 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                         reactants_list_loss_temp=list(set(reactants_list_loss_temp))
                         # Check if 'otherspecie' is in this reaction
                         if reactant in reactants_list_loss_temp:
-                            if equation_flag > 3: # this is just to ensure line length isnt a problem for Fortran compiler
+                            if equation_flag > 0: # this is just to ensure line length isnt a problem for Fortran compiler
                                 f.write(' & \n')
                                 f.write('    ')  
                                 equation_flag=0
@@ -2868,7 +2868,7 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                         reactants_list_gain_temp=[reactant for step, reactant in rate_dict_reactants[equation].items()]
                         reactants_list_gain_temp=list(set(reactants_list_gain_temp))
                         if reactant in reactants_list_gain_temp:
-                            if equation_flag > 3: # this is just to ensure line length isnt a problem for Fortran compiler
+                            if equation_flag > 0: # this is just to ensure line length isnt a problem for Fortran compiler
                                 f.write(' & \n')
                                 f.write('    ')  
                                 equation_flag=0
-- 
2.43.0


From 2dce410739a9f0d4ade3c6f0334d4bcf5b79efdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:47 +0000
Subject: [PATCH 21/24] fix: keep lines of the generated Fortran loss and gain
 terms within the 132-column limit

---
 Parse_eqn_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index b82cff4..2317e7d 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2599,7 +2599,7 @@ def write_loss_gain_fortran(filename,equations,num_species,loss_dict,gain_dict,s
                 if species in loss_dict.keys():
                     loss_step=0
                     for equation_step, stoich in loss_dict[species].items():
-                        if flag > 4:
+                        if flag > 1:
                             f.write(' & \n')
                             f.write('    ')
                             flag=0
@@ -2622,7 +2622,7 @@ def write_loss_gain_fortran(filename,equations,num_species,loss_dict,gain_dict,s
                     gain_step=0
                             
                     for equation_step, stoich in gain_dict[species].items():
-                        if flag > 4:
+                        if flag > 1:
                             f.write(' & \n')
                             f.write('    ')
                             flag=0
-- 
2.43.0


From f53f945e8dc1349ccc6f010dd18b6e1da837b689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:33 +0000
Subject: [PATCH 22/24] fix: aerosol runs without a vapour pressure cut-off
 failed when a species has no structure

---
 Aerosol/f2py/Aerosol_simulation_f2py.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/Aerosol/f2py/Aerosol_simulation_f2py.py b/Aerosol/f2py/Aerosol_simulation_f2py.py
index d6583f5..ffad9e7 100644
--- a/Aerosol/f2py/Aerosol_simulation_f2py.py
+++ b/Aerosol/f2py/Aerosol_simulation_f2py.py
@@ -284,7 +284,7 @@ if __name__=='__main__':
     #-------------------------------------------------------------------------------------    
     # 5) Modify property arrays to include water as partitioning component
     #-------------------------------------------------------------------------------------
-    # Load previously calculated values, and shave off components IF ignore_vp is True
+    # Load previously calculated values, and shave off components that do not partition
     y_density_array=property_dict1['y_density_array']
     y_mw=property_dict1['y_mw']
     sat_vp=property_dict1['sat_vp']
@@ -294,12 +294,12 @@ if __name__=='__main__':
     ignore_index_fortran=property_dict1['ignore_index_fortran'] 
     include_index=sorted(property_dict1['include_index']) # This is an array that captures compounds to be included in the partitioning calculations
     #pdb.set_trace()
-    if ignore_vp is True: # Remove those comounds for which there is no vapour pressure data OR are too volatile 
-        y_density_array=numpy.array(y_density_array)[include_index].tolist()
-        y_mw=numpy.array(y_mw)[include_index].tolist()
-        sat_vp=numpy.array(sat_vp)[include_index].tolist()
-        Delta_H=numpy.array(Delta_H)[include_index].tolist()
-        Latent_heat_gas=numpy.array(Latent_heat_gas)[include_index].tolist()
+    # Remove those compounds for which there is no structure to partition with OR, if ignore_vp is True, are too volatile
+    y_density_array=numpy.array(y_density_array)[include_index].tolist()
+    y_mw=numpy.array(y_mw)[include_index].tolist()
+    sat_vp=numpy.array(sat_vp)[include_index].tolist()
+    Delta_H=numpy.array(Delta_H)[include_index].tolist()
+    Latent_heat_gas=numpy.array(Latent_heat_gas)[include_index].tolist()
         
     
     sat_vap_water = numpy.exp((-0.58002206E4 / temp) + 0.13914993E1 - (0.48640239E-1 * temp) + (0.41764768E-4 * (temp**2.0E0))- (0.14452093E-7 * (temp**3.0E0)) + (0.65459673E1 * numpy.log(temp)))
-- 
2.43.0


From 5e2d397f03cee814bd1387e9b7d2bfc0ac220a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:10 +0000
Subject: [PATCH 23/24] fix: draw the condensed phase of a fixed yield run in
 which some compounds do not condense

---
 Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py | 2 +-
 Aerosol/f2py/Fixed_yield/Plotting.py              | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py b/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
index 6435b09..85fb64e 100644
--- a/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
+++ b/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
@@ -297,7 +297,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, H2O, PInit, y_co
     #In a future release I will add this as a seperate module
     if with_plots:
         try:
-            Plotting.stacked_bar(t_array,y_matrix,num_species_condensed,num_bins,numpy.array(y_mw[include_index]),NA)
+            Plotting.stacked_bar(t_array,y_matrix,num_species_condensed,num_bins,numpy.array(y_mw),NA)
         except:
             print("There is a problem using Matplotlib in your environment. If using this within a docker container, you will need to transfer the data to the host or configure your container to enable graphical displays. More information can be found at http://wiki.ros.org/docker/Tutorials/GUI ")
         
\ No newline at end of file
diff --git a/Aerosol/f2py/Fixed_yield/Plotting.py b/Aerosol/f2py/Fixed_yield/Plotting.py
index 883c19b..d1f8e97 100644
--- a/Aerosol/f2py/Fixed_yield/Plotting.py
+++ b/Aerosol/f2py/Fixed_yield/Plotting.py
@@ -56,11 +56,13 @@ def stacked_bar(time,y_matrix,num_species, num_bins,molw_asnumpy,NA):
         y_norm_matrix=np.zeros((num_species-1,num_bins),)
         y_cummulative=np.zeros((1,num_bins),)
         
+        first=len(y_asnumpy)-num_species*num_bins # the gas phase may hold compounds that do not condense
+
         for size in range(num_bins):
         
             size+=1
             #The following produces g/cc - thus *1.0e12 to get to micrograms/m3
-            y_mass_array=np.multiply(y_asnumpy[num_species+((size-1)*num_species):num_species+((size)*num_species),]/NA,molw_asnumpy)*1.0e12
+            y_mass_array=np.multiply(y_asnumpy[first+((size-1)*num_species):first+((size)*num_species),]/NA,molw_asnumpy)*1.0e12
             y_mass_array[np.where(y_mass_array<0.0)]=0.0
             #We need to now take this information as a transpose and populate a new matrix of concentrations
             #Recall the last entry is water so we can ignore.
-- 
2.43.0


From c87f752e5618181b8effcfbe282c34e948d869cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:04 +0000
Subject: [PATCH 24/24] fix: water that a mechanism lists had no concentration
 in the gas phase chemistry of aerosol runs

---
 Aerosol/f2py/ODE_solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Aerosol/f2py/ODE_solver.py b/Aerosol/f2py/ODE_solver.py
index 02c2996..2a26ab1 100644
--- a/Aerosol/f2py/ODE_solver.py
+++ b/Aerosol/f2py/ODE_solver.py
@@ -217,6 +217,10 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
             y0[species_dict2array[specie]]=species_initial_conc[specie]*Cfactor #convert from pbb to molcules/cc
         elif specie == 'H2O':
             y0[species_dict2array[specie]]=species_initial_conc[specie]
+            # A mechanism that lists water has an entry of its own for it, used in the gas phase chemistry
+            for step in species_dict.keys():
+                if species_dict[step] == 'H2O':
+                    y0[step]=species_initial_conc[specie]
 
     # Now add the initial condensed phase [including water]
     #pdb.set_trace()
-- 
2.43.0

