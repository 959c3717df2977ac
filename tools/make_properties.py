"""Writes properties.jsonl; kept as code so that the wording, the anchors and the manifest stay in step."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": None}})


ONE = "The suite runs one mechanism (MCM_APINENE) at one state and compares with stored arrays; "

prop("C01", "Parsing keeps every reaction of the mechanism file exactly",
     "For every mechanism file in the KPP/MCM format, the parsed model has one equation per reaction line, in file order, with exactly the written reactants, products, stoichiometric coefficients and rate expression, and one species index per distinct species name. Repeated species in a reaction count with the sum of their coefficients, names that contain or begin like others stay distinct, and comments, declarations and the photolysis marker hv add nothing.",
     ["inputs", "programs"], "every mechanism: any number of reactions and species, integer, fractional and repeated coefficients, names with digits, coefficients with or without a blank",
     ONE + "no test reads the parsed dictionaries, and that mechanism has no fractional reactant coefficients, repeated products or awkward names.",
     ["Parse_eqn_file.py"], [("regular expressions that split a line into reactants, products and rate", "Parse_eqn_file.py:extract_mechanism"), ("accumulation into loss_dict, gain_dict, rate_dict_reactants, stoich_dict", "Parse_eqn_file.py:extract_mechanism")],
     ["dictionary returned by extract_mechanism"])
prop("C02", "How a mechanism file is laid out does not change the model",
     "Two mechanism files that state the same reactions give models with the same rates of change for every state, however the lines are spaced, wrapped, numbered, commented or terminated, and whether a coefficient is written as 2 A, 2A or A + A. Reordering the reactions only renumbers equations and species.",
     ["inputs", "programs"], "every mechanism and every equivalent presentation of it",
     ONE + "one file in one layout cannot show that another layout of it gives the same model.",
     ["Parse_eqn_file.py"], [("comment and white space removal, concatenation of lines, coefficient parsing", "Parse_eqn_file.py:extract_mechanism")],
     ["dictionary returned by extract_mechanism", "generated numba functions"])
prop("C03", "Numba rate coefficients equal the expressions in the mechanism file",
     "For every mechanism, temperature, water vapour, RO2 concentration and time of day, the generated numba function returns for each reaction the value of the rate expression written on its line, under ordinary arithmetic precedence. This includes the MCM functions and symbols (EXP, LOG10, **, D exponents, TEMP, M, N2, O2, H2O, RO2, J(n), KMT, KDEC and the other named coefficients).",
     ["inputs", "programs"], "all rate expressions of the mechanism language, all physical environments (200-330 K, day and night)",
     ONE + "expressions with other operators, precedence or environments are never evaluated.",
     ["rate_coeff_conversion.py", "Parse_eqn_file.py"], [("textual conversion of rate expressions", "rate_coeff_conversion.py:convert_rate_mcm_numba"), ("module writer", "Parse_eqn_file.py:write_rate_file_numba")],
     ["return value of the generated evaluate_rates"])
prop("C04", "Fortran rate coefficients equal the file's expressions and the numba ones",
     "For every mechanism and environment the generated Fortran rate routine returns, for each reaction, the value of the rate expression in the mechanism file, to single precision of its literals. It thereby agrees with the numba model of the same mechanism.",
     ["inputs", "programs"], "all rate expressions of the mechanism language, all physical environments, with and without OpenMP",
     ONE + "the Fortran rates are compared with one stored vector only.",
     ["rate_coeff_conversion.py", "Parse_eqn_file.py"], [("textual conversion to Fortran", "rate_coeff_conversion.py:convert_rate_mcm_fortran"), ("Fortran writer", "Parse_eqn_file.py:write_rate_file_fortran")],
     ["output of the compiled evaluate_rates"])
prop("C05", "Named MCM rate coefficients have their published values in both backends",
     "For every temperature, every simple and complex named coefficient of the Master Chemical Mechanism that a mechanism may use (KRO2NO, KAPHO2, KMT01-KMT18, KFPAN, KBPAN, KRO2HO2, ...) has the value of its published formula. The numba and the Fortran backend give the same values.",
     ["inputs", "configurations"], "all temperatures from 200 to 330 K and all H2O, O2, N2 and M dependences, both backends",
     ONE + "at one temperature, and only coefficients this mechanism uses contribute.",
     ["Parse_eqn_file.py"], [("coefficient block of the writers", "Parse_eqn_file.py:write_rate_file_numba"), ("coefficient block of the Fortran writer", "Parse_eqn_file.py:write_rate_file_fortran")],
     ["rates of a mechanism whose reactions are the named coefficients"])
prop("C06", "Photolysis rates follow the sun and the MCM parameterisation",
     "For every time of day the photolysis rates J(n) equal the published l cos(sza)^m exp(-n sec(sza)) parameterisation for the model's date and place while the sun is up, and are zero while it is down. They are never negative or undefined, repeat every 24 hours, and both backends agree.",
     ["inputs", "configurations"], "all times of day, sunrise and sunset included, all J numbers, both backends",
     ONE + "at noon only; night, dawn and the other indices are never run.",
     ["Parse_eqn_file.py"], [("solar zenith angle and J table", "Parse_eqn_file.py:write_rate_file_numba"), ("the same in Fortran", "Parse_eqn_file.py:write_rate_file_fortran")],
     ["rates of photolysis reactions"])
prop("C07", "Reactant products follow mass action in every generated form",
     "For every mechanism and every non-negative state, each reaction's reactant product is the product of its reactants' concentrations raised to their stoichiometric coefficients, in both the numba and the Fortran form. A reactant listed several times counts as often as it is listed, and a photolysis reaction uses only its photolysed species.",
     ["inputs", "programs"], "all mechanisms, all non-negative states including zeros, both backends",
     ONE + "with first powers almost everywhere.",
     ["Parse_eqn_file.py"], [("index lists for numba", "Parse_eqn_file.py:write_reactants_indices"), ("Fortran writer", "Parse_eqn_file.py:write_reactants_indices_fortran")],
     ["generated reactants functions"])
prop("C08", "Tendencies are net stoichiometry times reaction rates",
     "For every mechanism and reaction rate vector, the rate of change of each species is the sum over reactions of its product minus reactant coefficients times the rate, in the sparse-matrix form and in the Fortran form. Species whose concentrations the model prescribes (AIR, H2O, O2, hv) have no tendency, and a species on both sides of a reaction changes by its net coefficient.",
     ["inputs", "programs"], "all mechanisms, including fractional, repeated and two-sided species, and all rate vectors, both forms",
     ONE + "where fractional losses, repeated products and species on both sides hardly occur.",
     ["Parse_eqn_file.py"], [("sparse loss and gain matrix", "Parse_eqn_file.py:write_loss_gain_matrix"), ("Fortran loss and gain", "Parse_eqn_file.py:write_loss_gain_fortran")],
     ["loss_gain matrix times rates", "generated loss_gain routine"])
prop("C09", "The generated Jacobian is the derivative of the generated tendencies",
     "For every mechanism, rate vector and state, entry (i, j) of the generated gas-phase Jacobian equals the partial derivative of species i's tendency with respect to species j's concentration at fixed rate coefficients. This holds for the numba and for the Fortran Jacobian.",
     ["inputs", "programs"], "all mechanisms and positive states, both forms",
     ONE + "the stored Jacobian was itself produced by the code, so a wrong entry is stored as expected.",
     ["Parse_eqn_file.py"], [("Fortran Jacobian writer", "Parse_eqn_file.py:write_gas_jacobian_fortran"), ("numba Jacobian writer", "Parse_eqn_file.py:write_gas_jacobian_numba")],
     ["generated dydt_dydt functions"])
prop("C10", "RO2 is the sum over exactly the mechanism's peroxy radicals",
     "For every mechanism the saved RO2 indices are the indices of exactly those of its species that are organic peroxy radicals of the MCM, each once, whatever their order or similarity to other names. A mechanism with none gives an empty, usable index array.",
     ["inputs", "programs"], "all species tables, all peroxy radicals of the shipped mechanisms, near-miss names",
     ONE + "so radicals that only other mechanisms use, and names that only resemble one, are never tested.",
     ["Parse_eqn_file.py"], [("RO2 list and index writer", "Parse_eqn_file.py:write_RO2_indices")],
     ["saved RO2 index file"])
prop("C11", "Generated tendencies conserve what every reaction conserves",
     "For every mechanism in which each reaction conserves some weighted sum of species, that sum has zero rate of change for every state in every generated form. A species that is absent is never consumed, so no concentration is driven negative by the chemistry.",
     ["inputs", "programs"], "all mechanisms with a conserved weighting, all non-negative states, both forms",
     ONE + "no test looks at sums or at absent species.",
     ["Parse_eqn_file.py"], [("loss, gain and reactant writers", "Parse_eqn_file.py:write_loss_gain_matrix"), ("Fortran writers", "Parse_eqn_file.py:write_loss_gain_fortran")],
     ["right hand side assembled from the generated functions"])
prop("C12", "OpenMP generation changes nothing but speed and is free of data races",
     "For every mechanism and every thread schedule, the Fortran routines generated with the OpenMP option return the values of those generated without it, for any number of threads and any core count given at generation. No two threads make conflicting unsynchronised accesses to the same memory.",
     ["schedules", "configurations", "programs"], "all mechanisms (fewer equations than threads included), core counts and thread counts, all interleavings",
     "The suite generates once, for the number of cores of the machine, and one lucky schedule passes; neither races nor chunk boundaries for other counts can be seen.",
     ["Parse_eqn_file.py"], [("OpenMP chunking of rates, reactants, loss/gain and Jacobian", "Parse_eqn_file.py:write_rate_file_fortran, write_reactants_indices_fortran, write_loss_gain_fortran, write_gas_jacobian_fortran")],
     ["ThreadSanitizer reports", "outputs of the compiled routines"])
prop("C13", "Partitioning follows the Kelvin-Raoult droplet growth law",
     "For every number of size bins, set of condensing species and non-negative state, the generated partitioning routine gives each condensed species in each bin the flux of the documented diffusional growth law (Fuchs-Sutugin transition correction, Kelvin effect, Raoult mole fractions over the dissociated core). The sizes, water activities and organic mass it reports are those of the same state.",
     ["inputs", "configurations"], "all bin counts, condensing subsets and physical states",
     "One test compares one configuration with stored sizes, water activity and mass; other bin counts, subsets, and individual fluxes are never checked.",
     ["Parse_eqn_file.py"], [("partitioning writer", "Parse_eqn_file.py:write_partitioning_section_fortran_ignore")],
     ["outputs of the compiled dydt_partition"])
prop("C14", "Partitioning conserves every species and vanishes at equilibrium",
     "For every configuration and state, what a species loses from the gas is exactly what its particles gain, summed over bins, and species that do not condense are untouched. At gas-particle equilibrium no species moves, and away from it matter moves towards equilibrium.",
     ["inputs", "configurations"], "all bin counts, condensing subsets and states, equilibrium states included",
     "No test sums fluxes or constructs an equilibrium state.",
     ["Parse_eqn_file.py", "Aerosol/f2py/ODE_solver.py"], [("flux accumulation", "Parse_eqn_file.py:write_partitioning_section_fortran_ignore")],
     ["outputs of the compiled dydt_partition"])
prop("C15", "Partitioning gives one answer for any thread count, without data races",
     "For every configuration, state and thread schedule, the OpenMP partitioning routine returns the same fluxes, sizes, water activities and organic mass for any number of threads and on every repetition. No two threads make conflicting unsynchronised accesses to the same memory.",
     ["schedules", "configurations"], "all bin and species counts, thread counts and interleavings",
     "The test calls it with tolerance on one machine's default threads; a race mostly gives the right answer.",
     ["Parse_eqn_file.py"], [("OpenMP clauses of the bin loops", "Parse_eqn_file.py:write_partitioning_section_fortran_ignore")],
     ["ThreadSanitizer reports", "outputs of the compiled routine"])
prop("C16", "Generated Fortran stays in bounds and reads and returns only defined values",
     "For every mechanism and configuration, the generated Fortran routines never access memory outside their arrays and never use an undefined value, and define every element of their results, whatever the result memory held before. They leave their inputs unchanged.",
     ["inputs", "programs", "configurations"], "all mechanisms and sizes (one reaction, one bin, one condensing species included)",
     "The suite's build has no bounds checks or sanitizers, and results happen to start zeroed.",
     ["Parse_eqn_file.py"], [("array declarations and initialisation in the Fortran writers", "Parse_eqn_file.py:write_*_fortran")],
     ["AddressSanitizer, bounds checks and poisoned result arrays around the compiled routines"])
prop("C17", "The numba gas simulation integrates its mechanism and reports what it computed",
     "For every mechanism, initial condition, temperature, humidity and start time, the numba gas simulation solves d[species]/dt given by the mechanism's rate expressions at the current time of day, RO2 and water, starting from the given mixing ratios. The tendencies and Jacobian it hands to the integrator are those of the mechanism, and the states it returns and saves are the integrator's solution, in order of time.",
     ["inputs", "histories", "configurations"], "all mechanisms, initial conditions, environments and run lengths",
     "No test runs a simulation at all.",
     ["ODE_solver.py"], [("right hand side and Jacobian", "ODE_solver.py:run_simulation.dydt_func, jac"), ("output recording", "ODE_solver.py:run_simulation")],
     ["calls across the integrator boundary", "returned and saved arrays"])
prop("C18", "The Fortran gas simulation integrates its mechanism and reports what it computed",
     "For every mechanism, initial condition, temperature, humidity and start time, the Fortran gas simulation solves d[species]/dt given by the mechanism's rate expressions at the current time of day, RO2 and water, starting from the given mixing ratios. The tendencies and Jacobian it hands to the integrator are those of the mechanism, and the states it returns and saves are the integrator's solution, in order of time.",
     ["inputs", "histories", "configurations"], "all mechanisms, initial conditions, environments and run lengths",
     "No test runs a simulation at all.",
     ["f2py/ODE_solver.py"], [("right hand side and Jacobian", "f2py/ODE_solver.py:run_simulation.dydt_func, jacobian"), ("output recording", "f2py/ODE_solver.py:run_simulation")],
     ["calls across the integrator boundary", "returned and saved arrays"])
prop("C19", "The aerosol simulation couples chemistry and partitioning and saves its results",
     "For every mechanism and particle configuration, the aerosol simulation's rate of change of every gas and condensed amount is the gas chemistry of the mechanism plus the partitioning law, with water's vapour pressure at the model temperature. The states, organic mass and sizes it saves are those of the solution at the saved times.",
     ["inputs", "histories", "configurations"], "all mechanisms, bin counts, condensing subsets, environments and run lengths",
     "No test runs a simulation; the partitioning test calls the compiled routine alone.",
     ["Aerosol/f2py/ODE_solver.py"], [("coupled right hand side", "Aerosol/f2py/ODE_solver.py:run_simulation.dydt_func"), ("recording of SOA, sizes and states", "Aerosol/f2py/ODE_solver.py:run_simulation")],
     ["calls across the integrator boundary", "saved pickles and arrays"])
prop("C20", "Splitting a run into batches changes nothing, and the clock keeps running",
     "For every run length and batch length, every solver covers the whole run in consecutive batches, each starting from the state the last one ended with, and its output has one row for every batch that was run. The time of day that drives photolysis advances continuously from the start time through all batches, so runs that differ only in batch length give the same trajectory.",
     ["histories", "configurations", "inputs"], "all start times, run lengths and batch lengths, non-dividing ones included, in the numba, Fortran, aerosol and fixed-yield solvers",
     "No test runs a simulation, so nothing crosses a batch boundary.",
     ["ODE_solver.py", "f2py/ODE_solver.py", "Aerosol/f2py/ODE_solver.py", "Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py"],
     [("batch loop and output sizing", "*/ODE_solver*.py:run_simulation")],
     ["integrator problems created per batch", "returned arrays"])
prop("C21", "A gas driver simulates the mechanism in its file, also after earlier runs",
     "Running a gas-phase driver script simulates exactly the mechanism in its file, at the conditions the script sets, whatever files earlier runs with other mechanisms left behind. A second run that reuses the generated files gives the results of the first, and the results saved on request (states, table and species names) are those of the run.",
     ["histories", "programs", "configurations"], "all sequences of runs with changing mechanisms in one directory, with and without reuse and saving",
     "No test runs a driver, saves or reuses anything.",
     ["Gas_simulation.py", "f2py/Gas_simulation_f2py.py", "ODE_solver.py", "f2py/ODE_solver.py"],
     [("regeneration and files_exist reuse", "Gas_simulation.py; f2py/Gas_simulation_f2py.py"), ("saving", "ODE_solver.py:run_simulation; f2py/ODE_solver.py:run_simulation")],
     ["arguments of run_simulation", "integrator states", "saved files"])
prop("C22", "Generation depends on the mechanism alone",
     "For every mechanism, generating its model gives the same model whether or not other models were generated before in the same process or directory, in any order of the generation steps, any number of times, and for any hash seed. Generation does not alter the parsed mechanism.",
     ["histories", "programs", "configurations"], "all sequences of generation calls, mechanisms and hash seeds",
     "The suite generates one mechanism once per process with a fixed hash seed.",
     ["Parse_eqn_file.py", "rate_coeff_conversion.py"], [("writers that read and overwrite generated files", "Parse_eqn_file.py:write_*"), ("conversions that edit the rate dictionary", "rate_coeff_conversion.py")],
     ["generated functions after each history", "parsed dictionaries before and after"])
prop("C23", "The lognormal size distribution has the requested number, sizes and shape",
     "For every request, the initial size distribution has the requested number of bins, with sizes that increase from the smallest to the largest in equal logarithmic steps, non-negative counts that sum to the requested total, and counts proportional at each size to the lognormal density of the requested median and geometric standard deviation. Scaling the total scales every bin.",
     ["inputs", "configurations"], "all bin counts, totals, means, spreads and size ranges",
     "The suite uses one distribution as input to another test and checks nothing about it.",
     ["Aerosol/Size_distributions.py"], [("distribution", "Aerosol/Size_distributions.py:lognormal")],
     ["return value of lognormal"])
prop("C24", "Every species gets its own SMILES and molecule, and only those that have one",
     "For every mechanism and species file, each mechanism species is given exactly the SMILES that the file lists under its name, and the molecule that SMILES describes, whatever the order, spacing or extra entries of the file. A species without a SMILES gets none, as do the oxidants OH, HO2 and O3, and none gets that of another.",
     ["inputs", "programs"], "all species files and species tables, including missing, empty and extra entries",
     "No test reads a species file.",
     ["Parse_eqn_file.py"], [("XML reader", "Parse_eqn_file.py:extract_smiles_species")],
     ["dictionary returned by extract_smiles_species"])
prop("C25", "Compound properties reach the right compound and decide who partitions",
     "For every set of compounds and choice of estimation methods, each compound's vapour pressure, density, molar mass and derived kinetic properties are those the chosen methods give for that compound's own molecule, listed in the order of the condensing species. With the involatility cut-off on, exactly the compounds above it (and those without a structure) are excluded from partitioning, and water is always last.",
     ["inputs", "configurations"], "all compound sets, method combinations, temperatures and cut-offs",
     "No test calls the property module; the estimation library is not even installed.",
     ["Aerosol/Property_calculation.py"], [("property assembly and selection", "Aerosol/Property_calculation.py:Pure_component1"), ("kinetic properties", "Aerosol/Property_calculation.py:Pure_component2")],
     ["dictionaries returned by Pure_component1 and Pure_component2"])
prop("C26", "Fixed-yield runs read the species file as written and only move matter",
     "For every species file of SMILES and yields, each compound listed is read once, with its own molecule and yield. A fixed-yield run moves each species between gas and particles by the partitioning law without making or losing any, and saves the states, organic mass and sizes of its solution.",
     ["inputs", "histories", "configurations"], "all species files, bin counts, environments and run lengths",
     "No test reads a yield file or runs this solver.",
     ["Parse_eqn_file.py", "Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py"], [("yield file reader", "Parse_eqn_file.py:extract_species"), ("right hand side and saving", "Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py:run_simulation")],
     ["dictionary returned by extract_species", "integrator boundary", "saved files"])
if os.path.exists(os.path.join(ROOT, "pyboxmon", "checks", "c27.py")):
    prop("C27", "An aerosol driver sets up the particles, gas and properties it documents",
         "Running an aerosol driver script simulates the mechanism (or yield file) and particle distribution the script sets: the gas starts at the stated mixing ratios or yields, the seed at the stated number, composition and density in equilibrium with the stated humidity, and every condensing species with its own properties in matching order. A second run that reuses the generated files gives the results of the first.",
         ["histories", "programs", "configurations"], "all mechanisms, species files and yield files, first runs and runs that reuse files",
         "No test runs an aerosol driver.",
         ["Aerosol/f2py/Aerosol_simulation_f2py.py", "Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py"],
         [("set-up of seed, gas and properties", "Aerosol/f2py/Aerosol_simulation_f2py.py"), ("set-up from yields", "Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py"), ("files_exist reuse", "both")],
         ["arguments of run_simulation", "integrator states", "saved files"])
if os.path.exists(os.path.join(ROOT, "pyboxmon", "checks", "c28.py")):
    prop("C28", "The figures a run shows are drawn from its results",
         "Every figure a run shows is of that run. A fixed-yield run shows, for each batch, one stack of bars per size bin whose heights are the shares of the organic compounds in the organic mass of that bin, with the total organic mass in the title (two decimals), also when some compounds do not condense; negative amounts count as zero. An aerosol run asked to plot shows its organic mass, and a gas run the log10 concentrations of the species it labels, at the times of its results.",
         ["inputs", "histories", "configurations"], "all bin counts, sets of condensing compounds, states and batch schedules",
         "No test looks at a figure, and a failure to draw is swallowed by a bare except.",
         ["Aerosol/f2py/Fixed_yield/Plotting.py", "Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py", "Aerosol/f2py/ODE_solver.py", "f2py/ODE_solver.py", "Gas_simulation.py"],
         [("stacked bars", "Aerosol/f2py/Fixed_yield/Plotting.py:stacked_bar"), ("mass against time", "Aerosol/f2py/ODE_solver.py:run_simulation"), ("gas concentrations", "f2py/ODE_solver.py:run_simulation")],
         ["figures read back when shown", "integrator states"])
    prop("C29", "A run is a function of its inputs",
         "What a simulation computes, returns and saves depends on its inputs alone. In one Python session, for each of the four solvers (numba and Fortran gas phase, aerosol, fixed yield), a run gives the same states at every batch end, the same returned values and the same saved files as alone in a fresh process, whatever ran before it: runs of other mechanisms or solvers, longer or shorter ones, the same run, one that was stopped half way, and whether it is given new inputs, the very objects of an earlier run, or a dictionary edited in between. Results a run has returned stay as they were. Saved results are those of the latest run that was asked to save; a run not asked to save leaves earlier files alone. Saving and plotting change no result, and when no figure can be shown nothing else is lost. The size distribution and the compound properties likewise do not depend on what was calculated before.",
         ["histories", "inputs", "faults", "configurations"], "all sequences of runs and calculations in a session, with or without saving, plotting, a display, and interruptions",
         "The tests call each routine once; state that leaks from one call into the next, or results lost only without a display, need a history.",
         ["ODE_solver.py", "f2py/ODE_solver.py", "Aerosol/f2py/ODE_solver.py", "Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py", "Aerosol/Property_calculation.py", "Aerosol/Size_distributions.py"],
         [("numba run", "ODE_solver.py:run_simulation"), ("Fortran run", "f2py/ODE_solver.py:run_simulation"), ("aerosol run", "Aerosol/f2py/ODE_solver.py:run_simulation"),
          ("fixed yield run", "Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py:run_simulation"), ("properties", "Aerosol/Property_calculation.py:Pure_component1")],
         ["integrator boundary", "returned values", "saved files", "directory contents before and after"])

HOW = {
 "C01": "reference-parser oracle over generated and shipped mechanisms (trace of the returned dictionaries)",
 "C02": "metamorphic monitor: equivalent spellings of one mechanism must behave alike",
 "C03": "reference-evaluator oracle over executed numba rate functions",
 "C04": "reference-evaluator oracle over compiled Fortran rate routines",
 "C05": "independent MCM formula oracle over executed coefficients in both backends",
 "C06": "solar-geometry oracle over executed photolysis rates in both backends",
 "C07": "mass-action oracle over executed reactant products in both backends",
 "C08": "stoichiometry oracle over executed tendencies in both backends",
 "C09": "derivative oracle over executed Jacobians in both backends",
 "C10": "independent RO2 list oracle over saved index files",
 "C11": "conservation monitor over executed right hand sides in both backends",
 "C12": "ThreadSanitizer with an instrumented OpenMP runtime shim, plus differential runs over thread and core counts",
 "C13": "growth-law oracle over executed partitioning routines",
 "C14": "conservation and equilibrium monitor over executed partitioning routines",
 "C15": "ThreadSanitizer with an instrumented OpenMP runtime shim, plus repetition over thread counts",
 "C16": "AddressSanitizer, UBSan, gfortran bounds checks, guard pages and poisoned results around the generated Fortran",
 "C17": "online monitor at the integrator boundary, plus reference trajectory",
 "C18": "online monitor at the integrator boundary, plus reference trajectory",
 "C19": "online monitor at the integrator boundary, plus reference trajectory and saved-file oracle",
 "C20": "history monitor over batches: continuity, clock and coverage; differential runs over batch lengths",
 "C21": "end-to-end monitor of the driver scripts over histories of runs in one directory",
 "C22": "differential monitor over histories, orders and hash seeds of generation",
 "C23": "distribution-law oracle over executed calls",
 "C24": "mapping oracle over generated species files",
 "C25": "provenance monitor: a property library stand-in whose every value names the call that made it",
 "C26": "file oracle, online monitor at the integrator boundary and conservation monitor",
 "C27": "end-to-end monitor of the aerosol driver scripts over histories of runs in one directory",
 "C29": "offline checker over recorded histories of runs in one process, with injected interruptions and display faults, against each run alone in a forked process",
 "C28": "recorder of shown figures (axes, bars, lines) compared with the states at the integrator boundary",
}
NOTE = {
 "C29": "Held on the histories the seed generated. Trusts the Assimulo stand-in (the package is not installed), which is deterministic, and forked processes as pristine sessions.",
 "C12": "Races are those ThreadSanitizer sees on the schedules run with 2-8 threads; results are compared for every thread count run.",
 "C15": "Races are those ThreadSanitizer sees on the schedules run with 2-8 threads; results are compared for every thread count run.",
 "C16": "Held on the executions run under the sanitizers; intra-array confusions that stay in bounds are left to the value oracles of C03-C14.",
}
DEFAULT = "Held on the cases the seed generated (counted in the evidence), judged by an oracle written independently of the code; nothing is claimed of inputs not run."
SOLVER = "Held on the runs the seed generated, every right hand side call judged online. Trusts the Assimulo stand-in (the package is not installed) that drives PyBox's own problem objects with SciPy integrators."


def manifest():
    checks = []
    for p in P:
        i = p["id"]
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick ./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": HOW[i], "level": "exploration",
                       "level_note": NOTE.get(i, SOLVER if i in ("C17", "C18", "C19", "C20", "C21", "C26", "C27", "C28") else DEFAULT)})
    return {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": [],
            "notes": "No hooks in /repo: every monitor observes public functions, generated code, files and the integrator boundary from outside."}


if __name__ == "__main__":
    with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf8") as f:
        json.dump(manifest(), f, indent=1)
        f.write("\n")
    with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf8") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
