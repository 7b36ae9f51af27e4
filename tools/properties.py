"""Writes properties.jsonl."""
import json
import os
P = []


def p(id, title, st, over, q, why, files, mech):
    P.append({'id': id, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': q}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}})


A = 'aesolver/aesolver/'
p('C01', 'Numerical integration computes the composite trapezoid and Simpson rules',
  'For every sample count of at least two and every pair of equally long sample arrays, integration with the trapezoid rule returns the composite trapezoid sum, and with the Simpson rule returns the composite Simpson sum when the samples are odd in number and equally spaced, and the trapezoid sum otherwise. The result does not depend on the parallelisation setting, and no memory outside the given arrays is read.',
  ['inputs', 'schedules'], 'all real sample values, all sample counts up to the bound, both rules and unknown rule names, every thread count',
  'The tests integrate a handful of fixed arrays; a wrong weight or boundary for another length, spacing or thread split passes them.',
  ['cpp-numintegrator/num_integrator'],
  [('composite rules and rule selection', 'cpp-numintegrator/num_integrator'), ('Python entry point', 'cpp-numintegrator/num_integrator')])
p('C02', 'Disc integrals are the limb-darkened integrals over the visible disc',
  'The two disc integrals of an angular function equal the stated limb-darkened quadratures over the visible part of the sphere only (cosine of the viewing angle between zero and one). Points outside that range never influence the result, whatever their order and number.',
  ['inputs'], 'all real angular functions, derivatives and grids up to the size bound',
  'Existing tests use fixed analytic functions on one grid.',
  ['cpp-disc-integrator/disc_integrator', 'cpp-ld-funcs/ld_funcs'],
  [('visible-disc filter and integrands', 'cpp-disc-integrator/disc_integrator'), ('quadrature', 'cpp-numintegrator/num_integrator')])
p('C03', 'Limb darkening follows the Eddington law, serially and in parallel',
  'The limb-darkening function equals 1 + 3/2 mu at every requested point, also when the points or results are parts of larger arrays, and nothing else is read or written. Serial and parallel evaluation agree element by element, however the threads are interleaved.',
  ['inputs', 'schedules'], 'all real mu, array sizes up to the bound, any thread count',
  'Existing tests sample a fixed grid.',
  ['cpp-ld-funcs/ld_funcs'], [('law', 'cpp-ld-funcs/ld_funcs'), ('array wrapper', 'cpp-ld-funcs/ld_funcs')])
p('C04', 'Finite-difference derivatives are exact on polynomials for any grid',
  'For every grid of distinct points, derivative order and accuracy the finite-difference derivative of a polynomial whose degree does not exceed the size of the stencil minus one is exact at every point, including both ends. Requests the routine cannot serve are reported and never touch memory outside the arrays.',
  ['inputs', 'configurations'], 'all real distinct grids up to the size bound, all orders and accuracies offered',
  'The only test differentiates one function on one grid.',
  ['fornberg-num-deriv/fornberg_num_deriv'], [('weights', 'fornberg-num-deriv/fornberg_num_deriv'), ('stencil placement', 'fornberg-num-deriv/fornberg_num_deriv')])
p('C05', 'Numerical differentiator returns consistent derivative profiles',
  'Every derivative profile has the shape of its input, is linear in the data, and is exact for polynomials up to the order of accuracy of the selected scheme at interior points, on uniform grids and, where offered, on non-uniform grids.',
  ['inputs', 'configurations'], 'all real data and grids up to the size bound, all schemes and accuracy orders',
  'Tests compare a few analytic functions at a tolerance that hides single wrong stencil weights.',
  ['num-tools/num_deriv'], [('stencils', 'num-tools/num_deriv/stencils.py'), ('scheme selection', 'num-tools/num_deriv')])
p('C06', 'Pairing functions are bijections and invert each other',
  'Each integer pairing function maps distinct pairs from its domain to distinct integers, and unpairing returns exactly the pair that was paired, for any lowest integer.',
  ['inputs'], 'all integer pairs within the stated bound, all lowest integers',
  'Tests check a few pairs; injectivity is a statement about every two pairs.',
  ['py-combinations'], [('pairing', 'py-combinations'), ('unpairing', 'py-combinations')])
p('C07', 'Mode combinations are complete and free of duplicates',
  'The generated combinations contain every admissible combination of the given mode identifiers exactly once, up to the exchange of the two daughters, and nothing else.',
  ['inputs', 'configurations'], 'all sets of azimuthal, meridional and radial orders up to the size bound',
  'Tests compare one or two explicit lists.',
  ['py-combinations', A + 'mode_input_generator'], [('combination generation', 'py-combinations')])
p('C08', 'Mode input generation reproduces the ensemble it is asked for',
  'The generated triad list is the full product of the requested parent and daughter radial orders without duplicate daughter pairs, every requested model file is combined with its own modes, and derived grid quantities (averages, differences) are computed from the modes they are named after.',
  ['inputs', 'configurations'], 'all order ranges up to the bound, all frequency values',
  'Tests run one setting.',
  [A + 'mode_input_generator'], [('input generation', A + 'mode_input_generator')])
p('C09', 'Frequencies agree across frames, units, spin and detuning',
  'Whatever units and frame the pulsation input uses, the reported inertial and co-rotating frequencies describe the same physical modes (they differ by m times the rotation frequency), cyclic and angular values differ by 2 pi, dimensionless values are scaled by the dynamical time, and spins, detunings and quality factors follow from them. Non-adiabatic results obey the same relations and never disturb the adiabatic ones.',
  ['inputs', 'configurations'], 'all frequencies, growth rates, azimuthal orders and stellar parameters; all unit and frame combinations',
  'Tests hold one dictionary per unit; several unit/frame pairs are never compared with each other.',
  [A + 'frequency_handling'], [('conversion and derived quantities', A + 'frequency_handling/frequency_handler.py'), ('unit factors', A + 'frequency_handling/enumeration_files')])
p('C10', 'Frequency unit conversions compose and invert',
  'Converting a frequency between any two supported units is multiplication by the ratio of the units, converting back returns the original value, and converting via a third unit gives the same result as converting directly.',
  ['inputs', 'configurations'], 'all frequencies and stellar parameters, all ordered pairs and triples of units',
  'Tests convert a single number for some pairs.',
  ['gyre-tools/gyre_unit_converter', A + 'frequency_handling/enumeration_files'],
  [('converter', 'gyre-tools/gyre_unit_converter'), ('enumeration of factors', A + 'frequency_handling/enumeration_files')])
p('C11', 'Stationary amplitudes are a fixed point of the amplitude equations',
  'The reported stationary amplitudes, phase and detuning satisfy the three stationary quadratic amplitude equations, amplitudes are non-negative, and the threshold amplitude is the one at which the parametric instability sets in. The reported light variations are those of these amplitudes for an observer at the given inclination of the spin axis and argument of periastron; if the pre-checks fail no amplitudes and no light variations are reported.',
  ['inputs', 'configurations'], 'all frequencies, growth rates and coupling coefficients of a parametrically coupled triad',
  'Tests compare the output for one mock triad with stored numbers.',
  [A + 'stationary_solving/three_mode/three_mode_stationary.py', A + 'frequency_handling'],
  [('amplitudes and phases', A + 'stationary_solving/three_mode/three_mode_stationary.py')])
p('C12', 'Stability verdicts equal the linear stability of the fixed point',
  'A triad is called stable exactly when the linearised amplitude and phase equations around the reported fixed point have no growing solution (summed growth rate negative and the cubic stability criterion met), for every way of evaluating the criterion. It is called hyperbolic exactly when no eigenvalue has zero real part.',
  ['inputs', 'configurations'], 'all growth rates and detunings of a parametric or direct resonance',
  'Tests evaluate the criterion for stored rates; equivalence of the criteria and the boundary cannot be sampled.',
  [A + 'stability_checker'], [('criteria', A + 'stability_checker'), ('Jacobian eigenvalues', A + 'stability_checker/hyperbolicity')])
p('C13', 'Selection rules admit exactly the couplings that can be non-zero',
  'The pre-checks admit a triad exactly when the conjugation-aware azimuthal sum rule and the meridional parity rule hold and the driving pattern is one of the requested kinds. The verdict does not depend on the order in which the daughters are listed.',
  ['inputs', 'configurations'], 'all azimuthal orders, degrees, meridional orders, conjugation patterns and signs of growth rates',
  'Tests list a few (l, m) triples.',
  [A + 'pre_checks'], [('selection rules', A + 'pre_checks'), ('driving classification', A + 'pre_checks')])
p('C14', 'Comparison figures show the modes and profiles they name',
  'A comparison figure draws the requested quantity (or its real or imaginary part) of the requested adiabatic mode and of the corresponding non-adiabatic mode, each against the radius or the mass fraction of that same mode, with the limits, labels, quantum numbers and frequencies of those modes. A profile figure draws each named quantity of the stellar model against the coordinate, divided by a quantity or by the largest value of a quantity where that is asked, or the difference of two quantities, and labels that cannot belong to the quantities end the program. The comparison loads the modes of the requested combination of radial orders from the adiabatic and the non-adiabatic folder.',
  ['inputs', 'configurations'], 'all values of the profiles; all panels and settings of the figures',
  'Not covered by tests.',
  [A + 'ad_nad_comparer'], [('comparison', A + 'ad_nad_comparer'), ('figures', A + 'ad_nad_comparer/plotting')])
p('C15', 'Polytropic structure satisfies the equations of stellar structure',
  'The polytropic model returned for any index satisfies hydrostatic equilibrium and the Poisson equation, its derivative profiles are the derivatives of its density, pressure and gravity, and the dimensionless structure coefficients agree with their definitions.',
  ['inputs', 'configurations'], 'all polytropic indices, masses, radii and points of the structure; all Lane-Emden solutions',
  'Tests compare stored arrays of one polytrope.',
  [A + 'polytropic_computations'], [('structure quantities', A + 'polytropic_computations')])
p('C16', 'Stellar-model profiles satisfy the structure identities',
  'The derived stellar-structure profiles (gravity and its potential derivatives, density and pressure derivatives) satisfy Poisson and hydrostatic identities pointwise, with units consistent with the input model. Structure and mode profiles given on different radial grids are brought onto the longest grid of the modes by linear interpolation, and the stored radial derivatives of the displacements are the derivatives of those displacements.',
  ['inputs'], 'all values of the input profiles',
  'Tests compare one mock profile.',
  [A + 'coupling_coefficients', A + 'model_handling'], [('derivative profiles', A + 'coupling_coefficients/superclasses')])
p('C17', 'Coupling coefficients are symmetric and obey the selection rule',
  'The quadratic coupling coefficient equals the integral of its local contributions, is unchanged when the two daughter modes are exchanged, vanishes when the azimuthal selection rule is violated, and its normalised forms differ only by the stated mode-energy factors.',
  ['inputs', 'configurations'], 'all eigenfunction, structure and angular profiles on grids up to the size bound',
  'Tests compare with stored numbers of a mock triad and never exchange the daughters.',
  [A + 'coupling_coefficients'], [('four contributions', A + 'coupling_coefficients/quadratic_coupling_coefficient_rotating.py')])
p('C18', 'Angular integrals are the quadratures they stand for',
  'A three-function angular integral equals 2 pi times the quadrature of the product of the three (possibly differentiated, conjugated, multiplied or divided by the stated angular factors) functions, is zero when the azimuthal orders do not add to zero, and is symmetric in its three functions.',
  ['inputs', 'configurations'], 'all real angular functions and grids up to the size bound, all factor and conjugation settings',
  'Tests use stored values on one grid.',
  [A + 'angular_integration'], [('quadratic angular integral', A + 'angular_integration')])
p('C19', 'Hough derivative profiles are mutually consistent',
  'The radial, latitudinal and azimuthal Hough functions and their derivatives satisfy the defining first-order relations of the traditional approximation at every colatitude, for prograde and retrograde modes.',
  ['inputs'], 'all eigenvectors, orders, spins',
  'Tests compare one stored function.',
  ['hough-func-tools/hough_function'], [('construction', 'hough-func-tools/hough_function')])
p('C20', 'Normalisation gives unit norm and only rescales',
  'After normalisation the angular (or radial) functions of a mode have the norm prescribed by the chosen convention, every function of the mode is scaled by the same factor, and normalising twice changes nothing.',
  ['inputs', 'configurations'], 'all functions on grids up to the size bound, all conventions',
  'Tests compare stored normalised arrays.',
  ['hough-func-tools', 'gyre-tools/gyre_eigen_norm'], [('Hough norm', 'hough-func-tools/hough_function'), ('radial norm', 'gyre-tools/gyre_eigen_norm')])
p('C21', 'Derivatives and operators on the Chebyshev grid are exact',
  'On the collocation grid, the first and second derivatives with respect to the cosine of the colatitude of every function in the space of the expansion (either parity, with or without a factor of the sine of the colatitude) are exact up to rounding, and so is any linear second-order differential operator applied to it. The eigenvalue problem that is solved is that of this operator.',
  ['inputs', 'configurations'], 'all functions of the space and all coefficients of the operator, up to the size bound',
  'Tests transform one vector.',
  ['hough-func-tools/cheby_transform'], [('transform', 'hough-func-tools/cheby_transform')])
p('C22', 'Histogram back ends agree and are normalised',
  'Every histogram back end counts each data value once, in the bin whose edges enclose it, for equally wide bins (with the bins shifted by the phase) and for logarithmic bins (also with given edges or widths). Probabilities are the counts divided by the number of data, densities the probabilities divided by the width of each bin, and the reported edges and widths are those of the bins.',
  ['inputs', 'configurations'], 'all data values and bin settings up to the size bound, all back ends',
  'Tests run back ends on one data set with stored results.',
  ['histogram_maker'], [('back ends', 'histogram_maker/hogg_jacky'), ('shared numerics', 'histogram_maker/hogg_jacky/shared')])
p('C23', 'The selected binning maximises the jackknife likelihood',
  'In every back end, the binning that is selected, reported and returned maximises the leave-one-out (jackknife) log-likelihood over the offered smoothing parameters and bin numbers, where settings whose likelihood is not a number never win. Missing values are left out, and data that cannot be binned (none, only missing values, a single value, negative values on a logarithmic scale) give the documented trivial results.',
  ['inputs', 'configurations'], 'all data values and scan grids up to the size bound',
  'Tests compare stored optima.',
  ['histogram_maker'], [('likelihood and optimum', 'histogram_maker/hogg_jacky')])
p('C24', 'Isolated triads are exactly those far from all competing triads',
  'A triad is marked isolated exactly when its threshold amplitude is the lowest among the triads that share its parent and among those that share one of its daughters, and every competitor with the same parent has its threshold above the equilibrium parent amplitude of the triad. Triads without a threshold are never isolated, and a triad without competitors is isolated whenever it has a threshold.',
  ['inputs'], 'all thresholds, equilibrium amplitudes and assignments of parents and daughters up to the number bound',
  'Not covered by tests; needs several triads of the same parent.',
  ['aesolver/ae_analyzer', 'aesolver/aeplotter'], [('isolation masks', 'aesolver/ae_analyzer'), ('isolation masks', 'aesolver/aeplotter')])
p('C25', 'Overview masks put every triad in the classes its attributes call for',
  'A triad is counted as stable, as one whose amplitude equations are a valid expansion (detuning at most a tenth of its lowest frequency), as isolated, or as any combination of these, exactly when its own attributes say so; triads of harmonics are left out where the overview says so. The limits that a user puts on thresholds and detunings select exactly the triads within them.',
  ['inputs'], 'all combinations of triad attributes up to the number bound',
  'Not covered by tests.',
  ['aesolver/ae_analyzer', 'aesolver/aeplotter'], [('masks', 'aesolver/aeplotter')])
p('C26', 'Validity masks of the traditional approximation mark the right radii',
  'A radial zone is marked valid exactly where the stated frequency hierarchy holds for every mode of the triad, and a triad is called valid exactly when the required zones are.',
  ['inputs'], 'all frequency profiles on grids up to the size bound',
  'Stored single profile.',
  [A + 'solver'], [('validity masks', A + 'solver')])
p('C27', 'Saved data carry the values they are labelled with',
  'Every quantity written to a result file is the value that the solver computed for the quantity of that name, that mode and that triad, for each frame, unit, adiabatic and non-adiabatic variant, and triads that fail a check never shift the others. The name of the file carries the quantum numbers, and is the name under which the analysis looks for it.',
  ['inputs', 'configurations'], 'all values; adiabatic, non-adiabatic and polytropic grids; any pattern of failing triads',
  'Saved files are not compared with the solver objects.',
  [A + 'data_handling'], [('unpacking and saving', A + 'data_handling')])
p('C28', 'Names of generated eigenvalue tables match the mode identifiers',
  'The file name generated for an eigenvalue table is determined by, and determines, the mode identifiers for which it is generated.',
  ['inputs'], 'all mode identifiers',
  'Not covered by tests; the module does not import on every interpreter.',
  ['gyre-tools/lam_tar_gyre'], [('table generation', 'gyre-tools/lam_tar_gyre')])
p('C29', 'Parameters of the input list reach the part they are meant for',
  'Every parameter of an input list that the user selects reaches the solver, the result file, the analysis or the plots under its own name and with its own value, through the command line programs down to model loading and coupling computation. Steps are done exactly if the input list asks for them.',
  ['inputs', 'configurations'], 'all values of the parameters of the default input list; adiabatic, non-adiabatic and polytropic runs',
  'The programs themselves are not run by tests.',
  ['aesolver/aerunners', 'util-tools', A + 'solver'], [('programs', 'aesolver/aerunners'), ('parsers', 'util-tools')])
p('C30', 'Analysis observables follow from the saved solutions',
  'The quantities that the analysis and plotting programs derive (frequencies in the chosen unit, detunings, rotation, quality factors, thresholds in amplitude and luminosity, amplitude ratios, nonlinear frequency shifts and dimensionless estimators) are the stated functions of the saved values of the same triad, for parametric and direct resonances, and the shifted frequencies are in exact resonance. Triads of several result files are concatenated in the order of the files, and observable frequencies above the Nyquist frequency are mirrored into the observable range.',
  ['inputs', 'configurations'], 'all saved values, several files and models, both kinds of resonance',
  'Not covered by tests.',
  ['aesolver/ae_analyzer', 'aesolver/aeplotter'], [('observables', 'aesolver/ae_analyzer'), ('observables', 'aesolver/aeplotter')])
p('C31', 'Each mode and model is read from the file that its name identifies',
  'A file is selected for a mode exactly when its name carries the degree, azimuthal order (with its sign), radial order and type of that mode and contains the wanted substrings, whatever other characters it has. A stellar model is selected exactly when its name ends with the wanted suffix, contains the wanted substrings and is not an output of the oscillation code. Loading returns the data of the single matching file of each mode, in the order of the modes, from the given folder or else the only one named after its kind, and ends when a mode or model has no file or several.',
  ['inputs', 'configurations'], 'all names up to the size bound; all wanted quantum numbers, suffixes and kinds of substrings; all orders of a folder',
  'Tests read a few files by name and never select one.',
  [A + 'model_handling/subselection_classes.py', A + 'model_handling/load_models.py', A + 'model_handling/read_models.py'],
  [('selection', A + 'model_handling/subselection_classes.py'), ('loading', A + 'model_handling/load_models.py')])
p('C32', 'Every triad of a grid gets the results of its own modes',
  'In a grid of triads, each triad has the coupling coefficients, frequencies, detunings, normalisation, hyperbolicity, statistics and stationary solution that follow from its own adiabatic and non-adiabatic modes, whatever happens to the others. When the checks of a triad fail in a search for stationary solutions, its coupling is not computed and reported as zero. The surface luminosity and displacement terms of a stationary solution are those of the normalised modes of the triad, as are the disc integrals.',
  ['inputs', 'configurations'], 'all values of the modes; every pattern of failing checks; adiabatic, non-adiabatic and polytropic grids, in both classes that compute grids',
  'Tests run one triad with one set of settings, in which the surface terms are not looked at.',
  [A + 'solver/solver_base_classes/quadratic_solver.py', A + 'solver/quadratic_grid.py', A + 'solver/quadratic_solver.py'],
  [('one triad', A + 'solver/solver_base_classes/quadratic_solver.py'), ('the grid', A + 'solver/quadratic_grid.py'), ('older class', A + 'solver/quadratic_solver.py')])
p('C33', 'Adjusted coupling profiles leave out exactly the invalid zones',
  'The adjusted coupling profile of a triad, and that of each of its contributions, is the integral over the radii at which the traditional approximation is valid, for every pattern of valid and invalid zones that has an invalid one. The reported contribution of each invalid zone is the change of the profile over that zone, and the adjusted amplitudes, luminosities and hyperbolicity follow from the adjusted coupling of that triad. The figures draw the profile, the adjusted profile and the zones of the same triad, and are saved under its name.',
  ['inputs', 'configurations'], 'all profiles on up to 6 radii (thorough: 8), every pattern of valid and invalid zones, all stationary solutions',
  'No test computes an adjusted profile; a wrong pairing of zones needs a particular pattern of zones to show.',
  [A + 'solver/quadratic_profile.py', A + 'solver/quadratic_solver.py', A + 'solver/profile_plot_classes/coupling_coefficient_plots/plot_template.py', A + 'solver/profile_print_functions/coupling_coefficient_print_functions.py'],
  [('adjusted profiles', A + 'solver/profile_plot_classes/coupling_coefficient_plots/plot_template.py'), ('one triad', A + 'solver/quadratic_profile.py'), ('texts', A + 'solver/profile_print_functions/coupling_coefficient_print_functions.py')])

p('C34', 'Analysis reports state the numbers of the triads they name',
  'Every count in the reports of the analysis program is the number of triads of that model with the named property (stable, valid, isolated, quality factor condition, amplitude ratios, and their combinations), and totals are sums over all models. The listed radial orders, detunings, rates, frequencies, spin parameters, shifts, phases and ratios are those of exactly the stable and valid triads of that model, in their order and in the stated unit.',
  ['inputs', 'configurations'], 'all frequencies, driving rates, amplitudes and phases of two models with two and one triads, ten and three patterns of classes, all orders of the quality factor condition',
  'No test runs the reports; a count of another class differs only for triads that are in one class but not in the other.',
  ['aesolver/ae_analyzer/quadratic_stationary_analyzer.py', 'aesolver/ae_analyzer/library_functions'],
  [('reports', 'aesolver/ae_analyzer/quadratic_stationary_analyzer.py')])

p('C35', 'Kernel figures show the integrands that their labels name',
  'Each curve in the figures of the radial and angular kernels of a mode triad is, at every radius or colatitude, the product of the functions of the three modes that its label names (in that order), '
  'with the factors, sines and stellar profiles of the label. Each contribution to the coupling coefficient has exactly the kernels whose products occur in it, each ordering once, and the zones where the traditional approximation holds are shaded.',
  ['inputs'], 'all angular functions and eigenfunctions, stellar profiles and patterns of validity', 'No test opens these figures.',
  ['aesolver/aesolver/solver/profile_helper_classes', 'aesolver/aesolver/solver/profile_plot_classes/kernel_plots'],
  [('kernel data', 'aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py'), ('kernel data', 'aesolver/aesolver/solver/profile_helper_classes/radial_kernels/radial_kernel_helper.py'),
   ('figures', 'aesolver/aesolver/solver/profile_plot_classes/kernel_plots/angular_kernel_plots.py')])

p('C36', 'Figures of the plotting program show the triads of the class they name',
  'In the overview figure each class of triads (stable, stable with fulfilled AE conditions, stable and valid) shows, per model, exactly the inertial frequencies and surface amplitude ratios of the triads of that class, those with negative frequencies faintly, '
  'each class once in the legend, with periods on the second abscissa. The sharpness figure shows, for isolated and other stable valid triads, the detuning over the summed daughter damping rates in common bins, as percentages at the bin centres, with their numbers; '
  'every figure is written once per requested format, under the requested name.',
  ['inputs'], 'all frequencies, ratios, rates and histograms; patterns of classes and models', 'No test opens these figures.',
  ['aesolver/aeplotter/quadratic_plotter.py', 'aesolver/aeplotter/overview_plot', 'aesolver/aeplotter/resonance_sharpness'],
  [('data', 'aesolver/aeplotter/quadratic_plotter.py'), ('overview', 'aesolver/aeplotter/overview_plot/plot.py'),
   ('sharpness', 'aesolver/aeplotter/resonance_sharpness/plot.py')])

p('C37', 'Loaded models hold the quantities of their files',
  'A loaded oscillation mode, stellar profile or polytrope holds the value of every quantity of its file under its name (also numbers of the header, none that the file lacks), structure quantities in the requested unit system. '
  'Perturbations of displacement, potential, pressure, density, temperature and luminosity, rotation, energies and works are in addition given with their dimensions: scaled by the stellar radius, potential, local pressure, density or temperature, luminosity, dynamical frequency, and so on; '
  'complex quantities keep their real and imaginary parts.',
  ['inputs', 'configurations'], 'all values, both unit systems, present and absent quantities', 'Tests load a few files and compare selected values in one unit system.',
  ['aesolver/aesolver/model_handling', 'num-tools/carr_conv'],
  [('readers', 'aesolver/aesolver/model_handling/read_models.py'), ('names and units', 'aesolver/aesolver/model_handling/enumeration_files/enumeration_models.py'),
   ('dimensions', 'aesolver/aesolver/model_handling/enumeration_files/enumeration_dimensions.py'), ('complex arrays', 'num-tools/carr_conv/carr_conv.py')])

p('C38', 'Publication scripts show exact stability domains and thresholds',
  'The stability figure of the publication colours exactly those ratios of damping to driving for which the stationary solution is linearly stable at the detuning of its panel, next to the originally published condition, on the stated axes; its name, annotations and description state the detunings of its panels. '
  'The threshold script fits the requested number of triads closest to a luminosity ratio of one on either side and reports the ratio of rates that this fit gives at one.',
  ['inputs', 'configurations'], 'all damping ratios and detunings, all data values', 'No test covers the scripts; a stability formula must hold at every ratio and detuning.',
  ['VB_et_al_2024_additional_plot_compute_scripts'],
  [('stability domains', 'VB_et_al_2024_additional_plot_compute_scripts/dziembowski_subplot.py'), ('threshold', 'VB_et_al_2024_additional_plot_compute_scripts/compute_threshold_theta.py')])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for x in P:
    assert len(x['title']) <= 80, x['id']
    for f in x['anchors']['files']:
        if not os.path.exists('/repo/' + f):
            print('missing', x['id'], f)
with open(os.path.join(here, 'properties.jsonl'), 'w') as fh:
    for x in P:
        fh.write(json.dumps(x) + '\n')
