# The properties.  Executed by catalog.py; keep statements at three sentences.
INP = ['inputs']
prop('C01', 'Linearized equations of motion equal those of the real mechanism',
     'For every physically possible set of benchmark bicycle parameters, the '
     'mass, damping, gravity stiffness and speed stiffness matrices equal '
     'those derived from the mechanics of a wheeled four-body mechanism with '
     'that geometry and mass distribution. Every public way of getting them '
     '(function, model with and without feedback, measured bicycle) gives the '
     'same matrices, and changing units of length and mass scales each entry '
     'as its dimension demands.',
     INP, 'all parameter sets built from real bodies, including zero or '
     'negative trail and tilt, unequal wheels, flywheels on the front wheel',
     'The tests compare one benchmark bicycle to published numbers; an error '
     'in a term that is small or cancels for that bicycle is invisible.',
     ['bicycle.py', 'models.py', 'main.py'],
     [('canonical matrices from benchmark parameters',
       'bicycle.py benchmark_par_to_canonical'),
      ('reduced canonical matrices', 'models.py '
       'form_reduced_canonical_matrices'),
      ('canonical', 'main.py Bicycle.canonical')],
     ['returned M, C1, K0, K2'],
     'Oracle: linearized mechanics computed from the bodies themselves '
     '(vlib/ref.py).', 'differential against a first-principles derivation, '
     'dimensional scaling')
prop('C02', 'State space matrices follow from the equations of motion',
     'At every forward speed and gravity the state and input matrices equal '
     'the first order form of M q\'\' + v C1 q\' + (g K0 + v^2 K2) q = T, with '
     'states roll angle, steer angle, roll rate, steer rate. This holds for '
     'models, the stand-alone function and bicycles, for scalar and array '
     'speeds, including zero and negative speed; reversing time and speed '
     'maps the motion onto itself.',
     INP, 'all parameter sets, speeds of either sign, numbers and arrays of '
     'any accepted type',
     'The doctests evaluate a single bicycle at a single speed.',
     ['bicycle.py', 'models.py', 'main.py'],
     [('ab_matrix', 'bicycle.py'), ('form_state_space_matrices', 'models.py'),
      ('state_space', 'main.py')], ['returned A and B'],
     'Oracle: direct solve of the second order equations.',
     'differential against a direct solve, time reversal metamorphic relation')
prop('C03', 'Overriding and sweeping parameters equals building new models',
     'Passing parameter values to a model call gives exactly what a model '
     'built with those values gives; passing arrays stacks the single answers '
     'in order, whatever the sequence type and for any parameters swept '
     'together. A model always answers for the current values of its set, '
     'whatever it was asked before. Its own parameters and the caller\'s '
     'arrays stay as they were, and arrays of different lengths are refused.',
     ['inputs', 'histories'], 'all models, subsets of parameters, lengths '
     'including one, repeated calls on the same model',
     'Tests sweep one parameter once with one array type.',
     ['models.py'], [('parameter override parsing',
                      'models.py _parse_parameter_overrides'),
                     ('array evaluation', 'models.py form_* methods')],
     ['returned matrices and eigenvalues', 'parameters after the call'],
     'Oracle: a fresh model per value.',
     'differential against one model per value')
prop('C04', 'Eigenvalues and eigenvectors satisfy A x = s x; sorting permutes',
     'Every eigenvalue and eigenvector returned, for one parameter set or a '
     'sweep, satisfies the eigenvalue equation of the returned state matrix '
     'and the eigenvectors are linearly independent where that is possible. '
     'Ordering modes along a sweep only permutes each set and keeps each '
     'eigenvalue with its eigenvector, and follows continuous branches. '
     'Modal controllability is the angle between left eigenvector and input '
     'column.',
     INP, 'all models, sweeps of any length, arbitrary sequences of '
     'eigenvalue sets for the sorting function',
     'The test sorts one short hand-written sequence.',
     ['models.py', 'bicycle.py', 'main.py'],
     [('calc_eigen', 'models.py'), ('sort_eigenmodes, sort_modes',
                                    'bicycle.py'), ('eig', 'main.py')],
     ['returned eigenvalues and eigenvectors'],
     'Oracle: residuals and permutation check.',
     'invariants (residual, permutation) and continuity')
prop('C05', 'Simulation is the exact solution of the linear equations',
     'The simulated states solve x\' = A x + B u from the given initial '
     'conditions at every requested time, for zero, constant, time and state '
     'dependent inputs, and the returned inputs are those applied. An input '
     'that acts only for a while (a pulse seen by several of the times) is not '
     'passed over. Mode '
     'simulations follow the real part of x0 exp(s t) for their mode. '
     'Initial conditions passed in are unchanged and parameter sweeps are '
     'refused.',
     INP, 'all models, parameter overrides, uneven time points, input '
     'functions',
     'No test checks a trajectory against a solution.',
     ['models.py'], [('simulate', 'models.py'),
                     ('simulate_modes', 'models.py')],
     ['returned trajectories and inputs'],
     'Oracle: matrix exponential; tolerance set by the default tolerance of '
     'the integrator used.',
     'differential against the matrix exponential')
prop('C06', 'Feedback gains close the loop exactly as specified',
     'With full state feedback the state matrix equals that of the plain '
     'bicycle minus the input matrix times the gain matrix, where each gain '
     'multiplies its named state and acts on its named torque. With all gains '
     'zero everything equals the plain model, and swept gains of any numeric '
     'type are used at full precision.',
     INP, 'all gains, speeds, sweeps of gains together with other parameters',
     'The test uses one set of gains.',
     ['models.py', 'parameter_sets.py'],
     [('Meijaard2007WithFeedbackModel', 'models.py')],
     ['returned A, B and eigenvalues'],
     'Oracle: plain model plus gains.',
     'differential against plain model and gain algebra')
prop('C07', 'Leaning rider model obeys mechanics and reduces to the bicycle',
     'The state matrices of the leaning rider model equal those of a bicycle '
     'whose rider leans on a spring and damper about a horizontal hinge. '
     'With the lean held at zero it is the rigid-rider '
     'bicycle with the rider added to the frame, and changing the hinge '
     'stiffness or damping changes only the lean torque. State and input '
     'names, units and matrix sizes agree.',
     INP, 'all rider, frame and hinge parameters; speeds and sweeps',
     'The doctest prints one set of matrices.',
     ['models.py', '_mooreriderlean2012.py', 'parameter_sets.py'],
     [('MooreRiderLean2012Model', 'models.py'),
      ('generated equations', '_mooreriderlean2012.py')],
     ['returned A, B'], 'Oracle: five-body linearized mechanics '
     '(vlib/ref.py).', 'differential against a first-principles derivation')
prop('C08', 'Converting parameterizations describes the same bicycle',
     'A parameter set converted to another supported parameterization has the '
     'geometry, total mass, mass centres, inertia and linear dynamics of the '
     'original, and keeps its rider flag and gains. Unsupported conversions '
     'are refused, converting to the own kind gives an equal set, and the '
     'original set is unchanged.',
     INP, 'all parameter sets and pairs of parameterizations, with and '
     'without optional entries',
     'The test converts one set and compares a few numbers.',
     ['parameter_sets.py', 'conversions.py'],
     [('to_parameterization', 'parameter_sets.py'),
      ('principal to benchmark', 'conversions.py')],
     ['parameters of the converted set'],
     'Oracle: rigid body composition.',
     'differential against rigid body composition, metamorphic equality of '
     'dynamics')
prop('C09', 'Parameter sets validate input and survive being written and read',
     'A set is accepted exactly when it has every required parameter, and '
     'holds the values given. Writing it to YAML and reading it back gives '
     'the same kind of set with the same values and rider flag; configuration '
     'files and tables list every parameter once with its value and its own '
     'symbol.',
     INP, 'all kinds of sets, values of accepted numeric types, missing and '
     'extra names',
     'Tests construct a few fixed sets and never read files back.',
     ['parameter_sets.py'],
     [('ParameterSet', 'parameter_sets.py'), ('to_yaml / to_ini', ''),
      ('table output', '')],
     ['file contents', 'attributes', 'raised errors'],
     'Oracle: round trip and independent parsing of the files.',
     'round trip, independent parser')
prop('C10', 'Mass centres and inertia of bodies and groups are exact',
     'For each body of a parameter set the mass centre vector and inertia '
     'tensor are those its parameters specify, and the mass centre of any '
     'group of bodies is their mass weighted mean regardless of order. '
     'Answers follow the current parameter values and changing an answer '
     'does not change the set.',
     ['inputs', 'histories'], 'all kinds of sets, all groups and orders, '
     'parameters changed between calls',
     'Doctests show one group of one bicycle.',
     ['parameter_sets.py'],
     [('mass_center_of', 'parameter_sets.py'),
      ('form_inertia_tensor, form_mass_center_vector', 'parameter_sets.py')],
     ['returned vectors and tensors'],
     'Oracle: weighted means.', 'reference model, metamorphic regrouping')
prop('C11', 'Inertia algebra agrees with bodies made of particles',
     'Moving, rotating and combining inertia tensors, adding a rider to a '
     'frame, and recovering a planar tensor from moments about several axes '
     '(least squares if more than three) give the tensor of the underlying '
     'mass distribution. Principal axes are a right handed orthonormal set '
     'that diagonalizes the tensor with ascending moments, also for repeated '
     'moments; pendulum and tube formulas invert and compose. Tensors passed '
     'in stay unchanged.',
     INP, 'all particle systems, offsets, angles, symmetric tensors',
     'No test of these functions exists.',
     ['inertia.py'], [('inertia functions', 'inertia.py')],
     ['returned tensors'], 'Oracle: sums over particles.',
     'differential against particle sums, inverse relations')
prop('C12', 'Mass centres come out where the bodies and hanging lines put them',
     'The mass centre of several objects is their mass weighted mean, however '
     'they are ordered or grouped. Lines through a mass centre, found by '
     'hanging frame, fork, handlebar or both from a pendulum in several '
     'orientations, pass through that mass centre in bicycle coordinates, and '
     'several lines give the mean of their pairwise crossings. Measurements '
     'are assigned to the right part whatever their order, and array products '
     'keep every value exactly.',
     INP, 'any number of bodies or lines, split and whole forks, any order '
     'of the measurements',
     'One doctest of the array product is all there is.',
     ['com.py', 'geometry.py'], [('com_line, part_com_lines', 'com.py'),
                                 ('center_of_mass, total_com', 'com.py')],
     ['returned lines and points'], 'Oracle: hanging simulated forward.',
     'forward simulation of hanging parts, metamorphic regrouping')
prop('C13', 'Geometry is recovered from measurements and is self consistent',
     'Wheelbase, tilt, trail and radii computed from workshop measurements of '
     'a bicycle, by either measuring method, are those of that bicycle, with '
     'plain numbers or numbers with uncertainty. Offsets from and distances '
     'to the steer axis, handlebar location, projections, angles and two-link '
     'solutions satisfy the geometric relations that define them for every '
     'configuration, including a vertical steer axis and parallel vectors.',
     INP, 'all bicycle geometries, both measuring methods, vectors and lines '
     'in general and special position',
     'No test of these functions exists.',
     ['geometry.py', 'bicycle.py'],
     [('calculate_benchmark_geometry', 'geometry.py'),
      ('lambda_from_abc, trail', 'bicycle.py')],
     ['returned lengths and angles'], 'Oracle: forward measurement of a '
     'known bicycle.', 'inverse of a forward measurement model, geometric '
     'invariants')
prop('C14', 'Benchmark parameters follow from the workshop measurements',
     'Measuring any bicycle in the documented way (geometry by offsets or '
     'directly; parts hung in three or more orientations; fork and handlebar '
     'together or split; with or without flywheel) and evaluating the '
     'measurements gives back the masses, mass centres, inertias and geometry '
     'of that bicycle, from a dictionary or from its text files, for numbers '
     'with and without uncertainty in any order; measurements that disagree '
     'are reconciled by the documented averages and least squares. '
     'Measurements and their files are not altered; saved benchmark '
     'parameters are used unless recalculation is forced.',
     INP, 'all bicycles made of real bodies, all measuring variants, noise, '
     'forms of the measurement file',
     'Nothing tests the calculation from measurements.',
     ['main.py', 'com.py', 'inertia.py', 'geometry.py', 'io.py'],
     [('calculate_benchmark_from_measured', 'main.py'),
      ('Bicycle.calculate_from_measured', 'main.py')],
     ['parameters["Benchmark"]', 'extras', 'returned dictionaries'],
     'Oracle: a forward model of the workshop and an independent evaluation '
     '(vlib/measure.py).', 'inverse of a forward measurement model, '
     'differential evaluation')
prop('C15', 'Uncertainties of measurements propagate to first order',
     'Standard deviations attached to measured or given parameters reach '
     'every derived quantity (benchmark parameters, geometry, mass centres, '
     'inertias, canonical matrices) as first order propagation prescribes, '
     'correlations through shared inputs included; '
     'nominal values are those computed without uncertainty, and results '
     'that are asked for without uncertainty are plain numbers.',
     INP, 'all parameters, all derived quantities, any standard deviations',
     'No test checks a standard deviation.',
     ['main.py', 'bicycle.py', 'geometry.py', 'inertia.py', 'com.py'],
     [('calculate_benchmark_from_measured', 'main.py'),
      ('benchmark_par_to_canonical', 'bicycle.py')],
     ['nominal values and standard deviations of results'],
     'Oracle: numerical derivatives of the nominal computation.',
     'differential against numerical first order propagation')
prop('C16', 'Pendulum recordings give the period of the oscillation',
     'The period fitted to a well sampled decaying oscillation is that of the '
     'oscillation, with the standard deviation that least squares gives, for '
     'every phase, offset, amplitude, damping and noise, for sample rates of '
     'any number type or (uneven) time stamps. Raw recordings are cut to the '
     'part after the largest deflection unless they have time stamps. The '
     'files of a directory give one period each for what was hung how, '
     'averaged over trials; periods missing for a bicycle are noticed, '
     'calculated and written to its measurements.',
     INP, 'all oscillations with at least 60 samples per period and four '
     'periods, all file forms, all sets of missing periods',
     'No test touches the period estimation.',
     ['period.py', 'main.py', 'io.py'],
     [('get_period, make_guess, jac_fitfunc', 'period.py'),
      ('calc_periods_for_files, get_period_key', 'period.py'),
      ('Bicycle.calculate_from_measured', 'main.py')],
     ['returned periods', 'measurement file', 'plots of the fits'],
     'Oracle: the simulated oscillation and an independent fit.',
     'synthetic recordings, differential against an independent fit')
prop('C17', 'Parameter, period, recording files and their names round trip',
     'Parameter files give exactly the names, values and standard deviations '
     'that are written in them, whatever the line ends, comments and blank '
     'lines; writing and reading gives the same parameters back, and '
     'updating the periods of a file changes these periods alone. Existing '
     'files are only replaced with consent, recordings and the information in '
     'their file names are read as stored.',
     ['inputs', 'histories'], 'all names, numbers of any size, line forms, '
     'answers to the question whether to overwrite',
     'A test reads one file; nothing tests writing.',
     ['io.py'],
     [('load_parameter_text_file, write_parameter_text_file', 'io.py'),
      ('write_periods_to_file', 'io.py'),
      ('filename_to_dict, load_pendulum_mat_file',
       'io.py')],
     ['returned dictionaries', 'files on disk'],
     'Oracle: the text that was generated.', 'round trip, independent writer')
prop('C18', 'Bicycle histories: load, ride, save, load again are consistent',
     'Through any sequence of loading bicycles, adding and exchanging riders, '
     'saving and loading again, the parameters of a bicycle are those of its '
     'files, combined with the last rider by adding up mass, first moments '
     'and inertia; forks, precalculated riders and saved parameters are used '
     'as documented and files of others are not touched. Missing directories, '
     'wrong names and second riders are refused or reported.',
     ['inputs', 'histories'], 'all histories of up to eight operations on two '
     'bicycles and two riders',
     'One test loads one bicycle.', ['main.py', 'inertia.py', 'io.py'],
     [('Bicycle', 'main.py'), ('combine_bike_rider', 'inertia.py')],
     ['parameters', 'results of the other methods', 'files on disk'],
     'Oracle: a model of directories and parameters.',
     'stateful, model-based histories',
     [('directory tree', 'parameter files of bicycles and riders')])
prop('C19', 'A seated rider reaches grips and pedals and adds its inertia',
     'A human placed on a bicycle sits at the saddle with the measured lean, '
     'hands on the grips and feet on the bottom bracket, bones keeping their '
     'lengths and joints within limits. The rider\'s parameters are the mass, '
     'mass centre and inertia of that human in bicycle coordinates, and '
     'adding the rider to the bicycle combines the two. The given '
     'measurements are not changed.',
     INP, 'measured humans and bicycles varied over all seats that can be '
     'reached, numbers with or without uncertainty',
     'One test seats one rider on one bicycle and compares recorded numbers.',
     ['rider.py', 'main.py'],
     [('yeadon_vec_to_bicycle_vec, rider_on_bike, configure_rider',
       'rider.py'), ('Bicycle.add_rider', 'main.py')],
     ['returned human, parameters and bicycle'],
     'Oracle: forward kinematics and segment inertias of the yeadon human.',
     'inverse kinematics checked forward, invariants')
prop('C20', 'Tables show every parameter, rounded as its uncertainty demands',
     'A value with uncertainty is shown with as many decimals as the first '
     'significant digit of the uncertainty and the uncertainty itself, for '
     'any size of either. A table has one row per parameter of any of the '
     'bicycles with the symbol of that parameter and its value for each '
     'bicycle in the right column, however often it is made from the same '
     'data.',
     ['inputs', 'histories'], 'all values and uncertainties, sets of bicycles '
     'with differing parameters, both formats',
     'Nothing tests the tables.', ['tables.py'],
     [('uround', 'tables.py'), ('to_latex', 'tables.py'),
      ('Table.create_rst_table', 'tables.py')],
     ['strings'],
     'Oracle: exact decimal arithmetic and a parser of the table.',
     'invariants, parsing the output back')
prop('C21', 'Model plots draw the numbers of the model in the units they name',
     'For every model and sweep, the eigenvalue plot draws real part and '
     'magnitude of the imaginary part of every eigenvalue at each value, mode '
     'by mode, and shades exactly the stable regions; eigenvector plots draw '
     'the components of each eigenvector of each value; simulation, mode and '
     'gain plots draw the simulated states, inputs and gains in the unit of '
     'the axis label. Options for hiding zeros, colors, own axes and unsorted '
     'modes act as documented and the model is not changed.',
     INP, 'all models, parameters swept, numbers of values, options',
     'Tests only call a few plot functions once and look at nothing.',
     ['models.py'],
     [('eigenvalue parts', 'models.py plot_eigenvalue_parts'),
      ('eigenvector components', 'models.py plot_eigenvectors'),
      ('simulations', 'models.py plot_simulation, plot_mode_simulations'),
      ('gains', 'models.py plot_gains')],
     ['lines, shaded regions, labels and titles of the returned axes'],
     'Oracle: the numeric results of a fresh model (checked by C03 to C06), '
     'compared with what is read back from the axes.',
     'differential, reading plots back')
prop('C22', 'Drawings of parameter sets show geometry and mass distribution',
     'The drawing of any parameter set shows both wheels on the ground, frame '
     'and fork as perpendiculars from the wheel centres to the steer axis, '
     'which meets the ground trail plus wheelbase ahead; each requested body '
     'has its symbol at its mass centre, its principal radii of gyration, and '
     'an ellipse of the solid with the same mass and inertia. Nothing else is '
     'drawn, z points down, all of it is within the limits, and the parameter '
     'set is not changed.',
     ['inputs', 'histories'], 'all Meijaard and Moore2019 sets, bodies, '
     'options, own axes, parameters changed between drawings',
     'Tests only call the functions once with one bicycle.',
     ['parameter_sets.py', 'geometry.py'],
     [('geometry', 'parameter_sets.py _plot_geometry_from_benchmark'),
      ('inertia ellipsoids', 'parameter_sets.py '
       'plot_body_principal_inertia_ellipsoid'),
      ('radii of gyration', 'parameter_sets.py '
       'plot_body_principal_radii_of_gyration'),
      ('person', 'parameter_sets.py plot_person_diamond')],
     ['circles, ellipses, lines and labels of the returned axes'],
     'Oracle: inertia tensors rebuilt from the drawn radii and ellipses.',
     'inverse reconstruction of the inertia from the drawing')
prop('C23', 'Plots of bicycles show their geometry, eigenvalues and Bode data',
     'The drawing of any bicycle shows wheels, frame, fork and steer axis of '
     'its parameters, the requested mass centres, inertia ellipses and '
     'measured pendulum axes with their numbers, and nothing else, and leaves '
     'the bicycle alone. Plots of eigenvalues against speed draw real part '
     'and magnitude of the imaginary part of all eigenvalues at the sorted '
     'speeds, or the largest real part, for one or several bicycles. Bode '
     'plots draw magnitude and continuous phase of the named transfer '
     'function for each speed or bicycle.',
     INP, 'all bicycles from parameter files, whole measurements with and '
     'without uncertainties, all options, all speeds, inputs and outputs',
     'Tests only call some of the plots once and look at nothing.',
     ['main.py', 'plot.py', 'geometry.py', 'io.py'],
     [('geometry', 'main.py Bicycle.plot_bicycle_geometry'),
      ('eigenvalues', 'main.py Bicycle.plot_eigenvalues_vs_speed, plot.py '
       'plot_eigenvalues'),
      ('Bode', 'main.py Bicycle.plot_bode, compare_bode_speeds, plot.py '
       'compare_bode_bicycles')],
     ['circles, ellipses, lines, labels and titles of the returned figure'],
     'Oracle: positions and inertias from the generated bodies; eigenvalues '
     'and frequency response from the equations of motion.',
     'differential, reading plots back')
prop('C24', 'The web app shows the chosen and edited bicycle in tables and plots',
     'For every sequence of choosing a bicycle, editing cells, resetting, '
     'picking display options and a speed range, the tables show the '
     'parameters of the bicycle under their labels and in their units. The '
     'geometry plot draws exactly these parameters with the requested mass '
     'centres and inertia ellipses. The eigenvalue plot draws real and '
     'imaginary parts of its eigenvalues over the chosen speeds and shades '
     'exactly the stable ones, if asked to.',
     ['histories', 'inputs'], 'all sequences of actions on the page, all '
     'bicycles of the menu, values typed into cells, speed ranges',
     'Nothing tests the app.', ['app.py', 'main.py', 'plot.py'],
     [('tables', 'app.py populate_wheel_data'),
      ('plots', 'app.py plot_update, main.py '
       '_plot_bicycle_geometry_plotly, _plot_eigenvalues_vs_speed_plotly')],
     ['HTTP answers of the app: table data and figures'],
     'A small browser keeps the page and calls the app as the page does; the '
     'model is the parameter file plus the edits made since.',
     'stateful model-based sessions over HTTP',
     [('page', 'values of tables, menu, options and slider kept by the '
       'browser')])
prop('C25', 'Steer assembly inertia is that of its parts about the steer axis',
     'For every bicycle and choice of handlebar, fork and front wheel, the '
     'inertia of the steer assembly is that of exactly these bodies, in a '
     'frame whose third axis points down the steer axis and whose second '
     'points right, about their mass centre or, if asked for, its projection '
     'on the steer axis. Its uncertainties follow to first order from those '
     'of the parameters, parts that were not measured separately raise a '
     'ValueError, and the bicycle is not changed.',
     INP, 'all bicycles with joint or separate fork and handlebar, all '
     'options, exact, uncertain and mixed parameters',
     'Nothing tests it.', ['main.py', 'inertia.py', 'geometry.py', 'com.py'],
     [('assembly', 'main.py Bicycle.steer_assembly_moment_of_inertia'),
      ('axis', 'inertia.py rotate_inertia_tensor, parallel_axis'),
      ('distance', 'geometry.py distance_to_steer_axis')],
     ['returned tensor'],
     'Oracle: sums over the bodies of the definition of a moment of inertia '
     'along unit vectors; numeric gradients for uncertainties.',
     'differential against the definition')
prop('C26', 'The bicycles that come with the package are real and agree',
     'The bicycles and parameter sets that come with the package are '
     'physically possible: positive masses above the ground whose spread '
     'along no direction is negative beyond the error of measurement. Sets of '
     'the same bicycle and rider (dictionaries in different '
     'parameterizations, files with and without riders, the menu of the web '
     'app) have the same parameters and dynamics at every speed, and the '
     'bicycles equal what their measurements give.',
     INP, 'every shipped dictionary and file, every way of loading it, every '
     'speed and gravity, every direction',
     'Tests use the sets as inputs and store what comes out.',
     ['parameter_dicts.py', 'main.py', 'io.py'],
     [('dictionaries', 'parameter_dicts.py'),
      ('files', 'data/bicycles, data/riders, bicycleparameters/app-data')],
     ['values of the sets, state matrices, eigenvalues'],
     'Oracle: the other descriptions of the same thing, and an independent '
     'evaluation of a copy of the measurements.',
     'differential between shipped descriptions over sampled routes and '
     'speeds')
