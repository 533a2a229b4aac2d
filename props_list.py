P('C03', 'Sweep kernels implement the equation of motion of their variant',
  '''For every potential, damping and evolution variant and for both precisions, the value each lattice sweep writes to the
  velocity and to the field of a site is the documented discretised equation of motion evaluated on that site's field, velocity,
  summed neighbours and the background parameters, identically for all field values. This covers the complex field (explicit,
  low-memory and spectral Laplacian), the angle field (with and without wrapping), and the two non-relativistic fields, in every SIMD lane.''',
  ['inputs', 'configurations'], 'all field and velocity values, all parameters, all potential variants, both precisions, every SIMD lane',
  '''A run samples a few potentials in single precision with one random field; a wrong coefficient, sign or lane in one variant
  only shifts results by amounts no test compares. The claim is an identity over all real field values and 35 potential variants.''',
  ['include/propagator/propXeon.h', 'include/propagator/sPropXeon.h', 'include/propagator/propThetaXeon.h', 'include/propagator/sPropThetaXeon.h',
   'include/propagator/propNaxXeon.h', 'include/propagator/propPaxXeon.h'],
  [('explicit complex-field sweep', 'propagateKernelXeon'), ('low-memory kick and drift', 'updateVXeon, updateMXeon'), ('spectral sweeps', 'sPropKernelXeon, sPropThetaKernelXeon'),
   ('angle sweep', 'propThetaKernelXeon'), ('non-relativistic sweeps', 'propagateNaxKernelXeon, propagatePaxKernelXeon')],
  'gated-SSA value numbering of the compiled kernels to polynomial normal forms, compared with the equations of motion',
  '''Decides equality of the stored expression with the specification over the reals for all inputs (rounding, overflow and NaN are outside the model). Neighbour
  values are identified up to which neighbour they are (the stencil geometry is a separate property). The momentum-space exact propagator is not covered. Trusts clang's front end and the normal-form engine.''')

P('C13', 'A run that reports a fatal error exits with a failure status',
  '''Whenever the programs report an error and terminate because of it, the exit status is non-zero, on every path, whatever
  the cause (bad option, failed file operation, unsupported configuration, failed allocation or communication).''',
  ['inputs', 'fault_sequences'], 'all command lines, all I/O, allocation and communication failures',
  '''Tests only run configurations that succeed; there are several hundred termination points and none of the failing ones is exercised.''',
  ['lib/utils/parse.cpp', 'lib/io/readWrite.pHdf5.cpp', 'lib/utils/memAlloc.cpp', 'lib/scalar/scalarField.cpp', 'lib/propagator/propagator.cpp', 'test/vaxions.cpp'],
  [('termination after an error report', 'every call of exit() and return of main()')],
  'dominator-based path rule over all exit sites in LLVM IR',
  '''Every exit site of all translation units of the default build is classified; errors are recognised by the logging level or by error wording in printed text.
  Termination through MPI_Abort, signals or uncaught exceptions is not modelled.''')

P('C04', 'Every sweep updates every site of its range exactly once',
  '''For every lattice size, block size and range, a sweep over [Vo,Vf) writes each site of the range exactly once, all of its
  components, and writes no other site - also when the tuned block does not divide the lattice rows or the number of planes - for the complex,
  angle and non-relativistic fields, in single and double precision.''',
  ['inputs', 'configurations'], 'all lattice sizes, tuned block sizes, ranges and precisions',
  '''Tests use one lattice and whatever block the tuner picked; a block that does not divide the rows updates some sites twice or skips them, which no test notices
  because the results are not compared.''',
  ['include/propagator/propXeon.h', 'include/propagator/propThetaXeon.h', 'include/propagator/propNaxXeon.h', 'include/propagator/propPaxXeon.h',
   'include/propagator/sPropXeon.h', 'include/propagator/sPropThetaXeon.h', 'include/utils/tunable.h'],
  [('blocked sweeps', 'propagateKernelXeon, updateVXeon, updateMXeon, propThetaKernelXeon, updateMThetaXeon, propagateNaxKernelXeon, propagatePaxKernelXeon'),
   ('flat sweeps', 'sPropKernelXeon, sPropThetaKernelXeon')],
  'closed-form loop bounds, guards and store addresses of the compiled sweeps, instantiated on a family of lattices and block sizes',
  '''Loop bounds, guards and addresses are extracted symbolically from LLVM IR; the exactly-once condition is decided on a finite family of lattice and block shapes (dividing and
  non-dividing blocks, one, several and no planes), the field values stay symbolic. Ranges are whole planes, as every caller passes them.''')

P('C07', 'The Laplacian of every sweep combines the true periodic neighbours of a site',
  '''For every lattice size and stencil range the finite-difference Laplacian used to update a site is ood2a times the sum over distances n=1..Ng of PC[n-1] times the sum
  of its six neighbours at distance n (periodic in x and y, adjacent planes in z) minus six times the site itself. This holds for every site, including wrap-around at the edges of the
  folded (vectorised) layout, for the complex, low-memory, angle (also wrapped to 2 pi) and non-relativistic sweeps, in both precisions.''',
  ['inputs', 'configurations'], 'all sites, lattice sizes and stencil ranges, both precisions, every potential variant',
  '''The neighbour arithmetic of the folded layout has separate code for each edge, precision and kernel; an error affects only edge rows and only some configurations, and no test compares field values.''',
  ['include/propagator/propXeon.h', 'include/propagator/propThetaXeon.h', 'include/propagator/propNaxXeon.h', 'include/propagator/propPaxXeon.h', 'include/scalar/fourier.h'],
  [('complex field', 'propagateKernelXeon, updateVXeon'), ('angle field', 'propThetaKernelXeon'), ('non-relativistic fields', 'propagateNaxKernelXeon, propagatePaxKernelXeon')],
  'symbolic address and value forms of the compiled sweeps, instantiated on small periodic lattices and compared with the stencil of the folded layout',
  '''Exact comparison of the update as a polynomial over the individual lattice sites, on lattices of 16 to 32 sites per side with 1, 2 and 5 neighbours (thorough: up to 80 sites, 1 to 5 neighbours).
  The first variant of each kernel is checked at every site, the others on one site per wrap-around class. Lattice sizes beyond these are covered only because bounds and addresses are closed forms in the size.''')

P('C05', 'Each kernel of a time step gets the background of its own conformal time',
  '''For every integrator, evolution engine (explicit, low-memory, spectral, full spectral) and field type, each kernel call of a time step receives the scale factor, its derivatives,
  the axion mass, the saxion coupling and the mass integrals evaluated at the conformal time the state has reached at that stage, never values left over from an earlier stage.''',
  ['inputs', 'configurations'], 'all step functions of all integrators and potentials, all times and step sizes, all stages',
  '''A stale background only lowers the order of the integrator; no test compares a trajectory against an analytic one.''',
  ['include/propagator/propClass.h', 'lib/propagator/propagator.cpp'],
  [('time steps', 'PropClass::sRunCpu, lowCpu, sSpecCpu, sFpecCpu, tRunCpu, tSpecCpu, tFpecCpu, nRunCpu, pRunCpu'), ('parameter block', 'loadparms')],
  'symbolic unfolding of every step function with a symbolic conformal time; every background argument is compared with the one at the current time',
  '''All paths of the step functions are unfolded (loops over stages have constant length); the background functions themselves are opaque. GPU paths are not compiled here.''')

P('C06', 'Integrators advance field, velocity and time to their stated order',
  '''A time step of size dz advances the conformal time by exactly dz, the kicks add up to dz and the drifts add up to dz, drift and time increments go together at every stage, and the
  composition of kicks and drifts agrees with the exact flow up to the integrator's order (2 for Leapfrog, multi-stage Leapfrog and Omelyan2, 4 for Omelyan4 and RKN4), for every step function; no coefficient
  outside the integrator's tables is used.''',
  ['inputs', 'configurations'], 'all integrators, all step functions, all step sizes, all Hamiltonians of the form kick + drift',
  '''A wrong coefficient leaves a stable, plausible evolution of lower order. Order conditions are algebraic identities over all systems, a run compares nothing.''',
  ['include/propagator/propClass.h', 'lib/propagator/propagator.cpp'],
  [('integrator coefficients', 'PropLeap, PropMLeap, PropOmelyan2, PropOmelyan4, PropRKN4'), ('time steps', 'PropClass::*Cpu')],
  'coefficient tables read from the constructors, step functions unfolded symbolically; order conditions checked by expansion in non-commuting words',
  '''Order conditions hold for autonomous separable systems; coefficients are compared to 1e-9. RKN4 is judged as a Runge-Kutta-Nystrom method (forces depend on positions only).''')

P('C23', 'Each stage covers the volume once, with neighbours and ghosts of that stage',
  '''In every stage of every time step each plane of the local volume is updated exactly once, and its update reads the field of that stage: neighbour planes at the same stage, ghost planes
  received after the current stage's field was complete and before they are used, and never a buffer that already holds the next stage or that was overwritten. This holds for any number of local planes that is
  one stencil depth or at least two, and both for one and for several processes.''',
  ['inputs', 'schedules', 'configurations'], 'all step functions, integrators and potentials, all stencil ranges, all local depths of one or at least two stencil depths',
  '''Wrong interior/border splits or reading ghosts before the exchange completes only affect planes near slab boundaries and depend on message timing; tests run one process and compare nothing.''',
  ['include/propagator/propClass.h', 'lib/comms/comms.cpp', 'lib/scalar/scalarField.cpp'],
  [('interior and border sweeps', 'PropClass::sRunCpu, lowCpu, tRunCpu, nRunCpu, pRunCpu'), ('ghost exchange', 'Scalar::sendGhosts')],
  'symbolic unfolding of every step function and replay of the schedule on abstract planes that carry stage labels',
  '''The schedules are unfolded for stencil ranges 1 to 5 and several local depths; sweeps are taken to update exactly their plane range and read its stencil (separate properties). Asynchronous completion is modelled at
  COMM_SDRV/COMM_WAIT granularity.''')

P('C24', 'The propagation code that runs is the one the configuration selects',
  '''For every field type, propagation engine (stencil, spectral, full spectral), integrator, dispatched potential, precision and memory mode, the step that advances the field is the one written for that
  combination: the integrator built is the requested one with the requested potential and engine, the step installed is the engine's and memory mode's, propagate() runs the step of the field's type with the given
  step size, and every kernel of the step is run for the same potential, wrapping of the angle, precision and block sizes. A potential for which no propagation code exists stops the run instead of silently
  running another one or none.''',
  ['inputs', 'configurations'], 'all field types, engines, integrators, potentials, precisions and memory modes',
  '''There are thousands of combinations selected by macros and templates; the tests run a handful of them and check no numbers.''',
  ['include/propagator/propClass.h', 'include/propagator/prop-def-mac.h', 'include/propagator/propThetaXeon.h', 'lib/propagator/propagator.cpp'],
  [('constructors and steps', 'PropClass::PropClass, PropClass::*Run*'), ('integrator selection', 'initPropagator'), ('field selection', 'propagate'), ('angle kernel selection', 'propThetaKernelXeon')],
  'unfolding of every selector over concrete selector values on the compiled program; the installed callables are resolved through the class function tables',
  '''CPU build with the default set of integrators. The angle kernels of the potentials whose reduction to the angle is the same force share one instance.''')

P('C12', 'The command line is interpreted word by word as documented',
  '''For every command line: an option stored under a documented name sets its own setting from exactly the next word when it takes a value and skips exactly that word, and a flag skips none; a missing value, an unknown
  keyword of a keyword option and an unknown word end the run with a failure status, and nothing beyond the last word is ever read; the help text names only existing options and says correctly which take a value.
  The physical parameters of a fresh run all come from their own options or defaults, and a parameter given together with a snapshot replaces the snapshot's value while one not given never does.''',
  ['inputs'], 'all option words and keywords, in any position, with or without a following word',
  '''There are over a hundred options and their combinations; tests start the programs with a few fixed command lines, and a swallowed or swapped value still runs.''',
  ['lib/utils/parse.cpp'], [('argument loops', 'parseArgs, parseDims'), ('help', 'PrintUsage'), ('cosmology', 'createCosmos')],
  'path unfolding of the argument loops for every option literal over a symbolic command line',
  '''Which setting each option names is specified for the documented options only; values out of range are covered only as far as the program rejects them itself. --lz2e replaces a snapshot's value only together with
  --msa or --llcf, as documented for the string simulation options.''')

P('C14', 'Every Fourier plan is the one its type names and runs as asked',
  '''For every plan type, precision, direction, planner effort and grid reduction: the transform is planned with the library of the field's precision on the global grid divided by the reduction, from and to the buffers the
  type names, as real or complex as it names, with the forward transform stored as forward and the backward as backward, and with the momentum-space layout written by the one being the layout read by the other; exactly the
  directions asked for exist. Running and destroying a plan uses that library and direction. The field transform to momentum space uses the plan of its buffer and divides once by the number of points, the transform back
  undoes it, and padding and unpadding move whole rows. Every plan that is used by name is created somewhere under that name, with the directions run on it, and always with the same type.''',
  ['inputs'], 'all plan types, precisions, directions, grid sizes and reductions',
  '''The tests run a few of the eighteen plan types in one precision and mostly one direction; a wrong buffer or layout in another one changes spectra or initial conditions without any failure.''',
  ['lib/fft/fftCode.cpp', 'lib/scalar/fourier.cpp'], [('plan table', 'FFTplan::FFTplan'), ('execution', 'FFTplan::run, destroyPlan'), ('field transform', 'FTfield')],
  'unfolding of the constructor per type, precision and direction against a table of transforms, and flow of name literals to their uses',
  '''Whether a plan exists at the moment it is used, as opposed to being created anywhere with the needed direction, is not decided. The buffers are assumed to exist.''')

P('C02', 'Ghost slices arrive complete, in place, from the right neighbour',
  '''For every number of ranks, slice size, precision, field buffer and number of ghost slices asked for: each message of a ghost exchange, whether started in one go, as separate send and receive halves, or one-sided, meets
  exactly one receive of the same length at the rank it is meant for; afterwards the slices before the local field hold the last slices of the previous rank and the slices after it the first slices of the next rank,
  each byte once and in order, also when the data exceed what one message can carry and are split. Every exchange begun is waited for, on every path, before another of its kind begins and before its function returns.''',
  ['schedules', 'inputs', 'configurations'], 'all ranks of rings of every size, all buffers, slice sizes from one to ten maximal messages',
  '''The stable tests run on one rank, where each neighbour is the rank itself: wrong partners, tags or offsets only show with three ranks or more, splitting only with slices above two gigabytes.''',
  ['lib/scalar/scalarField.cpp'], [('exchange', 'Scalar::sendGeneral, sendGhosts, sendGhosts2, exchangeGhosts'), ('callers', 'spectra, masks, string search, gravity potential, axiton tracker')],
  'extraction of the MPI calls along all paths as expressions of rank and ranks, matched over rings of ranks; begin/wait typestate in every caller',
  '''Partner and tag expressions are evaluated on rings of one to six ranks. What callers do to the slices between the two halves is checked for the propagators only (C23).''')

P('C17', 'The memory of a field fits its layout and is owned once',
  '''For every field type, precision, memory mode, grid and number of ghost slices: the constructor either refuses or obtains, for each array, at least what the layout of that type needs (the points with ghost slices for m,
  two extra slices for v, room for a padded or complex copy in m2 exactly when the run keeps one), keeps every block in exactly one member, starts m and v at zero, never initialises past a block, and plans Fourier transforms
  only over arrays that exist and within them. The destructor, whatever type the field has been turned into since, frees every block exactly once and nothing else. Rescaling touches exactly the array it names.''',
  ['inputs', 'configurations', 'histories'], 'all field types and conversions, precisions, memory modes, grid shapes, numbers of ghost slices',
  '''Tests build a few fields in one mode each; an overrun of some slices inside one large block, or a plan that overwrites what follows only while it measures, goes unnoticed.''',
  ['lib/scalar/scalarField.cpp', 'lib/scalar/scaleXeon.cpp', 'include/scalar/scalarField.h'], [('memory', 'Scalar::Scalar, Scalar::~Scalar'), ('rescaling', 'scaleXeon')],
  'unfolding of constructor and destructor over concrete types and sizes with a block-ownership and extent model; lattice sweep of the rescaling kernel',
  '''CPU arrays only. Grid sizes are sampled at shapes that separate the dimensions (ghost slices one to three, local depth below, equal to and above the side); refusal through exit counts as safe.''')
P('C20', 'Changing the storage order or the kind of a field keeps the physical field',
  '''Folding is one-to-one and unfolding its inverse, for m, v and m2 alike, for every field type and precision, and a call that finds the field already in the order asked for changes nothing; slices hand out exactly the points of that slice
  in row order and never touch the field. A side that cannot be folded, and a slice that does not exist or does not fit, is refused rather than mangled. The conversions complex to angle, angle to complex, angle to
  non-relativistic and angle to paxion give at every point exactly the change of variables (value and time derivative, for any expansion rate and any shift), are done in the unfolded order, and leave
  type, size of a point and vector length consistent.''',
  ['inputs', 'configurations', 'histories'], 'all field values, types, precisions, grid shapes, ghost slices, slice indices, expansion rates and shifts',
  '''The conversions work in place on arrays that change their element size, so an overwritten source shows at some points of some shapes only; derivative terms vanish in the radiation era or without shift, which is all that the tests run.''',
  ['lib/scalar/folder.cpp', 'lib/scalar/thetaXeon.cpp', 'lib/scalar/theta2CmplxXeon.cpp', 'lib/scalar/theta2NaxionXeon.cpp', 'lib/scalar/theta2PaxionXeon.cpp', 'lib/scalar/thetaScalar.cpp', 'lib/scalar/scalarField.cpp'],
  [('order of storage', 'Folder::operator()'), ('conversions', 'toThetaXeon, th2cxXeon, th2NaxionXeon, th2PaxionXeon'), ('bookkeeping', 'Scalar::setField, cmplxToTheta')],
  'abstract interpretation of the IR with element-wise symbolic memory over small lattices; algebraic comparison with the change of variables',
  '''Shapes are sampled (sides 2 to 16, up to 9 slices, 1 to 3 ghost slices); the loops have no other dependence on the shape. Exact real arithmetic. Mending of jumps in the angle (which adds multiples of a period) is only checked for when it is applied, not for which jumps it
  finds. CPU code only.''')
P('C15', 'The expanding background is self-consistent',
  '''At every time, in every regime (any expansion exponent, radiation with a matter correction, tabulated cosmology; before saturation, on the plateau, after restoration of the mass), the expansion rates are the logarithmic derivatives of the
  scale factor, the axion mass is the truncated and restored power law, its derivative and logarithmic derivative are the derivatives of that mass, and the first and second time integrals used by the spectral propagators are its integrals, in both directions of
  time and across saturation. The self-coupling and the masses of the radial field follow lambda / R^e. Every quantity asked for at a given time depends on that time only, and asked for without one is that of the present; the time step is the safety factor
  over the fastest frequency on the lattice.''',
  ['inputs', 'configurations'], 'all times, expansion exponents, mass exponents, thresholds, couplings, potentials and tables',
  '''Every stable test runs in the radiation era before saturation, where second derivatives vanish, thresholds in time and scale factor coincide and the plateau factor is not reached.''',
  ['lib/cosmos/cosmos.cpp', 'lib/scalar/scalarField.cpp'], [('background', 'Cosmos::R, Rp, Rpp, AxionMass2, DAxionMass2Dct, DlogMARDlogct, LambdaP, SaxionMass2'), ('field', 'Scalar::IAxionMassSqn, IIAxionMassSqn, Saskia, HubbleConformal, dzSize')],
  'symbolic unfolding per regime with exact differentiation and integration of the extracted expressions',
  '''Exponents are sampled (scale factor 0 to 4, mass 0 to 7); values are symbolic. Tabulated cosmology is checked on linear and quadratic tables, where finite differences are exact; the interpolation itself and the reading of the table are not covered. The integrals
  assume no restoration, as documented. The ministep over the saturation point is not covered.''')
P('C01', 'All ranks perform the same sequence of collective operations',
  '''In every program and on every path, whatever the ranks hold, receive, read or measure for themselves (their number, local lattice data, messages, timings): a collective operation - MPI, parallel HDF5, distributed Fourier transform,
  or a function that performs one - is reached by all ranks or by none, the same number of times and in the same order, unless the program ends; message counts, roots and transform sizes given to collectives are the same on all ranks.
  A run on many ranks therefore never hangs in, or mixes up, its collectives.''',
  ['schedules', 'inputs', 'fault_sequences'], 'all ranks, local data, timings and failed file operations of single ranks; all functions of all programs',
  '''The stable tests run on one rank, where no collective can mismatch; a branch that differs between ranks shows on some data only.''',
  ['lib/propagator/propagator.cpp', 'lib/io/readWrite.pHdf5.cpp', 'lib/gadget/gadget_output.cpp', 'include/gravity/potentialClass.h', 'lib/fft/fftCode.cpp', 'lib/gen/genConf.cpp', 'lib/map/maps.cpp', 'test/vaxions.cpp'],
  [('collectives', 'every call of MPI, parallel HDF5 and FFTW-MPI collectives and the functions that reach them'), ('rank dependence', 'commRank, received data, lattice data, timers')],
  'interprocedural dataflow of rank dependence with comparison of collective sequences at every dependent branch',
  '''Rank-dependent data are followed through locals, class members, globals, arguments and results, not through heap memory in general; results of files read by all ranks count as the same. Ranks that call exit are taken to end the run. Point-to-point
  messages outside the ghost exchange (C02) are not matched.''')

P('C09', 'A configuration written to disk reads back to the same state',
  '''For every field type, precision, potential, damping and evolution mode, coupling law and kind of initial conditions: a configuration (or restart) file written by writeConf and read by readConf gives back
  the same field data at the same sites on every rank, the same field type, precision, grid, time, box size, potential, couplings, axion-mass law, damping and recorded initial conditions; every attribute read is one that
  was written, with the same name and type, and fits its variable. Parameters given on the command line take precedence over the file (the expansion exponent always comes from the command line). The field is unfolded, in position space
  and on the host when its data are written. A field read as another field type is converted after it was read. Sizes: no change of grid on reading.''',
  ['inputs', 'configurations'], 'all field values, all parameter values, every enumerated field type, precision, potential, mode and initial condition',
  '''A restart with a lost or swapped parameter still runs; the tests that read configurations use one field type and the default potential, and compare nothing.''',
  ['lib/io/readWrite.pHdf5.cpp'],
  [('writing a configuration', 'writeConf'), ('reading a configuration', 'readConf'), ('attributes', 'writeAttribute, readAttribute')],
  'symbolic unfolding of the compiled writer and reader over all finite selector values; the reader is unfolded on the file model the writer produces and the resulting states are compared',
  '''HDF5 itself is trusted. The local block is unrolled for a small grid on a middle rank; the change of grid on reading and Moore-format files are not covered.''')

P('C16', 'Reported energies are those of the field that is evolved',
  '''For a complex, angular or non-relativistic field on the processor, in every precision, potential, mask and map mode, memory mode and shape of the lattice: each reported density (gradient per direction, kinetic and potential, of the radial
  and of the angular part, mean radius) is the average over all sites of all ranks of the expression that belongs to the equation of motion - half the mean of the squared forward and backward differences along the axis it is named after, the square of the physical
  velocity with the Hubble term of the model at the field's time, the potential whose derivative is the force - with each site counted once and with its own periodic neighbours. Masked averages are the same over the unmasked sites.
  Energy maps hold the density of each site at that site, in the unfolded order. Asking for energies alone changes neither the field nor m2.''',
  ['inputs', 'configurations'], 'all field values, potentials, precisions, modes of the energy calculation, lattice shapes, numbers of ranks and ghost slices',
  '''Energies feed no evolution, so a wrong term changes no other output; the tests run one potential, one precision and one mode, and compare none of the numbers.''',
  ['lib/energy/energyXeon.cpp', 'lib/energy/energyThetaXeon.cpp', 'lib/energy/energyPaxionXeon.cpp', 'lib/energy/energy.cpp'],
  [('energies of the complex field', 'energyKernelXeon'), ('energies of the angle', 'energyThetaKernelXeon'), ('energies of the non-relativistic field', 'energyPaxionKernelXeon'), ('averages', 'energy, Energy::runCpu')],
  'symbolic reduction of the vectorised kernels: normal form of the summand of each total, instantiated on small folded lattices and compared with the density built from the site and its neighbours; unfolding of the drivers',
  '''Exact real arithmetic. V_QCDL of the angle (reported as 1-cos), V_PQ3 and the Naxion field (for which the code computes nothing) are not covered; V_QCD reports 1-cos by design. CPU code only.''')

na('C60', 'Discretised solutions converge to the continuum',
  '''As lattice spacing and time step shrink, fields, string densities, axion spectra and final axion number converge to those of the continuum equations of motion.''',
  ['inputs', 'configurations'], 'all initial fields, box sizes and times',
  '''A convergence statement quantifies over sequences of large runs.''', ['lib/propagator/propagator.cpp'], [('evolution', 'propagate')],
  '''Sizes of discretisation and rounding errors depend on run-time field values that no sound static argument in reach bounds; what is decided instead is that scheme, order and coefficients are those of a consistent method (C03, C05, C06, C07).''')
na('C61', 'Conserved quantities stay constant along a run',
  '''In a static background energy, and for the non-relativistic field particle number, drift by no more than the order of the integrator allows over any number of steps.''',
  ['inputs', 'histories'], 'all initial fields and numbers of steps',
  '''The drift accumulates over runs longer than any test.''', ['lib/propagator/propagator.cpp', 'lib/energy/energy.cpp'], [('evolution', 'propagate'), ('energies', 'energy')],
  '''The amount of drift is a bound on floating-point values along a trajectory; no static argument in reach gives one. Consistency of force and reported energy is decided by C16 and C03.''')
na('C62', 'Random initial conditions have the requested statistics',
  '''Initial fields drawn from a spectrum, with smoothing or as strings, have the variance, correlation length and independence asked for, for every seed and number of threads.''',
  ['inputs', 'schedules'], 'all seeds, grid sizes and numbers of threads',
  '''A distribution cannot be settled by the few seeds of a test.''', ['lib/gen/randXeon.cpp', 'lib/gen/momConf.cpp', 'lib/gen/smoothXeon.cpp'], [('initial conditions', 'genConf, randConf, momConf, smoothXeon')],
  '''A statement about the distribution of pseudo-random output, which depends on the generator's run-time state; not a property of paths, types or flows.''')
na('C63', 'Power spectra equal those of the analytic field',
  '''The binned spectra of a field with a known spectrum (plane waves, Gaussian fields) equal it up to binning and mask corrections of the stated size.''',
  ['inputs'], 'all fields, binnings and masks',
  '''Tests sample a handful of modes.''', ['lib/spectrum/spectrum.cpp'], [('spectra', 'SpecBin::nRun, fillBins, matrixbuilder')],
  '''The mask correction is a numerical matrix inversion, and accuracy of binning depends on values; no static rule in reach bounds either.''')
na('C64', 'The tuner never makes a run slower than the default',
  '''Block sizes chosen by the tuning of kernels are at least as fast as the default ones on the machine used.''',
  ['schedules', 'configurations'], 'all machines, grid sizes and loads',
  '''Depends on the machine and its load.''', ['lib/propagator/propagator.cpp'], [('tuning', 'tunePropagator')],
  '''Timing is not a property of the source.''')

P('C18', 'Threads never race on shared memory',
  '''In every parallel section of the library, for any number of threads and any schedule: no two threads can access the same memory, one of them writing, without a lock, an atomic operation, a reduction or a barrier that orders them;
  an element written by one iteration of a shared loop is not touched by another; a value is not written depending on an earlier unprotected read of it; and nothing with a hidden state (libc random numbers, MPI, HDF5, planning) is called by several threads
  at once. So results do not depend on how the work is shared out, apart from rounding in sums and from the random initial conditions.''',
  ['schedules', 'inputs'], 'all schedules and numbers of threads, all parallel sections of the library',
  '''A race shows in some schedules only; tests run with few threads on tiny grids, where it hardly ever does.''',
  ['lib/energy/energyXeon.cpp', 'lib/energy/energyThetaXeon.cpp', 'lib/spectrum/spectrum.cpp', 'lib/strings/stringXeon.cpp', 'lib/strings/stringCpu.cpp', 'include/axiton/trackerClass.h', 'lib/gen/momConf.cpp', 'lib/scalar/mendThetaXeon.cpp', 'lib/scalar/folder.cpp', 'lib/propagator/propagator.cpp'],
  [('parallel sections', 'every omp parallel region'), ('protection', 'critical, atomic, reduction, private, single, barriers')],
  'access-set analysis of the compiler-outlined parallel regions: privacy by root of the address, locksets, barrier phases, and address forms per iteration compared pairwise',
  '''Pairs of array accesses whose addresses depend on several sizes are compared on samples of sizes and iterations; a pair that meets for some samples only is counted as undecided and not reported. Functions that are not inlined (library calls, the logger, the profiler)
  are not looked into. Storage of vectors that are elements of an array is taken to belong to the element. Different parallel sections follow one another.''')
