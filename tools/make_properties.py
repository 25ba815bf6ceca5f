"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
  assert len(title) <= 80, (id, len(title))
  P.append(dict(id=id, title=title, statement=statement,
    quantifier=dict(over=over, text=text), why_tests_cant=why,
    anchors=dict(files=files,
      state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
      mechanism=[dict(name=a, where=b) for a, b in mech],
      observe_at=list(observe), hook_needed=hook)))
S='jax_sgmc/scheduler.py'; D='jax_sgmc/data/core.py'; N='jax_sgmc/data/numpy_loader.py'
H='jax_sgmc/data/hdf5_loader.py'; TF='jax_sgmc/data/tensorflow_loader.py'; IO='jax_sgmc/io.py'
PO='jax_sgmc/potential.py'; A='jax_sgmc/adaption.py'; I='jax_sgmc/integrator.py'
SO='jax_sgmc/solver.py'; AL='jax_sgmc/alias.py'; U='jax_sgmc/util/'

p('C01','Polynomial step-size schedules follow their formula and endpoints',
 'A schedule defined by (a, b, gamma) yields exactly a*(b+n)^-gamma in iteration n; a schedule defined by a first and a last step size starts at the first, ends at the last and is the polynomial decay of the requested rate in between, including when first and last are equal. All step sizes are finite, positive and never increase. Parameters given when a single chain is initialised override the defaults for this chain only.',
 ['inputs','configurations'],'All scales, offsets, decay rates, first/last pairs and run lengths (including a single iteration) and all partial overrides.',
 'The tests sample 16 first/last combinations and only compare end points with rtol 1e-5; interior values, degenerate ends, short runs and overrides are not reached.',
 [S],[('polynomial_step_size',S),('polynomial_step_size_first_last',S)],[('step size table','step sizes of all iterations','scheduler state')],['scheduler.get / schedule.step_size'])
p('C02','Burn-in and random thinning keep exactly the announced samples',
 'The first n iterations are burn-in and never kept. Random thinning selects exactly the requested number of distinct iterations outside of burn-in, without replacement and with probability proportional to the step size, reproducibly from its key, and refuses requests which cannot be satisfied. The number of collected samples announced for a run equals the number of iterations that are actually kept.',
 ['inputs','configurations'],'All run lengths, burn-in lengths, numbers of selections, step-size schedules and keys, with schedules given as defaults or per chain.',
 'Tests check two run lengths; selection law, key reproducibility and agreement of announced and kept counts for arbitrary combinations are statements over all schedules.',
 [S],[('initial_burn_in',S),('random_thinning',S),('init_scheduler',S)],[('accepted iterations','indices selected by thinning','thinning state')],['schedule.burn_in','schedule.accept','static_information.samples_collected'])
p('C03','Adaptive step size follows dual averaging and freezes after burn-in',
 'During burn-in the adaptive step size follows the dual-averaging recursion driven by the reported acceptance ratios and by the initial step size, target rate, stabilization, decay and speed constants, each of which can be set per chain. From the end of burn-in on it stays constant, whatever acceptance is reported. A higher acceptance never leads to a smaller next step size.',
 ['inputs','histories'],'All sequences of acceptance ratios in [0,1], all admissible constants and burn-in lengths.',
 'There is no unit test of the recursion; only end-to-end runs with a single acceptance history each use it.',
 [S],[('adaptive_step_size',S)],[('x_bar','averaged log step size','scheduler state'),('h_bar','averaged acceptance error','scheduler state')],['scheduler.get'])
p('C04','The scheduler combines its parts, counts iterations and reports passively',
 'In every iteration the combined scheduler delivers exactly the values of its individual schedules, with step size 1, temperature 1, no burn-in and no thinning where none is given and the requested value of a constant temperature, and applies initial arguments and run statistics addressed to a part to this part only. The progress report never changes any scheduled value. Whenever it reports, it does so once at regular intervals with the current iteration, the total number of iterations, and the correct numbers of already kept and of announced samples.',
 ['inputs','configurations','histories'],'All combinations of sub-schedules, overrides, run lengths, report intervals and iteration histories, inside and outside of compiled code.',
 'Tests compare a dozen combinations over one run and never inspect the report or the counting.',
 [S],[('init_scheduler',S),('_progress_bar',S),('constant_temperature',S)],[('state','current iteration and total iterations','scheduler state')],['schedule','stdout'])
p('C05','Random host mini-batches obey the selected access mode',
 'Every random batch consists of rows of the reference data, with all arrays of one batch indexed identically. Drawing marks all samples as valid; shuffling returns every observation exactly once in each consecutive pass over the data, however passes and batches overlap; shuffling in epochs additionally restarts with a batch at each epoch and masks exactly the surplus samples. The sequence depends only on the seed, the mode and the batch size - not on the cache size, other chains or when batches are requested - and different seeds give different sequences.',
 ['inputs','configurations','histories'],'All dataset and batch sizes, cache sizes, seeds, modes and interleavings of several chains on one loader.',
 'Tests check a few (N, batch, cache) combinations with one chain; wrap-around defects only appear for particular divisibility patterns and after several passes.',
 [N],[('register_random_pipeline',N),('get_batches',N),('index assembly',N)],[('chain state','generator, shuffled indices, offsets per chain','loader')],['get_batches'])
p('C06','Full-data maps visit each observation exactly once, in order, every pass',
 'Mapping a function over the complete dataset processes every observation exactly once per pass, in dataset order, for any batch size, cache size and number of passes; results for surplus samples are discarded or marked by the mask. The carry is threaded through the batches in order, and the host loader, the device loader, the stateless mapper, compiled and non-compiled calls and batched and non-batched functions all deliver the same results.',
 ['inputs','configurations','histories'],'All dataset, batch and cache sizes, numbers of passes, interleavings of several map states, masking, information and batching options.',
 'Tests run one pass for a few sizes on the host; multi-pass and device behaviour and carry order are universally quantified over sizes and histories.',
 [D,N],[('full_reference_data',D),('full_data_mapper',D),('_ordered_indices',N)],[('current line / offset','position in the pass','CacheState, loader chain')],['results and carry of the map'])
p('C07','Data loader checkpoints resume the exact batch stream',
 'Restoring a saved loader state, into the same or an equally configured new loader, continues the chain with exactly the batches and masks which would have followed when the state was saved. A checkpoint is not altered by saving, by restoring or by drawing further batches and can be restored any number of times, and other chains are not affected.',
 ['histories','crash_points'],'All access modes, all points in the stream at which a state is saved, all later draws and repeated restores, several chains.',
 'Tests save at one point of the stream and restore once.',
 [N],[('save_state',N),('load_state',N)],[('chain state','generator state and index buffers','loader')],['get_batches after load_state'])
p('C08','Batches delivered inside compiled code are exactly the loader stream',
 'A program requesting mini-batches from a host loader receives, inside and outside of compiled code and loops, exactly the batches and masks which the loader produces for this chain, in order, without loss, repetition or mixing between chains and loaders, for every cache size. Reusing an outdated data state still delivers valid data (or is rejected if verification is requested), replicated programs on several devices receive identical data, and the accompanying information states the dataset size, batch size and mask.',
 ['inputs','histories','schedules','configurations'],'All cache and batch sizes, numbers and interleavings of chains, loaders and draws, jit/scan usage and device replication counts.',
 'Tests compare a single chain with one cache size; losses appear only at cache boundaries and under interleavings.',
 [D],[('random_reference_data',D),('host callback wrapper and request cache',D)],[('token','identifies the next valid request','CacheState'),('current_line','next batch in the cache','CacheState')],['batches, masks and information inside jit'])
p('C09','Device loader draws aligned, uniform, key-determined batches',
 'The device loader returns only true rows of the dataset, aligned across all arrays and fully valid, chosen uniformly and independently with replacement. The sequence is a pure function of the initial key: equal keys reproduce it, also in compiled or vectorized code, and different keys give independent sequences.',
 ['inputs','histories'],'All datasets, batch sizes, keys and draw sequences.',
 'Tests compare two keys on one dataset; uniformity and alignment for all sizes are not tested.',
 [N,D],[('get_random_data',N),('random data on device',D)],[('state','PRNG key of the chain','CacheState')],['batches and information'])
p('C10','Samples saved to HDF5 reload as reference data unchanged',
 'Samples written by the HDF5 collector and opened with the HDF5 data loader deliver, for every pytree structure, the saved values in the leaf, row and dtype in which they were saved, for both random and ordered access. The number of observations equals the number of samples saved, and each chain and sub-tree can be loaded separately.',
 ['inputs','configurations','histories'],'All sample structures, leaf shapes and dtypes, chain counts, batch and cache sizes and access modes.',
 'No stable test covers the collector/loader pair.',
 [H,IO],[('HDF5Loader',H),('HDF5Collector',IO),('pytree_dict_keys',IO)],[('leaf names','paths of leaves in the file','collector and loader')],['get_batches, full data map'])
p('C11','Tensorflow pipelines deliver dataset rows without mixing or losing keys',
 'Batches from a tensorflow dataset contain only rows of this dataset with all features of a row kept together, without the excluded features, in the announced shapes and dtypes. Over repeated passes every observation is returned equally often up to the size of the shuffle buffer, and every chain has its own stream.',
 ['inputs','histories','configurations'],'All small datasets, batch and cache sizes, shuffle buffer sizes, excluded features and chain interleavings.',
 'Tests check shapes and the absence of excluded keys, not the content of the stream.',
 [TF,D],[('TensorflowDataLoader',TF)],[('pipelines','iterator of each chain','loader')],['get_batches, initializer_batch'])
p('C12','Data loaders describe their data truthfully and reject invalid requests',
 'The initializer batch and the announced format have exactly the keys, shapes and dtypes of the batches delivered later, for a single observation as well as for any batch size, and the initializer batch is all zero. Arrays of different length, batches larger than the dataset, non-positive cache or batch sizes, unsupported mode combinations and caching on the device are rejected before any data is drawn. By default later changes of the arrays passed by the user do not change the data delivered.',
 ['inputs','configurations'],'All array collections (dtypes, shapes, lengths), batch and cache sizes.',
 'Tests use two array shapes and a few invalid arguments.',
 [N,D],[('initializer_batch and batch_format',D),('NumpyBase',N)],[],['initializer_batch','raised errors'])
p('C13','Conversion of pytrees to dictionaries is lossless and order preserving',
 'Converting any supported pytree (nested dicts, lists, tuples, named tuples, empty nodes) to a dictionary and back with the original as target restores it exactly, also for matching sub-trees. The list of access keys contains, for each leaf in the flattening order of the original tree, the path under which the dictionary holds precisely this leaf.',
 ['inputs'],'All supported pytrees of any depth, width and field naming.',
 'Stable tests do not cover the conversion; orderings only differ for particular field names and lists with more than ten elements.',
 [IO],[('pytree_to_dict',IO),('dict_to_pytree',IO),('pytree_dict_keys',IO)],[],['return values'])
p('C14','Collectors store exactly the kept samples, in order, per chain',
 'Whatever pattern of samples is kept, each way of saving (device memory, host memory, npz, HDF5, JSON) returns or writes exactly these samples, in the order of acceptance, with unchanged values, shapes and structure, each value under the name of its leaf, together with the correct sample count. Several chains using one collector, one after the other or interleaved, never see samples of each other.',
 ['inputs','histories','configurations'],'All keep patterns (also none), sample pytrees and dtypes, chain counts and interleavings, write frequencies.',
 'Tests save one integer sequence with one keep pattern.',
 [IO],[('save',IO),('no_save',IO),('MemoryCollector',IO),('HDF5Collector',IO),('JSONCollector',IO)],[('sample count','number of saved samples','collector / saving state')],['post-processed results and files'])
p('C15','Saved output is complete before results are returned',
 'Requesting the results of a finished chain from any collector returns only after all samples of this chain have been processed and written, however slowly the asynchronous writing proceeds. Afterwards nothing of this chain changes any more and other chains which are still being written do not block it.',
 ['schedules','histories'],'All relative timings of saving, finalization and requesting results from different threads, for several chains.',
 'A test only sees the timing that happens to occur, on CPU usually the synchronous one.',
 [IO],[('finalize / finished',IO),('postprocess',IO)],[('finished','synchronization between writing thread and caller','collector')],['return of finished / postprocess, files'])
p('C16','The mini-batch potential is the unbiased scaled posterior potential',
 'For each mini-batch the stochastic potential equals -(N/n * sum of the log-likelihoods + log-prior)/T, with the corresponding gradient, for each evaluation strategy and for likelihoods of single observations or of whole batches. The separate log-likelihoods are returned in batch order, masked samples do not contribute, the data is never differentiated and a model state is passed to the likelihood and returned with unchanged structure. Averaged over all equally likely batches it equals the full potential.',
 ['inputs','configurations'],'All batches (also of size one), models, parameters, temperatures, masks, strategies and model states.',
 'Tests compare strategies on a few shapes with a single model; masks, temperature and batch size one are not covered.',
 [PO],[('minibatch_potential',PO)],[],['value, gradient, auxiliary output'])
p('C17','The full potential is exact and independent of how data is batched',
 'The full potential equals -(sum of the log-likelihoods of all observations + log-prior)/T regardless of batch size, cache size, loader type, evaluation strategy, number of previous evaluations and surplus samples in the last batch. Its gradient agrees and a model state is threaded through the evaluation.',
 ['inputs','configurations','histories'],'All datasets, batch and cache sizes, loaders, models, parameters, temperatures and repeated evaluations.',
 'Tests cover two batch sizes with one host loader and one evaluation.',
 [PO,D],[('full_potential',PO),('full_reference_data',D)],[],['value, gradient and state of the full potential'])
p('C18','Adaptions act on pytrees like on vectors and RMSprop tracks its gradients',
 'Adaption strategies written for flat vectors receive the flattened sample, gradient and further positional arguments and return diagonal quantities as pytrees of the sample structure and full ones as matrices, with keyword arguments unchanged; a strategy created with a potential additionally receives the mini-batch and the potential of the flattened sample (with its model state and options) as keyword arguments. The RMSprop metric equals 1/(lambda + sqrt(v)) with v the exponential average of the squared gradients with the rate of this chain, its square root is consistent and the drift correction vanishes.',
 ['inputs','histories'],'All parameter pytrees, gradient sequences and adaption constants.',
 'Tests exercise the decorator with one tree; the RMSprop recursion is only run end-to-end.',
 [A],[('adaption decorator',A),('rms_prop',A)],[('v','averaged squared gradient','adaption state')],['get of the adaption'])
p('C19','The adapted mass matrix is the inverse sample covariance after burn-in',
 'Before the end of burn-in the mass follows the initial covariance (unit by default); from then on the inverse mass equals the covariance of exactly the burn-in samples and is not updated any more, for diagonal and full matrices. The returned square root of the mass is always consistent with the returned inverse mass.',
 ['inputs','histories'],'All sample sequences with non-degenerate covariance, dimensions, burn-in lengths and initial covariances.',
 'There is no test of the mass adaption.',
 [A],[('mass_matrix',A)],[('mean, ssq','Welford statistics','adaption state')],['inv and sqrt of the mass'])
p('C20','The Fisher noise model equals the gradient covariance of the batch',
 'The estimated gradient noise is half the step size times the sample covariance of the per-observation log-likelihood gradients of the current mini-batch, full or restricted to its diagonal. The returned square roots reproduce this estimate and the remaining friction, whenever the friction exceeds the estimate, for any parameter pytree; if the friction exceeds the diagonal estimate only for some parameters, the remaining friction of the others stays positive and finite.',
 ['inputs','configurations'],'All batches, models, parameters, step sizes and frictions dominating the noise estimate.',
 'There is no unit test; end-to-end runs cannot distinguish wrong noise estimates.',
 [A],[('fisher_information',A)],[],['noise model returned by the adaption'])
p('C21','Langevin diffusion performs the preconditioned stochastic gradient step',
 'One step moves the parameters by -eps*G^-1*grad(U~) + eps*Gamma + sqrt(2*eps*T)*G^-1/2*xi with U~ evaluated on the next batch of the chain, G the current adapted metric (identity without adaption) and xi standard normal, independent between steps, leaves and entries. Reported potential, variance and model state belong to the evaluated batch, at temperature zero the step is deterministic gradient descent and runs are reproducible from key and data state.',
 ['inputs','histories','configurations'],'All potentials, parameter pytrees, step sizes, temperatures, adaptions, keys and numbers of steps.',
 'Only end-to-end runs with loose tolerances exist.',
 [I],[('langevin_diffusion',I),('random_tree',I)],[('key','PRNG state','LangevinState')],['integrator state'])
p('C22','OBABO integration is reversible with exact energy accounting',
 'A step refreshes the momentum to sqrt(exp(-gamma*eps)) of its value plus matching Gaussian noise of covariance (1-exp(-gamma*eps))*T*M, before and after a leapfrog step with a fresh mini-batch for each half kick. Without friction the integration is time reversible for constant batches, the reported kinetic energies are those before and after the leapfrog parts summed over all steps, and the refreshment leaves the Gaussian momentum distribution of covariance T*M invariant, for any constant or adapted mass.',
 ['inputs','histories','configurations'],'All potentials, masses, step sizes, frictions, temperatures, step counts and initial momenta.',
 'No test examines the integrator state; only end-to-end statistics exist.',
 [I],[('obabo',I),('init_mass',I)],[('momentum','momentum','ObaboState'),('kinetic energies','accumulated kinetic energies','ObaboState')],['integrator state'])
p('C23','The AMAGOLD leapfrog follows its discretization and energy accounting',
 'Each trajectory consists of a half position step, momentum updates ((1-eps*beta)*p - eps*grad(U~) + noise)/(1+eps*beta) with noise of covariance 4*eps*beta*M at positions one full step apart, and a closing half step. The accumulated energy is the sum of eps/2 * (p+p_new)^T M^-1 grad(U~) of exactly this trajectory, starting at zero for each trajectory. Initial momenta have covariance M and without friction the trajectory is time reversible.',
 ['inputs','histories','configurations'],'All potentials, masses, step sizes, frictions, step counts and consecutive trajectories.',
 'No test examines the integrator state; only end-to-end statistics exist.',
 [I],[('reversible_leapfrog',I)],[('potential','accumulated energy','LeapfrogState')],['integrator state'])
p('C24','The SGHMC leapfrog follows its friction and noise law',
 'Each call draws a new momentum of covariance M and then performs the requested number of steps x += eps*M^-1*p, p += -eps*C*M^-1*p - eps*grad(U~(x)) + noise with a new mini-batch per step. The noise has covariance 2*eps*C, or 2*eps*(C-B) with an estimated gradient noise B, for scalar or per-parameter friction C and any diagonal mass. The reported potential belongs to the last evaluated batch.',
 ['inputs','histories','configurations'],'All potentials, masses, frictions, step sizes, step counts and noise models.',
 'Only end-to-end runs with loose tolerances exist.',
 [I],[('friction_leapfrog',I)],[('momentum','momentum','LeapfrogState')],['integrator state'])
p('C25','AMAGOLD samples the exact posterior by its Metropolis correction',
 'A proposal is accepted with probability min(1, exp(U(x) - U(x_new) + accumulated energy)); on acceptance position, potential and model state of the proposal are adopted, on rejection position and potential are kept and the momentum is reversed, while random numbers and data always advance. The chain leaves the exact posterior of the full data invariant for every step size, friction and mini-batch size. Reported acceptance probability, step size and potential belong to this step and a mass is adapted only with the resulting samples.',
 ['inputs','histories','configurations'],'All target distributions, step sizes, frictions, trajectory lengths, batch sizes and chain lengths.',
 'Tests compare single runs with wide statistical tolerances in a regime with few rejections.',
 [SO,I],[('amagold',SO),('reversible_leapfrog',I)],[('potential','full potential of the current sample','AMAGOLDState'),('integrator_state','position and momentum','AMAGOLDState')],['solver state, collected samples'])
p('C26','SGGMC samples the exact tempered posterior by its Metropolis correction',
 'A proposal is accepted with probability min(1, exp(-(change of the full potential + change of the kinetic energy during the leapfrog parts)/T)); on acceptance position, momentum, potential and model state are adopted, on rejection position and potential are kept and the momentum is reversed, while random numbers and data always advance. The chain leaves the posterior at the scheduled temperature invariant for every step size, friction and mini-batch size. Reported acceptance probability, step size, kinetic energy change and potential belong to this step.',
 ['inputs','histories','configurations'],'All target distributions, step sizes, frictions, temperatures, trajectory lengths, batch sizes and chain lengths.',
 'Tests compare single runs with wide statistical tolerances in a regime with few rejections.',
 [SO,I],[('sggmc',SO),('obabo',I)],[('potential','full potential of the current sample','SGGMCState'),('integrator_state','position and momentum','SGGMCState')],['solver state, collected samples'])
p('C27','Parallel tempering swaps replicas by the bias-corrected rule',
 'In each iteration both replicas perform one step with their own schedule and are then exchanged with probability min(1, exp(d*(U_cold - U_hot - d*V/F))), where d is the difference of the inverse temperatures and V the running average of the reported variances of the stochastic potential. An exchange swaps the complete replica states, otherwise both stay as they are, and only the sample of the cold replica is reported.',
 ['inputs','histories'],'All potentials, temperatures, variances, correction factors, averaging rules and run lengths.',
 'Tests only run a single seed end-to-end.',
 [SO],[('parallel_tempering',SO)],[('ssq estimate','running variance','solver state')],['solver state, get'])
p('C28','Running chains equals stepping the solver and scheduler by hand',
 'A run of n iterations applies the solver update n times with the schedule of each iteration, passes the reported statistics to the schedules of the following iteration and keeps the new sample of precisely those iterations which are neither burn-in nor rejected by thinning. Results of each chain depend only on its own initial state: they are the same alone or with other chains, sequential, vectorized or parallel, with samples kept on the device or on the host, and when repeated. Additional schedules reach the solver in the given order and only the first decides what is kept.',
 ['inputs','histories','configurations'],'All deterministic or random solvers, schedules, iteration counts, chain counts and execution strategies.',
 'Tests run single end-to-end examples and never compare executions.',
 [SO,IO,S],[('mcmc',SO),('sgmc',SO)],[('scheduler states','one per schedule','run loop')],['samples and sample_count'])
p('C29','Ready-to-use solvers honour their arguments',
 'Each ready-to-use solver returns, for each chain, the requested number of samples from after burn-in, with the structure of the initial sample, and gives the same samples whether they are collected on host or device and with or without progress report. Its results equal those of the sampler composed by hand from the building blocks with the same arguments (step sizes, batch and cache size, friction, mass, integration steps, temperature, adaption settings), where arguments which are not given take their documented default values. Progress is reported only if requested.',
 ['inputs','configurations'],'All admissible argument combinations of the ready-to-use solvers, loaders and chain counts.',
 'Tests use one argument combination per solver and a loose statistical check.',
 [AL],[('sgld',AL),('re_sgld',AL),('amagold',AL),('sggmc',AL),('sghmc',AL),('obabo',AL)],[],['results of the run function'])
p('C30','Pytree algebra, list mapping and identifiers obey their laws',
 'Sums, products, scalar products, scalings and matrix and tensor products of pytrees equal the corresponding operations on the flattened vectors and keep the tree structure. Stacking a list of equal-structured trees and splitting it again is the identity, and mapping a function over a list of trees (vectorized or parallel) equals applying it to each tree. Identifiers survive the conversion to device arrays and back, and differently created ones differ.',
 ['inputs'],'All pytrees, leaf shapes, dtypes, list lengths, matrices and identifiers.',
 'Tests check single trees; structural laws are universally quantified.',
 [U+'tree_util.py',U+'list_map.py',U+'uuid.py'],[('tree operations',U+'tree_util.py'),('list_vmap/list_pmap',U+'list_map.py'),('JaxUUID',U+'uuid.py')],[],['return values'])

p('C31','Runs are reproducible and independent of any other activity',
 'The results of a program - random and full batches, schedules, samples, statistics and written files - are determined by its arguments. Repeated in another process, in another order, after or between other programs, loaders, chains and collectors, with other hash seeds, new identifiers, global random numbers or directories, each program gives identical results, and repeating it with new loaders and samplers in the same process does so, too.',
 ['inputs','histories','configurations'],'All programs composed of loaders, maps, schedules, samplers and collectors and all activities before them.',
 'Each unit test runs one program in one process; equality over processes and over all preceding activities is not stated.',
 [D,N,H,S,SO,AL,IO],[('requests of data, chains of loaders',D),('default keys',S),('registration of chains',IO)],[('global state of the process','tokens, registries, caches, identifiers',D)],['results and files of the programs'])
p('C32','Missing optional packages only disable what requires them',
 'Without any subset of the optional packages (tensorflow, tensorflow datasets, h5py, ujson, haiku), all modules which do not require them can be imported, in any order, and give the same results as with them. What requires a missing package is refused by an import error or assertion.',
 ['configurations'],'All subsets of missing packages, import orders and programs.',
 'Tests run in an environment in which everything is installed.',
 [IO,H,TF,'jax_sgmc/data/__init__.py'],[('optional imports',IO),('HDF5 loader',H),('tensorflow loader',TF)],[],['imports, exceptions, results'])
p('C33','All guarantees hold in double precision with its accuracy',
 'If 64-bit numbers are enabled in jax, schedules, data delivery, potentials, adaptions, integrators, solvers and collectors accept double precision samples, parameters and data and keep them: batches and saved samples have 64-bit types and unchanged values, and schedules, potentials, gradients, adapted quantities, energies and transitions follow the same laws with the accuracy of double precision.',
 ['configurations','inputs'],'All samples, data and parameters in double precision and all parts of the library.',
 'All tests run in single precision; intermediate conversions and offsets below its resolution stay invisible.',
 [S,D,N,IO,PO,A,I,SO,U+'tree_util.py'],[('numbers created by the library',I),('formats of batches',D),('collected samples',IO)],[],['dtypes and values of batches, states and results'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
  for q in P: f.write(json.dumps(q) + '\n')
print(len(P))
