import json
P=[]
def p(id,title,st,over,qt,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(kw)
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
core="src/core/"
p("C01","Results do not depend on how many processes the problem is run on",
"For any input deck, running the same problem on any number of MPI processes gives the same material points, the same output times and, for every point and every requested variable, the same values as a one-process run, up to floating-point roundoff. This holds for every material, damage and contact model, every time integrator, and every boundary condition, whatever the resulting partition of the points.",
["inputs","configurations","schedules"],"every valid deck x every process count (including more partitions than natural cuts) x every legal message timing",
"The stable unit tests run single classes on 1-4 processes with hand-built meshes; whole-problem decks are compared to gold files only for a few fixed process counts and cannot run here. Partition-dependent defects appear only for particular meshes cut at particular places.",
[core+"Peridigm.cpp",core+"Peridigm_Block.cpp",core+"Peridigm_BlockBase.cpp",core+"Peridigm_ModelEvaluator.cpp",core+"Peridigm_DataManager.cpp","src/io/pdneigh/NeighborhoodList.cxx","src/io/discretization/Peridigm_Discretization.cpp"],
[("overlap import / export of point data","Block::importData / exportData, DataManager"),("ghost synchronisation after precompute","DataManagerSynchronizer in Peridigm_Block.cpp"),("force assembly onto owners","Peridigm::executeExplicit / computeInternalForce"),("parallel neighbour search","NeighborhoodList, ProximitySearch")],
observe_at=["exodus result files of all ranks, joined on global node/element id"])
p("C02","Repeating a run with other timing or memory contents gives identical results",
"For a fixed deck and process count, everything the program computes and writes is bit-for-bit the same whatever the relative speed of the processes, the delay and arrival order of messages between them, the wall clock, and the previous contents of the memory it is given. The only parts of the output allowed to differ are timing reports and the date stamps in file headers.",
["schedules","inputs","configurations"],"every interleaving of process steps and message deliveries, every clock reading, every initial heap content",
"A unit test sees one uncontrolled schedule per run and usually freshly zeroed memory; a race on receive order or an uninitialised read changes results only under other schedules or heap contents.",
[core+"Peridigm.cpp",core+"Peridigm_Block.cpp",core+"Peridigm_DataManager.cpp",core+"Peridigm_State.cpp",core+"Peridigm_ContactManager.cpp","src/io/pdneigh/PdZoltan.cxx","src/io/Peridigm_ProximitySearch.cpp","src/io/Peridigm_OutputManager_ExodusII.cpp"],
[("message receipt and packing","PdZoltan pack/unpack, ProximitySearch, Epetra Import/Export"),("field storage initialisation","State / DataManager allocation"),("timers and date stamps","Peridigm_Timer, OutputManager_ExodusII::initializeExodusDatabase")],
observe_at=["result files, restart files, exit status"])
p("C03","Every valid run terminates under any legal message timing",
"A valid deck run on any number of processes runs to completion with a success status under every legal message-passing behaviour, including sends that block until received and processes that run arbitrarily slower than others. All processes take part in the same collective operations in the same order with matching sizes, and no message is left unreceived or truncated when the run ends.",
["schedules","inputs","configurations"],"every valid deck x process count x legal schedule and buffering behaviour, including ranks that own nothing of a block, node set, contact block or output set",
"Tests run on shared-memory MPI with eager sends and balanced fixtures; a collective skipped on one rank or a send cycle only hangs for some partitions or with rendezvous sends.",
[core+"Peridigm.cpp",core+"Peridigm_ContactManager.cpp",core+"Peridigm_Block.cpp","src/io/Peridigm_ProximitySearch.cpp","src/io/pdneigh/PdZoltan.cxx","src/io/discretization/Peridigm_TextFileDiscretization.cpp","src/io/Peridigm_OutputManager_ExodusII.cpp","src/compute/"],
[("collectives inside per-block or per-rank conditions","computes, output manager, contact manager, discretizations"),("point-to-point exchange","PdZoltan, ProximitySearch, Epetra distributor")],
observe_at=["MPI call history of every rank","exit status of every rank"])
p("C04","A failure on any one process ends the whole job with a failure status",
"If any single process hits an error it cannot continue from - an unreadable or malformed input file, a failed system call, an exhausted allocation, an invalid state - then the whole job stops within bounded time with a nonzero exit status. It never hangs waiting for the failed process and never reports success.",
["fault_sequences","inputs","schedules"],"every failing operation (allocation, open, read, write, directory creation) on every rank at every point of the run, and every malformed input",
"Unit tests never inject failures into one process of a parallel run, and a hang of the surviving processes cannot be observed by a passing test.",
[core+"Peridigm_Main.cpp",core+"Peridigm_Factory.cpp",core+"Peridigm.cpp","src/io/pdneigh/PdZoltan.cxx","src/io/discretization/Peridigm_TextFileDiscretization.cpp","src/io/Peridigm_OutputManager_ExodusII.cpp"],
[("top-level exception handling","main()"),("library failure handling","getLoadBalancedDiscretization"),("input validation","TextFileDiscretization, Factory")],
observe_at=["exit status of the job","blocked-rank detection"])
p("C05","A run resumed from restart data continues exactly as if uninterrupted",
"With restart enabled, splitting a simulation into any number of consecutive jobs, each resuming from the restart data of the one before on the same number of processes, gives at every common output time the same point values (positions, velocities, forces, damage and material history) as a single uninterrupted run. The resumed job starts from the time and state the previous job finished with.",
["histories","inputs","configurations"],"every split of the time interval into jobs, every material/damage/contact model that can be restarted, every process count and schedule",
"The only restart test is one regression deck on an Exodus mesh compared with a loose tolerance; no unit test writes and reads restart data, and lost history variables only show later in the run for particular models.",
[core+"Peridigm.cpp",core+"Peridigm_Block.cpp",core+"Peridigm_DataManager.cpp",core+"Peridigm_State.cpp"],
[("restart writing and reading of global vectors","Peridigm::writeRestart / readRestart / InitializeRestart"),("per-block field data","State::writeStateData / readStateData")],
observe_at=["result files of the jobs","restart directories"])
p("C06","A job killed at any moment never makes the next run resume from partial data",
"If the job is killed at any instant, including while restart data is being written, the next run with restart enabled resumes from the most recent restart data that was completely written, or stops with an error. It never silently continues from a partial, mixed or out-of-date state, whatever the file time stamps say.",
["crash_points","fault_sequences","histories"],"every kill point between and inside file operations, every earlier history of completed restarts, every wall-clock setting or step",
"Tests never kill the program; the window is between individual file operations of one restart dump.",
[core+"Peridigm.cpp",core+"Peridigm_State.cpp"],
[("restart directory creation, naming and selection","Peridigm::writeRestart / InitializeRestart"),("multi-file restart dump","State::writeStateData")],
observe_at=["file system contents after the kill","results of the next job"])
p("C07","Result files hold every point exactly once at every requested output step",
"Taken together, the result files of all processes contain every material point exactly once, with its own id, block, position and values, and every requested variable at exactly the output steps asked for by output frequency, first and last step. Several output specifications in one deck do not influence each other or the computed results.",
["inputs","configurations","schedules"],"every deck, output specification, variable set, block layout and process count",
"Unit tests open at most one tiny output file on one or two processes and do not join the pieces or vary the output settings.",
["src/io/Peridigm_OutputManager_ExodusII.cpp","src/io/Peridigm_OutputManagerContainer.hpp",core+"Peridigm.cpp","src/io/discretization/Peridigm_Discretization.cpp"],
[("per-rank exodus files with id maps","OutputManager_ExodusII::initializeExodusDatabase / write"),("output step selection","OutputManager_ExodusII::write"),("several output managers","OutputManagerContainer")],
observe_at=["all result files of the run"])
p("C08","A failing disk is never hidden behind a successful exit",
"If writing a result file or restart data fails in any way the operating system reports - disk full, I/O error, short write, failure to create or close a file or directory - the job does not end with a success status. Result files and restart data that were completed before the failure stay intact.",
["fault_sequences","crash_points","configurations"],"every write-side system call of every rank failing with every error, once or persistently",
"Unit tests never make the disk fail; unchecked return values are invisible without fault injection.",
["src/io/Peridigm_OutputManager_ExodusII.cpp",core+"Peridigm.cpp",core+"Peridigm_State.cpp",core+"Peridigm_DataManager.cpp",core+"Peridigm_Main.cpp"],
[("exodus return code handling","OutputManager_ExodusII::reportExodusError"),("restart writes","Peridigm::writeRestart, State::writeStateData")],
observe_at=["exit status","files left behind"])
p("C09","Bonds are exactly the pairs within the horizon, wherever the mesh is cut",
"Each point is bonded to exactly those other points that lie within its own horizon and are not separated by a bond filter or by an excluded pair of blocks, no matter how the points are distributed over processes or how horizons vary from point to point. The reported number of neighbours and neighbourhood volume of every point agree with that set.",
["inputs","configurations","schedules"],"every point cloud, horizon (per block or position dependent), bond filter, block-exclusion setting and partition",
"Unit tests check a few regular lattices with one horizon on fixed process counts; misses need unequal horizons or geometry across a partition boundary.",
["src/io/pdneigh/NeighborhoodList.cxx","src/io/pdneigh/BondFilter.cxx","src/io/Peridigm_ProximitySearch.cpp","src/io/Peridigm_ZoltanSearchTree.cpp","src/io/discretization/Peridigm_TextFileDiscretization.cpp","src/io/discretization/Peridigm_PdQuickGridDiscretization.cpp",core+"Peridigm_HorizonManager.cpp"],
[("off-process candidate exchange","NeighborhoodList::createAndAddNeighborhood, ProximitySearch"),("bond filters","BondFilter.cxx"),("per-point horizon","HorizonManager")],
observe_at=["Number_Of_Neighbors and Neighborhood_Volume in result files"])
p("C10","Internal and contact forces never change the total momentum of the system",
"In a run without external loads or prescribed motion the total linear momentum stays at its initial value at every output time, for every material, damage and contact model, mixture of blocks and number of processes. For materials whose bond forces act along the bond the total angular momentum is conserved as well.",
["inputs","configurations","schedules"],"every unloaded deck, partition and schedule, over the whole history",
"Needs force pairs whose two ends are on different processes or in different blocks; unit tests evaluate forces of two-point fixtures on one process.",
[core+"Peridigm_ModelEvaluator.cpp",core+"Peridigm.cpp",core+"Peridigm_ContactManager.cpp","src/materials/","src/contact/Peridigm_ShortRangeForceContactModel.cpp","src/compute/Peridigm_Compute_Linear_Momentum.cpp","src/compute/Peridigm_Compute_Angular_Momentum.cpp"],
[("equal and opposite bond contributions","material internal force kernels"),("assembly of ghost contributions exactly once","exportData with Add"),("contact force pairs","ShortRangeForceContactModel")],
observe_at=["velocities, volumes and positions in result files"])
p("C11","Damage only grows, stays between 0 and 1 and is seen alike by all processes",
"The damage of every point lies between 0 and 1 and never decreases from one output time to the next, through any loading history, load balancing or restart. Damage of a point is the fraction of its bonds that are broken, a bond that exceeds the failure criterion is broken for the rest of the analysis, and both ends of a bond agree about it on every partition.",
["histories","inputs","configurations","schedules"],"every loading/unloading history, damage model, partition, rebalance and restart history",
"Unit tests break one bond once; healing needs unloading, restart, or a bond across a partition boundary.",
["src/damage/",core+"Peridigm_ModelEvaluator.cpp",core+"Peridigm_Block.cpp",core+"Peridigm_State.cpp",core+"Peridigm.cpp"],
[("bond damage state carried from step to step","damage models, State N / NP1 swap"),("bond data through restart","State::writeStateData")],
observe_at=["Damage in result files"])
p("C12","Contact load balancing and search timing never change the physics",
"Redistributing points between processes for contact, at any frequency and on any number of processes, loses, duplicates or corrupts no point or point data and changes no result beyond roundoff, provided the search radius covers the motion between searches. Contact acts exactly between unbonded points closer than the contact radius, equally and oppositely.",
["inputs","configurations","schedules","histories"],"every contact deck, search frequency, process count and schedule over histories with repeated redistribution",
"Contact rebalancing moves data between processes only in multi-step parallel contact runs, which no stable test performs.",
[core+"Peridigm_ContactManager.cpp",core+"Peridigm_ContactBlock.cpp",core+"Peridigm_DataManager.cpp","src/contact/","src/io/Peridigm_ProximitySearch.cpp"],
[("rebalance of contact data","ContactManager::rebalance"),("contact neighbour search","ContactManager::createRebalancedContactNeighborList"),("contact force","ShortRangeForceContactModel")],
observe_at=["result files, compared across search frequencies and process counts and with a pairwise reference model"])
p("C13","Prescribed and initial conditions hold exactly on every node of their set",
"At every output time, each node of a set with a prescribed displacement or temperature has exactly the value of the user's expression at its position and that time (accumulated over the run for increments), each initial condition is met at the initial time, and body forces act on exactly the nodes of their set with the stated value. Nodes outside the set are unaffected, whichever process owns them and however sets overlap.",
["inputs","configurations","histories"],"every node set, expression of position and time, coordinate, solver sequence and partition",
"Unit tests evaluate conditions on one process with one set; ownership and solver sequences are not varied.",
[core+"Peridigm_BoundaryAndInitialConditionManager.cpp",core+"Peridigm_BoundaryCondition.cpp",core+"Peridigm.cpp","src/io/discretization/Peridigm_Discretization.cpp"],
[("node set ownership filtering","BoundaryAndInitialConditionManager::initialize"),("condition evaluation","BoundaryCondition::apply"),("use in integrators","Peridigm::execute*")],
observe_at=["Displacement, Velocity, Temperature, Force in result files"])
p("C14","Global output quantities equal the aggregate of the per-point values",
"Every global quantity in the results - kinetic energy, linear and angular momentum, sums, minima and maxima over a block or node set, values tracked at the nearest point - equals the same aggregate computed from the per-point results of that output time. It is the same in the file of every process and for every process count.",
["inputs","configurations","schedules"],"every set, block, tracked position, process count (including processes owning none of the points involved)",
"Unit tests compute global quantities on one mesh with all processes populated; empty contributions and ties across processes are not exercised.",
["src/compute/",core+"Peridigm_ComputeManager.cpp","src/io/Peridigm_OutputManager_ExodusII.cpp",core+"Peridigm_DataManager.cpp"],
[("reductions over processes","Compute_* classes"),("global data storage","DataManager global data"),("global variable output","OutputManager_ExodusII::write")],
observe_at=["global and nodal variables in result files"])
p("C15","An accepted implicit or quasi-static step is in equilibrium",
"Every load or time step that an implicit, quasi-static or implicit-diffusion run accepts and writes as results satisfies the discrete balance equations at every unconstrained point to the requested tolerance, on any number of processes. If a step cannot be brought to that tolerance the run says so or fails rather than presenting the step as a normal result.",
["inputs","configurations","histories"],"every deck, load history, tolerance, iteration limit, process count and schedule",
"Existing tests compare two decks with gold files; they do not check residuals, non-converged steps or parallel assembly.",
[core+"Peridigm.cpp",core+"Peridigm_ModelEvaluator.cpp",core+"Peridigm_SerialMatrix.cpp",core+"Peridigm_BoundaryAndInitialConditionManager.cpp"],
[("nonlinear iteration and acceptance","Peridigm::executeQuasiStatic / executeImplicit / executeNOXQuasiStatic / executeImplicitDiffusion"),("residual with constraints","computeQuasiStaticResidual, applyKinematicBC_InsertZeros")],
observe_at=["Force_Density, Acceleration, Displacement in result files","log text about convergence","exit status"])
p("C16","Distributing the mesh loses, duplicates or changes no point",
"For any number of processes, every point of the input mesh is owned by exactly one process and keeps its id, position, volume, block and horizon; node sets keep exactly their members. Points read from a file that cannot be represented faithfully cause an error instead of being dropped or altered.",
["inputs","configurations","schedules"],"every mesh (including fewer points than processes, clustered or collinear points, comments and odd spacing in the file), generator setting and process count",
"Unit tests distribute small regular grids on at most a few processes.",
["src/io/pdneigh/PdZoltan.cxx","src/io/discretization/Peridigm_TextFileDiscretization.cpp","src/io/discretization/Peridigm_PdQuickGridDiscretization.cpp","src/io/discretization/Peridigm_Discretization.cpp","src/io/mesh_input/"],
[("load balancing with data migration","PdZoltan"),("mesh reading and id assignment","TextFileDiscretization::getDecomp"),("grid generation","QuickGrid")],
observe_at=["ids, coordinates, Volume, Horizon, blocks and node sets in result files"])
p("C17","Rigid motions of a body produce no internal force",
"For every constitutive model, translating and rotating a body without deforming it produces no internal force, stress or damage. Stored elastic energy is unchanged by such motions.",
["inputs"],"every rigid motion, configuration and material parameter set",
"Unit tests check one or two motions per material.",
["src/materials/"],[("deformation measures","material kernels")],observe_at=["Force_Density"])
p("C18","Tangent stiffness equals the derivative of the internal force",
"For every material that supports implicit analysis the assembled tangent is the derivative of the internal force with respect to the displacements.",
["inputs"],"every configuration and material parameter set",
"Unit tests check two-point configurations.",
["src/materials/Peridigm_Material.cpp","src/materials/Peridigm_ElasticMaterial.cpp"],[("finite-difference and automatic-differentiation tangents","Material::computeJacobian")])
p("C19","Meshes read from Exodus files are reproduced faithfully",
"Blocks, node sets, element volumes and connectivity of an Exodus mesh are carried over into the analysis without loss on any number of processes.",
["inputs","configurations"],"every mesh file",
"Needs mesh files beyond the few in the tests.",
["src/io/discretization/Peridigm_ExodusDiscretization.cpp"],[("Exodus reader","ExodusDiscretization")])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
