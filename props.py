"""What each check runs: property -> harnesses, drivers, rules (alarm kinds) and witnesses."""
RULES = {
 'LEAK': 'every resource obtained (descriptor, stream, heap block, mapping, semaphore, attribute object, thread task) is released before the last reference to it is lost, on every path',
 'DOUBLE_RELEASE': 'no resource is released twice',
 'USE_AFTER_RELEASE': 'no released memory, stream or descriptor is used',
 'BAD_RELEASE': 'every resource is released by the matching function',
 'BAD_HANDLE': 'no operating system call is issued on a handle that was never obtained, failed to open or is closed',
 'OOB': 'every memory access, copy and string operation lies inside its object',
 'NULLDEREF': 'no access through a null pointer',
 'DIV0': 'no division by zero', 'SHIFT': 'no shift by the width of the operand or more',
 'CONST_WRITE': 'no write to constant storage',
 'UNINIT': 'no branch, address, call argument or result depends on a value never set',
 'LOCK_UNINIT': 'no lock operation on a mutex that is not initialised', 'LOCK_LOST': 'no mutex goes away while locked',
 'LOCK_UNHELD': 'no unlock of a mutex that is not held', 'LOCK_DEADLOCK': 'no thread locks a mutex it already holds',
 'RACE': 'an object that threads use without holding its lock is only accessed atomically',
 'LOCK_HELD': 'no lock is still held when a public operation returns or throws',
 'ERRNO_STALE': 'errno is only consulted after a call that failed, with no other call in between',
 'TIMESPEC': 'times handed to the system have 0 <= nanoseconds < 1e9', 'TIME_ABS': 'deadlines are the current time of the clock of the call plus the duration',
 'TERMINATE': 'no exception reaches a noexcept boundary', 'ESCAPED_EXCEPTION': 'only documented exceptions leave an operation',
 'ASSERT': 'relations between public observations asserted by the client driver hold on every path',
}
ASSUME = [
 'external packages that are not part of the repository (ecl_build, ecl_license, ecl_config, ecl_errors, ecl_time_lite, Sophus) behave as the stand-ins in /verif/stubs declare',
 'operating system and C/C++ runtime functions behave as modelled in engine/models.cpp: every call may fail with any error number unless documented otherwise',
 'operator new does not fail; sequential execution except where a driver interleaves threads explicitly',
 'POSIX configuration only (Windows and Apple sources are not analysed)',
]
HANDLE = ['LEAK', 'DOUBLE_RELEASE', 'USE_AFTER_RELEASE', 'BAD_RELEASE', 'BAD_HANDLE', 'NULLDEREF', 'TERMINATE']
MEM = ['OOB', 'NULLDEREF', 'USE_AFTER_RELEASE', 'CONST_WRITE', 'DIV0', 'SHIFT', 'TERMINATE']
HEAP = ['LEAK', 'DOUBLE_RELEASE', 'USE_AFTER_RELEASE', 'BAD_RELEASE']
AI = 'path-sensitive abstract interpretation (typestate + linear value analysis to a fixpoint) of LLVM IR under a most general client'
DEV_CFGS = ['debug', 'ndebug', 'noexc']
CON_CFGS = ['debug', 'ndebug', 'noexc', 'memcheck']
WIT = "compile-time witnesses: static_assert facts and programs that must or must not be accepted by the compiler's type checker"
ALG = AI + '; real expressions are compared by global value numbering through random interpretation over a finite field'
PROPS = {
 'D01': dict(technique=AI, runs=[dict(harness='devices_ofile', kinds=HANDLE, cfgs=DEV_CFGS), dict(harness='devices_serial', kinds=HANDLE + ['OOB'], cfgs=DEV_CFGS),
   dict(harness='devices_socket', kinds=HANDLE + ['OOB', 'UNINIT'], cfgs=DEV_CFGS), dict(harness='shared_file', kinds=HANDLE, cfgs=DEV_CFGS)],
   explanation='Typestate of every descriptor and stream over all public call sequences and all failing system calls, computed to a fixpoint.'),
 'D02': dict(technique=AI, runs=[dict(harness='devices_ofile', kinds=['ASSERT'], cfgs=DEV_CFGS), dict(harness='devices_serial', kinds=['ASSERT'], cfgs=DEV_CFGS),
   dict(harness='devices_socket', kinds=['ASSERT'], cfgs=DEV_CFGS), dict(harness='devices_agree', kinds=[], cfgs=['debug', 'noexc']), dict(harness='shared_file', kinds=[], cfgs=DEV_CFGS)],
   explanation='Each driver asserts, after every public call, that a reported success implies that no system call failed since the call began and that open()/error() agree with the outcome; decided on every path to a fixpoint.'),
 'D03': dict(technique=AI, runs=[dict(harness='devices_errors', kinds=[], cfgs=['debug']), dict(harness='devices_agree', kinds=[], cfgs=['debug', 'noexc']),
   dict(harness='devices_ofile', kinds=['ERRNO_STALE'], cfgs=DEV_CFGS), dict(harness='devices_serial', kinds=['ERRNO_STALE'], cfgs=DEV_CFGS), dict(harness='devices_socket', kinds=['ERRNO_STALE'], cfgs=DEV_CFGS)],
   explanation='Every error number 1..200 is sent symbolically through both translation routines of every operation, and through every operation with its system call failing in both error-handling configurations; the flags must be equal. On every path of the device harnesses errno may only be consulted after the call that failed.'),
 'D04': dict(technique=AI, runs=[dict(harness='shared_file', kinds=HANDLE + ['UNINIT', 'ESCAPED_EXCEPTION'], cfgs=DEV_CFGS)],
   explanation='Two handles over two names run every sequence of create, open, write, flush and destroy with every failing system call; the driver compares lock state, open files, counts and the stream each write reaches with the handles in use. Registry accesses are checked for the lock by the stand-in map; the character buffer is abstracted to two characters.'),
 'D05': dict(technique=AI, runs=[dict(harness='devices_memory', kinds=MEM + HEAP + ['UNINIT', 'ESCAPED_EXCEPTION'], cfgs=DEV_CFGS)],
   explanation='String devices, character buffers and consoles run every sequence of public calls with symbolic lengths to a fixpoint; the driver compares sizes, remaining counts and (up to five characters) contents with what was written and read.'),
 'I01': dict(technique=AI, runs=[dict(harness='ipc', kinds=HANDLE + ['UNINIT', 'ESCAPED_EXCEPTION', 'ERRNO_STALE'], drivers=['shared_memory|semaphore'], cfgs=DEV_CFGS)],
   explanation='shm_open, mmap, ftruncate, munmap, shm_unlink and the sem_* calls are replaced by specifications that keep track of names, descriptors, mappings and the semaphore and may fail at every call; the drivers compare them with what the objects report, in all three configurations.'),
 'T01': dict(technique=AI, runs=[dict(harness='mutex', kinds=['RACE', 'UNINIT', 'TERMINATE', 'ESCAPED_EXCEPTION'], cfgs=DEV_CFGS)],
   explanation='The pthread functions are replaced by specifications that keep track of the lock; every sequence of mutex operations with every outcome of every pthread call is explored to a fixpoint and the driver compares return values, exceptions and the published count with the state of the lock.'),
 'T02': dict(technique=AI, runs=[dict(harness='thread', kinds=HANDLE + ['UNINIT', 'ESCAPED_EXCEPTION'], cfgs=DEV_CFGS)],
   explanation='pthread calls are replaced by specifications with a thread body that may run at any later point and in which the owner may cancel or destroy the thread object; the drivers count runs and live callables, and check every call against the state of the thread.'),
 'S01': dict(technique=AI, runs=[dict(harness='sigslots', kinds=HEAP + ['NULLDEREF', 'OOB', 'UNINIT', 'ESCAPED_EXCEPTION', 'TERMINATE'], cfgs=['debug', 'noexc'])],
   explanation='Signals, slots, relays and their copies run every order of connect, emit, disconnect, copy, assign and destroy to a fixpoint over a model of std::map and std::set; the drivers know which connections exist and count the calls of every slot function per emission.'),
 'C01': dict(technique=AI, runs=[dict(harness='containers', kinds=MEM + ['UNINIT', 'ESCAPED_EXCEPTION'], cfgs=CON_CFGS)],
   explanation='Arrays (dynamic, fixed, memory checked), windows on them and on plain memory, queues and push-and-pop buffers with symbolic size are accessed at symbolic 64-bit positions, resized, cleared, copied and filled in every order; every access is proved to lie inside the storage, at() and the debug checks are proved to refuse exactly the positions outside.'),
 'C02': dict(technique=AI, runs=[dict(harness='containers', kinds=HEAP, cfgs=CON_CFGS)],
   explanation='Two arrays run every sequence of resize, clear, copy, assignment (also to itself) and destruction, also with failing allocations in the memory checking variant; sizes, storage and (up to five elements) contents are compared with those the driver expects.'),
 'C03': dict(technique=AI, runs=[dict(harness='containers', kinds=[], drivers=['fifo.*|push_and_pop.*|initialiser.*'], cfgs=CON_CFGS)],
   explanation='Queues and push-and-pop buffers of capacity 1 to 5 hold symbolic elements and run every sequence of operations to a fixpoint; contents, order and size are compared with a list the driver keeps.'),
 'M01': dict(technique=AI, runs=[dict(harness='time', kinds=[], drivers=['add|sub|add_assign|sub_assign|compare|parts|invalid_parts|stampnow|stopwatch|text|cpuwatch'])],
   explanation='Linear value analysis of the time stamp operators for arbitrary normalised operands; the drivers assert the exact sum, difference, order and normal form.'),
 'M02': dict(technique=AI, runs=[dict(harness='time', kinds=['TIMESPEC', 'TIME_ABS'], drivers=['sleep|millisleep|microsleep|nanosleep|snooze_.*|stampnow']), dict(harness='mutex', kinds=[], drivers=['mutex_deadline'], cfgs=DEV_CFGS), dict(harness='ipc', kinds=[], drivers=['semaphore_deadline'], cfgs=DEV_CFGS)],
   explanation='Linear value analysis of the arguments that reach the sleep and wait calls for arbitrary durations and clock values.'),
 'M03': dict(technique=AI, runs=[dict(harness='frequency', kinds=MEM + ['UNINIT', 'ESCAPED_EXCEPTION'], cfgs=['debug', 'ndebug'])],
   explanation='Two windows of up to three updates each at arbitrary monotone clock readings of two separate clocks are analysed to a fixpoint; the driver keeps the count, the intervals and which clock was read, and compares every field of the diagnostics.'),
 'V01': dict(technique=AI, runs=[dict(harness='converters_text', kinds=['OOB', 'NULLDEREF', 'UNINIT', 'OVERFLOW', 'DOUBLE_RELEASE', 'USE_AFTER_RELEASE', 'BAD_RELEASE', 'LEAK', 'SHIFT', 'DIV0'], cfgs=DEV_CFGS), dict(harness='converters_bytes', kinds=['OOB', 'NULLDEREF', 'UNINIT'], drivers=['shorter_.*|longer_.*|wrong_size'], cfgs=DEV_CFGS)],
   explanation='Every number of every type is converted by abstract interpretation of the real conversion loop (the digits are exact linear terms of the number), into internal and external buffers of nine sizes from too small to ample; the driver reads the text back symbolically.'),
 'V02': dict(technique=AI, runs=[dict(harness='converters_bytes', kinds=['SHIFT', 'OOB', 'UNINIT'], cfgs=DEV_CFGS)],
   explanation='Every integer of every width, built from symbolic bytes, is converted to vectors, arrays and stencils of char, unsigned char and signed char and back; each byte and the round trip are compared as exact linear terms.'),
 'F01': dict(technique=AI, runs=[dict(harness='formatters', kinds=MEM + HEAP + ['UNINIT', 'OVERFLOW', 'ESCAPED_EXCEPTION'], cfgs=DEV_CFGS)],
   explanation='Formatters run sequences of permanent, temporary and abandoned settings, copies and values, and print on a stream of the driver, which counts spaces and reads the digits back (exact linear terms of the number in decimal); the driver keeps the settings it expects.'),
 'U01': dict(technique=AI, runs=[dict(harness='utilities', drivers=['flags_.*'], kinds=['UNINIT', 'OVERFLOW', 'SHIFT'], cfgs=DEV_CFGS)],
   explanation='Two arbitrary flag sets (every one of the 32 subsets of five flags, built flag by flag) are combined, complemented, set, cleared, toggled and tested; the result is compared with the same operation on five booleans kept by the driver.'),
 'U02': dict(technique=AI, runs=[dict(harness='utilities', drivers=['(?!flags_).*'], kinds=MEM + HEAP + ['UNINIT', 'ESCAPED_EXCEPTION'], cfgs=DEV_CFGS)],
   explanation='Every kind of function object is made by generateFunctionObject or directly, copied, invoked with symbolic arguments any number of times; the driver counts calls and compares object, arguments and result; wrappers must refer to the very object they were made from.'),
 'E01': dict(technique=AI, runs=[dict(harness='exceptions', kinds=MEM + HEAP + ['UNINIT', 'TERMINATE', 'ESCAPED_EXCEPTION'], cfgs=['debug', 'ndebug'])],
   explanation='Exceptions with every flag class, with and without message and data, are thrown, thrown on up to twice, copied and destroyed; the engine runs the constructors and destructors of exception objects as the runtime would; text is followed character by character on a string stand-in.'),
 'R01': dict(technique=AI, runs=[dict(harness='filesystem', kinds=MEM + HEAP + ['UNINIT', 'ERRNO_STALE', 'TERMINATE'])],
   explanation='The path function of the tree is analysed with a realpath() of the system that may fail with any error number or resolve to any text of 1 to 4095 characters; what is returned must be what the system produced.'),
 'X01': dict(technique=AI, runs=[dict(harness=h, kinds=MEM + HEAP + ['UNINIT', 'OVERFLOW', 'TERMINATE', 'ESCAPED_EXCEPTION'], cfgs=DEV_CFGS) for h in ('streams_in', 'streams_out', 'streams_own')],
   explanation='Input streams read from a device of the driver that delivers symbolic characters of every kind (signs, digits, blanks, others, end) or fails; the value extracted, the failure reported and the characters taken are compared with the text. Output streams write every value of every type to a device that may refuse or cut short any write; the driver reads the text back. Streams that own their device run on stand-in devices that record how they were opened.'),
 'L01': dict(technique=AI, runs=[dict(harness='command_line', kinds=['OOB', 'NULLDEREF', 'UNINIT', 'ESCAPED_EXCEPTION', 'OVERFLOW'], cfgs=['debug'])],
   explanation='Programs that declare every kind of argument parse lines of up to three units chosen from alphabets of correct, wrong and borderline words; the driver decides from the declaration what should be accepted and compares the outcome, the reports, the exit code, isSet() and the values. Strings, lists and streams are stand-ins with exact contents.'),
 'L02': dict(technique=AI, runs=[dict(harness='command_line', kinds=HEAP + ['NULLDEREF', 'CONST_WRITE', 'TERMINATE'], drivers=['help|declarations.*|switches|groups|multiple.*'], cfgs=['debug'])],
   explanation='Typestate of every heap object over construction, refused declarations, replaced outputs, parses that return or exit, and destruction; arguments of the user live on the stack and must not be released.'),
 'Y01': dict(technique=WIT, witness=['traits'],
   explanation='Static assertions over every integer, character and floating type and a list of other kinds of types compare each trait, counterpart and limit with the language and the standard library, in two compilers; the floating constants are read by clang from the source file that defines them.'),
 'N01': dict(technique=WIT, witness=['concepts', 'uses'],
   explanation='For every concept a minimal conforming class must be accepted, and the same class must be rejected when any one required member is dropped or its element type is changed; the classes of the library must conform to the concepts their users check; checked templates must reject wrong arguments.'),
}
A = MEM + HEAP + ['UNINIT', 'ESCAPED_EXCEPTION']
PROPS.update({
 'A01': dict(technique=ALG, runs=[dict(harness='exact', drivers=['signs|cuberoot|pascal|points.*'], kinds=A, cfgs=['debug', 'ndebug'])],
   explanation='Every arithmetic type and every sign of the argument, triangles of every order up to the bound with every index, and points with symbolic coordinates are interpreted; results are compared with sign, binomial coefficient and coordinate expressions written out by the driver.'),
 'U03': dict(technique=ALG, runs=[dict(harness='exact', drivers=['parameter|singleton'], kinds=A, cfgs=['debug', 'ndebug'])],
   explanation='Parameters of integer, real and class type are made, assigned, copied and read through every accessor with symbolic values; singletons are reached through every access and compared by address and construction count.'),
 'A02': dict(technique=ALG, runs=[dict(harness='geometry', drivers=['polynomials|constant|division|roots|cubicroots|cardanoone|cardanothree|intersection|extrema'], kinds=A, cfgs=DEV_CFGS)],
   explanation='Polynomials with symbolic coefficients are evaluated, derived, shifted, divided, solved and intersected; every real expression has a value number (the element it denotes in a finite field), comparisons fork on the order of value numbers, and each result must have the number of the defining expression.'),
 'A03': dict(technique=ALG, runs=[dict(harness='geometry', drivers=['linear|cubic|quintic|natural|clamped|heuristic|tension'], kinds=A, cfgs=DEV_CFGS), dict(harness='geometry_corners', kinds=A, cfgs=DEV_CFGS)],
   explanation='Blueprints and splines over two to five symbolic knots are built by the real code; values, slopes and curvature at knots and at an arbitrary place inside each segment must have the value number of the interpolation conditions, and each lookup must use the polynomial of its segment.'),
 'A04': dict(technique=ALG, runs=[dict(harness='planar', drivers=['wrappingf?|anglesf?|unitsf?'], kinds=A, cfgs=DEV_CFGS)],
   explanation='Angles are sums of symbolic atoms and quarter turns, so that sine and cosine obey the addition theorems and the period; each operation must give a number in range by interval analysis whose sine and cosine have the value numbers prescribed.'),
 'A05': dict(technique=ALG, runs=[dict(harness='planar', drivers=['composef?|posef?|legacymatrix|legacyangle|extended|homogeneous'], kinds=A, cfgs=DEV_CFGS)],
   explanation='Poses with symbolic position and heading are composed, inverted, converted and set in both storage types; coordinates and the sine and cosine of headings must have the value numbers of the rigid motion; a double rounded to single precision is another number.'),
 'A06': dict(technique=ALG, runs=[dict(harness='planar', drivers=['segment|statisticsf?|wheels|posediff'], kinds=A, cfgs=DEV_CFGS)],
   explanation='Segments of every kind (vertical, without length), up to five data before and after a clear, and wheel and base motions are symbolic; each path must return the value number of the textbook definition.'),
 'A07': dict(technique=ALG, runs=[dict(harness='odometry', kinds=A, cfgs=DEV_CFGS), dict(harness='odometry_legs', kinds=A, cfgs=DEV_CFGS)],
   explanation='Trajectories of up to three symbolic elements are read, set, joined (also with themselves), resized and gathered from lists; each element afterwards must have the value number of the element of the sequence kept by the driver, and the distance must be that of a nearest segment.'),
 'A08': dict(technique=ALG, runs=[dict(harness='fuzzy', kinds=A, cfgs=['debug', 'ndebug'])],
   explanation='Integers of every supported pair of types are compared symbolically by value; real numbers are split by sign and order of magnitude, and the decision of the code must be that of the definition on value numbers; the square of a norm must have the value number of the sum of squares.'),
 'A09': dict(technique=ALG, runs=[dict(harness='manipulators', kinds=A, cfgs=['debug', 'ndebug'])],
   explanation='Trajectories over symbolic waypoints are configured, interpolated, asked, copied and cleared by the real code over stand-ins for the splines (which are decided by A03); durations, answers and refusals must be those of the reference in the driver, and heap blocks are tracked.'),
})
ALL = ['devices_ofile', 'devices_serial', 'devices_socket', 'devices_memory', 'shared_file', 'ipc', 'mutex', 'thread', 'sigslots', 'containers', 'time', 'frequency', 'converters_text', 'converters_bytes', 'formatters', 'utilities', 'exceptions', 'filesystem', 'streams_in', 'streams_out', 'streams_own', 'command_line']
PROPS['G01'] = dict(technique=AI, anchors=False, runs=[dict(harness=h, kinds=['UNINIT'], cfgs=['debug']) for h in ALL],
   explanation='Every driver of every harness is analysed with definedness tracked for each byte of memory and each value: a branch, address, call argument or result that depends on a value never set is reported.')
NOT_APPLICABLE = {
 'K01': 'the property bounds floating point rounding and convergence of numerical algorithms (Eigen decompositions, spline coefficients, regressions) over all inputs; no sound static error analysis for this templated C++ code is in reach of the installed tools, and running samples would be a test, not static analysis',
 'K02': 'what holds is decided at run time by the kernel scheduler and the load of the machine; the part that the source determines (the deadlines and attributes handed to the system) is decided under M02 and T02',
}
