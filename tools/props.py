import json
B='src/backends/interflop-backend-'
ALLB=[B+'ieee/interflop_ieee.c',B+'mcaquad/interflop_mca.c',B+'mcaint/interflop_mca_int.c',B+'bitmask/interflop_bitmask.c',B+'cancellation/interflop_cancellation.c',B+'vprec/interflop_vprec.c']
P=[]
def p(id,title,st,over,text,why,files,mech,**k):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    a.update(k); P.append(dict(id=id,title=title,statement=st,quantifier={'over':over,'text':text},why_tests_cant=why,anchors=a))
p('C01','IEEE transparency of exact modes',
 "With the IEEE backend, with any other backend in its IEEE mode, and for the operations a backend declares exact (everything but addition and subtraction in the cancellation backend), every addition, subtraction, multiplication, division, fused multiply-add and double-to-float conversion delivers exactly the native result of that operation on its operands in their given order and precision. Debugging, counting and logging options never change the delivered value.",
 ['inputs','configurations'],'all operand bit patterns, all operations and both formats, every backend and every setting of the non-numerical options',
 'Tests sample a few operand values in one or two option combinations; a wrong operand order, format or operation for one backend/format pair shows only there.',
 ALLB+['src/interflop-stdlib/fma/interflop_fma.c'],[('per-operation entry points and mode dispatch',B+'*/interflop_*.c'),('entry-point table returned at initialisation','interflop_*_init in each backend')],observe_at=['value stored through the result pointer of each backend entry point'])
p('C02','Noise is applied exactly where the selected mode says',
 "In the two MCA backends and the bitmask backend, for every operation and format: in IEEE mode nothing is perturbed; in the inbound mode (pb, ib) each operand is perturbed independently and the result is not; in the outbound mode (rr, ob) only the result is; in the full mode (mca, full) each operand and the result are. The VPREC backend applies its rounding to operands and results by the same rule, and the operands are always combined in their given order by the requested operation.",
 ['inputs','configurations'],'all operand values, all modes, every operation, format and backend',
 'Tests compare statistics of long runs for one or two operations; one operand of one operation left unperturbed, or noise added twice, stays within their tolerance.',
 ALLB[1:4]+[ALLB[5]],[('operation macros applying inbound and outbound noise by mode','_INTERFLOP_OP_CALL / _MCA_*_BINARY_OP / vprec operation functions')],observe_at=['backend entry points'])
p('C03','Special values and exactly representable results are never perturbed',
 "In the MCA, bitmask and VPREC backends a NaN, infinity or zero is never perturbed, whether it is an operand or the result of the operation. In the outbound modes that promise it (rr, ob) a result that the target precision represents exactly is delivered unchanged.",
 ['inputs','configurations'],'all operand values (NaN, infinities, signed zeros, exactly representable), all modes, operations and formats',
 'Tests check a handful of constants in one mode; the exemption must hold at each operand and result position of each operation.',
 ALLB[1:5],[('special-value and representability guards in front of each noise generator',B+'*/interflop_*.c')])
p('C04','Comparisons keep IEEE 754 semantics',
 "Every backend that implements comparisons answers each of the sixteen comparison predicates, in both formats, with the IEEE 754 truth value for the operands, including ordered and unordered predicates on NaN operands. The answer does not depend on the debug or counting options.",
 ['inputs','configurations'],'all operand pairs (less, equal, greater, unordered) for all sixteen predicates and both formats',
 'The existing test only looks at which predicates are printed; the values for unordered predicates are never compared.',
 [ALLB[0],'src/interflop-stdlib/interflop.h'],[('predicate selection','SELECT_FLOAT_CMP and the comparison entry points')])
p('C05','Every instrumented operation reaches every loaded backend in order',
 "An instrumented operation is forwarded, with its operands unchanged and in order, once to each loaded backend that implements it, in load order and with that backend's own context, and the program receives what the last of them produced; a backend that does not implement the operation is skipped. A vector operation is the lane-by-lane application of the scalar operation for every supported width.",
 ['inputs','configurations','programs'],'all operations, formats, vector widths and any chain of loaded backends, with any subset of operations implemented',
 'Tests load one or two backends and a few operations; a swapped operand or context for a particular width, or a chain of three backends, is not exercised.',
 ['src/vfcwrapper/main.c.in'],[('scalar and vector wrappers','arithmetic, comparison, fma and cast wrapper macros')],observe_at=['indirect calls made by each wrapper'])
p('C06','Each floating-point instruction is replaced by its own counterpart',
 "The instrumentation pass replaces an addition, subtraction, multiplication or division of a supported type by the wrapper of the same operation, type and vector width with the same operands in order, and a comparison, fused multiply-add or double-to-float conversion only when the corresponding option was given, passing the same predicate. Every wrapper the pass can name is one the wrapper library defines with that signature; any other instruction is left untouched.",
 ['programs','configurations'],'all instructions a compiled program can contain, and all combinations of the instrumentation options',
 'Tests compile a few C programs; the mapping must be right for every opcode, type and width.',
 ['src/libvfcinstrument/libVFCInstrument.cpp','src/vfcwrapper/main.c.in'],[('opcode classification and wrapper name construction','libVFCInstrument.cpp')])
p('C07','A chosen seed makes runs reproducible',
 "When the user chooses a seed, the noise drawn by a backend is a function of that seed and of the order in which threads first draw: no time, process or thread identifier, address or other ambient source enters it. When no seed is chosen the generator is seeded from ambient entropy, and the chosen seed value reaches the generator unchanged.",
 ['histories','schedules','configurations'],'all seeds, all run environments, all backends that draw random numbers',
 'Tests compare two runs with the same seed in the same environment for one program.',
 ['src/interflop-stdlib/rng/vfc_rng.c','src/interflop-stdlib/rng/splitmix64.c','src/interflop-stdlib/rng/xoroshiro128.c']+ALLB[1:5],[('lazy seeding of the per-thread generator state','src/interflop-stdlib/rng/vfc_rng.c'),('seed option','option handlers of each backend')])
p('C08','Operations in different threads do not interfere',
 "Executing instrumented operations in one thread never writes state that another thread's operations read, except through atomic updates: besides the result and its own stack an operation changes only thread-private generator state and atomic counters. Each thread's random stream is private to it.",
 ['schedules'],'all interleavings of instrumented operations in any number of threads',
 'A test with threads samples a few schedules and does not detect data races on the generator or a shared scratch value.',
 ALLB[:5]+['src/interflop-stdlib/rng/vfc_rng.c'],[('thread-local generator state, atomic counters','src/interflop-stdlib/rng/vfc_rng.c, interflop_ieee.c')])
p('C09','Backend options are validated and set exactly what they name',
 "Each documented backend option changes only the setting it names and sets it to the value given; out-of-range numbers, unknown mode, operator, type or preset names and values the text of which cannot be read as a number end the program with an error instead of being accepted. Setting one option never disturbs another.",
 ['inputs','configurations'],'all option values and all orders of options, for every backend',
 'Tests pass a few valid values and seldom an invalid one.',
 ALLB,[('command line parsers','parse_opt of each backend')],observe_at=['backend context after command line parsing'])
p('C10','Backends start in their documented default configuration',
 "A backend loaded without options runs with the documented defaults: full machine precision of each format as virtual precision, the documented default mode, error mode, operator and tolerance, no subnormal flushing, noise on every operation, and a random seed. A backend configured through the programming interface takes each setting from the corresponding configuration field.",
 ['configurations','histories'],'every backend and every setting',
 'Tests nearly always pass the options they depend on explicitly.',
 ALLB,[('default initialisation and configure functions','*_init_context / *_configure in each backend')])
p('C11','Subnormal handling only when requested and only on the proper side',
 "With denormals-are-zero every subnormal operand of every operation is replaced by zero before anything else uses it, and with flush-to-zero every subnormal result is replaced by zero; normal values are unaffected. Without these options subnormal values are neither flushed on input nor on output.",
 ['inputs','configurations'],'all operands and results, operations, formats, modes, and the four settings of the two options',
 'The test checks one operation per format on a couple of values.',
 ALLB[1:4]+[ALLB[5]],[('DAZ and FTZ macros around each operation',B+'*/interflop_*.c')])
p('C12','Noise magnitude follows the virtual precision',
 "In the MCA backends the noise added to a value x at virtual precision t is uniform in (-1/2, 1/2) times 2 to the power (exponent of x minus t, plus one) in relative error mode; in absolute mode the exponent is the configured absolute error exponent, and in the combined mode both contributions are added. The exponent and precision used are those of the format of the operation.",
 ['inputs','configurations'],'all values, all virtual precisions, error modes, operations and formats',
 'Tests measure significant digits statistically at a few precisions; an off-by-one exponent in one path is inside the tolerance.',
 ALLB[1:3],[('noise generation','_mca_inexact, _noise_* in the two MCA backends')])
p('C13','Binary32 and binary64 settings are independent',
 "The virtual precision, range and mask configured for one format affects only operations of that format (double-to-float conversions apart, which involve both formats): changing the binary64 setting never changes any binary32 result and conversely.",
 ['inputs','configurations'],'all operations, modes, and settings of every perturbing backend',
 'Tests sweep both precisions together or look at one format at a time.',
 ALLB[1:4]+[ALLB[5]],[('selection of the precision field by format',B+'*/interflop_*.c')])
p('C14','Cancellation noise exactly on detected cancellations',
 "The cancellation backend perturbs the result of an addition or subtraction if and only if the exponent of the larger operand exceeds the exponent of the result by at least the tolerance, with noise scaled to the cancelled bits; the magnitude depends only on operands and result. Otherwise the result is the IEEE one.",
 ['inputs','configurations'],'all operand pairs and tolerances, both formats',
 'The test counts digits on a loop of sampled operands.',
 [ALLB[4]],[('cancellation detection',B+'cancellation/interflop_cancellation.c')])
p('C15','Bitmask noise touches only bits below the virtual precision',
 "With virtual precision t the bitmask backend leaves sign, exponent and the leading t significant bits (implicit bit included) of a perturbed value unchanged (those from its first non-zero bit on when it is subnormal); below them the zero operator clears every bit, the one operator sets every bit, and the rand operator randomises every bit.",
 ['inputs','configurations'],'all values, all precisions of both formats, three operators',
 'Tests sample a few precisions statistically.',
 [ALLB[3]],[('mask construction and application',B+'bitmask/interflop_bitmask.c')])
p('C16','VPREC results fit the configured format',
 "A finite value rounded by the VPREC backend in relative error mode becomes the nearest value of the configured format with the sign of the argument (unless it underflows to zero): no significand bit below precision p in the normal range (ties to even), a multiple of the smallest subnormal below it, an infinity above it; NaN, infinity and zero come back unchanged. In the absolute error modes a value in the normal range becomes a nearest multiple of 2 to the power of the error exponent (of the coarser of the two units with error mode all). Every operation rounds with the precision and range configured for its format.",
 ['inputs','configurations'],'all finite values, all precisions and ranges of both formats',
 'Tests compare sampled values with MPFR for a few (precision, range) pairs.',
 [ALLB[5],'src/backends/interflop-backend-vprec/common/vprec_tools.c'],[('rounding functions','vprec rounding in interflop_vprec.c and vprec_tools.c')])
p('C17','Delta-debug filters select exactly the listed operations',
 "In a delta-debug run an operation whose call address is in the exclusion list executes natively; otherwise, if an inclusion list is given, it executes natively unless listed; every other operation goes to the backends. Exclusion has priority, native execution yields the IEEE result of the same operation on the same operands, generation records every executed operation, and inclusion and generation together are refused.",
 ['inputs','configurations','programs'],'all addresses, lists and arithmetic operations',
 'The tests run two or three delta-debug searches and do not look at individual filters.',
 ['src/vfcwrapper/main.c.in'],[('filter in front of each wrapper','ddebug macro')])
p('C18','Function selection files and options decide what is instrumented',
 "A function is instrumented if it matches the inclusion file, or if it does not match the exclusion file, with inclusion taking priority when both match and with an inclusion file alone excluding everything else; naming a single function restricts instrumentation to it. The wrapper library's own functions are never instrumented.",
 ['programs','configurations'],'all functions and modules, all combinations of the selection options',
 'The test checks one small module set.',
 ['src/libvfcinstrument/libVFCInstrument.cpp'],[('selection predicate over inclusion and exclusion sets','runOnModule / isInstrumented')])
p('C19','Function-level precision is scoped to the function',
 "With VPREC function instrumentation, entering an instrumented function selects the precision and range configured for that function and leaving it restores those of its caller, for any nesting and for library or intrinsic calls. Entry and exit hooks are passed to every loaded backend that implements them.",
 ['histories','configurations'],'all call histories and profiles',
 'Tests compare a handful of call sequences.',
 [B+'vprec/interflop_vprec_function_instrumentation.c','src/vfcwrapper/funcinstr.c'],[('entry/exit hooks',B+'vprec/interflop_vprec_function_instrumentation.c')])
p('C20','User calls reach every backend with the same arguments',
 "A program's call into the backends passes its identifier and all its arguments to every loaded backend that accepts calls, in order, with each backend reading the arguments from the first one. A backend acts only on the identifiers it supports, reads exactly the arguments documented for them; setting a precision affects only the named format, and the inexact call perturbs the value it is given at the precision it names.",
 ['inputs','configurations','histories'],'all identifiers, arguments and chains of backends',
 'Tests use one backend and two identifiers.',
 ['src/vfcwrapper/main.c.in',ALLB[1]],[('variadic dispatch','interflop_call; user_call entry points')])
p('C21','Compiler driver options reach the pass and the wrapper together',
 "Each instrumentation option of the compiler driver enables the matching behaviour both in the instrumentation pass and in the wrapper library compiled into the program, and nothing else; options the driver does not know are passed on to the underlying compiler unchanged. Contradictory or incomplete option combinations are refused.",
 ['configurations'],'all combinations of driver options',
 'Tests use a dozen fixed command lines.',
 ['verificarlo.in.in'],[('option table and command construction','verificarlo.in.in')])
p('C22','A failing step of the compiler driver is reported',
 "When any command run by the compiler driver (compiler, optimiser, linker) fails, the driver stops with a non-zero status and does not go on with later steps, and its temporary files are removed unless the user asked to keep them.",
 ['fault_sequences','configurations'],'every command the driver can run, in every mode',
 'Tests only exercise successful compilations.',
 ['verificarlo.in.in'],[('command runner','shell() and temporary file handling')])
p('C23','Probe files are complete and readable by the analysis tools',
 "Every probe recorded by a program appears exactly once in the probe file with its test, variable, value, accuracy threshold and mode, in the columns and format the analysis tools read; values are written without loss of information. Duplicate probes and names containing the separator or a line break are refused without altering what was recorded.",
 ['inputs','histories'],'all sequences of probe calls and all values and names',
 'The CI test reads one probe file.',
 ['src/common/vfc_probes.c','src/tools/ci/test.py'],[('probe registration and dump','src/common/vfc_probes.c'),('probe reader','src/tools/ci/test.py')])
p('C24','VPREC profiles written are read back with the same meaning',
 "The function profile written by the VPREC backend lists, for every function and argument, the same fields in the same order as the reader expects, so a profile given back as input configures exactly the functions and arguments it lists with the values written; every recorded function is written. The exploration tool vfc_precexp reads these profiles and writes configurations in the same format, changing only the precisions and ranges that it explores.",
 ['inputs','histories'],'all profiles',
 'Tests run one write/read cycle.',
 [B+'vprec/interflop_vprec_function_instrumentation.c','src/tools/optimize/precexp.py'],[('profile writer and reader',B+'vprec/interflop_vprec_function_instrumentation.c'),('profile reader and writer of the exploration','src/tools/optimize/precexp.py: getProfile, save')])
p('C25','Configuration text never overruns a buffer',
 "Text supplied by the user through environment variables, command-line options, configuration files and profiles, and names supplied by the instrumented program, never make the runtime write outside a buffer or array, however long they are or however many items they contain: excess or inconsistent input is refused with an error or truncated.",
 ['inputs','configurations'],'all environment and configuration file contents',
 'Tests use short, well-formed inputs.',
 ['src/vfcwrapper/main.c.in','src/interflop-stdlib/iostream/logger.c',B+'vprec/interflop_vprec_function_instrumentation.c'],[('fixed-size buffers and their guards','vfc_init, logger, profile reader')])
p('C26','Backend loading is all or nothing',
 "At start-up the runtime loads each backend named in the backend list in order, initialises each once with its own arguments and context, and ends the program with an error if a library or a required entry point is missing, no backend is given, too many are given, or an instrumented operation is implemented by none of them. The direct list has priority over the list file; every loaded backend is finalised exactly once with its own context at exit.",
 ['configurations','fault_sequences'],'all backend lists and all loading failures',
 'Tests load existing backends with valid arguments.',
 ['src/vfcwrapper/main.c.in'],[('start-up and exit routines','vfc_init, vfc_atexit')])
p('C27','Every runtime service a backend calls has been provided',
 "Each backend calls the C library only through services the runtime hands to it before initialisation, and every service a loaded backend can call has been handed over by then, so no operation or option can reach a missing service.",
 ['configurations','programs'],'all backends, options and operations',
 'Tests reach only some of the services (never the error paths).',
 ['src/interflop-stdlib/interflop_stdlib.c','src/vfcwrapper/main.c.in']+ALLB,[('service table','interflop_set_handler, vfc_set_handlers')])
p('C28','Delta-debug search classifies runs by their status and loses none',
 "vfc_ddebug treats a configuration (a set of source lines) as failing as soon as the comparison script rejects one of its sampled runs, and as passing only when all the required samples were run to their end and accepted. The reference run always executes with the unperturbed IEEE backend. A search that is interrupted at any point can be started again and reports what an uninterrupted one reports.",
 ['histories','fault_sequences'],'all programs, comparison outcomes and interruption points',
 'Tests run two or three complete searches.',
 ['src/tools/ddebug/DD_stoch.py','src/tools/ddebug/dd_config.py'],[('run sampling and caching','src/tools/ddebug/DD_stoch.py')])
p('C29','Random draws are uniform and unbiased',
 "The noise is statistically indistinguishable from independent uniform draws, so sample averages converge to the expectation the theory predicts.",
 ['histories'],'all seeds and draw sequences','Statistical tests cannot establish it for all streams.',
 ['src/interflop-stdlib/rng/xoroshiro128.c'],[('generator','src/interflop-stdlib/rng')])
p('C30','Delta-debug reports minimal failing sets and their complement',
 "When the outcome of a program only depends on which lines are perturbed, every ddminX that vfc_ddebug reports makes the program fail, is 1-minimal (it passes when any single line is removed) and is disjoint from the others, and the complement of their union passes. The stored dd.line.include and dd.line.exclude files of each reported configuration list exactly its lines and the other lines. This holds for every search variant that the environment variables select.",
 ['programs','configurations'],'all outcome functions over the sets of perturbed lines, all search variants','Tests run two complete searches with the default variant.',
 ['src/tools/ddebug/DD.py'],[('search','src/tools/ddebug/DD.py')])
p('C31','Precision exploration reports accepted precisions that cannot be lowered',
 "For each function and argument that it explores, vfc_precexp reports a precision and a range with which the program ran and the comparison with the reference accepted the result, together with the values reported for the others, and whose next smaller value was refused or does not exist (the largest value when all are refused). A run that fails or exceeds --maxTimeout milliseconds is refused, whatever it left behind, and the search ends for every sequence of verdicts. Functions that were not selected, and the operations of library functions and intrinsics, keep their precision.",
 ['programs','configurations'],'all verdict sequences of the comparison script, all function profiles','No test runs the exploration.',
 ['src/tools/optimize/precexp.py'],[('dichotomic searches and trials','src/tools/optimize/precexp.py: dich_search_operations, dich_search_arguments, Check')])
p('C32','The CI tool runs what is configured and its verdicts follow the documentation',
 "vfc_ci runs every configured executable with its parameters once per repetition under each of its backends (once when no repetition is given, plus a reference run with the IEEE backend when a probe has a check), groups all the values by test, variable and backend, and reports every run that gave no data. The verdict of a check is exactly: standard deviation (divided by the absolute average when relative) below the absolute threshold for repeated runs, distance to the reference value of the same probe (divided by its absolute value when relative) below it for single runs, and probes without check always pass. Statistics and verdicts are computed for all values, null averages and references, infinities and NaN included, without aborting the run, and are written with the metadata of their run to the result file.",
 ['inputs','configurations','faults'],'all probe values, thresholds and configurations, all runs that die, hang or lose probes','The CI test runs one configuration whose checks pass.',
 ['src/tools/ci/test.py','src/tools/ci/test_data_processing.py'],[('run loop and export','src/tools/ci/test.py: run_tests, run_deterministic, run_non_deterministic, run'),('statistics and verdicts','src/tools/ci/test_data_processing.py')])
p('C33','The map behind probes, profiles and line filters never loses an element',
 "For every sequence of insertions (of distinct elements) and removals, looking up a key in the hash map that stores probes, function profiles and delta-debug line sets gives the element inserted under exactly that key until it is removed, nothing for a key that is absent or was removed, and always ends; growing the table keeps every element. The hash of a name depends on all of its characters.",
 ['histories'],'all sequences of insertions, removals and lookups, all keys','Tests insert a few elements and remove none.',
 ['src/interflop-stdlib/hashmap/vfc_hashmap.c'],[('operations','src/interflop-stdlib/hashmap/vfc_hashmap.c')])
p('C34','Function arguments are rounded as the profile says',
 "With VPREC function instrumentation each floating-point argument handed to the entry or exit hook, and every element of an array argument, is rounded in place with the exponent and mantissa length that the profile lists for it: inputs on entry in modes ib and full, outputs on exit in modes ob and full, when the instrumentation mode covers arguments; in every other mode, and while the function has no profile entry, it is unchanged. The bounds recorded for an argument contain every finite value seen (saturated to the integer range) and ignore not-a-number and infinities; a new entry starts with the full precision and range of its type.",
 ['inputs','configurations'],'all argument values and profiles, all modes','Tests round one scalar argument in one mode.',
 [B+'vprec/interflop_vprec_function_instrumentation.c'],[('entry and exit hooks',B+'vprec/interflop_vprec_function_instrumentation.c: _vfi_enter_function, _vfi_exit_function')])
p('C35','The IEEE backend counts every operation exactly once',
 "With --count-op every addition, subtraction, multiplication, division and fused multiply-add that the IEEE backend executes, in either format, adds exactly one to the counter of its kind and changes no other counter; comparisons and conversions count nothing. The final report gives each kind the value of its own counter, in full. Without the option nothing is counted or reported.",
 ['inputs','configurations'],'all operations, formats and operand values','Tests only look whether counts are printed.',
 [B+'ieee/interflop_ieee.c'],[('operations and report',B+'ieee/interflop_ieee.c: INTERFLOP_IEEE_API(*), finalize')])
with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
for q in P:
    assert len(q['title'])<=80,q['id']
    n=q['statement'].count('. ')+1
    if n>3: print(q['id'],n)
