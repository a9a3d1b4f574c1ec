#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the file is committed; this is only its editor)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    P.append(d)

CAP = 'arg-capture-io/src/arg_capture_io.cpp'; CAPH = 'arg-capture-io/include/daisy_rtl/arg_capture_io.h'
B64 = 'arg-capture-io/src/base64.cpp'; RTC = 'rtl/src/capture.cpp'; INS = 'rtl/src/instrumentation.cpp'
PT = 'arg-capture-io/include/daisy_rtl/primitive_types.h'; RH = 'rtl/include/daisy_rtl/daisy_rtl.h'
GR = 'sdfg/src/graph/graph.cpp'; GH = 'sdfg/include/sdfg/graph/graph.h'; HH = 'sdfg/include/sdfg/helpers/helpers.h'

# ------------------------------------------------------------------ argument capture
p('C01', 'An inline capture is an exact, independent snapshot of the argument',
  'Capturing an argument inline succeeds and stores exactly as many bytes as the product of its declared dimensions, equal to the source bytes at the moment of the call and unaffected by later writes to the source. The stored entry carries the argument index, direction, primitive type and dimensions of this very call, refers to no external file, and no other captured entry, element or invocation counter changes.',
  ['inputs', 'histories'], 'every argument index, direction, type, dimension vector whose product is representable, buffer contents, element id, and every prior capture state',
  'The tests capture one 8-byte and one 12-byte buffer into an empty or near-empty store; they never vary sizes, prior entries or element ids, and never check the frame.',
  [CAP, CAPH], [('create_and_capture_inline', CAP), ('capture_inline', CAP)], ['ArgCaptureIO::get_captures()'],
  [('current_captures_', 'element id -> (argument, direction) -> captured entry', CAPH)])
p('C02', 'A file capture writes exactly the argument bytes or reports failure',
  'A file capture that reports success leaves at the requested path a file holding exactly the product of the dimensions bytes of the argument, and records that path (and no inline data) with the metadata of the call. When the directory cannot be created, the file cannot be opened, the data pointer is null for a non-empty argument, or any write or the final flush/close fails, it reports failure and records no file for the entry.',
  ['inputs', 'fault_sequences'], 'every dimension vector, buffer, path and prior file contents, and every combination of failing directory creation, open, write and close',
  'The tests write one small file to a writable directory; no failing file system call is ever exercised and existing longer files are never overwritten.',
  [CAP], [('create_and_capture_to_file', CAP), ('write_capture_to_file', CAP), ('write_data_to_raw_file', CAP)], ['return value, file contents, ArgCaptureIO::get_captures()'])
p('C03', 'Writing a capture index and loading it back reproduces the captures',
  'For every element with captures, writing the index and loading the resulting file yields the same target name, element id, invocation number and set of captured arguments: each with its index, direction, primitive type, dimensions in order and inline bytes. An externally stored capture is found next to the index under its own file name, no capture is lost, duplicated or merged with another, and a missing, unreadable or foreign-format index is rejected.',
  ['inputs', 'histories'], 'every capture store (any number of elements and entries, any sizes) and every index file',
  'One test round-trips three captures of one element; the guarantee is over all stores.',
  [CAP, CAPH, B64], [('ArgCapture::serialize_into / parse_from', CAP), ('write_index', CAP), ('from_index', CAPH)], ['<name>_inv<N>_<element>.index.json', 'ArgCaptureIO::from_index'])
p('C04', 'Base64 encoding is standard and decoding inverts it for every byte string',
  'For every byte string of every length, the encoder produces the standard padded base64 text (a multiple of four characters over the standard alphabet, padded with at most two = signs), and decoding that text returns the original bytes exactly. Neither direction reads or writes out of bounds, whatever its input.',
  ['inputs'], 'all byte strings of all lengths (round trip, format); all strings (decoder safety)',
  'Base64 is only exercised through one 8-byte payload; the residues of the length modulo 3 and all 64 symbols are not covered.',
  [B64], [('base64_encode', B64), ('base64_decode', B64)])
p('C05', 'Recapturing an argument replaces exactly that entry; clearing drops all',
  'Capturing the same argument, direction and element again, inline or to a file, leaves one entry that describes only the newest capture (fresh type, dimensions and data; nothing of the older capture shows through). Entries of other arguments, of the other direction and of other elements stay untouched; clearing removes every entry and keeps the target name and invocation counters.',
  ['histories', 'inputs'], 'every sequence of inline/file captures and clears over arbitrarily many arguments and elements, including switching between inline and file',
  'No test captures the same key twice or checks the entries of other keys after a capture.',
  [CAP], [('create_and_capture_inline / create_and_capture_to_file', CAP), ('clear', CAP)], ['ArgCaptureIO::get_captures()'])
p('C06', 'Invocation counters and capture strategies select exactly the right calls',
  'For each capture context and element, the k-th entry (from 0) is numbered k independently of other elements. The strategy "all" captures every invocation, "once", an absent strategy and an unrecognised strategy capture exactly the first, and "never" yields no context, on which every capture operation is a no-op that reports "do not capture".',
  ['histories', 'configurations'], 'all strategies (including unknown strings), all interleavings of entries over all elements',
  'The tests run each strategy on a single program with two entries of one element.',
  [RTC, CAP], [('__daisy_capture_init', RTC), ('DaisyRtlCapture::enter', RTC), ('ArgCaptureIO::invocation', CAP)], ['return value of __daisy_capture_enter', 'ArgCaptureIO::get_current_invocation'])
p('C07', 'Capture and index file names never collide',
  'Within one capture context, captures that differ in element, invocation number, argument index or direction are written to different files, and indexes that differ in element or invocation are written to different files. All of them lie inside the configured output directory, and an index file is never a capture file.',
  ['inputs', 'histories'], 'all element ids, invocation numbers, argument indices, directions, target names and output directories',
  'Names are only observed for two or three hand-picked captures; collision freedom is a property of all pairs.',
  [RTC, CAP], [('generate_arg_capture_output_filename', RTC), ('write_index', CAP)], ['file names in the output directory'])
p('C08', 'Runtime capture calls record the declared shape and bytes of the argument',
  'After a raw, 1-D, 2-D or 3-D capture call the entry for that element, argument and direction records the element size first followed by the declared extents in the given order, with the declared primitive type. The bytes saved are exactly element size times all extents taken from the given pointer; a capture that could not be saved raises an error instead of being recorded as complete.',
  ['inputs', 'fault_sequences'], 'all sizes, extents, argument indices, directions, element ids and buffers, with and without write failures',
  'The runtime test captures one scalar and one array per kind with fixed extents.',
  [RTC], [('capture_raw / capture_1d / capture_2d / capture_3d', RTC), ('__daisy_capture_* wrappers', RTC)], ['index entry and file contents after __daisy_capture_end'])
p('C09', 'Reading a raw capture file returns exactly its bytes or raises an error',
  'Reading n bytes from a raw capture file fills the buffer with the first n bytes of the file and touches nothing beyond them. If the file cannot be opened or holds fewer than n bytes the reader raises an error instead of returning with a partly filled buffer.',
  ['inputs', 'fault_sequences'], 'all file lengths, requested sizes and open/read failures',
  'No test reads a raw capture back through this function.',
  [CAP], [('read_data_from_raw_file', CAP)])
# ------------------------------------------------------------------ instrumentation
p('I01', 'Region registration gives each region one stable, unique, non-zero id',
  'Registering a region under a uuid that was registered before, active or finalized, returns the id it got the first time; registering a new uuid returns a non-zero id never handed out before and leaves the metadata and measurements of every other region unchanged. Registering no metadata returns 0 and registers nothing.',
  ['histories'], 'all sequences of init / enter / exit / metric / finalize over arbitrarily many regions',
  'Instrumentation tests use one region (and need a specific PAPI version); ids of many regions in arbitrary order are never compared.',
  [INS], [('register_region', INS), ('__daisy_instrumentation_init', INS)], ['return value of __daisy_instrumentation_init'], [('regions / region_name_to_id / next_region_id', 'id allocation', INS)])
p('I02', 'Every measured enter/exit pair yields its own start, duration and deltas',
  'In per-event mode each enter/exit pair of a region appends exactly one event whose start time is the clock at enter, whose duration is the clock difference and whose counter values are the differences of the counters read at exit and at enter, in the configured order. Events of other regions, and earlier events of the same region, are not changed, and a region configured without counters records times only. Enter/exit pairs of one region do not overlap or nest; an exit without a matching enter is misuse.',
  ['histories', 'inputs'], 'all alternating enter/exit sequences over any number of regions, all clock and counter readings, any number of configured events',
  'The tests only check that ten events with positive counters appear; no value is compared with what the clock and counters returned.',
  [INS], [('enter_region', INS), ('exit_region', INS)], ['trace events'])
p('I03', 'Aggregated statistics equal those of the individual measurements',
  'In aggregation mode, after n completed enter/exit pairs a region reports count n, the exact minimum and maximum, the arithmetic mean and the population variance of its n durations, and the same for every configured counter; the reported start is the first enter. The values do not depend on measurements of other regions.',
  ['histories', 'inputs'], 'all n and all sequences of durations and counter deltas, any number of counters and regions (statistics over the reals; rounding is out of scope)',
  'The aggregate tests check that fields are present and positive, never that mean, variance, min or max are right.',
  [INS], [('exit_region (Welford update)', INS)], ['aggregated trace event'])
p('I04', 'The trace file is one well-formed JSON document for every history',
  'Whatever regions were registered, entered, exited, measured or finalized (including none, and regions without any event), in either mode and with any configured events and any optional metadata missing, the trace written at exit is one valid JSON document. It holds exactly one trace event per recorded measurement (or per region when aggregating), each with the metadata and the values recorded for it.',
  ['histories', 'configurations'], 'all histories of the instrumentation API, both modes, all event configurations, all combinations of absent optional metadata; metadata strings that need no JSON escaping',
  'The tests parse the output of two fixed programs with complete metadata and one region.',
  [INS], [('append_event', INS), ('append_event_aggregated', INS), ('destructor', INS)], ['trace file'])
p('I05', 'Counter event sets are neither leaked, reused after release nor double-freed',
  'Each registered region owns at most one live hardware event set: it is created with the configured events in order before it is started, is never cleaned up or destroyed while its region is active, and never used after it was destroyed. At most ten finalized regions keep theirs; finalizing one more releases the longest-finalized one, and at process exit every cached set is released exactly once.',
  ['histories'], 'all sequences of init / enter / exit / finalize over arbitrarily many regions in which finalized regions are re-registered before reuse',
  'The tests never finalize more than ten regions nor re-register a finalized or evicted one while checking the event-set calls.',
  [INS], [('register_region (cache)', INS), ('finalize (eviction)', INS), ('destructor', INS)], ['sequence of PAPI calls'], [('sleeping_regions_by_name / sleeping_regions_id_lookup', 'FIFO cache of finalized regions', INS)])
p('I06', 'Static counters report count, mean, variance, minimum and maximum per name',
  'After n updates of a named metric of a region with values x1..xn, its count is n, its minimum and maximum are exact, and its mean and population variance are those of x1..xn; an increment counts like a metric with that integer value. Metrics with other names and other regions are unaffected, and a statistic that is not finite is written as null.',
  ['histories', 'inputs'], 'all sequences of metric updates over all names and regions (statistics over the reals)',
  'One test sums a few increments of one name.',
  [INS], [('provided_metric', INS), ('JsSafeDouble', INS)], ['metrics "static:::<name>" in the aggregated event'])
p('I07', 'Using an unknown region id is a diagnosed error that changes nothing',
  'Entering, exiting, measuring or finalizing a region id that was never handed out prints a diagnostic and terminates the process with a failure status. It never returns normally, and never creates or modifies a region.',
  ['inputs', 'histories'], 'all region ids never returned by registration, in any state, for all five operations',
  'No test uses an unknown region id.',
  [INS], [('enter_region / exit_region / provided_metric / finalize lookups', INS)])
p('I08', 'The event configuration string is split into exactly the listed names',
  'A comma-separated event list yields the names between commas in order, so that joining them with commas gives the configured text back and no name contains a comma. An unset or empty list yields no events.',
  ['inputs', 'configurations'], 'all strings',
  'Two fixed lists are exercised.',
  [INS], [('split_string', INS)])
p('I09', 'Every access to shared instrumentation state happens under its lock',
  'Each instrumentation operation reads and writes the shared region tables only while holding the one lock that guards them, and holds it on every path until it returns. No operation acquires it twice.',
  ['schedules'], 'all threads and interleavings of the public instrumentation operations',
  'No test is multi-threaded; a race needs a particular schedule.',
  [INS], [('std::lock_guard at the head of every public operation', INS)])
# ------------------------------------------------------------------ graph algorithms
p('G01', 'Topological order is complete and respects every edge; cycles are detected',
  'For every directed graph the acyclicity test answers true exactly when the graph has no directed cycle. For every acyclic graph the topological order lists each vertex exactly once, with the source of every edge before its target.',
  ['inputs'], 'all finite directed graphs, including multi-edges, self loops, isolated vertices and the empty graph',
  'One five-vertex diamond is sorted and one cycle tested.',
  [GR], [('topological_sort', GR), ('is_acyclic', GR)])
p('G02', 'Dominator and post-dominator trees are correct and leave the graph unchanged',
  'The immediate dominator of every vertex reachable from the entry is its closest strict dominator, and the entry has none; dually for post-dominators with respect to the exits, where vertices without a common post-dominator in the graph have none. The result covers exactly the vertices of the graph, and computing it leaves the vertices and edges of the graph as they were.',
  ['inputs'], 'all finite directed graphs and entries; for post-dominators all graphs with at least one exit reachable from every vertex',
  'One five-vertex single-exit graph per direction is tested; graphs with several exits are not.',
  [GR], [('dominator_tree', GR), ('post_dominator_tree', GR)])
p('G03', 'The enumeration of simple paths is sound, complete and duplicate-free',
  'Enumerating the simple paths between two distinct vertices yields each edge sequence that starts at the first vertex, ends at the second and visits no vertex twice, exactly once, and nothing else.',
  ['inputs'], 'all finite directed graphs (with cycles and parallel edges) and all pairs of distinct vertices',
  'One acyclic graph with two paths is tested; cycles through the start vertex are not.',
  [GR], [('all_simple_paths', GR), ('all_simple_paths_dfs', GR)])
p('G04', 'Component labelings partition the vertices exactly by connectivity',
  'Two vertices get the same strong (weak) component label exactly when each reaches the other (when they are connected ignoring edge direction). Every vertex gets a label, and the reported count is the number of distinct labels.',
  ['inputs'], 'all finite directed graphs',
  'One small graph per function is tested.',
  [GR], [('strongly_connected_components', GR), ('weakly_connected_components', GR)])
p('G05', 'The undirected and reversed views mirror the graph exactly',
  'The undirected view has one vertex per vertex and one edge per edge of the graph, connecting the images of its endpoints, with mutually inverse vertex mappings. The reversed view has the same vertices and, for each edge from u to v, an edge from v to u, and nothing else.',
  ['inputs'], 'all finite directed graphs, including parallel edges, self loops and isolated vertices',
  'One fixed graph per function is tested.',
  [GR], [('undirected', GR), ('reverse', GR)])
p('G06', 'Depth-first search visits every vertex once and reports exactly the back edges',
  'Depth-first search from a start vertex lists every vertex of the graph exactly once with the start first. The reported back edges are exactly the edges that lead to a vertex still open in that search, so that removing them leaves an acyclic graph and an acyclic graph has none.',
  ['inputs'], 'all finite directed graphs and start vertices',
  'One path and one triangle are tested.',
  [GR, GH], [('depth_first_search', GR), ('back_edges', GR), ('DFSVisitor', GH)])
# ------------------------------------------------------------------ helpers
p('H01', 'Splitting and joining strings are lossless and terminate',
  'Splitting a string at a non-empty delimiter yields pieces in order that contain no delimiter and that, joined with it, give the string back; the pieces are appended to the result list whose earlier contents stay. Joining n elements writes each exactly once in order with exactly n-1 delimiters.',
  ['inputs'], 'all strings and non-empty delimiters; all element lists',
  'Join is tested on one vector and split is not tested at all.',
  [HH], [('split', HH), ('join', HH)])
p('H02', 'Number recognition and parsing agree with decimal notation',
  'A string is recognised as a number exactly when it is non-empty and consists of decimal digits only. Parsing yields 0 and 1 for false and true and the exact value of every decimal text whose value fits the 64-bit type (a leading minus is allowed in the signed form), and raises an error for text that does not begin with a number or whose digits exceed the range of the type (what the unsigned form makes of a leading minus is not specified); so a string recognised as a number that fits is always parsed to its value.',
  ['inputs'], 'all strings',
  'No test covers these functions on arbitrary strings.',
  [HH], [('is_number', HH), ('parse_number_unsigned / parse_number_signed', HH)])
p('H03', 'Suffix test and set-intersection test are exact',
  'The suffix test is true exactly when the first string ends with the second (always for the empty suffix). The intersection test is true exactly when some element belongs to both sets, whichever is larger.',
  ['inputs'], 'all pairs of strings; all pairs of finite sets',
  'A few fixed examples are tested.',
  [HH], [('endswith', HH), ('sets_intersect', HH)])
# ------------------------------------------------------------------ RPC
RC = 'rpc/src/passes/rpc/rpc_context.cpp'; RD = 'rpc/src/passes/rpc/daisytuner_rpc_context.cpp'; RU = 'rpc/src/util/utils_curl.cpp'; RCH = 'rpc/include/sdfg/passes/rpc/rpc_context.h'
p('R01', 'Credentials are taken from the documented sources in order of precedence',
  'The credential used is the job token from the environment if set and non-empty, else the access token from the environment, else the user token file, else the session file, and none otherwise; file tokens have trailing whitespace removed and nothing else changed. The authorization header is "Job <token>" exactly for job tokens and "Token <token>" otherwise, and asking for a context without any credential is an error.',
  ['configurations', 'inputs'], 'all combinations of set, empty and unset variables and present or absent files, all token texts',
  'The RPC tests need a server and are not run; no test varies the sources.',
  [RD], [('find_docc_auth', RD), ('build_auth_header_content', RD), ('from_docc_config', RD)])
p('R02', 'RPC configuration layers override each other field by field',
  'Each configuration source replaces exactly the server, endpoint and headers it specifies and keeps the rest as it was; a header variable is split at its first colon, or is the RPC-Hint header if it has none. The resulting context addresses "server/endpoint" with exactly the accumulated headers, the server override variable wins over the built-in server, and building without a server is an error.',
  ['configurations', 'inputs', 'histories'], 'all sequences of builder calls, all environment values, all configuration files',
  'No runnable test covers the builder.',
  [RC, RCH, RD], [('SimpleRpcContextBuilder', RC), ('SimpleRpcContext', RCH), ('DaisytunerRpcContext', RD)])
p('R03', 'An HTTP exchange is classified as success exactly for answers 200 to 203',
  'A request result carries an error message exactly when the transfer failed or the HTTP status is not in 200..203, with 401 reported as an authentication problem, and always carries the complete received body, transfer code and, after a completed transfer, the status. The request is sent to the given address with the given payload and headers.',
  ['inputs', 'fault_sequences'], 'all transfer outcomes, HTTP statuses and bodies delivered in any chunks',
  'No runnable test covers it; it needs a server.',
  [RU], [('post_json', RU)])
# ------------------------------------------------------------------ runtime header
p('M01', 'The runtime integer power equals exact exponentiation',
  'For every integer base and non-negative exponent whose exact power is representable, the runtime power function returns that power without undefined behaviour on the way, and for every negative exponent it returns 0. It terminates for all arguments.',
  ['inputs'], 'all pairs of 32-bit integers',
  'No test calls it.',
  [RH], [('__daisy_sym_pow', RH)])
p('M02', 'The runtime min, max and multiply-add helpers compute their function in context',
  'For all side-effect-free operand expressions of a common arithmetic type, and wherever they are used inside a larger expression, the runtime minimum and maximum return the smaller and larger operand value and the multiply-add returns a*b+c as one operand.',
  ['inputs', 'programs'], 'all operand values and expression contexts generated code can place them in',
  'No test expands the helpers inside larger expressions.',
  [RH], [('__daisy_min / __daisy_max / __daisy_fma', RH)])
# ------------------------------------------------------------------ types / tables
p('T01', 'Primitive-type tables agree with the type enumeration on both sides',
  'Every primitive type number names the same type in the compiler and in the capture runtime, and the runtime\'s name, C++ spelling and epsilon tables have exactly one correct entry per type (epsilon is the spacing of the values next to 1, 0 for types that are not floating-point; the double-double type, which has no such spacing, has a positive entry below that of double). Converting a type number outside the enumeration to text yields a marker and never reads outside a table.',
  ['inputs', 'configurations'], 'all enumeration values and all integers',
  'One test converts a single value.',
  [PT, 'sdfg/include/sdfg/types/type.h'], [('primitive_type_names / _cppspellings / _machine_epsilons', PT), ('to_string', PT)])
p('T02', 'Compiler primitive-type helpers are mutually consistent',
  'Converting a primitive type to text and back is the identity and unknown text is rejected. Bit width, signedness, integer and floating-point classification and the signed/unsigned counterparts agree: counterparts keep the width, flip only signedness and are inverse to each other.',
  ['inputs'], 'all primitive types and all strings',
  'The type tests sample individual types.',
  ['sdfg/include/sdfg/types/type.h'], [('primitive_type_to_string / primitive_type_from_string', 'sdfg/include/sdfg/types/type.h'), ('bit_width, is_signed, as_signed, ...', 'sdfg/include/sdfg/types/type.h')])
p('T03', 'Tasklet operation metadata is total and consistent',
  'Every tasklet operation has the arity of the operation it names and belongs to exactly one of the integer, floating-point or assignment classes. The operations classified unsigned are exactly those that interpret their operands as unsigned numbers, and every one of them is an integer operation.',
  ['inputs'], 'all tasklet operations',
  'Tests sample individual operations.',
  ['sdfg/include/sdfg/data_flow/tasklet.h', 'sdfg/src/data_flow/tasklet.cpp'], [('arity, is_integer, is_floating_point, is_unsigned', 'sdfg/include/sdfg/data_flow/tasklet.h')])
p('T04', 'Generated C and C++ for a tasklet computes the operation it denotes',
  'For every tasklet operation and all operand values it is defined for, the C, C++ and CUDA expression emitted for it evaluates to the result the operation denotes: integer operations with their signedness at the operand width (operands declared in an 8 to 64 bit type of the signedness the operation interprets, as the dispatcher does for unsigned operations), floating-point arithmetic and fmod, ordered comparisons false and unordered ones true when an operand is NaN. The text emitted for a primitive type is a type of its width, signedness and kind.',
  ['programs', 'inputs'], 'all tasklet operations, 8 to 64 bit integers, float and double operands, and all operand values (including NaN, infinities and negative numbers)',
  'The code generation tests compare a few emitted strings and never execute them on special values.',
  ['sdfg/src/codegen/language_extensions/c_language_extension.cpp', 'sdfg/src/codegen/language_extensions/cpp_language_extension.cpp'],
  [('tasklet(), primitive_type()', 'sdfg/src/codegen/language_extensions/c_language_extension.cpp')])
p('T05', 'Tensor views address the elements of the tensor they were made from',
  'A tensor built from a shape alone is row-major: the last axis has stride one, each stride is the extent times the stride of the next axis, and the number of elements is the product of the extents. A view has the element type, storage, alignment and initializer of its tensor, and: flip(axis) maps index i of that axis to index extent-1-i and keeps every other axis; newaxis/unsqueeze insert one axis of extent one that does not move any element; squeeze removes the given axis (only an integer-literal extent of one is accepted) or exactly the axes whose extent is literally one, keeping the order, extents and strides of the others and the offset; reshape is accepted only if the number of elements stays the same (as expressions) and gives the row-major tensor of the requested shape at the same offset, so that a row-major tensor keeps its elements in order. An axis out of range is an error.',
  ['inputs', 'histories'], 'all ranks, all literal and symbolic extents, strides and offsets, all axes, and all compositions of views',
  'The tests look at one or two literal shapes of small rank.',
  ['sdfg/src/types/tensor.cpp'], [('flip, newaxis, squeeze, reshape, strides_from_shape, total_elements', 'sdfg/src/types/tensor.cpp')])
p('T06', 'Merging source locations covers both and never mixes files or functions',
  'Merging two source ranges gives, when one of them is absent, the other one unchanged; when they name different files, or different known functions, the left one unchanged; otherwise the smallest range in the common file that covers both: it begins at the earlier of the two starts and ends at the later of the two ends, compared by line and then by column, and carries the function that is known.',
  ['inputs'], 'all pairs of source ranges',
  'The tests merge ranges whose lines differ and in one file.',
  ['sdfg/src/element.cpp'], [('DebugInfo::merge', 'sdfg/src/element.cpp')])
p('T07', 'An assignment is classified as exactly the conversion its two types make',
  'For an assignment tasklet, each of the classifications is true exactly for the pairs of input and output type it is documented for: trivial for equal types and cast for different ones; zero extension from an unsigned to a wider unsigned integer, sign extension from a signed to a wider signed integer, truncation from an integer to a narrower one of which neither or both are unsigned; conversions between floating-point and signed or unsigned integers in either direction; floating-point extension and truncation by width. No pair of types is of two kinds, a pair of any kind is a cast, and operations other than assignments are of none.',
  ['inputs'], 'all operations and all pairs of primitive types',
  'Few pairs of types appear in the tests; a widening from Bool or between floating-point types was classified as a sign extension.',
  ['sdfg/include/sdfg/data_flow/tasklet.h', 'sdfg/src/data_flow/tasklet.cpp'], [('Tasklet', 'sdfg/src/data_flow/tasklet.cpp')])
p('T08', 'C math functions have the names and arities of <math.h> and are read back',
  'For every C math function, the number of arguments is the number of parameters <math.h> declares, and the emitted name is the name of <math.h> for the floating-point type of the operands: suffix f for Half, BFloat and Float, none for Double, l for the wider types, and an error for types that are not floating-point. A text is read as a function exactly if it is the name of that function with no suffix, f or l, and any other text is an error; so what is written is read back as the same function.',
  ['inputs'], 'all functions, all primitive types and all texts',
  'The tests build a node for most functions and take the number of inputs from the table they would have to check.',
  ['sdfg/include/sdfg/data_flow/library_nodes/math/cmath/cmath_node.h', 'sdfg/src/data_flow/library_nodes/math/cmath/cmath_node.cpp'], [('cmath_function_to_arity', 'sdfg/include/sdfg/data_flow/library_nodes/math/cmath/cmath_node.h'), ('string_to_cmath_function', 'sdfg/src/data_flow/library_nodes/math/cmath/cmath_node.cpp')])
p('A01', 'The compiler argument registry keeps per-target arguments exactly as registered',
  'Registering compile or linker arguments for a target that has none makes exactly that list, in order, available for that target and kind; registering the same kind again for that target is an error and changes nothing. Compile and linker arguments are independent, other targets are unaffected, a target never registered has no arguments, and the counts match the stored lists. Concurrent callers observe every operation as atomic.',
  ['histories', 'schedules'], 'all sequences of registrations and queries, all target names and argument lists, and all interleavings of concurrent callers',
  'The registry has no tests.',
  ['sdfg/include/sdfg/codegen/code_compilation/argument_registry.h'], [('ArgumentRegistry', 'sdfg/include/sdfg/codegen/code_compilation/argument_registry.h')])
# ------------------------------------------------------------------ compiler-level guarantees
p('X01', 'Every optimization pass preserves the observable behaviour of the program',
  'Running any pass or pipeline on a valid program yields a program that, for every input on which the original is defined, writes the same values to externals, memory and the return value and calls library functions with the same arguments in the same order.',
  ['programs', 'inputs'], 'all structured programs, all passes and pipelines, all inputs',
  'Each pass is tested on a handful of hand-built programs by shape; equivalence over all programs and inputs is never compared.',
  ['sdfg/src/passes', 'opt/src/passes'], [('Pass::run', 'sdfg/src/passes/pass.cpp')])
p('X02', 'Data-dependence analysis never misses a dependence',
  'Whenever two iterations of a loop access the same memory cell and one of them writes it, the analysis reports a loop-carried dependence between the corresponding accesses (or refuses to analyse); a loop turned parallel therefore gives the same result in every iteration order.',
  ['programs', 'inputs', 'schedules'], 'all loop nests, subscripts and parameter values',
  'Tests check the verdicts on individual loop nests.',
  ['sdfg/src/analysis/data_dependency_analysis.cpp', 'sdfg/src/symbolic/maps.cpp'], [('DataDependencyAnalysis', 'sdfg/src/analysis/data_dependency_analysis.cpp')])
p('X03', 'Symbolic simplification and bounds preserve the value of every expression',
  'For every assignment of integers to symbols that satisfies the assumptions, a simplified, expanded or substituted expression has the value of the original; reported minima and maxima bound it; and proved inequalities, disjointness and monotonicity hold.',
  ['inputs'], 'all symbolic expressions and all assignments of symbols',
  'Tests compare a few fixed expressions.',
  ['sdfg/src/symbolic'], [('symbolic::simplify, minimum, maximum', 'sdfg/src/symbolic/symbolic.cpp')])
p('X04', 'Serializing and deserializing a program is the identity',
  'Loading the JSON written for any valid program gives a program with the same containers, types, control flow, data flow, element ids, debug information and metadata, and loading never accepts a document as a different program.',
  ['programs'], 'all programs, including all library nodes and types',
  'Tests round-trip individual node kinds.',
  ['sdfg/src/serializer/json_serializer.cpp'], [('JSONSerializer', 'sdfg/src/serializer/json_serializer.cpp')])
p('X05', 'Generated code for every target computes what the program denotes',
  'For each supported target the generated source, compiled by a conforming compiler, has the observable behaviour of the program; all data transfers to and from accelerators happen before their first and after their last use, and no buffer is freed or reused while live.',
  ['programs', 'configurations', 'inputs'], 'all programs and targets',
  'Tests compare emitted snippets; accelerators are not available.',
  ['sdfg/src/codegen', 'targets'], [('CodeGenerator', 'sdfg/src/codegen/code_generators')])
p('X06', 'Loop transformations are applied only when legal and visit the same iterations',
  'A loop transformation reported as applicable can be applied, keeps the program valid and executes exactly the iterations of the original loop nest in an order that respects all dependences; a transformation reported as inapplicable leaves the program untouched.',
  ['programs', 'inputs'], 'all loop nests, bounds and tile sizes',
  'Tests apply each transformation to a few fixed loop nests and inspect the resulting shape.',
  ['sdfg/src/transformations', 'opt/src/transformations'], [('Transformation::can_be_applied / apply', 'sdfg/include/sdfg/transformations/transformation.h')])
p('X07', 'Recording and replaying a transformation sequence reproduces the program',
  'Replaying a recorded sequence on the program it was recorded on gives the same transformed program, and a sequence whose step is not applicable is rejected with the step identified instead of being applied partly in silence.',
  ['programs', 'histories'], 'all programs and transformation sequences',
  'Tests replay a few fixed sequences.',
  ['sdfg/src/transformations/recorder.cpp', 'sdfg/src/transformations/replayer.cpp'], [('Recorder / Replayer', 'sdfg/src/transformations/replayer.cpp')])
p('X08', 'The Python and MLIR front ends translate programs faithfully',
  'A Python function or MLIR module accepted by a front end is translated into a program with the behaviour the source language defines for it, for all argument values, shapes, strides and dtypes; constructs outside the supported subset are rejected instead of being mistranslated.',
  ['programs', 'inputs'], 'all accepted source programs and arguments',
  'Tests run a finite list of kernels.',
  ['python', 'mlir'], [('Python AST translation', 'python/docc'), ('MLIR conversion', 'mlir')])
p('X09', 'Builder operations keep programs well formed',
  'Every builder operation either raises an error and leaves the program as it was, or leaves it valid: every referenced container exists with a compatible type, element ids are unique, data-flow graphs are acyclic with correctly typed connectors, and control-flow children have exactly one parent.',
  ['histories', 'programs'], 'all sequences of builder operations',
  'Tests build individual programs.',
  ['sdfg/src/builder', 'sdfg/src/data_flow', 'sdfg/src/function.cpp'], [('StructuredSDFGBuilder', 'sdfg/src/builder/structured_sdfg_builder.cpp')])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + '\n')
print(len(P))
